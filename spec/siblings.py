# -*- coding: utf-8 -*-
"""every public getter gives an answer of its kind; getters that name the same thing agree"""
from lunar_python import Solar, Lunar, LunarTime, Foto, Tao
from .cal import *
from .world import *
from .getters_data import GETTERS

YEARS = {'quick': [1, 1500, 1582, 1900, 2000, 2025, 9999], 'thorough': [1, 4, 99, 100, 1500, 1581, 1582, 1583, 1600, 1700, 1899, 1900, 1987, 1988, 1999, 2000, 2001, 2024, 2025, 3000, 9996, 9999]}
QUARTER = {'quick': [0, 2, 3], 'thorough': range(0, 8)}


def scene(m, i, p):
    """one date per (month, kind of position, day pillar): mid-month, late-zi hour, day of the 节 before and after its moment"""
    k = i % 4
    d, hour = ((13, (p * 5 + m + i) % 23), (13, 23), (5, 3), (5, 23))[k]
    y = 1700 + (p * 37 + m * 11 + i * 5) % 480
    w = World(m, pillar=p, yclass=y % 1200, lo=y, hi=y, hour=hour, free=-1, days=(d, d), minute=(p * 3 + 10) % 60, week=(p // 12 + m + i) % 7, simple=True)
    w.install()
    return w


# getters that may return None (no term / no such period on that day)
OPTIONAL = ('getCurrentJie', 'getCurrentQi', 'getCurrentJieQi', 'getFu', 'getShuJiu')
# texts that may be empty
BLANK = ('getJie', 'getQi', 'getJieQi', 'getMonthPositionTai', 'getRemark', 'getResult', 'getSongInTaiYi', 'getBaMenInQiMen')


def total(o, skip=()):
    """call every public getter"""
    cls = class_name(o)
    have = public_methods(o)
    for k, ns in GETTERS[cls].items():
        for n in ns.split(' '):
            require(n in have, 'getter %s.%s is there' % (cls, n))
            if n in skip:
                continue
            try:
                r = getattr(o, n)()
            except Exception as e:
                fail('%s.%s raises %s' % (cls, n, e.__class__.__name__))
            if r is None:
                require(n in OPTIONAL, '%s.%s gives an answer for every date' % (cls, n))
                continue
            if k != 'float':
                require(kind_of(r) == k, '%s.%s is always of kind %s' % (cls, n, k))
            if k == 'str' and n not in BLANK:
                require(r != '', '%s.%s is never empty' % (cls, n))
            if k == 'list' and n not in ('getFestivals', 'getOtherFestivals'):
                require(len(r) > 0, '%s.%s is never empty' % (cls, n))
    if 'toString' in have:
        require_eq(str(o), o.toString(), cls + ': text form')


# ------------------------------------------------------------------ C17
@obligation('C17', m=range(1, 13), i=QUARTER, anchor='Lunar.toFullString', rule='every public getter of a lunar date answers on every date')
def lunar_total(m, i):
    p = choice('day pillar', list(range(0, 60)) if i == 0 else list(range(i + m % 4, 60, 7)))
    w = scene(m, i, p)
    lm = (m * 5 + p) % 12 + 1
    if p % 3 == 0:
        lm = 0 - lm
    u = w.lunar((lm, 0), 1 + (p * 7 + m) % 29)
    total(u)


@obligation('C17', m=range(1, 13), i=QUARTER, anchor='LunarTime', rule='every public getter of the objects of a lunar date answers')
def parts_total(m, i):
    p = choice('day pillar', list(range(i + m % 4, 60, 7)))
    w = scene(m, i, p)
    lm = (m * 5 + p) % 12 + 1
    if p % 3 == 0:
        lm = 0 - lm
    u = w.lunar((lm, 0), 1 + (p * 7 + m) % 29)
    for o in (u.getTime(), u.getYearNineStar(), u.getMonthNineStar(), u.getDayNineStar(), u.getTimeNineStar(), u.getFoto(), u.getTao(), u.getEightChar()):
        total(o)
    for o in (u.getPrevJie(), u.getNextQi(), u.getPrevJieQi(True)):
        total(o)
    for o in (u.getFu(), u.getShuJiu()):
        if o is not None:
            total(o)
    for f in u.getFoto().getFestivals():
        total(f)
    for f in u.getTao().getFestivals():
        total(f)


@obligation('C17', m=range(1, 13), y=YEARS, anchor='Solar.toFullString', rule='every public getter of a solar date answers on every date')
def solar_total(m, y):
    d = choice('day', list(range(1, last(y, m) + 1)))
    assume(exists(y, m, d))
    total(Solar.fromYmdHms(y, m, d, (m * 7) % 24, 12, 40), ('getLunar',))


@obligation('C17', m=range(1, 13), gender=[0, 1], anchor='Yun', rule='every public getter of the luck periods answers')
def yun_total(m, gender):
    p = choice('day pillar', list(range(m % 6, 60, 6)))
    w = scene(m, 0, p)
    u = w.lunar('any')
    for sect in (1, 2):
        yun = u.getEightChar().getYun(gender, sect)
        total(yun)
        for x in yun.getDaYun(3):
            if concrete(x.getIndex()) > 0:
                require(x.getGanZhi() in JIAZI, 'pillar of the period')
                total(x)
            else:
                require_eq(x.getGanZhi(), '', 'no pillar before the first period')
                total(x, ('getGanZhi', 'getXun', 'getXunKong', 'getLiuNian', 'getXiaoYun'))
        x = yun.getDaYun(2)[1]
        for t in (x.getLiuNian(2)[1], x.getXiaoYun(2)[1], x.getLiuNian(2)[0].getLiuYue()[11]):
            total(t)


# ------------------------------------------------------------------ C18
@obligation('C18', m=range(1, 13), i=QUARTER, anchor='Lunar.getPositionXi', rule='the short names are the day getters; a double-hour object gives what the date gives for its time')
def aliases(m, i):
    p = choice('day pillar', list(range(0, 60)) if i == 0 else list(range(i + m % 4, 60, 7)))
    w = scene(m, i, p)
    lm = 1 + (m + p) % 12
    u = w.lunar((0 - lm if p % 3 == 1 else lm, 0), 1 + (p * 7 + m) % 29)
    for n in ('PositionXi', 'PositionYangGui', 'PositionYinGui', 'PositionCai', 'PositionFu', 'PositionXiDesc', 'PositionYangGuiDesc', 'PositionYinGuiDesc', 'PositionCaiDesc', 'PositionFuDesc',
              'Chong', 'ChongGan', 'ChongGanTie', 'ChongShengXiao', 'ChongDesc', 'Sha'):
        require_eq(getattr(u, 'get' + n)(), getattr(u, 'getDay' + n)(), 'get%s and getDay%s' % (n, n))
    t = u.getTime()
    t2 = LunarTime.fromYmdHms(u.getYear(), u.getMonth(), u.getDay(), u.getHour(), u.getMinute(), u.getSecond())
    for n in ('PositionXi', 'PositionYangGui', 'PositionYinGui', 'PositionCai', 'PositionFu', 'PositionXiDesc', 'PositionYangGuiDesc', 'PositionYinGuiDesc', 'PositionCaiDesc', 'PositionFuDesc',
              'Chong', 'ChongGan', 'ChongGanTie', 'ChongShengXiao', 'ChongDesc', 'Sha', 'Gan', 'Zhi', 'ShengXiao', 'NaYin', 'TianShen', 'TianShenType', 'TianShenLuck', 'Yi', 'Ji', 'Xun', 'XunKong',
              'GanIndex', 'ZhiIndex'):
        a = getattr(u, 'getTime' + n)()
        require_eq(getattr(t, 'get' + n)(), a, 'getTime().get%s and getTime%s' % (n, n))
        require_eq(getattr(t2, 'get' + n)(), a, 'LunarTime.get%s and getTime%s' % (n, n))
    for k in (1, 2):
        a = u.getTimePositionFu(k)
        require_eq(t.getPositionFu(k), a, 'fortune direction of the time')
        require_eq(t.getPositionFuDesc(k), u.getTimePositionFuDesc(k), 'fortune direction of the time')
    require_eq(t.getGanZhi(), u.getTimeInGanZhi(), 'time pillar')
    require_eq(t.toString(), u.getTimeInGanZhi(), 'text of the double-hour')
    require_eq(t.getNineStar().getIndex(), u.getTimeNineStar().getIndex(), 'time star')
    e = u.getEightChar()
    require_eq([e.getYear(), e.getMonth(), e.getDay(), e.getTime()], [u.getYearInGanZhiExact(), u.getMonthInGanZhiExact(), u.getDayInGanZhiExact2(), u.getTimeInGanZhi()], 'eight characters of the date')
    require_eq(u.getBaZi(), [e.getYear(), e.getMonth(), e.getDay(), e.getTime()], 'list of the eight characters')
    require_eq(e.toString(), ' '.join(u.getBaZi()), 'text of the eight characters')
    require(is_same(e.getLunar(), u) or e.getLunar().toString() == u.toString(), 'date of the eight characters')
    f, o = u.getFoto(), u.getTao()
    require_eq([f.getLunar().toString(), o.getLunar().toString()], [u.toString(), u.toString()], 'date of the Buddhist and Taoist dates')
    require_eq([f.getMonthInChinese(), f.getDayInChinese(), o.getMonthInChinese(), o.getDayInChinese()], [u.getMonthInChinese(), u.getDayInChinese()] * 2, 'month and day texts')


@obligation('C18', m=range(1, 13), i=QUARTER, anchor='Lunar.toFullString', rule='the full text repeats the getters')
def full_text(m, i):
    p = choice('day pillar', list(range(0, 60)) if i == 0 else list(range(i + m % 4, 60, 7)))
    w = scene(m, i, p)
    lm = 1 + (m * 5 + p) % 12
    u = w.lunar((0 - lm if p % 3 == 1 else lm, 0), 1 + (p * 7 + m) % 29)
    s = u.toString() + ' %s(%s)年 %s(%s)月 %s(%s)日 %s(%s)时' % (
        u.getYearInGanZhi(), u.getYearShengXiao(), u.getMonthInGanZhi(), u.getMonthShengXiao(), u.getDayInGanZhi(), u.getDayShengXiao(), u.getTimeZhi(), u.getTimeShengXiao())
    s = s + ' 纳音[%s %s %s %s] 星期%s' % (u.getYearNaYin(), u.getMonthNaYin(), u.getDayNaYin(), u.getTimeNaYin(), u.getWeekInChinese())
    for f in u.getFestivals() + u.getOtherFestivals():
        s = s + ' (' + f + ')'
    if u.getJieQi() != '':
        s = s + ' [' + u.getJieQi() + ']'
    s = s + ' %s方%s 星宿[%s%s%s](%s)' % (u.getGong(), u.getShou(), u.getXiu(), u.getZheng(), u.getAnimal(), u.getXiuLuck())
    s = s + ' 彭祖百忌[%s %s]' % (u.getPengZuGan(), u.getPengZuZhi())
    for name, n in (('喜神', 'Xi'), ('阳贵神', 'YangGui'), ('阴贵神', 'YinGui'), ('福神', 'Fu'), ('财神', 'Cai')):
        s = s + ' %s方位[%s](%s)' % (name, getattr(u, 'getDayPosition' + n)(), getattr(u, 'getDayPosition' + n + 'Desc')())
    s = s + ' 冲[%s] 煞[%s]' % (u.getDayChongDesc(), u.getDaySha())
    require_eq(u.toFullString(), s, 'full text of a lunar date')
    require_eq(str(u), u.toString(), 'text of a lunar date')
    o = u.getTao()
    require_eq(o.toFullString(), '道歷%s年，天运%s年，%s月，%s日。%s月%s日，%s時。' % (o.getYearInChinese(), u.getYearInGanZhi(), u.getMonthInGanZhi(), u.getDayInGanZhi(), u.getMonthInChinese(),
                                                                      u.getDayInChinese(), u.getTimeZhi()), 'full text of a Taoist date')


@obligation('C18', m=range(1, 13), y=YEARS, anchor='Solar.toFullString', rule='the full text of a solar date repeats the getters')
def solar_text(m, y):
    d = choice('day', list(range(1, last(y, m) + 1)))
    assume(exists(y, m, d))
    o = Solar.fromYmdHms(y, m, d, (m * 7) % 24, 12, 40)
    s = o.toYmdHms()
    if o.isLeapYear():
        s = s + ' 闰年'
    s = s + ' 星期' + o.getWeekInChinese()
    for f in o.getFestivals() + o.getOtherFestivals():
        s = s + ' (' + f + ')'
    require_eq(o.toFullString(), s + ' ' + o.getXingZuo() + '座', 'full text of a solar date')
    require_eq(str(o), o.toYmd(), 'text of a solar date')


@obligation('C17', y={'quick': [2, 16, 24, 237, 240, 1582, 2033, 9997], 'thorough': list(range(1, 30)) + list(range(234, 244)) + [618, 619, 1581, 1582, 1583, 2033, 2262] + list(range(100, 9998, 271))},
            d=[(1, 1), (2, 28), (10, 15), (12, 31)], anchor='Lunar.toFullString', rule='every public getter answers on real dates of unusual years')
def real_total(y, d):
    o = Solar.fromYmdHms(y, d[0], d[1], 23, 30, 0)
    u = o.getLunar()
    total(u)
    total(u.getTime())
    total(u.getFoto())
    total(u.getTao())
    total(u.getEightChar())
    require_eq(u.getSolar().toYmdHms(), o.toYmdHms(), 'civil date of the lunar date')
