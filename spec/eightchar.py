# -*- coding: utf-8 -*-
"""attributes of the eight characters, derived palaces, luck periods"""
from lunar_python import Solar, Lunar
from lunar_python.util import LunarUtil
from .cal import *
from .world import *
from .day import jz, nayin, xun_kong, scene

# hidden stems of a branch, main stem first
HIDE = ('癸', '己癸辛', '甲丙戊', '乙', '戊乙癸', '丙庚戊', '丁己', '己丁乙', '庚壬戊', '辛', '戊辛丁', '壬甲')
ELEMENT_GAN = '木木火火土土金金水水'
ELEMENT_ZHI = '水土木木土火火土金金土水'
STAGES = ('长生', '沐浴', '冠带', '临官', '帝旺', '衰', '病', '死', '墓', '绝', '胎', '养')
# branch where each stem is born
BORN = '亥午寅酉寅酉巳子申卯'
GODS = (('比肩', '劫财'), ('食神', '伤官'), ('偏财', '正财'), ('七杀', '正官'), ('偏印', '正印'))
MONTH_TEXT = ('正', '二', '三', '四', '五', '六', '七', '八', '九', '十', '冬', '腊')


def god(me, other):
    """relation of another stem to the day stem: by element cycle and polarity"""
    return GODS[(other // 2 - me // 2) % 5][0 if me % 2 == other % 2 else 1]


def stage(me, z):
    b = ZHI.index(BORN[me])
    return STAGES[(z - b) % 12 if me % 2 == 0 else (b - z) % 12]


def world_of(yp, p):
    """a date of the year pillar yp and the day pillar p"""
    i = (yp // 4 + p) % 4
    m = 1 + (yp + p + p // 12) % 12
    if i == 0 or i == 3:
        days, hour = (11, 16), (yp * 7 + p * 5) % 23
    elif i == 1:
        days, hour = (11, 16), 23
    else:
        # the day of the 节, before or after its moment (9:30:45)
        days, hour = (5, 5), (yp + p) % 24
    w = World(m, pillar=p, ypillar=yp, hour=hour, free=-1, days=days, week=(p + yp) % 7)
    w.install()
    return w


# ------------------------------------------------------------------ C19
@obligation('C19', yp=range(0, 60), anchor='EightChar.getYearShiShenGan', rule='hidden stems, elements, NaYin, ten gods, twelve stages, decades of the four pillars')
def char_attributes(yp):
    p = choice('day pillar', list(range(0, 60)))
    w = world_of(yp, p)
    u = w.lunar('any')
    e = u.getEightChar()
    yg, yz = concrete(u.getYearGanIndexExact()), concrete(u.getYearZhiIndexExact())
    mg, mz = concrete(u.getMonthGanIndexExact()), concrete(u.getMonthZhiIndexExact())
    tg, tz = concrete(u.getTimeGanIndex()), concrete(u.getTimeZhiIndex())
    require_eq(e.getSect(), 2, 'the default convention is 2')
    for sect in (2, 1):
        e.setSect(sect)
        if sect == 2:
            dg, dz = concrete(u.getDayGanIndexExact2()), concrete(u.getDayZhiIndexExact2())
        else:
            dg, dz = concrete(u.getDayGanIndexExact()), concrete(u.getDayZhiIndexExact())
        for kind, g, z in (('Year', yg, yz), ('Month', mg, mz), ('Day', dg, dz), ('Time', tg, tz)):
            hidden = list(HIDE[z])
            gods = [god(dg, GAN.index(h)) for h in hidden]
            require_eq(getattr(e, 'get' + kind + 'HideGan')(), hidden, kind + ' hidden stems')
            require_eq(getattr(e, 'get' + kind + 'WuXing')(), ELEMENT_GAN[g] + ELEMENT_ZHI[z], kind + ' elements')
            require_eq(getattr(e, 'get' + kind + 'NaYin')(), nayin(jz(g, z)), kind + ' NaYin')
            require_eq(getattr(e, 'get' + kind + 'ShiShenGan')(), '日主' if kind == 'Day' else god(dg, g), kind + ' ten god of the stem')
            require_eq(getattr(e, 'get' + kind + 'ShiShenZhi')(), gods, kind + ' ten gods of the hidden stems')
            require_eq(getattr(e, 'get' + kind + 'DiShi')(), stage(dg, z), kind + ' stage of the day stem')
            n = jz(g, z)
            require_eq(getattr(e, 'get' + kind + 'Xun')(), JIAZI[n // 10 * 10], kind + ' decade')
            require_eq(getattr(e, 'get' + kind + 'XunKong')(), xun_kong(n), kind + ' void branches')
        require_eq(u.getBaZiWuXing(), [e.getYearWuXing(), e.getMonthWuXing(), e.getDayWuXing(), e.getTimeWuXing()], 'getBaZiWuXing')
        require_eq(u.getBaZiNaYin(), [e.getYearNaYin(), e.getMonthNaYin(), e.getDayNaYin(), e.getTimeNaYin()], 'getBaZiNaYin')
        require_eq(u.getBaZiShiShenGan(), [e.getYearShiShenGan(), e.getMonthShiShenGan(), e.getDayShiShenGan(), e.getTimeShiShenGan()], 'getBaZiShiShenGan')
        require_eq(u.getBaZiShiShenYearZhi(), e.getYearShiShenZhi(), 'getBaZiShiShenYearZhi')
        require_eq(u.getBaZiShiShenMonthZhi(), e.getMonthShiShenZhi(), 'getBaZiShiShenMonthZhi')
        require_eq(u.getBaZiShiShenDayZhi(), e.getDayShiShenZhi(), 'getBaZiShiShenDayZhi')
        require_eq(u.getBaZiShiShenTimeZhi(), e.getTimeShiShenZhi(), 'getBaZiShiShenTimeZhi')
        require_eq(u.getBaZiShiShenZhi(), [e.getYearShiShenZhi()[0], e.getMonthShiShenZhi()[0], e.getDayShiShenZhi()[0], e.getTimeShiShenZhi()[0]], 'getBaZiShiShenZhi')


# ------------------------------------------------------------------ C20
@obligation('C20', yp=range(0, 60), anchor='EightChar.getMingGong', rule='TaiYuan, TaiXi, MingGong and ShenGong by their rules; members of the sixty-cycle with their NaYin')
def palaces(yp):
    p = choice('day pillar', list(range(0, 60)))
    w = world_of(yp, p)
    u = w.lunar('any')
    e = u.getEightChar()
    yg = concrete(u.getYearGanIndexExact())
    mg, mz = concrete(u.getMonthGanIndexExact()), concrete(u.getMonthZhiIndexExact())
    tz = concrete(u.getTimeZhiIndex())
    g, z = (mg + 1) % 10, (mz + 3) % 12
    require_eq(e.getTaiYuan(), GAN[g] + ZHI[z], 'TaiYuan: next stem, third branch after the month')
    require_eq(e.getTaiYuanNaYin(), nayin(jz(g, z)), 'TaiYuan NaYin')
    for sect in (2, 1):
        e.setSect(sect)
        if sect == 2:
            dg, dz = concrete(u.getDayGanIndexExact2()), concrete(u.getDayZhiIndexExact2())
        else:
            dg, dz = concrete(u.getDayGanIndexExact()), concrete(u.getDayZhiIndexExact())
        g, z = (dg + 5) % 10, (1 - dz) % 12
        require_eq(e.getTaiXi(), GAN[g] + ZHI[z], 'TaiXi: the five and six combinations of the day')
        require_eq(e.getTaiXiNaYin(), nayin(jz(g, z)), 'TaiXi NaYin')
    # months and hours counted from 寅 = 1
    a, b = (mz - 2) % 12 + 1, (tz - 2) % 12 + 1
    n = 14 - (a + b) if a + b < 14 else 26 - (a + b)
    g, z = (2 * yg + 1 + n) % 10, (n + 1) % 12
    require_eq(e.getMingGong(), GAN[g] + ZHI[z], 'MingGong: month and hour count to fourteen (or twenty-six), stem by the five tigers')
    require_eq(e.getMingGongNaYin(), nayin(jz(g, z)), 'MingGong NaYin')
    # hours counted from 子 = 1
    n = a + tz + 1
    if n > 12:
        n = n - 12
    g, z = (2 * yg + 1 + n % 12) % 10, (n + 1) % 12
    require_eq(e.getShenGong(), GAN[g] + ZHI[z], 'ShenGong: month plus hour, stem by the five tigers')
    require_eq(e.getShenGongNaYin(), nayin(jz(g, z)), 'ShenGong NaYin')


# ------------------------------------------------------------------ C21
def seg(h):
    """double-hour number inside a civil day: 23:00 still belongs to the last one"""
    return 11 if h == 23 else (h + 1) // 2


DAYS = [2, 4, 5, 6, 13, 20, 21, 28]


@obligation('C21', m=range(1, 13), gender=[0, 1], sect=[1, 2], hour={'quick': [0, 9, 14, 23], 'thorough': range(0, 24)}, anchor='Yun.isForward', rule='direction by year stem and gender; start offset from the distance to the 节 in that direction')
def start(m, gender, sect, hour):
    yc = (m * 107 + gender * 33 + sect * 211 + hour * 31) % 1200
    d = choice('day', DAYS)
    w = World(m, pillar=(m * 5) % 60, yclass=yc, hour=hour, free=-1, days=(d, d), minute=20 + 20 * ((m + gender) % 2) if sect == 1 else None)
    # the moments of the surrounding 节 vary
    w.install()
    t = 2 * (m - 1)
    n = choice('hours of the 节', [0, 1, 2])
    for k in (t - 2, t, t + 2):
        r = w.term(k)
        r.h = (0, 9, 23)[n]
        n = (n + 1) % 3
        w.days[key_of(r.jd)] = (r.y, r.m, r.d, r.h, r.mi, r.s)
    u = w.lunar('any')
    yun = u.getEightChar().getYun(gender, sect)
    yang = concrete(u.getYearGanIndexExact()) % 2 == 0
    forward = yang == (gender == 1)
    require_eq(yun.isForward(), forward, 'forward for men of 阳 years and women of 阴 years')
    require_eq(yun.getGender(), gender, 'gender')
    at = t if w.reached(t, True) else t - 2
    a = w.term(at + 2 if forward else at)
    n = w.offset(a.y, a.m, a.d)
    mins = n * 1440 + (a.h - hour) * 60 + (a.mi - w.mi)
    segs = n * 12 + seg(a.h) - seg(hour)
    if not forward:
        mins = 0 - mins
        segs = 0 - segs
    if sect == 2:
        # three days a year, one day four months, one double-hour ten days, twelve minutes a day, one minute two hours
        want = [mins // 4320, mins % 4320 // 360, mins % 360 // 12, mins % 12 * 2]
    else:
        want = [segs // 36, segs % 36 // 3, segs % 3 * 10, 0]
    got = [yun.getStartYear(), yun.getStartMonth(), yun.getStartDay(), yun.getStartHour()]
    require_eq(got, want, 'start of the luck periods')


@obligation('C21', yp=range(0, 60), anchor='DaYun.getGanZhi', rule='luck decades: years, ages and pillars run on consecutively; yearly, minor and monthly luck likewise')
def periods(yp):
    gender = choice('gender', [0, 1])
    sect = 1 + (yp // 2 + gender) % 2
    p = (yp * 7 + gender) % 60
    m = 1 + (yp + gender * 5 + sect * 3) % 12
    days = (11, 11) if (yp // 12 + sect) % 3 else (5, 5)
    w = World(m, pillar=p, yclass=yp * 61 % 1200, hour=(yp * 5 + 1) % 24, free=-1, days=days, minute=20, simple=True)
    w.install()
    u = w.lunar('any')
    yun = u.getEightChar().getYun(gender, sect)
    birth = u.getSolar()
    s = birth.nextYear(yun.getStartYear()).nextMonth(yun.getStartMonth()).next(yun.getStartDay()).nextHour(yun.getStartHour())
    require_eq(yun.getStartSolar().toYmdHms(), s.toYmdHms(), 'the first decade starts the computed years, months, days and hours after birth')
    first = s.getYear()
    y0 = birth.getYear()
    month = u.getMonthInGanZhiExact()
    base = JIAZI.index(month)
    tbase = JIAZI.index(u.getTimeInGanZhi())
    step = 1 if yun.isForward() else 0 - 1
    all = yun.getDaYun()
    require_eq(len(all), 10, 'ten decades by default')
    require_eq(len(yun.getDaYun(3)), 3, 'number of decades asked for')
    i = choice('decade', [0, 1, 2, 5, 9])
    for k in (i,):
        dy = all[k]
        require_eq(dy.getIndex(), k, 'index of the decade')
        if k == 0:
            want = [y0, first - 1, 1, first - y0]
        else:
            want = [first + 10 * (k - 1), first + 10 * k - 1, first - y0 + 1 + 10 * (k - 1), first - y0 + 10 * k]
        require_eq([dy.getStartYear(), dy.getEndYear(), dy.getStartAge(), dy.getEndAge()], want, 'years and ages of the decade')
        if k == 0:
            require_eq(dy.getGanZhi(), '', 'no pillar before the first decade')
            size = concrete(first - y0)
        else:
            n = (base + step * k) % 60
            require_eq(dy.getGanZhi(), JIAZI[n], 'decade pillar counts from the month pillar')
            require_eq(dy.getXun(), JIAZI[n // 10 * 10], 'decade of the pillar')
            require_eq(dy.getXunKong(), xun_kong(n), 'void branches of the pillar')
            size = 10
        years = dy.getLiuNian()
        require_eq(len(years), size, 'years of the decade')
        minor = dy.getXiaoYun()
        require_eq(len(minor), size, 'minor luck of the decade')
        if k > 0:
            require_eq([len(dy.getLiuNian(4)), len(dy.getXiaoYun(4))], [4, 4], 'number asked for')
        for j in range(0, size):
            if 1 < j and j < size - 1 and (j + yp) % 3 > 0:
                continue
            a = years[j]
            y = want[0] + j
            require_eq([a.getIndex(), a.getYear(), a.getAge()], [j, y, want[2] + j], 'yearly luck: year and age')
            n = concrete((y - 4) % 60)
            require_eq(a.getGanZhi(), JIAZI[n], 'yearly luck: pillar of the year')
            require_eq([a.getXun(), a.getXunKong()], [JIAZI[n // 10 * 10], xun_kong(n)], 'yearly luck: decade')
            b = minor[j]
            require_eq([b.getIndex(), b.getYear(), b.getAge()], [j, y, want[2] + j], 'minor luck: year and age')
            n = concrete((tbase + step * (want[2] + j)) % 60)
            require_eq(b.getGanZhi(), JIAZI[n], 'minor luck counts from the time pillar by age')
            require_eq([b.getXun(), b.getXunKong()], [JIAZI[n // 10 * 10], xun_kong(n)], 'minor luck: decade')
            if j < 2 and k < 2:
                months = a.getLiuYue()
                require_eq(len(months), 12, 'twelve monthly lucks')
                yg = concrete((y - 4) % 10)
                for q in range(0, 12):
                    c = months[q]
                    g, z = ((yg % 5) * 2 + 2 + q) % 10, (q + 2) % 12
                    require_eq(c.getIndex(), q, 'monthly luck index')
                    require_eq(c.getMonthInChinese(), MONTH_TEXT[q], 'monthly luck month text')
                    require_eq(c.getGanZhi(), GAN[g] + ZHI[z], 'monthly luck: five tigers from the year')
                    n = jz(g, z)
                    require_eq([c.getXun(), c.getXunKong()], [JIAZI[n // 10 * 10], xun_kong(n)], 'monthly luck: decade')
