# -*- coding: utf-8 -*-
"""purity of getters, independence of history, aliasing of results, locking"""
from lunar_python import Solar, Lunar, LunarTime, LunarYear, LunarMonth, Foto, Tao, EightChar, Holiday, JieQi, SolarWeek, SolarMonth, SolarYear, SolarSeason, SolarHalfYear, NineStar
from lunar_python.util import LunarUtil, SolarUtil, HolidayUtil, FotoUtil, TaoUtil, ShouXingUtil
from .cal import *
from .world import *
from .getters_data import GETTERS
from .siblings import scene, QUARTER
from .astro import fitting_sky


def show(v, deep=True):
    """comparable rendering of a result"""
    k = kind_of(v)
    if k == 'list' or k == 'tuple':
        return [show(x, deep) for x in v]
    if k == 'dict':
        return [[n, show(v[n], deep)] for n in v]
    if k != 'object':
        return v
    c = class_name(v)
    if c == 'Solar':
        return 'Solar ' + v.toYmdHms()
    if c == 'JieQi':
        return ['JieQi', v.getName(), v.getSolar().toYmdHms(), v.isJie(), v.isQi()]
    if c == 'Lunar':
        return 'Lunar %s %d:%d:%d' % (v.toString(), v.getHour(), v.getMinute(), v.getSecond())
    if c == 'LunarTime':
        return 'LunarTime ' + v.getGanZhi() + v.getMinHm()
    if c == 'NineStar':
        return ['NineStar', v.getIndex()]
    if c == 'LunarMonth':
        return ['LunarMonth', v.getYear(), v.getMonth(), v.getDayCount(), v.getFirstJulianDay(), v.getIndex()]
    if c in ('FotoFestival', 'TaoFestival', 'Holiday', 'Foto', 'Tao', 'EightChar', 'SolarMonth', 'SolarWeek', 'SolarSeason', 'SolarHalfYear', 'SolarYear', 'LunarYear'):
        return c + ' ' + v.toString()
    if c in ('ShuJiu', 'Fu'):
        return c + ' ' + v.toFullString()
    if c == 'DaYun':
        return ['DaYun', v.getIndex(), v.getStartYear(), v.getStartAge(), v.getGanZhi()]
    if c in ('LiuNian', 'XiaoYun'):
        return [c, v.getIndex(), v.getYear(), v.getAge(), v.getGanZhi()]
    if c == 'LiuYue':
        return [c, v.getIndex(), v.getGanZhi()]
    return c


def spoil(v):
    """do to a result what a caller may do with his own object"""
    k = kind_of(v)
    if k == 'list':
        for x in v:
            spoil(x)
        v.append('spoilt')
        v.reverse()
    elif k == 'dict':
        for n in list(v):
            v[n] = 'spoilt'
        v['spoilt'] = 1
    elif k == 'object':
        c = class_name(v)
        if c in ('JieQi', 'ShuJiu', 'Fu', 'Holiday'):
            v.setName('spoilt')
        if c in ('ShuJiu', 'Fu'):
            v.setIndex(-5)
        if c == 'JieQi':
            v.setSolar(None)
        if c == 'Holiday':
            v.setDay('0000-00-00')
            v.setWork(not v.isWork())
            v.setTarget('')
        if c == 'EightChar':
            v.setSect(1)


def getters(o):
    out = []
    for k, ns in GETTERS[class_name(o)].items():
        for n in ns.split(' '):
            out.append(n)
    return out


def answers(o, names):
    return [[n, show(getattr(o, n)())] for n in names]


def same(a, b, what):
    for i in range(0, len(a)):
        require_eq(b[i][1], a[i][1], what + ': ' + a[i][0])


# ------------------------------------------------------------------ C30
@obligation('C30', m=range(1, 13), i=QUARTER, anchor='Lunar', rule='asking a date anything, in any order, changes none of its answers; the clock and the order of sets play no part')
def pure_lunar(m, i):
    p = choice('day pillar', list(range(i + m % 4, 60, 15)))
    w = scene(m, i, p)
    lm = (m * 5 + p) % 12 + 1
    at = ((0 - lm if p % 3 == 0 else lm), 0), 1 + (p * 7 + m) % 29
    set_clock(1999)
    u = w.lunar(at[0], at[1])
    names = getters(u)
    a = answers(u, names)
    set_clock(2031)
    set_order(True)
    same(a, answers(u, names), 'asked again')
    names.reverse()
    a.reverse()
    v = w.make(w.ly, w.lm, w.ld, w.count, w.y, w.m, w.d, w.h, w.mi, w.s)
    same(a, answers(v, names), 'asked in another order of an equal date')
    set_order(False)
    for k in ('Time', 'Foto', 'Tao', 'EightChar'):
        o = getattr(u, 'get' + k)()
        names = getters(o)
        a = answers(o, names)
        names.reverse()
        b = answers(o, names)
        b.reverse()
        same(a, b, 'asked in another order')
        set_order(True)
        same(a, answers(getattr(v, 'get' + k)(), getters(o)), 'an equal object')
        set_order(False)


@obligation('C30', m=range(1, 13), i=QUARTER, anchor='EightChar.setSect', rule='changing the convention of eight characters back and forth leaves no trace; objects of the same date are independent')
def convention(m, i):
    p = choice('day pillar', list(range(i + m % 4, 60, 15)))
    w = scene(m, i, p)
    u = w.lunar((1 + (m * 5 + p) % 12, 0), 1 + (p * 7 + m) % 29)
    e = u.getEightChar()
    names = [n for n in getters(e)]
    two = answers(e, names)
    e.setSect(1)
    one = answers(e, names)
    e.setSect(2)
    same(two, answers(e, names), 'convention changed back')
    f = EightChar.fromLunar(u)
    same(two, answers(f, names), 'another object of the same date')
    f.setSect(1)
    same(one, answers(f, names), 'convention of another object')
    same(two, answers(e, names), 'the first object keeps its own convention')


def probe(k):
    """calls that share caches and tables"""
    if k < 0:
        return None
    y = (1987, 1988, 2020, 2080, 987)[k % 5]
    c = k // 5
    if c == 0:
        o = LunarYear.fromYear(y)
        return [o.getYear(), show(o.getMonths()), show(o.getMonthsInYear()), o.getLeapMonth(), o.getDayCount(), o.getJieQiJulianDays(), o.getGanZhi()]
    if c == 1:
        u = Lunar.fromYmd(y, 4, 20)
        return [u.toFullString(), show(u.getNextJie()), show(u.getPrevQi()), show(u.getJieQiTable()), show(u.getDayNineStar())]
    if c == 2:
        u = Solar.fromYmdHms(y, 2, 2, 23, 30, 0).getLunar()
        return [show(u), u.getEightChar().toString(), show(u.getTimes()), u.getYearInGanZhiExact(), show(u.getShuJiu()), show(u.getFoto().getFestivals()), show(u.getTao().getFestivals())]
    if c == 3:
        return [show(LunarMonth.fromYm(y, 4).next(11)), show(LunarYear.fromYear(y).next(1).getMonths()), show(LunarMonth.fromYm(y, 12))]
    if c == 4:
        return [show(HolidayUtil.getHolidays('%d' % y)), show(HolidayUtil.getHoliday(2020, 1, y % 28 + 1)), show(Solar.fromYmd(2020, 10, 1).next(y % 9, True)), show(SolarWeek.fromYmd(y, 5, 1, y % 7).getDays()),
                show(SolarMonth.fromYm(y, 2).getDays())]
    return [SolarUtil.getDaysOfMonth(y, 2), SolarUtil.getDaysInYear(y, 7, 9), SolarUtil.getWeeksOfMonth(y, 2, y % 7), SolarUtil.getDaysBetween(y, 3, 1, y + 1, 3, 1), show(Solar.fromYmd(y, 2, 28).next(400)),
            Solar.fromYmd(y, 1, 1).getWeek(), show(Solar.fromYmd(y, 5, 10).getFestivals()), LunarUtil.getDayYi('甲子', JIAZI[y % 60]), LunarUtil.getTimeZhiIndex('%02d:00' % (y % 24)), LunarUtil.getXunKong(JIAZI[y % 60])]


PROBES = list(range(0, 30))


@obligation('C30', k=PROBES, anchor='LunarYear.fromYear', rule='an answer does not depend on what was asked before')
def history(k):
    j = choice('call in between', PROBES)
    set_clock(2024)
    fitting_sky(2000, 1, (1986, 1987, 1988, 1989, 2019, 2020, 2021, 2079, 2080, 2081, 986, 987, 988))
    a = probe(k)
    require_eq(probe(k), a, 'asked again')
    probe(j)
    set_clock(2030)
    require_eq(probe(k), a, 'asked again after another call')


# ------------------------------------------------------------------ C31
@obligation('C31', m=range(1, 13), i=QUARTER, anchor='Lunar.getJieQiTable', rule='what a getter of a date returns belongs to the caller')
def own_lunar(m, i):
    p = choice('day pillar', list(range(i + m % 4, 60, 15)))
    w = scene(m, i, p)
    lm = (m * 5 + p) % 12 + 1
    u = w.lunar(((0 - lm if p % 3 == 0 else lm), 0), 1 + (p * 7 + m) % 29)
    for o in (u, u.getTime(), u.getFoto(), u.getTao(), EightChar.fromLunar(u), u.getSolar()):
        names = [n for n in getters(o) if kind_of(getattr(o, n)()) in ('list', 'dict', 'object') and n != 'getEightChar']
        a = answers(o, names)
        for n in names:
            spoil(getattr(o, n)())
        same(a, answers(o, names), 'after the caller changed his results')
    v = w.make(w.ly, w.lm, w.ld, w.count, w.y, w.m, w.d, w.h, w.mi, w.s)
    names = [n for n in getters(u) if kind_of(getattr(u, n)()) in ('list', 'dict', 'object')]
    spoilt = u.getEightChar()
    a = answers(v, names)
    for n in names:
        if n != 'getEightChar':
            spoil(getattr(u, n)())
    same(a, answers(v, names), 'an equal date after the caller changed results of the first')


@obligation('C31', m=range(1, 13), gender=[0, 1], anchor='Yun', rule='lists of luck periods belong to the caller')
def own_yun(m, gender):
    w = scene(m, 0, (m * 7) % 60)
    u = w.lunar((m, 0), 11)
    y = u.getEightChar().getYun(gender)
    x = y.getDaYun(3)[2]
    for o, names in ((y, ['getDaYun', 'getStartSolar']), (x, ['getLiuNian', 'getXiaoYun']), (x.getLiuNian(3)[1], ['getLiuYue'])):
        a = answers(o, names)
        for n in names:
            spoil(getattr(o, n)())
        same(a, answers(o, names), 'after the caller changed his results')


@obligation('C31', anchor='LunarYear.getMonths', rule='lists of years, units, holidays and utilities belong to the caller')
def own_others():
    set_clock(2024)
    fitting_sky(2000, 1, (2019, 2020, 2021))
    k = choice('call', list(range(0, 23)))
    a = show(other(k))
    spoil(other(k))
    require_eq(show(other(k)), a, 'after the caller changed his results')


def other(k):
    y = LunarYear.fromYear(2020)
    if k == 0:
        return y.getMonths()
    if k == 1:
        return y.getMonthsInYear()
    if k == 2:
        return y.getJieQiJulianDays()
    if k == 3:
        return SolarYear.fromYear(2020).getMonths()
    if k == 4:
        return SolarMonth.fromYm(2020, 2).getDays()
    if k == 5:
        return SolarMonth.fromYm(2020, 2).getWeeks(1)
    if k == 6:
        return SolarSeason.fromYm(2020, 2).getMonths()
    if k == 7:
        return SolarHalfYear.fromYm(2020, 2).getMonths()
    if k == 8:
        return SolarWeek.fromYmd(2020, 2, 5, 1).getDays()
    if k == 9:
        return SolarWeek.fromYmd(2020, 2, 5, 1).getDaysInMonth()
    if k == 10:
        return HolidayUtil.getHolidays('2020')
    if k == 11:
        return HolidayUtil.getHolidays(2020, 10)
    if k == 12:
        return HolidayUtil.getHolidaysByTarget('2020-10-01')
    if k == 13:
        return HolidayUtil.getHoliday('2020-10-01')
    if k == 14:
        return LunarUtil.getDayYi('甲子', '丙寅')
    if k == 15:
        return LunarUtil.getTimeJi('甲子', '丙寅')
    if k == 16:
        return LunarUtil.getDayXiongSha(3, '丙寅')
    if k == 17:
        return Solar.fromYmd(2020, 3, 8).getFestivals()
    if k == 18:
        return Solar.fromYmd(2020, 3, 8).getOtherFestivals()
    if k == 19:
        return Foto.fromLunar(Lunar.fromYmd(2020, 4, 8)).getFestivals()
    if k == 20:
        return Tao.fromLunar(Lunar.fromYmd(2020, 4, 8)).getFestivals()
    if k == 21:
        return Lunar.fromYmd(2020, 1, 1).getFestivals()
    return Solar.fromBaZi('庚子', '戊子', '己卯', '庚午', 2, 2000)


# ------------------------------------------------------------------ C32
@obligation('C32', first=[-1, 2019, 2020, 2021], op=range(0, 4), other=[2019, 2020, 2021], anchor='LunarYear.fromYear', rule='a thread switched out at any point of a call still gets its own year')
def interleaved(first, op, other):
    fitting_sky(2020, 3)
    want = call(op, 2020)
    away = call(op, other)
    if first > 0:
        LunarYear.fromYear(first)
    n = choice('preemption point', list(range(0, 140)))
    seen = []
    preempt_at(n, lambda: seen.append(call(op, other)))
    got = call(op, 2020)
    at = preempted()
    if at is None:
        infeasible()
    note('switched at', at)
    require_eq(got, want, 'result of the interrupted call')
    require_eq(seen, [away], 'result of the interrupting call')
    require_eq(call(op, 2020), want, 'afterwards')
    require_eq(call(op, other), away, 'afterwards')
    require_eq(locks_held(), 0, 'no lock stays held')


def call(op, y):
    if op == 0:
        o = LunarYear.fromYear(y)
        return [o.getYear(), show(o.getMonths()), o.getJieQiJulianDays()]
    if op == 1:
        u = Lunar.fromYmd(y, 6, 10)
        return [show(u), show(u.getSolar()), show(u.getNextJieQi())]
    if op == 2:
        u = Solar.fromYmd(y, 2, 1).getLunar()
        return [show(u), u.getYearInGanZhiExact()]
    return [show(LunarMonth.fromYm(y, 5)), show(LunarMonth.fromYm(y, 11).next(3))]


QI_DAYS = (-129198.8, -129077.0, -115365.2, -108577.8, -18149.9, -17541.2, -100000.0, 0.0)
SHUO_DAYS = (-503667.5, -503460.8, -390417.6, -348159.4, -16767.0, -15644.8, -100000.0, 0.0)


def terms_and_moons(op):
    if op == 0:
        return [ShouXingUtil.calcQi(d) for d in QI_DAYS]
    if op == 1:
        return [ShouXingUtil.calcShuo(d) for d in SHUO_DAYS]
    return [ShouXingUtil.calcQi(QI_DAYS[2]), ShouXingUtil.calcShuo(SHUO_DAYS[2])]


@obligation('C32', op=[0, 1, 2], other=[0, 1, 2], anchor='ShouXingUtil.calcQi', rule='a thread switched out at any point of the first use of the correction tables')
def first_use(op, other):
    mark()
    want = [terms_and_moons(op), terms_and_moons(other)]
    rewind()
    n = choice('preemption point', list(range(0, 200)))
    seen = []
    preempt_at(n, lambda: seen.append(terms_and_moons(other)))
    got = terms_and_moons(op)
    at = preempted()
    if at is None:
        infeasible()
    note('switched at', at)
    require_eq(got, want[0], 'result of the interrupted call')
    require_eq(seen, [want[1]], 'result of the interrupting call')
    require_eq([terms_and_moons(op), terms_and_moons(other)], want, 'afterwards')


@obligation('C32', op=range(0, 4), first=[-1, 2019, 2021], anchor='LunarYear.fromYear', rule='a call that fails anywhere leaves no lock held and no broken year behind')
def failing(op, first):
    fitting_sky(2020, 3)
    if first > 0:
        LunarYear.fromYear(first)
    n = choice('failing call', list(range(1, 60)) + list(range(60, 700, 20)))
    inject_at(n)
    try:
        call(op, 2020)
        broken = False
    except Exception:
        broken = True
    inject_off()
    if not broken:
        infeasible()
    require_eq(locks_held(), 0, 'no lock stays held')
    got = [call(0, 2020), call(1, 2020), call(2, 2021)]
    fresh_ = [call(0, 2022)]
    require_eq([call(0, 2020), call(1, 2020), call(2, 2021)], got, 'later calls')
    o = LunarYear(2020)
    require_eq(call(0, 2020), [2020, show(o.getMonths()), o.getJieQiJulianDays()], 'later calls see a complete year')
    require_eq(n_events('deadlock'), 0, 'no call waits for its own lock')
