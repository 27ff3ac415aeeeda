# -*- coding: utf-8 -*-
"""year, month, day and time pillars"""
from lunar_python import Solar, Lunar
from .cal import *
from .world import *

MONTHS = range(1, 13)
HOURS = {'quick': [0, 10, 23], 'thorough': range(0, 24)}


def the_world(m, **kw):
    w = World(m, **kw)
    w.install()
    return w


# ------------------------------------------------------------------ C14
@obligation('C14', m=MONTHS, hour=HOURS, anchor='Lunar.getYearInGanZhiExact')
def year_pillar(m, hour):
    w = the_world(m, hour=hour, pillar=7)
    u = w.lunar('any')
    p = w.ly - 4
    require_eq(u.getYearGanIndex(), p % 10, 'year stem counts from the lunar new year')
    require_eq(u.getYearZhiIndex(), p % 12, 'year branch counts from the lunar new year')
    p = w.year_number(False) - 4
    require_eq(u.getYearGanIndexByLiChun(), p % 10, 'year stem changes on the day of 立春')
    require_eq(u.getYearZhiIndexByLiChun(), p % 12, 'year branch changes on the day of 立春')
    p = w.year_number(True) - 4
    require_eq(u.getYearGanIndexExact(), p % 10, 'year stem changes at the moment of 立春')
    require_eq(u.getYearZhiIndexExact(), p % 12, 'year branch changes at the moment of 立春')


# ------------------------------------------------------------------ C15
@obligation('C15', m=MONTHS, hour=HOURS, exact=[False, True], anchor='Lunar.getMonthInGanZhiExact')
def month_pillar(m, hour, exact):
    w = the_world(m, hour=hour, pillar=7)
    u = w.lunar('any')
    k = w.month_number(exact)
    n = w.y * 12 + k
    if exact:
        g, z = u.getMonthGanIndexExact(), u.getMonthZhiIndexExact()
    else:
        g, z = u.getMonthGanIndex(), u.getMonthZhiIndex()
    require_eq(z, (k + 2) % 12, 'month branch follows the 节')
    # 甲/己 years open with 丙寅
    require_eq(g, ((w.y - 4) * 12 + k + 2) % 10, 'month stem follows the five-tigers rule')


# ------------------------------------------------------------------ C16
DIAG = {'quick': [0], 'thorough': range(0, 12)}


def check_pair(g, z, gt, zt, text, what):
    require(0 <= g and g <= 9 and 0 <= z and z <= 11, what + ': stem and branch numbers in range')
    g = concrete(g)
    z = concrete(z)
    require_eq(g % 2, z % 2, what + ': stem and branch have the same parity')
    require_eq(gt, GAN[g], what + ': stem text')
    require_eq(zt, ZHI[z], what + ': branch text')
    require_eq(text, GAN[g] + ZHI[z], what + ': pillar text')


@obligation(['C16', 'C13'], hour=range(0, 24), off=DIAG, anchor='Lunar.getDayInGanZhi', rule='day pillar = (Julian day number - 11) mod 60; late zi hour; five-rats rule')
def day_time_pillar(hour, off):
    p = choice('day pillar', list(range(0, 60)))
    m = 1 + (p + hour + off) % 12
    w = the_world(m, hour=hour, pillar=p, free=-1, days=(10, 17), ypillar=(p * 7 + hour) % 60)
    u = w.lunar('any')
    require_eq(u.getDayGanIndex(), p % 10, 'day stem advances by one per civil day')
    require_eq(u.getDayZhiIndex(), p % 12, 'day branch advances by one per civil day')
    require_eq(u.getDayGanIndexExact2(), p % 10, 'sect 2: the day stem does not change at 23:00')
    require_eq(u.getDayZhiIndexExact2(), p % 12, 'sect 2: the day branch does not change at 23:00')
    e = (p + 1) % 60 if hour == 23 else p
    require_eq(u.getDayGanIndexExact(), e % 10, 'sect 1: from 23:00 the day stem is that of the next day')
    require_eq(u.getDayZhiIndexExact(), e % 12, 'sect 1: from 23:00 the day branch is that of the next day')
    z = ((hour + 1) // 2) % 12
    g = (e % 5 * 2 + z) % 10
    require_eq(u.getTimeZhiIndex(), z, 'time branch changes at odd hours')
    require_eq(u.getTimeGanIndex(), g, 'time stem follows the five-rats rule')
    check_pair(u.getDayGanIndex(), u.getDayZhiIndex(), u.getDayGan(), u.getDayZhi(), u.getDayInGanZhi(), 'day')
    check_pair(u.getDayGanIndexExact(), u.getDayZhiIndexExact(), u.getDayGanExact(), u.getDayZhiExact(), u.getDayInGanZhiExact(), 'day exact')
    check_pair(u.getDayGanIndexExact2(), u.getDayZhiIndexExact2(), u.getDayGanExact2(), u.getDayZhiExact2(), u.getDayInGanZhiExact2(), 'day exact2')
    check_pair(u.getTimeGanIndex(), u.getTimeZhiIndex(), u.getTimeGan(), u.getTimeZhi(), u.getTimeInGanZhi(), 'time')


@obligation(['C16', 'C13'], hour=range(0, 24), anchor='LunarTime.getGanZhi', rule='LunarTime and Lunar agree on the time pillar, on every civil month')
def lunar_time(hour):
    m = choice('m', list(range(1, 13)))
    p = (m * 7 + hour * 5) % 60
    w = the_world(m, hour=hour, pillar=p, free=-1, days=(10, 17), ypillar=(p * 7 + hour) % 60)
    u = w.lunar('any')
    t = u.getTime()
    require_eq(t.getGanIndex(), u.getTimeGanIndex(), 'LunarTime stem index')
    require_eq(t.getZhiIndex(), u.getTimeZhiIndex(), 'LunarTime branch index')
    check_pair(t.getGanIndex(), t.getZhiIndex(), t.getGan(), t.getZhi(), t.getGanZhi(), 'LunarTime')
    require_eq(t.toString(), u.getTimeInGanZhi(), 'LunarTime text')
    lo = hour if hour % 2 == 1 or hour == 0 else hour - 1
    hi = hour if hour == 23 or hour % 2 == 0 else hour + 1
    require_eq(t.getMinHm(), '%02d:00' % lo, 'first minute of the two-hour period')
    require_eq(t.getMaxHm(), '%02d:59' % hi, 'last minute of the two-hour period')


@obligation(['C16'], m=range(1, 13), anchor='Lunar.getTimes', rule='the thirteen time periods of a day')
def times_of_day(m):
    p = (m * 7) % 60
    w = the_world(m, pillar=p, free=-1, days=(10, 17), ypillar=p, **clock(choice('time', [0, 1, 2, 3, 4])))
    u = w.lunar('any')
    ts = u.getTimes()
    require_eq(len(ts), 13, 'number of periods')
    for i in range(0, 13):
        t = ts[i]
        require_eq(t.getZhiIndex(), i % 12, 'branches run from 子 to the late 子')
        e = p if i < 12 else (p + 1) % 60
        require_eq(t.getGanIndex(), (e % 5 * 2 + i % 12) % 10, 'stems follow the five-rats rule')
        require_eq(t.getMinHm(), '%02d:00' % max(0, 2 * i - 1), 'first minute')
        require_eq(t.getMaxHm(), '%02d:59' % min(23, 2 * i), 'last minute')


@obligation(['C13'], yp={'quick': range(0, 60), 'thorough': range(0, 60)}, anchor='Lunar.getYearInGanZhi', rule='text and index getters of the year and month pillars agree and name members of the sixty-cycle')
def texts(yp):
    m = choice('m', list(range(1, 13)))
    hour = (yp * 5 + m) % 24
    w = the_world(m, hour=hour, pillar=(yp * 7 + m) % 60, ypillar=yp, free=0)
    u = w.lunar('any')
    check_pair(u.getYearGanIndex(), u.getYearZhiIndex(), u.getYearGan(), u.getYearZhi(), u.getYearInGanZhi(), 'year')
    check_pair(u.getYearGanIndexByLiChun(), u.getYearZhiIndexByLiChun(), u.getYearGanByLiChun(), u.getYearZhiByLiChun(), u.getYearInGanZhiByLiChun(), 'year by 立春')
    check_pair(u.getYearGanIndexExact(), u.getYearZhiIndexExact(), u.getYearGanExact(), u.getYearZhiExact(), u.getYearInGanZhiExact(), 'year exact')
    check_pair(u.getMonthGanIndex(), u.getMonthZhiIndex(), u.getMonthGan(), u.getMonthZhi(), u.getMonthInGanZhi(), 'month')
    check_pair(u.getMonthGanIndexExact(), u.getMonthZhiIndexExact(), u.getMonthGanExact(), u.getMonthZhiExact(), u.getMonthInGanZhiExact(), 'month exact')
    e = u.getEightChar()
    for sect in (1, 2):
        e.setSect(sect)
        require_eq(e.getSect(), sect, 'sect')
        day = u.getDayInGanZhiExact() if sect == 1 else u.getDayInGanZhiExact2()
        want = [u.getYearInGanZhiExact(), u.getMonthInGanZhiExact(), day, u.getTimeInGanZhi()]
        require_eq([e.getYear(), e.getMonth(), e.getDay(), e.getTime()], want, 'the eight characters are the exact pillars')
        require_eq([e.getYearGan() + e.getYearZhi(), e.getMonthGan() + e.getMonthZhi(), e.getDayGan() + e.getDayZhi(), e.getTimeGan() + e.getTimeZhi()], want, 'stem and branch getters of the eight characters')
        require_eq(GAN[e.getDayGanIndex()] + ZHI[e.getDayZhiIndex()], day, 'day index getters of the eight characters')
        require_eq(e.toString(), ' '.join(want), 'text of the eight characters')
        require_eq(u.getBaZi(), want, 'getBaZi follows the chosen sect')
