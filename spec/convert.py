# -*- coding: utf-8 -*-
"""conversion between lunar and civil dates over the model sky"""
from lunar_python import Solar, Lunar, LunarYear, LunarMonth
from .cal import *
from .world import CLOCK
from .astro import Sky, MONTH_TEXT, GAN, ZHI


def jan1(y):
    """Julian day number of January 1"""
    a = y - 1
    n = 1721424 + 365 * a + a // 4
    if y > 1582:
        n = n - 10 - (a // 100 - 1600 // 100) + (a // 400 - 1600 // 400)
    return n


def day_number(s):
    """Julian day number of a solar date"""
    return jan1(concrete(s.getYear())) + doy(s.getYear(), concrete(s.getMonth()), s.getDay()) - 1


def in_year(sky, year):
    """months of a lunar year: (signed number, first day, days, index)"""
    out = [(e[1], e[2], e[3], e[4]) for e in sky.months(year) if e[0] == year]
    return out


def sky_at(phase):
    sky = Sky(phase)
    sky.install()
    return sky


YEARS = {'quick': [1, 1581, 1582, 1583, 1999, 2000, 2033, 2100, 9997], 'thorough': [1, 2, 3, 99, 500, 1000, 1500, 1580, 1581, 1582, 1583, 1584, 1600, 1700] + list(range(1900, 2101, 9)) + [2033, 2400, 3358, 5000, 7999, 9997]}
PHASES = {'quick': [0, 7, 14, 21, 28], 'thorough': range(0, 30, 1)}


# ------------------------------------------------------------------ C27
@obligation('C27', year=YEARS, phase=PHASES, anchor='Lunar.fromYmdHms', rule='lunar date to civil date and back')
def round_trip(year, phase):
    sky = sky_at(phase)
    ms = in_year(sky, year)
    e = choice('month', ms)
    d = sym('lunar day', 1, e[2])
    t = CLOCK[(year + phase // 7 + 3 * e[0]) % 10]
    l = Lunar.fromYmdHms(year, e[0], d, t[0], t[1], t[2])
    require_eq([l.getYear(), l.getMonth(), l.getDay(), l.getHour(), l.getMinute(), l.getSecond()], [year, e[0], d, t[0], t[1], t[2]], 'fields of the lunar date')
    s = l.getSolar()
    require_eq(day_number(s), e[1] + d - 1, 'civil day of a lunar date')
    require(exists(s.getYear(), s.getMonth(), s.getDay()), 'the civil date exists')
    require_eq([s.getHour(), s.getMinute(), s.getSecond()], [t[0], t[1], t[2]], 'time of day is kept')
    b = Lunar.fromSolar(Solar.fromYmdHms(s.getYear(), s.getMonth(), s.getDay(), t[0], t[1], t[2]))
    require_eq([b.getYear(), b.getMonth(), b.getDay(), b.getHour(), b.getMinute(), b.getSecond()], [year, e[0], d, t[0], t[1], t[2]], 'back to the same lunar date')


# skies (year, phase, fraction) in which the listed years have a leap month at their end, of 29 and of 30 days
TURNS = [(3358, 0, 0.8), (8645, 1, 0.8), (1593, 0, 0.05), (8713, 1, 0.8), (8865, 1, 0.55), (3472, 0, 0.05), (8463, 29, 0.55), (1612, 0, 0.05), (6641, 29, 0.31), (6907, 29, 0.8), (6918, 0, 0.8), (7279, 29, 0.8),
         (9962, 2, 0.05), (9962, 2, 0.55), (9973, 2, 0.55), (9973, 3, 0.05)]


@obligation('C27', k={'quick': range(0, 4), 'thorough': range(0, len(TURNS))}, anchor='Lunar.fromSolar', rule='lunar date to civil date and back around a leap month at the end of the year, of either length')
def round_trip_turn(k):
    year, phase, frac = TURNS[k]
    sky = Sky(phase, frac)
    sky.install()
    a, b = in_year(sky, year), in_year(sky, year + 1)
    require(a[-1][0] < 0 or a[-2][0] < 0, 'model')
    es = [(year, e) for e in a[-4:]] + [(year + 1, e) for e in b[0:3]]
    kind = choice('question', ['back', 'refused', -40, 1])
    year, e = choice('month', es)
    if kind == 'refused':
        require(raised(Lunar.fromYmd, year, e[0], e[2] + 1) is not None, 'a lunar date that does not exist is accepted')
        return
    d = sym('lunar day', 1, e[2])
    l = Lunar.fromYmdHms(year, e[0], d, 23, 59, 59)
    if kind == 'back':
        s = l.getSolar()
        require_eq(day_number(s), e[1] + d - 1, 'civil day of a lunar date')
        b = s.getLunar()
        require_eq([b.getYear(), b.getMonth(), b.getDay(), b.getHour(), b.getMinute(), b.getSecond()], [year, e[0], d, 23, 59, 59], 'and back')
    else:
        r = l.next(kind)
        require_eq(day_number(r.getSolar()), e[1] + d - 1 + kind, 'moving by days')


@obligation('C27', year={'quick': [1582, 2020, 2034], 'thorough': [1500, 1581, 1582, 1583, 1584, 1700, 1900, 2000, 2020, 2034, 2100, 2101, 5000, 9000]}, phase={'quick': [2, 11, 20, 29], 'thorough': range(0, 30)}, n={'quick': [-385, -1, 40], 'thorough': [-3000, -385, -354, -31, -30, -1, 0, 1, 29, 30, 355, 385, 3000]},
            anchor='Lunar.next', rule='moving a lunar date by days')
def moving(year, phase, n):
    if not 10 < year < 9990:
        infeasible()
    sky = sky_at(phase)
    span = abs(n) // 350 + 1
    for k in range(year - span, year + span + 1):
        sky.months(k)
    e = choice('month', in_year(sky, year))
    d = sym('lunar day', 1, e[2])
    l = Lunar.fromYmdHms(year, e[0], d, 11, 22, 33)
    r = l.next(n)
    require_eq([l.getYear(), l.getMonth(), l.getDay()], [year, e[0], d], 'the moved date is a new object')
    target = e[1] + d - 1 + n
    require_eq(day_number(r.getSolar()), target, 'civil day after moving')
    require_eq([r.getHour(), r.getMinute(), r.getSecond()], [11, 22, 33], 'time of day is kept')
    y = concrete(r.getYear())
    require(abs(y - year) <= abs(n) // 350 + 1, 'year after moving')
    m = concrete(r.getMonth())
    f = [x for x in in_year(sky, y) if x[0] == m]
    require_eq(len(f), 1, 'the month exists')
    require_eq(f[0][1] + r.getDay() - 1, target, 'lunar date after moving')
    require(1 <= r.getDay() and r.getDay() <= f[0][2], 'day of the month after moving')


@obligation('C27', year=YEARS, phase=PHASES, anchor='Lunar.fromYmd', rule='months and days that do not exist are refused')
def refused(year, phase):
    sky = sky_at(phase)
    ms = in_year(sky, year)
    k = choice('case', ['month', 'day 0', 'day beyond'])
    if k == 'month':
        lm = sym('lunar month', -14, 14)
        lm = concrete(lm)
        if lm in [e[0] for e in ms]:
            infeasible()
        d = 1
    else:
        e = choice('month', ms)
        lm = e[0]
        d = sym('lunar day', -3, 0) if k == 'day 0' else sym('lunar day', e[2] + 1, e[2] + 3)
    require(raised(Lunar.fromYmd, year, lm, d) is not None, 'a lunar date that does not exist is accepted')
    require(raised(Lunar.fromYmdHms, year, lm, d, sym('hour', 0, 23), sym('minute', 0, 59), sym('second', 0, 59)) is not None, 'a lunar date that does not exist is accepted')


class Moment:
    """stands for a datetime"""

    def __init__(self, y, m, d, h, mi, s):
        self.year, self.month, self.day, self.hour, self.minute, self.second, self.microsecond = y, m, d, h, mi, s, 0


@obligation('C27', year=[1582, 2033, 2020], phase=PHASES, m=range(1, 13), anchor='Lunar.fromDate', rule='entry points agree')
def entry_points(year, phase, m):
    sky = sky_at(phase)
    d = sym('day', 1, last(year, m))
    assume(exists(year, m, d))
    a = Solar.fromYmdHms(year, m, d, 9, 8, 7)
    n = jan1(year) + doy(year, m, d) - 1
    table = sky.months(year)
    l = a.getLunar()
    require(1 <= l.getDay() and l.getDay() <= 30, 'day of the lunar month')
    hit = [e for e in table if e[2] <= n and n < e[2] + e[3]]
    require_eq(len(hit), 1, 'model')
    e = hit[0]
    require_eq([l.getYear(), l.getMonth(), l.getDay(), l.getHour(), l.getMinute(), l.getSecond()], [e[0], e[1], n - e[2] + 1, 9, 8, 7], 'Solar.getLunar')
    b = Lunar.fromDate(Moment(year, m, d, 9, 8, 7))
    require_eq([b.getYear(), b.getMonth(), b.getDay(), b.getHour(), b.getMinute(), b.getSecond()], [e[0], e[1], n - e[2] + 1, 9, 8, 7], 'Lunar.fromDate')
    c = Lunar.fromYmd(e[0], e[1], n - e[2] + 1)
    require_eq([c.getHour(), c.getMinute(), c.getSecond()], [0, 0, 0], 'Lunar.fromYmd is midnight')
    require_eq([c.getSolar().getYear(), c.getSolar().getMonth(), c.getSolar().getDay()], [year, m, d], 'Lunar.fromYmd')
    require_eq(l.getWeek(), (n + 1) % 7, 'weekday of the lunar date')
    require_eq(l.getWeekInChinese(), '日一二三四五六'[concrete((n + 1) % 7)], 'weekday text')
