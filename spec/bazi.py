# -*- coding: utf-8 -*-
"""dates from eight characters, over the model sky"""
from lunar_python import Solar, Lunar
from .cal import *
from .astro import fitting_sky, J2000
from .convert import jan1, day_number
from .world import JIAZI, GAN, ZHI

YEARS = {'quick': [1600, 1847, 1984, 1999, 2023], 'thorough': list(range(1585, 2400, 23)) + [1582, 1583, 3000]}


def seconds(s):
    """seconds since Julian day 0"""
    return day_number(s) * 86400 + s.getHour() * 3600 + s.getMinute() * 60 + s.getSecond()


def chars(s, sect):
    e = s.getLunar().getEightChar()
    e.setSect(sect)
    return [e.getYear(), e.getMonth(), e.getDay(), e.getTime()]


def start_of_double_hour(t):
    return (t + 3600) // 7200 * 7200 - 3600


@obligation('C29', year=YEARS, m=range(1, 13), sect=[1, 2], anchor='Solar.fromBaZi', rule='every date found has the given eight characters; the date they were taken from is among them')
def search(year, m, sect):
    sky = fitting_sky(year, 1, (year - 61, year - 60, year - 59, year + 58, year + 59, year + 60, year + 61))
    set_clock(year + (m * 7) % 60)
    # the term of the month, 节 number 2m-1 after the solstice, and its moment
    k = 24 * (year - 2001) + 2 * m - 1
    moment = sky.qi_exact(k) + J2000 + 0.5
    n = moment // 1
    at = int((moment - n) * 24)
    where = choice('position', ['on the day of the 节', 'the day before it', 'amid', 'late'])
    n = n + {'on the day of the 节': 0, 'the day before it': -1, 'amid': 12, 'late': 28}[where]
    hours = [0, 23, (m * 2 + 5) % 24, (m * 3 + 10) % 24]
    if where == 'on the day of the 节':
        hours = hours + [at, (at + 1) % 24, (at + 23) % 24]
    h = choice('hour', hours)
    s = Solar.fromJulianDay(int(n)).next(0)
    s = Solar.fromYmdHms(s.getYear(), s.getMonth(), s.getDay(), h, (m * 11 + 20) % 60, 0)
    note('date', s.toYmdHms())
    want = chars(s, sect)
    base = year - (1, 2, 59, 60, 61)[(m + h) % 5]
    found = Solar.fromBaZi(want[0], want[1], want[2], want[3], sect, base)
    last_ = 0
    hit = False
    mine = start_of_double_hour(seconds(s))
    for r in found:
        require_eq(chars(r, sect), want, 'eight characters of the date found %s' % r.toYmdHms())
        require(r.getYear() >= base, 'dates found are not before the base year')
        t = seconds(r)
        require(t > last_, 'dates found ascend without repetition')
        last_ = t
        if start_of_double_hour(t) == mine:
            hit = True
    broken = False
    for j in (k - 2, k, k + 2):
        b = (sky.qi_exact(j) + J2000 + 0.5) * 86400
        if mine <= b and b < mine + 7200:
            broken = True
    if not broken:
        require(hit, 'the double-hour of %s is found from its eight characters' % s.toYmdHms())
    if sect == 2:
        require_eq([r.toYmdHms() for r in Solar.fromBaZi(want[0], want[1], want[2], want[3], 2, base)], [r.toYmdHms() for r in found], 'same answer again')
    if base == 1900:
        require_eq([r.toYmdHms() for r in Solar.fromBaZi(want[0], want[1], want[2], want[3], sect)], [r.toYmdHms() for r in found], 'default base year')


@obligation('C29', date={'quick': [(1988, 2, 15, 23, 30), (2024, 1, 5, 12, 0), (1960, 12, 17, 12, 0), (1900, 8, 8, 2, 10)], 'thorough': [(1900 + 7 * i, i % 12 + 1, 1 + (i * 5) % 28, (i * 7) % 24, 20) for i in range(0, 18)]},
            sect=[1, 2], anchor='Solar.fromBaZi', rule='the same with the real solar terms')
def real_search(date, sect):
    set_clock(date[0] + 1)
    s = Solar.fromYmdHms(date[0], date[1], date[2], date[3], date[4], 0)
    want = chars(s, sect)
    found = Solar.fromBaZi(want[0], want[1], want[2], want[3], sect, date[0] - 1)
    hit = False
    for r in found:
        require_eq(chars(r, sect), want, 'eight characters of the date found %s' % r.toYmdHms())
        if start_of_double_hour(seconds(r)) == start_of_double_hour(seconds(s)):
            hit = True
    require(hit, 'the double-hour of %s is found from its eight characters' % s.toYmdHms())


@obligation('C29', y=range(0, 60), anchor='Solar.fromBaZi', rule='month stems that contradict the year stem find nothing')
def impossible(y):
    fitting_sky(2000)
    set_clock(2020)
    for z in range(0, 12):
        for g in range(0, 10):
            if g != (y % 5 * 2 + 2 + (z + 10) % 12) % 10:
                require_eq(Solar.fromBaZi(JIAZI[y], GAN[g] + ZHI[z], JIAZI[y], JIAZI[(y % 5) * 12], 2, 1990), [], 'a %s month of a %s year does not exist' % (GAN[g] + ZHI[z], JIAZI[y]))
