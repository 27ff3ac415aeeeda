# -*- coding: utf-8 -*-
"""the real month and term tables, obtained by propagating the constant year through the astronomical code"""
from math import sin, floor
from lunar_python import Solar, Lunar, LunarYear, LunarMonth
from lunar_python.util import ShouXingUtil
from .cal import *
from .month_data import YEARS as DATA, FIRST, PUBLISHED
from .term_data import TERMS, DIGITS

JIAZI = ['甲乙丙丁戊己庚辛壬癸'[i % 10] + '子丑寅卯辰巳午未申酉戌亥'[i % 12] for i in range(0, 60)]
PI = 3.141592653589793
ERAS = list(range(8, 25)) + list(range(236, 242))
BLOCKS = {'quick': range(0, 1000), 'thorough': range(0, 1000)}
PATTERN = ''.join(DATA)


def reference(y):
    """(month, days) of a lunar year and its first Julian day"""
    v = int(PATTERN[5 * (y - 1):5 * y], 16)
    if 1900 <= y < 2050:
        v = PUBLISHED[y - 1900]
    leap = v % 16
    out = []
    for m in range(1, 13):
        out.append((m, 29 + v // 2 ** (16 - m) % 2))
        if m == leap:
            out.append((0 - m, 29 + v // 65536 % 2))
    return out


# ------------------------------------------------------------------ C38
@obligation('C38', block=BLOCKS, anchor='LunarYear.fromYear', rule='months of ten consecutive years, by constant propagation')
def month_tables(block):
    def moment(jd):
        return jd
    patch(ShouXingUtil, 'qiAccurate2', moment)
    first = FIRST[block]
    before = None
    for y in range(block * 10 + 1, min(block * 10 + 12, 9999)):
        ly = LunarYear.fromYear(y)
        ms = ly.getMonths()
        require_eq(len(ms), 15, 'fifteen months of %d' % y)
        for i in range(0, 15):
            if y not in ERAS:
                require(ms[i].getDayCount() == 29 or ms[i].getDayCount() == 30, 'a month has 29 or 30 days')
            if i > 0:
                require_eq(ms[i].getFirstJulianDay(), ms[i - 1].getFirstJulianDay() + ms[i - 1].getDayCount(), 'months follow each other (year %d)' % y)
        if before is not None:
            # the end of one table is the beginning of the next
            at = None
            for i in range(0, 15):
                if before[i].getFirstJulianDay() == ms[0].getFirstJulianDay():
                    at = i
            require(at is not None, 'tables of %d and %d overlap' % (y - 1, y))
            if y not in ERAS and y - 1 not in ERAS:
                for i in range(at, 15):
                    a, b = before[i], ms[i - at]
                    require_eq([b.getYear(), b.getMonth(), b.getDayCount(), b.getFirstJulianDay()], [a.getYear(), a.getMonth(), a.getDayCount(), a.getFirstJulianDay()],
                               'tables of %d and %d agree' % (y - 1, y))
        before = ms
        if y == block * 10 + 11:
            break
        inside = ly.getMonthsInYear()
        if y in (8, 236, 237):
            # calendar reforms
            first = first + sum([m.getDayCount() for m in inside])
            continue
        want = reference(y)
        require_eq([(m.getMonth(), m.getDayCount()) for m in inside], want, 'months of year %d' % y)
        for m in inside:
            require_eq(m.getFirstJulianDay(), first, 'first day of month %d of year %d' % (m.getMonth(), y))
            first = first + m.getDayCount()
        leap = [0 - m for m, d in want if m < 0]
        require_eq(ly.getLeapMonth(), leap[0] if leap else 0, 'leap month of year %d' % y)
        require_eq(ly.getDayCount(), sum([d for m, d in want]), 'days of year %d' % y)


# ------------------------------------------------------------------ independent astronomy
def delta_t(y):
    """TT-UT in seconds (polynomials of Espenak and Meeus)"""
    u = (y - 1820) / 100.0
    if y < 1600:
        return 32 * u * u - 20
    if y < 1700:
        t = y - 1600
        return 120 - 0.9808 * t - 0.01532 * t * t + t * t * t / 7129.0
    if y < 1800:
        t = y - 1700
        return 8.83 + 0.1603 * t - 0.0059285 * t * t + 0.00013336 * t * t * t
    if y < 1986:
        return 10 + (y - 1800) * 0.24
    if y < 2050:
        t = y - 2000
        return 62.92 + 0.32217 * t + 0.005589 * t * t
    if y < 2150:
        return 32 * u * u - 20 - 0.5628 * (2150 - y)
    return 32 * u * u - 20


def sun(t):
    """apparent longitude of the sun in degrees, t in Julian centuries of TT"""
    r = PI / 180
    m = (357.52911 + 35999.05029 * t - 0.0001537 * t * t) * r
    c = (1.914602 - 0.004817 * t - 0.000014 * t * t) * sin(m) + (0.019993 - 0.000101 * t) * sin(2 * m) + 0.000289 * sin(3 * m)
    return 280.46646 + 36000.76983 * t + 0.0003032 * t * t + c - 0.00569 - 0.00478 * sin((125.04 - 1934.136 * t) * r)


def new_moon(k):
    """Julian day (TT) of new moon number k from January 2000"""
    r = PI / 180
    t = k / 1236.85
    e = 1 - 0.002516 * t - 0.0000074 * t * t
    m = (2.5534 + 29.1053567 * k - 0.0000014 * t * t) * r
    p = (201.5643 + 385.81693528 * k + 0.0107582 * t * t + 0.00001238 * t * t * t) * r
    f = (160.7108 + 390.67050284 * k - 0.0016118 * t * t - 0.00000227 * t * t * t) * r
    o = (124.7746 - 1.56375588 * k + 0.0020672 * t * t) * r
    c = (0 - 0.4072 * sin(p) + 0.17241 * e * sin(m) + 0.01608 * sin(2 * p) + 0.01039 * sin(2 * f) + 0.00739 * e * sin(p - m) - 0.00514 * e * sin(p + m)
         + 0.00208 * e * e * sin(2 * m) - 0.00111 * sin(p - 2 * f) - 0.00057 * sin(p + 2 * f) + 0.00056 * e * sin(2 * p + m) - 0.00042 * sin(3 * p)
         + 0.00042 * e * sin(m + 2 * f) + 0.00038 * e * sin(m - 2 * f) - 0.00024 * e * sin(2 * p - m) - 0.00017 * sin(o))
    return 2451550.09766 + 29.530588861 * k + 0.00015437 * t * t - 0.00000015 * t * t * t + 0.00000000073 * t * t * t * t + c


# ------------------------------------------------------------------ C39
TERM_YEARS = {'quick': list(range(1, 3400, 37)) + list(range(1992, 2032)), 'thorough': range(1, 3400)}


@obligation('C39', year=TERM_YEARS, anchor='LunarYear.getJieQiJulianDays', rule='moments of the terms against the apparent longitude of the sun')
def term_moments(year):
    jd = LunarYear.fromYear(year).getJieQiJulianDays()
    require_eq(len(jd), 31, 'thirty-one terms')
    minute = 360 / 365.2422 / 1440
    for i in range(0, 31):
        t = jd[i] - 2451545 - 8 / 24.0 + delta_t(year) / 86400.0
        d = (sun(t / 36525) - 255 - 15 * i + 180) % 360 - 180
        require(abs(d) < 20 * minute, 'term %d of %d is at its solar longitude' % (i, year))


REFERENCE_YEARS = {'quick': list(range(1, 9999, 47)) + list(range(1900, 2101, 2)), 'thorough': sorted(TERMS)}


@obligation('C39', year=REFERENCE_YEARS, anchor='LunarYear.getJieQiJulianDays', rule='moments of the terms against the reference moments, to two seconds')
def term_reference(year):
    jd = LunarYear.fromYear(year).getJieQiJulianDays()
    text = TERMS[year]
    for i in range(0, 24):
        v = 0
        for c in text[4 * i:4 * i + 4]:
            v = v * 64 + DIGITS.index(c)
        t = (jd[i + 1] - (2451545 - 10 + ((year - 2000) * 24 + i) * 365.2422 / 24)) * 86400
        require(abs(t - (v - 8388608)) < 2, 'moment of term %d of %d' % (i + 1, year))


MOON_BLOCKS = range(1640, 6000, 20)


@obligation('C39', start=MOON_BLOCKS, length={'quick': [5], 'thorough': [20]}, anchor='LunarYear.getMonths', rule='first days of months against the computed new moons')
def new_moons(start, length):
    def moment(jd):
        return jd
    patch(ShouXingUtil, 'qiAccurate2', moment)
    for y in range(start, start + length):
        for m in LunarYear.fromYear(y).getMonthsInYear():
            d = m.getFirstJulianDay()
            k = floor((d - 2451550.1) / 29.530588861 + 0.5)
            t = new_moon(k) - delta_t(y) / 86400.0 + 8 / 24.0 + 0.5
            # the new moon falls within the civil day (Beijing time), or within half an hour of it
            require(d - 0.021 <= t and t < d + 1.021, 'month %d of %d begins on the day of the new moon' % (m.getMonth(), y))


# ------------------------------------------------------------------ C14
@obligation(['C14', 'C28'], year=[15, 16, 18, 19, 22], anchor='Lunar.getYearInGanZhiByLiChun', rule='lunar new year before January 1')
def early_new_year(year):
    d = choice('lunar day', range(1, 10))
    u = Lunar.fromYmdHms(year, 1, d, 12, 0, 0)
    p = (year - 4) % 60
    require_eq(u.getYearInGanZhi(), JIAZI[p], 'year by lunar new year')
    # 立春 of these years is in February
    p = (p - 1) % 60 if u.getSolar().getMonth() != 2 else p
    if u.getSolar().getMonth() != 2:
        require_eq([u.getYearInGanZhiByLiChun(), u.getYearInGanZhiExact()], [JIAZI[p], JIAZI[p]], 'year by 立春')
    require_eq(u.getFoto().getYear(), year + 544, 'Buddhist year')
    require_eq(u.getTao().getYear(), year + 2697, 'Taoist year')
