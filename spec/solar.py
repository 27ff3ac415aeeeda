# -*- coding: utf-8 -*-
from lunar_python import Solar, SolarMonth, SolarSeason, SolarHalfYear, SolarYear, SolarWeek
from lunar_python.util import SolarUtil, HolidayUtil
from .cal import *

MONTHS = range(1, 13)


# ------------------------------------------------------------------ C01
@obligation('C01', m=MONTHS, anchor='SolarUtil.getDaysOfMonth')
def month_length(m):
    y = sym('year', 1, 9999)
    note('month', m)
    require_eq(SolarUtil.getDaysOfMonth(y, m), dim(y, m), 'getDaysOfMonth')


@obligation('C01', anchor='SolarUtil.isLeapYear')
def leap_rule():
    y = sym('year', 1, 9999)
    require_eq(SolarUtil.isLeapYear(y), leap(y), 'isLeapYear')
    require_eq(Solar.fromYmd(y, 1, 1).isLeapYear(), leap(y), 'Solar.isLeapYear')


@obligation('C01', anchor='SolarUtil.getDaysOfYear')
def year_length():
    y = sym('year', 1, 9999)
    n = SolarUtil.getDaysOfYear(y)
    require_eq(n, year_len(y), 'getDaysOfYear')
    t = 0
    for m in range(1, 13):
        t = t + SolarUtil.getDaysOfMonth(y, m)
    require_eq(n, t, 'year length equals the sum of its month lengths')


@obligation('C01', m=MONTHS, anchor='SolarUtil.getDaysInYear')
def day_of_year(m):
    y, d = any_date('', m)
    require_eq(SolarUtil.getDaysInYear(y, m, d), doy(y, m, d), 'getDaysInYear')


@obligation(['C01', 'C07'], anchor='SolarUtil.getDaysInYear')
def dropped_days():
    d = sym('day', 5, 14)
    require(raised(SolarUtil.getDaysInYear, 1582, 10, d) is not None, 'getDaysInYear accepts a dropped day of October 1582')
    require(raised(Solar.fromYmd, 1582, 10, d) is not None, 'Solar.fromYmd accepts a dropped day of October 1582')
    h, mi, se = any_time('gap ')
    require(raised(Solar.fromYmdHms, 1582, 10, d, h, mi, se) is not None, 'Solar.fromYmdHms accepts a dropped day of October 1582')
    require(raised(Solar, 1582, 10, d, h, mi, se) is not None, 'Solar accepts a dropped day of October 1582')


def same_ymd(s, y, m, d, what):
    require_eq(s.getDay(), d, what + ': day')
    require_eq(s.getMonth(), m, what + ': month')
    require_eq(s.getYear(), y, what + ': year')


def same_hms(s, h, mi, se, what):
    require_eq(s.getHour(), h, what + ': hour')
    require_eq(s.getMinute(), mi, what + ': minute')
    require_eq(s.getSecond(), se, what + ': second')


def any_time(tag=''):
    return sym(tag + 'hour', 0, 23), sym(tag + 'minute', 0, 59), sym(tag + 'second', 0, 59)


# ------------------------------------------------------------------ C03
@obligation('C03', m=MONTHS, n0={'quick': range(-400, 400, 40), 'thorough': range(-1600, 1600, 40)}, anchor='Solar.next')
def next_day(m, n0):
    y, d = any_date('', m)
    n = sym('n', n0, n0 + 39)
    h, mi, se = any_time()
    s = Solar.fromYmdHms(y, m, d, h, mi, se)
    t = s.next(n)
    ey, em, ed = forward(y, m, d, n)
    assume(ey >= 1)
    same_ymd(t, ey, em, ed, 'next(n)')
    same_hms(t, h, mi, se, 'next(n) keeps the time')
    same_ymd(s, y, m, d, 'next(n) leaves the receiver unchanged')


@obligation('C03', start=[(1, 1), (4, 2), (300, 12), (1581, 10), (1582, 10), (1582, 11), (1600, 2), (1896, 2), (2024, 3), (9999, 12)],
            far={'quick': [500, 1461, 36525, 146098, 200000, 800000], 'thorough': [500, 740, 1000, 1461, 5000, 36525, 36526, 100000, 146097, 146098, 200000, 292195, 365250, 800000, 1500000, 3000000]},
            sign=[1, -1], anchor='Solar.next')
def next_far(start, far, sign):
    y, m = start
    far = far * sign
    if y + far // 365 > 10010 or y + far // 366 < -1:
        return
    d = sym('day', 1, last(y, m))
    note('start', start)
    note('far', far)
    assume(exists(y, m, d))
    n = far + sym('n - far', 0, 30)
    t = Solar.fromYmdHms(y, m, d, 7, 8, 9).next(n)
    ey, em, ed = forward_far(y, m, d, n)
    assume(ey >= 1)
    assume(ey <= 9999)
    same_ymd(t, ey, em, ed, 'next(n) far away')
    same_hms(t, 7, 8, 9, 'next(n) keeps the time')


# ------------------------------------------------------------------ C02
def days_between(y1, m1, d1, k, m2, d2):
    """days from (y1,m1,d1) to (y1+k,m2,d2)"""
    n = doy(y1 + k, m2, d2) - doy(y1, m1, d1)
    for i in range(0, k):
        n = n + year_len(y1 + i)
    for i in range(k, 0):
        n = n - year_len(y1 + i)
    return n


@obligation('C02', m1=MONTHS, m2=MONTHS, k={'quick': range(-2, 3), 'thorough': range(-9, 10)}, anchor='SolarUtil.getDaysBetween')
def days_between_near(m1, m2, k):
    y, d1 = any_date('a.', m1)
    d2 = sym('b.day', 1, 31)
    assume(y + k >= 1)
    assume(y + k <= 9999)
    assume(exists(y + k, m2, d2))
    note('b.year-a.year', k)
    note('b.month', m2)
    e = days_between(y, m1, d1, k, m2, d2)
    require_eq(SolarUtil.getDaysBetween(y, m1, d1, y + k, m2, d2), e, 'getDaysBetween')
    a = Solar.fromYmd(y, m1, d1)
    b = Solar.fromYmd(y + k, m2, d2)
    require_eq(b.subtract(a), e, 'Solar.subtract')


@obligation('C02', pair=[(1, 9999), (1, 2), (1500, 1700), (1581, 1583), (1582, 2024), (1599, 1601), (1899, 2101), (9000, 9999), (1000, 1582), (1970, 2070)],
            m1=[1, 2, 3, 10, 12], m2=[1, 2, 3, 10, 12], anchor='SolarUtil.getDaysBetween')
def days_between_far(pair, m1, m2):
    y1, y2 = pair
    d1 = sym('a.day', 1, 31)
    d2 = sym('b.day', 1, 31)
    note('a.year', y1)
    note('a.month', m1)
    note('b.year', y2)
    note('b.month', m2)
    assume(exists(y1, m1, d1))
    assume(exists(y2, m2, d2))
    e = days_between(y1, m1, d1, y2 - y1, m2, d2)
    require_eq(SolarUtil.getDaysBetween(y1, m1, d1, y2, m2, d2), e, 'getDaysBetween')
    require_eq(SolarUtil.getDaysBetween(y2, m2, d2, y1, m1, d1), 0 - e, 'getDaysBetween is antisymmetric')


def year_start(y):
    """days before 1 January of year y since 1 January of year 1"""
    n = y - 1
    if y <= 1582:
        return 365 * n + n // 4
    return 365 * n + n // 4 - n // 100 + n // 400 + 2


EPOCHS = [1, 3, 96, 97, 100, 199, 396, 400, 403, 999, 1000, 1196, 1299, 1396, 1400, 1496, 1500, 1501, 1550, 1579, 1580, 1581, 1582, 1583, 1584, 1596, 1599, 1600, 1601, 1690, 1696, 1699, 1700, 1701, 1796, 1799, 1800,
          1801, 1860, 1896, 1899, 1900, 1904, 1950, 1970, 1982, 1983, 1996, 1999, 2000, 2001, 2020, 2023, 2024, 2025, 2038, 2096, 2099, 2100, 2104, 2399, 2400, 2401, 3000, 3200, 4000, 5999, 8000, 9996, 9999]


@obligation('C02', y1=EPOCHS, anchor='SolarUtil.getDaysBetween', rule='distances between dates of any two of the listed years')
def days_between_epochs(y1):
    note('a.year', y1)
    m1, d1 = choice('a', [(2, 29), (3, 1), (10, 4)])
    if not exists(y1, m1, d1):
        return
    for y2 in EPOCHS:
        if y2 != y1 and -460 < y2 - y1 < 460:
            note('b.year', y2)
            for m2, d2 in ((2, 28), (12, 31)):
                e = year_start(y2) + doy(y2, m2, d2) - year_start(y1) - doy(y1, m1, d1)
                require_eq(SolarUtil.getDaysBetween(y1, m1, d1, y2, m2, d2), e, 'getDaysBetween over many years')


@obligation('C02', m1=MONTHS, m2=MONTHS, k=[-1, 0, 1], anchor='Solar.subtractMinute')
def subtract_minute(m1, m2, k):
    y, d1 = any_date('a.', m1)
    d2 = sym('b.day', 1, 31)
    assume(y + k >= 1)
    assume(y + k <= 9999)
    assume(exists(y + k, m2, d2))
    note('b.year-a.year', k)
    h1, i1, s1 = any_time('a.')
    h2, i2, s2 = any_time('b.')
    a = Solar.fromYmdHms(y, m1, d1, h1, i1, s1)
    b = Solar.fromYmdHms(y + k, m2, d2, h2, i2, s2)
    require_eq(b.subtractMinute(a), days_between(y, m1, d1, k, m2, d2) * 1440 + (h2 - h1) * 60 + (i2 - i1), 'subtractMinute')


# ------------------------------------------------------------------ C04
@obligation('C04', m=MONTHS, n0={'quick': range(-60, 60, 12), 'thorough': range(-600, 600, 12)}, anchor='Solar.nextMonth')
def next_month(m, n0):
    y, d = any_date('', m)
    n = sym('n', n0, n0 + 11)
    h, mi, se = any_time()
    t = Solar.fromYmdHms(y, m, d, h, mi, se).nextMonth(n)
    k = concrete(n) + m - 1
    ey = y + k // 12
    em = k % 12 + 1
    assume(ey >= 1)
    ed = d
    if d > last(ey, em):
        ed = last(ey, em)
    if not exists(ey, em, ed):
        ed = d + 10
    same_ymd(t, ey, em, ed, 'nextMonth(n)')
    same_hms(t, h, mi, se, 'nextMonth(n) keeps the time')


@obligation('C04', m=MONTHS, anchor='Solar.nextYear')
def next_year(m):
    y, d = any_date('', m)
    n = sym('n', -9998, 9998)
    ey = y + n
    assume(ey >= 1)
    assume(ey <= 9999)
    h, mi, se = any_time()
    t = Solar.fromYmdHms(y, m, d, h, mi, se).nextYear(n)
    ed = d
    if d > last(ey, m):
        ed = last(ey, m)
    if not exists(ey, m, ed):
        ed = d + 10
    same_ymd(t, ey, m, ed, 'nextYear(n)')
    same_hms(t, h, mi, se, 'nextYear(n) keeps the time')


@obligation('C04', m=MONTHS, n0={'quick': range(-96, 96, 24), 'thorough': range(-960, 960, 24)}, anchor='Solar.nextHour')
def next_hour(m, n0):
    y, d = any_date('', m)
    n = sym('n', n0, n0 + 23)
    h, mi, se = any_time()
    t = Solar.fromYmdHms(y, m, d, h, mi, se).nextHour(n)
    q = (h + n) // 24
    ey, em, ed = forward(y, m, d, q)
    assume(ey >= 1)
    same_ymd(t, ey, em, ed, 'nextHour(n)')
    same_hms(t, h + n - q * 24, mi, se, 'nextHour(n)')


@obligation('C04', m=MONTHS, n0=[-100000, -12000, -1200, 1194, 12000, 100000], anchor='Solar.nextMonth')
def next_month_far(m, n0):
    y = choice('year', [1, 4, 1500, 1582, 1600, 2023, 2024, 9996])
    d = sym('day', 1, last(y, m))
    note('month', m)
    assume(exists(y, m, d))
    n = choice('n', range(n0, n0 + 12))
    k = n + m - 1
    ey = y + k // 12
    em = k % 12 + 1
    assume(ey >= 1)
    assume(ey <= 9999)
    t = Solar.fromYmdHms(y, m, d, 1, 2, 3).nextMonth(n)
    ed = d
    if d > last(ey, em):
        ed = last(ey, em)
    if not exists(ey, em, ed):
        ed = d + 10
    same_ymd(t, ey, em, ed, 'nextMonth(n) far away')
    same_hms(t, 1, 2, 3, 'nextMonth(n) keeps the time')


@obligation('C04', start=[(1, 1), (1500, 2), (1582, 10), (2024, 3), (9999, 12)], n0=[-1000008, -100000, -9600, 9590, 87660, 1000003], anchor='Solar.nextHour')
def next_hour_far(start, n0):
    y, m = start
    d = choice('day', [1, 4, 28])
    h, mi, se = any_time()
    n = n0 + sym('n - n0', 0, 23)
    note('start', start)
    q = (h + n) // 24
    if y + n0 // 8700 > 9990 or y + n0 // 8700 < 1:
        return
    ey, em, ed = forward_far(y, m, d, q)
    t = Solar.fromYmdHms(y, m, d, h, mi, se).nextHour(n)
    same_ymd(t, ey, em, ed, 'nextHour(n) far away')
    same_hms(t, h + n - q * 24, mi, se, 'nextHour(n) far away')


# ------------------------------------------------------------------ C05
def close(a, b, what):
    require(abs(a - b) < 0.000001, what)


@obligation('C05', m=MONTHS, anchor='Solar.getJulianDay')
def julian_in_year(m):
    y, d = any_date('', m)
    a = Solar.fromYmd(y, 1, 1).getJulianDay()
    b = Solar.fromYmd(y, m, d).getJulianDay()
    close(b - a, doy(y, m, d) - 1, 'getJulianDay advances by one per day within the year')
    if m == 12:
        c = Solar.fromYmd(y + 1, 1, 1).getJulianDay()
        close(c - a, year_len(y), 'getJulianDay advances by the year length')
        o = Solar.fromYmdHms(2000, 1, 1, 12, 0, 0).getJulianDay()
        close(o, 2451545, 'Julian day of 2000-01-01 12:00')


@obligation('C05', m=MONTHS, anchor='Solar.getJulianDay')
def julian_time(m):
    y, d = any_date('', m)
    h, mi, se = any_time()
    a = Solar.fromYmd(y, m, d).getJulianDay()
    b = Solar.fromYmdHms(y, m, d, h, mi, se).getJulianDay()
    close((b - a) * 86400, h * 3600 + mi * 60 + se, 'fraction of getJulianDay is the time of day')


@obligation(['C05', 'C09', 'C10', 'C11'], m=MONTHS, anchor='Solar.getWeek')
def weekday(m):
    y, d = any_date('', m)
    h, mi, se = any_time()
    w0 = Solar.fromYmd(y, 1, 1).getWeek()
    s = Solar.fromYmdHms(y, m, d, h, mi, se)
    w = s.getWeek()
    require(0 <= w and w <= 6, 'getWeek is 0..6')
    require_eq((w - w0 - doy(y, m, d) + 1) % 7, 0, 'weekday follows the day count within the year')
    require_eq(s.getWeekInChinese(), '日一二三四五六'[concrete(w)], 'getWeekInChinese')
    if m == 12:
        w1 = Solar.fromYmd(y + 1, 1, 1).getWeek()
        require_eq((w1 - w0 - year_len(y)) % 7, 0, 'weekday follows the day count across the year end')
        require_eq(Solar.fromYmd(2000, 1, 1).getWeek(), 6, '2000-01-01 is a Saturday')


@obligation('C05', m=MONTHS, anchor='Solar.fromJulianDay')
def from_julian_exact(m):
    y, d = any_date('', m)
    h, mi, se = any_time()
    s = Solar.fromYmdHms(y, m, d, h, mi, se)
    t = Solar.fromJulianDay(s.getJulianDay())
    same_ymd(t, y, m, d, 'fromJulianDay(getJulianDay())')
    same_hms(t, h, mi, se, 'fromJulianDay(getJulianDay())')


@obligation('C05', m=MONTHS, anchor='Solar.fromJulianDay')
def from_julian_round(m):
    y, d = any_date('', m)
    t = sym('tenths', 0, 863999)
    r = sym('tenth', 0, 9)
    q = sym('whole', 0, 86399)
    assume(t == q * 10 + r)
    assume(r != 5)
    jd = Solar.fromYmd(y, m, d).getJulianDay() + t / 864000.0
    s = Solar.fromJulianDay(jd)
    if r > 5:
        q = q + 1
    ey, em, ed = y, m, d
    if q == 86400:
        q = 0
        ey, em, ed = forward(y, m, d, 1)
    same_ymd(s, ey, em, ed, 'fromJulianDay rounds to the nearest second')
    require_eq(s.getHour() * 3600 + s.getMinute() * 60 + s.getSecond(), q, 'fromJulianDay rounds to the nearest second')


# ------------------------------------------------------------------ C06
def any_solar(tag):
    y = sym(tag + 'year', 1, 9999)
    m = sym(tag + 'month', 1, 12)
    d = sym(tag + 'day', 1, 31)
    h, mi, se = any_time(tag)
    # existence, without splitting by month
    if y == 1582:
        if m == 10:
            assume(d < 5 or d > 14)
    return y, m, d, h, mi, se


def lex(a, b):
    """-1/0/1"""
    for i in range(0, len(a)):
        if a[i] < b[i]:
            return -1
        if a[i] > b[i]:
            return 1
    return 0


@obligation('C06', anchor='Solar.isBefore')
def before_after():
    a = any_solar('a.')
    b = any_solar('b.')
    c = lex(a, b)
    x = Solar.fromYmdHms(a[0], a[1], a[2], a[3], a[4], a[5])
    z = Solar.fromYmdHms(b[0], b[1], b[2], b[3], b[4], b[5])
    require_eq(x.isBefore(z), c < 0, 'isBefore is the chronological order')
    require_eq(x.isAfter(z), c > 0, 'isAfter is the chronological order')


@obligation('C06', anchor='Solar.toYmdHms')
def text_order():
    a = any_solar('a.')
    b = any_solar('b.')
    c = lex(a, b)
    x = Solar.fromYmdHms(a[0], a[1], a[2], a[3], a[4], a[5])
    z = Solar.fromYmdHms(b[0], b[1], b[2], b[3], b[4], b[5])
    require_eq(x.toYmdHms() < z.toYmdHms(), c < 0, 'toYmdHms sorts chronologically')
    require_eq(x.toYmdHms() == z.toYmdHms(), c == 0, 'toYmdHms is injective')
    e = lex(a[:3], b[:3])
    require_eq(x.toYmd() < z.toYmd(), e < 0, 'toYmd sorts chronologically')
    require_eq(x.toYmd() == z.toYmd(), e == 0, 'toYmd is injective on days')


@obligation('C06', anchor='Solar.toYmdHms')
def text_form():
    a = any_solar('')
    x = Solar.fromYmdHms(a[0], a[1], a[2], a[3], a[4], a[5])
    t = x.toYmdHms()
    require_eq(len(t), 19, 'toYmdHms has a fixed width')
    require_eq(t[0:10], x.toYmd(), 'toYmdHms starts with toYmd')
    require_eq(int(t[0:4]), a[0], 'year text')
    require_eq(t[4:5] + t[7:8] + t[10:11] + t[13:14] + t[16:17], '-- ::', 'separators')
    require_eq(int(t[5:7]), a[1], 'month text')
    require_eq(int(t[8:10]), a[2], 'day text')
    require_eq(int(t[11:13]), a[3], 'hour text')
    require_eq(int(t[14:16]), a[4], 'minute text')
    require_eq(int(t[17:19]), a[5], 'second text')
    require_eq(str(x), x.toYmd(), 'str()')
    require_eq(x.toString(), x.toYmd(), 'toString')


# ------------------------------------------------------------------ C07
@obligation('C07', field=['month', 'day', 'hour', 'minute', 'second', 'none'], anchor='Solar.__init__')
def constructor_range(field):
    v = {'month': sym('month', 1, 12), 'day': sym('day', 1, 31), 'hour': sym('hour', 0, 23), 'minute': sym('minute', 0, 59), 'second': sym('second', 0, 59)}
    y = sym('year', 1, 9999)
    hi = {'month': 12, 'day': 31, 'hour': 23, 'minute': 59, 'second': 59, 'none': 0}[field]
    lo = {'month': 1, 'day': 1, 'hour': 0, 'minute': 0, 'second': 0, 'none': 0}[field]
    if field != 'none':
        x = sym('bad ' + field, -100000, 100000)
        assume(x < lo or x > hi)
        v[field] = x
    if y == 1582:
        if v['month'] == 10:
            assume(v['day'] < 5 or v['day'] > 14)
    e = raised(Solar.fromYmdHms, y, v['month'], v['day'], v['hour'], v['minute'], v['second'])
    if field == 'none':
        require(e is None, 'valid components are accepted')
    else:
        require(e is not None, 'a ' + field + ' outside its range is rejected')
