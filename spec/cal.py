# -*- coding: utf-8 -*-
"""oracle: the civil calendar (Julian to 1582-10-04, Gregorian from 1582-10-15), written independently"""
DIM = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)

BEFORE = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)


def leap(y):
    if y % 4 != 0:
        return False
    if y <= 1582:
        return True
    if y % 100 != 0:
        return True
    return y % 400 == 0


def dim(y, m):
    """number of existing days"""
    if m == 2:
        return 29 if leap(y) else 28
    if m == 10 and y == 1582:
        return 21
    return DIM[m - 1]


def last(y, m):
    """highest day number"""
    if m == 2:
        return 29 if leap(y) else 28
    return DIM[m - 1]


def exists(y, m, d):
    if d < 1 or d > last(y, m):
        return False
    if m == 10 and y == 1582 and 4 < d < 15:
        return False
    return True


def year_len(y):
    if y == 1582:
        return 355
    return 366 if leap(y) else 365


def pos(y, m, d):
    """position of the day among the existing days of its month"""
    if m == 10 and y == 1582 and d > 4:
        return d - 10
    return d


def doy(y, m, d):
    n = BEFORE[m - 1]
    if m > 2:
        if leap(y):
            n = n + 1
        if m > 10 and y == 1582:
            n = n - 10
    return n + pos(y, m, d)


def unpos(y, m, p):
    if m == 10 and y == 1582 and p > 4:
        return p + 10
    return p


def any_date(tag, m, lo=1, hi=9999):
    """symbolic existing date of month m"""
    y = sym(tag + 'year', lo, hi)
    d = sym(tag + 'day', 1, DIM[m - 1] + (1 if m == 2 else 0))
    assume(exists(y, m, d))
    note(tag + 'month', m)
    return y, d


def forward(y, m, d, n):
    """the day n days later (n may be negative), month by month"""
    p = pos(y, m, d) + n
    while p < 1:
        m = m - 1
        if m < 1:
            m = 12
            y = y - 1
        p = p + dim(y, m)
    while p > dim(y, m):
        p = p - dim(y, m)
        m = m + 1
        if m > 12:
            m = 1
            y = y + 1
    return y, m, unpos(y, m, p)


def forward_far(y, m, d, n):
    """the same, year by year first"""
    p = doy(y, m, d) + n
    while p < 1:
        y = y - 1
        p = p + year_len(y)
    while p > year_len(y):
        p = p - year_len(y)
        y = y + 1
    m = 1
    while p > dim(y, m):
        p = p - dim(y, m)
        m = m + 1
    return y, m, unpos(y, m, p)
