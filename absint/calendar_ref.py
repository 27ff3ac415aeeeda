# -*- coding: utf-8 -*-
"""reference civil calendar (Julian to 1582-10-04, Gregorian from 1582-10-15): day ordinals.
Independent of the analysed code; 0001-01-01 (Julian) has Julian day number 1721424."""
DIM = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
CUT = 2299161      # JDN of 1582-10-15


def to_ord(y, m, d):
    """Julian day number at noon"""
    a = (14 - m) // 12
    yy = y + 4800 - a
    mm = m + 12 * a - 3
    if (y, m, d) < (1582, 10, 15):
        return d + (153 * mm + 2) // 5 + 365 * yy + yy // 4 - 32083
    return d + (153 * mm + 2) // 5 + 365 * yy + yy // 4 - yy // 100 + yy // 400 - 32045


def from_ord(j):
    if j >= CUT:
        a = j + 32044
        b = (4 * a + 3) // 146097
        c = a - 146097 * b // 4
    else:
        b = 0
        c = j + 32082
    d = (4 * c + 3) // 1461
    e = c - 1461 * d // 4
    m = (5 * e + 2) // 153
    return (100 * b + d - 4800 + m // 10, m + 3 - 12 * (m // 10), e - (153 * m + 2) // 5 + 1)


def leap(y):
    return y % 4 == 0 and (y <= 1582 or y % 100 != 0 or y % 400 == 0)


def dim(y, m):
    return DIM[m - 1] + (1 if m == 2 and leap(y) else 0)


def valid(y, m, d):
    return 1 <= m <= 12 and 1 <= d <= dim(y, m) and not (y == 1582 and m == 10 and 4 < d < 15)
