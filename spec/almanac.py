# -*- coding: utf-8 -*-
"""suitable and unsuitable activities and spirits of the day and time"""
from lunar_python import Solar, Lunar, LunarTime
from lunar_python.util import LunarUtil
from .cal import *
from .world import *
from .day import scene, SCENES
from .almanac_data import DAY, TIME, SPIRITS

NONE = ['无']


def names(row, k):
    t = row.split('|')[k]
    return t.split(' ') if t != '' else list(NONE)


def proper(good, bad, what):
    for a in (good, bad):
        require(len(a) > 0, what + ': there is always an entry')
        require(len(set(a)) == len(a), what + ': no entry twice')
    for n in good:
        require(n == '无' or n not in bad, what + ': nothing is both suitable and unsuitable')


# ------------------------------------------------------------------ C33
@obligation('C33', p=range(0, 60), anchor='LunarUtil.getDayYi', rule='the activities of a day follow from its pillar and the month branch')
def day_table(p):
    for m in range(0, 60):
        row = DAY[p][m % 12]
        good = LunarUtil.getDayYi(JIAZI[m], JIAZI[p])
        bad = LunarUtil.getDayJi(JIAZI[m], JIAZI[p])
        require_eq(good, names(row, 0), 'suitable on a %s day of a %s month' % (JIAZI[p], JIAZI[m]))
        require_eq(bad, names(row, 1), 'unsuitable on a %s day of a %s month' % (JIAZI[p], JIAZI[m]))
        if m < 12:
            proper(good, bad, 'day')
            good.append('x')
            bad.append('x')
            require_eq(LunarUtil.getDayYi(JIAZI[m], JIAZI[p]), names(row, 0), 'the returned list is the caller\'s own')
            require_eq(LunarUtil.getDayJi(JIAZI[m], JIAZI[p]), names(row, 1), 'the returned list is the caller\'s own')


@obligation('C33', p=range(0, 60), anchor='LunarUtil.getTimeYi', rule='the activities of a double-hour follow from the pillars of day and time')
def time_table(p):
    for z in range(0, 12):
        g = (p % 5 * 2 + z) % 10
        t = JIAZI[(6 * g - 5 * z) % 60]
        row = TIME[p][z]
        good = LunarUtil.getTimeYi(JIAZI[p], t)
        bad = LunarUtil.getTimeJi(JIAZI[p], t)
        require_eq(good, names(row, 0), 'suitable at %s of a %s day' % (t, JIAZI[p]))
        require_eq(bad, names(row, 1), 'unsuitable at %s of a %s day' % (t, JIAZI[p]))
        proper(good, bad, 'time')
        good.append('x')
        bad.append('x')
        require_eq(LunarUtil.getTimeYi(JIAZI[p], t), names(row, 0), 'the returned list is the caller\'s own')
        require_eq(LunarUtil.getTimeJi(JIAZI[p], t), names(row, 1), 'the returned list is the caller\'s own')


@obligation('C33', m=range(1, 13), anchor='LunarUtil.getDayJiShen', rule='spirits by lunar month (a leap month counts as its month) and day pillar; a spirit is auspicious or inauspicious')
def spirit_table(m):
    for p in range(0, 60):
        row = SPIRITS[m - 1][p]
        for k in (m, 0 - m):
            good = LunarUtil.getDayJiShen(k, JIAZI[p])
            bad = LunarUtil.getDayXiongSha(k, JIAZI[p])
            require_eq(good, names(row, 0), 'auspicious spirits of a %s day of month %d' % (JIAZI[p], k))
            require_eq(bad, names(row, 1), 'inauspicious spirits of a %s day of month %d' % (JIAZI[p], k))
            proper(good, bad, 'spirits')
        good.append('x')
        bad.append('x')
        require_eq(LunarUtil.getDayJiShen(m, JIAZI[p]), names(row, 0), 'the returned list is the caller\'s own')
        require_eq(LunarUtil.getDayXiongSha(m, JIAZI[p]), names(row, 1), 'the returned list is the caller\'s own')


@obligation('C33', anchor='LunarUtil.getDayJiShen', rule='no spirit is auspicious on one day and inauspicious on another')
def sides():
    good, bad = set(), set()
    for m in range(1, 13):
        for p in range(0, 60):
            for n in LunarUtil.getDayJiShen(m, JIAZI[p]):
                good.add(n)
            for n in LunarUtil.getDayXiongSha(m, JIAZI[p]):
                bad.add(n)
    for n in sorted(good):
        require(n == '无' or n not in bad, n + ' is either auspicious or inauspicious')


@obligation('C33', m=range(1, 13), i=SCENES, anchor='Lunar.getDayYi', rule='activities and spirits of a date are those of its pillars, month and lunar month, for each convention')
def of_date(m, i):
    p = choice('day pillar', list(range(0, 60)))
    w = scene(m, i, p)
    lm = choice('lunar month', [(m * 5 + p) % 12 + 1, 0 - ((m * 5 + p) % 12 + 1)])
    u = w.lunar((lm, 0), 1 + (p + m) % 29)
    plain, exact = concrete(u.getMonthZhiIndex()), concrete(u.getMonthZhiIndexExact())
    for k, row in ((1, DAY[p][plain]), (2, DAY[p][exact])):
        require_eq(u.getDayYi(k), names(row, 0), 'suitable on the day (convention %d)' % k)
        require_eq(u.getDayJi(k), names(row, 1), 'unsuitable on the day (convention %d)' % k)
    row = DAY[p][plain]
    require_eq(u.getDayYi(), names(row, 0), 'suitable on the day')
    require_eq(u.getDayJi(), names(row, 1), 'unsuitable on the day')
    row = SPIRITS[abs(lm) - 1][p]
    require_eq(u.getDayJiShen(), names(row, 0), 'auspicious spirits of the day')
    require_eq(u.getDayXiongSha(), names(row, 1), 'inauspicious spirits of the day')
    e = JIAZI.index(u.getDayInGanZhiExact())
    row = TIME[e][concrete(u.getTimeZhiIndex())]
    require_eq(u.getTimeYi(), names(row, 0), 'suitable at the time')
    require_eq(u.getTimeJi(), names(row, 1), 'unsuitable at the time')
    t = u.getTime()
    require_eq(t.getYi(), names(row, 0), 'suitable at the double-hour')
    require_eq(t.getJi(), names(row, 1), 'unsuitable at the double-hour')
