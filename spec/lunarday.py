# -*- coding: utf-8 -*-
"""texts and attributes of the lunar month and day, lunar festivals"""
from lunar_python import Solar, Lunar
from lunar_python.util import LunarUtil
from .cal import *
from .world import *
from .day import LIU_YAO, TAI_MONTH

LUNAR_MONTHS = list(range(1, 13)) + [0 - k for k in range(1, 13)]
DIGITS = '〇一二三四五六七八九'
MONTH_TEXT = ('正', '二', '三', '四', '五', '六', '七', '八', '九', '十', '冬', '腊')
SEASON = ('孟春', '仲春', '季春', '孟夏', '仲夏', '季夏', '孟秋', '仲秋', '季秋', '孟冬', '仲冬', '季冬')
MOON = ('朔', '既朔', '蛾眉新', '蛾眉新', '蛾眉', '夕', '上弦', '上弦', '九夜', '宵', '宵', '宵', '渐盈凸', '小望', '望', '既望', '立待', '居待', '寝待', '更待',
        '渐亏凸', '下弦', '下弦', '有明', '有明', '蛾眉残', '蛾眉残', '残', '晓', '晦')
FESTIVAL = {'1-1': '春节', '1-15': '元宵节', '2-2': '龙头节', '5-5': '端午节', '7-7': '七夕节', '8-15': '中秋节', '9-9': '重阳节', '12-8': '腊八节'}
OTHER = {'1-4': ['接神日'], '1-5': ['隔开日'], '1-7': ['人日'], '1-8': ['谷日', '顺星节'], '1-9': ['天日'], '1-10': ['地日'], '1-20': ['天穿节'], '1-25': ['填仓节'],
         '1-30': ['正月晦'], '2-1': ['中和节'], '2-2': ['社日节'], '3-3': ['上巳节'], '5-20': ['分龙节'], '5-25': ['会龙节'], '6-6': ['天贶节'], '6-24': ['观莲节'],
         '6-25': ['五谷母节'], '7-15': ['中元节'], '7-22': ['财神节'], '7-29': ['地藏节'], '8-1': ['天灸日'], '10-1': ['寒衣节'], '10-10': ['十成节'],
         '10-15': ['下元节'], '12-7': ['驱傩日'], '12-16': ['尾牙'], '12-24': ['祭灶日']}


def day_text(d):
    if d == 20:
        return '二十'
    if d == 30:
        return '三十'
    if d == 10:
        return '初十'
    return ('初', '十', '廿')[d // 10] + DIGITS[d % 10]


def civil_month(lm):
    """a civil month that can contain a day of the lunar month"""
    return (abs(lm) % 12) + 1


def the_world(lm, ld, **kw):
    """a date whose lunar month is lm; its civil month is the one after (same lunar year, or the next civil year)"""
    m = civil_month(lm)
    c = clock(abs(lm) + ld)
    w = World(m, pillar=(abs(lm) * 7 + 3) % 60, hour=c['hour'], minute=c['minute'], second=c['second'], **kw)
    w.install()
    return w, (lm, -1 if abs(lm) == 12 else 0)


# ------------------------------------------------------------------ C37
@obligation('C37', lm=LUNAR_MONTHS, anchor='Lunar.toString', rule='texts, season, moon phase, six days by lunar month and day')
def texts(lm):
    ld = choice('lunar day', list(range(1, 31)))
    w, at = the_world(lm, ld, free=-1, days=(11, 16), yclass=830, lo=2000, hi=2100)
    u = w.lunar(at, ld)
    k = abs(lm)
    require_eq(u.getMonth(), lm, 'lunar month')
    require_eq(u.getDay(), ld, 'lunar day')
    mt = ('闰' if lm < 0 else '') + MONTH_TEXT[k - 1]
    require_eq(u.getMonthInChinese(), mt, 'month text')
    require_eq(u.getDayInChinese(), day_text(ld), 'day text')
    require_eq(u.getSeason(), SEASON[k - 1], 'season')
    require_eq(u.getYueXiang(), MOON[ld - 1], 'moon phase')
    require_eq(u.getLiuYao(), LIU_YAO[(k + ld - 2) % 6], 'six days start with 先胜 on the first of month 1 and shift by one each month')
    require_eq(u.getMonthPositionTai(), '' if lm < 0 else TAI_MONTH[k - 1], 'fetal god of the month')
    s = u.toString()
    require(s.endswith('年' + mt + '月' + day_text(ld)), 'text of the date')


@obligation('C37', head=list(range(0, 10)), anchor='Lunar.getYearInChinese', rule='the year is spelled digit by digit')
def year_text(head):
    y = sym('lunar year', max(1, head * 1000), head * 1000 + 999)
    w = World(4, pillar=5, free=-1, days=(16, 16), lo=1, hi=9999, shift=-2, **clock(head))
    assume(w.y == y)
    w.install()
    u = w.lunar((3, 0), 5)
    t = u.getYearInChinese()
    s = u.toString()
    v = concrete(u.getYear(), 100000)
    want = ''
    for c in str(v):
        want = want + DIGITS[int(c)]
    require_eq(t, want, 'year text')
    require_eq(s, want + '年三月初五', 'text of the date')


# ------------------------------------------------------------------ C36
@obligation('C36', lm=LUNAR_MONTHS, anchor='Lunar.getFestivals', rule='lunar festivals on their month and day; 除夕 exactly on the last day of the lunar year')
def festivals(lm):
    ld = choice('lunar day', list(range(1, 31)))
    w, at = the_world(lm, ld, free=-1, days=(11, 16), ypillar=30)
    u = w.lunar(at, ld)
    note('lunar day', ld)
    last_of_year = False
    if ld < w.count:
        nxt = (w.ly, lm, ld + 1)
    else:
        # the month after: a leap month of the same number, the next month, or (after month 12) the new year
        alts = []
        if lm > 0:
            alts.append((w.ly, 0 - lm, 1))
        if abs(lm) < 12:
            alts.append((w.ly, abs(lm) + 1, 1))
        else:
            alts.append((w.ly + 1, 1, 1))
        nxt = choice('month after', alts)
        last_of_year = concrete(nxt[0] - w.ly) == 1

    def fromSolar(solar):
        require_eq(w.offset(solar.getYear(), solar.getMonth(), solar.getDay()), 1, 'model')
        return w.make(nxt[0], nxt[1], nxt[2], 30, solar.getYear(), solar.getMonth(), solar.getDay(), solar.getHour(), solar.getMinute(), solar.getSecond())
    patch(Lunar, 'fromSolar', fromSolar)
    want = []
    key = '%d-%d' % (lm, ld)
    if key in FESTIVAL:
        want.append(FESTIVAL[key])
    if last_of_year:
        want.append('除夕')
    require_eq(u.getFestivals(), want, 'festivals')


@obligation('C36', lm=LUNAR_MONTHS, anchor='Lunar.getOtherFestivals', rule='fixed-date folk festivals on their lunar month and day')
def other_festivals(lm):
    ld = choice('lunar day', list(range(1, 31)))
    w, at = the_world(lm, ld, free=-1, days=(12, 12), yclass=830, lo=2000, hi=2100, simple=True)
    u = w.lunar(at, ld)
    key = '%d-%d' % (lm, ld)
    got = u.getOtherFestivals()
    want = list(OTHER[key]) if key in OTHER else []
    require_eq(got[0:len(want)], want, 'fixed-date festivals')
    for f in got[len(want):]:
        require(f in ('寒食节', '春社', '秋社'), 'only term-based festivals may follow')
    got.append('x')
    require_eq(u.getOtherFestivals(), got[0:len(got) - 1], 'the returned list is the caller\'s own')


@obligation('C36', m=range(1, 13), yclass={'quick': [831, 832], 'thorough': [830, 831, 832, 833, 900]}, shift={'quick': [0], 'thorough': range(-3, 4)}, anchor='Lunar.getOtherFestivals',
            rule='寒食节 is the day before 清明; 春社/秋社 the fifth 戊 day from 立春/立秋')
def term_festivals(m, yclass, shift):
    d = choice('day', list(range(1, 30)))
    p = choice('day pillar', list(range(0, 10)))
    assume(exists(yclass + 2400, m, d))
    w = World(m, yclass=yclass, pillar=p + 20, free=-1, days=(d, d), shift=shift, simple=True, at=((9, 30, 45), (23, 10, 0))[(d + yclass) % 2], **clock(d + p))
    w.install()
    u = w.lunar((4, 0), 13)
    want = []
    t = w.term(6)
    if w.offset(t.y, t.m, t.d) == 1:
        want.append('寒食节')
    for k, name in ((2, '春社'), (14, '秋社')):
        t = w.term(k)
        n = 0 - w.offset(t.y, t.m, t.d)
        if p == 4 and 40 <= n and n <= 49:
            want.append(name)
    require_eq(u.getOtherFestivals(), want, 'term-based festivals')
