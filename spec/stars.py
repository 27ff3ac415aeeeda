# -*- coding: utf-8 -*-
"""nine stars; attributes of lunar years and months"""
from lunar_python import Solar, Lunar, LunarYear, LunarMonth, NineStar, LunarTime
from .cal import *
from .text_data import STAR_VERSE
from .world import *

NUMBERS = '一二三四五六七八九'
COLORS = '白黑碧绿黄白赤白紫'
ELEMENTS = '水土木木土金金土火'
PLACES = '坎坤震巽中乾兑艮离'
PLACE_TEXT = {'坎': '正北', '艮': '东北', '震': '正东', '巽': '东南', '离': '正南', '坤': '西南', '兑': '正西', '乾': '西北', '中': '中宫'}
DIPPER = ('天枢', '天璇', '天玑', '天权', '玉衡', '开阳', '摇光', '洞明', '隐元')
XUAN = ('贪狼', '巨门', '禄存', '文曲', '廉贞', '武曲', '破军', '左辅', '右弼')
XUAN_LUCK = '吉凶凶吉凶吉凶吉吉'
MEN = ('天蓬', '天芮', '天冲', '天辅', '天禽', '天心', '天柱', '天任', '天英')
MEN_LUCK = ('大凶', '大凶', '小吉', '大吉', '大吉', '大吉', '小凶', '小吉', '小凶')
MEN_YY = '阳阴阳阳阳阴阴阳阴'
GATES = ('休', '死', '伤', '杜', '', '开', '惊', '生', '景')
TAI_YI = ('太乙', '摄提', '轩辕', '招摇', '天符', '青龙', '咸池', '太阴', '天乙')
TAI_YI_TYPE = ('吉神', '凶神', '安神', '安神', '凶神', '吉神', '凶神', '吉神', '吉神')


# ------------------------------------------------------------------ C24
@obligation('C24', n=range(0, 9), anchor='NineStar.getNumber', rule='attributes of the nine stars')
def star(n):
    s = NineStar.fromIndex(n)
    require_eq(s.getIndex(), n, 'index')
    require_eq([s.getNumber(), s.getColor(), s.getWuXing(), s.getPosition()], [NUMBERS[n], COLORS[n], ELEMENTS[n], PLACES[n]], 'number, colour, element, palace')
    require_eq(s.getPositionDesc(), PLACE_TEXT[PLACES[n]], 'direction of the palace')
    require_eq([s.getNameInBeiDou(), s.getNameInXuanKong(), s.getNameInQiMen(), s.getNameInTaiYi()], [DIPPER[n], XUAN[n], MEN[n], TAI_YI[n]], 'names')
    require_eq([s.getLuckInXuanKong(), s.getLuckInQiMen(), s.getYinYangInQiMen(), s.getBaMenInQiMen(), s.getTypeInTaiYi()], [XUAN_LUCK[n], MEN_LUCK[n], MEN_YY[n], GATES[n], TAI_YI_TYPE[n]], 'luck')
    short = NUMBERS[n] + COLORS[n] + ELEMENTS[n] + DIPPER[n]
    require_eq(s.toString(), short, 'text')
    gate = (' ' + GATES[n] + '门') if n != 4 else ''
    require_eq(s.toFullString(), NUMBERS[n] + COLORS[n] + ELEMENTS[n] + ' ' + PLACES[n] + '(' + PLACE_TEXT[PLACES[n]] + ') ' + DIPPER[n] + ' 玄空[' + XUAN[n] + ' ' + XUAN_LUCK[n] + '] 奇门['
               + MEN[n] + ' ' + MEN_LUCK[n] + gate + ' ' + MEN_YY[n] + '] 太乙[' + TAI_YI[n] + ' ' + TAI_YI_TYPE[n] + ']', 'full text')
    require_eq(s.getSongInTaiYi(), STAR_VERSE[n], 'verse')


def year_star(y):
    """year 1864 opens the upper era with One White; one step back every year"""
    return (1864 - y) % 9


@obligation('C24', m=range(1, 13), yclass={'quick': range(0, 1200, 61), 'thorough': range(0, 1200, 7)}, anchor='Lunar.getYearNineStar', rule='year star steps back yearly; month star steps back every month from 寅')
def year_month(m, yclass):
    h = choice('hour', [8, 23])
    w = World(m, at=(9, 30, 45), hour=h, yclass=yclass, pillar=(m * 5 + yclass) % 60, free=-1, days=(3, 7))
    w.install()
    u = w.lunar('any')
    w1 = {1: w.ly, 2: w.year_number(False), 3: w.year_number(True)}
    for sect in (1, 2, 3):
        require_eq(u.getYearNineStar(sect).getIndex(), year_star(w1[sect]), 'year star, convention ' + str(sect))
        yz = w1[sect] - 4
        k = (w.month_number(sect == 3)) % 12
        # 寅 of a 子午卯酉 year is Eight White, 辰戌丑未 Five Yellow, 寅申巳亥 Two Black
        require_eq(u.getMonthNineStar(sect).getIndex(), (7 - 3 * (yz % 3) - k) % 9, 'month star, convention ' + str(sect))
    require_eq(u.getYearNineStar().getIndex(), u.getYearNineStar(2).getIndex(), 'default convention of the year star')
    require_eq(u.getMonthNineStar().getIndex(), u.getMonthNineStar(2).getIndex(), 'default convention of the month star')


def start_of(w, t):
    """the 甲子 day nearest the term, as an offset from the date"""
    r = w.term(t)
    n = concrete(w.offset(r.y, r.m, r.d))
    p = (w.pillar + n) % 60
    return n - p if p < 30 else n + 60 - p


@obligation('C24', m=range(1, 13), p=range(0, 60), anchor='Lunar.getDayNineStar', rule='day star ascends from the 甲子 nearest the winter solstice and descends from the one nearest the summer solstice')
def day(m, p):
    if p == 0 or p == 59:
        d = choice('day', list(range(1, 32)))
    else:
        d = choice('day', [1 + (p + m) % 5, 10 + (p + m) % 10, 21 + (p + 3 * m) % 8])
    yclass = 831 + p % 2
    assume(exists(yclass + 2400, m, d))
    w = World(m, hour=9 + ((p + m) % 2) * 14, yclass=yclass, pillar=p, free=-1, days=(d, d), shift=p % 4, simple=True)
    w.install()
    u = w.lunar('any')
    a, b, c = start_of(w, -1), start_of(w, 11), start_of(w, 23)
    # offsets of the starts from the date
    if a > 0:
        want = (8 + a) % 9
    elif b > 0:
        want = (0 - a) % 9
    elif c > 0:
        want = 8 - (0 - b) % 9
    else:
        want = (0 - c) % 9
    require_eq(u.getDayNineStar().getIndex(), want, 'day star')


@obligation('C24', m=range(1, 13), z=range(0, 12), anchor='Lunar.getTimeNineStar', rule='time star starts by day branch group, ascending in the winter half, descending in the summer half; LunarTime agrees')
def time(m, z):
    d = choice('day', [21, (5, 20, 22, 28)[(z + m) % 4]])
    k = choice('hour', list(range(0, 24, 2)) + [23])
    w = World(m, hour=k, yclass=831 + z % 2, pillar=z + 12 * (m % 5), free=-1, days=(d, d), shift=1, simple=True)
    w.install()
    u = w.lunar('any')
    up = not w.reached(11, False) or w.reached(23, False)
    t = ((k + 1) // 2) % 12
    # 子午卯酉 days start with One/Nine, 辰戌丑未 with Four/Six, 寅申巳亥 with Seven/Three
    g = (0, 3, 6)[z % 3]
    want = (g + t) % 9 if up else (8 - g - t) % 9
    require_eq(u.getTimeNineStar().getIndex(), want, 'time star')
    require_eq(u.getTime().getNineStar().getIndex(), want, 'LunarTime agrees')
