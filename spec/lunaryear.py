# -*- coding: utf-8 -*-
"""attributes of lunar years and months; moving by lunar months and years"""
from lunar_python import Solar, Lunar, LunarYear, LunarMonth, NineStar
from .cal import *
from .astro import Sky, ERAS, MONTH_TEXT
from .day import TRIGRAMS, XI, YANG_GUI, YIN_GUI, FU1, FU2, CAI, TAI_SUI_YEAR, STEM_PLACE, GAN, ZHI
from .stars import NUMBERS

CHINESE = ('零', '一', '二', '三', '四', '五', '六', '七', '八', '九', '十', '十一', '十二')


def directions(o, g, what):
    for name, want in (('PositionXi', XI), ('PositionYangGui', YANG_GUI), ('PositionYinGui', YIN_GUI), ('PositionCai', CAI)):
        require_eq(getattr(o, 'get' + name)(), want[g], what + ' ' + name)
        require_eq(getattr(o, 'get' + name + 'Desc')(), TRIGRAMS[want[g]], what + ' ' + name + ' description')
    for sect, want in ((1, FU1), (2, FU2)):
        require_eq(o.getPositionFu(sect), want[g], what + ' PositionFu')
        require_eq(o.getPositionFuDesc(sect), TRIGRAMS[want[g]], what + ' PositionFu description')
    require_eq([o.getPositionFu(), o.getPositionFuDesc()], [FU2[g], TRIGRAMS[FU2[g]]], what + ' PositionFu default')


YEARS = {'quick': sorted(set(list(range(1, 9990, 53)) + list(range(1860, 2050)))), 'thorough': range(1, 9998)}


# ------------------------------------------------------------------ C25
@obligation('C25', year=YEARS, anchor='LunarYear.getGanZhi', rule='attributes of a lunar year')
def year_attributes(year):
    if year in ERAS:
        infeasible()
    sky = Sky(year % 30)
    sky.install()
    o = LunarYear.fromYear(year)
    g, z = (year - 4) % 10, (year - 4) % 12
    require_eq([o.getGanIndex(), o.getZhiIndex(), o.getGan(), o.getZhi(), o.getGanZhi()], [g, z, GAN[g], ZHI[z], GAN[g] + ZHI[z]], 'stem and branch of the year')
    directions(o, g, 'year')
    require_eq([o.getPositionTaiSui(), o.getPositionTaiSuiDesc()], [TAI_SUI_YEAR[z], TRIGRAMS[TAI_SUI_YEAR[z]]], 'Tai Sui of the year')
    require_eq(o.getYuan(), '上中下'[(year - 1864) // 60 % 3] + '元', 'sixty-year period, the first one from 1864')
    require_eq(o.getYun(), NUMBERS[(year - 1864) // 20 % 9] + '运', 'twenty-year period, the first one from 1864')
    require_eq(o.getNineStar().getNumber(), NUMBERS[(1864 - year) % 9], 'nine star of the year')
    require_eq([o.toString(), str(o), o.toFullString()], [str(year), str(year), str(year) + '年'], 'texts of the year')
    if 30 < year < 9960:
        for n in (-12, -1, 0, 1, 7):
            require_eq(o.next(n).getYear(), year + n, 'year after moving')
        require_eq(o.getYear(), year, 'moving makes a new object')


@obligation('C25', year=YEARS, anchor='LunarYear.getTouLiang', rule='first days of the first month by stem and branch')
def first_days(year):
    if year in ERAS:
        infeasible()
    sky = Sky((year * 7) % 30)
    sky.install()
    o = LunarYear.fromYear(year)
    first = [m for m in o.getMonths() if m.getYear() == year and m.getMonth() == 1][0].getFirstJulianDay()
    g, z = concrete((first - 11) % 10), concrete((first - 11) % 12)

    def branch(i):
        return CHINESE[(i - z) % 12 + 1]

    def stem(i):
        return CHINESE[(i - g) % 10 + 1]
    require_eq(o.getTouLiang(), branch(0) + '鼠偷粮', 'first 子 day')
    require_eq(o.getCaoZi(), '草子' + branch(0) + '分', 'first 子 day')
    require_eq(o.getGengTian(), branch(1) + '牛耕田', 'first 丑 day')
    require_eq(o.getHuaShou(), '花收' + branch(3) + '分', 'first 卯 day')
    require_eq(o.getZhiShui(), branch(4) + '龙治水', 'first 辰 day')
    require_eq(o.getTuoGu(), branch(6) + '马驮谷', 'first 午 day')
    require_eq(o.getQiangMi(), branch(9) + '鸡抢米', 'first 酉 day')
    require_eq(o.getKanCan(), branch(9) + '姑看蚕', 'first 酉 day')
    require_eq(o.getGongZhu(), branch(11) + '屠共猪', 'first 亥 day')
    require_eq(o.getJiaTian(), '甲田' + stem(0) + '分', 'first 甲 day')
    require_eq(o.getFenBing(), stem(2) + '人分饼', 'first 丙 day')
    require_eq(o.getDeJin(), stem(7) + '日得金', 'first 辛 day')
    require_eq(o.getRenBing(), branch(2) + '人' + stem(2) + '丙', 'first 寅 and 丙 days')
    require_eq(o.getRenChu(), branch(2) + '人' + stem(3) + '锄', 'first 寅 and 丁 days')


MONTH_YEARS = {'quick': list(range(25, 236, 61)) + list(range(260, 9990, 331)) + list(range(1984, 2044)) + [1582, 1583], 'thorough': list(range(25, 236, 7)) + list(range(250, 9990, 17)) + list(range(1864, 2104))}


@obligation('C25', year=MONTH_YEARS, anchor='LunarMonth.getGanZhi', rule='attributes of the lunar months')
def month_attributes(year):
    sky = Sky((year * 11) % 30)
    sky.install()
    want = sky.months(year)
    k = 0
    for m in LunarYear.fromYear(year).getMonths():
        e = want[k]
        k = k + 1
        if e[0] != year:
            continue
        yg, yz = (year - 4) % 10, (year - 4) % 12
        # the leap month counts as a month of its own here
        g, z = ((yg + 1) * 2 + e[4] - 1) % 10, (e[4] + 1) % 12
        require_eq([m.getGanIndex(), m.getZhiIndex(), m.getGan(), m.getZhi(), m.getGanZhi()], [g, z, GAN[g], ZHI[z], GAN[g] + ZHI[z]], 'stem and branch of the month')
        directions(m, g, 'month')
        n = abs(e[1])
        require_eq(m.getNineStar().getNumber(), NUMBERS[((7, 4, 1)[(0, 1, 2)[yz % 3]] - (n - 1)) % 9], 'nine star of the month')
        if n % 4 != 2:
            p = {1: '艮', 3: '坤', 0: '巽'}[n % 4]
        else:
            first = Solar.fromJulianDay(m.getFirstJulianDay())
            p = STEM_PLACE[first.getLunar().getMonthGanIndex()]
        require_eq([m.getPositionTaiSui(), m.getPositionTaiSuiDesc()], [p, TRIGRAMS[p]], 'Tai Sui of the month')
        text = str(year) + '年' + ('闰' if e[1] < 0 else '') + MONTH_TEXT[n - 1] + '月(' + str(e[3]) + '天)'
        require_eq([m.toString(), str(m)], [text, text], 'text of the month')
        require_eq(m.isLeap(), e[1] < 0, 'leap flag')
        f = LunarMonth.fromYm(year, e[1])
        require_eq([f.getYear(), f.getMonth(), f.getFirstJulianDay(), f.getDayCount()], [year, e[1], e[2], e[3]], 'LunarMonth.fromYm')


STEPS = [[-38, -26, -14, -13, -12, -3, -2, -1, 0, 1, 2, 3, 4, 12, 13, 14, 15, 27, 40]] + [list(range(-57 + i, 58, 7)) for i in range(0, 7)]


@obligation('C25', year={'quick': [1583, 1998, 2001, 2020, 2033, 2034, 3358], 'thorough': [100, 534, 982, 1500, 1582, 1583, 1998, 2001, 2004, 2020, 2023, 2033, 2034, 2100, 2128, 3358, 3806, 5000, 9000]},
            phase={'quick': range(0, 30), 'thorough': range(0, 30)}, steps={'quick': [0], 'thorough': range(0, 8)}, anchor='LunarMonth.next', rule='moving by lunar months')
def months_apart(year, phase, steps):
    sky = Sky(phase)
    sky.install()
    line = []
    for y in range(year - 5, year + 6):
        for e in sky.months(y):
            if e[0] == y:
                line.append(e)
    for i in range(1, len(line)):
        require_eq(line[i][2], line[i - 1][2] + line[i - 1][3], 'model')
    for i in range(0, len(line)):
        if line[i][0] == year:
            m = LunarMonth.fromYm(year, line[i][1])
            for n in STEPS[steps]:
                if not 0 <= i + n < len(line):
                    continue
                r = m.next(n)
                e = line[i + n]
                require_eq([r.getYear(), r.getMonth(), r.getDayCount(), r.getFirstJulianDay()], [e[0], e[1], e[3], e[2]], 'month after moving by %d' % n)
            require_eq([m.getYear(), m.getMonth()], [year, line[i][1]], 'moving makes a new object')
