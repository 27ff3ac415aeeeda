# -*- coding: utf-8 -*-
"""lunar years, months and conversions over a model sky: solar terms and new moons at mean motion, with a free lunar
phase.  The three astronomical functions of ShouXingUtil are replaced by the model; everything built on them is analysed."""
from lunar_python import Solar, Lunar, LunarYear, LunarMonth
from lunar_python.util import ShouXingUtil
from .cal import *
from .leap_data import LIST_11, LIST_12

TERM = 15.218425
MOON = 29.530588
J2000 = 2451545
MONTH_TEXT = ('正', '二', '三', '四', '五', '六', '七', '八', '九', '十', '冬', '腊')
GAN = '甲乙丙丁戊己庚辛壬癸'
ZHI = '子丑寅卯辰巳午未申酉戌亥'


def floor_(x):
    return int(x // 1)


class Sky:
    def __init__(self, phase, frac=0.31):
        self.phase = phase
        self.frac = frac

    def qi_exact(self, k):
        """moment of the k-th term after the winter solstice of 2000, days from J2000"""
        return 355.3 + TERM * k

    def qi(self, k):
        return floor_(self.qi_exact(k) + 0.5)

    def moon(self, k):
        return self.phase + floor_(5.2 + self.frac + MOON * k + 0.5)

    def qi_near(self, x):
        return concrete(floor_((x - 355.3) / TERM + 0.5))

    def moon_near(self, x):
        return concrete(floor_((x - self.phase - 5.2 - self.frac) / MOON + 0.5))

    def install(self):
        sky = self

        def calcQi(jd):
            return sky.qi(sky.qi_near(jd))

        def calcShuo(jd):
            return sky.moon(sky.moon_near(jd))

        def qiAccurate2(jd):
            return sky.qi_exact(sky.qi_near(jd))
        patch(ShouXingUtil, 'calcQi', calcQi)
        patch(ShouXingUtil, 'calcShuo', calcShuo)
        patch(ShouXingUtil, 'qiAccurate2', qiAccurate2)

    def sui(self, year):
        """first moon number and leap position of the months from the winter solstice of the year before"""
        k = 24 * (year - 2001)
        q0 = self.qi(k)
        n = self.moon_near(q0)
        while self.moon(n) > q0:
            n = n - 1
        while self.moon(n + 1) <= q0:
            n = n + 1
        leap = 0
        if self.moon(n + 13) <= self.qi(k + 24):
            # thirteen months: the first without a 中气
            leap = 1
            while leap < 13 and self.has_zhongqi(n + leap, k):
                leap = leap + 1
        return n, leap

    def has_zhongqi(self, n, k):
        a, b = self.moon(n), self.moon(n + 1)
        for j in range(k, k + 26, 2):
            q = self.qi(j)
            if a <= q and q < b:
                return True
        return False

    def fits(self, year):
        """the listed leap months of the analysed code around the end of the year are those of this sky"""
        leap2 = self.sui(year + 1)[1]
        if leap2 in (1, 2):
            return (year in LIST_11) if leap2 == 1 else (year in LIST_12)
        return not (year in LIST_11 or year in LIST_12)

    def months(self, year):
        """fifteen months from the one of the winter solstice of year-1: (year, signed number, first Julian day, days, index)"""
        n, leap = self.sui(year)
        n2, leap2 = self.sui(year + 1)
        if leap2 in (1, 2):
            at = n2 + leap2 - n
            if not (leap2 == 1 and year in LIST_11) and not (leap2 == 2 and year in LIST_12):
                infeasible()
        else:
            at = 99
            if year in LIST_11 or year in LIST_12:
                infeasible()
        out = []
        num = 11
        y = year - 1
        index = 11
        for i in range(0, 15):
            if i > 0:
                if i == leap or i == at:
                    index = index + 1
                    a = 0 - num
                else:
                    num = num + 1
                    index = index + 1
                    if num > 12:
                        num = 1
                        index = 1
                        y = y + 1
                    a = num
            else:
                a = num
            out.append((y, a, self.moon(n + i) + J2000, self.moon(n + i + 1) - self.moon(n + i), index))
        return out


ERAS = list(range(8, 25)) + list(range(236, 242))
YEARS = {'quick': [y for y in range(1, 9999, 41) if y not in ERAS] + list(range(1995, 2026)) + [1583, 1582, 1581, 240, 9, 9998] + [2033, 2128, 2147, 2242, 3358, 3472, 3806, 534, 944],
         'thorough': range(1, 9999)}


# ------------------------------------------------------------------ C34
@obligation('C34', year=YEARS, frac={'quick': [0.31], 'thorough': [0.31]}, anchor='LunarYear.compute', rule='the month table of a year for every phase of the moon')
def month_table(year, frac):
    sky = Sky(sym('phase', 0, 29), frac)
    sky.install()
    want = sky.months(year)
    ly = LunarYear.fromYear(year)
    got = ly.getMonths()
    require_eq(ly.getYear(), year, 'year')
    require_eq(len(got), 15, 'fifteen months')
    total = 0
    inside = []
    leap = 0
    for i in range(0, 15):
        m, e = got[i], want[i]
        if year in ERAS:
            # the calendar reforms of 9..23 and 237..239 renumber the months
            require(1 <= abs(m.getMonth()) <= 12, 'number of the month')
            require_eq([m.getFirstJulianDay(), m.getDayCount()], [e[2], e[3]], 'days of the month')
            continue
        require_eq([m.getYear(), m.getMonth()], [e[0], e[1]], 'number of the month')
        require_eq(m.getFirstJulianDay(), e[2], 'first day of the month')
        require_eq(m.getDayCount(), e[3], 'days of the month')
        require_eq(m.getIndex(), e[4], 'position of the month in its year')
        require_eq(m.isLeap(), e[1] < 0, 'leap flag')
        require(e[3] == 29 or e[3] == 30, 'model')
        if i > 0:
            require_eq(m.getFirstJulianDay(), got[i - 1].getFirstJulianDay() + got[i - 1].getDayCount(), 'months follow each other without gap')
        if e[0] == year:
            inside.append(i)
            total = total + e[3]
            if e[1] < 0:
                leap = 0 - e[1]
    if year in ERAS:
        return
    require_eq(ly.getLeapMonth(), leap, 'leap month of the year')
    ms = ly.getMonthsInYear()
    require_eq([m.getMonth() for m in ms], [want[i][1] for i in inside], 'months of the year')
    require_eq([m.getYear() for m in ms], [year for i in inside], 'months of the year')
    require_eq(ly.getDayCount(), total, 'days of the year')
    for i in inside:
        m = ly.getMonth(want[i][1])
        require_eq([m.getYear(), m.getMonth(), m.getFirstJulianDay()], [year, want[i][1], want[i][2]], 'lookup of the month')
    for k in range(0 - 12, 0):
        if 0 - k != leap:
            require(ly.getMonth(k) is None, 'no other leap month')
    jd = ly.getJieQiJulianDays()
    require_eq(len(jd), 31, 'thirty-one terms')
    for i in range(0, 31):
        require_eq(jd[i], sky.qi_exact(24 * (year - 2001) + i - 1) + J2000, 'moments of the terms')


def fitting_sky(year, around=1, also=()):
    """a sky in agreement with the listed leap months of the years around"""
    p = (year * 13) % 30
    for i in range(0, 30):
        sky = Sky((p + i) % 30)
        ok = True
        for y in list(range(year - around, year + around + 1)) + list(also):
            if ok and not sky.fits(y):
                ok = False
        if ok:
            sky.install()
            return sky
    infeasible()
