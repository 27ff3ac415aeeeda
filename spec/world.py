# -*- coding: utf-8 -*-
"""abstract environment of one lunar date.

The civil date is (Y, m, d) with Y a symbolic year, m a concrete month and d symbolic; the 31 solar
terms around it have symbolic days inside the window of their month and symbolic times of day; the
lunar month containing the date starts a symbolic number of days earlier.  The astronomy behind the
real values is not modelled: every value inside the windows is analysed.  Summaries of public
functions (each verified from the source by its own obligation): Solar.fromJulianDay,
Solar.getJulianDay, Lunar.fromSolar, LunarYear.fromYear."""
from lunar_python import Solar, Lunar, LunarYear, LunarMonth
from .cal import *

NAMES = ('DA_XUE', '冬至', '小寒', '大寒', '立春', '雨水', '惊蛰', '春分', '清明', '谷雨', '立夏', '小满', '芒种', '夏至', '小暑', '大暑', '立秋', '处暑', '白露', '秋分',
         '寒露', '霜降', '立冬', '小雪', '大雪', 'DONG_ZHI', 'XIAO_HAN', 'DA_HAN', 'LI_CHUN', 'YU_SHUI', 'JING_ZHE')
# names of the 24 terms of a civil year, from 小寒
YEAR_TERMS = ('小寒', '大寒', '立春', '雨水', '惊蛰', '春分', '清明', '谷雨', '立夏', '小满', '芒种', '夏至', '小暑', '大暑', '立秋', '处暑', '白露', '秋分', '寒露', '霜降',
              '立冬', '小雪', '大雪', '冬至')
GAN = '甲乙丙丁戊己庚辛壬癸'
ZHI = '子丑寅卯辰巳午未申酉戌亥'
JIAZI = [GAN[i % 10] + ZHI[i % 12] for i in range(0, 60)]

LO, HI = 1584, 7275

# times of day of terms at a representative moment
AT = ((9, 30, 45), (23, 10, 0), (9, 30, 45), (0, 0, 0), (9, 30, 45), (23, 59, 59))
# times of day of a date: ordinary ones and both sides of every boundary that matters
CLOCK = ((10, 20, 30), (23, 10, 5), (0, 0, 0), (22, 59, 59), (23, 59, 59), (15, 0, 0), (23, 0, 0), (0, 59, 59), (1, 0, 0), (12, 30, 0))


def clock(k):
    """hour, minute and second of a World"""
    h, mi, s = CLOCK[k % 10]
    return {'hour': h, 'minute': mi, 'second': s}


class ModelYear:
    """stands for the lunar year table of one year inside a World"""

    def __init__(self, w, year):
        self.w = w
        self.year = year

    def getYear(self):
        return self.year

    def getMonth(self, lunar_month):
        return self.w.month(self.year, lunar_month)

    def getLeapMonth(self):
        return self.w.leap_month(self.year)

    def getJieQiJulianDays(self):
        k = self.year - self.w.y
        k = concrete(k)
        return [self.w.term(24 * k + i - 2).jd for i in range(0, 31)]

    def getGanIndex(self):
        return (self.year - 4) % 10

    def getZhiIndex(self):
        return (self.year - 4) % 12

    def __getattr__(self, name):
        undetermined('the lunar year model has no ' + name)


class Term:
    pass


class World:
    def __init__(self, m, pillar=None, ypillar=None, hour=None, free=1, week=None, lo=LO, hi=HI, days=(1, 31), minute=None, second=None, yclass=None, shift=0, simple=False, at=None):
        """at: time of day of the terms at a representative moment (None: one of six, by day pillar and month); yclass: Y mod 1200 (decides the year pillar and the leap rule); days: range of the day of the month; free: terms up to that many months away from the date have symbolic days and times (those further away sit at a
        representative moment, moved by shift days); week: weekday of the date (None: a consequence of nothing, fixed at 3); pillar: day pillar number of the date (None: symbolic); ypillar: (Y-4) mod 60 (None: symbolic)"""
        if yclass is not None:
            q = sym('year/1200', (lo + 1199 - yclass) // 1200, (hi - yclass) // 1200, False)
            self.y = q * 1200 + yclass
            note('year', self.y)
        elif ypillar is None:
            self.y = sym('year', lo, hi)
        else:
            q = sym('year/60', (lo + 59 - 4) // 60, (hi - 4) // 60 - 1, False)
            self.y = q * 60 + 4 + ypillar
            note('year', self.y)
        self.m = m
        note('month', m)
        self.d = sym('day', days[0], min(days[1], last(2000, m)))
        if m == 2 and days[1] > 28:
            assume(exists(self.y, m, self.d))
        self.h = sym('hour', 0, 23) if hour is None else hour
        if hour is not None:
            note('hour', hour)
        self.mi = sym('minute', 0, 59) if minute is None else minute
        self.s = sym('second', 0, 59) if second is None else second
        if pillar is None:
            pillar = choice('day pillar', list(range(0, 60)))
        else:
            note('day pillar', pillar)
        self.pillar = pillar
        self.week = 3 if week is None else week
        # Julian day number of the date at noon: pillar fixes it modulo 60, the weekday modulo 7
        r = pillar + 11
        while (r + 1) % 7 != self.week:
            r = r + 60
        self.jdn = sym('jdn/420', 5400, 10700, False) * 420 + r
        self.free = free
        self.shift = shift
        self.at = AT[(pillar + pillar // 10 + m) % 6] if at is None else at
        self.simple = simple
        self.terms = {}
        self.days = {}
        self.own = None
        self.nested = None
        self.leap = None
        self.twin = None

    # -------------------------------------------------------------- calendar relative to the date
    def offset(self, y, m, d):
        """days from the world's date to (y, m, d)"""
        k = concrete(y - self.y)
        m = concrete(m)
        if k == 0 and m == self.m:
            return d - self.d
        n = doy(y, m, d) - doy(self.y, self.m, self.d)
        while k > 0:
            k = k - 1
            n = n + year_len(self.y + k)
        while k < 0:
            n = n - year_len(self.y + k)
            k = k + 1
        return n

    def term(self, t):
        """t-th term counted from 小寒 of year Y"""
        if t in self.terms:
            return self.terms[t]
        k = t // 24
        i = t % 24
        r = Term()
        r.y = self.y + k
        r.m = i // 2 + 1
        r.name = YEAR_TERMS[i]
        r.t = t
        r.jd = fresh('jd of term %d' % t, 1000000, 6000000)
        self.terms[t] = r
        far = t // 2 + 1 - self.m
        if far > self.free or far < 0 - self.free:
            r.d = 5 + (i % 2) * 15 + self.shift
            r.h, r.mi, r.s = self.at
            self.days[key_of(r.jd)] = (r.y, r.m, r.d, r.h, r.mi, r.s)
            return r
        if i % 2 == 0:
            r.d = sym(YEAR_TERMS[i] + ' (year%+d) day' % k, 1, 9)
        else:
            r.d = sym(YEAR_TERMS[i] + ' (year%+d) day' % k, 13, 24)
        r.h = sym(YEAR_TERMS[i] + ' (year%+d) hour' % k, 0, 23)
        r.mi = sym(YEAR_TERMS[i] + ' (year%+d) minute' % k, 0, 59)
        r.s = sym(YEAR_TERMS[i] + ' (year%+d) second' % k, 0, 59)
        self.days[key_of(r.jd)] = (r.y, r.m, r.d, r.h, r.mi, r.s)
        return r

    def move(self, t, d, h=9, mi=30, s=45):
        """put term t at a given day and time of its month"""
        r = self.term(t)
        r.d, r.h, r.mi, r.s = d, h, mi, s
        self.days[key_of(r.jd)] = (r.y, r.m, r.d, r.h, r.mi, r.s)

    def month(self, ly, lm):
        """the registered lunar month"""
        for e in (self.nested, self.own):
            if e is not None and key_of(e[3]) == key_of(ly) and key_of(e[4]) == key_of(lm):
                return LunarMonth(ly, lm, e[0], e[1], e[2])
        # the twin of a registered month: the ordinary one before a leap month, or the leap one after an ordinary month
        for e in (self.nested, self.own):
            if e is not None and key_of(e[3]) == key_of(ly) and key_of(0 - e[4]) == key_of(lm):
                if self.twin is None:
                    count = fresh('days of the twin month', 29, 30)
                    if self.leap_of(e) != abs(lm):
                        self.twin = (e, None)
                    elif e[4] < 0:
                        self.twin = (e, LunarMonth(ly, lm, count, e[1] - count, e[2]))
                    else:
                        self.twin = (e, LunarMonth(ly, lm, count, e[1] + e[0], e[2] + 1))
                if self.twin[0] is e:
                    return self.twin[1]
        undetermined('lunar month outside the model')

    def leap_of(self, e):
        """leap month of the year of a registered month: itself, or any"""
        if e[4] < 0:
            return 0 - e[4]
        if self.leap is None:
            self.leap = fresh('leap month', 0, 12)
        return self.leap

    def leap_month(self, ly):
        for e in (self.nested, self.own):
            if e is not None and key_of(e[3]) == key_of(ly):
                return self.leap_of(e)
        undetermined('leap month outside the model')

    # -------------------------------------------------------------- summaries
    def install(self):
        w = self

        def fromYear(lunar_year):
            return ModelYear(w, lunar_year)

        def fromJulianDay(julian_day):
            e = w.days.get(key_of(julian_day))
            if e is None:
                undetermined('Julian day outside the model')
            return Solar.fromYmdHms(e[0], e[1], e[2], e[3], e[4], e[5])

        def getJulianDay(self):
            n = w.offset(self.getYear(), self.getMonth(), self.getDay())
            return w.jdn + n + ((self.getSecond() / 60.0 + self.getMinute()) / 60 + self.getHour()) / 24 - 0.5

        def fromSolar(solar):
            return w.lunar_of(solar)

        patch(LunarYear, 'fromYear', fromYear)
        patch(Solar, 'fromJulianDay', fromJulianDay)
        patch(Solar, 'getJulianDay', getJulianDay)
        patch(Lunar, 'fromSolar', fromSolar)

    def lunar_of(self, solar):
        """some lunar date falling on the given civil day (its lunar month and day are unconstrained)"""
        ly = solar.getYear()
        if self.simple:
            return self.make(ly, 1, 1, 30, solar.getYear(), solar.getMonth(), solar.getDay(), solar.getHour(), solar.getMinute(), solar.getSecond())
        if concrete(solar.getMonth()) <= 2:
            ly = ly - fresh('new year later', 0, 1)
        return self.make(ly, fresh('nested lunar month', 1, 12), fresh('nested lunar day', 1, 30), 30,
                         solar.getYear(), solar.getMonth(), solar.getDay(), solar.getHour(), solar.getMinute(), solar.getSecond())

    def make(self, ly, lm, ld, count, y, m, d, h, mi, s):
        first = fresh('first jd', 1000000, 6000000)
        self.days[key_of(first + ld - 1)] = (y, m, d, 12, 0, 0)
        self.nested = (count, first, 1, ly, lm)
        r = Lunar.fromYmdHms(ly, lm, ld, h, mi, s)
        if self.own is None:
            self.own = self.nested
        self.nested = None
        return r

    def lunar(self, lm=None, ld=None):
        """the lunar date of the world's civil date"""
        m = self.m
        if lm == 'any':
            # only the lunar year matters
            n = sym('lunar month', 1, 12)
            ly = self.y
            if m <= 2:
                ly = ly - choice('lunar years behind', [0, 1])
        elif lm is None:
            # the lunar months that can contain a day of civil month m
            k = choice('lunar month rank', [0, 1, 2])
            n = m - 2 + k
            ly = self.y
            if n < 1:
                n = n + 12
                ly = ly - 1
            if choice('leap month', [False, True]):
                n = 0 - n
        else:
            n, ly = lm
            ly = self.y + ly
        if lm != 'any':
            note('lunar month', n)
        self.ly = ly
        self.lm = n
        # (a 29-day month only matters where the end of the month does)
        self.count = 30 if lm == 'any' else sym('days of lunar month', 29, 30)
        self.ld = sym('lunar day', 1, 30) if ld is None else ld
        assume(self.ld <= self.count)
        return self.make(ly, n, self.ld, self.count, self.y, self.m, self.d, self.h, self.mi, self.s)

    # -------------------------------------------------------------- oracles
    def reached(self, t, exact):
        """the date has reached term t (by day, or by moment)"""
        r = self.term(t)
        k = t // 24
        a = [self.y, self.m, self.d]
        b = [r.y, r.m, r.d]
        if k < 0:
            return True
        if k > 0:
            return False
        if self.m != r.m:
            return self.m > r.m
        if self.d != r.d:
            return self.d > r.d
        if not exact:
            return True
        if self.h != r.h:
            return self.h > r.h
        if self.mi != r.mi:
            return self.mi > r.mi
        return self.s >= r.s

    def same_day(self, t):
        r = self.term(t)
        if t // 24 != 0 or self.m != r.m:
            return False
        return self.d == r.d

    def year_number(self, exact):
        """the civil year whose 立春 most recently began the pillar year"""
        if self.reached(2, exact):
            return self.y
        return self.y - 1

    def month_number(self, exact):
        """number of 节 since the 立春 of year Y (negative before it): 小寒 = -1, previous 大雪 = -2"""
        t = 2 * (self.m - 1)
        if self.reached(t, exact):
            return self.m - 2
        return self.m - 3
