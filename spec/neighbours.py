# -*- coding: utf-8 -*-
"""answers about arguments that differ in one component only: nothing remembered for one may serve another"""
from lunar_python import Solar, Lunar, LunarTime, LunarYear, LunarMonth, Foto, Tao, EightChar, Holiday, JieQi, SolarWeek, SolarMonth, SolarYear, SolarSeason, SolarHalfYear, NineStar
from lunar_python.util import LunarUtil, SolarUtil, HolidayUtil, FotoUtil, TaoUtil, ShouXingUtil
from .cal import *
from .world import JIAZI
from .shared import show, getters, answers
from .astro import fitting_sky

YEARS = (2017, 2018, 2019, 2020, 2021, 2022, 2023, 2024, 2029, 2030, 2031, 2079, 2080, 2081)
MOMENTS = [(2020, 5, 23, 10, 30, 0), (2020, 5, 23, 10, 30, 1), (2020, 5, 23, 10, 31, 0), (2020, 5, 23, 11, 30, 0), (2020, 5, 23, 0, 30, 0), (2020, 5, 23, 1, 30, 0), (2020, 5, 23, 22, 59, 59),
           (2020, 5, 23, 23, 30, 0), (2020, 5, 24, 0, 30, 0), (2020, 5, 24, 10, 30, 0), (2020, 5, 13, 10, 30, 0), (2020, 6, 23, 10, 30, 0), (2020, 7, 22, 10, 30, 0), (2020, 11, 3, 10, 30, 0), (2020, 1, 13, 10, 30, 0),
           (2021, 5, 23, 10, 30, 0), (2021, 5, 18, 10, 30, 0), (2030, 5, 23, 10, 30, 0), (2080, 5, 23, 10, 30, 0), (2020, 1, 20, 23, 59, 59), (2020, 2, 1, 0, 0, 0), (2020, 12, 25, 12, 0, 0), (2021, 1, 2, 12, 0, 0)]
LATER = (0, 1, 7, 8, 19, 20, 4)


def around_terms():
    """moments a second before, at and after terms"""
    out = []
    t = Lunar.fromSolar(Solar.fromYmdHms(2020, 1, 20, 0, 0, 0)).getJieQiTable()
    for n in ('立春', '冬至', '夏至', '惊蛰'):
        s = t[n]
        for k in (-1, 0, 1):
            p = s.getHour() * 3600 + s.getMinute() * 60 + s.getSecond() + k
            if 0 <= p < 86400:
                out.append((s.getYear(), s.getMonth(), s.getDay(), p // 3600, p // 60 % 60, p % 60))
    return out


def lunar_pairs():
    """days of a leap month and of its namesake, and of the same month in other years"""
    out = []
    for y in (2018, 2019, 2020, 2021, 2022, 2023):
        k = LunarYear.fromYear(y).getLeapMonth()
        if k > 0:
            for m in (k, 0 - k):
                out.append((y, m, 3, 23, 10, 0))
                out.append((y, m, 15, 4, 0, 0))
    for y in (2019, 2020, 2080):
        out.append((y, 1, 1, 0, 0, 0))
        out.append((y, 1, 11, 0, 0, 0))
        out.append((y, 11, 1, 0, 0, 0))
        out.append((y, 12, 29, 0, 0, 0))
    return out


def lunar(a):
    return Lunar.fromSolar(Solar.fromYmdHms(a[0], a[1], a[2], a[3], a[4], a[5]))


def all_of(o):
    return answers(o, getters(o))


def of_lunar(a):
    return all_of(lunar(a))


def of_lunar_ymd(a):
    return all_of(Lunar.fromYmdHms(a[0], a[1], a[2], a[3], a[4], a[5]))


def of_parts(a):
    u = lunar(a)
    return [all_of(u.getTime()), all_of(u.getFoto()), all_of(u.getTao()), all_of(u.getSolar())]


def of_lunar_parts(a):
    u = Lunar.fromYmdHms(a[0], a[1], a[2], a[3], a[4], a[5])
    return [all_of(u.getTime()), all_of(Foto.fromLunar(u)), all_of(Tao.fromLunar(u)), all_of(LunarTime.fromYmdHms(a[0], a[1], a[2], a[3], a[4], a[5]))]


def of_eight(a):
    e = lunar(a).getEightChar()
    if a[6] == 1:
        e.setSect(1)
    return all_of(e)


def of_yun(a):
    e = lunar(a).getEightChar()
    if a[6] == 1:
        e.setSect(1)
    y = e.getYun(a[7], a[8])
    out = [y.isForward(), y.getStartYear(), y.getStartMonth(), y.getStartDay(), y.getStartHour(), y.getStartSolar().toYmdHms()]
    for d in y.getDaYun(3)[:3]:
        out.append([d.getIndex(), d.getStartYear(), d.getEndYear(), d.getStartAge(), d.getEndAge(), d.getGanZhi(), d.getXun(), d.getXunKong()])
        for n in d.getLiuNian(2)[:2]:
            out.append([n.getIndex(), n.getYear(), n.getAge(), n.getGanZhi(), n.getXun(), n.getXunKong()])
            x = n.getLiuYue()[4]
            out.append([x.getIndex(), x.getMonthInChinese(), x.getGanZhi(), x.getXun(), x.getXunKong()])
        for n in d.getXiaoYun(2)[:2]:
            out.append([n.getIndex(), n.getYear(), n.getAge(), n.getGanZhi(), n.getXun(), n.getXunKong()])
    return out


def of_sects(a):
    u = lunar(a)
    return [show(u.getDayNineStar()), show(u.getTimeNineStar())] + [[show(u.getYearNineStar(k)), show(u.getMonthNineStar(k))] for k in (1, 2, 3)] + [u.getDayYi(1), u.getDayYi(2), u.getDayJi(1), u.getDayJi(2)] + \
        [[u.getDayPositionFu(k), u.getDayPositionFuDesc(k), u.getYearPositionTaiSui(k), u.getMonthPositionTaiSui(k), u.getDayPositionTaiSui(k)] for k in (1, 2)] + \
        [[show(u.getNextJie(k)), show(u.getPrevJie(k)), show(u.getNextQi(k)), show(u.getPrevQi(k)), show(u.getNextJieQi(k)), show(u.getPrevJieQi(k))] for k in (True, False)] + [show(u.next(k)) for k in (-1, 1, 11)]


def of_year(a):
    o = LunarYear.fromYear(a)
    return [o.getYear(), o.getGanZhi(), o.getLeapMonth(), o.getDayCount(), show(o.getMonths()), show(o.getMonthsInYear()), o.getJieQiJulianDays(), o.getTouLiang(), o.getCaoZi(), o.getGengTian(), o.getHuaShou(), o.getZhiShui(), o.getTuoGu(),
            o.getQiangMi(), o.getKanCan(), o.getGongZhu(), o.getJiaTian(), o.getFenBing(), o.getDeJin(), o.getRenBing(), o.getRenChu(), o.getYuan(), o.getYun(), show(o.getNineStar()), o.getPositionXi(), o.getPositionFu(1), o.getPositionFu(2),
            o.getPositionTaiSui(), show(o.next(1)), show(o.getMonth(4)), show(o.getMonth(11)), o.toString(), o.toFullString()]


def of_month(a):
    o = LunarMonth.fromYm(a[0], a[1])
    if o is None:
        return None
    return [show(o), o.isLeap(), o.getZhiIndex(), o.getGanIndex(), o.getGanZhi(), o.getPositionXi(), o.getPositionFu(1), o.getPositionFu(2), o.getPositionTaiSui(), show(o.getNineStar()), [show(o.next(k)) for k in (-12, -1, 1, 11, 12)], o.toString()]


def of_solar(a):
    o = Solar.fromYmdHms(a[0], a[1], a[2], a[3], a[4], a[5])
    names = [n for n in getters(o) if n != 'getLunar']
    return [answers(o, names), show(o.next(1)), show(o.nextMonth(1)), show(o.nextYear(1)), show(o.nextHour(25)), show(o.next(1, True)), show(o.next(-1, True)), show(Solar.fromJulianDay(o.getJulianDay()))]


def of_units(a):
    y, m, d, s = a
    w = SolarWeek.fromYmd(y, m, d, s)
    return [w.toString(), w.toFullString(), w.getIndex(), w.getIndexInYear(), show(w.getFirstDay()), show(w.getFirstDayInMonth()), show(w.getDays()), show(w.getDaysInMonth()), show(w.next(1, False)), show(w.next(1, True)), w.getStart(),
            show(SolarMonth.fromYm(y, m).getWeeks(s)), show(SolarMonth.fromYm(y, m).next(1)), SolarMonth.fromYm(y, m).toFullString(), SolarSeason.fromYm(y, m).getIndex(), show(SolarSeason.fromYm(y, m).getMonths()),
            SolarHalfYear.fromYm(y, m).getIndex(), show(SolarHalfYear.fromYm(y, m).getMonths()), SolarSeason.fromYm(y, m).toFullString(), SolarHalfYear.fromYm(y, m).toFullString(), SolarYear.fromYear(y).toFullString(), show(SolarYear.fromYear(y).getMonths()[:2]),
            SolarUtil.getDaysOfYear(y), SolarUtil.getDaysOfMonth(y, m), SolarUtil.isLeapYear(y), SolarUtil.getDaysInYear(y, m, d), SolarUtil.getWeeksOfMonth(y, m, s), SolarUtil.getDaysBetween(y, m, d, 2000, 2, 3), SolarUtil.getDaysBetween(2000, 2, 3, y, m, d)]


def of_holiday(a):
    k = a[0]
    if k == 0:
        return show(HolidayUtil.getHoliday(a[1]))
    if k == 1:
        return show(HolidayUtil.getHoliday(a[1], a[2], a[3]))
    if k == 2:
        return show(HolidayUtil.getHolidays(a[1]))
    if k == 3:
        return show(HolidayUtil.getHolidays(a[1], a[2]))
    if k == 4:
        return show(HolidayUtil.getHolidaysByTarget(a[1]))
    return show(HolidayUtil.getHolidaysByTarget(a[1], a[2], a[3]))


def of_util(a):
    k = a[0]
    if k == 'xun':
        return [LunarUtil.getXun(a[1]), LunarUtil.getXunKong(a[1]), LunarUtil.getXunIndex(a[1]), LunarUtil.getJiaZiIndex(a[1])]
    if k == 'time':
        return LunarUtil.getTimeZhiIndex(a[1])
    if k == 'act':
        return [LunarUtil.getDayYi(a[1], a[2]), LunarUtil.getDayJi(a[1], a[2]), LunarUtil.getTimeYi(a[1], a[2]), LunarUtil.getTimeJi(a[1], a[2])]
    if k == 'spirit':
        return [LunarUtil.getDayJiShen(a[1], a[2]), LunarUtil.getDayXiongSha(a[1], a[2])]
    if k == 'xiu':
        return [FotoUtil.getXiu(a[1], a[2])]
    if k == 'star':
        return all_of(NineStar.fromIndex(a[1]))
    if k == 'jieqi':
        o = JieQi(a[1], Solar.fromYmd(2020, 1, 1))
        return [o.getName(), o.isJie(), o.isQi()]
    o = Solar.fromYmdHms(a[1], a[2], a[3], a[4], a[5], a[6])
    return [o.subtract(Solar.fromYmdHms(2000, 1, 1, 0, 0, 0)), o.subtractMinute(Solar.fromYmdHms(2000, 1, 1, 0, 0, 0)), o.isBefore(Solar.fromYmd(2020, 5, 23)), o.isAfter(Solar.fromYmd(2020, 5, 23))]


def solar_cases():
    return [(y, m, d, h, i, s) for y in (20, 202, 2020, 2021) for m, d in ((1, 1), (1, 11), (11, 1), (11, 11), (1, 12), (2, 28), (12, 31)) for h, i, s in ((0, 0, 0), (1, 11, 1))] + \
        [(2020, 5, 3, 11, 1, 11), (2020, 5, 3, 1, 11, 11), (2020, 5, 3, 11, 11, 1), (2020, 5, 31, 1, 1, 11), (2020, 5, 3, 11, 1, 1), (1582, 10, 4, 0, 0, 0), (1582, 10, 15, 0, 0, 0), (1582, 10, 25, 0, 0, 0), (1583, 10, 15, 0, 0, 0), (1900, 2, 28, 0, 0, 0), (1500, 2, 28, 0, 0, 0)]


def unit_cases():
    return [(y, m, d, s) for y in (202, 2020, 2021, 2026) for m, d in ((1, 1), (1, 11), (11, 1), (11, 11), (1, 12), (2, 28), (12, 31)) for s in ((0, 1, 6) if (y, m) != (2020, 1) else (0, 1, 2, 3, 4, 5, 6))] + \
        [(1582, 10, 4, 0), (1582, 10, 4, 1), (1582, 10, 15, 0), (1582, 10, 15, 1), (1582, 9, 15, 1), (1583, 10, 15, 1)]


def holiday_cases():
    out = []
    for y in (2001, 2010, 2020, 2021):
        for m, d in ((1, 1), (1, 11), (10, 1), (10, 8), (5, 4), (12, 31), (1, 24), (1, 27), (2, 8)):
            out.append((0, '%04d-%02d-%02d' % (y, m, d)))
            out.append((1, y, m, d))
            out.append((5, y, m, d))
        for m in (1, 2, 5, 10, 11):
            out.append((2, '%04d-%02d' % (y, m)))
            out.append((3, y, m))
        out.append((2, '%04d' % y))
        out.append((2, y))
        for t in ('01-01', '10-01', '05-01', '10-06'):
            out.append((4, '%04d-%s' % (y, t)))
    return out + [(2, '20'), (2, '202'), (2, '2020-1'), (2, '2020-10'), (2, '2020-10-1'), (4, '2020-1'), (1, 2020, 1, 11), (1, 2020, 11, 1), (1, 202, 1, 1)]


def util_cases():
    p = JIAZI
    out = [('xun', x) for x in p]
    out = out + [('time', '%02d:%02d' % (h, m)) for h in range(0, 24) for m in (0, 59)]
    for a, b in ((0, 2), (2, 0), (0, 12), (0, 14), (12, 2), (10, 2), (0, 50), (1, 3), (3, 1), (13, 25), (25, 13), (59, 0), (0, 59)):
        out.append(('act', p[a], p[b]))
    for m in (1, 2, 11, 12, -1, -2, -11, -12):
        for x in (0, 1, 10, 12, 59):
            out.append(('spirit', m, p[x]))

    for m in (1, 2, 11, 12, -1, -11):
        for d in (1, 2, 11, 12, 29):
            out.append(('xiu', m, d))
    out = out + [('star', k) for k in range(0, 9)]
    out = out + [('jieqi', n) for n in ('冬至', 'DONG_ZHI', '小寒', 'XIAO_HAN', '立春', 'LI_CHUN', '雨水', 'YU_SHUI', '惊蛰', 'JING_ZHE', 'DA_XUE', '大雪', 'DA_HAN', '大寒')]
    for a in MOMENTS:
        out.append(('diff', a[0], a[1], a[2], a[3], a[4], a[5]))
    return out


def family(g):
    """function and arguments"""
    if g == 0:
        return of_lunar, MOMENTS[:12]
    if g == 1:
        return of_lunar, MOMENTS[12:] + MOMENTS[:1]
    if g == 2:
        return of_lunar, around_terms()
    if g == 3:
        return of_lunar_ymd, lunar_pairs()
    if g == 4:
        return of_parts, MOMENTS + around_terms()
    if g == 5:
        return of_lunar_parts, lunar_pairs()
    if g == 6:
        return of_eight, [(a[0], a[1], a[2], a[3], a[4], a[5], s) for a in MOMENTS + around_terms() for s in (1, 2)]
    if g == 7:
        return of_yun, [(MOMENTS[i][0], MOMENTS[i][1], MOMENTS[i][2], MOMENTS[i][3], MOMENTS[i][4], MOMENTS[i][5], s, x, q) for i, s, x, q in ((0, 2, 1, 1), (0, 2, 0, 1), (0, 2, 1, 2), (0, 1, 1, 1), (1, 2, 1, 2), (3, 2, 1, 1), (7, 2, 1, 1), (7, 1, 1, 1), (9, 2, 1, 1), (15, 2, 1, 1), (17, 2, 1, 1))]
    if g == 8:
        return of_sects, MOMENTS + around_terms()
    if g == 9:
        return of_year, [2018, 2019, 2020, 2021, 2022, 2023, 2030, 2080]
    if g == 10:
        return of_month, [(y, m) for y in (2018, 2019, 2020, 2022, 2023, 2030, 2080) for m in (1, 2, 4, 11, 12)] + [(a[0], a[1]) for a in lunar_pairs()]
    if g == 11:
        return of_solar, solar_cases()
    if g == 12:
        return of_units, unit_cases()
    if g == 13:
        return of_holiday, holiday_cases()
    return of_util, util_cases()


@obligation('C30', g=range(0, 15), anchor='Lunar', rule='an answer does not depend on what was asked before about arguments that differ in one component')
def neighbours(g):
    set_clock(2024)
    fitting_sky(2000, 1, YEARS)
    mark()
    f, cases = family(g)
    want = []
    for a in cases:
        rewind()
        want.append(f(a))
    n = len(cases)
    for order in (list(range(0, n)), list(range(n - 1, -1, -1))):
        rewind()
        for i in order:
            agree(f(cases[i]), want[i], cases[i])


FAR = {'thousand': (2020, 1020, 3020, 4020), 'century': (2020, 1920, 2120, 2220), 'cycle': (2020, 1620, 2420, 2080), 'hundredth': (2020, 202, 220, 2002), 'early': (2020, 20, 200, 9020)}


@obligation('C30', group=['thousand', 'century', 'cycle', 'hundredth', 'early'], anchor='Lunar', rule='an answer does not depend on what was asked before about far years that share digits, remainders or a place in a cycle')
def far_years(group):
    set_clock(2024)
    years = FAR[group]
    fitting_sky(years[0], 0, years[1:])
    mark()
    f = [of_year, of_far][choice('question', [0, 1])]
    want = []
    for y in years:
        rewind()
        want.append(f(y))
    for order in ((0, 1, 2, 3), (3, 2, 1, 0)):
        rewind()
        for i in order:
            agree(f(years[i]), want[i], years[i])


def of_far(y):
    out = []
    for a in ((y, 5, 23, 10, 30, 0), (y, 1, 20, 23, 59, 59)):
        u = lunar(a)
        out.append(all_of(u))
        out.append(of_eight(a + (2,)))
        out.append(of_yun(a + (2, 1, 2)))
    return out


def agree(a, b, case):
    if a != b:
        note('asked', case)
        require_eq(a, b, 'the answer when asked first')
    require(True)
