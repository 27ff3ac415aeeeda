# -*- coding: utf-8 -*-
"""pillars and neighbouring terms in the years outside 1584..7275 (terms drift through the civil months) and around 1582, over the model sky"""
from lunar_python import Solar, Lunar
from .cal import *
from .astro import fitting_sky, J2000, TERM, floor_
from .convert import jan1, day_number
from .world import JIAZI

NAMES24 = ('冬至', '小寒', '大寒', '立春', '雨水', '惊蛰', '春分', '清明', '谷雨', '立夏', '小满', '芒种', '夏至', '小暑', '大暑', '立秋', '处暑', '白露', '秋分', '寒露', '霜降', '立冬',
           '小雪', '大雪')
YEARS = {'quick': [2, 480, 1203, 1502, 1581, 1582, 1583, 2000, 7277, 9100, 9997], 'thorough': list(range(2, 1584, 61)) + [1499, 1500, 1501, 1580, 1581, 1582, 1583, 1584] + list(range(1585, 9998, 307))}
HOUR = 12


def passed(sky, n, exact):
    """number of the last term at or before the day (or its noon)"""
    k = concrete(floor_((n - J2000 - 355.3) / TERM)) - 1
    if exact:
        while sky.qi_exact(k + 1) + J2000 <= n:
            k = k + 1
        return k
    while sky.qi(k + 1) + J2000 <= n:
        k = k + 1
    return k


@obligation(['C14', 'C13', 'C22'], year=YEARS, m=range(1, 13), anchor='Lunar.getMonthInGanZhi', rule='pillars and terms where the terms drift through the civil months')
def drift(year, m):
    sky = fitting_sky(year)
    d = sym('day', 1, last(year, m))
    assume(exists(year, m, d))
    n = jan1(year) + doy(year, m, d) - 1
    u = Solar.fromYmdHms(year, m, d, HOUR, 0, 0).getLunar()
    day = passed(sky, n, False)
    now = passed(sky, n, True)
    # pillar years begin at terms number 3 modulo 24
    y_day = 2001 + (day - 3) // 24
    y_now = 2001 + (now - 3) // 24
    require_eq(u.getYearInGanZhi(), JIAZI[concrete((u.getYear() - 4) % 60)], 'year by lunar new year')
    require_eq(u.getYearInGanZhiByLiChun(), JIAZI[(y_day - 4) % 60], 'year by the day of 立春')
    require_eq(u.getYearInGanZhiExact(), JIAZI[(y_now - 4) % 60], 'year by the moment of 立春')
    # months begin at odd terms; 寅 at 3; 甲子 month: 大雪 (23) of the year before a 甲 year
    require_eq(u.getMonthInGanZhi(), JIAZI[((day - 3) // 2 + 12 * (2001 - 2004) + 2) % 60], 'month by the day of the term')
    require_eq(u.getMonthInGanZhiExact(), JIAZI[((now - 3) // 2 + 12 * (2001 - 2004) + 2) % 60], 'month by the moment of the term')
    require_eq(u.getDayInGanZhi(), JIAZI[concrete((n - 11) % 60)], 'day pillar')
    for exact, k in ((False, now), (True, day)):
        jie = k if k % 2 == 1 else k - 1
        qi = k if k % 2 == 0 else k - 1
        near(u.getPrevJie(exact), sky, jie, 'previous 节')
        near(u.getPrevQi(exact), sky, qi, 'previous 气')
        near(u.getPrevJieQi(exact), sky, k, 'previous term')
        near(u.getNextJie(exact), sky, jie + 2, 'next 节')
        near(u.getNextQi(exact), sky, qi + 2, 'next 气')
        near(u.getNextJieQi(exact), sky, k + 1, 'next term')
    today = concrete(sky.qi(day) + J2000 == n)
    require_eq(u.getJieQi(), NAMES24[day % 24] if today else '', 'term of the day')
    require_eq(u.getJie(), NAMES24[day % 24] if today and day % 2 == 1 else '', '节 of the day')
    require_eq(u.getQi(), NAMES24[day % 24] if today and day % 2 == 0 else '', '气 of the day')


def near(t, sky, k, what):
    require(t is not None, what + ' exists')
    require_eq(t.getName(), NAMES24[k % 24], what)
    require_eq(day_number(t.getSolar()), sky.qi(k) + J2000, what + ' day')
