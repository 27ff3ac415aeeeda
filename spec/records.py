# -*- coding: utf-8 -*-
"""texts and entry points of the calendar units, and the small settable records"""
from lunar_python import Solar, Lunar, SolarMonth, SolarSeason, SolarHalfYear, SolarYear, SolarWeek, Holiday, Fu, ShuJiu, JieQi
from lunar_python.util import LunarUtil
from .cal import *
from .units import install_week

MONTHS = range(1, 13)


class Moment:
    """stands for a datetime"""

    def __init__(self, y, m, d, h=0, mi=0, s=0):
        self.year, self.month, self.day, self.hour, self.minute, self.second, self.microsecond = y, m, d, h, mi, s, 0


def texts(o, short, full, what):
    require_eq(o.toString(), short, what + ' toString')
    require_eq(str(o), short, 'str of ' + what)
    require_eq(o.toFullString(), full, what + ' toFullString')


@obligation('C40', m=MONTHS, anchor='SolarMonth.fromDate', rule='units of a date and their texts')
def unit_texts(m):
    y, d = any_date('', m)
    t = Moment(y, m, d, 1, 2, 3)
    ys = str(y)
    for o in (SolarMonth.fromDate(t), SolarMonth.fromYm(y, m), SolarMonth(y, m)):
        require_eq([o.getYear(), o.getMonth()], [y, m], 'month')
        texts(o, ys + '-' + str(m), ys + '年' + str(m) + '月', 'month')
    q = (m + 2) // 3
    for o in (SolarSeason.fromDate(t), SolarSeason.fromYm(y, m), SolarSeason(y, m)):
        require_eq([o.getYear(), o.getMonth(), o.getIndex()], [y, m, q], 'season')
        texts(o, ys + '.' + str(q), ys + '年' + str(q) + '季度', 'season')
    h = (m + 5) // 6
    for o in (SolarHalfYear.fromDate(t), SolarHalfYear.fromYm(y, m), SolarHalfYear(y, m)):
        require_eq([o.getYear(), o.getMonth(), o.getIndex()], [y, m, h], 'half-year')
        texts(o, ys + '.' + str(h), ys + '年' + '上下'[h - 1] + '半年', 'half-year')
    for o in (SolarYear.fromDate(t), SolarYear.fromYear(y), SolarYear(y)):
        require_eq(o.getYear(), y, 'year')
        texts(o, ys, ys + '年', 'year')


@obligation('C40', m=MONTHS, w=range(0, 7), start={'quick': [0, 1], 'thorough': range(0, 7)}, anchor='SolarWeek.fromDate', rule='week of a date and its texts')
def week_texts(m, w, start):
    y, d = any_date('', m, 3, 9997)
    install_week(y, m, 1, w)
    i = (pos(y, m, d) + (w - start) % 7 + 6) // 7
    for o in (SolarWeek.fromDate(Moment(y, m, d), start), SolarWeek.fromYmd(y, m, d, start), SolarWeek(y, m, d, start)):
        require_eq([o.getYear(), o.getMonth(), o.getDay(), o.getStart()], [y, m, d, start], 'week')
        texts(o, str(y) + '.' + str(m) + '.' + str(i), str(y) + '年' + str(m) + '月第' + str(i) + '周', 'week')


@obligation('C40', m=MONTHS, anchor='Solar.fromDate', rule='date and time of a datetime')
def from_date(m):
    y, d = any_date('', m)
    h = sym('hour', 0, 23)
    mi = sym('minute', 0, 59)
    s = sym('second', 0, 59)
    for o in (Solar.fromDate(Moment(y, m, d, h, mi, s)), Solar.fromYmdHms(y, m, d, h, mi, s), Solar(y, m, d, h, mi, s)):
        require_eq([o.getYear(), o.getMonth(), o.getDay(), o.getHour(), o.getMinute(), o.getSecond()], [y, m, d, h, mi, s], 'components')
    for o in (Solar.fromYmd(y, m, d), Solar(y, m, d, 0, 0, 0)):
        require_eq([o.getYear(), o.getMonth(), o.getDay(), o.getHour(), o.getMinute(), o.getSecond()], [y, m, d, 0, 0, 0], 'midnight')


@obligation('C40', kind=['Fu', 'ShuJiu'], anchor='Fu.setName', rule='what is set is read back')
def day_records(kind):
    i = sym('index', 1, 20)
    j = sym('other index', 1, 20)
    o = (Fu if kind == 'Fu' else ShuJiu)('甲', i)
    texts(o, '甲', '甲第' + str(i) + '天', kind)
    o.setName('乙')
    require_eq([o.getName(), o.getIndex()], ['乙', i], kind + ' after setName')
    o.setIndex(j)
    require_eq([o.getName(), o.getIndex()], ['乙', j], kind + ' after setIndex')
    texts(o, '乙', '乙第' + str(j) + '天', kind + ' after the changes')


@obligation('C40', m=MONTHS, work=[True, False], dashes=[True, False], anchor='Holiday.setDay', rule='what is set is read back, dates in their normal form')
def holiday_records(m, work, dashes):
    y, d = any_date('', m, 1000)
    y2, d2 = any_date('target ', 13 - m, 1000)
    m2 = 13 - m
    full = '%04d-%02d-%02d' % (y, m, d)
    full2 = '%04d-%02d-%02d' % (y2, m2, d2)
    a = full if dashes else '%04d%02d%02d' % (y, m, d)
    b = full2 if dashes else '%04d%02d%02d' % (y2, m2, d2)
    o = Holiday(a, '甲', work, b)
    require_eq([o.getDay(), o.getName(), o.isWork(), o.getTarget()], [full, '甲', work, full2], 'holiday')
    text = full + ' 甲' + ('调休' if work else '') + ' ' + full2
    require_eq([o.toString(), str(o)], [text, text], 'text of the holiday')
    o.setDay(b)
    o.setTarget(a)
    o.setName('乙')
    o.setWork(not work)
    require_eq([o.getDay(), o.getName(), o.isWork(), o.getTarget()], [full2, '乙', not work, full], 'holiday after the changes')
    text = full2 + ' 乙' + ('' if work else '调休') + ' ' + full
    require_eq([o.toString(), str(o)], [text, text], 'text of the holiday after the changes')


TERMS = ('冬至', '小寒', '大寒', '立春', '雨水', '惊蛰', '春分', '清明', '谷雨', '立夏', '小满', '芒种', '夏至', '小暑', '大暑', '立秋', '处暑', '白露', '秋分', '寒露', '霜降', '立冬', '小雪', '大雪')


@obligation('C40', i=range(0, 24), anchor='JieQi.setName', rule='a term is a 节 or a 气 by its name')
def term_records(i):
    a, b = Solar.fromYmd(2020, 1, 6), Solar.fromYmd(2021, 2, 3)
    o = JieQi(TERMS[i], a)

    def same(k, s, what):
        require_eq([o.getName(), o.toString(), str(o)], [TERMS[k], TERMS[k], TERMS[k]], 'name of the term ' + what)
        require_eq([o.isJie(), o.isQi()], [k % 2 == 1, k % 2 == 0], '节 or 气 ' + what)
        require(o.getSolar() is s, 'date of the term ' + what)
    same(i, a, '')
    for k in range(0, 24):
        o.setName(TERMS[k])
        same(k, a, 'after setName')
    o.setSolar(b)
    same(23, b, 'after setSolar')
    o.setName('无')
    require_eq([o.isJie(), o.isQi()], [False, False], 'no term')


@obligation('C40', h=range(0, 24), anchor='LunarUtil.convertTime', rule='double-hour of a clock text')
def clock_text(h):
    mi = sym('minute', 0, 59)
    z = (h + 1) // 2 % 12
    t = '%02d:%02d' % (h, mi)
    require_eq(LunarUtil.getTimeZhiIndex(t), z, 'branch number of hh:mm')
    require_eq(LunarUtil.convertTime(t), '子丑寅卯辰巳午未申酉戌亥'[z], 'branch of hh:mm')
    s = sym('second', 0, 59)
    t = '%02d:%02d:%02d' % (h, mi, s)
    require_eq(LunarUtil.getTimeZhiIndex(t), z, 'branch number of hh:mm:ss')
    require_eq(LunarUtil.getTimeZhiIndex(None), 0, 'no text')
    require_eq(LunarUtil.convertTime(None), '子', 'no text')
    for t in ('%02d:60' % h, '%02d:99' % h, '%02d:6' % h, '%02d-30' % h, '%02d30' % h, '%d:3' % (h % 10), '%d:30' % (h % 10), '%02d:a0' % h, '%da:30' % (h % 10), '%02d:30' % (h + 24), '%02d:30' % (h + 76), '', ':'):
        require_eq(LunarUtil.getTimeZhiIndex(t), 0, 'illegal clock text ' + t)
        require_eq(LunarUtil.convertTime(t), '子', 'illegal clock text ' + t)


@obligation('C40', i=range(0, 60), anchor='LunarUtil.getJiaZiIndex', rule='numbers of the sixty pairs')
def pair_numbers(i):
    g, z = '甲乙丙丁戊己庚辛壬癸'[i % 10], '子丑寅卯辰巳午未申酉戌亥'[i % 12]
    require_eq(LunarUtil.getJiaZiIndex(g + z), i, 'number of the pair')
    require_eq(LunarUtil.getXunIndex(g + z), i // 10, 'decade of the pair')
    require_eq(LunarUtil.getXun(g + z), ('甲子', '甲戌', '甲申', '甲午', '甲辰', '甲寅')[i // 10], 'decade of the pair')
    require_eq(LunarUtil.getXunKong(g + z), ('戌亥', '申酉', '午未', '辰巳', '寅卯', '子丑')[i // 10], 'void branches of the pair')
    for k in range(0, 12):
        if (i - k) % 2 == 1:
            require_eq(LunarUtil.getJiaZiIndex(g + '子丑寅卯辰巳午未申酉戌亥'[k]), 0 - 1, 'not a pair')
    require_eq(LunarUtil.getJiaZiIndex(''), 0 - 1, 'not a pair')
