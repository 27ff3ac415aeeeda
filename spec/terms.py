# -*- coding: utf-8 -*-
"""previous, next and current solar terms; pentads, the nines of winter, the dog days"""
from lunar_python import Solar, Lunar, JieQi
from .cal import *
from .world import *

PENTADS = ('蚯蚓结', '麋角解', '水泉动', '雁北乡', '鹊始巢', '雉始雊', '鸡始乳', '征鸟厉疾', '水泽腹坚', '东风解冻', '蛰虫始振', '鱼陟负冰', '獭祭鱼', '候雁北', '草木萌动', '桃始华',
           '仓庚鸣', '鹰化为鸠', '玄鸟至', '雷乃发声', '始电', '桐始华', '田鼠化为鴽', '虹始见', '萍始生', '鸣鸠拂奇羽', '戴胜降于桑', '蝼蝈鸣', '蚯蚓出', '王瓜生', '苦菜秀', '靡草死',
           '麦秋至', '螳螂生', '鵙始鸣', '反舌无声', '鹿角解', '蜩始鸣', '半夏生', '温风至', '蟋蟀居壁', '鹰始挚', '腐草为萤', '土润溽暑', '大雨行时', '凉风至', '白露降', '寒蝉鸣',
           '鹰乃祭鸟', '天地始肃', '禾乃登', '鸿雁来', '玄鸟归', '群鸟养羞', '雷始收声', '蛰虫坯户', '水始涸', '鸿雁来宾', '雀入大水为蛤', '菊有黄花', '豺乃祭兽', '草木黄落',
           '蛰虫咸俯', '水始冰', '地始冻', '雉入大水为蜃', '虹藏不见', '天气上升地气下降', '闭塞而成冬', '鹖鴠不鸣', '虎始交', '荔挺出')
KINDS = ('Jie', 'Qi', 'JieQi')
TERM_HOURS = {'quick': [0, 15, 23], 'thorough': range(0, 24)}


def wanted(kind, t):
    return kind == 'JieQi' or (t % 2 == 0) == (kind == 'Jie')


def check_term(j, r, what):
    require(j is not None, what + ': exists')
    require_eq(j.getName(), r.name, what + ': name')
    require_eq(j.toString(), r.name, what + ': text')
    require_eq(j.isJie(), r.t % 2 == 0, what + ': jie flag')
    require_eq(j.isQi(), r.t % 2 == 1, what + ': qi flag')


# ------------------------------------------------------------------ C22
@obligation('C22', m=range(1, 13), kind=KINDS, forward=[False, True], whole=[False, True], hour=TERM_HOURS, anchor='Lunar.getPrevJieQi',
            rule='the previous term is the last one at or before the moment (day), the next one the first after it')
def near(m, kind, forward, whole, hour):
    w = World(m, pillar=(m * 5) % 60, ypillar=(m * 7 + hour) % 60, hour=hour)
    w.install()
    u = w.lunar('any')
    t = 2 * m + 1
    # the last wanted term reached, and the first not reached
    while not (wanted(kind, t) and w.reached(t, not whole)):
        t = t - 1
    if forward:
        t = t + 1
        while not wanted(kind, t):
            t = t + 1
    j = getattr(u, 'get' + ('Next' if forward else 'Prev') + kind)(whole)
    r = w.term(t)
    check_term(j, r, ('next ' if forward else 'previous ') + kind)
    s = j.getSolar()
    require_eq([s.getYear(), s.getMonth(), s.getDay(), s.getHour(), s.getMinute(), s.getSecond()], [r.y, r.m, r.d, r.h, r.mi, r.s], 'moment of the term')


@obligation('C22', m=range(1, 13), anchor='Lunar.getPrevJie', rule='whole_day defaults to False')
def default_mode(m):
    d = choice('day', [4, 5, 6, 19, 20, 21])
    h = choice('hour', [3, 12])
    w = World(m, pillar=7, ypillar=m * 4, hour=h, free=-1, days=(d, d))
    w.install()
    u = w.lunar('any')
    for kind in KINDS:
        for way in ('Next', 'Prev'):
            a = getattr(u, 'get' + way + kind)()
            b = getattr(u, 'get' + way + kind)(False)
            require_eq([a.getName(), a.getSolar().toYmdHms()], [b.getName(), b.getSolar().toYmdHms()], 'default mode of get' + way + kind)


@obligation('C22', m=range(1, 13), hour={'quick': [9], 'thorough': [0, 9, 23]}, anchor='Lunar.getCurrentJieQi', rule='current terms are exactly those on the civil day')
def current(m, hour):
    w = World(m, pillar=(m * 5) % 60, ypillar=(m * 7) % 60, hour=hour)
    w.install()
    u = w.lunar('any')
    hit = None
    for t in range(2 * m - 2, 2 * m):
        if w.same_day(t):
            hit = w.term(t)
    jie = hit.name if hit is not None and hit.t % 2 == 0 else ''
    qi = hit.name if hit is not None and hit.t % 2 == 1 else ''
    require_eq(u.getJie(), jie, 'getJie')
    require_eq(u.getQi(), qi, 'getQi')
    require_eq(u.getJieQi(), jie + qi, 'getJieQi')
    for kind, name in (('Jie', jie), ('Qi', qi), ('JieQi', jie + qi)):
        j = getattr(u, 'getCurrent' + kind)()
        if name == '':
            require(j is None, 'getCurrent' + kind + ' only on the day of the term')
        else:
            check_term(j, hit, 'getCurrent' + kind)
            require_eq(j.getSolar().toYmd(), u.getSolar().toYmd(), 'getCurrent' + kind + ' day')


@obligation('C22', m=range(1, 13), anchor='Lunar.getJieQiTable', rule='the term table lists the 31 terms around the year in order')
def table(m):
    w = World(m, pillar=(m * 5) % 60, ypillar=(m * 7) % 60, hour=10, free=0)
    w.install()
    u = w.lunar('any')
    require_eq(u.getJieQiList(), list(NAMES), 'names in order')
    tab = u.getJieQiTable()
    require_eq(len(tab), 31, 'size of the table')
    for i in range(0, 31):
        r = w.term(i - 2)
        s = tab[NAMES[i]]
        require_eq([s.getYear(), s.getMonth(), s.getDay(), s.getHour(), s.getMinute(), s.getSecond()], [r.y, r.m, r.d, r.h, r.mi, r.s], 'moment in the table')


@obligation('C22', n=range(0, 25), anchor='JieQi.setName', rule='flags follow the name, also after renaming')
def flags(n):
    k = choice('renamed to', list(range(0, 25)))
    names = list(YEAR_TERMS) + ['x']
    s = Solar.fromYmd(2024, 1, 1)
    j = JieQi(names[n], s)
    require_eq([j.isJie(), j.isQi()], [n < 24 and n % 2 == 0, n < 24 and n % 2 == 1], 'flags of the name')
    j.setName(names[k])
    require_eq([j.isJie(), j.isQi()], [k < 24 and k % 2 == 0, k < 24 and k % 2 == 1], 'flags after renaming')
    require_eq(j.getName(), names[k], 'name')
    require(is_same(j.getSolar(), s), 'date')


# ------------------------------------------------------------------ C23
YCLASS = {'quick': [831, 832], 'thorough': [830, 831, 832, 833, 900]}
SHIFTS = {'quick': [-2, 0, 1, 3], 'thorough': range(-4, 5)}


def day_world(m, yclass, shift, **kw):
    d = choice('day', list(range(1, 32)))
    assume(exists(yclass + 2400, m, d))
    w = World(m, hour=(d * 5 + m) % 24, yclass=yclass, free=-1, days=(d, d), shift=shift, simple=True, **kw)
    w.install()
    return w


@obligation('C23', m=range(1, 13), yclass=YCLASS, shift=SHIFTS, anchor='Lunar.getShuJiu', rule='nine periods of nine days from the winter solstice')
def nines(m, yclass, shift):
    w = day_world(m, yclass, shift, pillar=(m * 7 + shift) % 60)
    u = w.lunar('any')
    t = 23 if w.reached(23, False) else -1
    r = w.term(t)
    n = concrete(0 - w.offset(r.y, r.m, r.d))
    s = u.getShuJiu()
    if n < 0 or n > 80:
        require(s is None, 'no nines outside the 81 days')
    else:
        require(s is not None, '81 days of nines')
        name = '一二三四五六七八九'[n // 9] + '九'
        require_eq(s.getName(), name, 'number of the nine')
        require_eq(s.getIndex(), n % 9 + 1, 'day of the nine')
        require_eq(s.toString(), name, 'text')
        require_eq(s.toFullString(), name + '第' + str(n % 9 + 1) + '天', 'full text')


@obligation('C23', m=range(1, 13), yclass=YCLASS, shift=SHIFTS, anchor='Lunar.getWuHou', rule='three pentads per term counted from the day of the term')
def pentads(m, yclass, shift):
    w = day_world(m, yclass, shift, pillar=(m * 7 + shift) % 60)
    u = w.lunar('any')
    t = 2 * m - 1
    while not w.reached(t, False):
        t = t - 1
    r = w.term(t)
    n = concrete(0 - w.offset(r.y, r.m, r.d)) // 5
    if n > 2:
        n = 2
    k = (t + 1) % 24
    require_eq(u.getWuHou(), PENTADS[(k * 3 + n) % 72], 'pentad name')
    require_eq(u.getHou(), r.name + ' ' + ('初候', '二候', '三候')[n], 'pentad of the term')


DOG = {'quick': [(21, 7), (20, 5), (22, 9)], 'thorough': [(a, b) for a in range(19, 24) for b in range(5, 10)]}


@obligation('C23', m=range(1, 13), q=range(0, 10), at=DOG, anchor='Lunar.getFu', rule='dog days from the third 庚 day on or after the summer solstice; the last ten from the first 庚 day on or after 立秋')
def dog_days(m, q, at):
    d = choice('day', [1, 15, 29] if m < 6 or m > 9 else list(range(1, 32)))
    yclass = 831 + q % 2
    assume(exists(yclass + 2400, m, d))
    w = World(m, hour=(d * 5 + q) % 24, yclass=yclass, pillar=(q * 7 + m) % 10 + 10 * (m % 6), free=-1, days=(d, d), simple=True)
    w.install()
    h = (9, 23)[(q + at[0]) % 2]
    w.move(11, at[0], h)
    w.move(14, at[1], h)
    u = w.lunar('any')
    a, b = w.term(11), w.term(14)
    n = concrete(0 - w.offset(a.y, a.m, a.d))
    e = concrete(w.offset(b.y, b.m, b.d) - w.offset(a.y, a.m, a.d))
    first = (6 - (w.pillar - n)) % 10 + 20
    last_start = first + 20
    while last_start < e:
        last_start = last_start + 10
    f = u.getFu()
    if n < first or n >= last_start + 10:
        require(f is None, 'no dog days outside them')
    else:
        require(f is not None, 'dog days')
        if n < first + 10:
            want = ('初伏', n - first + 1)
        elif n < last_start:
            want = ('中伏', n - first - 9)
        else:
            want = ('末伏', n - last_start + 1)
        require_eq([f.getName(), f.getIndex()], list(want), 'dog day')
        require_eq(f.toString(), want[0], 'text')
        require_eq(f.toFullString(), want[0] + '第' + str(want[1]) + '天', 'full text')
