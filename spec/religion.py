# -*- coding: utf-8 -*-
"""Buddhist and Taoist calendars"""
from lunar_python import Solar, Lunar, Foto, Tao, LunarMonth
from lunar_python.util import LunarUtil, FotoUtil, TaoUtil
from .cal import *
from .world import *
from .lunarday import LUNAR_MONTHS, MONTH_TEXT, DIGITS, day_text, the_world
from .day import XIU_LUCK, XIU, XIU_ANIMAL
from .text_data import XIU_VERSE, FOTO_FESTIVAL, TAO_FESTIVAL, TAO_BA_JIE
from .astro import Sky

XIU_27 = '角亢氐房心尾箕斗女虚危室壁奎娄胃昴毕觜参井鬼柳星张翼轸'
FIRST_XIU = '室奎胃毕参鬼张角氐心斗虚'
YANG_GONG = ('1-13', '2-11', '3-9', '4-7', '5-5', '6-3', '7-1', '7-29', '8-27', '9-25', '10-23', '11-21', '12-19')
GUAN_YIN = ('1-8', '2-7', '2-9', '2-19', '3-3', '3-6', '3-13', '4-22', '5-3', '5-17', '6-16', '6-18', '6-19', '6-23', '7-13', '8-16', '9-19', '9-23', '10-2', '11-19', '11-24', '12-25')
FOTO_OTHER = {'1-1': '弥勒菩萨圣诞', '1-6': '定光佛圣诞', '2-8': '释迦牟尼佛出家', '2-15': '释迦牟尼佛涅槃', '2-19': '观世音菩萨圣诞', '2-21': '普贤菩萨圣诞', '3-16': '准提菩萨圣诞',
              '4-4': '文殊菩萨圣诞', '4-8': '释迦牟尼佛圣诞', '4-15': '佛吉祥日', '4-28': '药王菩萨圣诞', '5-13': '伽蓝菩萨圣诞', '6-3': '韦驮菩萨圣诞', '6-19': '观音菩萨成道',
              '7-13': '大势至菩萨圣诞', '7-15': '佛欢喜日', '7-24': '龙树菩萨圣诞', '7-30': '地藏菩萨圣诞', '8-15': '月光菩萨圣诞', '8-22': '燃灯佛圣诞', '9-9': '摩利支天菩萨圣诞',
              '9-19': '观世音菩萨出家', '9-30': '药师琉璃光佛圣诞', '10-5': '达摩祖师圣诞', '10-20': '文殊菩萨出家', '11-17': '阿弥陀佛圣诞', '11-19': '日光菩萨圣诞', '12-8': '释迦牟尼佛成道',
              '12-23': '监斋菩萨圣诞', '12-29': '华严菩萨圣诞'}
PATROL = (8, 14, 15, 23, 29, 30)
SAN_HUI = ('1-7', '7-7', '10-15')
SAN_YUAN = ('1-15', '7-15', '10-15')
WU_LA = ('1-1', '5-5', '7-7', '10-1', '12-8')
AN_WU = '未戌辰寅午子酉申巳亥卯丑'
BA_HUI = {'丙午': '天会', '壬午': '地会', '壬子': '人会', '庚午': '日会', '庚申': '月会', '辛酉': '星辰会', '甲辰': '五行会', '甲戌': '四时会'}
BA_JIE = {'立春': '东北', '春分': '东方', '立夏': '东南', '夏至': '南方', '立秋': '西南', '秋分': '西方', '立冬': '西北', '冬至': '北方'}
TIAN_SHE = ('戊寅', '甲午', '戊申', '甲子')


def spelled(n):
    s = ''
    for c in str(n):
        s = s + DIGITS[int(c)]
    return s


# ------------------------------------------------------------------ C28
@obligation('C28', lm=LUNAR_MONTHS, anchor='Foto.getFestivals', rule='Buddhist day attributes by lunar month and day')
def foto_days(lm):
    ld = choice('lunar day', list(range(1, 31)))
    w, at = the_world(lm, ld, free=-1, days=(11, 16), ypillar=30, lo=1984, hi=2050)
    u = w.lunar(at, ld)
    count = w.count
    f = Foto.fromLunar(u)
    k = abs(lm)
    require_eq([f.getMonth(), f.getDay()], [lm, ld], 'month and day')
    require_eq(f.getYear(), u.getYear() + 544, 'Buddhist year')
    require(f.getLunar() is u, 'lunar date behind it')
    require_eq([f.getMonthInChinese(), f.getDayInChinese()], [u.getMonthInChinese(), u.getDayInChinese()], 'texts')
    require_eq(f.isMonthZhai(), lm in (1, 5, 9), 'fasting months')
    require_eq(f.isDayZhaiShuoWang(), ld in (1, 15), 'fast on first and fifteenth')
    require_eq(f.isDayZhaiTen(), ld in (1, 8, 14, 15, 18, 23, 24, 28, 29, 30), 'ten fast days')
    key = '%d-%d' % (lm, ld)
    require_eq(f.isDayZhaiGuanYin(), key in GUAN_YIN, 'fasts of 观音')
    require_eq(f.isDayYangGong(), '%d-%d' % (k, ld) in YANG_GONG, '杨公忌')
    x = XIU_27[(XIU_27.index(FIRST_XIU[k - 1]) + ld - 1) % 27]
    require_eq(f.getXiu(), x, 'mansion of the day (27, 女 and 牛 merged)')
    i = XIU.index(x)
    require_eq([f.getZheng(), f.getXiuLuck()], ['木金土日月火水'[i % 7], XIU_LUCK[i]], 'luminary and luck of the mansion')
    require_eq(f.getGong(), '东北西南'[i // 7], 'palace of the mansion')
    require_eq(f.getShou(), ('青龙', '玄武', '白虎', '朱雀')[i // 7], 'beast of the mansion')
    require_eq([f.getAnimal(), f.getXiuSong()], [XIU_ANIMAL[i], XIU_VERSE[x]], 'animal and verse of the mansion')
    other = f.getOtherFestivals()
    require_eq(other, [FOTO_OTHER[key]] if key in FOTO_OTHER else [], 'commemorations')
    other.append('x')
    require_eq(f.getOtherFestivals(), other[0:len(other) - 1], 'the returned list is the caller\'s own')
    fs = f.getFestivals()
    names = [e.getName() for e in fs]
    md = '%d-%d' % (k, ld)
    require_eq([(e.getName(), e.getResult(), e.isEveryMonth(), e.getRemark()) for e in fs], FOTO_FESTIVAL[md] if md in FOTO_FESTIVAL else [], 'festivals of the day')
    require_eq('杨公忌' in names, '%d-%d' % (k, ld) in YANG_GONG, '杨公忌 in the list')
    require_eq('月朔' in names, ld == 1, '月朔 on the first')
    require_eq('月望' in names, ld == 15, '月望 on the fifteenth')
    if (k, ld) not in ((10, 16), (12, 30)):
        require_eq('四天王巡行' in names, ld in PATROL, '四天王巡行')
    text = spelled(concrete(f.getYear())) + '年' + u.getMonthInChinese() + '月' + u.getDayInChinese()
    require_eq([f.toString(), str(f)], [text, text], 'text')
    full = text
    for e in fs:
        full = full + ' (' + e.getName() + ')'
        t = e.getName()
        require(len(t) > 0, 'name of a festival')
        if e.getResult():
            t = t + ' ' + e.getResult()
        if e.getRemark():
            t = t + ' ' + e.getRemark()
        require_eq([e.toString(), e.toFullString()], [e.getName(), t], 'texts of a festival')
    require_eq(f.toFullString(), full, 'full text')
    fs.append(None)
    require_eq(len(f.getFestivals()), len(fs) - 1, 'the returned list is the caller\'s own')


@obligation('C28', lm=LUNAR_MONTHS, anchor='Foto.isDayZhaiSix', rule='six fast days: 8, 14, 15, 23 and the last two of the month')
def six_days(lm):
    ld = choice('lunar day', list(range(1, 31)))
    w, at = the_world(lm, ld, free=-1, days=(12, 12), yclass=830, lo=2000, hi=2100)
    u = w.lunar(at, ld)
    f = u.getFoto()
    got = f.isDayZhaiSix()
    want = ld in (8, 14, 15, 23, 29, 30)
    if ld == 28:
        want = w.count == 29
    require_eq(got, want, 'six fast days')


@obligation('C28', lm=LUNAR_MONTHS, p=range(0, 60), anchor='Tao.getFestivals', rule='Taoist day attributes by lunar month, day and pillar')
def tao_days(lm, p):
    # every lunar day is met with some pillars
    ld = choice('lunar day', [1 + (p * 7 + abs(lm)) % 30, 1 + (p * 7 + 15 + abs(lm)) % 30] + ([7, 8, 15, 1, 5] if p % 12 == 0 else []))
    m = (abs(lm) % 12) + 1
    w = World(m, pillar=p, free=-1, days=(11, 16), ypillar=30, lo=1984, hi=2050, **clock(p + ld + abs(lm)))
    w.install()
    u = w.lunar((lm, -1 if abs(lm) == 12 else 0), ld)
    t = Tao.fromLunar(u)
    k = abs(lm)
    require_eq([t.getMonth(), t.getDay()], [lm, ld], 'month and day')
    require_eq(t.getYear(), u.getYear() + 2697, 'Taoist year')
    require(t.getLunar() is u, 'lunar date behind it')
    key = '%d-%d' % (lm, ld)
    g, z = p % 10, p % 12
    name = GAN[g] + ZHI[z]
    require_eq([t.isDaySanHui(), t.isDaySanYuan(), t.isDayWuLa()], [key in SAN_HUI, key in SAN_YUAN, key in WU_LA], 'assemblies')
    require_eq(t.isDayBaHui(), name in BA_HUI, 'eight meetings by pillar')
    require_eq(t.isDayMingWu(), g == 4, '明戊')
    require_eq(t.isDayAnWu(), ZHI[z] == AN_WU[k - 1], '暗戊')
    require_eq(t.isDayWu(), g == 4 or ZHI[z] == AN_WU[k - 1], '戊')
    season = ((u.getMonthZhiIndex() - 2) % 12) // 3
    require_eq(t.isDayTianShe(), name == TIAN_SHE[season], '天赦')
    text = spelled(concrete(t.getYear())) + '年' + u.getMonthInChinese() + '月' + u.getDayInChinese()
    require_eq([t.toString(), str(t), t.getYearInChinese(), t.getMonthInChinese(), t.getDayInChinese()],
               [text, text, spelled(concrete(t.getYear())), u.getMonthInChinese(), u.getDayInChinese()], 'texts')
    require_eq(t.toFullString(), '道歷%s年，天运%s年，%s月，%s日。%s月%s日，%s時。' % (t.getYearInChinese(), u.getYearInGanZhi(), u.getMonthInGanZhi(), name, u.getMonthInChinese(), u.getDayInChinese(), u.getTimeZhi()), 'full text')
    fs = t.getFestivals()
    names = [e.getName() for e in fs]
    fixed = TAO_FESTIVAL[key] if key in TAO_FESTIVAL else []
    require_eq([(e.getName(), e.getRemark()) for e in fs[0:len(fixed)]], fixed, 'fixed festivals')
    rest = names[len(fixed):]
    require_eq(rest, [BA_HUI[name]] if name in BA_HUI else [], 'meetings')
    for e in fs:
        s = e.getName()
        if e.getRemark():
            s = s + '[' + e.getRemark() + ']'
        require_eq([e.toString(), e.toFullString()], [e.getName(), s], 'texts of a festival')
    fs.append(None)
    require_eq(len(t.getFestivals()), len(fs) - 1, 'the returned list is the caller\'s own')


@obligation('C28', m=range(1, 13), i=[0, 1], kind=range(0, 5), anchor='Tao.isDayBaJie', rule='eight term days; 天赦 by the season of the day, whatever the hour of the term')
def tao_terms(m, i, kind):
    p = (20 + m, 14, 30, 44, 0)[kind]
    w = World(m, pillar=p, free=-1, yclass=831, lo=2000, hi=2100, simple=True, **clock(m + 4 * i + kind))
    w.install()
    u = w.lunar((4, 0), 12)
    t = w.term(2 * (m - 1) + i)
    tao = u.getTao()
    name = None
    for k in (0, 1):
        e = w.term(2 * (m - 1) + k)
        if w.d == e.d:
            name = e.name
    require_eq(tao.isDayBaJie(), name in BA_JIE, 'term days')
    # the civil month opens with the branch of the month before; the 节 brings the next for the whole of its day
    z = (m - 1) % 12
    if not w.d < w.term(2 * (m - 1)).d:
        z = m % 12
    season = ((z - 2) % 12) // 3
    require_eq(tao.isDayTianShe(), JIAZI[p % 60] == TIAN_SHE[season], '天赦')
    require_eq([tao.isDayMingWu(), tao.isDayBaHui()], [p % 10 == 4, JIAZI[p % 60] in BA_HUI], '明戊 and meetings')
    names = [e.getName() for e in tao.getFestivals()]
    want = []
    if name == '冬至':
        want.append('元始天尊圣诞')
    if name == '夏至':
        want.append('灵宝天尊圣诞')
    pil = JIAZI[p % 60]
    n = len(want)
    require_eq(names[0:n], want, 'births on the solstices')
    if name in BA_JIE:
        require(TAO_BA_JIE[name].startswith(BA_JIE[name]), 'reference text')
        require_eq(names[n], TAO_BA_JIE[name], 'god of the term')
        n = n + 1
    require_eq(names[n:], [BA_HUI[pil]] if pil in BA_HUI else [], 'meetings')


@obligation('C28', which=['Foto', 'Tao'], year=[1583, 1999, 2020, 2099], phase=[0, 12, 20], anchor='Foto.fromYmdHms', rule='construction from year, month and day is the inverse of the getters')
def construct(which, year, phase):
    sky = Sky(phase)
    sky.install()
    e = choice('month', [e for e in sky.months(year) if e[0] == year])
    ld = choice('lunar day', [1, 15, 29])
    c = Foto if which == 'Foto' else Tao
    k = 544 if which == 'Foto' else 2697
    for f, t in ((c.fromYmdHms(year + k, e[1], ld, 5, 6, 7), (5, 6, 7)), (c.fromYmd(year + k, e[1], ld), (0, 0, 0))):
        u = f.getLunar()
        require_eq([f.getYear(), f.getMonth(), f.getDay()], [year + k, e[1], ld], '%s date' % which)
        require_eq([u.getYear(), u.getMonth(), u.getDay(), u.getHour(), u.getMinute(), u.getSecond()], [year, e[1], ld, t[0], t[1], t[2]], 'lunar date of a %s date' % which)
