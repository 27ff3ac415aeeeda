# -*- coding: utf-8 -*-
"""almanac attributes that follow from the pillars, agreement of sibling getters, totality"""
from lunar_python import Solar, Lunar, LunarTime
from lunar_python.util import LunarUtil
from .cal import *
from .text_data import PENG_ZU_GAN, PENG_ZU_ZHI, XIU_VERSE
from .world import *

MONTHS = range(1, 13)

TRIGRAMS = {'坎': '正北', '艮': '东北', '震': '正东', '巽': '东南', '离': '正南', '坤': '西南', '兑': '正西', '乾': '西北', '中': '中宫'}
XI = '艮乾坤离巽艮乾坤离巽'
YANG_GUI = '坤坤兑乾艮坎离艮震巽'
YIN_GUI = '艮坎乾兑坤坤艮离巽震'
FU1 = '巽巽震震坎离坤坤乾兑'
FU2 = '坎坤乾巽艮坎坤乾巽艮'
CAI = '艮艮坤坤坎坎震震离离'
TAI_SUI_YEAR = '坎艮艮震巽巽离坤坤兑坎坎'
STEM_PLACE = '震震离离中中兑兑坎坎'
SHENGXIAO = '鼠牛虎兔龙蛇马羊猴鸡狗猪'
NAYIN30 = ('海中金', '炉中火', '大林木', '路旁土', '剑锋金', '山头火', '涧下水', '城头土', '白蜡金', '杨柳木', '泉中水', '屋上土', '霹雳火', '松柏木', '长流水',
           '沙中金', '山下火', '平地木', '壁上土', '金箔金', '覆灯火', '天河水', '大驿土', '钗钏金', '桑柘木', '大溪水', '沙中土', '天上火', '石榴木', '大海水')
ZHI_XING = '建除满平定执破危成收开闭'
TIAN_SHEN = ('青龙', '明堂', '天刑', '朱雀', '金匮', '天德', '白虎', '玉堂', '天牢', '玄武', '司命', '勾陈')
YELLOW = (0, 1, 4, 5, 7, 10)
LU_OF = '寅卯巳午巳午申酉亥子'
TAI_STEM = ('占门', '碓磨', '厨灶', '仓库', '房床')
TAI_BRANCH = '碓厕炉门栖床'
TAI_PLACE = (('外东南', 2), ('外正南', 5), ('外西南', 6), ('外正西', 5), ('外西北', 6), ('外正北', 5), ('房内北', 5), ('房内中', 2), ('房内南', 3), ('房内西', 1),
             ('房内东', 4), ('房内中', 1), ('外东北', 6), ('外正东', 5), ('外东南', 4))
XIU = '角亢氐房心尾箕斗牛女虚危室壁奎娄胃昴毕觜参井鬼柳星张翼轸'
XIU_ANIMAL = '蛟龙貉兔狐虎豹獬牛蝠鼠燕猪獝狼狗彘鸡乌猴猿犴羊獐马鹿蛇蚓'
XIU_LUCK = '吉凶凶吉凶吉吉吉凶凶凶凶吉吉凶吉吉凶吉凶吉吉凶凶凶吉凶吉'
TAI_MONTH = ('占房床', '占户窗', '占门堂', '占厨灶', '占房床', '占床仓', '占碓磨', '占厕户', '占门房', '占房床', '占灶炉', '占房床')
LIU_YAO = ('先胜', '友引', '先负', '佛灭', '大安', '赤口')


def jz(g, z):
    """number of the pillar (g, z) in the sixty-cycle"""
    return (6 * g - 5 * z) % 60


def nayin(p):
    return NAYIN30[p // 2]


def tai_day(p):
    s = TAI_STEM[p % 5]
    b = TAI_BRANCH[p % 6]
    if s == '占门' and b == '门':
        a = '占大门'
    elif s == '碓磨' and b == '碓':
        a = '占碓磨'
    elif s == '房床' and b == '床':
        a = '占房床'
    else:
        a = s + b
    for place, n in TAI_PLACE:
        if p < n:
            return a + ' ' + place
        p = p - n


def xun_kong(p):
    k = p // 10
    return '%s%s' % (ZHI[(10 - 2 * k) % 12], ZHI[(11 - 2 * k) % 12])


SCENES = {'quick': [0, 1, 2, 3], 'thorough': range(0, 8)}


def scene(m, i, p, yp=None):
    """one of several typical positions of the date: mid-month, late-zi hour, day of the 节 before and after its moment"""
    k = i % 4
    if k == 0:
        days, hour = (11, 16), (p * 5 + m + i) % 23
    elif k == 1:
        days, hour = (11, 16), 23
    elif k == 2:
        days, hour = (5, 5), 3
    else:
        days, hour = (5, 5), 23
    w = World(m, pillar=p, ypillar=(p * 7 + m * 11 + i) % 60 if yp is None else yp, hour=hour, free=-1, days=days,
              week=(p // 12 + m + i) % 7)
    w.install()
    return w


def check_stem(o, g, prefix, what):
    """directions and clash by stem"""
    f = []
    for name, want in (('PositionXi', XI), ('PositionYangGui', YANG_GUI), ('PositionYinGui', YIN_GUI), ('PositionCai', CAI)):
        got = getattr(o, 'get' + prefix + name)()
        require_eq(got, want[g], what + ' ' + name)
        require_eq(getattr(o, 'get' + prefix + name + 'Desc')(), TRIGRAMS[want[g]], what + ' ' + name + ' description')
    for sect, want in ((1, FU1), (2, FU2)):
        require_eq(getattr(o, 'get' + prefix + 'PositionFu')(sect), want[g], what + ' PositionFu')
        require_eq(getattr(o, 'get' + prefix + 'PositionFuDesc')(sect), TRIGRAMS[want[g]], what + ' PositionFu description')
    require_eq(getattr(o, 'get' + prefix + 'PositionFu')(), FU2[g], what + ' PositionFu default')
    require_eq(getattr(o, 'get' + prefix + 'PositionFuDesc')(), TRIGRAMS[FU2[g]], what + ' PositionFu default description')
    require_eq(getattr(o, 'get' + prefix + 'ChongGan')(), GAN[(g + 4) % 10], what + ' clashing stem')
    require_eq(getattr(o, 'get' + prefix + 'ChongGanTie')(), GAN[(g + 5) % 10 if g % 2 == 0 else (g + 3) % 10], what + ' hostile stem')


def check_branch(o, g, z, prefix, what):
    c = (z + 6) % 12
    require_eq(getattr(o, 'get' + prefix + 'Chong')(), ZHI[c], what + ' clashing branch is the opposite one')
    require_eq(getattr(o, 'get' + prefix + 'ChongShengXiao')(), SHENGXIAO[c], what + ' clashing animal')
    require_eq(getattr(o, 'get' + prefix + 'ChongDesc')(), '(' + GAN[(g + 4) % 10] + ZHI[c] + ')' + SHENGXIAO[c], what + ' clash text')
    require_eq(getattr(o, 'get' + prefix + 'Sha')(), '南东北西'[z % 4], what + ' Sha direction')
    require_eq(getattr(o, 'get' + prefix + 'NaYin')(), nayin(jz(g, z)), what + ' NaYin')
    require_eq(getattr(o, 'get' + prefix + 'ShengXiao')(), SHENGXIAO[z], what + ' animal')


# ------------------------------------------------------------------ C26
@obligation('C26', m=MONTHS, i=SCENES, anchor='Lunar.getDayPositionXi', rule='directions, clash, NaYin, duty gods by stem and branch of the day, month and time')
def attributes(m, i):
    p = choice('day pillar', list(range(0, 60)))
    w = scene(m, i, p)
    u = w.lunar('any')
    g, z = p % 10, p % 12
    check_stem(u, g, 'Day', 'day')
    check_branch(u, g, z, 'Day', 'day')
    tg, tz = concrete(u.getTimeGanIndex()), concrete(u.getTimeZhiIndex())
    check_stem(u, tg, 'Time', 'time')
    check_branch(u, tg, tz, 'Time', 'time')
    require_eq([u.getPengZuGan(), u.getPengZuZhi()], [PENG_ZU_GAN[g], PENG_ZU_ZHI[z]], 'PengZu of stem and branch')
    mz, mg = concrete(u.getMonthZhiIndex()), concrete(u.getMonthGanIndex())
    require_eq(u.getZhiXing(), ZHI_XING[(z - mz) % 12], 'the day officer counts from the month branch')
    t = (z - 2 * (mz - 2)) % 12
    require_eq(u.getDayTianShen(), TIAN_SHEN[t], 'day god')
    require_eq(u.getDayTianShenType(), '黄道' if t in YELLOW else '黑道', 'day god type')
    require_eq(u.getDayTianShenLuck(), '吉' if t in YELLOW else '凶', 'day god luck')
    ez = concrete(u.getDayZhiIndexExact())
    t = (tz - 2 * (ez - 2)) % 12
    require_eq(u.getTimeTianShen(), TIAN_SHEN[t], 'time god')
    require_eq(u.getTimeTianShenType(), '黄道' if t in YELLOW else '黑道', 'time god type')
    require_eq(u.getTimeTianShenLuck(), '吉' if t in YELLOW else '凶', 'time god luck')
    lu = LU_OF[g] + '命互禄'
    own = [GAN[k] for k in range(0, 10) if LU_OF[k] == ZHI[z]]
    if len(own) > 0:
        lu = lu + ' ' + ','.join(own) + '命进禄'
    require_eq(u.getDayLu(), lu, 'day Lu')
    require_eq(u.getDayPositionTai(), tai_day(p), 'fetal god of the day')
    yz = concrete(u.getYearZhiIndex())
    require_eq(u.getYearShengXiao(), SHENGXIAO[yz], 'year animal')
    require_eq(u.getYearShengXiaoByLiChun(), SHENGXIAO[concrete(u.getYearZhiIndexByLiChun())], 'year animal by 立春')
    require_eq(u.getYearShengXiaoExact(), SHENGXIAO[concrete(u.getYearZhiIndexExact())], 'year animal exact')
    require_eq(u.getMonthShengXiao(), SHENGXIAO[mz], 'month animal')
    require_eq(u.getMonthShengXiaoExact(), SHENGXIAO[concrete(u.getMonthZhiIndexExact())], 'month animal exact')
    require_eq(u.getYearNaYin(), nayin(jz(concrete(u.getYearGanIndex()), yz)), 'year NaYin')
    require_eq(u.getMonthNaYin(), nayin(jz(mg, mz)), 'month NaYin')


@obligation('C26', m=MONTHS, i=SCENES, anchor='Lunar.getDayPositionTaiSui', rule='Tai Sui positions by year branch, month branch and day group, for each convention')
def tai_sui(m, i):
    p = choice('day pillar', list(range(0, 60)))
    w = scene(m, i, p)
    u = w.lunar('any')
    years = {1: u.getYearZhiIndex(), 2: u.getYearZhiIndexByLiChun(), 3: u.getYearZhiIndexExact()}
    for sect in (1, 2, 3):
        yz = concrete(years[sect])
        require_eq(u.getYearPositionTaiSui(sect), TAI_SUI_YEAR[yz], 'year Tai Sui')
        require_eq(u.getYearPositionTaiSuiDesc(sect), TRIGRAMS[TAI_SUI_YEAR[yz]], 'year Tai Sui description')
        if sect == 3:
            mg, mz = concrete(u.getMonthGanIndexExact()), concrete(u.getMonthZhiIndexExact())
        else:
            mg, mz = concrete(u.getMonthGanIndex()), concrete(u.getMonthZhiIndex())
        k = (mz - 2) % 4
        want = '艮' if k == 0 else (STEM_PLACE[mg] if k == 1 else ('坤' if k == 2 else '巽'))
        require_eq(u.getMonthPositionTaiSui(sect), want, 'month Tai Sui')
        require_eq(u.getMonthPositionTaiSuiDesc(sect), TRIGRAMS[want], 'month Tai Sui description')
        # the first six days of each twelve-day run sit at the place of the run, the others at the place of the year
        want = '震离中兑坎'[p // 12] if p % 12 < 6 else TAI_SUI_YEAR[yz]
        require_eq(u.getDayPositionTaiSui(sect), want, 'day Tai Sui')
        require_eq(u.getDayPositionTaiSuiDesc(sect), TRIGRAMS[want], 'day Tai Sui description')
    require_eq([u.getYearPositionTaiSui(), u.getMonthPositionTaiSui(), u.getDayPositionTaiSui()],
               [u.getYearPositionTaiSui(2), u.getMonthPositionTaiSui(2), u.getDayPositionTaiSui(2)], 'the default convention is 2')
    require_eq([u.getYearPositionTaiSuiDesc(), u.getMonthPositionTaiSuiDesc(), u.getDayPositionTaiSuiDesc()],
               [u.getYearPositionTaiSuiDesc(2), u.getMonthPositionTaiSuiDesc(2), u.getDayPositionTaiSuiDesc(2)], 'the default convention is 2')


@obligation('C26', m=MONTHS, i=SCENES, anchor='Lunar.getDayXun', rule='decades and void branches of every pillar')
def xun(m, i):
    p = choice('day pillar', list(range(0, 60)))
    w = scene(m, i, p)
    u = w.lunar('any')
    for kind, g, z in (('Year', u.getYearGanIndex(), u.getYearZhiIndex()), ('YearByLiChun', u.getYearGanIndexByLiChun(), u.getYearZhiIndexByLiChun()),
                       ('YearExact', u.getYearGanIndexExact(), u.getYearZhiIndexExact()), ('Month', u.getMonthGanIndex(), u.getMonthZhiIndex()),
                       ('MonthExact', u.getMonthGanIndexExact(), u.getMonthZhiIndexExact()), ('Day', p % 10, p % 12),
                       ('DayExact', u.getDayGanIndexExact(), u.getDayZhiIndexExact()), ('DayExact2', u.getDayGanIndexExact2(), u.getDayZhiIndexExact2()),
                       ('Time', u.getTimeGanIndex(), u.getTimeZhiIndex())):
        n = jz(concrete(g), concrete(z))
        head = kind
        tail = ''
        for s in ('ByLiChun', 'Exact2', 'Exact'):
            if head.endswith(s):
                head = head[0:len(head) - len(s)]
                tail = s
        require_eq(getattr(u, 'get' + head + 'Xun' + tail)(), JIAZI[n // 10 * 10], kind + ' decade starts at its 甲 pillar')
        require_eq(getattr(u, 'get' + head + 'XunKong' + tail)(), xun_kong(n), kind + ' void branches are the two outside the decade')


# ------------------------------------------------------------------ C35
@obligation('C35', p=range(0, 60), anchor='Lunar.getXiu', rule='the 28 mansions advance by one per civil day')
def mansions(p):
    k = choice('week', list(range(0, 7)))
    m = 1 + (p + k) % 12
    w = World(m, pillar=p, ypillar=p, free=-1, days=(11, 16), week=k, **clock(choice('time', [p + k, p + k + 3, p + k + 7])))
    w.install()
    u = w.lunar('any')
    r = p + 11
    while (r + 1) % 7 != k:
        r = r + 60
    n = (r + 11) % 28
    require_eq(u.getXiu(), XIU[n], 'mansion')
    require_eq(u.getXiuLuck(), XIU_LUCK[n], 'mansion luck')
    require_eq(u.getZheng(), '日月火水木金土'[k], 'the luminary of the mansion is that of the weekday')
    require_eq(u.getAnimal(), XIU_ANIMAL[n], 'mansion animal')
    require_eq(u.getGong(), '东北西南'[n // 7], 'palace')
    require_eq(u.getShou(), ('青龙', '玄武', '白虎', '朱雀')[n // 7], 'palace beast')
    require_eq(u.getXiuSong(), XIU_VERSE[XIU[n]], 'mansion verse')
    require_eq(u.getWeek(), k, 'weekday')
    require_eq(u.getWeekInChinese(), '日一二三四五六'[k], 'weekday text')
