# -*- coding: utf-8 -*-
NOTES = ('All checks read /repo/lunar_python as text, build its syntax trees and interpret them over abstract values; the package is never imported or executed '
         'and no solver is involved. ENGINE and specifications: absint/, spec/. See DESIGN.md.')
ASSUMPTIONS = [
    'floating-point arithmetic on dates is treated as exact rational arithmetic (all quantities involved are far from rounding boundaries except where an obligation says so)',
    'a partition reported as undetermined or beyond bound is not decided; counts are in coverage.totals',
]
NM = '1..9999 (astronomical year numbering as accepted by the constructors)'

prop('C01', 'Month, year and ordinal-day lengths follow the civil calendar',
     'For every year 1-9999 the month lengths, leap-year flag, year length and day-of-year number reported by the library are those of the civil calendar that is Julian up to 4 October 1582 and Gregorian from 15 October 1582. The year length always equals the sum of its month lengths, and the ten dropped days of October 1582 are not counted and are refused.',
     ['inputs'], 'all years 1..9999, all months, all existing days (and the ten non-existing ones)',
     'The tests sample a few dozen dates; the guarantee is over 3.6 million days and both calendar regimes.',
     ['lunar_python/util/SolarUtil.py'], [('month/year length and ordinal day', 'SolarUtil.getDaysOfMonth/getDaysOfYear/getDaysInYear/isLeapYear'), ('leap flag of a date', 'Solar.isLeapYear')],
     ['solar'], 'SolarUtil and Solar are interpreted on symbolic year and day, per month, and compared with an independent calendar.', bounds='years 1..9999')
prop('C02', 'Day and minute differences equal the true calendar distance',
     'The number of days between two dates is the number of calendar days separating them (negative when the second is earlier) for every pair of existing dates, including across October 1582 and over many years. The minute difference of two date-times equals that day count times 1440 plus the difference of the times of day.',
     ['inputs'], 'all ordered pairs of existing dates whose years differ by at most 2 (quick) or 9 (thorough), plus sampled far year pairs with symbolic days',
     'Quantifies over pairs of dates; a test can only list pairs.',
     ['lunar_python/util/SolarUtil.py', 'lunar_python/Solar.py'], [('day distance', 'SolarUtil.getDaysBetween'), ('date subtraction', 'Solar.subtract, Solar.subtractMinute')],
     ['solar'], 'getDaysBetween/subtract/subtractMinute interpreted with symbolic years and days per month pair.', bounds='year distance <= 2 quick / 9 thorough with symbolic year; ten far year pairs')
prop('C03', 'Moving a solar date by n days lands exactly n days away',
     'Moving a solar date by n days, for every positive, negative or zero n, yields the existing calendar date exactly n days away, skipping the dropped days of October 1582. The time of day is kept and the original date object is unchanged.',
     ['inputs'], 'all existing dates of years 1..9999, n in -400..399 (quick) / -1600..1599 (thorough), all times of day',
     'All start dates times all offsets; month-end, leap-day and 1582 cases interact.',
     ['lunar_python/Solar.py'], [('day arithmetic', 'Solar.next')], ['solar'], 'Solar.next interpreted with symbolic year, day, offset and time.', bounds='|n| <= 400 quick, 1600 thorough for every start date; n of decades up to 400 years and n around +-1, 2, 4 and 10 eras for sampled start months')
prop('C04', 'Moving by months, years or hours keeps the date valid and clamped',
     'Moving a solar date by n months or n years keeps day and time, clamping the day to the last day of a shorter target month (and leaving the October 1582 gap forwards), and the target month/year is exactly n months/years away. Moving by n hours is exact across days, months and years.',
     ['inputs'], 'all existing dates of years 1..9999; n in -60..59 months, -9998..9998 years, -96..95 hours (quick), ten times more (thorough)',
     'All start dates times all offsets; clamping only shows for particular month/leap combinations.',
     ['lunar_python/Solar.py'], [('month, year and hour arithmetic', 'Solar.nextMonth, Solar.nextYear, Solar.nextHour')], ['solar'],
     'nextMonth/nextYear/nextHour interpreted with symbolic dates and offsets.', bounds='months +-60/600, hours +-96/960, and far offsets (centuries) for sampled start months')
prop('C05', 'Julian day numbers, weekdays and their inverse are consistent',
     'The Julian day number advances by exactly one per calendar day (across 1582 too) with the time of day as its fraction, is 2451545.0 at 2000-01-01 12:00, and converting it back returns the same date and time, rounding to the nearest second with carry into the next day or month. The weekday is in 0-6, advances by one per calendar day and has the matching Chinese name.',
     ['inputs'], 'all existing dates of years 1..9999, all times of day, and tenth-of-second fractions for the rounding clause',
     'The inverse must hold for every day and second; carry cases occur only in the last half second of a month.',
     ['lunar_python/Solar.py'], [('Julian day', 'Solar.getJulianDay, Solar.fromJulianDay'), ('weekday', 'Solar.getWeek, Solar.getWeekInChinese')], ['solar'],
     'Julian-day arithmetic interpreted exactly on symbolic dates, increments within and across years compared with the calendar.', bounds='years 1..9999')
prop('C06', 'Chronological order and text form of dates agree',
     'Before/after comparisons of solar date-times are exactly the chronological order. The zero-padded text forms have a fixed layout, contain exactly the components, are equal only for equal values and sort in chronological order.',
     ['inputs'], 'all pairs of date-times in years 1..9999', 'Quantifies over all pairs of date-times.',
     ['lunar_python/Solar.py'], [('comparison', 'Solar.isBefore, Solar.isAfter'), ('text', 'Solar.toYmd, Solar.toYmdHms, Solar.toString')], ['solar'],
     'comparison and text methods interpreted on two symbolic date-times.', bounds='years 1..9999')
prop('C07', 'Solar dates reject out-of-range components',
     'Constructing a solar date with a month outside 1-12, a day outside 1-31, an hour outside 0-23, a minute or second outside 0-59, or one of the dropped days 5-14 October 1582 raises an error. Every date with all components in range and not dropped is accepted.',
     ['inputs'], 'all integers -100000..100000 for the bad component, all valid values for the others', 'Negative space: tests try a couple of bad values.',
     ['lunar_python/Solar.py'], [('component validation', 'Solar.__init__')], ['solar'], 'constructor interpreted on symbolic components with one out of range.', bounds='bad component within +-100000')
prop('C08', 'Calendar units list their parts and move by whole units',
     'A solar month lists exactly its existing days in order, a season its 3 months, a half-year its 6 and a year its 12, with matching index numbers. Moving a month, season, half-year or year by n units, for any sign of n, lands exactly n units away and leaves the receiver unchanged.',
     ['inputs'], 'all years 1..9999, all months, offsets -2000..2000 units', 'All receivers times all offsets, including negative ones crossing year ends.',
     ['lunar_python/SolarMonth.py', 'lunar_python/SolarSeason.py', 'lunar_python/SolarHalfYear.py', 'lunar_python/SolarYear.py'],
     [('days of a month', 'SolarMonth.getDays'), ('months of a unit', 'SolarSeason.getMonths, SolarHalfYear.getMonths, SolarYear.getMonths'), ('unit arithmetic', 'SolarMonth.next, SolarSeason.next, SolarHalfYear.next, SolarYear.next')],
     ['units'], 'the unit classes are interpreted with symbolic year and offset per month.', bounds='|n| <= 2000 units')
prop('C09', 'Weeks partition the days for every first day of the week',
     'For each of the seven possible first days of the week, a week lists seven consecutive days that start on that weekday and contain the given date. A month\'s weeks cover all its days without gaps and agree in number with the week-count function; week numbers within the month and year count from the week containing the first day. Moving by n weeks moves exactly 7n days; moving by month-separated weeks visits every (month, week) part exactly once.',
     ['inputs'], 'all dates of years 1..9999, all week starts 0..6', 'Depends on weekday of the first of the month times week start times month length; October 1582 too.',
     ['lunar_python/SolarWeek.py', 'lunar_python/SolarMonth.py', 'lunar_python/util/SolarUtil.py'],
     [('days of a week', 'SolarWeek.getDays, getFirstDay'), ('index', 'SolarWeek.getIndex, getIndexInYear'), ('weeks of a month', 'SolarMonth.getWeeks, SolarUtil.getWeeksOfMonth'), ('stepping', 'SolarWeek.next')],
     ['units', 'solar'], 'SolarWeek/SolarMonth interpreted on symbolic dates with the weekday of the date as a partition key; the weekday contract used is re-verified from the source.', bounds='years 1..9999')
prop('C10', 'Workday arithmetic counts exactly the working days',
     'Moving a date by n working days (onlyWorkday) lands on the n-th working day after (or before) it, where a day is a working day when the holiday calendar marks it as work, and otherwise when it is not listed as a day off and is Monday to Friday.',
     ['inputs', 'histories'], 'all start dates, n within +-2 (quick) / +-4 (thorough), every holiday calendar with at most two listed days near the date; n up to +-261 from sampled dates with stretches of listed days', 'Ranges over arbitrary holiday calendars, which users can replace with HolidayUtil.fix.',
     ['lunar_python/Solar.py'], [('workday stepping', 'Solar.next(days, onlyWorkday)')], ['units', 'solar'],
     'Solar.next(n, True) interpreted with an unconstrained holiday table (a fresh three-way choice per visited date).', bounds='|n| <= 2/4 working days from every date; longer walks from 39 start dates x 8 calendars x 7 positions')
prop('C11', 'Festivals and zodiac follow their date rules',
     'Fixed-date festivals appear on their month and day every year; k-th-weekday festivals on exactly the k-th such weekday of the month (and last-weekday ones on the last), and on no other day. The western zodiac sign is the one whose date range contains the date.',
     ['inputs'], 'all dates of years 1..9999 (except October 1582 for weekday festivals)', 'k-th weekday rules depend on the weekday alignment of each month in each year.',
     ['lunar_python/Solar.py', 'lunar_python/util/SolarUtil.py'], [('festivals', 'Solar.getFestivals, Solar.getOtherFestivals'), ('zodiac', 'Solar.getXingZuo')], ['units', 'solar'],
     'festival and zodiac getters interpreted on symbolic dates, per weekday; the festival tables are read from the source and compared with the k-th-weekday rule.', bounds='years 1..9999')
prop('C14', 'Year pillar changes exactly at its year boundary',
     'The sexagenary year in its three variants changes exactly at the lunar new year, at the start of the day of Li Chun, and at the moment of Li Chun to the second. On either side of each boundary it is the pillar of the corresponding year (year 4 is Jia-Zi).',
     ['inputs'], 'all dates and times of years 1584..7275; every position of the solar terms within their month windows', 'Boundary seconds and the two orders of new year and Li Chun occur rarely.',
     ['lunar_python/Lunar.py'], [('year pillar', 'Lunar.getYearGanIndex/ZhiIndex (plain, ByLiChun, Exact)')], ['pillars', 'tables', 'edges', 'solar'],
     'Lunar is interpreted on a symbolic date whose 31 surrounding terms have symbolic dates and times.', bounds='years 1584..7275 (where every term stays in one Gregorian month); hours 0/10/23 quick, all thorough')
prop('C15', 'Month pillar follows the solar terms and the five-tigers rule',
     'The sexagenary month changes exactly on the day (or, in the exact variant, at the second) of each of the twelve jie terms. Its branch is fixed by that term and its stem follows the five-tigers rule from the year that began at Li Chun, so it advances by exactly one in the sixty-cycle at every jie.',
     ['inputs'], 'all dates and times of years 1584..7275', 'Needs every month boundary to the second in every year.',
     ['lunar_python/Lunar.py'], [('month pillar', 'Lunar.getMonthGanIndex/ZhiIndex (plain, Exact)')], ['pillars', 'solar'],
     'Lunar is interpreted on a symbolic date whose surrounding terms have symbolic dates and times.', bounds='years 1584..7275')
prop('C12', 'Holiday table is well formed and lookups are exact',
     'Every statutory holiday record has existing dates, a known name, a work flag and a target that is itself a day off, and the days off of one holiday are consecutive. Lookups by day, month, year and target return exactly the matching records in date order, for any year and in text or number form. After any sequence of HolidayUtil.fix additions, replacements, removals or renamings the lookups still equal those of a plain table with the same edits.',
     ['inputs', 'histories'], 'all days of the table years (and sampled other years); all fix histories up to length 2 (quick) / 3 (thorough) over a five-day, four-record alphabet',
     'The table has 821 records matched by substring search; lookups must be right for unlisted days and after arbitrary corrections.',
     ['lunar_python/util/HolidayUtil.py', 'lunar_python/Holiday.py'], [('lookups', 'HolidayUtil.getHoliday/getHolidays/getHolidaysByTarget'), ('corrections', 'HolidayUtil.fix'), ('record', 'Holiday')],
     ['holidays'], 'the constant table is propagated through the public lookups and compared with an association table; corrections are interpreted over all bounded histories.', bounds='years 1998..2039 fully, others sampled; histories <= 2/3 corrections',
     technique='constant propagation of the literal holiday table through the abstract interpreter (exhaustive over its records, days and bounded correction histories)')
prop('C13', 'Pillars are members of the sixty-cycle and getters agree',
     'Every year, month, day and time pillar in every variant is one of the sixty stem-branch pairs (stem and branch of equal parity), and its text is exactly the stem and branch given by the index getters. The eight characters are the exact year, exact month, the day pillar of the chosen late-zi convention and the time pillar, in every representation.',
     ['inputs'], 'all dates of years 1584..7275 by year pillar, month and day pillar; both conventions', 'Stem and branch are computed by separate formulas per variant; parity and text must agree on all dates.',
     ['lunar_python/Lunar.py', 'lunar_python/EightChar.py', 'lunar_python/LunarTime.py'], [('pillar getters', 'Lunar.get*GanIndex/ZhiIndex/Gan/Zhi/InGanZhi*'), ('eight characters', 'EightChar.getYear/getMonth/getDay/getTime, Lunar.getBaZi')],
     ["pillars", "edges", "solar"], 'Lunar, EightChar and LunarTime interpreted for every year pillar x month with symbolic day and term positions.', bounds='years 1584..7275')
prop('C16', 'Day and time pillars follow the sixty-day and two-hour cycles',
     'The day pillar is the Julian day number reduced modulo sixty, so it advances by exactly one every civil day; under the early convention it changes at 23:00, under the other at midnight. The time branch changes at every odd hour and the time stem follows the five-rats rule from the exact day stem. The list of the thirteen periods of a day and the LunarTime objects give the same pillars and cover the day.',
     ['inputs'], 'all sixty day pillars x 24 hours x symbolic minute, in all civil months', 'Every (day pillar, hour) combination; late-zi handling only shows between 23:00 and 23:59.',
     ['lunar_python/Lunar.py', 'lunar_python/LunarTime.py', 'lunar_python/util/LunarUtil.py'], [('day pillar', 'Lunar.getDayGanIndex/ZhiIndex (plain, Exact, Exact2)'), ('time pillar', 'Lunar.getTimeGanIndex/ZhiIndex, LunarTime'), ('periods', 'Lunar.getTimes')],
     ['pillars', 'solar'], 'Lunar and LunarTime interpreted for every day pillar and hour on a symbolic date.', bounds='years 1584..7275')
prop('C26', 'Attributes of a day, month and time are functions of their pillars',
     'Directions of the gods of joy, wealth, fortune and nobility, clashing branch/stem/animal, Sha direction, NaYin, PengZu taboos, duty officer, duty god, Lu, fetal god, animals, Tai Sui positions (all conventions) and decades/void branches are determined by the stem and branch of their day, month, year or time according to the traditional rules; each description text matches its direction.',
     ['inputs'], 'all sixty day pillars x all months x four kinds of position (mid-month, late zi hour, before/after a term moment)', 'Each rule has up to 60x12 cases; table rows and off-by-one indices are wrong for some rows only.',
     ['lunar_python/Lunar.py', 'lunar_python/util/LunarUtil.py'], [('attribute getters', 'Lunar.getDayPosition*/getDayChong*/getZhiXing/getDayTianShen/getDayLu/getDayXun/get*PositionTaiSui and the Time siblings')], ['day', 'solar'],
     'Lunar interpreted for every day pillar, month and kind of position; results compared with rules written independently (arithmetic on stem and branch numbers).', bounds='one year pillar per (day pillar, month, kind) in quick, eight kinds in thorough')
prop('C35', 'The 28 mansions follow the civil day',
     'The lunar mansion advances by exactly one of the 28 every civil day, in phase with the weekday (the luminary of the mansion is that of the weekday); luck, animal, palace, beast and poem are those of the mansion.',
     ['inputs'], 'all combinations of day branch and weekday', 'Needs the full 28-day alignment of week and mansion with every day pillar.',
     ['lunar_python/Lunar.py', 'lunar_python/util/LunarUtil.py'], [('mansion', 'Lunar.getXiu/getXiuLuck/getZheng/getAnimal/getGong/getShou/getXiuSong')], ['day', 'solar'],
     'Lunar interpreted for each of the sixty day pillars and seven weekdays.', bounds='hour sampled per case')
prop('C36', 'Lunar festivals appear exactly on their days',
     'Fixed-date lunar festivals appear on their lunar month and day (never in a leap month); New Year\'s Eve is on the last day of the lunar year whether month 12 has 29 or 30 days or is followed by a leap month; Han Shi is the day before Qing Ming; the spring and autumn She days are the fifth Wu day counted from Li Chun and Li Qiu. The returned lists belong to the caller.',
     ['inputs'], 'all lunar months (leap and not), days and month lengths; all positions relative to the terms', 'Month length and the position of a term relative to the stem cycle vary by year.',
     ['lunar_python/Lunar.py', 'lunar_python/util/LunarUtil.py'], [('festivals', 'Lunar.getFestivals, Lunar.getOtherFestivals')], ['lunarday', 'solar'],
     'Lunar interpreted for every lunar month, day and month length; the successor date is any the lunar table allows; term festivals for every day of the year, stem of the day and leap class.', bounds='terms at representative days (shifted by -3..3 in thorough)')
prop('C37', 'Lunar date texts and monthly attributes are correct for every date',
     'The year is spelled digit by digit, month and day texts name the number (with the leap mark), and season, moon phase, six-day luck (Liu Yao) and monthly fetal god follow from the lunar month and day.',
     ['inputs'], 'all years 1..9999, all lunar months (leap and not) and days', '24 x 30 month/day combinations and every digit position.',
     ['lunar_python/Lunar.py', 'lunar_python/util/LunarUtil.py'], [('texts', 'Lunar.getYearInChinese/getMonthInChinese/getDayInChinese/toString'), ('attributes', 'Lunar.getSeason/getYueXiang/getLiuYao/getMonthPositionTai')], ['lunarday', 'solar'],
     'Lunar interpreted for every lunar month and day, and for every year.', bounds='complete for months, days and years 1..9999')
prop('C19', 'Attributes of the eight characters follow from stems and branches',
     'For each of the four pillars, hidden stems, elements, NaYin, ten gods (relation of the day stem to the stem and to each hidden stem by element cycle and polarity), twelve growth stages (forward from its birth branch for a Yang day stem, backward for a Yin one), decade and void branches are the traditional functions of that pillar and the day stem, for both late-zi conventions, and the list getters of Lunar return the same values in order.',
     ['inputs'], 'all 60 year pillars x 60 day pillars (months and hours spread over all values), both conventions', '10 x 12 stem/branch combinations per getter; tests sample a few.',
     ['lunar_python/EightChar.py', 'lunar_python/util/LunarUtil.py', 'lunar_python/Lunar.py'], [('attributes', 'EightChar.get{Year,Month,Day,Time}{HideGan,WuXing,NaYin,ShiShenGan,ShiShenZhi,DiShi,Xun,XunKong}'), ('lists', 'Lunar.getBaZi*')], ['eightchar', 'solar'],
     'EightChar interpreted over all year and day pillars; results compared with the element/polarity arithmetic written independently.', bounds='complete over (year pillar, day pillar); month and hour sampled per pair')
prop('C20', 'TaiYuan, TaiXi, MingGong and ShenGong follow their rules',
     'TaiYuan is the next stem and third next branch of the exact month pillar; TaiXi combines the day stem and branch with their five/six partners for the chosen convention; MingGong and ShenGong are counted from month and hour branches with the stem by the five-tigers rule of the exact year. All are members of the sixty-cycle and their NaYin is that of the resulting pillar.',
     ['inputs'], 'all 60 year pillars x 60 day pillars, months and hours spread', 'Wrap-around of the counts happens only for some month/hour combinations.',
     ['lunar_python/EightChar.py'], [('palaces', 'EightChar.getTaiYuan/getTaiXi/getMingGong/getShenGong and their NaYin')], ['eightchar', 'solar'],
     'EightChar interpreted over all year and day pillars with month and hour spread.', bounds='complete over (year pillar, day pillar); month and hour sampled per pair')
prop('C21', 'Luck periods start and advance by rule',
     'Luck runs forward exactly for men of Yang years and women of Yin years. The start offset is the distance to the next (forward) or previous jie: by days and double-hours (three days a year) or by minutes, according to the chosen convention; the start date is birth plus that offset. Decades have consecutive ten-year and age ranges, pillars stepping by one from the month pillar in the direction; yearly luck is the pillar of its year; minor luck steps from the time pillar by age; monthly luck follows the five tigers.',
     ['inputs'], 'births in every month before and after the jie; both genders and conventions; all year pillars', 'Direction, wrap-around and boundary cases depend on the position of the birth relative to the jie to the minute.',
     ['lunar_python/eightchar/Yun.py', 'lunar_python/eightchar/DaYun.py', 'lunar_python/eightchar/LiuNian.py', 'lunar_python/eightchar/XiaoYun.py', 'lunar_python/eightchar/LiuYue.py'],
     [('start', 'Yun'), ('periods', 'DaYun, LiuNian, XiaoYun, LiuYue')], ['eightchar', 'solar'],
     'Yun and its parts interpreted on scenes around every jie; compared with independent arithmetic.', bounds='eight days per month, three moments of the jie, hours 9/23 in quick (all hours in thorough); decades 0, 1, 2, 5, 9')
prop('C22', 'Previous, next and current solar terms are exact',
     'getPrevJie/Qi/JieQi return the last such term whose moment (or day, with whole_day) is at or before the date, getNextJie/Qi/JieQi the first one after it, with the right name, moment and jie/qi flags; getJie/getQi/getJieQi and getCurrent* report a term exactly on its civil day. The term table lists the 31 terms around the year with their moments, and flags follow the name after renaming.',
     ['inputs'], 'all dates and times of years 1584..7275; every position of the terms in their month windows', 'Same-day, same-second and year-boundary cases of the 31-term table are rare.',
     ['lunar_python/Lunar.py', 'lunar_python/JieQi.py'], [('near terms', 'Lunar.getPrev*/getNext*'), ('current terms', 'Lunar.getJie/getQi/getJieQi/getCurrent*'), ('table', 'Lunar.getJieQiTable/getJieQiList')], ['terms', 'edges', 'solar'],
     'Lunar interpreted on symbolic dates with symbolic surrounding terms.', bounds='years 1584..7275; hours 0/15/23 in quick, all in thorough')
prop('C23', 'Nines of winter, dog days and pentads follow from the terms',
     'The 81 days from the winter solstice are the nine nines; the dog days run from the third Geng day on or after the summer solstice, ten days first, ten or twenty middle, and ten last from the first Geng day on or after Li Qiu; each term has three pentads of five days (the last possibly longer) named in the traditional order. Outside these ranges there is none.',
     ['inputs'], 'every day of the year, stem of the day, leap class and position of the terms', 'Depends on the alignment of the ten-day stem cycle with the terms and on year boundaries.',
     ['lunar_python/Lunar.py', 'lunar_python/ShuJiu.py', 'lunar_python/Fu.py', 'lunar_python/util/LunarUtil.py'], [('nines', 'Lunar.getShuJiu'), ('dog days', 'Lunar.getFu'), ('pentads', 'Lunar.getWuHou, Lunar.getHou')], ['terms', 'solar'],
     'Lunar interpreted for every day of the year, each stem phase and several term positions, on symbolic years of each leap class.', bounds='term days shifted within -2..3 (quick) / -4..4 (thorough); two / five leap classes')
prop('C24', 'Nine stars step through their cycles',
     'The year star steps back by one every year (One White in 1864, year boundary by the chosen convention); the month star steps back by one every jie month, starting at 寅 by the year branch group; the day star ascends daily from the jia-zi day nearest the winter solstice and descends from the one nearest the summer solstice; the time star starts by the day branch group and ascends or descends by half-year. LunarTime gives the same star, and the attributes of a star are those of its number.',
     ['inputs'], 'all year classes, months and conventions; all day pillars at every position around the solstices; all double-hours', 'Wrap-arounds and the switch days occur a few times a year.',
     ['lunar_python/Lunar.py', 'lunar_python/LunarTime.py', 'lunar_python/NineStar.py'], [('stars', 'Lunar.get{Year,Month,Day,Time}NineStar, LunarTime.getNineStar'), ('attributes', 'NineStar')], ['stars', 'solar'],
     'Lunar interpreted on symbolic years of sampled classes modulo 1200, every month, and all day pillars around the switch days.', bounds='twenty (quick) / 172 (thorough) year classes mod 1200; solstice days 20..23')
prop('C34', 'The lunar month table of a year follows from its new moons and terms',
     'For every lunar year the table holds fifteen months from the one containing the previous winter solstice, each beginning on a new moon and ending the day before the next, numbered in order; in a thirteen-month solstice year the leap month is the first month without a major term (also when the leap month is 11 or 12, near the year boundary). Leap month, months of the year, day count of the year, lookups of a month and the moments of the 31 terms agree with it.',
     ['inputs'], 'all years 1..9998 and every phase of the moon relative to the terms', 'Leap placement depends on the alignment of moon and sun; the rare cases (leap 11, 12, 1) come decades or centuries apart.',
     ['lunar_python/LunarYear.py', 'lunar_python/LunarMonth.py'], [('table', 'LunarYear.compute/getMonths/getMonthsInYear/getMonth/getLeapMonth/getDayCount/getJieQiJulianDays')], ['astro'],
     'LunarYear is interpreted with the new-moon and solar-term functions replaced by uniform motion with a symbolic lunar phase; compared with an independent derivation of months and leap months.',
     bounds='one fractional phase; reform eras 8..24 and 236..241 only for contiguity', assumptions=['the functions that compute new moons and terms are modelled by uniform motion (their real values are the subject of C38 and C39)'])
prop('C38', 'The lunar calendar of every year is the published one, without gaps',
     'For every lunar year 1-9998 the months follow each other without gap or overlap within a year and from year to year, have 29 or 30 days, and the tables of adjacent years agree on the months they share; lengths and leap months of 1900-2049 are those of the published almanac table, and the others those of the reference snapshot.',
     ['inputs'], 'all lunar years 1..9998, all their months', 'One wrong correction digit, leap exception or boundary constant moves months of single years among ten thousand.',
     ['lunar_python/LunarYear.py', 'lunar_python/util/ShouXingUtil.py'], [('tables', 'LunarYear.getMonths/getMonthsInYear/getLeapMonth/getDayCount'), ('new moons and terms', 'ShouXingUtil.calcShuo/calcQi')], ['tables'],
     'The constant year is propagated through LunarYear and ShouXingUtil; the resulting month lists are compared with the reference tables and with each other.', bounds='years 1..9998 (reform years 8, 236, 237 only for continuity)',
     assumptions=['outside 1900-2049 the reference month lengths are a snapshot of the reviewed tree, cross-checked from 1640 to 5999 by C39'],
     technique='static constant propagation through the Python source (AST), one abstract run per decade, compared with reference tables')
prop('C39', 'Solar terms and new moons are astronomically right',
     'Each of the 31 term moments of a year is the moment at which the apparent solar longitude reaches that multiple of 15 degrees (Beijing time), and from 1640 on each lunar month begins on the civil day of the new moon.',
     ['inputs'], 'terms of years 1..3399 (every 37th and 1992-2031 in quick), months of years 1640..5999', 'Coefficients and time-scale terms matter for certain centuries only.',
     ['lunar_python/util/ShouXingUtil.py', 'lunar_python/LunarYear.py'], [('terms', 'LunarYear.getJieQiJulianDays, ShouXingUtil.qiAccurate2'), ('new moons', 'ShouXingUtil.calcShuo')], ['tables'],
     'The constant year is propagated through the astronomical code; moments are compared with an independent low-precision solar theory (20 minutes) and new-moon series (30 minutes).', bounds='tolerance 20 minutes for terms (2 seconds against the reviewed reference moments of 24 terms in sampled years), 30 minutes for new moons',
     technique='static constant propagation through the Python source (AST), compared with an independent analytical ephemeris')
prop('C25', 'Attributes of lunar years and months, and moving by them, follow their rules',
     'Stem, branch, directions, Tai Sui, nine star, sixty- and twenty-year periods (counted from 1864) and texts of a lunar year follow from its number; the first-month sayings name the day of the first month on which the stem or branch first occurs. Stem, branch, directions, Tai Sui, nine star and text of a lunar month follow from its year, number and position. Moving by n months reaches the n-th following or preceding month including leap months, across any number of years; moving by years adds to the number.',
     ['inputs'], 'years 1..9997 (every 53rd and 1860-2049 in quick), their months; n within +-57 months over sampled years and all phases of the moon', 'Leap months shift positions only in some years; the period counts wrap every 180 years.',
     ['lunar_python/LunarYear.py', 'lunar_python/LunarMonth.py'], [('year attributes', 'LunarYear.get*, LunarYear.next'), ('month attributes', 'LunarMonth.get*, LunarMonth.next')], ['lunaryear'],
     'LunarYear and LunarMonth interpreted over the model sky; compared with independent arithmetic and the independently derived month sequence.', bounds='sampled years in quick; all years in thorough',
     assumptions=['new moons and terms are modelled by uniform motion'])
prop('C27', 'Lunar and civil dates convert to each other without loss',
     'Every existing lunar date corresponds to exactly one civil date (first day of the month plus day number) and back, keeping the time of day; moving a lunar date by n days moves its civil date by n days; lunar months or days that do not exist are refused; all entry points agree. This includes leap months, dates whose civil year differs from the lunar year, and October 1582.',
     ['inputs'], 'all months and days of sampled years under sampled phases of the moon (leap and common), all civil days of three years', 'Year boundaries, leap months and 1582 interact with where the new moons fall.',
     ['lunar_python/Lunar.py', 'lunar_python/Solar.py'], [('conversion', 'Lunar.fromYmdHms/fromYmd/fromSolar/fromDate/getSolar, Solar.getLunar'), ('moving', 'Lunar.next')], ['convert'],
     'Lunar interpreted with a symbolic day in every month of a year of the model sky; compared with the month table and an independent day count.', bounds='nine years x five phases in quick, forty x thirty in thorough',
     assumptions=['new moons and terms are modelled by uniform motion'])
prop('C28', 'Buddhist and Taoist dates follow from the lunar date',
     'The Buddhist year is the lunar year plus 544 and the Taoist year plus 2697, with the same month and day, and building such a date from its numbers is the inverse of its getters. Fast days (first and fifteenth, six days including the 28th of a short month, ten days, those of Guan Yin), Yang Gong days, 27 mansions, monthly observances and commemorations appear exactly on their lunar days (a leap month only where it counts as its month); Taoist assemblies, eight terms, eight meetings, Ming Wu / An Wu and Tian She days follow from lunar day, term, pillar and month. Texts agree and lists belong to the caller.',
     ['inputs'], 'all lunar months (leap and not) and days, month lengths, all day pillars, every day around every term', 'Leap months, short months and pillar coincidences are rare.',
     ['lunar_python/Foto.py', 'lunar_python/Tao.py', 'lunar_python/util/FotoUtil.py', 'lunar_python/util/TaoUtil.py'], [('Buddhist calendar', 'Foto'), ('Taoist calendar', 'Tao')], ['religion', 'tables', 'solar'],
     'Foto and Tao interpreted on lunar dates of every month, day and month length; compared with independent lists and rules.', bounds='titles of single festivals are taken from the package tables')
prop('C33', 'Activities and spirits of a day and time follow from their pillars and month',
     'For every combination of month and day pillar the suitable and unsuitable activities are those of the reference table and depend on the month only through its branch; likewise for the double-hours by day and time pillar, and the spirits by lunar month (a leap month counts as its month) and day pillar. There is always an entry (无 when none), no entry twice, nothing both suitable and unsuitable, and no spirit is auspicious on one day and inauspicious on another. The getters of a date and of its double-hour use the pillars of the chosen convention, and the lists belong to the caller.',
     ['inputs'], 'all 60 x 60 month and day pillars, 60 x 12 double-hours, 24 x 60 lunar month and day pillars; all day pillars x months x four positions for the getters of a date', 'Thousands of table rows decoded by position: a wrong digit or separator spoils single rows.',
     ['lunar_python/util/LunarUtil.py', 'lunar_python/Lunar.py', 'lunar_python/LunarTime.py'], [('tables', 'LunarUtil.getDayYi/getDayJi/getTimeYi/getTimeJi/getDayJiShen/getDayXiongSha'), ('getters', 'Lunar.getDayYi/getDayJi/getTimeYi/getTimeJi/getDayJiShen/getDayXiongSha, LunarTime.getYi/getJi')], ['almanac', 'solar'],
     'The table decoders are interpreted on every key and compared with reference tables; Lunar and LunarTime interpreted for every day pillar, month and kind of position.', bounds='complete over the tables; scenes as in C26',
     assumptions=['the reference rows are those of the reviewed tree (after three repairs), not an independent almanac'])
prop('C17', 'Every getter answers on every date',
     'On every date of the supported range every public getter of solar and lunar dates, double-hours, eight characters, luck periods, stars, terms, Buddhist and Taoist dates returns a value of its kind without raising; texts and lists that always have content are never empty, and only the getters of a current term, dog day or nine return None (outside their periods). The text form is the one toString gives.',
     ['inputs'], 'every month x day pillars x four positions (mid-month, late zi, before/after a term), leap and common lunar months; unusual years with the real astronomy', 'A getter that fails for one pillar, month or position is not met by sampled dates.',
     ['lunar_python/Lunar.py', 'lunar_python/Solar.py', 'lunar_python/EightChar.py', 'lunar_python/LunarTime.py', 'lunar_python/Foto.py', 'lunar_python/Tao.py'], [('getters', 'every public getter without required arguments')], ['siblings', 'solar'],
     'every getter is interpreted on dates of every month, kind of position and (a third of) the day pillars; escaping exceptions, None and wrong kinds are reported.', bounds='day pillars sampled for three of the four positions')
prop('C18', 'Getters that name the same thing agree',
     'The short direction and clash getters equal the day getters, a double-hour object (however obtained) equals the time getters of its date including lists and star, the eight characters equal the exact pillars in every representation, Buddhist and Taoist dates share the texts of their date, and the full texts repeat exactly what the getters return.',
     ['inputs'], 'every month x day pillars x positions; every day of sampled years for solar texts', 'Duplicated code paths (Lunar, LunarTime, EightChar) must stay in step for every pillar.',
     ['lunar_python/Lunar.py', 'lunar_python/LunarTime.py', 'lunar_python/EightChar.py'], [('aliases', 'Lunar.getPosition*/getChong*/getSha, Lunar.getTime*, LunarTime'), ('texts', 'toString, toFullString')], ['siblings', 'solar'],
     'both getters are interpreted on the same abstract date and compared.', bounds='as C17')
prop('C29', 'Dates found from eight characters have those characters',
     'Every date returned for four pillars has exactly these eight characters under the chosen late-zi convention, is not before the base year, and the dates ascend without repetition. The double-hour of any date is among the dates found from its own eight characters (when no jie falls within that double-hour, and the base year is an earlier year), including the day of a jie, both halves of the zi hour and dates at the turn of the year; a month stem that contradicts the year stem finds nothing.',
     ['inputs'], 'all months of sampled years: the day of the jie, the day before, mid-month, late; seven hours; both conventions; base years 1..61 years earlier', 'Boundary days, zi hour, and sixty-year steps interact; tests sample a few dates.',
     ['lunar_python/Solar.py'], [('search', 'Solar.fromBaZi')], ['bazi', 'solar'],
     'fromBaZi is interpreted on the pillars of dates of every month over the model sky (and of a few dates with the real terms), and each returned date is converted back.', bounds='sampled years; jie within the double-hour excepted',
     assumptions=['solar terms and new moons are modelled by uniform motion except in the few real dates', 'the clock is fixed at a year within the next sixty'])
prop('C30', 'Answers depend only on the arguments',
     'Getters are pure: asking any getters in any order, again, or of an equal date gives the same answers, and changing the convention of an eight-character object back and forth or on another object leaves no trace. No answer depends on what was asked before (the cached lunar year in particular), on the clock (except the upper bound of the search by eight characters) or on the iteration order of sets.',
     ['histories'], 'every month x positions x sampled day pillars, all getters in two orders; all ordered pairs of thirty probes covering tables, dates, holidays and utilities', 'Depends on the history of calls; a test sees one order.',
     ['lunar_python/LunarYear.py', 'lunar_python/Lunar.py', 'lunar_python/EightChar.py', 'lunar_python/util/HolidayUtil.py'], [('cache', 'LunarYear.fromYear'), ('conventions', 'EightChar.setSect'), ('getters', 'all public getters')], ['shared', 'neighbours', 'solar'],
     'the getters are interpreted twice in different orders with different clocks and set orders; probes are interpreted before and after every other probe, and results compared.', bounds='histories of length two; sampled dates',
     assumptions=['new moons and terms are modelled by uniform motion'])
prop('C31', 'Results belong to the caller',
     'Whatever a caller does to a list, dictionary or settable object he got from the library (append, clear, rename), later answers of the same object, of equal objects and of the utilities are unchanged.',
     ['histories'], 'all getters of dates, double-hours, eight characters, Buddhist and Taoist dates and luck periods; years, units, holidays and utilities', 'Needs a modification between two calls, through any of some hundred getters.',
     ['lunar_python/Lunar.py', 'lunar_python/LunarYear.py', 'lunar_python/EightChar.py', 'lunar_python/util/LunarUtil.py', 'lunar_python/util/HolidayUtil.py'], [('lists and tables', 'Lunar.getJieQiTable/getJieQiList/getFestivals, LunarYear.getMonths/getJieQiJulianDays, EightChar.get*HideGan, ...')], ['shared', 'solar'],
     'every result is interpreted, destructively changed, and the getter interpreted again on the same and on an equal object (alias-sensitive heap).', bounds='sampled dates of every month')
prop('C32', 'The year cache is safe under threads and failures',
     'If a thread is switched out at any point while a lunar year, date or month is computed and another thread computes one of the same or another year, both get their own correct result, and later calls are right. If any step fails, no lock stays held and later calls work.',
     ['schedules', 'faults'], 'all preemption points outside locks (and after writes under them) of four kinds of calls, three other years, four cache states; a failure in any of the first 60 calls and every 20th up to 700', 'Requires a particular interleaving or a failure at a particular point.',
     ['lunar_python/LunarYear.py'], [('cache', 'LunarYear.fromYear')], ['shared'],
     'the calls are interpreted with one preemption by a complete call of another thread at every point, and with an exception raised at every analysed call; lock state is tracked.', bounds='one preemption, two threads; the interrupting call runs to its end',
     assumptions=['new moons and terms are modelled by uniform motion', 'statements of the package are the preemption points'])
prop('C40', 'Units and small records say what they were given',
     'A solar month, season, half-year, year or week made from a datetime equals the one made from its numbers, and its short, full and str texts contain exactly the year, month and index it has. A solar date made from a datetime has its date and time. What is set on a holiday, term, dog-day or nine record is read back, shows in its texts and leaves the other fields alone; a term is a jie or a qi by its name. The double-hour of a clock text is the one containing that minute, and the number, decade and void branches of a stem-branch text are those of the sixty-cycle (-1 when it is no such pair).',
     ['inputs'], 'all dates of years 1..9999 (weeks: both usual week starts, every weekday of the first of the month; holidays: years 1000..9999), all minutes of the day, all sixty pairs', 'Quantifies over all dates; the index in a text depends on month and weekday alignment.',
     ['lunar_python/SolarMonth.py', 'lunar_python/SolarSeason.py', 'lunar_python/SolarHalfYear.py', 'lunar_python/SolarYear.py', 'lunar_python/SolarWeek.py', 'lunar_python/Holiday.py', 'lunar_python/Fu.py', 'lunar_python/ShuJiu.py', 'lunar_python/JieQi.py', 'lunar_python/util/LunarUtil.py'],
     [('unit texts', 'toString/toFullString/fromDate of the unit classes'), ('records', 'setters of Holiday, JieQi, Fu, ShuJiu'), ('clock and pair texts', 'LunarUtil.convertTime/getTimeZhiIndex/getJiaZiIndex/getXun')], ['records', 'solar'],
     'the unit and record classes are interpreted on symbolic dates and numbers and their texts compared piece by piece.', bounds='complete for years 1..9999 (weeks 3..9997)')
prop('C41', 'Answers depend on the arguments alone, without outside effects',
     'The library needs nothing but the Python standard library and acts only on its arguments. No function reads or writes files, network, standard streams, environment variables or interpreter settings, draws random numbers, runs text as code, or gives an answer that depends on the time zone, locale, hash seed or object addresses of the process, now or at import. The clock is read in one place only: for the default last year of the search for dates from eight characters, at the time of the call.',
     ['inputs', 'histories'], 'all functions of the package and all code run at import, on every path', 'A test sees one machine, one clock, one time zone and one hash seed; the absence of an effect on every path cannot be sampled.',
     ['lunar_python/Solar.py', 'lunar_python/Lunar.py', 'lunar_python/LunarYear.py', 'lunar_python/util/LunarUtil.py', 'lunar_python/util/HolidayUtil.py', 'lunar_python/util/ShouXingUtil.py'],
     [('the only clock read', 'Solar.fromBaZiBySectAndBaseYear'), ('imports', 'lunar_python/*.py'), ('conversion from datetime', 'Solar.fromDate')], [],
     'effect analysis over every function: names resolved through imports and module aliases, uses of effectful library names, built-ins and methods reported at the construct, clock reads followed through the name-based call graph to the public functions that reach them, iteration order of sets tracked within functions, classes and modules.',
     lints=['effects'], bounds='sound for names reached through imports, module-level aliases and attributes; reflection is not followed',
     technique='syntax-tree effect analysis with import resolution and name-based call-graph reachability')
