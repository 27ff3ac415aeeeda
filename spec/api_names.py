# -*- coding: utf-8 -*-
"""names of the functions of the package when it was reviewed (none but the search from eight characters may depend on the clock)"""
NAMES = frozenset("""
__buildHolidayBackward
__buildHolidayForward
__compute
__computeDay
__computeJieQi
__computeMonth
__computeTime
__computeWeek
__computeYear
__compute_start
__convertJieQi
__decode
__findBackward
__findForward
__findHolidaysBackward
__findHolidaysForward
__getDayPositionTaiSui
__getDiShi
__getHoliday
__getHolidays
__getHolidaysByTarget
__getMonthNineStar
__getMonthPositionTaiSui
__getNearJieQi
__getShiShenZhi
__getYearNineStar
__getZaoByGan
__getZaoByZhi
__hex
__init__
__isDayIn
__padding
__str__
__ymd
calcQi
calcShuo
compute
convertTime
dtCalc
dtExt
dtT
eLon
ev
find
fix
fromDate
fromIndex
fromJulianDay
fromLunar
fromSolar
fromYear
fromYm
fromYmd
fromYmdHms
getAge
getAnimal
getBaMenInQiMen
getBaZi
getBaZiNaYin
getBaZiShiShenDayZhi
getBaZiShiShenGan
getBaZiShiShenMonthZhi
getBaZiShiShenTimeZhi
getBaZiShiShenYearZhi
getBaZiShiShenZhi
getBaZiWuXing
getCaoZi
getChong
getChongDesc
getChongGan
getChongGanTie
getChongShengXiao
getColor
getCurrentJie
getCurrentJieQi
getCurrentQi
getDaYun
getDay
getDayChong
getDayChongDesc
getDayChongGan
getDayChongGanTie
getDayChongShengXiao
getDayCount
getDayDiShi
getDayGan
getDayGanExact
getDayGanExact2
getDayGanIndex
getDayGanIndexExact
getDayGanIndexExact2
getDayHideGan
getDayInChinese
getDayInGanZhi
getDayInGanZhiExact
getDayInGanZhiExact2
getDayJi
getDayJiShen
getDayLu
getDayNaYin
getDayNineStar
getDayPositionCai
getDayPositionCaiDesc
getDayPositionFu
getDayPositionFuDesc
getDayPositionTai
getDayPositionTaiSui
getDayPositionTaiSuiDesc
getDayPositionXi
getDayPositionXiDesc
getDayPositionYangGui
getDayPositionYangGuiDesc
getDayPositionYinGui
getDayPositionYinGuiDesc
getDaySha
getDayShengXiao
getDayShiShenGan
getDayShiShenZhi
getDayTianShen
getDayTianShenLuck
getDayTianShenType
getDayWuXing
getDayXiongSha
getDayXun
getDayXunExact
getDayXunExact2
getDayXunKong
getDayXunKongExact
getDayXunKongExact2
getDayYi
getDayZhi
getDayZhiExact
getDayZhiExact2
getDayZhiIndex
getDayZhiIndexExact
getDayZhiIndexExact2
getDays
getDaysBetween
getDaysInMonth
getDaysInYear
getDaysOfMonth
getDaysOfYear
getDeJin
getEightChar
getEndAge
getEndYear
getFenBing
getFestivals
getFirstDay
getFirstDayInMonth
getFirstJulianDay
getFoto
getFu
getGan
getGanIndex
getGanZhi
getGender
getGengTian
getGong
getGongZhu
getHoliday
getHolidays
getHolidaysByTarget
getHou
getHour
getHuaShou
getIndex
getIndexInYear
getJi
getJiaTian
getJiaZiIndex
getJie
getJieQi
getJieQiJulianDays
getJieQiList
getJieQiTable
getJulianDay
getKanCan
getLeapMonth
getLiuNian
getLiuYao
getLiuYue
getLuckInQiMen
getLuckInXuanKong
getLunar
getMaxHm
getMinHm
getMingGong
getMingGongNaYin
getMinute
getMonth
getMonthDiShi
getMonthGan
getMonthGanExact
getMonthGanIndex
getMonthGanIndexExact
getMonthHideGan
getMonthInChinese
getMonthInGanZhi
getMonthInGanZhiExact
getMonthNaYin
getMonthNineStar
getMonthPositionTai
getMonthPositionTaiSui
getMonthPositionTaiSuiDesc
getMonthShengXiao
getMonthShengXiaoExact
getMonthShiShenGan
getMonthShiShenZhi
getMonthWuXing
getMonthXun
getMonthXunExact
getMonthXunKong
getMonthXunKongExact
getMonthZhi
getMonthZhiExact
getMonthZhiIndex
getMonthZhiIndexExact
getMonths
getMonthsInYear
getNaYin
getName
getNameInBeiDou
getNameInQiMen
getNameInTaiYi
getNameInXuanKong
getNextJie
getNextJieQi
getNextQi
getNineStar
getNumber
getOtherFestivals
getPengZuGan
getPengZuZhi
getPosition
getPositionCai
getPositionCaiDesc
getPositionDesc
getPositionFu
getPositionFuDesc
getPositionTaiSui
getPositionTaiSuiDesc
getPositionXi
getPositionXiDesc
getPositionYangGui
getPositionYangGuiDesc
getPositionYinGui
getPositionYinGuiDesc
getPrevJie
getPrevJieQi
getPrevQi
getQi
getQiangMi
getRemark
getRenBing
getRenChu
getResult
getSeason
getSecond
getSect
getSha
getShenGong
getShenGongNaYin
getShengXiao
getShou
getShuJiu
getSolar
getSongInTaiYi
getStart
getStartAge
getStartDay
getStartHour
getStartMonth
getStartSolar
getStartYear
getTaiXi
getTaiXiNaYin
getTaiYuan
getTaiYuanNaYin
getTao
getTarget
getTianShen
getTianShenLuck
getTianShenType
getTime
getTimeChong
getTimeChongDesc
getTimeChongGan
getTimeChongGanTie
getTimeChongShengXiao
getTimeDiShi
getTimeGan
getTimeGanIndex
getTimeHideGan
getTimeInGanZhi
getTimeJi
getTimeNaYin
getTimeNineStar
getTimePositionCai
getTimePositionCaiDesc
getTimePositionFu
getTimePositionFuDesc
getTimePositionXi
getTimePositionXiDesc
getTimePositionYangGui
getTimePositionYangGuiDesc
getTimePositionYinGui
getTimePositionYinGuiDesc
getTimeSha
getTimeShengXiao
getTimeShiShenGan
getTimeShiShenZhi
getTimeTianShen
getTimeTianShenLuck
getTimeTianShenType
getTimeWuXing
getTimeXun
getTimeXunKong
getTimeYi
getTimeZhi
getTimeZhiIndex
getTimes
getTouLiang
getTuoGu
getTypeInTaiYi
getWeek
getWeekInChinese
getWeeks
getWeeksOfMonth
getWuHou
getWuXing
getXiaoYun
getXingZuo
getXiu
getXiuLuck
getXiuSong
getXun
getXunIndex
getXunKong
getYear
getYearDiShi
getYearGan
getYearGanByLiChun
getYearGanExact
getYearGanIndex
getYearGanIndexByLiChun
getYearGanIndexExact
getYearHideGan
getYearInChinese
getYearInGanZhi
getYearInGanZhiByLiChun
getYearInGanZhiExact
getYearNaYin
getYearNineStar
getYearPositionTaiSui
getYearPositionTaiSuiDesc
getYearShengXiao
getYearShengXiaoByLiChun
getYearShengXiaoExact
getYearShiShenGan
getYearShiShenZhi
getYearWuXing
getYearXun
getYearXunByLiChun
getYearXunExact
getYearXunKong
getYearXunKongByLiChun
getYearXunKongExact
getYearZhi
getYearZhiByLiChun
getYearZhiExact
getYearZhiIndex
getYearZhiIndexByLiChun
getYearZhiIndexExact
getYi
getYinYangInQiMen
getYuan
getYueXiang
getYun
getZheng
getZhi
getZhiIndex
getZhiShui
getZhiXing
gxcSunLon
isAfter
isBefore
isDayAnWu
isDayBaHui
isDayBaJie
isDayMingWu
isDaySanHui
isDaySanYuan
isDayTianShe
isDayWu
isDayWuLa
isDayYangGong
isDayZhaiGuanYin
isDayZhaiShuoWang
isDayZhaiSix
isDayZhaiTen
isEveryMonth
isForward
isJie
isLeap
isLeapYear
isMonthZhai
isQi
isWork
mLon
msaLon
msaLonT
msaLonT2
mv
next
nextDay
nextHour
nextMonth
nextYear
nutationLon2
qiAccurate
qiAccurate2
qiHigh
qiLow
saLon
saLonT
saLonT2
setDay
setIndex
setName
setSect
setSolar
setTarget
setWork
shuoHigh
shuoLow
subtract
subtractMinute
toFullString
toString
toYmd
toYmdHms
""".split())
