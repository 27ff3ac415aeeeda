# -*- coding: utf-8 -*-
"""public getters by class and kind of result"""
GETTERS = {
    'DaYun': {
        'int': 'getEndAge getEndYear getIndex getStartAge getStartYear',
        'list': 'getLiuNian getXiaoYun',
        'object': 'getLunar',
        'str': 'getGanZhi getXun getXunKong',
    },
    'EightChar': {
        'int': 'getDayGanIndex getDayZhiIndex getSect',
        'list': 'getDayHideGan getDayShiShenZhi getMonthHideGan getMonthShiShenZhi getTimeHideGan getTimeShiShenZhi getYearHideGan getYearShiShenZhi',
        'object': 'getLunar',
        'str': 'getDay getDayDiShi getDayGan getDayNaYin getDayShiShenGan getDayWuXing getDayXun getDayXunKong getDayZhi getMingGong getMingGongNaYin getMonth getMonthDiShi getMonthGan getMonthNaYin getMonthShiShenGan getMonthWuXing getMonthXun getMonthXunKong getMonthZhi getShenGong getShenGongNaYin getTaiXi getTaiXiNaYin getTaiYuan getTaiYuanNaYin getTime getTimeDiShi getTimeGan getTimeNaYin getTimeShiShenGan getTimeWuXing getTimeXun getTimeXunKong getTimeZhi getYear getYearDiShi getYearGan getYearNaYin getYearShiShenGan getYearWuXing getYearXun getYearXunKong getYearZhi toString',
    },
    'Foto': {
        'bool': 'isDayYangGong isDayZhaiGuanYin isDayZhaiShuoWang isDayZhaiSix isDayZhaiTen isMonthZhai',
        'int': 'getDay getMonth getYear',
        'list': 'getFestivals getOtherFestivals',
        'object': 'getLunar',
        'str': 'getAnimal getDayInChinese getGong getMonthInChinese getShou getXiu getXiuLuck getXiuSong getYearInChinese getZheng toFullString toString',
    },
    'FotoFestival': {
        'bool': 'isEveryMonth',
        'str': 'getName getRemark getResult toFullString toString',
    },
    'Fu': {
        'int': 'getIndex',
        'str': 'getName toFullString toString',
    },
    'JieQi': {
        'bool': 'isJie isQi',
        'object': 'getSolar',
        'str': 'getName toString',
    },
    'LiuNian': {
        'int': 'getAge getIndex getYear',
        'list': 'getLiuYue',
        'str': 'getGanZhi getXun getXunKong',
    },
    'LiuYue': {
        'int': 'getIndex',
        'str': 'getGanZhi getMonthInChinese getXun getXunKong',
    },
    'Lunar': {
        'dict': 'getJieQiTable',
        'int': 'getDay getDayGanIndex getDayGanIndexExact getDayGanIndexExact2 getDayZhiIndex getDayZhiIndexExact getDayZhiIndexExact2 getHour getMinute getMonth getMonthGanIndex getMonthGanIndexExact getMonthZhiIndex getMonthZhiIndexExact getSecond getTimeGanIndex getTimeZhiIndex getWeek getYear getYearGanIndex getYearGanIndexByLiChun getYearGanIndexExact getYearZhiIndex getYearZhiIndexByLiChun getYearZhiIndexExact',
        'list': 'getBaZi getBaZiNaYin getBaZiShiShenDayZhi getBaZiShiShenGan getBaZiShiShenMonthZhi getBaZiShiShenTimeZhi getBaZiShiShenYearZhi getBaZiShiShenZhi getBaZiWuXing getDayJi getDayJiShen getDayXiongSha getDayYi getFestivals getJieQiList getOtherFestivals getTimeJi getTimeYi getTimes',
        'object': 'getCurrentJie getCurrentJieQi getCurrentQi getDayNineStar getEightChar getFoto getFu getMonthNineStar getNextJie getNextJieQi getNextQi getPrevJie getPrevJieQi getPrevQi getShuJiu getSolar getTao getTime getTimeNineStar getYearNineStar',
        'str': 'getAnimal getChong getChongDesc getChongGan getChongGanTie getChongShengXiao getDayChong getDayChongDesc getDayChongGan getDayChongGanTie getDayChongShengXiao getDayGan getDayGanExact getDayGanExact2 getDayInChinese getDayInGanZhi getDayInGanZhiExact getDayInGanZhiExact2 getDayLu getDayNaYin getDayPositionCai getDayPositionCaiDesc getDayPositionFu getDayPositionFuDesc getDayPositionTai getDayPositionTaiSui getDayPositionTaiSuiDesc getDayPositionXi getDayPositionXiDesc getDayPositionYangGui getDayPositionYangGuiDesc getDayPositionYinGui getDayPositionYinGuiDesc getDaySha getDayShengXiao getDayTianShen getDayTianShenLuck getDayTianShenType getDayXun getDayXunExact getDayXunExact2 getDayXunKong getDayXunKongExact getDayXunKongExact2 getDayZhi getDayZhiExact getDayZhiExact2 getGong getHou getJie getJieQi getLiuYao getMonthGan getMonthGanExact getMonthInChinese getMonthInGanZhi getMonthInGanZhiExact getMonthNaYin getMonthPositionTai getMonthPositionTaiSui getMonthPositionTaiSuiDesc getMonthShengXiao getMonthShengXiaoExact getMonthXun getMonthXunExact getMonthXunKong getMonthXunKongExact getMonthZhi getMonthZhiExact getPengZuGan getPengZuZhi getPositionCai getPositionCaiDesc getPositionFu getPositionFuDesc getPositionXi getPositionXiDesc getPositionYangGui getPositionYangGuiDesc getPositionYinGui getPositionYinGuiDesc getQi getSeason getSha getShou getTimeChong getTimeChongDesc getTimeChongGan getTimeChongGanTie getTimeChongShengXiao getTimeGan getTimeInGanZhi getTimeNaYin getTimePositionCai getTimePositionCaiDesc getTimePositionFu getTimePositionFuDesc getTimePositionXi getTimePositionXiDesc getTimePositionYangGui getTimePositionYangGuiDesc getTimePositionYinGui getTimePositionYinGuiDesc getTimeSha getTimeShengXiao getTimeTianShen getTimeTianShenLuck getTimeTianShenType getTimeXun getTimeXunKong getTimeZhi getWeekInChinese getWuHou getXiu getXiuLuck getXiuSong getYearGan getYearGanByLiChun getYearGanExact getYearInChinese getYearInGanZhi getYearInGanZhiByLiChun getYearInGanZhiExact getYearNaYin getYearPositionTaiSui getYearPositionTaiSuiDesc getYearShengXiao getYearShengXiaoByLiChun getYearShengXiaoExact getYearXun getYearXunByLiChun getYearXunExact getYearXunKong getYearXunKongByLiChun getYearXunKongExact getYearZhi getYearZhiByLiChun getYearZhiExact getYueXiang getZheng getZhiXing toFullString toString',
    },
    'LunarTime': {
        'int': 'getGanIndex getZhiIndex',
        'list': 'getJi getYi',
        'object': 'getNineStar',
        'str': 'getChong getChongDesc getChongGan getChongGanTie getChongShengXiao getGan getGanZhi getMaxHm getMinHm getNaYin getPositionCai getPositionCaiDesc getPositionFu getPositionFuDesc getPositionXi getPositionXiDesc getPositionYangGui getPositionYangGuiDesc getPositionYinGui getPositionYinGuiDesc getSha getShengXiao getTianShen getTianShenLuck getTianShenType getXun getXunKong getZhi toString',
    },
    'NineStar': {
        'int': 'getIndex',
        'str': 'getBaMenInQiMen getColor getLuckInQiMen getLuckInXuanKong getNameInBeiDou getNameInQiMen getNameInTaiYi getNameInXuanKong getNumber getPosition getPositionDesc getSongInTaiYi getTypeInTaiYi getWuXing getYinYangInQiMen toFullString toString',
    },
    'ShuJiu': {
        'int': 'getIndex',
        'str': 'getName toFullString toString',
    },
    'Solar': {
        'bool': 'isLeapYear',
        'float': 'getJulianDay',
        'int': 'getDay getHour getMinute getMonth getSecond getWeek getYear',
        'list': 'getFestivals getOtherFestivals',
        'object': 'getLunar',
        'str': 'getWeekInChinese getXingZuo toFullString toString toYmd toYmdHms',
    },
    'Tao': {
        'bool': 'isDayAnWu isDayBaHui isDayBaJie isDayMingWu isDaySanHui isDaySanYuan isDayTianShe isDayWu isDayWuLa',
        'int': 'getDay getMonth getYear',
        'list': 'getFestivals',
        'object': 'getLunar',
        'str': 'getDayInChinese getMonthInChinese getYearInChinese toFullString toString',
    },
    'TaoFestival': {
        'str': 'getName getRemark toFullString toString',
    },
    'XiaoYun': {
        'int': 'getAge getIndex getYear',
        'str': 'getGanZhi getXun getXunKong',
    },
    'Yun': {
        'bool': 'isForward',
        'int': 'getGender getStartDay getStartHour getStartMonth getStartYear',
        'list': 'getDaYun',
        'object': 'getLunar getStartSolar',
    },
}
