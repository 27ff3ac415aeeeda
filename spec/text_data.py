# -*- coding: utf-8 -*-
"""reference texts: sayings, verses, festival titles (reviewed copy, the oracle of the text obligations)"""
PENG_ZU_GAN = ['甲不开仓财物耗散', '乙不栽植千株不长', '丙不修灶必见灾殃', '丁不剃头头必生疮', '戊不受田田主不祥', '己不破券二比并亡', '庚不经络织机虚张', '辛不合酱主人不尝', '壬不泱水更难提防', '癸不词讼理弱敌强']
PENG_ZU_ZHI = ['子不问卜自惹祸殃', '丑不冠带主不还乡', '寅不祭祀神鬼不尝', '卯不穿井水泉不香', '辰不哭泣必主重丧', '巳不远行财物伏藏', '午不苫盖屋主更张', '未不服药毒气入肠', '申不安床鬼祟入房', '酉不会客醉坐颠狂', '戌不吃犬作怪上床', '亥不嫁娶不利新郎']
XIU_VERSE = {'角': '角星造作主荣昌，外进田财及女郎，嫁娶婚姻出贵子，文人及第见君王，惟有埋葬不可用，三年之后主瘟疫，起工修筑坟基地，堂前立见主人凶。',
 '亢': '亢星造作长房当，十日之中主有殃，田地消磨官失职，接运定是虎狼伤，嫁娶婚姻用此日，儿孙新妇守空房，埋葬若还用此日，当时害祸主重伤。',
 '氐': '氐星造作主灾凶，费尽田园仓库空，埋葬不可用此日，悬绳吊颈祸重重，若是婚姻离别散，夜招浪子入房中，行船必定遭沉没，更生聋哑子孙穷。',
 '房': '房星造作田园进，钱财牛马遍山岗，更招外处田庄宅，荣华富贵福禄康，埋葬若然用此日，高官进职拜君王，嫁娶嫦娥至月殿，三年抱子至朝堂。',
 '心': '心星造作大为凶，更遭刑讼狱囚中，忤逆官非宅产退，埋葬卒暴死相从，婚姻若是用此日，子死儿亡泪满胸，三年之内连遭祸，事事教君没始终。',
 '尾': '尾星造作主天恩，富贵荣华福禄增，招财进宝兴家宅，和合婚姻贵子孙，埋葬若能依此日，男清女正子孙兴，开门放水招田宅，代代公侯远播名。',
 '箕': '箕星造作主高强，岁岁年年大吉昌，埋葬修坟大吉利，田蚕牛马遍山岗，开门放水招田宅，箧满金银谷满仓，福荫高官加禄位，六亲丰禄乐安康。',
 '斗': '斗星造作主招财，文武官员位鼎台，田宅家财千万进，坟堂修筑贵富来，开门放水招牛马，旺蚕男女主和谐，遇此吉宿来照护，时支福庆永无灾。',
 '牛': '牛星造作主灾危，九横三灾不可推，家宅不安人口退，田蚕不利主人衰，嫁娶婚姻皆自损，金银财谷渐无之，若是开门并放水，牛猪羊马亦伤悲。',
 '女': '女星造作损婆娘，兄弟相嫌似虎狼，埋葬生灾逢鬼怪，颠邪疾病主瘟惶，为事遭官财失散，泻利留连不可当，开门放水用此日，全家财散主离乡。',
 '虚': '虚星造作主灾殃，男女孤眠不一双，内乱风声无礼节，儿孙媳妇伴人床，开门放水遭灾祸，虎咬蛇伤又卒亡，三三五五连年病，家破人亡不可当。',
 '危': '危星不可造高楼，自遭刑吊见血光，三年孩子遭水厄，后生出外永不还，埋葬若还逢此日，周年百日取高堂，三年两载一悲伤，开门放水到官堂。',
 '室': '室星修造进田牛，儿孙代代近王侯，家贵荣华天上至，寿如彭祖八千秋，开门放水招财帛，和合婚姻生贵儿，埋葬若能依此日，门庭兴旺福无休。',
 '壁': '壁星造作主增财，丝蚕大熟福滔天，奴婢自来人口进，开门放水出英贤，埋葬招财官品进，家中诸事乐陶然，婚姻吉利主贵子，早播名誉著祖鞭。',
 '奎': '奎星造作得祯祥，家内荣和大吉昌，若是埋葬阴卒死，当年定主两三伤，看看军令刑伤到，重重官事主瘟惶，开门放水遭灾祸，三年两次损儿郎。',
 '娄': '娄星修造起门庭，财旺家和事事兴，外进钱财百日进，一家兄弟播高名，婚姻进益生贵子，玉帛金银箱满盈，放水开门皆吉利，男荣女贵寿康宁。',
 '胃': '胃星造作事如何，家贵荣华喜气多，埋葬贵临官禄位，夫妇齐眉永保康，婚姻遇此家富贵，三灾九祸不逢他，从此门前多吉庆，儿孙代代拜金阶。',
 '昴': '昴星造作进田牛，埋葬官灾不得休，重丧二日三人死，尽卖田园不记增，开门放水招灾祸，三岁孩儿白了头，婚姻不可逢此日，死别生离是可愁。',
 '毕': '毕星造作主光前，买得田园有余钱，埋葬此日添官职，田蚕大熟永丰年，开门放水多吉庆，合家人口得安然，婚姻若得逢此日，生得孩儿福寿全。',
 '觜': '觜星造作有徒刑，三年必定主伶丁，埋葬卒死多因此，取定寅年使杀人，三丧不止皆由此，一人药毒二人身，家门田地皆退败，仓库金银化作尘。',
 '参': '参星造作旺人家，文星照耀大光华，只因造作田财旺，埋葬招疾哭黄沙，开门放水加官职，房房子孙见田加，婚姻许遁遭刑克，男女朝开幕落花。',
 '井': '井星造作旺蚕田，金榜题名第一光，埋葬须防惊卒死，狂颠风疾入黄泉，开门放水招财帛，牛马猪羊旺莫言，贵人田塘来入宅，儿孙兴旺有余钱。',
 '鬼': '鬼星起造卒人亡，堂前不见主人郎，埋葬此日官禄至，儿孙代代近君王，开门放水须伤死，嫁娶夫妻不久长，修土筑墙伤产女，手扶双女泪汪汪。',
 '柳': '柳星造作主遭官，昼夜偷闭不暂安，埋葬瘟惶多疾病，田园退尽守冬寒，开门放水遭聋瞎，腰驼背曲似弓弯，更有棒刑宜谨慎，妇人随客走盘桓。',
 '星': '星宿日好造新房，进职加官近帝王，不可埋葬并放水，凶星临位女人亡，生离死别无心恋，要自归休别嫁郎，孔子九曲殊难度，放水开门天命伤。',
 '张': '张星日好造龙轩，年年并见进庄田，埋葬不久升官职，代代为官近帝前，开门放水招财帛，婚姻和合福绵绵，田蚕人满仓库满，百般顺意自安然。',
 '翼': '翼星不利架高堂，三年二载见瘟惶，埋葬若还逢此日，子孙必定走他乡，婚姻此日不宜利，归家定是不相当，开门放水家须破，少女恋花贪外郎。',
 '轸': '轸星临水造龙宫，代代为官受皇封，富贵荣华增寿禄，库满仓盈自昌隆，埋葬文昌来照助，宅舍安宁不见凶，更有为官沾帝宠，婚姻龙子入龙宫。'}
STAR_VERSE = ['门中太乙明，星官号贪狼，赌彩财喜旺，婚姻大吉昌，出入无阻挡，参谒见贤良，此行三五里，黑衣别阴阳。',
 '门前见摄提，百事必忧疑，相生犹自可，相克祸必临，死门并相会，老妇哭悲啼，求谋并吉事，尽皆不相宜，只可藏隐遁，若动伤身疾。',
 '出入会轩辕，凡事必缠牵，相生全不美，相克更忧煎，远行多不利，博彩尽输钱，九天玄女法，句句不虚言。',
 '招摇号木星，当之事莫行，相克行人阻，阴人口舌迎，梦寐多惊惧，屋响斧自鸣，阴阳消息理，万法弗违情。',
 '五鬼为天符，当门阴女谋，相克无好事，行路阻中途，走失难寻觅，道逢有尼姑，此星当门值，万事有灾除。',
 '神光跃青龙，财气喜重重，投入有酒食，赌彩最兴隆，更逢相生旺，休言克破凶，见贵安营寨，万事总吉同。',
 '吾将为咸池，当之尽不宜，出入多不利，相克有灾情，赌彩全输尽，求财空手回，仙人真妙语，愚人莫与知，动用虚惊退，反复逆风吹。',
 '坐临太阴星，百祸不相侵，求谋悉成就，知交有觅寻，回风归来路，恐有殃伏起，密语中记取，慎乎莫轻行。',
 '迎来天乙星，相逢百事兴，运用和合庆，茶酒喜相迎，求谋并嫁娶，好合有天成，祸福如神验，吉凶甚分明。']
SOLAR_FESTIVAL = {'1-1': '元旦节',
 '2-14': '情人节',
 '3-8': '妇女节',
 '3-12': '植树节',
 '3-15': '消费者权益日',
 '4-1': '愚人节',
 '5-1': '劳动节',
 '5-4': '青年节',
 '6-1': '儿童节',
 '7-1': '建党节',
 '8-1': '建军节',
 '9-10': '教师节',
 '10-1': '国庆节',
 '12-24': '平安夜',
 '12-25': '圣诞节',
 '10-31': '万圣节前夜',
 '11-1': '万圣节'}
WEEK_FESTIVAL = {'3-0-1': '全国中小学生安全教育日', '5-2-0': '母亲节', '5-3-0': '全国助残日', '6-3-0': '父亲节', '9-3-6': '全民国防教育日', '10-1-1': '世界住房日', '11-4-4': '感恩节'}
SOLAR_OTHER = {'1-8': ['周恩来逝世纪念日'],
 '1-10': ['中国人民警察节'],
 '1-14': ['日记情人节'],
 '1-21': ['列宁逝世纪念日'],
 '1-26': ['国际海关日'],
 '1-27': ['国际大屠杀纪念日'],
 '2-2': ['世界湿地日'],
 '2-4': ['世界抗癌日'],
 '2-7': ['京汉铁路罢工纪念日'],
 '2-10': ['国际气象节'],
 '2-19': ['邓小平逝世纪念日'],
 '2-20': ['世界社会公正日'],
 '2-21': ['国际母语日'],
 '2-24': ['第三世界青年日'],
 '3-1': ['国际海豹日'],
 '3-3': ['世界野生动植物日', '全国爱耳日'],
 '3-5': ['周恩来诞辰纪念日', '中国青年志愿者服务日'],
 '3-6': ['世界青光眼日'],
 '3-7': ['女生节'],
 '3-12': ['孙中山逝世纪念日'],
 '3-14': ['马克思逝世纪念日', '白色情人节'],
 '3-17': ['国际航海日'],
 '3-18': ['全国科技人才活动日', '全国爱肝日'],
 '3-20': ['国际幸福日'],
 '3-21': ['世界森林日', '世界睡眠日', '国际消除种族歧视日'],
 '3-22': ['世界水日'],
 '3-23': ['世界气象日'],
 '3-24': ['世界防治结核病日'],
 '3-29': ['中国黄花岗七十二烈士殉难纪念日'],
 '4-2': ['国际儿童图书日', '世界自闭症日'],
 '4-4': ['国际地雷行动日'],
 '4-7': ['世界卫生日'],
 '4-8': ['国际珍稀动物保护日'],
 '4-12': ['世界航天日'],
 '4-14': ['黑色情人节'],
 '4-15': ['全民国家安全教育日'],
 '4-22': ['世界地球日', '列宁诞辰纪念日'],
 '4-23': ['世界读书日'],
 '4-24': ['中国航天日'],
 '4-25': ['儿童预防接种宣传日'],
 '4-26': ['世界知识产权日', '全国疟疾日'],
 '4-28': ['世界安全生产与健康日'],
 '4-30': ['全国交通安全反思日'],
 '5-2': ['世界金枪鱼日'],
 '5-3': ['世界新闻自由日'],
 '5-5': ['马克思诞辰纪念日'],
 '5-8': ['世界红十字日'],
 '5-11': ['世界肥胖日'],
 '5-12': ['全国防灾减灾日', '护士节'],
 '5-14': ['玫瑰情人节'],
 '5-15': ['国际家庭日'],
 '5-19': ['中国旅游日'],
 '5-20': ['网络情人节'],
 '5-22': ['国际生物多样性日'],
 '5-25': ['525心理健康节'],
 '5-27': ['上海解放日'],
 '5-29': ['国际维和人员日'],
 '5-30': ['中国五卅运动纪念日'],
 '5-31': ['世界无烟日'],
 '6-3': ['世界自行车日'],
 '6-5': ['世界环境日'],
 '6-6': ['全国爱眼日'],
 '6-8': ['世界海洋日'],
 '6-11': ['中国人口日'],
 '6-14': ['世界献血日', '亲亲情人节'],
 '6-17': ['世界防治荒漠化与干旱日'],
 '6-20': ['世界难民日'],
 '6-21': ['国际瑜伽日'],
 '6-25': ['全国土地日'],
 '6-26': ['国际禁毒日', '联合国宪章日'],
 '7-1': ['香港回归纪念日'],
 '7-6': ['国际接吻日', '朱德逝世纪念日'],
 '7-7': ['七七事变纪念日'],
 '7-11': ['世界人口日', '中国航海日'],
 '7-14': ['银色情人节'],
 '7-18': ['曼德拉国际日'],
 '7-30': ['国际友谊日'],
 '8-3': ['男人节'],
 '8-5': ['恩格斯逝世纪念日'],
 '8-6': ['国际电影节'],
 '8-8': ['全民健身日'],
 '8-9': ['国际土著人日'],
 '8-12': ['国际青年节'],
 '8-14': ['绿色情人节'],
 '8-19': ['世界人道主义日', '中国医师节'],
 '8-22': ['邓小平诞辰纪念日'],
 '8-29': ['全国测绘法宣传日'],
 '9-3': ['中国抗日战争胜利纪念日'],
 '9-5': ['中华慈善日'],
 '9-8': ['世界扫盲日'],
 '9-9': ['毛泽东逝世纪念日', '全国拒绝酒驾日'],
 '9-14': ['世界清洁地球日', '相片情人节'],
 '9-15': ['国际民主日'],
 '9-16': ['国际臭氧层保护日'],
 '9-17': ['世界骑行日'],
 '9-18': ['九一八事变纪念日'],
 '9-20': ['全国爱牙日'],
 '9-21': ['国际和平日'],
 '9-27': ['世界旅游日'],
 '9-30': ['中国烈士纪念日'],
 '10-1': ['国际老年人日'],
 '10-2': ['国际非暴力日'],
 '10-4': ['世界动物日'],
 '10-11': ['国际女童日'],
 '10-10': ['辛亥革命纪念日'],
 '10-13': ['国际减轻自然灾害日', '中国少年先锋队诞辰日'],
 '10-14': ['葡萄酒情人节'],
 '10-16': ['世界粮食日'],
 '10-17': ['全国扶贫日'],
 '10-20': ['世界统计日'],
 '10-24': ['世界发展信息日', '程序员节'],
 '10-25': ['抗美援朝纪念日'],
 '11-5': ['世界海啸日'],
 '11-8': ['记者节'],
 '11-9': ['全国消防日'],
 '11-11': ['光棍节'],
 '11-12': ['孙中山诞辰纪念日'],
 '11-14': ['电影情人节'],
 '11-16': ['国际宽容日'],
 '11-17': ['国际大学生节'],
 '11-19': ['世界厕所日'],
 '11-28': ['恩格斯诞辰纪念日'],
 '11-29': ['国际声援巴勒斯坦人民日'],
 '12-1': ['世界艾滋病日'],
 '12-2': ['全国交通安全日'],
 '12-3': ['世界残疾人日'],
 '12-4': ['全国法制宣传日'],
 '12-5': ['世界弱能人士日', '国际志愿人员日'],
 '12-7': ['国际民航日'],
 '12-9': ['世界足球日', '国际反腐败日'],
 '12-10': ['世界人权日'],
 '12-11': ['国际山岳日'],
 '12-12': ['西安事变纪念日'],
 '12-13': ['国家公祭日'],
 '12-14': ['拥抱情人节'],
 '12-18': ['国际移徙者日'],
 '12-26': ['毛泽东诞辰纪念日']}
FOTO_FESTIVAL = {'1-1': [('天腊，玉帝校世人神气禄命', '犯者削禄夺纪', False, ''), ('月朔', '犯者夺纪', True, '')],
 '1-3': [('万神都会', '犯者夺纪', False, ''), ('斗降', '犯者夺纪', True, '')],
 '1-5': [('五虚忌', '', False, '')],
 '1-6': [('六耗忌', '', False, ''), ('雷斋日', '犯者减寿', True, '')],
 '1-7': [('上会日', '犯者损寿', False, '')],
 '1-8': [('五殿阎罗天子诞', '犯者夺纪', False, ''), ('四天王巡行', '', True, '')],
 '1-9': [('玉皇上帝诞', '犯者夺纪', False, '')],
 '1-13': [('杨公忌', '', False, '')],
 '1-14': [('三元降', '犯者减寿', False, ''), ('四天王巡行', '', True, '')],
 '1-15': [('三元降', '犯者减寿', False, ''), ('上元神会', '犯者夺纪', False, ''), ('月望', '犯者夺纪', True, ''), ('四天王巡行', '', True, '')],
 '1-16': [('三元降', '犯者减寿', False, '')],
 '1-19': [('长春真人诞', '', False, '')],
 '1-23': [('三尸神奏事', '', False, ''), ('四天王巡行', '', True, '')],
 '1-25': [('月晦', '犯者减寿', True, ''), ('天地仓开日', '犯者损寿，子带疾', False, '')],
 '1-27': [('斗降', '犯者夺纪', True, '')],
 '1-28': [('人神在阴', '犯者得病', True, '宜先一日即戒')],
 '1-29': [('四天王巡行', '', True, '')],
 '1-30': [('月晦', '犯者减寿', True, '如月小，即戒廿九'), ('司命奏事', '犯者减寿', True, '如月小，即戒廿九'), ('四天王巡行', '', True, '')],
 '2-1': [('一殿秦广王诞', '犯者夺纪', False, ''), ('月朔', '犯者夺纪', True, '')],
 '2-2': [('万神都会', '犯者夺纪', False, ''), ('福德土地正神诞', '犯者得祸', False, '')],
 '2-3': [('文昌帝君诞', '犯者削禄夺纪', False, ''), ('斗降', '犯者夺纪', True, '')],
 '2-6': [('东华帝君诞', '', False, ''), ('雷斋日', '犯者减寿', True, '')],
 '2-8': [('释迦牟尼佛出家', '犯者夺纪', False, ''), ('三殿宋帝王诞', '犯者夺纪', False, ''), ('张大帝诞', '犯者夺纪', False, ''), ('四天王巡行', '', True, '')],
 '2-11': [('杨公忌', '', False, '')],
 '2-14': [('四天王巡行', '', True, '')],
 '2-15': [('释迦牟尼佛涅槃', '犯者削禄夺纪', False, ''), ('太上老君诞', '犯者削禄夺纪', False, ''), ('月望', '犯者削禄夺纪', True, ''), ('四天王巡行', '', True, '')],
 '2-17': [('东方杜将军诞', '', False, '')],
 '2-18': [('四殿五官王诞', '犯者削禄夺纪', False, ''), ('至圣先师孔子讳辰', '犯者削禄夺纪', False, '')],
 '2-19': [('观音大士诞', '犯者夺纪', False, '')],
 '2-21': [('普贤菩萨诞', '', False, '')],
 '2-23': [('四天王巡行', '', True, '')],
 '2-25': [('月晦', '犯者减寿', True, '')],
 '2-27': [('斗降', '犯者夺纪', True, '')],
 '2-28': [('人神在阴', '犯者得病', True, '宜先一日即戒')],
 '2-29': [('四天王巡行', '', True, '')],
 '2-30': [('月晦', '犯者减寿', True, '如月小，即戒廿九'), ('司命奏事', '犯者减寿', True, '如月小，即戒廿九'), ('四天王巡行', '', True, '')],
 '3-1': [('二殿楚江王诞', '犯者夺纪', False, ''), ('月朔', '犯者夺纪', True, '')],
 '3-3': [('玄天上帝诞', '犯者夺纪', False, ''), ('斗降', '犯者夺纪', True, '')],
 '3-6': [('雷斋日', '犯者减寿', True, '')],
 '3-8': [('六殿卞城王诞', '犯者夺纪', False, ''), ('四天王巡行', '', True, '')],
 '3-9': [('牛鬼神出', '犯者产恶胎', False, ''), ('杨公忌', '', False, '')],
 '3-12': [('中央五道诞', '', False, '')],
 '3-14': [('四天王巡行', '', True, '')],
 '3-15': [('昊天上帝诞', '犯者夺纪', False, ''), ('玄坛诞', '犯者夺纪', False, ''), ('月望', '犯者夺纪', True, ''), ('四天王巡行', '', True, '')],
 '3-16': [('准提菩萨诞', '犯者夺纪', False, '')],
 '3-19': [('中岳大帝诞', '', False, ''), ('后土娘娘诞', '', False, ''), ('三茅降', '', False, '')],
 '3-20': [('天地仓开日', '犯者损寿', False, ''), ('子孙娘娘诞', '', False, '')],
 '3-23': [('四天王巡行', '', True, '')],
 '3-25': [('月晦', '犯者减寿', True, '')],
 '3-27': [('七殿泰山王诞', '', False, ''), ('斗降', '犯者夺纪', True, '')],
 '3-28': [('人神在阴', '犯者得病', True, '宜先一日即戒'), ('苍颉至圣先师诞', '犯者削禄夺纪', False, ''), ('东岳大帝诞', '', False, '')],
 '3-29': [('四天王巡行', '', True, '')],
 '3-30': [('月晦', '犯者减寿', True, '如月小，即戒廿九'), ('司命奏事', '犯者减寿', True, '如月小，即戒廿九'), ('四天王巡行', '', True, '')],
 '4-1': [('八殿都市王诞', '犯者夺纪', False, ''), ('月朔', '犯者夺纪', True, '')],
 '4-3': [('斗降', '犯者夺纪', True, '')],
 '4-4': [('万神善会', '犯者失瘼夭胎', False, ''), ('文殊菩萨诞', '', False, '')],
 '4-6': [('雷斋日', '犯者减寿', True, '')],
 '4-7': [('南斗、北斗、西斗同降', '犯者减寿', False, ''), ('杨公忌', '', False, '')],
 '4-8': [('释迦牟尼佛诞', '犯者夺纪', False, ''), ('万神善会', '犯者失瘼夭胎', False, ''), ('善恶童子降', '犯者血死', False, ''), ('九殿平等王诞', '', False, ''), ('四天王巡行', '', True, '')],
 '4-14': [('纯阳祖师诞', '犯者减寿', False, ''), ('四天王巡行', '', True, '')],
 '4-15': [('月望', '犯者夺纪', True, ''), ('钟离祖师诞', '', False, ''), ('四天王巡行', '', True, '')],
 '4-16': [('天地仓开日', '犯者损寿', False, '')],
 '4-17': [('十殿转轮王诞', '犯者夺纪', False, '')],
 '4-18': [('天地仓开日', '犯者损寿', False, ''), ('紫徽大帝诞', '犯者损寿', False, '')],
 '4-20': [('眼光圣母诞', '', False, '')],
 '4-23': [('四天王巡行', '', True, '')],
 '4-25': [('月晦', '犯者减寿', True, '')],
 '4-27': [('斗降', '犯者夺纪', True, '')],
 '4-28': [('人神在阴', '犯者得病', True, '宜先一日即戒')],
 '4-29': [('四天王巡行', '', True, '')],
 '4-30': [('月晦', '犯者减寿', True, '如月小，即戒廿九'), ('司命奏事', '犯者减寿', True, '如月小，即戒廿九'), ('四天王巡行', '', True, '')],
 '5-1': [('南极长生大帝诞', '犯者夺纪', False, ''), ('月朔', '犯者夺纪', True, '')],
 '5-3': [('斗降', '犯者夺纪', True, '')],
 '5-5': [('地腊', '犯者削禄夺纪', False, ''), ('五帝校定生人官爵', '犯者削禄夺纪', False, ''), ('九毒日', '犯者夭亡，奇祸不测', False, ''), ('杨公忌', '', False, '')],
 '5-6': [('九毒日', '犯者夭亡，奇祸不测', False, ''), ('雷斋日', '犯者减寿', True, '')],
 '5-7': [('九毒日', '犯者夭亡，奇祸不测', False, '')],
 '5-8': [('南方五道诞', '', False, ''), ('四天王巡行', '', True, '')],
 '5-11': [('天地仓开日', '犯者损寿', False, ''), ('天下都城隍诞', '', False, '')],
 '5-12': [('炳灵公诞', '', False, '')],
 '5-13': [('关圣降', '犯者削禄夺纪', False, '')],
 '5-14': [('夜子时为天地交泰', '犯者三年内夫妇俱亡', False, ''), ('四天王巡行', '', True, '')],
 '5-15': [('月望', '犯者夺纪', True, ''), ('九毒日', '犯者夭亡，奇祸不测', False, ''), ('四天王巡行', '', True, '')],
 '5-16': [('九毒日', '犯者三年内夫妇俱亡', False, ''), ('天地元气造化万物之辰', '犯者三年内夫妇俱亡', False, '')],
 '5-17': [('九毒日', '犯者夭亡，奇祸不测', False, '')],
 '5-18': [('张天师诞', '', False, '')],
 '5-22': [('孝娥神诞', '犯者夺纪', False, '')],
 '5-23': [('四天王巡行', '', True, '')],
 '5-25': [('九毒日', '犯者夭亡，奇祸不测', False, ''), ('月晦', '犯者减寿', True, '')],
 '5-26': [('九毒日', '犯者夭亡，奇祸不测', False, '')],
 '5-27': [('九毒日', '犯者夭亡，奇祸不测', False, ''), ('斗降', '犯者夺纪', True, '')],
 '5-28': [('人神在阴', '犯者得病', True, '宜先一日即戒')],
 '5-29': [('四天王巡行', '', True, '')],
 '5-30': [('月晦', '犯者减寿', True, '如月小，即戒廿九'), ('司命奏事', '犯者减寿', True, '如月小，即戒廿九'), ('四天王巡行', '', True, '')],
 '6-1': [('月朔', '犯者夺纪', True, '')],
 '6-3': [('韦驮菩萨圣诞', '', False, ''), ('斗降', '犯者夺纪', True, ''), ('杨公忌', '', False, '')],
 '6-5': [('南赡部洲转大轮', '犯者损寿', False, '')],
 '6-6': [('天地仓开日', '犯者损寿', False, ''), ('雷斋日', '犯者减寿', True, '')],
 '6-8': [('四天王巡行', '', True, '')],
 '6-10': [('金粟如来诞', '', False, '')],
 '6-14': [('四天王巡行', '', True, '')],
 '6-15': [('月望', '犯者夺纪', True, ''), ('四天王巡行', '', True, '')],
 '6-19': [('观世音菩萨成道', '犯者夺纪', False, '')],
 '6-23': [('南方火神诞', '犯者遭回禄', False, ''), ('四天王巡行', '', True, '')],
 '6-24': [('雷祖诞', '犯者削禄夺纪', False, ''), ('关帝诞', '犯者削禄夺纪', False, '')],
 '6-25': [('月晦', '犯者减寿', True, '')],
 '6-27': [('斗降', '犯者夺纪', True, '')],
 '6-28': [('人神在阴', '犯者得病', True, '宜先一日即戒')],
 '6-29': [('四天王巡行', '', True, '')],
 '6-30': [('月晦', '犯者减寿', True, '如月小，即戒廿九'), ('司命奏事', '犯者减寿', True, '如月小，即戒廿九'), ('四天王巡行', '', True, '')],
 '7-1': [('月朔', '犯者夺纪', True, ''), ('杨公忌', '', False, '')],
 '7-3': [('斗降', '犯者夺纪', True, '')],
 '7-5': [('中会日', '犯者损寿', False, '一作初七')],
 '7-6': [('雷斋日', '犯者减寿', True, '')],
 '7-7': [('道德腊', '犯者削禄夺纪', False, ''), ('五帝校生人善恶', '犯者削禄夺纪', False, ''), ('魁星诞', '犯者削禄夺纪', False, '')],
 '7-8': [('四天王巡行', '', True, '')],
 '7-10': [('阴毒日', '', False, '大忌')],
 '7-12': [('长真谭真人诞', '', False, '')],
 '7-13': [('大势至菩萨诞', '犯者减寿', False, '')],
 '7-14': [('三元降', '犯者减寿', False, ''), ('四天王巡行', '', True, '')],
 '7-15': [('月望', '犯者夺纪', True, ''), ('三元降', '犯者夺纪', False, ''), ('地官校籍', '犯者夺纪', False, ''), ('四天王巡行', '', True, '')],
 '7-16': [('三元降', '犯者减寿', False, '')],
 '7-18': [('西王母诞', '犯者夺纪', False, '')],
 '7-19': [('太岁诞', '犯者夺纪', False, '')],
 '7-22': [('增福财神诞', '犯者削禄夺纪', False, '')],
 '7-23': [('四天王巡行', '', True, '')],
 '7-25': [('月晦', '犯者减寿', True, '')],
 '7-27': [('斗降', '犯者夺纪', True, '')],
 '7-28': [('人神在阴', '犯者得病', True, '宜先一日即戒')],
 '7-29': [('杨公忌', '', False, ''), ('四天王巡行', '', True, '')],
 '7-30': [('地藏菩萨诞', '犯者夺纪', False, ''), ('月晦', '犯者减寿', True, '如月小，即戒廿九'), ('司命奏事', '犯者减寿', True, '如月小，即戒廿九'), ('四天王巡行', '', True, '')],
 '8-1': [('月朔', '犯者夺纪', True, ''), ('许真君诞', '', False, '')],
 '8-3': [('斗降', '犯者夺纪', True, ''), ('北斗诞', '犯者削禄夺纪', False, ''), ('司命灶君诞', '犯者遭回禄', False, '')],
 '8-5': [('雷声大帝诞', '犯者夺纪', False, '')],
 '8-6': [('雷斋日', '犯者减寿', True, '')],
 '8-8': [('四天王巡行', '', True, '')],
 '8-10': [('北斗大帝诞', '', False, '')],
 '8-12': [('西方五道诞', '', False, '')],
 '8-14': [('四天王巡行', '', True, '')],
 '8-15': [('月望', '犯者夺纪', True, ''), ('太明朝元', '犯者暴亡', False, '宜焚香守夜'), ('四天王巡行', '', True, '')],
 '8-16': [('天曹掠刷真君降', '犯者贫夭', False, '')],
 '8-18': [('天人兴福之辰', '', False, '宜斋戒，存想吉事')],
 '8-23': [('汉恒候张显王诞', '', False, ''), ('四天王巡行', '', True, '')],
 '8-24': [('灶君夫人诞', '', False, '')],
 '8-25': [('月晦', '犯者减寿', True, '')],
 '8-27': [('斗降', '犯者夺纪', True, ''), ('至圣先师孔子诞', '犯者削禄夺纪', False, ''), ('杨公忌', '', False, '')],
 '8-28': [('人神在阴', '犯者得病', True, '宜先一日即戒'), ('四天会事', '', False, '')],
 '8-29': [('四天王巡行', '', True, '')],
 '8-30': [('诸神考校', '犯者夺算', False, ''), ('月晦', '犯者减寿', True, '如月小，即戒廿九'), ('司命奏事', '犯者减寿', True, '如月小，即戒廿九'), ('四天王巡行', '', True, '')],
 '9-1': [('月朔', '犯者夺纪', True, ''), ('南斗诞', '犯者削禄夺纪', False, ''), ('北斗九星降世', '犯者夺纪', False, '此九日俱宜斋戒')],
 '9-3': [('斗降', '犯者夺纪', True, ''), ('五瘟神诞', '', False, '')],
 '9-6': [('雷斋日', '犯者减寿', True, '')],
 '9-8': [('四天王巡行', '', True, '')],
 '9-9': [('斗母诞', '犯者削禄夺纪', False, ''), ('酆都大帝诞', '', False, ''), ('玄天上帝飞升', '', False, '')],
 '9-10': [('斗母降', '犯者夺纪', False, '')],
 '9-11': [('宜戒', '', False, '')],
 '9-13': [('孟婆尊神诞', '', False, '')],
 '9-14': [('四天王巡行', '', True, '')],
 '9-15': [('月望', '犯者夺纪', True, ''), ('四天王巡行', '', True, '')],
 '9-17': [('金龙四大王诞', '犯者遭水厄', False, '')],
 '9-19': [('日宫月宫会合', '犯者减寿', False, ''), ('观世音菩萨诞', '犯者减寿', False, '')],
 '9-23': [('四天王巡行', '', True, '')],
 '9-25': [('月晦', '犯者减寿', True, ''), ('杨公忌', '', False, '')],
 '9-27': [('斗降', '犯者夺纪', True, '')],
 '9-28': [('人神在阴', '犯者得病', True, '宜先一日即戒')],
 '9-29': [('四天王巡行', '', True, '')],
 '9-30': [('药师琉璃光佛诞', '犯者危疾', False, ''), ('月晦', '犯者减寿', True, '如月小，即戒廿九'), ('司命奏事', '犯者减寿', True, '如月小，即戒廿九'), ('四天王巡行', '', True, '')],
 '10-1': [('月朔', '犯者夺纪', True, ''), ('民岁腊', '犯者夺纪', False, ''), ('四天王降', '犯者一年内死', False, '')],
 '10-3': [('斗降', '犯者夺纪', True, ''), ('三茅诞', '', False, '')],
 '10-5': [('下会日', '犯者减寿', False, ''), ('达摩祖师诞', '犯者减寿', False, '')],
 '10-6': [('雷斋日', '犯者减寿', True, ''), ('天曹考察', '犯者夺纪', False, '')],
 '10-8': [('佛涅槃日', '', False, '大忌色欲'), ('四天王巡行', '', True, '')],
 '10-10': [('四天王降', '犯者一年内死', False, '')],
 '10-11': [('宜戒', '', False, '')],
 '10-14': [('三元降', '犯者减寿', False, ''), ('四天王巡行', '', True, '')],
 '10-15': [('月望', '犯者夺纪', True, ''), ('三元降', '犯者夺纪', False, ''), ('下元水府校籍', '犯者夺纪', False, ''), ('四天王巡行', '', True, '')],
 '10-16': [('三元降', '犯者减寿', False, ''), ('四天王巡行', '', True, '')],
 '10-23': [('杨公忌', '', False, ''), ('四天王巡行', '', True, '')],
 '10-25': [('月晦', '犯者减寿', True, '')],
 '10-27': [('斗降', '犯者夺纪', True, ''), ('北极紫徽大帝降', '', False, '')],
 '10-28': [('人神在阴', '犯者得病', True, '宜先一日即戒')],
 '10-29': [('四天王巡行', '', True, '')],
 '10-30': [('月晦', '犯者减寿', True, '如月小，即戒廿九'), ('司命奏事', '犯者减寿', True, '如月小，即戒廿九'), ('四天王巡行', '', True, '')],
 '11-1': [('月朔', '犯者夺纪', True, '')],
 '11-3': [('斗降', '犯者夺纪', True, '')],
 '11-4': [('至圣先师孔子诞', '犯者削禄夺纪', False, '')],
 '11-6': [('西岳大帝诞', '', False, '')],
 '11-8': [('四天王巡行', '', True, '')],
 '11-11': [('天地仓开日', '犯者夺纪', False, ''), ('太乙救苦天尊诞', '犯者夺纪', False, '')],
 '11-14': [('四天王巡行', '', True, '')],
 '11-15': [('月望', '上半夜犯男死 下半夜犯女死', False, ''), ('四天王巡行', '上半夜犯男死 下半夜犯女死', False, '')],
 '11-17': [('阿弥陀佛诞', '', False, '')],
 '11-19': [('太阳日宫诞', '犯者得奇祸', False, '')],
 '11-21': [('杨公忌', '', False, '')],
 '11-23': [('张仙诞', '犯者绝嗣', False, ''), ('四天王巡行', '', True, '')],
 '11-25': [('掠刷大夫降', '犯者遭大凶', False, ''), ('月晦', '犯者减寿', True, '')],
 '11-26': [('北方五道诞', '', False, '')],
 '11-27': [('斗降', '犯者夺纪', True, '')],
 '11-28': [('人神在阴', '犯者得病', True, '宜先一日即戒')],
 '11-29': [('四天王巡行', '', True, '')],
 '11-30': [('月晦', '犯者减寿', True, '如月小，即戒廿九'), ('司命奏事', '犯者减寿', True, '如月小，即戒廿九'), ('四天王巡行', '', True, '')],
 '12-1': [('月朔', '犯者夺纪', True, '')],
 '12-3': [('斗降', '犯者夺纪', True, '')],
 '12-6': [('天地仓开日', '犯者减寿', False, ''), ('雷斋日', '犯者减寿', True, '')],
 '12-7': [('掠刷大夫降', '犯者得恶疾', False, '')],
 '12-8': [('王侯腊', '犯者夺纪', False, ''), ('释迦如来成佛之辰', '', False, ''), ('四天王巡行', '', True, ''), ('初旬内戊日，亦名王侯腊', '犯者夺纪', False, '')],
 '12-12': [('太素三元君朝真', '', False, '')],
 '12-14': [('四天王巡行', '', True, '')],
 '12-15': [('月望', '犯者夺纪', True, ''), ('四天王巡行', '', True, '')],
 '12-16': [('南岳大帝诞', '', False, '')],
 '12-19': [('杨公忌', '', False, '')],
 '12-20': [('天地交道', '犯者促寿', False, '')],
 '12-21': [('天猷上帝诞', '', False, '')],
 '12-23': [('五岳诞降', '', False, ''), ('四天王巡行', '', True, '')],
 '12-24': [('司今朝天奏人善恶', '犯者得大祸', False, '')],
 '12-25': [('三清玉帝同降，考察善恶', '犯者得奇祸', False, ''), ('月晦', '犯者减寿', True, '')],
 '12-27': [('斗降', '犯者夺纪', True, '')],
 '12-28': [('人神在阴', '犯者得病', True, '宜先一日即戒')],
 '12-29': [('华严菩萨诞', '', False, ''), ('四天王巡行', '', True, '')],
 '12-30': [('诸神下降，察访善恶', '犯者男女俱亡', False, '')]}
TAO_FESTIVAL = {'1-1': [('天腊之辰', '天腊，此日五帝会于东方九炁青天')],
 '1-3': [('郝真人圣诞', ''), ('孙真人圣诞', '')],
 '1-5': [('孙祖清静元君诞', '')],
 '1-7': [('举迁赏会', '此日上元赐福，天官同地水二官考校罪福')],
 '1-9': [('玉皇上帝圣诞', '')],
 '1-13': [('关圣帝君飞升', '')],
 '1-15': [('上元天官圣诞', ''), ('老祖天师圣诞', '')],
 '1-19': [('长春邱真人(邱处机)圣诞', '')],
 '1-28': [('许真君(许逊天师)圣诞', '')],
 '2-1': [('勾陈天皇大帝圣诞', ''), ('长春刘真人(刘渊然)圣诞', '')],
 '2-2': [('土地正神诞', ''), ('姜太公圣诞', '')],
 '2-3': [('文昌梓潼帝君圣诞', '')],
 '2-6': [('东华帝君圣诞', '')],
 '2-13': [('度人无量葛真君圣诞', '')],
 '2-15': [('太清道德天尊(太上老君)圣诞', '')],
 '2-19': [('慈航真人圣诞', '')],
 '3-1': [('谭祖(谭处端)长真真人圣诞', '')],
 '3-3': [('玄天上帝圣诞', '')],
 '3-6': [('眼光娘娘圣诞', '')],
 '3-15': [('天师张大真人圣诞', ''), ('财神赵公元帅圣诞', '')],
 '3-16': [('三茅真君得道之辰', ''), ('中岳大帝圣诞', '')],
 '3-18': [('王祖(王处一)玉阳真人圣诞', ''), ('后土娘娘圣诞', '')],
 '3-19': [('太阳星君圣诞', '')],
 '3-20': [('子孙娘娘圣诞', '')],
 '3-23': [('天后妈祖圣诞', '')],
 '3-26': [('鬼谷先师诞', '')],
 '3-28': [('东岳大帝圣诞', '')],
 '4-1': [('长生谭真君成道之辰', '')],
 '4-10': [('何仙姑圣诞', '')],
 '4-14': [('吕祖纯阳祖师圣诞', '')],
 '4-15': [('钟离祖师圣诞', '')],
 '4-18': [('北极紫微大帝圣诞', ''), ('泰山圣母碧霞元君诞', ''), ('华佗神医先师诞', '')],
 '4-20': [('眼光圣母娘娘诞', '')],
 '4-28': [('神农先帝诞', '')],
 '5-1': [('南极长生大帝圣诞', '')],
 '5-5': [('地腊之辰', '地腊，此日五帝会于南方三炁丹天'), ('南方雷祖圣诞', ''), ('地祗温元帅圣诞', ''), ('雷霆邓天君圣诞', '')],
 '5-11': [('城隍爷圣诞', '')],
 '5-13': [('关圣帝君降神', ''), ('关平太子圣诞', '')],
 '5-18': [('张天师圣诞', '')],
 '5-20': [('马祖丹阳真人圣诞', '')],
 '5-29': [('紫青白祖师圣诞', '')],
 '6-1': [('南斗星君下降', '')],
 '6-2': [('南斗星君下降', '')],
 '6-3': [('南斗星君下降', '')],
 '6-4': [('南斗星君下降', '')],
 '6-5': [('南斗星君下降', '')],
 '6-6': [('南斗星君下降', '')],
 '6-10': [('刘海蟾祖师圣诞', '')],
 '6-15': [('灵官王天君圣诞', '')],
 '6-19': [('慈航(观音)成道日', '')],
 '6-23': [('火神圣诞', '')],
 '6-24': [('南极大帝中方雷祖圣诞', ''), ('关圣帝君圣诞', '')],
 '6-26': [('二郎真君圣诞', '')],
 '7-7': [('道德腊之辰', '道德腊，此日五帝会于西方七炁素天'), ('庆生中会', '此日中元赦罪，地官同天水二官考校罪福')],
 '7-12': [('西方雷祖圣诞', '')],
 '7-15': [('中元地官大帝圣诞', '')],
 '7-18': [('王母娘娘圣诞', '')],
 '7-20': [('刘祖(刘处玄)长生真人圣诞', '')],
 '7-22': [('财帛星君文财神增福相公李诡祖圣诞', '')],
 '7-26': [('张三丰祖师圣诞', '')],
 '8-1': [('许真君飞升日', '')],
 '8-3': [('九天司命灶君诞', '')],
 '8-5': [('北方雷祖圣诞', '')],
 '8-10': [('北岳大帝诞辰', '')],
 '8-15': [('太阴星君诞', '')],
 '9-1': [('北斗九皇降世之辰', '')],
 '9-2': [('北斗九皇降世之辰', '')],
 '9-3': [('北斗九皇降世之辰', '')],
 '9-4': [('北斗九皇降世之辰', '')],
 '9-5': [('北斗九皇降世之辰', '')],
 '9-6': [('北斗九皇降世之辰', '')],
 '9-7': [('北斗九皇降世之辰', '')],
 '9-8': [('北斗九皇降世之辰', '')],
 '9-9': [('北斗九皇降世之辰', ''), ('斗姥元君圣诞', ''), ('重阳帝君圣诞', ''), ('玄天上帝飞升', ''), ('酆都大帝圣诞', '')],
 '9-22': [('增福财神诞', '')],
 '9-23': [('萨翁真君圣诞', '')],
 '9-28': [('五显灵官马元帅圣诞', '')],
 '10-1': [('民岁腊之辰', '民岁腊，此日五帝会于北方五炁黑天'), ('东皇大帝圣诞', '')],
 '10-3': [('三茅应化真君圣诞', '')],
 '10-6': [('天曹诸司五岳五帝圣诞', '')],
 '10-15': [('下元水官大帝圣诞', ''), ('建生大会', '此日下元解厄，水官同天地二官考校罪福')],
 '10-18': [('地母娘娘圣诞', '')],
 '10-19': [('长春邱真君飞升', '')],
 '10-20': [('虚靖天师(即三十代天师弘悟张真人)诞', '')],
 '11-6': [('西岳大帝圣诞', '')],
 '11-9': [('湘子韩祖圣诞', '')],
 '11-11': [('太乙救苦天尊圣诞', '')],
 '11-26': [('北方五道圣诞', '')],
 '12-8': [('王侯腊之辰', '王侯腊，此日五帝会于上方玄都玉京')],
 '12-16': [('南岳大帝圣诞', ''), ('福德正神诞', '')],
 '12-20': [('鲁班先师圣诞', '')],
 '12-21': [('天猷上帝圣诞', '')],
 '12-22': [('重阳祖师圣诞', '')],
 '12-23': [('祭灶王', '最适宜谢旧年太岁，开启拜新年太岁')],
 '12-25': [('玉帝巡天', ''), ('天神下降', '')],
 '12-29': [('清静孙真君(孙不二)成道', '')]}
TAO_BA_JIE = {'立春': '东北方度仙上圣天尊同梵炁始青天君下降', '春分': '东方玉宝星上天尊同青帝九炁天君下降', '立夏': '东南方好生度命天尊同梵炁始丹天君下降', '夏至': '南方玄真万福天尊同赤帝三炁天君下降', '立秋': '西南方太灵虚皇天尊同梵炁始素天君下降', '秋分': '西方太妙至极天尊同白帝七炁天君下降', '立冬': '西北方无量太华天尊同梵炁始玄天君下降', '冬至': '北方玄上玉宸天尊同黑帝五炁天君下降'}
