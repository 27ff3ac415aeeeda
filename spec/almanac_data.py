# -*- coding: utf-8 -*-
"""reference almanac tables, decoded: per (day pillar, month branch), (day pillar, time branch), (lunar month, day pillar): first list|second list. Made once from the reviewed tree by reading its tables"""
DAY = (
    ('交易 进人口 祭祀 沐浴 捕捉 入殓 除服 成服 安葬 谢土 启钻 修坟|斋醮 入宅 修造 动土 破土', '祭祀 沐浴 祈福 斋醮 订盟 纳采 裁衣 拆卸 起基 竖柱 上梁 安床 入殓 除服 成服 移柩 启钻 挂匾 求嗣 出行 合帐 造畜稠|开仓 嫁娶 移徙 入宅', '嫁娶 祭祀 开光 祈福 求嗣 出行 开市 交易 立券 动土 纳财 掘井 会亲友|入宅 安葬 伐木 作梁 纳畜 造畜稠 作灶', '祭祀 沐浴 捕捉 栽种|嫁娶 入宅 移徙 作灶 安葬', '开市 交易 立券 挂匾 祭祀 开光 祈福 求嗣 安床 解除 修造 安葬|纳采 问名 订盟 嫁娶 入宅 开仓 出火 动土 破土 纳畜 伐木', '嫁娶 纳采 祭祀 祈福 出行 动土 上梁 移徙 入宅 破土 安葬|斋醮', '祭祀 破屋 坏垣 馀事勿取|移徙 入宅 开仓 出货财', '纳采 祭祀 祈福 解除 动土 破土 安葬|嫁娶 移徙 入宅', '嫁娶 祭祀 祈福 求嗣 出火 出行 开光 解除 拆卸 修造 进人口 安香 交易 立券 入宅 移徙 安床 动土 破土 谢土 安葬 入殓 除服 成服|斋醮 开市 开仓 作灶 造船', '祭祀 祈福 修饰垣墙 平治道涂 入殓 移柩|嫁娶 入宅 上梁 安门', '纳采 订盟 会亲友 沐浴 理发 裁衣 冠笄 安床 除服 成服 启钻 移柩 安葬 开生坟|开市 入宅 出行 嫁娶 修坟 祈福 动土 安门 谢土 上梁', '祭祀 会亲友 嫁娶 沐浴 修造 动土 祈福 开光 塑绘 出行 订盟 纳采 裁衣 入殓 除服 成服 移柩 启钻 赴任 竖柱 上梁 纳财 扫舍 栽种 纳畜 伐木|入宅 作灶 安床 开仓'),
    ('嫁娶 纳采 订盟 造车器 祭祀 祈福 造庙 安香 出火 出行 归宁 入学 入宅 交易 立券 求医 治病 修造 动土 竖柱 上梁 盖屋 起基 安门|斋醮 伐木 作梁 安葬 行丧', '祭祀 解除 馀事勿取|诸事不宜', '祭祀 祈福 求嗣 纳畜 入殓 启钻 谢土 除服 成服|栽种 开光 出行 针灸 嫁娶 入宅 动土 破土', '祭祀 开光 塑绘 酬神 斋醮 订盟 纳采 嫁娶 裁衣 动土 起基 出火 拆卸 移徙 入宅 安香 修造 竖柱 上梁 纳畜 牧养 祈福 求嗣 解除 伐木 定磉 盖屋 安门|栽种 安葬', '祭祀 修门 取渔 纳财 纳畜 馀事勿取|嫁娶 入宅', '纳采 祭祀 祈福 开市 求医 治病 动土 纳畜|嫁娶 安葬', '祭祀 斋醮 塑绘 开光 出行 修造 动土 造畜稠 安床 放水 掘井 开池 开厕 结网 破土|出火 入宅', '祭祀 破屋 坏垣 馀事勿取|诸事不宜', '破土 安葬 移柩 入殓 祭祀 捕捉 除服 成服 馀事勿取|嫁娶 入宅 开市 交易', '祭祀 会亲友 纳采 嫁娶 开光 塑绘 斋醮 安香 开市 立券 除服 成服 入殓 移柩 安葬 赴任 进人口 出行 裁衣 修造 动土 上梁 经络 交易|入宅 伐木', '解除 祭祀 修饰垣墙 平治道涂 造畜稠 馀事勿取|嫁娶 开市 交易 入宅 入学 安葬', '理发 会亲友 补垣 塞穴 结网|嫁娶 入宅 安门 移徙'),
    ('纳采 订盟 开市 交易 立券 出行 会亲友 安机械 竖柱 上梁 平治道涂 伐木 拆卸 盖屋 起基 安床 安门 解除 安葬 启钻 除服 成服 修坟 立碑 移柩 入殓|嫁娶 动土 破土 祈福 出火 入宅', '沐浴 解除 订盟 纳采 裁衣 冠笄 拆卸 修造 动土 移徙 入宅 除服 成服 移柩 破土 启钻 安葬 扫舍 修坟 伐木 纳财 交易 立券|作灶 祭祀 上梁 出行', '开光 解除 伐木 竖柱 上梁 交易 立券 纳畜 入殓 移柩 安葬|入宅 出行 移徙 祭祀 嫁娶 动土 破土 作灶', '订盟 纳采 冠笄 拆卸 修造 动土 安床 入殓 除服 成服 移柩 安葬 破土 启钻 造仓|作灶 开光 嫁娶 开市 入宅', '安香 出火 纳采 订盟 嫁娶 开市 立券 交易 挂匾 开光 出行 解除 安床 栽种 置产 拆卸 修造 动土|作灶 安葬 祭祀 入殓', '嫁娶 纳采 出行 移徙 入宅|动土 破土 安葬', '开市 交易 立券 挂匾 开光 解除 拆卸 动土 安床 修造 上梁 置产 栽种 破土 安葬|作灶 出火 祭祀 嫁娶 入宅', '嫁娶 纳采 开市 出行 动土 上梁 移徙 入宅 破土 安葬|祭祀 祈福', '破屋 坏垣 治病 馀事勿取|祈福 纳采 订盟 嫁娶 入宅 安葬', '祭祀 冠笄 会亲友 拆卸 起基 除服 成服 移柩 启钻 安葬 沐浴 捕捉 开光 塑绘|作灶 入宅 嫁娶', '入殓 破土 启钻 安葬 除服 成服 馀事勿取|开市 入宅 祭祀 置产 补垣 塞穴', '祭祀 祈福 订盟 纳采 裁衣 拆卸 修造 动土 起基 安床 移徙 入宅 安香 除服 成服 入殓 移柩 安葬 谢土 赴任 会亲友 进人口 出行 竖柱 上梁 经络 开市 交易 立券 纳财 开仓|作灶 治病 伐木 作梁'),
    ('祭祀 平治道涂 除服 成服 安葬 馀事勿取|嫁娶 入宅 纳采 订盟 掘井', '出行 嫁娶 订盟 纳采 入殓 安床 启钻 安葬 祭祀 裁衣 会亲友 进人口|', '祭祀 祈福 求嗣 开光 嫁娶 出行 解除 伐木 拆卸 进人口 安床 动土 起基 上梁 栽种 纳畜 破土 谢土 启钻 安葬|移徙 入宅 出火 作灶 掘井', '祈福 开光 塑绘 酬神 订盟 纳采 裁衣 安床 开市 立券 入殓 除服 成服 移柩 启钻 安葬 立碑 赴任 会亲友 出行 交易 竖柱|作灶 掘井 动土 栽种', '祭祀 出行 修造 动土 合帐 造畜稠 安床 移徙 入殓 移柩 破土 启钻 安葬 开生坟 合寿木 补垣 塞穴|入宅 作灶 理发 开光 安门', '订盟 纳采 祭祀 动土 破土 交易 立券|嫁娶 安葬', '祭祀 结网 馀事勿取|入宅 出行 掘井 安葬', '嫁娶 纳采 开市 出行 动土 上梁 移徙 入宅 破土 安葬|赴任', '嫁娶 开光 祭祀 祈福 求嗣 安香 出火 解除 伐木 入宅 移徙 安床 开市 交易 立券 栽种 出行 安葬|掘井 理发 作灶 动土 破土 开池', '祭祀 沐浴 破屋 坏垣 馀事勿取|移徙 入宅 出行 栽种', '嫁娶 祭祀 祈福 求嗣 开光 出行 拆卸 修造 动土 上梁 安床 纳畜 入殓 破土|入宅 移徙 掘井 理发 伐木 交易 开市 作灶', '祭祀 祈福 订盟 纳采 裁衣 拆卸 修造 动土 起基 安床 移徙 入宅 安香 入殓 移柩 安葬 谢土 赴任 进人口 会亲友|作灶 治病'),
    ('纳采 订盟 祭祀 祈福 开光 安香 出火 出行 会亲友 安机械 修造 动土 竖柱 上梁 盖屋 起基 定磉 安床 安门 拆卸 移徙 造桥 造船 安葬 破土 入殓|开市 造庙 置产 掘井', '修饰垣墙 平治道涂 入殓 移柩 馀事勿取|嫁娶 移徙 入宅 开光', '会亲友 冠笄 安床 安机械 祭祀 祈福 求嗣 经络|嫁娶 开市 动土 作灶 安葬', '祭祀 扫舍 塞穴|栽种 作灶 安葬 嫁娶', '祭祀 修饰垣墙 馀事勿取|开光 修造 动土 破土', '嫁娶 裁衣 祭祀 出行 安床 作灶 移徙 入宅 破土 安葬|赴任 捕捉', '嫁娶 纳采 订盟 冠笄 造车器 祭祀 开光 祈福 求嗣 出行 解除 伐木 出火 入宅 拆卸 修造 动土 上梁 安床 栽种 破土|行丧 置产 安葬', '祭祀 作灶 纳财 捕捉|开市 破土', '安机械 纳采 订盟 祭祀 祈福 求嗣 开光 普渡 出行 出火 拆卸 修造 动土 进人口 开市 交易 立券 移徙 安床 栽种 上梁 纳畜 破土 移柩 安葬|入宅 嫁娶 掘井 牧养', '祭祀 塑绘 开光 出行 解除 订盟 嫁娶 拆卸 起基 安床 入宅 开市 入殓 除服 成服 移柩 破土 谢土 挂匾 开柱眼 交易|造桥 冠笄 盖屋 掘井', '祭祀 沐浴 破屋 坏垣 馀事勿取|嫁娶 入宅 上梁 出行 安葬', '祭祀 塑绘 开光 订盟 纳采 嫁娶 安床 进人口 入殓 除服 成服 移柩 启钻 安葬 立碑|开市 交易 破土 作灶'),
    ('嫁娶 冠笄 祭祀 祈福 求嗣 斋醮 进人口 会亲友 伐木 作梁 开柱眼 安床 掘井 捕捉 畋猎|开生坟 破土 行丧 安葬', '会亲友 纳采 进人口 修造 动土 竖柱 上梁 祭祀 开光 塑绘 祈福 斋醮 嫁娶 安床 移徙 入宅 安香 纳畜|出行 治病 安葬 开市', '作灶 解除 平治道涂 馀事勿取|祭祀 祈福 安葬 安门', '开光 塑绘 裁衣 冠笄 伐木 拆卸 竖柱 上梁 开仓 会亲友 安机械 造仓 盖屋 交易 解除 开市 立券 纳财|出行 嫁娶 入宅 安葬', '嫁娶 祭祀 祈福 求嗣 斋醮 开光 出火 移徙 入宅 竖柱 上梁 会亲友 盖屋 起基 治病 安门 造车器 掘井 开池|纳采 出行 修坟 安葬 开市 立券 作灶', '塞穴 结网 馀事勿取|诸事不宜', '嫁娶 合帐 裁衣 冠笄 伐木 上梁 出火 拆卸 移徙 修造 动土 安门 纳财 筑堤 栽种 塞穴|安床 祈福 出行 安葬 行丧 开光', '嫁娶 开市 立券 祭祀 祈福 动土 移徙 入宅|造庙 安葬', '嫁娶 祭祀 祈福 求嗣 裁衣 冠笄 经络 修造 进人口 安床 动土 竖柱 上梁 移徙 交易 立券 栽种 会亲友|行丧 安葬 出行 作梁 纳畜 伐木 造桥', '祭祀 会亲友 进人口 动土 上梁 开光 塑绘 冠笄 拆卸 起基 安床 开市 立券 赴任 经络|定磉 安葬', '祭祀 求嗣 冠笄 进人口 会亲友 安门 安床 经络 纳财 牧养 畋猎 放水 割蜜|祈福 斋醮 纳采 订盟 嫁娶 入宅 安葬', '祭祀 解除 破屋 坏垣 馀事勿取|诸事不宜'),
    ('破屋 坏垣 治病 馀事勿取|移徙 入宅', '祭祀 会亲友 出行 订盟 纳采 沐浴 修造 动土 祈福 斋醮 嫁娶 拆卸 安床 入殓 移柩 安葬 谢土 赴任 裁衣 竖柱 上梁 伐木 捕捉 栽种 破土 安门|盖屋 开市 作灶 入宅', '嫁娶 祭祀 冠笄 修饰垣墙 置产|经络 探病 盖屋 作灶 动土', '冠笄 入殓 除服 成服 移柩 平治道涂 修饰垣墙|盖屋 作灶 治病 探病', '祭祀 塑绘 开光 纳采 嫁娶 开市 出行 会亲友 安床 结网 除服 成服 启钻 安葬 移柩|祈福 入宅 盖屋 动土 破土 探病', '嫁娶 订盟 纳采 出行 祭祀 祈福 斋醮 动土 上梁 破土 安葬|移徙 入宅', '出行 教牛马 割蜜 馀事勿取|斋醮 盖屋 动土 破土', '补垣 塞穴 结网 入殓 除服 成服 移柩 安葬 启钻 馀事勿取|诸事不宜', '嫁娶 纳采 订盟 开光 祭祀 出行 理发 动土 安床 放水 开渠 栽种 进人口|入宅 上梁 入殓 盖屋 探病 作灶 安门 安葬 纳畜 伐木', '祭祀 裁衣 冠笄 嫁娶 纳婿 会亲友 除服 成服 移柩 捕捉 进人口 入殓|移徙 入宅 作灶', '嫁娶 纳采 订盟 开市 交易 立券 挂匾 祭祀 祈福 开光 造车器 出行 入宅 移徙 安床 安门 拆卸 修造 动土 栽种 安葬 破土 启钻 除服 成服 入殓 立碑|探病 纳畜 伐木 起基 作梁 盖屋', '祭祀 解除 祈福 开光 塑绘 斋醮 订盟 纳采 裁衣 冠笄 拆卸 修造 动土 入殓 除服 成服 移柩 启钻 安床 赴任 出行 移徙 竖柱 上梁 伐木 栽种 破土 安葬 纳畜|盖屋 治病'),
    ('安床 架马 祭祀 塑绘 开光 出行 理发 伐木 作梁 开柱眼 开厕 畋猎 破土 入殓 除服 成服 移柩 启钻 修坟 立碑|作灶 安门 造桥 开市 安葬', '解除 破屋 坏垣 馀事勿取|诸事不宜', '纳采 嫁娶 祭祀 祈福 出行 修造 动土 移徙 入宅 安葬 破土|开市 斋醮', '祭祀 嫁娶 祈福 纳采 裁衣 合帐 安床 入宅 安香 入殓 移柩 安葬 谢土 修造 安碓磑 求嗣 会亲友 挂匾 交易 立券 纳财 造仓 放水|栽种 伐木', '祭祀 作灶 平治道涂 馀事勿取|安床 入宅 安碓磑 栽种', '订盟 纳采 会亲友 安床 作灶 造畜稠|开市 安葬', '嫁娶 祭祀 祈福 求嗣 开光 出行 解除 出火 拆卸 修造 进人口 入宅 移徙 动土 安床 纳畜 栽种 纳财 交易 立券 挂匾 造畜稠|安葬 开生坟 行丧', '嫁娶 纳采 出行 祭祀 祈福 解除 移徙 入宅|动土 安葬', '祭祀 出行 作梁 出火 拆卸 修造 动土 起基 安床 补垣 塞穴 入殓 破土 安葬 移柩 造畜稠|嫁娶 入宅 斋醮 开光 针灸 掘井', '诸事不宜|入殓 安葬 开市 交易', '祭祀 冠笄 移徙 会亲友 纳财 理发 捕捉|嫁娶 开市 开池 开厕 破土', '祭祀 祈福 订盟 纳采 裁衣 合帐 冠笄 安机械 安床 造畜稠 入殓 移柩 启钻 安葬 谢土 除服 成服 会亲友 竖柱 上梁 经络 开市 交易 立券 纳财 纳畜 筑堤|嫁娶 入宅 治病 赴任'),
    ('嫁娶 祭祀 祈福 求嗣 开光 出行 解除 入宅 移徙 纳畜 入殓 破土 修坟 立碑|伐木 作梁 动土 安床 栽种 造桥', '塑绘 开光 出行 订盟 纳采 除服 成服 嫁娶 纳婿 入殓 移柩 启钻 安葬 立碑|入宅 安床', '祭祀 沐浴 解除 理发 扫舍 破屋 坏垣 馀事勿取|嫁娶 安葬', '祭祀 祈福 斋醮 订盟 纳采 裁衣 合帐 拆卸 修造 动土 上梁 起基 移柩 安葬 谢土 沐浴 扫舍 开柱眼 伐木 出火|安床 开市 立券 作灶', '祭祀 祈福 求嗣 斋醮 沐浴 纳畜 入殓 破土 安葬|移徙 入宅 嫁娶 出行 安床', '沐浴 平治道涂 扫舍 入殓 移柩 破土 启钻 安葬 馀事勿取|诸事不宜', '安机械 祭祀 祈福 求嗣 沐浴 解除 纳采 开市 修造 竖柱 上梁 开柱眼 安碓磑 归岫 补垣 塞穴 拆卸 放水 出火 扫舍 开生坟 合寿木 安葬 谢土 启钻 除服 成服|嫁娶 安床 作灶 动土 破土 造船', '嫁娶 祭祀 祈福 斋醮 治病 破土 安葬|开市 入宅', '嫁娶 纳采 订盟 祭祀 祈福 求嗣 出行 解除 竖柱 入宅 移徙 纳财 上梁 纳畜 入殓 安葬 启钻|栽种 掘井 动土 安床 破土 置产', '祭祀 裁衣 冠笄 嫁娶 安机械 拆卸 动土 起基 移徙 入宅 入殓 启钻 安葬 造仓 经络|安床 开光 开市 交易', '祭祀 祈福 求嗣 斋醮 开光 出行 嫁娶 求医 治病 动土 破土 入学 起基 扫舍 竖柱 上梁 开仓 出货财 置产 栽种 牧养 开生坟 谢土 立碑|安门 安床 裁衣 入宅 安葬', '沐浴 扫舍 馀事勿取|诸事不宜'),
    ('祭祀 沐浴 理发 纳财 进人口 栽种 扫舍 捕捉 畋猎 结网|会亲友 安葬 入宅 移徙 安床 开市 行丧 出火 作灶 安门', '入殓 除服 成服 移柩 启钻 安葬 立碑 馀事勿取|破土 伐木', '纳采 订盟 祭祀 祈福 安香 出火 修造 出行 开市 移徙 入宅 动土 安葬 破土|安床 作灶 造船 会亲友', '破屋 坏垣 求医 治病|诸事不宜', '纳采 祭祀 祈福 求嗣 斋醮 出行 起基 盖屋 定磉 安门 入殓 安葬|嫁娶 开市 纳财 出火', '嫁娶 祭祀 祈福 求嗣 开光 出行 出火 拆卸 动土 上梁 进人口 入宅 移徙 安床 安门 开市 交易 立券 挂匾 栽种 破土 安葬|', '祭祀 沐浴 理发 整手足甲 修饰垣墙 平治道涂 馀事勿取|开市 入宅 出行 修造 词讼', '嫁娶 出行 开市 安床 入殓 启钻 安葬|祈福 动土 破土', '解除 祭祀 祈福 求嗣 修造 动土 竖柱 上梁 安床 纳畜 盖屋 合脊 起基 入殓 破土 安葬|出火 嫁娶 开光 进人口 出行 词讼 开市 入宅 移徙 赴任', '祭祀 出行 成服 除服 沐浴 入殓|动土 冠笄 移徙 入宅 开市 竖柱 上梁', '嫁娶 裁衣 冠笄 合帐 祭祀 出行 安床 移徙 塞穴 入殓 破土 移柩 安葬|开市 栽种 置产 词讼 安门 掘井 开光', '诸事不宜|'),
    ('纳采 订盟 祭祀 祈福 求嗣 塑绘 解除 拆卸 修造 动土 竖柱 上梁 安门 置产 开池 掘井 纳畜 安床 栽种 造畜稠 破土 移柩 立碑|嫁娶 开市 出火 进人口 入殓 赴任 入宅 移徙 出行 安葬', '祭祀 祈福 斋醮 塑绘 开光 除服 成服 入殓 作灶 嫁娶 捕捉 畋猎 纳财|开仓 盖屋 安葬 安床', '塞穴 结网 取渔 畋猎|嫁娶 安门 移徙 入宅 安葬', '祭祀 动土 上梁 订盟 纳采 嫁娶 安机械 拆卸 安床 入宅 安香 入殓 移柩 破土 安葬 立碑 谢土 赴任 出行 移徙 祈福 求嗣 解除 造仓 进人口|开光 出货财', '祭祀 沐浴 解除 求医 治病 破屋 坏垣 馀事勿取|祈福 斋醮 开市 安葬', '祭祀 开光 出行 解除 塑绘 裁衣 入殓 移柩 破土 启钻 安葬 除服 成服|嫁娶 上梁 修造 拆卸 架马 入宅 伐木 动土 出火 开柱眼', '嫁娶 纳采 祭祀 祈福 出行 立券 移徙 入宅 动土 破土 安葬|开光 作灶 盖屋 架马 开仓', '嫁娶 祭祀 裁衣 结网 冠笄 沐浴|开仓 出货财 置产 安葬 动土 破土 掘井 栽种', '沐浴 理发 会亲友 塑绘 开光 栽种 牧养 嫁娶 经络 补垣 塞穴|开市 入宅 动土 破土 安葬 作灶 上梁 安床 开仓 祈福', '祭祀 沐浴 赴任 出行 馀事勿取|诸事不宜', '祭祀 造车器 出行 修造 上梁 盖屋 安门 安床 造畜稠 教牛马|出货财 开仓 动土 破土 安葬 行丧 伐木 开渠 栽种', '祈福 斋醮 出行 订盟 纳采 入殓 移柩 破土 安葬 立碑 结网|入宅 作灶'),
    ('入宅 移徙 出行 进人口 修造 动土 起基 上梁 安门 造仓 补垣 塞穴 造畜稠|嫁娶 开市 安床 栽种 安葬 祈福 开光 掘井', '祭祀 出行 沐浴 裁衣 祈福 斋醮 订盟 纳采 嫁娶 安机械 开市 立券 安碓磑 纳畜|栽种 入殓 安葬', '纳采 祭祀 祈福 出行 会亲友 修造 动土 移徙 入宅|嫁娶 开市 安葬 破土', '祭祀 开光 塑绘 纳采 裁衣 拆卸 安床 起基 动土 竖柱 上梁 移徙 入宅 安香 开市 立券 挂匾 沐浴 出行 求嗣 安门|嫁娶 栽种 伐木 安葬', '沐浴 捕捉 畋猎 结网 取渔|祭祀 嫁娶 入宅 作灶 安葬', '祭祀 解除 破屋 坏垣 馀事勿取|诸事不宜', '纳采 订盟 冠笄 祭祀 祈福 斋醮 出行 修造 动土 移徙 入宅 安香 出火 拆卸 盖屋 起基 竖柱 上梁 定磉 安门 开池|嫁娶 开市 合寿木 安葬', '入宅 移徙 安床 开光 祈福 求嗣 进人口 开市 交易 立券 出火 拆卸 修造 动土|嫁娶 破土 置产 栽种 安葬 修坟 行丧', '祭祀 理发 作灶 沐浴 修饰垣墙 平治道涂|嫁娶 栽种 祈福 造桥 安葬 安门 伐木 作梁', '诸事不宜|', '祭祀 开光 出行 解除 伐木 作梁 出火 拆卸 入宅 移徙 安床 修造 造畜稠 扫舍|造庙 嫁娶 掘井 栽种 造桥 作灶 动土', '祭祀 沐浴 出行 冠笄 进人口 馀事勿取|嫁娶 动土 安葬 作灶'),
    ('造畜稠 教牛马|入宅 移徙 分居 作灶 出火 安香 动土 嫁娶 掘井 扫舍 造桥', '祭祀 祈福 斋醮 沐浴 安床 安机械 造车器 入殓 移柩 启钻 安葬 立碑 合帐 经络 交易|作灶 掘井 嫁娶 入宅', '纳采 嫁娶 祭祀 祈福 出行 开市 会亲友 动土 破土 启钻|移徙 入宅 出火 安门 安葬', '裁衣 合帐 冠笄 嫁娶 纳婿 安床 入殓 纳财|作灶 开市 安葬 作梁', '祭祀 祈福 求嗣 斋醮 纳采 订盟 开光 竖柱 上梁 开仓 出货财 盖屋 起基 定磉 安门 诸事不宜 破土 入殓 启钻 谢土|出火 嫁娶 开市', '嫁娶 祭祀 祈福 求嗣 开光 出行 拆卸 动土 上梁 出火 进人口 入宅 移徙 安床 栽种 纳畜 牧养 竖柱 安门 修造 解除 会亲友|', '祭祀 沐浴 破屋 坏垣 馀事勿取|入宅 嫁娶 移徙', '祭祀 解除 沐浴 整手足甲 入殓 移柩 破土 启钻 安葬|嫁娶 入宅 移徙 作灶 开市 交易 安门 栽种', '嫁娶 纳采 订盟 祭祀 祈福 斋醮 普渡 移徙 入宅 出行 安机械 开光 修造 动土 竖柱 上梁 盖屋 起基 定磉 安门 安葬 破土|开市 立券 置产 作灶 造桥', '沐浴 入殓 移柩 除服 成服 破土 平治道涂|嫁娶 移徙 入宅 开市', '纳采 订盟 开市 交易 立券 会亲友 纳畜 牧养 问名 移徙 解除 开厕 入学 起基 安床 开仓 出货财 安葬 启钻 入殓 除服 成服|入宅 上梁 斋醮 出火 谢土', '祭祀 祈福 斋醮 塑绘 开光 订盟 纳采 裁衣 冠笄 嫁娶 拆卸 入宅 安香 入殓 移柩 理发 安葬 修坟 谢土 赴任 移徙 沐浴 治病 破土 启钻 整手足甲 入学 作梁|开市'),
    ('订盟 纳采 造车器 祭祀 祈福 出行 安香 修造 动土 上梁 开市 交易 立券 移徙 入宅 会亲友 安机械 栽种 纳畜 盖屋 起基 安床 造畜稠|破土 安葬 行丧 开生坟', '解除 扫舍 祭祀 教牛马 馀事勿取|', '祭祀 祈福 求嗣 斋醮 入殓 除服 成服 移柩 安葬 启钻|嫁娶 动土 开光 盖屋 破土', '祭祀 订盟 纳采 修造 动土 祈福 塑绘 斋醮 沐浴 拆卸 起基 入宅 安香 造庙 移柩 谢土 除服 成服 入学 习艺 出行 竖柱 上梁 掘井 求嗣 解除 伐木|作灶 安葬 开市 盖屋', '祭祀 捕捉 解除 馀事勿取|嫁娶 安葬', '开市 交易 立券 祭祀 祈福 开光 伐木 进人口 安床 拆卸 修造 动土 栽种 破土 移柩 安葬|入宅 移徙 理发 出火 嫁娶 出行', '嫁娶 安机械 交易 出行 祭祀 祈福 求嗣 斋醮 塑绘 开光 合帐 裁衣 放水 开池 掘井|作灶 理发 造桥 行丧 安葬', '破屋 坏垣 馀事勿取|诸事不宜', '祭祀 普渡 捕捉 解除 结网 畋猎 入殓 破土 安葬|开市 交易 入宅 嫁娶', '嫁娶 祭祀 祈福 求嗣 沐浴 出火 出行 拆卸 修造 动土 进人口 开市 交易 立券 入宅 移徙 安床 栽种 纳畜 入殓 安葬 启钻 除服 成服|', '祭祀 平治道涂 馀事勿取|嫁娶 开市', '诸事不宜|'),
    ('订盟 纳采 会亲友 安机械 开光 修造 动土 竖柱 上梁 盖屋 起基 造桥 栽种 纳畜 造畜稠 移柩 入殓 启钻 修坟 立碑 安葬|祈福 出火 嫁娶 入宅 开市 破土', '开市 交易 立券 挂匾 开光 解除 伐木 作梁 出火 入宅 移徙 安床 拆卸 动土 上梁 栽种 纳畜 安葬|嫁娶 祭祀 出行 置产', '纳采 会亲友 竖柱 上梁 立券 入殓 移柩 安葬 启钻|祭祀 移徙 入宅 动土 破土', '订盟 纳采 裁衣 合帐 冠笄 安机械 拆卸 安床 入殓 除服 成服 移柩 破土 启钻 安葬 修坟 立碑 经络 交易 立券 纳财 筑堤 造仓 补垣 塞穴 纳畜 伐木 架马|祭祀 开光 嫁娶 入宅', '纳采 嫁娶 出行 开市 立券 纳畜 牧养 出火 移徙 入宅|祈福 动土 破土 安葬 入殓', '结网 解除 馀事勿取|诸事不宜', '纳采 冠笄 求医 治病 开市 立券 修造 动土 安机械 破土 安葬|斋醮 祭祀 移徙 入宅 上梁 嫁娶', '嫁娶 开光 出行 理发 作梁 出火 拆卸 修造 开市 交易 立券 挂匾 动土 入宅 移徙 安床 栽种|伐木 祭祀 纳畜', '沐浴 破屋 坏垣 馀事勿取|斋醮 开市', '开光 解除 起基 动土 拆卸 上梁 立碑 修坟 安葬 破土 启钻 移柩|嫁娶 出行 安床 作灶 祭祀 入宅 移徙 出火 进人口 置产', '捕捉 畋猎 馀事勿取|开市 交易 祭祀 入宅 安葬', '开市 交易 立券 挂匾 纳财 开光 出行 入宅 移徙 安床 纳畜 入殓 移柩 安葬|栽种 破土 置产 祭祀 嫁娶 动土 作灶 祈福'),
    ('祭祀 平治道涂 修坟 除服 成服 馀事勿取|移徙 入宅 嫁娶 掘井 安葬', '开市 交易 立券 纳财 开池 补垣 嫁娶 纳采 纳畜 取渔 安床|修造 上梁 入宅 祈福 探病 掘井 动土 安门 安葬 作灶', '祭祀 祈福 斋醮 出行 开市 立券 动土 移徙 入宅 破土 安葬|开光 嫁娶 作灶 掘井 纳畜', '祭祀 出行 嫁娶 冠笄 安床 入殓 移柩 安葬|掘井 动土 作灶 栽种', '祭祀 祈福 求嗣 斋醮 冠笄 作灶 纳财 交易|开光 嫁娶 掘井 安葬 安门 探病', '嫁娶 祭祀 祈福 求嗣 开光 开市 交易 立券 安床 出行 拆卸|纳畜 入宅 移徙 安葬 探病 伐木 上梁 安门 入殓 动土', '祭祀 作灶 馀事勿取|开市 安葬 破土 修坟 掘井', '嫁娶 开光 出行 祈福 求嗣 解除 拆卸 动土 修造 进人口 开市 交易 立券 挂匾 入宅 移徙 安床 栽种 纳畜 入殓 移柩 安葬|', '订盟 纳采 祭祀 祈福 安香 出火 开市 立券 入宅 挂匾 造桥 启钻 安葬|动土 破土 嫁娶 掘井 安床', '破屋 坏垣 馀事勿取|诸事不宜', '嫁娶 纳采 订盟 祭祀 祈福 求嗣 斋醮 开光 安香 出火 造庙 移徙 出行 入宅 起基 竖柱 上梁 安床 纳畜 捕捉 纳婿 安葬|开市 破土 掘井 合寿木', '嫁娶 祭祀 祈福 求嗣 开光 出行 解除 出火 拆卸 进人口 入宅 移徙 安床 栽种 动土 修造 纳畜 入殓 安葬 立碑 除服 成服|'),
    ('嫁娶 冠笄 祭祀 祈福 求嗣 雕刻 开光 安香 出行 入学 修造 动土 竖柱 上梁 盖屋 起基 安门 出火 移徙 入宅 掘井 造畜稠 安葬 破土 除服 成服|开市 纳采 订盟 作灶 造庙 造船 经络', '祭祀 解除 修饰垣墙 平治道涂 馀事勿取|', '会亲友 求嗣 理发 冠笄 结网 捕捉 开光|开市 动土 安葬 破土', '塞穴 诸事不宜|安门 作灶 安葬 嫁娶', '祭祀 解除 教牛马 出行 馀事勿取|动土 破土 行丧 开光 作梁 安葬 探病', '嫁娶 祭祀 祈福 求嗣 出行 出火 拆卸 修造 动土 入宅 移徙 安床 作灶 塞穴 栽种 破土 安葬|开光 掘井 开仓', '祭祀 祈福 求嗣 斋醮 安香 解除 移徙 入宅 会亲友 求医 治病 动土 破土 开生坟 合寿木|合帐 上梁 经络 安葬 入殓', '祭祀 作灶 纳财 栽种 纳畜 进人口|安葬 经络 修坟 破土 开市 安床 启钻 立碑', '嫁娶 祭祀 祈福 斋醮 普渡 移徙 入宅 动土 治病 开市 交易 立券 开光 修造 造车器 安香 安床 捕捉 畋猎 结网|纳采 订盟 经络 行丧 安葬 探病', '嫁娶 祈福 求嗣 出行 出火 拆卸 修造 动土 上梁 开光 进人口 开市 交易 立券 挂匾 安床 入宅 移徙 栽种 伐木 入殓 破土 除服 成服|', '祭祀 沐浴 解除 破屋 坏垣 馀事勿取|开市 嫁娶', '开光 解除 拆卸 修造 动土 安床 纳畜 安葬 启钻 入殓|嫁娶 开市 出火 栽种 破土 入宅 移徙 安香 分居 掘井 作灶'),
    ('嫁娶 订盟 纳采 祭祀 祈福 求嗣 斋醮 安香 出火 修造 起基 盖屋 合脊 安门 安碓磑 动土 上梁 移徙 入宅|出行 掘井 破土 行丧 安葬', '嫁娶 祭祀 祈福 求嗣 动土 会亲友 起基 造仓 纳畜 牧养 开厕 进人口|掘井 安葬 栽种 出行 作灶 开市 入宅 安门', '祭祀 平治道涂 馀事勿取|嫁娶 祈福 掘井 安葬', '开光 塑绘 求嗣 纳采 裁衣 合帐 冠笄 安机械 作梁 开柱眼 安门 安床 造仓 祭祀 会亲友 祈福 经络 纳财 开市 立券 交易 入学 理发 架马|出行 斋醮 安葬 嫁娶', '沐浴 斋醮 解除 求医 治病 会亲友 造畜稠 栽种 理发 扫舍|开市 嫁娶 移徙 入宅 掘井 安葬', '解除 扫舍 馀事勿取|诸事不宜', '嫁娶 冠笄 修造 动土 作灶 移徙 入宅 补垣 塞穴 纳畜 牧养 架马 起基 定磉 开池 造船|祈福 开光 掘井 开市 安葬', '祭祀 祈福 求嗣 开光 开市 牧养 理发|嫁娶 出行 安葬 入殓 入宅 作灶 冠笄 上梁', '嫁娶 订盟 纳采 作灶 冠笄 裁衣 会亲友 纳畜 牧养 安机械 开市 立券 纳财 安床|掘井 出行 破土 行丧 安葬', '开市 交易 立券 挂匾 祭祀 开光 进人口 入宅 安床 出火 拆卸 修造 动土 栽种|嫁娶 立碑 出行 伐木 安葬 行丧 移徙 纳畜', '订盟 纳采 会亲友 交易 立券 纳财 栽种 纳畜 牧养|嫁娶 开市 入宅 祈福 安葬', '破屋 坏垣 馀事勿取|诸事不宜'),
    ('祭祀 沐浴 破屋 坏垣 馀事勿取|嫁娶 移徙 入宅 探病 出行 盖屋', '嫁娶 祭祀 祈福 求嗣 开光 入宅 移徙 安床 修造 动土 进人口|掘井 安葬 栽种 出行 作灶 开市 安门', '祈福 求嗣 斋醮 纳采 嫁娶 伐木 修造 动土 移徙 入宅 造庙 安机械 开市 入殓 除服 成服 移柩 安葬 破土 谢土|置产 盖屋 合脊 开光 探病 安门 作灶', '祭祀 嫁娶 纳婿 安葬|栽种 盖屋 作灶 入宅', '求嗣 出行 解除 订盟 纳采 嫁娶 会亲友 进人口 安床 开市 交易 纳畜 牧养 入殓 除服 成服 移柩 安葬 启钻|祈福 修造 动土 破土 谢土', '开市 交易 立券 挂匾 开光 出行 拆卸 进人口 入宅 移柩 动土 安门 上梁 栽种 破土 修坟 安葬|嫁娶 安床 探病 作灶', '祭祀 交易 纳财|斋醮 开渠 上梁 动土 破土', '祭祀 入殓 破土 除服 成服 移柩 启钻 安葬 谢土 馀事勿取|', '嫁娶 订盟 纳采 祭祀 斋醮 普渡 解除 出行 会亲友 开市 纳财 修造 动土 竖柱 上梁 开光 开仓 出货财 纳畜 牧养 开池 破土 启钻|出火 入宅 盖屋 安门 安葬', '祭祀 理发 会亲友 进人口 嫁娶 针灸 入殓 移柩|探病 开渠 安葬 伐木 作灶 入宅', '造车器 嫁娶 订盟 纳采 会亲友 祭祀 出行 开市 立券 移徙 入宅 破土 安葬|上梁 开光 盖屋 架马 合寿木', '嫁娶 祭祀 开光 出火 出行 拆卸 修造 动土 解除 开市 交易 立券 挂匾 纳财 入宅 移徙 安床 栽种 纳畜|探病 安葬'),
    ('冠笄 纳财 掘井 开池 出火 安床 交易 立券 畋猎 结网 理发 放水|安门 动土 破土 行丧 安葬 成服', '破屋 坏垣 馀事勿取|诸事不宜', '入学 习艺 出行 纳采 订盟 嫁娶 会亲友 进人口 牧养 捕捉 入殓 移柩 安葬 启钻|开光 开市 入宅 动土 盖屋', '祭祀 会亲友 订盟 裁衣 合帐 安机械 拆卸 上梁 安门 入殓 除服 成服 移柩 启钻 安葬 立碑 开光 塑绘 入学 出行 起基 定磉 放水 移徙 入宅 竖柱 立券 经络|伐木 作梁', '祭祀 作灶 平治道涂 馀事勿取|嫁娶 安葬 动土 安床 治病', '进人口 会亲友|塞穴 上梁 动土 伐木 安葬 词讼', '嫁娶 订盟 纳采 冠笄 会亲友 安机械 造车器 祭祀 出行 纳财 入宅 安香 出火 入学 塑绘 开光 拆卸 起基 修造 动土 牧养 栽种 安门 开厕|行丧 伐木 作梁 作灶', '祭祀 出行 交易 割蜜 造畜稠|嫁娶 作灶 安葬 动土 词讼 作梁 伐木 掘井 破土 移徙', '嫁娶 普渡 祭祀 祈福 补垣 塞穴 断蚁 筑堤 入殓 除服 成服 安葬|动土 破土 掘井 开光 上梁 词讼', '祭祀 立碑 修坟 启钻 除服 成服 馀事勿取|', '祭祀 作灶 纳财 捕捉 畋猎 馀事勿取|动土 破土 开市 安葬', '祭祀 祈福 求嗣 开光 解除 理发 会亲友 栽种 纳畜 牧养 安葬 修坟 立碑 启钻|入宅 作灶 词讼 移徙 出行 赴任'),
    ('纳采 订盟 移徙 入宅 出行 安机械 会亲友 祭祀 祈福 斋醮 开光 安香 出火 解除 求医 针灸 治病 盖屋 起基 修造 安门 造船 纳畜 牧养 移柩 入殓 启钻 谢土 修坟 立碑|嫁娶 动土 安床 造桥 掘井', '嫁娶 开市 交易 立券 开光 出行 出火 拆卸 修造 入宅 移徙 动土 破土 移柩 安葬 启钻 除服 成服|安床 伐木 祈福 纳畜', '祭祀 沐浴 求医 治病 扫舍 破屋 坏垣 解除 馀事勿取|入宅 开市 安葬', '祭祀 开光 塑绘 祈福 斋醮 裁衣 合帐 冠笄 嫁娶 拆卸 动土 移徙 入宅 入殓 移柩 安葬 谢土 求嗣 入学 理发 伐木 架马 作梁 出火 修造 起基 定磉 放水 赴任|安门', '造车器 祭祀 祈福 求嗣 斋醮 开市 交易 安机械 雕刻 开光 盖屋 合脊 起基 定磉 安门 纳畜 安葬 开生坟 立碑 谢土|入宅 动土 开仓 出货财', '沐浴 平治道涂 扫舍 入殓 破土 安葬 除服 成服|嫁娶 移徙 伐木 作梁 安床 祭祀 祈福 盖屋', '开光 求嗣 出行 冠笄 嫁娶 伐木 架马 开柱眼 修造 移徙 入宅 开市 交易 立券 安香 出火 挂匾 起基 开生坟 合寿木 入殓 除服 成服 移柩 安葬|安床 出货财 作灶 动土 破土', '嫁娶 祭祀 祈福 求嗣 开光 出火 拆卸 修造 动土 进人口 开市 交易 立券 挂匾 入宅 移徙 栽种 纳畜 入殓 启钻 除服 成服|', '嫁娶 冠笄 祭祀 沐浴 普渡 出行 纳财 扫舍 纳畜 赴任|开市 动土 破土 安床 开仓 上梁', '嫁娶 出行 伐木 拆卸 修造 动土 移徙 安葬 破土 修坟 立碑|掘井 祈福 安床 开市 入宅 挂匾 开光', '嫁娶 订盟 纳采 祭祀 祈福 出行 求医 治病 出火 移徙 入宅|开市 开仓 出货财 安床 安门 安葬', '祭祀 沐浴 结网 移柩 入殓 除服 成服|安床 开市 交易 出货财 安葬 修坟 嫁娶 作灶'),
    ('祭祀 沐浴 作灶 纳财 捕捉 畋猎 安床 扫舍|开市 斋醮 破土 安葬', '祭祀 入殓 破土 除服 成服 启钻 安葬 修坟 立碑 馀事勿取|', '祭祀 冠笄 嫁娶 拆卸 修造 动土 起基 上梁 盖屋 入宅 开市 开池 塞穴 入殓 除服 成服 移柩 安葬 破土|安床 栽种 治病 作灶', '祭祀 治病 破屋 坏垣 馀事勿取|诸事不宜', '祭祀 祈福 开光 求嗣 斋醮 纳采 订盟 求医 治病 起基 定磉 造船 取渔 解除 安葬 启钻 谢土 入殓|开市 动土 掘井 开池', '嫁娶 祭祀 祈福 求嗣 开光 出火 出行 拆卸 动土 解除 进人口 开市 交易 立券 挂匾 入宅 移徙 安床 安门 上梁 安葬 破土 谢土|', '祭祀 沐浴 理发 嫁娶 作灶 整手足甲 扫舍 修饰垣墙 平治道涂|斋醮 出行 治病 合寿木', '嫁娶 开光 解除 安床 牧养 理发 开市 入殓 启钻 移柩 安葬 扫舍|作灶 动土 上梁 栽种 入宅 移徙 修造 祈福', '祭祀 沐浴 理发 整手足甲 冠笄 解除 入殓 移柩 破土 启钻 安葬|嫁娶 出行 入宅 开市 安门', '祭祀 出行 扫舍 馀事勿取|诸事不宜', '冠笄 祭祀 沐浴 作灶 理发 整手足甲 扫舍 补垣 塞穴 入殓 破土 启钻|开光 嫁娶 会亲友 栽种 针灸 安葬', '解除 馀事勿取|'),
    ('祈福 斋醮 纳采 订盟 解除 架马 开柱眼 修造 动土 起基 上梁 归岫 盖屋 合脊 掘井 除服 成服 破土 栽种|移徙 开市 入宅 安葬', '祭祀 解除 馀事勿取|诸事不宜', '祭祀 结网 入殓 除服 成服 移柩 安葬 破土|馀事勿取', '嫁娶 祭祀 出行 冠笄 立券 交易 进人口 开市 移徙 修造 动土 安床 入殓 移柩 破土|开光 作灶 斋醮 安葬', '祭祀 沐浴 破屋 坏垣 求医 治病 解除 馀事勿取|嫁娶 开市 交易 入宅 安葬', '祭祀 祈福 求嗣 开光 解除 合帐 冠笄 伐木 架马 作梁 修造 进人口 嫁娶 裁衣 安床 动土 起基 上梁 竖柱 放水 会亲友|', '安机械 移徙 入宅 出行 祭祀 祈福 斋醮 纳采 订盟 安香 出火 解除 会亲友 修造 动土 拆卸 起基 定磉 盖屋 安床 破土 安葬 入殓 立碑|开市 伐木 作梁 作灶', '祭祀 解除 馀事勿取|诸事不宜', '塑绘 冠笄 嫁娶 会亲友 进人口 经络 裁衣 栽种 纳畜 牧养 补垣 塞穴 捕捉|祈福 开市 动土 行丧 安葬', '嫁娶 祭祀 塑绘 开光 出行 解除 理发 整手足甲 动土 安床 开池 放水 扫舍|伐木 行丧 作灶 作梁 安葬', '纳采 订盟 嫁娶 祭祀 祈福 求嗣 置产 求医 治病 开市 交易 立券 会亲友 移徙 竖柱 上梁 盖屋 合脊 安门 放水 捕捉 纳畜|造庙 造船 动土 破土 安葬', '安床 祭祀 开池 补垣 入殓 移柩 破土 启钻|入宅 移徙 嫁娶 掘井 作灶 出火 进人口 开市 开光'),
    ('纳采 订盟 祭祀 沐浴 冠笄 合帐 裁衣 修造 动土 拆卸 移徙 入宅 安门 开仓 筑堤 开厕 栽种 纳畜 补垣 塞穴|嫁娶 祈福 开光 掘井 安葬 行丧', '开市 交易 立券 纳财 纳畜 造畜稠 入宅 移徙 安床 开光 祈福 求嗣 动土|嫁娶 栽种 安葬 理发 造庙 作灶 入殓 行丧 造桥', '塑绘 开光 祈福 求嗣 订盟 纳采 裁衣 冠笄 拆卸 修造 动土 起基 安门 安床 移徙 造仓 结网 纳畜|伐木 作灶 安葬 取渔 入宅', '开市 立券 交易 挂匾 祭祀 祈福 开光 入宅 移徙 安床 拆卸 动土 上梁 进人口|嫁娶 行丧 架马 作梁 理发 牧养 安葬 纳畜 伐木', '诸事不宜|', '破屋 坏垣 沐浴 解除 馀事勿取|诸事不宜', '祭祀 沐浴 捕捉 结网 畋猎 取渔 馀事勿取|开市 交易 嫁娶 安葬 行丧', '祭祀 祈福 求嗣 开光 伐木 出火 拆卸 入宅 安床 修造 动土 上梁 挂匾 纳畜|嫁娶 栽种 行丧 理发 修坟 作灶', '出行 沐浴 订盟 纳采 裁衣 竖柱 上梁 移徙 纳畜 牧养|嫁娶 安门 动土 安葬', '开市 交易 立券 挂匾 开光 出行 入宅 移徙 安床 出火 上梁|作灶 行丧 理发 乘船 嫁娶 安葬', '出行 造车器 造畜稠 解除 冠笄 裁衣 作梁 雕刻 会亲友 移徙 入宅 安机械 开市 扫舍|嫁娶 动土 破土 修坟', '祭祀 沐浴 馀事勿取|'),
    ('合帐 裁衣 教牛马 馀事勿取|入宅 动土 破土 嫁娶 作灶 造船', '安床 裁衣 交易 立券 入殓 移柩 安葬 除服 成服|置产 嫁娶 出行 开光 栽种 动土 破土 入宅 治病', '祭祀 沐浴 开光 塑绘 祈福 求嗣 订盟 纳采 冠笄 裁衣 嫁娶 动土 除服 成服 移柩 破土 启钻 出行 安碓磑 放水 开市 立券 交易|安葬 上梁 入宅 作灶', '理发 冠笄 嫁娶 进人口|置产 伐木 纳畜 造畜稠 安葬 破土 作梁 作灶 开生坟', '祭祀 塑绘 开光 订盟 纳采 冠笄 裁衣 安机械 拆卸 修造 动土 安床 经络 开市|出火 入宅 安葬 伐木', '纳采 订盟 嫁娶 造车器 祭祀 祈福 求嗣 开光 出火 拆卸 修造 动土 进人口 挂匾 入宅 移徙 安床 栽种 入殓 破土 安葬 除服 成服|开市 立券', '破屋 坏垣 求医 治病 畋猎 馀事勿取|嫁娶 入宅', '解除 祭祀 理发 入殓 安葬 破土|嫁娶 开市 出火 作灶 置产 斋醮 入宅 移徙 安门', '纳采 订盟 嫁娶 祭祀 祈福 普渡 开光 安香 出火 移徙 入宅 竖柱 修造 动土 上梁 起基 盖屋 安门 造庙 造桥 破土 启钻 安葬|开市 立券 纳财 作灶', '祭祀 沐浴 修饰垣墙 平治道涂 馀事勿取|诸事不宜', '沐浴 理发 冠笄 安床 开市 立券 会亲友 交易 纳财 结网 教牛马|移徙 入宅 出行 祈福 嫁娶', '嫁娶 开光 出行 解除 出火 拆卸 修造 进人口 动土 入宅 移徙 栽种 纳畜 掘井 安葬 除服 成服|置产 安床'),
    ('纳采 订盟 嫁娶 祭祀 祈福 安香 出火 出行 会亲友 经络 求医 治病 解除 拆卸 起基 修造 动土 定磉 扫舍 栽种 牧养 造畜稠|斋醮 作梁 掘井 行丧 安葬', '祭祀 解除 造畜稠 教牛马 针灸 馀事勿取|嫁娶 动土 开池 安葬', '祭祀 祈福 求嗣 酬神 裁衣 安床 立券 交易 入殓 除服 成服 移柩 谢土 启钻|出行 嫁娶 入宅 动土', '嫁娶 祭祀 开光 祈福 求嗣 出火 入宅 移徙 安床 拆卸 动土 破土 谢土|合帐 开市 安葬 入殓', '祭祀 馀事勿取|造庙 嫁娶 安床', '开市 交易 立券 祭祀 祈福 开光 动土 安床 出行 栽种 纳畜 牧养 竖柱 上梁 解除 破土|嫁娶 掘井 入宅 移徙 安葬', '嫁娶 出行 安机械 祭祀 塑绘 开光 治病 经络 安床 结网 塞穴 破土 入殓|开市 安门 掘井 作灶', '破屋 坏垣 馀事勿取|诸事不宜', '祭祀 捕捉 畋猎 纳畜 牧养 入殓 除服 成服 移柩 破土 安葬 启钻|嫁娶 纳采 订盟 开市 入宅', '嫁娶 祭祀 祈福 求嗣 开光 出行 出火 拆卸 修造 动土 进人口 入宅 移徙 安床 开市 交易 立券 挂匾 栽种 纳畜 入殓 安葬 除服 成服|', '祭祀 造畜稠 修饰垣墙 平治道涂 馀事勿取|嫁娶 开市 安床 掘井', '开光 裁衣 安门 会亲友 安床 结网 理发|嫁娶 冠笄 出行 祈福 安葬 伐木 入宅 移徙 出火 栽种 动土 上梁'),
    ('纳财 开市 交易 立券 会亲友 进人口 经络 祭祀 祈福 安香 出火 求医 治病 修造 动土 拆卸 扫舍 安床 栽种 牧养 开生坟 合寿木 入殓 安葬 启钻|嫁娶 移徙 入宅', '沐浴 塑绘 开光 纳采 订盟 开市 交易 立券 纳财 起基 动土 定磉 放水 安葬 破土 启钻 修坟 立碑 移柩|入宅 安门 祭祀 谢土', '裁衣 合帐 入殓 除服 成服 会亲友 纳财|祭祀 祈福 移徙 嫁娶 入宅', '安床 伐木 拆卸 修造 动土 上梁 立券 交易 栽种 纳畜 牧养 入殓 安葬|嫁娶 祭祀 开光 出行 出火 移徙 入宅 安门', '订盟 纳采 嫁娶 进人口 会亲友 交易 立券 动土 除服 谢土 移柩 破土 启钻 赴任 出行 开市 纳财 栽种|入殓 安葬 入宅 安床', '解除 出行 纳采 冠笄 竖柱 上梁 移徙 作灶 进人口 入宅 纳畜 牧养|祭祀 伐木 架马 安床 修造 动土 安葬 修坟 破土', '订盟 纳采 会亲友 进人口 雕刻 拆卸 修造 动土 起基 开市 栽种 纳畜 牧养 入殓 除服 成服 移柩 破土 安葬|', '开市 交易 立券 纳财 动土 开光 出行 嫁娶 纳采 订盟 入学 开仓 出货财 纳畜 牧养 栽种 破土 启钻 安葬 立碑|入宅 移徙 作灶 祭祀 谢土', '破屋 坏垣 治病 馀事勿取|行丧 安葬', '解除 坏垣 馀事勿取|诸事不宜', '捕捉 结网 入殓 除服 成服 移柩 破土 安葬 启钻 立碑|嫁娶 祭祀 入宅 盖屋 移徙', '嫁娶 开光 出行 出火 拆卸 修造 动土 入宅 移徙 安床 上梁 开市 交易 立券 栽种|祈福 祭祀 伐木 掘井 作灶 谢土'),
    ('祭祀 入殓 移柩 馀事勿取|入宅 修造 动土 破土 安门 上梁', '嫁娶 出行 理发 安床 启钻 安葬 修坟 开市 交易 立券 纳财 开池 牧养|掘井 祈福 谢土 动土 入宅 上梁 修造 作灶', '祭祀 斋醮 裁衣 合帐 冠笄 订盟 纳采 嫁娶 入宅 安香 谢土 入殓 移柩 破土 立碑 会亲友 出行 祈福 求嗣 上梁 放水|掘井', '祭祀 祈福 求嗣 斋醮 嫁娶 冠笄 出行 开市 交易 会亲友 教牛马 除服 成服 启钻 安葬 移柩|动土 移徙 入宅', '祭祀 祈福 裁衣 合帐 安床 入殓 除服 成服 移柩 破土 启钻 安葬 谢土 立碑 造畜稠|掘井 安门 嫁娶 纳采', '祭祀 祈福 求嗣 开光 出行 开市 交易 立券 栽种 安床 纳畜 移徙 起基 动土 定磉 造仓 置产 破土 启钻 修坟|入宅 修造 安门 伐木 入殓 安葬 盖屋', '祭祀 捕捉 取渔 修饰垣墙 馀事勿取|诸事不宜', '嫁娶 纳采 订盟 祭祀 祈福 求嗣 开光 出火 出行 拆卸 修造 动土 进人口 开市 交易 立券 挂匾 入宅 移徙 安床 栽种 入殓 破土 谢土 安葬|掘井 伐木 纳畜 合寿木', '祈福 斋醮 出行 冠笄 嫁娶 雕刻 开柱眼 入宅 造桥 开市 交易 立券 纳财 入殓 除服 成服 移柩 破土 安葬 启钻|动土 订盟 安床 开池', '祭祀 治病 破屋 坏垣 馀事勿取|诸事不宜', '祭祀 祈福 求嗣 斋醮 造庙 出火 安机械 会亲友 开市 交易 立券 纳财 习艺 经络 求医 治病 开池 开厕 畋猎 结网 栽种 牧养 安葬 破土 启钻|开光 嫁娶 掘井 伐木 作梁', '嫁娶 祭祀 祈福 求嗣 开光 出火 出行 拆卸 开市 交易 立券 挂匾 伐木 入宅 移徙 安床 安葬|栽种 掘井 置产'),
    ('塑绘 开光 订盟 纳采 裁衣 冠笄 拆卸 修造 安床 入宅 出火 安葬 谢土 赴任|掘井 伐木 斋醮 作灶', '解除 平治道涂 馀事勿取|移徙 入宅 掘井 造庙 栽种 针灸 治病 开池', '安床 合帐 入宅 问名 纳采 求嗣 祭祀 开仓|斋醮 作灶 安葬', '塞穴 整手足甲 解除 捕捉 畋猎 结网 馀事勿取 诸事不宜|嫁娶 作灶 掘井 安葬', '祭祀 进人口 嫁娶 安床 解除 冠笄 出行 裁衣 扫舍|掘井 动土 破土 安葬 开光', '嫁娶 交易 立券 开厕 补垣 塞穴 畋猎 取渔 开生坟|安床 开渠 上梁 修造 开市 开光 入宅 移徙', '嫁娶 纳采 祭祀 祈福 求医 治病 出行 动土 移徙 入宅|开市 安门', '祭祀 冠笄 作灶 交易 纳财 栽种 结网 纳畜 牧养 进人口|开渠 造船 安床 安葬 破土 出行 修坟 掘井 开市 开生坟', '祈福 求嗣 解除 订盟 纳采 动土 起基 放水 造仓 开市 纳畜 牧养 开生坟 入殓 除服 成服 移柩 破土 安葬|', '嫁娶 纳采 订盟 祭祀 开光 出行 理发 作梁 出火 拆卸 修造 动土 进人口 入宅 移徙 安床 挂匾 栽种 纳畜 破土 安葬 入殓 除服 成服|开市 掘井 开渠 造桥 造船', '破屋 坏垣 馀事勿取|诸事不宜', '祭祀 理发 针灸 解除 进人口 整手足甲|嫁娶 动土 造船 开池 掘井 出行 修造 入宅 上梁 移徙 安葬 破土 作灶 开市'),
    ('祭祀 塑绘 开光 裁衣 冠笄 嫁娶 纳采 拆卸 修造 动土 竖柱 上梁 安床 移徙 入宅 安香 结网 捕捉 畋猎 伐木 进人口 放水|出行 安葬 修坟 开市', '嫁娶 祭祀 开光 伐木 出火 拆卸 入宅 移徙 修造 动土 上梁 安床 纳畜|开市 行丧 栽种 出行 出货财 安葬 置产 词讼 治病', '作灶 平治道涂|祭祀 祈福 安葬 安门 馀事勿取', '纳财 开市 立券 交易 开光 安床 上梁 盖屋 修造 起基|动土 破土 安葬 行丧 赴任 出行 嫁娶 入宅 移徙 谢土 词讼', '纳采 开光 求医 治病 动土 上梁 移徙 入宅|嫁娶 开市 安葬', '塞穴 断蚁 结网 畋猎 馀事勿取|嫁娶 安葬 入宅 出行 动土 词讼', '裁衣 作灶 移徙 入宅 纳畜|嫁娶 安葬', '嫁娶 订盟 祭祀 祈福 求嗣 纳采 裁衣 冠笄 开光 安床 作梁 修造 动土 作灶 起基 上梁 盖屋 纳畜 牧养|移徙 栽种 出行 行丧 破土 安葬 词讼', '塑绘 开光 解除 订盟 纳采 嫁娶 出火 修造 动土 移徙 入宅 拆卸 起基 安门 分居 开市 交易 立券 纳财 纳畜 牧养|', '开市 交易 立券 纳财 挂匾 栽种 祭祀 祈福 开光 拆卸 动土 安床|嫁娶 破土 进人口 出行 入宅 移徙 出火 纳畜 词讼 安葬', '会亲友 嫁娶 订盟 纳采 纳婿 拆卸 修造 动土 起基 竖柱 上梁 安床 纳财|出行 祈福 安葬 作灶', '破屋 坏垣 求医 治病 馀事勿取|嫁娶 安葬'),
    ('祭祀 求医 破屋 坏垣 馀事勿取|诸事不宜', '嫁娶 纳采 订盟 入宅 移徙 安床 祭祀 祈福 开光 出行 解除 出火 拆卸 动土 纳畜 谢土 安葬 破土|伐木 开市 交易 上梁 作灶 安门 盖屋', '塑绘 开光 酬神 斋醮 订盟 纳采 裁衣 合帐 拆卸 动土 上梁 安床 安香 造庙 挂匾 会亲友 进人口 出行 修造 纳财 伐木 放水 出火 纳畜 沐浴 安门|盖屋 栽种 安葬 作灶', '祭祀 祈福 嫁娶 冠笄 修饰垣墙 置产 平治道涂|开仓 出货财 盖屋 作灶 开市 交易 立券 栽种', '祭祀 会亲友 开市 安床 启钻 安葬|嫁娶 动土 破土', '纳采 订盟 嫁娶 祭祀 祈福 求嗣 开光 解除 出行 出火 入宅 移徙 栽种 纳畜 牧养 动土 破土 入殓 安葬|作灶 安床 开仓 盖屋', '祭祀 入殓 移柩 启钻 安葬|上梁 动土 破土', '经络 祭祀 沐浴 补垣 塞穴 除服 成服 移柩 入殓 启钻 立碑|开光 治病 嫁娶 掘井 破土 安葬', '祈福 出行 订盟 纳采 嫁娶 裁衣 动土 安床 放水 开市 掘井 交易 立券 栽种 开渠 除服 成服 移柩 破土|', '嫁娶 祭祀 理发 进人口 作灶 移柩 冠笄 会亲友|开仓 出货财 伐木 纳畜 开市 上梁 盖屋 破土 启钻 栽种', '祭祀 塑绘 开光 祈福 斋醮 出行 订盟 纳采 裁衣 嫁娶 拆卸 修造 安床 入宅 安香 入殓 启钻 安葬 谢土 赴任 会亲友 进人口 移徙 上梁 经络 开市 交易 立券 纳财|开仓 冠笄 伐木 作梁', '纳采 订盟 嫁娶 祭祀 祈福 雕刻 移徙 开市 入宅 出行 动土 会亲友 入学 修造 起基 安门 安床 造庙 解除 纳财 开池 造畜稠 牧养|上梁 开仓 出货财 盖屋 造船'),
    ('祭祀 祈福 斋醮 出行 冠笄 安机械 移徙 入宅 安香 安床 除服 成服 移柩 启钻|开光 栽种 治病 安门 作灶', '祭祀 破屋 坏垣 解除 馀事勿取|开市 动土 破土', '祭祀 祈福 酬神 订盟 纳采 冠笄 裁衣 合帐 嫁娶 安床 移徙 入宅 安香 入殓 移柩 启钻 安葬 解除 取渔 捕捉 伐木 安门 出火|栽种 动土 开市 作灶', '嫁娶 祭祀 开光 祈福 求嗣 出行 出火 进人口 入宅 移徙 安床 拆卸 修造 安门 挂匾 纳财 扫舍|动土 伐木 安葬 行丧', '祭祀 作灶 掘井 平治道涂|嫁娶 安葬', '开光 纳采 裁衣 冠笄 安床 作灶 进人口 造仓 塞穴|嫁娶 栽种 修造 动土 出行 伐木 作梁 安葬 谢土', '订盟 纳采 出行 祈福 斋醮 安床 会亲友|移徙 入宅 安葬', '嫁娶 祭祀 出行 裁衣 冠笄 交易 雕刻 纳财 造畜稠 造车器 教牛马|移徙 入宅 栽种 动土 破土 作灶 安葬 行丧 伐木 上梁', '嫁娶 祭祀 祈福 斋醮 作灶 移徙 入宅|动土 破土', '祭祀 修坟 除服 成服 启钻 移柩 馀事勿取|开市 入宅 嫁娶 动土 破土 安葬', '祭祀 作灶 入殓 除服 成服 畋猎|栽种 动土 安葬 开市', '祭祀 祈福 求嗣 开光 解除 伐木 拆卸 修造 栽种 纳畜 安葬 修坟 立碑|嫁娶 进人口 入宅 移徙 出火 出行'),
    ('塑绘 斋醮 出行 拆卸 解除 修造 移徙 造船 入殓 除服 成服 移柩 启钻 修坟 立碑 谢土|', '嫁娶 纳采 订盟 开光 安香 出火 纳财 开市 交易 立券 裁衣 盖屋 起基 修造 动土 安门 移徙 入宅 栽种 牧养 畋猎 掘井 开池 安葬 破土 入殓 除服 成服 立碑|祈福 造庙 祭祀 安床 谢土', '求医 破屋|诸事不宜', '嫁娶 开光 祭祀 祈福 求嗣 出行 出火 入宅 移徙 解除 栽种 伐木 破土 谢土 安葬|开市 交易 作灶 纳财 上梁 安床 盖屋 造船', '祭祀 斋醮 开市 动土 入殓 破土 安葬|嫁娶 移徙 入宅', '纳采 嫁娶 裁衣 理发 出行 修造 动土 进人口 开市 交易 立券 挂匾 移徙 上梁 栽种 纳畜|伐木 安葬 安床 祭祀 祈福', '嫁娶 纳采 出行 求医 治病 开市 移徙 入宅 启钻 安葬|动土 破土', '修造 动土 安机械 祭祀 沐浴 解除 拆卸 治病 作灶 盖屋 起基 开池 扫舍 造畜稠 开生坟 合寿木 安葬 破土 启钻 移柩 入殓 立碑|开市 入宅 出行 安床', '嫁娶 出行 纳畜 祭祀 入殓 启钻 安葬|作灶 动土 破土', '嫁娶 冠笄 安机械 解除 纳畜 牧养 沐浴 伐木 架马 作梁 安门 扫舍 合寿木 安葬 启钻 立碑 修坟|祈福 开光 开市 入宅 动土', '祭祀 祈福 斋醮 沐浴 竖柱 订盟 纳采 嫁娶 拆卸 入宅 移柩 启钻 谢土 赴任 出火 纳畜|作灶 入殓 安葬 安床', '沐浴 扫舍 捕捉 畋猎 解除 塞穴 馀事勿取|嫁娶 入宅 开市 安床 破土 修坟'),
    ('祭祀 沐浴 安床 纳财 畋猎 捕捉|开市 破土', '祭祀 斋醮 入殓 破土 启钻 安葬 修坟 立碑 除服 成服|嫁娶 入宅 作灶 纳采 订盟', '祈福 求嗣 斋醮 塑绘 开光 订盟 纳采 嫁娶 动土 入宅 安香 移柩 安葬 谢土 出行 沐浴 修造 竖柱 上梁 纳财 破土 解除 安门 放水|作灶 安床', '破屋 坏垣 求医 治病 馀事勿取|开光 嫁娶', '嫁娶 纳采 祭祀 祈福 出行 移徙 求医|开市 动土 破土', '开市 交易 立券 挂匾 祭祀 祈福 斋醮 出行 盖屋 起基 修造 动土 定磉 安床 安机械 安葬 破土 启钻 除服 成服 立碑|作灶 嫁娶 移徙 入宅 理发', '嫁娶 祭祀 沐浴 扫舍 修饰垣墙|行丧 安葬', '嫁娶 纳采 订盟 造车器 开光 出行 拆卸 起基 安床 除服 成服 开市 交易 立券 栽种 牧养 入殓 移柩 启钻|上梁 入宅 修造 动土 破土 祭祀 祈福 斋醮', '订盟 纳采 祭祀 祈福 修造 动土 上梁 破土 安葬|嫁娶 开市', '祭祀 出行 沐浴 扫舍 安葬 馀事勿取|动土 破土 置产 掘井', '嫁娶 祭祀 安机械 入殓 破土 安葬|动土 上梁', '嫁娶 冠笄 祭祀 祈福 求嗣 斋醮 开光 出行 解除 动土 开市 交易 立券 挂匾 拆卸 破土|伐木 上梁 修造 入殓 理发 会亲友 入宅 安门 安葬 作灶'),
    ('订盟 纳采 祭祀 祈福 修造 动土 上梁 破土|嫁娶 作灶', '祭祀 斋醮 纳财 捕捉 畋猎|嫁娶 开市 入宅 安床 破土 安葬', '取渔 入殓 除服 成服 移柩 破土 安葬 立碑|嫁娶 上梁 入宅 作灶', '纳采 交易 立券 安床 安机械 安葬 移柩 动土 破土 立碑|嫁娶 开光 作灶', '祭祀 求医 治病 解除 馀事勿取|诸事不宜', '嫁娶 纳采 订盟 祭祀 祈福 求嗣 开光 出火 出行 拆卸 动土 修造 进人口 入宅 移徙 安床 解除 挂匾 栽种 破土 谢土 入殓 移柩 安葬|开市 立券 造船 合寿木', '嫁娶 订盟 纳采 出行 开市 祭祀 祈福 动土 移徙 入宅 破土 安葬|作灶', '祭祀 嫁娶 畋猎 结网|动土 破土 治病 开渠', '订盟 纳采 出行 会亲友 修造 上梁 移徙 入宅|开市 安葬', '嫁娶 纳采 祭祀 解除 出行 修造 动土 开市 上梁 安床 整手足甲 扫舍 求医 治病 起基 定磉 盖屋 合脊|造庙 行丧 安葬 伐木 作灶 造船', '作灶 造畜稠|行丧 安葬', '合帐 裁衣 嫁娶 安床 入殓 移柩 破土 造畜稠|置产 造船 开光 掘井 作灶'),
    ('出行 沐浴 理发 补垣 塞穴|入宅 安葬', '纳采 订盟 祭祀 祈福 求嗣 斋醮 沐浴 进人口 会亲友 入学 治病 安碓磑 掘井 开池 纳畜 牧养 造畜稠|嫁娶 合帐 入宅 行丧 安葬', '祭祀 求嗣 沐浴 酬神 订盟 纳采 裁衣 合帐 冠笄 安机械 安床 造仓 开池 经络 纳财 开市 立券 交易 结网 取渔 纳畜 捕捉|安葬 作灶 伐木 作梁', '祭祀 祈福 求嗣 斋醮 沐浴 开光 理发 经络 解除 治病 立碑 栽种 牧养 掘井 开池|嫁娶 定磉 合寿木 安葬 行丧', '沐浴 结网 取渔|嫁娶 入宅 安葬', '祭祀 沐浴 解除 破屋 坏垣 馀事勿取|开光 安葬', '订盟 纳采 出行 祭祀 祈福 修造 动土 移徙 入宅|开市 安葬', '纳采 订盟 会亲友 入学 祭祀 祈福 求嗣 开光 出行 解除 理发 动土 起基 开市 交易 立券 纳财 造仓 栽种 纳畜 牧养|嫁娶 作灶 出火 置产 入宅 安葬', '沐浴 修饰垣墙 平治道涂 馀事勿取|嫁娶 祈福', '纳采 订盟 开市 交易 立券 挂匾 纳财 栽种 进人口 入宅 移徙 安床 开光 出火 拆卸 安门 修造|斋醮 嫁娶 行丧 动土 作灶 安葬 破土', '沐浴 理发 入学 习艺 进人口|嫁娶 入宅', '解除 修饰垣墙 冠笄 出行 馀事勿取|开市 动土 破土 嫁娶 安葬'),
    ('教牛马 馀事勿取|入宅 动土 破土', '祭祀 祈福 求嗣 沐浴 问名 交易 纳财 入殓 移柩 安葬 修坟 立碑 谢土 造畜稠 教牛马|入宅 置产 嫁娶 动土 栽种 开市 开光 破土', '祭祀 沐浴 祈福 求嗣 斋醮 订盟 纳采 裁衣 冠笄 开市 立券 交易 纳财 除服 谢土 出行 移柩|入殓 安葬 作灶 入宅', '纳财 交易 立券 栽种 捕捉 结网 取渔 进人口 教牛马 理发|入宅 盖屋 竖柱 安葬', '|诸事不宜', '订盟 纳采 嫁娶 解除 祭祀 祈福 求嗣 开光 出行 出火 拆卸 入宅 移徙 安床 栽种 纳畜 动土 破土 谢土 安葬 修坟|作灶 开市 经络', '诸事不宜|', '祭祀 祈福 解除 整手足甲 安床 沐浴 入殓 移柩 破土 启钻 安葬 谢土|嫁娶 斋醮 开市 出火 入宅 移徙 出行 作灶 安门 伐木', '嫁娶 祭祀 祈福 斋醮 动土 移徙 入宅|开市 安葬', '祭祀 沐浴 修饰垣墙 平治道涂 馀事勿取|嫁娶 入宅 安床 出行', '开光 针灸 会亲友 启钻 安葬|开市 动土 破土', '纳采 订盟 嫁娶 祭祀 祈福 求嗣 开光 出行 解除 进人口 开市 立券 挂匾 入宅 移徙 安门 栽种 动土 求医 治病 会亲友 起基 修造 盖屋 安葬|作灶 经络 安床'),
    ('嫁娶 出行 求医 治病 祭祀 祈福 上梁 纳畜|开市 安葬', '祭祀 教牛马 造畜稠 会亲友 解除 馀事勿取|嫁娶 入宅 出行 动土 破土 安葬 行丧', '祭祀 祈福 求嗣 入殓 启钻 安葬 移柩|开光 掘井 针灸 出行 嫁娶 入宅 移徙 作灶 动土', '嫁娶 订盟 纳采 祭祀 祈福 出行 修造 动土 移徙 入宅 破土 出火 安门 安床 上梁 立碑 移柩|开市 交易 合帐 安葬', '解除 坏垣 馀事勿取|诸事不宜', '祭祀 祈福 求嗣 开光 订盟 纳采 解除 动土 起基 进人口 开市 交易 立券 纳财 造仓 开池 栽种 纳畜 破土 安葬|安床 上梁 裁衣 入宅 嫁娶', '嫁娶 订盟 纳采 祭祀 祈福 入殓 破土 安葬|开光 开市', '破屋 坏垣 解除 馀事勿取|嫁娶 安葬', '捕捉 结网 入殓 破土 安葬|嫁娶 入宅', '开光 祈福 求嗣 斋醮 修造 动土 纳财 造仓 开厕 栽种 牧养 会亲友|作灶 出火 进人口 开渠 入宅 移徙 祭祀', '祭祀 结网 造畜稠 馀事勿取|', '祭祀 塑绘 理发 会亲友 牧养 开池 造畜稠 畋猎 结网|祈福 谢土 安葬 上梁 作灶 开市 嫁娶 出行 入宅 动土'),
    ('开市 立券 开光 解除 安机械 上梁 启钻 安葬|嫁娶 祈福', '嫁娶 开光 解除 出火 拆卸 修造 进人口 入宅 移徙 安床 栽种 入殓 修坟 动土 除服 成服|作灶 安葬 祭祀 开市 纳采 订盟 纳畜 谢土 出行 探病', '安床 解除 裁衣 竖柱 上梁 交易 立券 纳财 纳畜 牧养 入殓 移柩 安葬 启钻|嫁娶 出行 动土 开渠 入宅 祭祀 掘井', '冠笄 立券 交易 修造 动土 安机械 入殓 安葬 破土|嫁娶 祈福 出火 入宅', '嫁娶 开光 出行 出火 拆卸 进人口 开市 立券 交易 挂匾 入宅 移徙 安床 栽种|祈福 入殓 祭祀 作灶 安葬 探病', '祭祀 结网 捕捉 馀事勿取|探病 嫁娶 开市', '开光 求医 治病 动土 上梁 入殓 破土 安葬|嫁娶', '嫁娶 开市 立券 移徙 入宅 安机械 会亲友 经络 安门 安床 挂匾 拆卸 开仓 出货财 开池 栽种 纳畜 牧养 破土 安葬 启钻 移柩 入殓 立碑|祭祀 祈福 探病 谢土 造桥', '沐浴 治病 破屋 坏垣 馀事勿取|诸事不宜', '开光 解除 拆卸 修造 动土 竖柱 安门 牧养 安葬 修坟 破土 移柩|出火 入宅 移徙 祈福 祭祀 安床 开市 嫁娶 探病', '入殓 除服 成服 移柩 破土 启钻 安葬|移徙 入宅', '出行 纳财 开市 交易 立券 动土 移徙 入宅 裁衣 会亲友 拆卸 进人口 安香 经络 出货财 修饰垣墙 平治道涂|造庙 谢土 作灶 作梁 伐木 安葬 行丧 修坟 探病'),
    ('平治道涂 馀事勿取|诸事不宜', '出行 起基 安床 纳财 交易 立券 嫁娶 栽种 入殓 移柩 安葬|挂匾 入宅 上梁 祈福 词讼 作梁 作灶 开池 安门 动土 破土 掘井', '嫁娶 安床 开光 出行 祭祀 动土 出火 解除 会亲友 开市 交易 立券 挂匾 入宅 移徙 拆卸 破土 启钻 安葬|掘井 词讼', '祭祀 会亲友 出行 立券 交易 冠笄 纳财|嫁娶 动土 掘井 起基 定磉 破土', '嫁娶 出行 合帐 冠笄 安床 除服 成服 作灶 交易 立券 入殓 移柩 破土 安葬|词讼 开光 开市', '祭祀 祈福 求嗣 开光 纳采 订盟 嫁娶 出行 动土 破土 会亲友 开市 交易 立券 习艺 拆卸 起基 安碓磑 放水 开池 造仓 开渠 栽种 谢土 启钻 修坟 立碑|入宅 安门 安葬', '祭祀 栽种 馀事勿取|诸事不宜', '嫁娶 订盟 纳采 祭祀 祈福 斋醮 开光 会亲友 求医 治病 盖屋 起基 竖柱 上梁 安门 安碓磑 筑堤 开池 破土 安葬 除服 成服|入宅 开市 掘井 词讼 合寿木', '嫁娶 订盟 纳采 出行 开市 祭祀 祈福 移徙 入宅 启钻 安葬|动土 破土', '破屋 坏垣 求医 治病 馀事勿取|移徙 入宅', '嫁娶 订盟 纳采 出行 祭祀 祈福 动土 移徙 入宅 破土 安葬|开市 赴任', '嫁娶 纳采 订盟 祭祀 斋醮 开光 安香 出火 出行 拆卸 动土 祈福 进人口 纳财 交易 立券 移徙 安床 修造 安葬 除服 成服|置产 掘井 词讼 栽种'),
    ('求嗣 斋醮 塑绘 订盟 纳采 出火 拆卸 修造 动土 造桥 安机械 栽种 纳畜 牧养 入殓 除服 成服 移柩 破土 安葬|开市 嫁娶', '平治道涂 馀事勿取|开光 嫁娶 开仓 出货财 造船 安葬 探病', '嫁娶 开光 求嗣 会亲友 安床 牧养 塑绘 针灸|入宅 移徙 出火 分居 安香 作灶 开市 交易 立券 安葬 动土 伐木', '祭祀 沐浴 解除 扫舍 塞穴 牧养|嫁娶 安葬 行丧 安门', '出行 修饰垣墙 造畜稠 教牛马 馀事勿取|诸事不宜', '嫁娶 冠笄 祭祀 出行 移徙 入宅 作灶 造车器 补垣 塞穴 开厕 破土 启钻 除服 成服 入殓|盖屋 造桥 安门 安葬 上梁', '嫁娶 开光 祭祀 祈福 求嗣 出行 解除 伐木 入宅 移徙 安床 出火 拆卸 修造 上梁 栽种 移柩|安葬 开市 交易 立券', '纳采 订盟 嫁娶 移徙 入宅 出行 祭祀 祈福 斋醮 塑绘 开光 安香 出火 会亲友 解除 入学 竖柱 上梁 拆卸 盖屋 起基 栽种 牧养 纳畜|安葬 破土 开市 开仓 出货财 启钻', '嫁娶 订盟 纳采 祭祀 祈福 求医 治病 动土 移徙 入宅 破土 安葬|开光 针灸', '嫁娶 纳采 订盟 祭祀 祈福 求嗣 开光 出行 出火 拆卸 修造 动土 进人口 入宅 移徙 安床 上梁 合脊 放水 掘井 破土 移柩 谢土 除服 成服|开市 开仓 安门 安葬', '祭祀 解除 破屋 坏垣 馀事勿取|', '嫁娶 纳采 订盟 祭祀 开光 出行 解除 伐木 出火 入宅 移徙 拆卸 修造 栽种 安葬 入殓|破土 动土 安门 作灶 开市 交易'),
    ('嫁娶 订盟 纳采 祭祀 祈福 修造 动土 移徙 入宅|开市 安葬', '嫁娶 订盟 纳采 会亲友 祭祀 安机械 移徙 入宅 盖屋 安床 起基 定磉 安香 出火 挂匾 拆卸 置产|开市 出行 安葬 行丧', '作灶 解除 平治道涂|栽种 出行 祈福 行丧 纳畜 安葬 安门 伐木 作梁 牧养', '纳财 开市 交易 立券 开光 针灸 会亲友 理发 安床 造仓 结网|移徙 入宅 栽种', '祭祀 祈福 开光 求嗣 解除 伐木 出火 入宅 移徙 安床 拆卸 修造 动土 造畜稠|嫁娶 纳财 安葬 出行 开市 立券 作灶 栽种', '祭祀 解除 断蚁 会亲友 馀事勿取|嫁娶 安葬', '求嗣 嫁娶 纳采 合帐 裁衣 冠笄 伐木 作梁 修造 动土 起基 竖柱 上梁 安门 作灶 筑堤 造畜稠|安葬 出行 祈福 栽种', '纳采 订盟 嫁娶 祭祀 沐浴 塑绘 开光 出火 治病 习艺 伐木 盖屋 竖柱 上梁 安床 作灶 安碓磑 挂匾 掘井 纳畜|出行 安葬 造桥', '订盟 纳采 祭祀 祈福 安机械 作灶 纳畜|动土 安葬', '嫁娶 纳采 订盟 祭祀 祈福 求嗣 开光 解除 进人口 入宅 移徙 出火 安床 开市 交易 立券 挂匾|安葬 纳畜 出行 行丧 伐木 栽种 造庙 造桥', '订盟 纳采 会亲友 安机械 纳财 牧养|祈福 安葬', '祭祀 解除 破屋 坏垣 求医 治病 馀事勿取|嫁娶 安葬'),
    ('治病 破屋 坏垣 馀事勿取|诸事不宜', '沐浴 捕捉 畋猎 理发 整手足甲 入殓 除服 成服 破土 安葬 谢土 立碑 修坟 启钻|纳采 订盟 嫁娶 上梁 开市 斋醮 盖屋 安门', '解除 沐浴|诸事不宜', '嫁娶 冠笄 会亲友 安机械 纳财 交易 立券 置产|开市 盖屋 治病 作灶', '纳采 嫁娶 开光 出行 理发 会亲友 开市 安床 栽种 牧养 入殓 移柩 启钻|谢土 祈福 上梁 作灶 斋醮 修造 入宅 安门', '嫁娶 纳采 订盟 祭祀 祈福 治病 造车器 修造 动土 移徙 入宅|开市 出行 安床 作灶 安葬', '祭祀 解除 馀事勿取|诸事不宜', '祭祀 入殓 除服 成服 移柩 破土 启钻 安葬 塞穴 断蚁 结网|开市 入宅 嫁娶 开光 盖屋', '嫁娶 祭祀 祈福 求嗣 出行 动土 安床 掘井 破土 启钻|入宅 作梁 安门 伐木 修造 上梁 入殓 盖屋', '祭祀 冠笄 捕捉 馀事勿取|嫁娶 开市 盖屋 作梁 合寿木', '嫁娶 订盟 纳采 出行 开市 祭祀 祈福 动土 移徙 入宅 破土 安葬|斋醮 安门', '祭祀 扫舍 破土 安葬 除服 成服 启钻 移柩 入殓 立碑 馀事勿取|嫁娶 入宅 修造 动土'),
    ('祭祀 祈福 求嗣 斋醮 开光 入学 订盟 冠笄 伐木 修造 动土 起基 放水 交易 开池|造桥 安门 理发 造庙 栽种 作灶', '祭祀 破屋 坏垣 馀事勿取|斋醮 嫁娶 开市', '嫁娶 祭祀 祈福 出行 解除 出火 拆卸 动土 入宅 移徙 安床 上梁 栽种 纳畜 破土 启钻 安葬|开市 立券 理发 作灶', '嫁娶 造车器 纳采 订盟 祭祀 祈福 安机械 移徙 入宅 开市 立券 破土 安葬|纳畜 理发 合寿木', '祭祀 平治道涂 解除 修饰垣墙 馀事勿取|诸事不宜', '嫁娶 纳采 订盟 会亲友 安机械 结网 冠笄 祭祀 求嗣 进人口 经络|开市 作灶 动土 行丧 安葬', '嫁娶 祭祀 祈福 出火 开光 求嗣 出行 拆卸 开市 交易 立券 挂匾 入宅 移徙 安床 栽种 动土|安葬 行丧 伐木 作梁', '祭祀 修造 出行 盖屋 竖柱 造车器 教牛马 造畜稠 割蜜|动土 破土 掘井 安葬', '嫁娶 祭祀 祈福 求嗣 出行 出火 拆卸 修造 移徙 动土 安床 入殓 破土 安葬 启钻|盖屋 开光 理发 造船 掘井 作灶', '祭祀 解除 结网 畋猎 取渔 会亲友 入学 移柩 启钻 除服 成服|开市 祈福 动土 破土 入殓 安葬 造船', '祭祀 塞穴 馀事勿取|诸事不宜', '订盟 纳采 会亲友 祭祀 祈福 修造 动土 安机械 破土 安葬|嫁娶 移徙 出火 开市 入宅'),
    ('解除 坏垣 馀事勿取|诸事不宜', '沐浴 开仓 出货财 开市 交易 立券 纳财 栽种 纳畜 牧养 畋猎 入殓 破土 安葬|祈福 嫁娶 安床 入宅 造船', '祭祀 解除 治病 破屋 坏垣 扫舍|馀事勿取', '祈福 斋醮 出行 移徙 入宅 修造 动土 破土 安葬|纳采 开光 安床 嫁娶 开市', '祭祀 祈福 开光 解除 动土 纳财 交易 纳畜 扫舍|进人口 出行 嫁娶 置产 安床 赴任 安葬 作灶', '祭祀 沐浴 移徙 破土 安葬 扫舍 平治道涂|祈福 嫁娶 入宅 安床 作灶', '开光 求嗣 出行 解除 伐木 出火 拆卸 修造 上梁 起基 入宅 移徙 开市 交易 立券 栽种 牧养 入殓 安葬 除服 成服|置产 安床', '祭祀 沐浴 塑绘 开光 入学 解除 扫舍 治病 开池 牧养|嫁娶 出行 纳采 入宅 作灶', '祭祀 祈福 求嗣 开光 出行 解除 上梁 盖屋 移徙 安门 纳财 牧养 纳畜 安葬 启钻 入殓|破土 置产 掘井 动土 安床', '冠笄 沐浴 出行 修造 动土 移徙 入宅 破土 安葬|嫁娶 开市 祭祀 祈福 斋醮 纳采 修坟', '祭祀 祈福 求嗣 开光 开市 出行 解除 动土 起基 置产 栽种|嫁娶 作灶 修坟 安门 入宅 立碑 安葬 安床', '祭祀 沐浴 捕捉 畋猎 结网 扫舍|嫁娶 纳采 订盟 安床 动土 破土 安葬'),
    ('沐浴 理发 扫舍|伐木 纳畜 上梁 入宅 作灶 造畜稠 嫁娶 安葬 作梁 造船 安门', '祭祀 沐浴 补垣 塞穴 断蚁 解除 馀事勿取|造庙 入宅 修造 安葬 行丧 嫁娶', '祭祀 祈福 求嗣 开光 出火 出行 拆卸 修造 动土 入宅 移徙 上梁 挂匾 开池 入殓 安葬 破土 启钻|嫁娶 作灶 安床', '破屋 坏垣 馀事勿取|嫁娶 移徙 开市 入宅', '祭祀 祈福 求嗣 开光 解除 出火 拆卸 入宅 安床 修造 安门 纳畜 启钻 安葬|动土 破土 纳财 掘井 挂匾 开市 伐木 交易', '祭祀 祈福 斋醮 求嗣 安机械 纳畜 移徙 入宅 塑绘 开光 起基 竖柱 上梁 作灶 安门 安香 出火 盖屋 启钻 安葬|动土 破土 嫁娶', '祭祀 理发 修饰垣墙 平治道涂 沐浴 整手足甲 扫舍|出行 安门 修造 嫁娶 上梁 入宅', '纳财 开市 交易 立券 出行 祭祀 祈福 求嗣 开光 解除 扫舍 起基 竖柱 安床 移徙 开仓 出货财 补垣 塞穴 栽种 纳畜 牧养|斋醮 入宅 安门 安葬 破土 行丧', '祭祀 解除 沐浴 理发 整手足甲 入殓 移柩 破土 安葬 扫舍|嫁娶 会亲友 进人口 出行 入宅 移徙 赴任 作灶', '祭祀 出行|嫁娶 入宅 修造 动土 会亲友 破土', '祭祀 解除 裁衣 理发 安床 作灶 造畜稠 放水 筑堤 补垣 塞穴 整手足甲 扫舍|嫁娶 开光 会亲友 掘井 安门 栽种', '开市 纳财 出行 祭祀 祈福 求嗣 斋醮 问名 入学 起基 定磉 置产 开渠 掘井 拆卸 栽种 纳畜 牧养 动土 破土 启钻|移徙 入宅 出火 入殓 安葬'),
    ('祭祀 开光 祈福 解除 作梁 动土 安床 掘井 栽种 纳畜 破土 移柩|嫁娶 出行 赴任 盖屋 入殓 入宅 移徙 出火 进人口 安葬', '嫁娶 纳采 订盟 问名 祭祀 冠笄 裁衣 会亲友 进人口 纳财 捕捉 作灶|开市 安床 安葬 修坟', '结网 入殓 除服 成服 移柩 安葬 破土|诸事不宜', '嫁娶 冠笄 祭祀 出行 会亲友 修造 动土 入殓 破土|塑绘 开光 造桥 除服 成服', '祭祀 解除 破屋 坏垣 馀事勿取|诸事不宜', '嫁娶 纳采 订盟 斋醮 开光 祭祀 祈福 求医 治病 会亲友 动土 解除 捕捉 纳畜 牧养 入殓 破土 安葬|移徙 入宅 盖屋 架马', '嫁娶 祭祀 开光 祈福 求嗣 出行 出火 拆卸 动土 修造 进人口 入宅 移徙 安床 挂匾 交易 立券 栽种 纳畜 入殓 破土 启钻 安葬|', '祭祀 修饰垣墙 平治道涂|开市 动土 破土 嫁娶 修造 安葬', '塑绘 开光 进人口 纳畜 补垣 塞穴 栽种 牧养|嫁娶 纳财 祈福 安葬 修造 开市 交易 立券 动土 上梁', '嫁娶 订盟 纳采 祭祀 祈福 出行 修造 动土 移徙 入宅|针灸 伐木 作梁 造庙 行丧 安葬', '祭祀 出行 裁衣 冠笄 会亲友 造畜稠 嫁娶 竖柱 上梁 移徙 纳财 纳畜|动土 伐木 作梁 行丧 安葬 开生坟', '祭祀 理发 置产 塞穴 除服 成服 移柩 入殓 破土 安葬|嫁娶 入宅 安床 掘井 开光'),
    ('作梁 修造 动土 安门 作灶 塞穴 开池 开厕 筑堤 补垣 栽种|嫁娶 祈福 掘井 行丧 安葬 安床', '订盟 纳采 会亲友 祭祀 斋醮 沐浴 塑绘 出火 开光 竖柱 上梁 开市 交易 立券 作梁 开柱眼 伐木 架马 安门 安床 拆卸 牧养 造畜稠 掘井|造庙 嫁娶 出行 动土 安葬 行丧', '移徙 祭祀 开光 祈福 出行 解除 进人口 雇佣 安床 动土 起基 上梁 安门|嫁娶 安葬 破土 作梁 纳畜 牧养 行丧 作灶', '开光 求嗣 出行 纳采 冠笄 出火 拆卸 起基 修造 动土 上梁 移徙 造船 开市 交易 立券 纳财|祈福 嫁娶 安葬 破土', '塞穴 扫舍 馀事勿取|诸事不宜', '祭祀 沐浴 解除 破屋 坏垣 馀事勿取|行丧 安葬', '祭祀 祈福 求嗣 开光 出行 伐木 出火 拆卸 修造 动土 起基 安床 入宅 移徙|嫁娶 开市 交易 行丧 安葬 修坟', '订盟 纳采 祭祀 祈福 开光 安香 出火 立券 安机械 移徙 入宅 竖柱 上梁 会亲友 安床 拆卸 挂匾 牧养 教牛马|嫁娶 安葬 行丧 破土 修坟', '作灶 沐浴 修饰垣墙 平治道涂 馀事勿取|诸事不宜', '出行 开市 交易 立券 安机械 出火 上梁 移徙|嫁娶 安葬 动土 造桥', '祭祀 祈福 求嗣 开光 出行 解除 移徙 伐木 安床 纳畜 出火 拆卸|安葬 修坟 作灶 破土 造庙 动土 嫁娶 纳采', '祭祀 沐浴 出行 馀事勿取|开市 动土 破土 行丧 安葬'),
    ('安葬 启钻 移柩 入殓 除服 成服|馀事勿取', '交易 立券 纳财 安床 裁衣 造畜稠 安葬 谢土 启钻 除服 成服 修坟 立碑 移柩 入殓|开光 嫁娶 开市 动土 破土', '嫁娶 开光 祈福 求嗣 解除 动土 安床 栽种 开池 掘井 祭祀 破土 启钻|入宅 作灶 伐木 安葬 出火 出行 纳畜', '理发 冠笄 嫁娶 进人口 栽种 捕捉 针灸|纳财 开市 安葬 破土', '祭祀 祈福 求嗣 开光 解除 纳采 冠笄 出火 拆卸 进人口 安床 动土 上梁 造庙 掘井 开池 入殓 移柩 安葬 破土|', '沐浴 扫舍 馀事勿取|斋醮 开市 嫁娶 作灶', '破屋 坏垣 馀事勿取|诸事不宜', '沐浴 理发 捕捉 入殓 移柩 破土 启钻 安葬|出火 嫁娶 入宅 作灶 上梁 动土', '祭祀 求嗣 开光 出行 伐木 作梁 出火 解除 拆卸 进人口 修造 动土 起基 安床 栽种 纳畜 入殓 破土 安葬 除服 成服|嫁娶 移徙', '祭祀 沐浴 修饰垣墙 平治道涂 馀事勿取|斋醮 嫁娶 移徙 出行 上梁 入宅', '开市 交易 立券 纳财 会亲友 开光 理发 入殓 移柩 安葬 启钻|嫁娶 作灶 出火 出行 入宅 移徙 安床 祈福 上梁', '嫁娶 造车器 出行 会亲友 移徙 入宅 修造 动土 雕刻 开光 安香 出火 理发 盖屋 合脊 起基 归岫 安门 拆卸 扫舍 栽种 造畜稠|开市 纳采 造庙 安床 开渠 安葬'),
    ('嫁娶 祭祀 祈福 求嗣 出行 出火 拆卸 开市 交易 立券 挂匾 入宅 移徙 安床 栽种|作灶 塑绘 行丧 词讼 伐木 安葬', '祭祀 解除 教牛马 会亲友 馀事勿取|破土 动土 安葬', '祭祀 合帐 裁衣 经络 伐木 作梁 安床 作灶 入殓 安葬 启钻 移柩|词讼 出火 入宅', '开光 祈福 求嗣 出行 解除 伐木 盖屋 起基 修造 架马 安门 移徙 入宅 造庙 除服 成服 移柩 谢土 纳畜 牧养|纳采 动土 开市 交易', '解除 破屋 馀事勿取|诸事不宜', '开市 交易 立券 安机械 会亲友 开光 求医 治病 盖屋 起基 修造 动土 定磉 竖柱 上梁 安门 作灶 放水 开厕 开池 栽种 牧养 造畜稠 破土 安葬 立碑|嫁娶 出火 移徙 入宅', '开市 交易 立券 纳财 开池 开厕 结网 祭祀 修造 动土 安床 放水 经络 破土|嫁娶 造桥 词讼 移徙 安门 作灶 栽种', '求医 治病 破屋 坏垣 馀事勿取|嫁娶 出行', '祭祀 塞穴 入殓 破土 安葬 移柩 馀事勿取|诸事不宜', '嫁娶 造车器 安机械 祭祀 祈福 开光 安香 出火 出行 开市 立券 修造 动土 移徙 入宅 破土 安葬|纳采 订盟 架马 词讼 开渠', '造畜稠 平治道涂 馀事勿取|诸事不宜', '塑绘 会亲友 安机械 塞穴 结网 裁衣 经络|嫁娶 开市 祈福 斋醮 安葬'),
    ('理发 开光 解除 拆卸 修造 安葬 开市 交易 立券 挂匾 安床 栽种|入宅 移徙 作灶 祈福 祭祀 嫁娶 谢土 掘井 盖屋 探病', '纳采 订盟 移徙 纳财 开市 交易 立券 入宅 会亲友 解除 求医 治病 入学 安床 安门 安香 出火 拆卸 扫舍 挂匾 开生坟 合寿木 破土 修坟 启钻 入殓|探病 祭祀 出行 上梁 盖屋 谢土 安葬', '裁衣 伐木 作梁 纳财 交易 立券|诸事不宜', '裁衣 经络 伐木 开柱眼 拆卸 修造 动土 上梁 合脊 合寿木 入殓 除服 成服 移柩 破土 安葬 启钻 修坟 立碑|祭祀 嫁娶 出行 掘井', '嫁娶 祈福 求嗣 开光 出行 解除 拆卸 出火 开市 立券 交易 入宅 移徙 安床 动土 破土 谢土|祭祀 入殓 安葬 探病', '栽种 捕捉 畋猎 馀事勿取|开市 动土 祭祀 斋醮 安葬 探病', '开市 交易 立券 纳财 栽种 安床 拆卸 修造 动土 上梁 入殓 安葬 破土 除服 成服|嫁娶 出火 伐木 祭祀 入宅 移徙 纳畜 探病', '纳采 订盟 嫁娶 移徙 入宅 出行 开市 交易 立券 纳财 会亲友 安香 出火 拆卸 盖屋 起基 安床 作灶 挂匾 安葬 破土 启钻 立碑 入殓 移柩|祈福 上梁 开仓 掘井 牧养', '破屋 坏垣 馀事勿取|诸事不宜', '沐浴 捕捉 入殓 除服 成服 破土 启钻 安葬|祭祀 嫁娶 安床 开市 入宅 探病 上梁', '入殓 破土 安葬 启钻 除服 成服 馀事勿取|', '纳采 移徙 纳财 开市 交易 立券 入宅 修造 动土 竖柱 起基 定磉 造庙 安香 出火 修饰垣墙 平治道涂 会亲友 出行 开池 开厕|开仓 盖屋 造桥 祭祀'),
    ('祭祀 修饰垣墙 馀事勿取|诸事不宜', '嫁娶 订盟 纳采 祭祀 祈福 求嗣 会亲友 解除 出行 入学 纳财 开市 交易 立券 习艺 经络 安床 开仓 出货财 纳畜 安葬 启钻 修坟 入殓|入宅 开光 动土', '嫁娶 祭祀 祈福 求嗣 开光 出行 出火 拆卸 动土 上梁 进人口 入宅 移徙 安床 开市 交易 立券 挂匾 入殓 破土 安葬 启钻 除服 成服|', '祭祀 会亲友 立券 交易 裁衣 合帐 嫁娶 冠笄 进人口|栽种 动土 安葬 掘井 修坟 探病', '祭祀 裁衣 冠笄 安床 交易 立券 开池 补垣 塞穴 入殓 破土 启钻 安葬 谢土 除服 成服|嫁娶 掘井 探病 开市 开光 栽种', '嫁娶 祭祀 祈福 求嗣 斋醮 订盟 纳采 解除 出行 动土 破土 习艺 针灸 理发 会亲友 起基 修造 竖柱 定磉 安床 拆卸 纳畜 牧养 放水 除服 成服 修坟 立碑|开市 入宅 探病 出火 盖屋', '祭祀 作灶 馀事勿取|诸事不宜', '祭祀 祈福 斋醮 出行 纳采 订盟 安机械 出火 拆卸 修造 动土 起基 移徙 入宅 造庙 入殓 除服 成服 移柩 破土 安葬 谢土|嫁娶 开市 栽种 合寿木', '祭祀 入殓 移柩 结网 启钻 安葬 除服 成服 馀事勿取|诸事不宜', '馀事勿取|探病', '祭祀 入殓 移柩 开生坟 破土 启钻 安葬 除服 成服 馀事勿取|', '订盟 纳采 纳财 开市 立券 祭祀 祈福 移徙 入宅 出行 盖屋 起基 修造 动土 竖柱 上梁 安门 安香 出火 教牛马 会亲友 破土|嫁娶 安葬 掘井 置产 造船'),
    ('入宅 安床 开光 祭祀 出火 拆卸 动土 挂匾 入殓 破土 安葬 纳畜|嫁娶 开市 作灶 置产 作梁 伐木', '祭祀 冠笄 嫁娶 会亲友 进人口 裁衣 结网 平治道涂|移徙 入宅 造庙 作灶 治病 安葬', '嫁娶 冠笄 纳采 出行 会亲友 上梁 安机械 安床 牧养 畋猎 祭祀 祈福 开光 修造 安门 盖屋 起基|入宅 作灶 治病 安葬 移徙', '扫舍 塞穴 馀事勿取|诸事不宜', '祭祀 出行 教牛马 扫舍 馀事勿取|开光 伐木 安葬 破土', '馀事勿取|', '解除 坏垣 馀事勿取|诸事不宜', '祭祀 进人口 纳财 纳畜 牧养 捕捉 馀事勿取|开市 入宅 安床 动土 安葬', '嫁娶 出火 拆卸 祭祀 祈福 开光 伐木 动土 开市 交易 立券 入宅 移徙 安床 纳畜 入殓 安葬|栽种 作灶 针灸 出行', '订盟 纳采 祭祀 祈福 安香 出火 修造 动土 上梁 安门 起基 竖柱 定磉 开池 移徙 入宅 立券 破土|嫁娶 造庙 造桥 造船 作灶 安葬', '祭祀 解除 破屋 坏垣 馀事勿取|诸事不宜', '嫁娶 订盟 纳采 祭祀 祈福 塑绘 开光 移徙 安床 伐木 作梁 捕捉 畋猎 结网 求医 治病 解除 安葬 除服 成服 移柩 入殓 立碑 谢土|开市 造庙 动土 破土'),
    ('祭祀 解除 馀事勿取|诸事不宜', '祭祀 安碓磑 结网 馀事勿取|嫁娶 安葬', '修饰垣墙 平治道涂 祭祀 馀事勿取|诸事不宜', '塑绘 开光 订盟 纳采 裁衣 合帐 冠笄 安机械 会亲友 纳财 开市 立券 交易 安床 竖柱 上梁 结网 栽种 解除 经络|作灶 出行 入宅 安葬', '祭祀 祈福 求嗣 开光 纳采 订盟 解除 栽种 纳畜 牧养 扫舍 进人口|修坟 造桥 作灶 出行 安葬 盖屋 入宅', '塞穴 断蚁 结网 馀事勿取|破土 安葬', '修造 动土 起基 安门 安床 栽种 筑堤 补垣 造畜稠|嫁娶 掘井 入宅 移徙 出火 出行 行丧 安葬 开光 理发 进人口', '祭祀 塑绘 开光 求医 治病 嫁娶 会亲友 放水 掘井 牧养 纳畜 开渠 安碓磑|盖屋 入宅 作灶 入学 安葬 行丧', '祭祀 开光 解除 进人口 交易 立券 纳财 纳畜|动土 破土 嫁娶 理发 出行 入宅 移徙 分居 安香 出火', '开光 求嗣 雕刻 嫁娶 订盟 纳采 出火 拆卸 修造 动土 起基 上梁 放水 移徙 入宅 造仓 造船 开市 开池 纳畜 牧养 挂匾|行丧 安葬 合寿木', '嫁娶 求嗣 纳采 进人口 纳财 结网 纳畜 牧养 会亲友|上梁 作灶 伐木 出行 安葬 安门 理发', '破屋 坏垣 祭祀 馀事勿取|嫁娶 安葬'),
    ('破屋 坏垣 祭祀 沐浴 馀事勿取|诸事不宜', '嫁娶 祭祀 沐浴 裁衣 出行 理发 移徙 捕捉 畋猎 放水 入宅 除服 成服 启钻 安葬 移柩 入殓|盖屋 开市 动土 破土', '造车器 纳采 订盟 祭祀 祈福 求嗣 移徙 出行 开市 出火 入宅 立券 交易 安门 安床 安葬 谢土|开光 盖屋 动土 作灶 栽种', '祭祀 嫁娶 纳婿 除服 成服 入殓 移柩|动土 作灶 入宅 开光 安床', '开光 出行 交易 塞穴 嫁娶 理发 开市 安床|祈福 出火 置产 动土 破土 安葬 修造 上梁 入宅', '开光 出行 纳采 嫁娶 伐木 架马 出火 拆卸 移徙 入宅 造庙 造桥 造船 造畜稠 开市 入殓 除服 成服 移柩 安葬|', '祭祀 教牛马 断蚁 馀事勿取|斋醮 移徙 入宅 动土', '祭祀 塞穴 结网 畋猎 馀事勿取|移徙 开市 入宅 嫁娶 开光 安门', '嫁娶 祭祀 祈福 求嗣 开光 出行 解除 安床 栽种 移柩 进人口 会亲友 除服 成服|盖屋 入殓 安葬 伐木 入宅 移徙 置产 纳畜', '祭祀 嫁娶 捕捉|开光 动土 破土 开市 修造 入宅 安门', '嫁娶 祭祀 开市 开光 出行 入宅 移徙 出火 拆卸 修造 安床|纳畜 伐木 置产 作梁 行丧 安葬 修坟 立碑', '嫁娶 纳采 订盟 祭祀 冠笄 裁衣 伐木 作梁 架马 定磉 开柱眼 作灶 移徙 安床 畋猎 结网 开池 开厕 除服 成服 启钻 入殓 移柩 安葬|盖屋 造船 动土 破土'),
    ('安床 祭祀 祈福 求嗣 冠笄 伐木 架马 动土 开池 开厕 结网 入殓 除服 成服|安门 栽种 作灶 治病', '破屋 坏垣 馀事勿取|嫁娶 开市 安葬', '动土 入殓 嫁娶 移柩 安葬 破土|开市 作灶 安床 入宅 上梁 裁衣', '祈福 求嗣 开光 塑绘 斋醮 订盟 纳采 嫁娶 拆卸 安床 入宅 安香 移柩 修坟 安葬 谢土 栽种 解除 冠笄 裁衣 移徙 修造 动土 竖柱 放水 启钻 立碑|赴任', '祭祀 作灶 畋猎 结网 修饰垣墙 平治道涂 馀事勿取|嫁娶 安床 治病', '进人口 牧养 置产 塞穴 结网 馀事勿取|诸事不宜', '纳采 订盟 嫁娶 祭祀 祈福 开市 纳财 立券 移徙 出行 修造 动土 起基 定磉 竖柱 拆卸 扫舍 放水 安香 安床 造船 开池 掘井 造畜稠 栽种|行丧 安葬 破土 作灶 伐木 斋醮', '开市 纳财 祭祀 塑绘 安机械 冠笄 会亲友 裁衣 开仓 经络 纳畜 造畜稠 教牛马 牧养|动土 破土 安葬 治病', '祭祀 动土 筑堤 开池 会亲友 塞穴 入殓 移柩 破土 安葬|开光 出行 修造 上梁 入宅 安门 作灶 裁衣', '祭祀 普渡 解除 会亲友 捕捉 畋猎 启钻 除服 成服 移柩|嫁娶 开市 动土 掘井 开池 安葬', '嫁娶 祭祀 作灶 纳财|安葬 开市 修坟 立碑', '纳采 订盟 祭祀 祈福 求嗣 斋醮 开光 会亲友 解除 入学 纳财 交易 立券 经络 起基 动土 定磉 开池 栽种 纳畜 牧养 破土 入殓 立碑 安葬|嫁娶 开市 入宅 出火 移徙'),
    ('解除 扫舍 馀事勿取|诸事不宜', '纳采 订盟 祭祀 求嗣 出火 塑绘 裁衣 会亲友 入学 拆卸 扫舍 造仓 挂匾 掘井 开池 结网 栽种 纳畜 破土 修坟 立碑 安葬 入殓|祈福 嫁娶 造庙 安床 谢土', '求医 治病 破屋 坏垣 馀事勿取|开市 嫁娶', '祭祀 解除 入殓 除服 成服 移柩 启钻 安葬 修坟 立碑 谢土 沐浴 扫舍 捕捉 取渔 结网 畋猎 理发|安床 嫁娶 作灶 入宅', '沐浴 祭祀 解除 安葬 破土 谢土 移柩 馀事勿取|斋醮 开光 嫁娶 入宅 上梁', '开光 出行 嫁娶|会亲友 进人口 修造 动土 起基 移徙 开市 纳畜 入殓 除服 成服 移柩 破土 安葬 修坟 立碑', '嫁娶 开光 祭祀 祈福 出行 解除 移徙 入宅 开市 纳财 起基 修造 竖柱 上梁 盖屋 作灶 出火 安香 补垣 塞穴 拆卸 放水 扫舍 造仓 造船 栽种 安葬|纳采 订盟 安床 谢土 破土 动土', '移徙 入宅 治病 会亲友 祭祀 祈福 斋醮 安香 嫁娶 盖屋 起基|开市 安床 出行 经络', '祭祀 裁衣 安门 纳财 扫舍 出行 进人口 作灶 纳畜 造畜稠|安床 动土 安葬 开生坟 合寿木', '出行 解除 冠笄 嫁娶 伐木 架马 开柱眼 修造 动土 移徙 入宅 开生坟 合寿木 入殓 移柩 破土 安葬 修坟|祭祀 祈福 开光 开市 安床', '嫁娶 祭祀 祈福 求嗣 开光 出行 解除 出火 进人口 开市 交易 立券 挂匾 纳财 入宅 移徙 栽种 破土 谢土|安床 安葬', '捕捉 畋猎 会亲友 解除 入殓 除服 成服 移柩 馀事勿取|安床 安门 破土 修坟 安葬'),
    ('祭祀 开光 理发 整手足甲 安床 作灶 扫舍 教牛马|伐木 纳畜 破土 安葬 开生坟 嫁娶 开市 动土 交易 作梁', '入殓 除服 成服 移柩 启钻 安葬 修坟 立碑|开市 伐木 嫁娶 作梁', '祭祀 斋醮 沐浴 开生坟 除服 成服 移柩 入殓 破土 安葬 合寿木|开市 嫁娶 安床 会亲友 入宅 作灶 上梁', '破屋 坏垣|诸事不宜', '祭祀 解除 入殓 移柩 启钻 安葬 整手足甲 捕捉 畋猎 取渔 除服 成服 扫舍 谢土 斋醮|动土 破土', '嫁娶 纳采 出行 祭祀 祈福 开市 动土 移徙 入宅 破土 安葬|安门', '嫁娶 祭祀 理发 作灶 修饰垣墙 平治道涂 整手足甲 沐浴 冠笄|破土 出行 栽种', '塑绘 出行 冠笄 嫁娶 进人口 裁衣 纳婿 造畜稠 交易 立券 牧养 开生坟 入殓 除服 成服 移柩 安葬 启钻|', '祭祀 解除 拆卸 修造 动土 起基 上梁 安床 安门 开渠 开池 入殓 破土 启钻|嫁娶 出行 进人口 作灶 入宅 移徙 栽种 赴任', '祭祀 祈福 求嗣 出行 沐浴 交易 扫舍 教牛马|动土 作灶 行丧 安葬 修坟', '嫁娶 祭祀 祈福 求嗣 动土 安床 扫舍 入殓 移柩 破土 启钻 安葬 作灶 整手足甲 补垣 除服 成服|开光 栽种', '祭祀 祈福 求嗣 斋醮 沐浴 冠笄 出行 理发 拆卸 解除 起基 动土 定磉 安碓磑 开池 掘井 扫舍 除服 成服 移柩 启钻 立碑 谢土|移徙 入宅 安门 作梁 安葬'),
    ('祭祀 祈福 求嗣 开光 拆卸 修造 动土 上梁 安床 置产 栽种 破土|嫁娶 进人口 安葬 出行 赴任 入宅 移徙 入殓 开渠', '祭祀 作灶 入殓 除服 馀事勿取|开市 安床', '祭祀 塞穴 结网 破土 谢土 安葬 移柩 除服 成服 馀事勿取|嫁娶 入宅', '祭祀 出行 订盟 纳采 裁衣 合帐 冠笄 进人口 动土 安床 作灶 入殓 移柩 安葬 破土 结网 取渔 畋猎|作梁 造庙', '祭祀 沐浴 解除 破屋 坏垣 求医 治病 馀事勿取|嫁娶 开市', '嫁娶 纳采 求医 治病 修造 动土 移徙 入宅 破土 安葬|开市 开光', '嫁娶 纳采 订盟 祭祀 祈福 求嗣 开光 出火 出行 拆卸 修造 动土 进人口 入宅 移徙 安床 交易 立券 挂匾 纳财 入殓 安葬 启钻 除服 成服|掘井 破土', '祭祀 冠笄 嫁娶 捕捉 结网 畋猎 取渔 馀事勿取|', '纳采 订盟 开光 出行 解除 安香 出火 拆卸 入宅 移徙 修造 上梁 安床 栽种 纳畜 会亲友 安机械 经络|伐木 谢土 行丧 祭祀 作灶 动土 破土 安葬 祈福', '出行 解除 纳采 冠笄 雕刻 修造 动土 起基 上梁 合脊 安床 移徙 入宅 开市 栽种 开厕|造庙 安门 行丧 安葬', '祭祀 祈福 求嗣 开光 出行 解除 上梁 入宅 移徙 安床 安门 纳财 纳畜 造畜稠|伐木 行丧 破土 嫁娶 安葬 开渠', '嫁娶 冠笄 安床 纳采 会亲友 塞穴 捕捉 置产 造畜稠|开光 掘井 安葬 谢土 修坟'),
    ('沐浴 冠笄 补垣 塞穴 裁衣 修造 作梁 开柱眼 安碓磑 筑堤 开厕 断蚁|移徙 入宅 嫁娶 祈福 开光 掘井', '塑绘 开光 沐浴 冠笄 会亲友 作灶 放水 造畜稠|嫁娶 入殓 安葬 出行', '祭祀 沐浴 理发 作灶 结网 栽种|嫁娶 词讼 行丧 安葬 牧养 伐木 作梁 开市 纳畜 造畜稠', '祭祀 开光 塑绘 订盟 纳采 合帐 冠笄 拆卸 动土 起基 上梁 入宅 安香 开市 立券 纳财 沐浴 求嗣 出火 竖柱 安门|造庙 嫁娶 伐木 安葬', '沐浴 塞穴 畋猎 结网 取渔 扫舍 馀事勿取|祈福 安葬', '祭祀 破屋 坏垣 馀事勿取|诸事不宜', '畋猎 捕捉 结网 取渔 祭祀 沐浴 馀事勿取|嫁娶 开市 安葬 启钻 行丧', '沐浴 扫舍 馀事勿取|诸事不宜', '修饰垣墙 平治道涂 祭祀 沐浴 作灶|嫁娶 词讼 治病 置产 作梁 祈福 安葬 栽种 伐木 安门', '开光 塑绘 出行 解除 冠笄 裁衣 挂匾 作灶 开市 开池 开厕 补垣 塞穴|', '祭祀 开光 出行 解除 理发 伐木 出火 拆卸 上梁 合脊 安床 造畜稠|嫁娶 安葬 行丧 词讼 造桥 作灶 破土 动土', '祭祀 沐浴 馀事勿取|诸事不宜'),
)
TIME = (
    ('祈福 订婚 嫁娶 开市 安葬|造船 乘船', '祈福 求嗣 出行 求财 嫁娶 安葬 祭祀|', '祭祀 祈福 酬神 订婚 嫁娶 出行 求财 入宅 安葬 赴任|上梁 盖屋 入殓', '求嗣 嫁娶 移徙 入宅 开市 交易 修造 安葬|赴任 出行', '订婚 嫁娶 求财 开市 交易 安床|赴任 修造 移徙 出行 词讼 祈福 求嗣 乘船', '祈福 求嗣 订婚 嫁娶 入宅 开市 交易|开光 修造 安葬 赴任 出行', '|诸事不宜', '祭祀 祈福 酬神 求财 见贵 订婚 嫁娶 修造 安葬 入宅|赴任 出行', '求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|祭祀 祈福 斋醮 酬神', '求财 见贵 酬神 修造 盖屋 移徙 作灶 安床 入宅 开市|祭祀 祈福 斋醮 开光 赴任 出行', '出行 求财 见贵 嫁娶 进人口 移徙 安葬|赴任 词讼', '求嗣 嫁娶 移徙 入宅 开市 交易 修造 安葬 祈福|赴任 出行 求财'),
    ('祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 祭祀|上梁 盖屋 入殓', '祭祀 祈福 酬神 订婚 嫁娶 出行 求财 入宅 安葬|造船 乘船', '订婚 嫁娶 修造 入宅 开市 交易 安葬|祈福 求嗣', '赴任 出行 求财 见贵 订婚 嫁娶 入宅 开市 安葬 祈福 求嗣 祭祀|', '|修造 动土', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床 修造 盖屋 移徙|赴任 出行', '求嗣 嫁娶 入宅 开市 交易 安葬 求财|赴任 修造 移徙 出行 词讼 祭祀 祈福 斋醮 开光', '|诸事不宜', '祈福 求嗣 出行 求财 嫁娶 赴任 见贵|开光 修造 安葬', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床|赴任 出行 修造', '祈福 订婚 嫁娶 安床 移徙 入宅 修造 安葬|上梁 盖屋 入殓 赴任 出行', '祭祀 祈福 求嗣 开市 订婚 嫁娶 入宅 安葬 修造 赴任 出行 见贵 求财|'),
    ('赴任 出行 求财 见贵 祭祀 酬神|祈福 求嗣', '修造 盖屋 移徙 作灶 安床 入宅 开市 赴任 出行 求财 见贵 嫁娶 进人口|祭祀 祈福 斋醮 酬神', '求嗣 嫁娶 移徙 入宅 开市 交易 安葬 祈福|赴任 词讼 修造 动土', '赴任 出行 求财 嫁娶 修造 移徙 开市 安葬|', '订婚 嫁娶 开市 安葬|赴任 出行 祭祀 祈福 斋醮 开光', '求财 见贵 订婚 嫁娶 入宅 开市 安葬|赴任 出行 祭祀 祈福 斋醮 开光', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|', '修造 盖屋 移徙 安床 入宅 开市 开仓 祭祀 祈福 求嗣 斋醮 订婚 嫁娶 出行|', '|诸事不宜', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床 入宅 安葬 祭祀|赴任 出行 修造 动土', '订婚 嫁娶 出行 求财 开市 交易 安床 作灶 祭祀|祈福 求嗣 乘船', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床 祭祀|赴任 出行 修造 开光'),
    ('作灶 祭祀 祈福 斋醮 酬神|赴任 出行 修造 动土', '见贵 求财 嫁娶 进人口 移徙 安葬 祭祀 祈福 求嗣 斋醮 订婚|赴任 出行 修造', '订婚 嫁娶 安床 移徙 入宅 修造 安葬 求财 见贵|祭祀 祈福 斋醮 开光 赴任 出行', '修造 盖屋 移徙 作灶 安床 入宅 开市 求嗣 订婚 嫁娶|祭祀 祈福 斋醮 开光 赴任 出行', '祭祀 祈福 求嗣 斋醮 订婚 嫁娶 安葬|赴任 出行', '求嗣 嫁娶 移徙 入宅 开市 交易 修造 安葬 祈福 订婚 赴任 出行 见贵 求财|', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 赴任|修造 动土', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 修造 入宅 安葬 祭祀|', '入宅 修造 安葬 祭祀 斋醮 酬神|祈福 求嗣', '|诸事不宜', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床 见贵|赴任 修造 移徙 出行 词讼', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床 祭祀 见贵|赴任 出行 修造 动土'),
    ('求嗣 订婚 嫁娶 求财 开市 交易 安床|赴任 修造 移徙 出行 词讼 祭祀 祈福 斋醮 开光', '酬神 求财 见贵 订婚 嫁娶 安葬|赴任 出行 修造 动土 祭祀 祈福 斋醮 开光', '求嗣 嫁娶 移徙 入宅 开市 交易 修造 安葬 作灶 祭祀 祈福 斋醮 酬神 见贵|赴任 出行', '求财 见贵|赴任 出行 祭祀 祈福 斋醮 酬神', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床|上梁 盖屋 入殓 赴任 出行', '赴任 出行 求财 见贵 订婚 嫁娶 入宅 开市 盖屋 移徙 作灶 安床|开光 修造 安葬', '修造 安葬 出行 求财 嫁娶|赴任 词讼 祈福 求嗣', '祈福 求嗣 出行 入宅 嫁娶 修造 安葬 赴任 见贵 求财|', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 赴任 见贵|修造 动土', '求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|祭祀 祈福 斋醮 酬神', '|诸事不宜', '修造 盖屋 移徙 安床 入宅 开市 开仓 见贵 求财 订婚 嫁娶 进人口|祭祀 祈福 斋醮 开光 赴任 出行'),
    ('祭祀 祈福 酬神 出行 求财 见贵 订婚 嫁娶 修造 安葬 赴任|', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床 修造 盖屋 移徙|赴任 出行', '赴任 出行 求财 见贵 祭祀 祈福 酬神|上梁 盖屋 入殓', '入宅 安葬 求财 嫁娶|赴任 出行 修造 动土', '作灶 修造 赴任 见贵 求财 出行 嫁娶 进人口 移徙 安葬|祭祀 祈福 斋醮 酬神', '求嗣 嫁娶 移徙 入宅 开市 交易 安葬 见贵 求财|赴任 出行 修造 开光', '赴任 出行 求财 见贵 订婚 嫁娶 入宅 开市 安葬 祈福|修造 动土', '祭祀 祈福 酬神 订婚 嫁娶 出行 求财 入宅 安葬 修造 盖屋 移徙 作灶 安床|', '求嗣 求财 嫁娶 安葬|祭祀 祈福 斋醮 开光 赴任 出行', '求嗣 订婚 嫁娶 求财 开市 交易 安床|祭祀 祈福 斋醮 开光 赴任 出行', '祈福 订婚 嫁娶 开市 安葬|赴任 出行 求财', '|诸事不宜'),
    ('|诸事不宜', '祈福 求嗣 出行 求财 嫁娶 安葬 祭祀|', '订婚 嫁娶 出行 求财 开市 交易 安床 赴任 见贵|祈福 求嗣', '求嗣 订婚 嫁娶 修造 入宅 求财 开市 交易 安葬 赴任 出行 见贵|祭祀 祈福 斋醮 酬神', '祭祀 祈福 求嗣 斋醮 订婚 嫁娶 安葬|赴任 修造 移徙 出行 词讼', '求嗣 嫁娶 移徙 入宅 开市 交易 安葬 祈福|赴任 出行 修造 动土', '酬神 订婚 嫁娶 求财 入宅 安葬 作灶|祭祀 祈福 斋醮 开光 赴任 出行', '求嗣 订婚 嫁娶 求财 开市 交易 安床|祭祀 祈福 斋醮 开光 赴任 出行', '赴任 出行 求财 见贵 订婚 嫁娶 入宅 开市 祈福|开光 修造 安葬', '求嗣 嫁娶 移徙 入宅 开市 交易 修造 安葬 赴任 出行 求财|', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床|上梁 盖屋 入殓 赴任 出行', '修造 入宅 安葬 见贵 嫁娶 进人口 移徙|赴任 出行 求财'),
    ('嫁娶 移徙 入宅 开市 交易 修造 安葬|赴任 词讼 祈福 求嗣', '|诸事不宜', '祈福 求嗣 出行 求财 嫁娶 安葬|修造 动土', '求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|祭祀 祈福 斋醮 酬神', '入宅 修造 安葬 见贵 求财 嫁娶 进人口 移徙|祭祀 祈福 斋醮 开光 赴任 出行', '修造 盖屋 移徙 安床 入宅 开市 开仓 酬神 订婚 嫁娶 求财|祭祀 祈福 斋醮 开光 赴任 出行', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床 祭祀|赴任 修造 移徙 出行 词讼', '见贵 求财 嫁娶 进人口 移徙 安葬|造船 乘船 赴任 出行 修造 动土', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 作灶 祭祀 赴任 见贵|上梁 盖屋 入殓', '入宅 安葬 求财 见贵 订婚 嫁娶|赴任 出行 修造', '订婚 嫁娶 安床 移徙 入宅 修造 安葬 祭祀|祈福 求嗣 乘船', '祈福 求嗣 订婚 嫁娶 开市 交易 安床 盖屋 移徙 作灶|赴任 出行 求财 开光 修造 安葬'),
    ('祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|修造 动土', '祈福 嫁娶 修造 造庙 作灶 入宅 安葬 赴任 见贵 求财 出行|', '|诸事不宜', '酬神 求财 见贵 订婚 嫁娶 修造 安葬|祭祀 祈福 斋醮 开光 赴任 出行', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 祭祀 赴任 见贵|', '祈福 求嗣 出行 求财 嫁娶 安葬 祭祀|', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 赴任|上梁 盖屋 入殓', '修造 入宅 安葬 祭祀 祈福 求嗣 斋醮 订婚 嫁娶 出行 赴任|', '嫁娶 入宅 开市 交易 安葬|赴任 修造 移徙 出行 词讼 祈福 求嗣 乘船', '祈福 求嗣 订婚 嫁娶 入宅 求财 开市 交易 安葬|赴任 出行 修造 动土', '作灶 祭祀 祈福 斋醮 酬神|赴任 出行 求财 修造 动土', '求财 见贵 订婚 嫁娶 入宅 开市 安葬|赴任 出行 修造'),
    ('求财 见贵 订婚 嫁娶 入宅 开市 安葬 求嗣 作灶|祭祀 祈福 斋醮 开光 赴任 出行', '求嗣 订婚 嫁娶 求财 开市 交易 安床|赴任 出行 修造 祭祀 祈福 斋醮 开光', '订婚 嫁娶 安床 移徙 入宅 修造 安葬 赴任 见贵 出行 求财|祭祀 祈福 斋醮 酬神', '|诸事不宜', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 祭祀|上梁 盖屋 入殓', '祈福 求嗣 出行 求财 嫁娶|开光 修造 安葬', '订婚 嫁娶 开市 安葬 修造|祈福 求嗣 乘船', '祭祀 祈福 斋醮 酬神 修造 作灶 见贵 求财 嫁娶 进人口 移徙 安葬|赴任 出行', '赴任 出行 求财 见贵 嫁娶 进人口 移徙 安葬|祭祀 祈福 斋醮 酬神 修造 动土', '修造 盖屋 移徙 安床 入宅 开市 开仓 祈福 订婚 嫁娶 赴任 出行 求财|造桥 乘船', '见贵 求财 嫁娶 进人口 移徙 安葬|赴任 出行 祭祀 祈福 斋醮 开光', '求嗣 嫁娶 移徙 入宅 开市 交易 安葬 见贵 求财|赴任 出行 修造 动土 祭祀 祈福 斋醮 开光'),
    ('祈福 求嗣 订婚 嫁娶 入宅 求财 开市 交易 安葬|赴任 修造 移徙 出行 词讼', '祭祀 祈福 酬神 求财 见贵 订婚 嫁娶 安葬|赴任 出行 修造 动土', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 赴任 祭祀|上梁 盖屋 入殓', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床 入宅 安葬|赴任 出行 修造', '|诸事不宜', '盖屋 移徙 作灶 安床 入宅 开市 祭祀 祈福 出行 订婚 嫁娶|开光 修造 安葬', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|赴任 词讼 修造 动土', '祭祀 祈福 酬神 求财 见贵 订婚 嫁娶 修造 安葬 入宅|赴任 出行', '订婚 嫁娶 开市 安葬 赴任 出行 见贵 求财|祭祀 祈福 斋醮 酬神', '赴任 出行 求财 见贵|祭祀 祈福 斋醮 酬神', '祈福 订婚 嫁娶 移徙 开市 修造 入宅 安葬|造船 乘船', '求嗣 嫁娶 移徙 入宅 开市 交易 修造 安葬 祭祀 祈福 斋醮 酬神|'),
    ('祭祀 祈福 酬神 出行 求财 见贵 订婚 嫁娶 修造 安葬 赴任|上梁 盖屋 入殓', '祭祀 祈福 酬神 订婚 嫁娶 出行 求财 入宅 安葬 修造 盖屋 移徙 安床 赴任|', '订婚 嫁娶 求财 开市 交易 安床|祈福 求嗣 赴任 修造 移徙 出行 词讼', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 赴任|', '作灶 祭祀 祈福 斋醮 酬神 赴任 见贵 求财 出行 嫁娶 进人口 移徙 安葬|修造 动土', '|诸事不宜', '求嗣 嫁娶 移徙 入宅 开市 交易 修造 安葬 订婚 见贵 求财|祭祀 祈福 斋醮 开光 赴任 出行', '求嗣 订婚 嫁娶 求财 开市 交易 安床 修造 盖屋 移徙 作灶|祭祀 祈福 斋醮 开光 赴任 出行', '赴任 出行 求财 见贵|祭祀 祈福 斋醮 酬神 开光 修造 安葬', '|赴任 出行 求财', '订婚 嫁娶 开市 安葬|上梁 盖屋 入殓 祭祀 祈福 斋醮 酬神', '祭祀 祈福 酬神 订婚 嫁娶 求财 入宅 安葬|赴任 出行'),
    ('赴任 出行 求财 见贵 祭祀 酬神|祈福 求嗣', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 祭祀|', '求嗣 嫁娶 移徙 入宅 开市 交易 安葬 赴任 出行 见贵 求财|祭祀 祈福 斋醮 酬神 修造 动土', '修造 盖屋 移徙 安床 入宅 开市 开仓 见贵 求财 订婚 嫁娶 进人口|赴任 出行', '求嗣 订婚 嫁娶 求财 开市 交易 安床|赴任 出行 祭祀 祈福 斋醮 开光', '求财 见贵 订婚 嫁娶 入宅 开市 安葬|赴任 出行 修造 动土 祭祀 祈福 斋醮 开光', '|诸事不宜', '|修造 动土 赴任 出行', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|上梁 盖屋 入殓', '修造 入宅 安葬 祭祀 祈福 酬神 出行 求财 见贵 订婚 嫁娶 赴任|', '见贵 求财 出行 嫁娶 进人口 移徙 安葬|赴任 词讼 祈福 求嗣 乘船', '求嗣 出行 求财 嫁娶|祭祀 祈福 斋醮 酬神 开光 修造 安葬'),
    ('求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|祭祀 祈福 斋醮 酬神 修造 动土', '赴任 出行 见贵 求财 嫁娶 进人口 移徙 安葬 祈福|造船 乘船', '订婚 嫁娶 开市|祭祀 祈福 斋醮 酬神 开光 修造 安葬', '酬神 修造 作灶|赴任 出行 祭祀 祈福 斋醮 开光', '|修造 动土', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 修造 盖屋 移徙 赴任|', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床|上梁 盖屋 入殓 赴任 修造 移徙 出行 词讼', '|诸事不宜', '作灶 祭祀 斋醮 酬神 修造|祈福 求嗣 赴任 出行 求财', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 祭祀|', '祈福 订婚 嫁娶 安床 移徙 入宅 安葬|赴任 出行 修造 动土', '赴任 出行 求财 见贵 祭祀 祈福 酬神 修造 盖屋 移徙 作灶 安床 入宅 开市|'),
    ('订婚 嫁娶 开市 安葬 见贵 求财|祭祀 祈福 斋醮 开光 赴任 出行', '修造 盖屋 移徙 作灶 安床 入宅 开市 出行 求财 见贵 订婚 嫁娶|祭祀 祈福 斋醮 酬神', '求嗣 嫁娶 移徙 入宅 开市 交易 修造 安葬 祈福 订婚|赴任 词讼', '入宅 修造 安葬 赴任 出行 求财 见贵 祭祀 祈福 酬神|', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 赴任 见贵|上梁 盖屋 入殓', '入宅 赴任 出行 求财 见贵 订婚 嫁娶|开光 修造 安葬', '订婚 嫁娶 移徙 开市 修造 入宅 安葬|祈福 求嗣', '修造 盖屋 移徙 安床 入宅 开市 开仓 祭祀 祈福 酬神 出行 求财 见贵 订婚|', '|诸事不宜', '|祭祀 祈福 斋醮 酬神 赴任 出行 修造 动土', '作灶 酬神 修造|祭祀 祈福 斋醮 开光 赴任 出行', '合脊 嫁娶 安葬|赴任 出行 修造 祭祀 祈福 斋醮 开光'),
    ('祭祀 祈福 酬神 出行 求财 见贵 订婚 嫁娶 修造 安葬 作灶|', '祭祀 祈福 求嗣 斋醮 订婚 嫁娶 安葬|赴任 出行 修造', '求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|上梁 盖屋 入殓 祭祀 祈福 斋醮 酬神', '修造 入宅 安葬|造船 乘船', '祭祀 斋醮 订婚 嫁娶 出行 安葬|赴任 词讼 祈福 求嗣 乘船', '赴任 出行 见贵 求财 嫁娶 入宅 移徙 求嗣|开光 修造 安葬', '祈福 订婚 嫁娶 开市 安葬 赴任 出行 求财 见贵|修造 动土', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 祭祀|', '求嗣 嫁娶 安葬|赴任 出行 求财 祭祀 祈福 斋醮 开光', '|诸事不宜', '祭祀 祈福 合脊 嫁娶 安葬|赴任 修造 移徙 出行 词讼', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床 见贵|赴任 出行'),
    ('祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床|赴任 修造 移徙 出行 词讼 上梁 盖屋 入殓', '祭祀 祈福 酬神 求财 见贵 订婚 嫁娶 安葬|赴任 出行 修造 动土', '订婚 嫁娶 开市 交易 安床 作灶 祭祀|祈福 求嗣 赴任 出行 求财', '求嗣 订婚 嫁娶 求财 开市 交易 安床|祭祀 祈福 斋醮 酬神 赴任 出行 修造', '|诸事不宜', '求嗣 嫁娶 移徙 入宅 开市 交易 修造 安葬 祭祀 祈福 斋醮 酬神|', '求财 见贵 酬神|祭祀 祈福 斋醮 开光 赴任 出行', '酬神 求财 见贵 订婚 嫁娶 修造 安葬|赴任 出行 祭祀 祈福 斋醮 开光', '祈福 订婚 嫁娶 开市 赴任 出行 求财 见贵|开光 修造 安葬', '修造 作灶 求嗣 嫁娶 移徙 入宅 开市 交易|祭祀 祈福 斋醮 酬神', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 祭祀|上梁 盖屋 入殓', '修造 入宅 安葬 赴任 出行 见贵 求财 订婚 嫁娶 进人口 移徙|'),
    ('嫁娶 移徙 入宅 开市 交易 修造 安葬 赴任 出行 求财|祈福 求嗣', '修造 盖屋 移徙 安床 入宅 开市 开仓 赴任 见贵 求财 出行 嫁娶 进人口|', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床 祭祀|赴任 修造 移徙 出行 词讼', '求嗣 订婚 嫁娶 求财 开市 交易 安床|祭祀 祈福 斋醮 酬神 赴任 出行 修造 动土', '作灶 酬神 修造 见贵 求财 嫁娶 进人口 移徙 安葬|祭祀 祈福 斋醮 开光 赴任 出行', '|诸事不宜', '赴任 出行 求财 见贵 祭祀 祈福 酬神|', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 祭祀 修造 盖屋 移徙 作灶|', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|上梁 盖屋 入殓 赴任 词讼', '求财 见贵 订婚 嫁娶 入宅 开市 安葬 修造|赴任 出行', '订婚 嫁娶 开市 安葬|乘船 祈福 求嗣 祭祀', '祭祀 祈福 斋醮 酬神 作灶|造桥 乘船 开光 修造 安葬'),
    ('祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床|上梁 盖屋 入殓 赴任 修造 移徙 出行 词讼', '入宅 安葬 祭祀 祈福 酬神 求财 见贵 订婚 嫁娶|赴任 出行 修造 动土', '作灶 祭祀 斋醮 酬神 修造 赴任 出行 见贵 求财 嫁娶 入宅 移徙 安葬|祈福 求嗣', '求嗣 订婚 嫁娶 修造 入宅 求财 开市 交易 安葬 赴任 出行 见贵|祭祀 祈福 斋醮 酬神', '祈福 订婚 嫁娶 安床 移徙 入宅 安葬 赴任 出行 求财 见贵|造桥 乘船 修造 动土', '求嗣 嫁娶 移徙 入宅 开市 交易 修造 安葬 祭祀 祈福 斋醮 酬神|', '出行 求财 见贵 酬神|赴任 词讼 祭祀 祈福 斋醮 开光', '见贵 求财 嫁娶 进人口 移徙 安葬 酬神|祭祀 祈福 斋醮 开光 赴任 出行', '赴任 出行 求财 见贵 订婚 嫁娶 入宅 开市 祈福 求嗣|开光 修造 安葬', '求嗣 嫁娶 移徙 入宅 开市 交易 修造 安葬 祭祀 祈福 斋醮 酬神|', '|诸事不宜', '修造 入宅 安葬 赴任 出行 见贵 求财 订婚 嫁娶 进人口 移徙|'),
    ('嫁娶 移徙 入宅 开市 交易 修造 安葬 赴任 出行 求财|祈福 求嗣', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 修造 安葬 赴任|', '祭祀 祈福 酬神 求财 见贵 订婚 嫁娶 安葬|修造 动土 赴任 出行', '求财 嫁娶 移徙 开市 安葬|赴任 出行 修造 动土 祭祀 祈福 斋醮 酬神', '作灶 修造|祭祀 祈福 斋醮 酬神', '酬神 订婚 嫁娶 求财 入宅 安葬|祭祀 祈福 斋醮 开光 赴任 出行', '祈福 订婚 嫁娶 安床 移徙 入宅 修造 安葬 祭祀 赴任 出行 求财 见贵|', '祭祀 祈福 求嗣 斋醮 出行 嫁娶 安葬 修造 盖屋 移徙 作灶 安床 入宅 开市|', '祭祀 祈福 合脊 嫁娶 修造 安葬 求嗣|上梁 盖屋 入殓', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床|赴任 出行', '订婚 嫁娶 开市 安葬|祈福 求嗣 乘船', '|诸事不宜'),
    ('|诸事不宜', '祭祀 祈福 斋醮 酬神 作灶|修造 动土', '求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|祭祀 祈福 斋醮 酬神 开光 修造 安葬', '修造 盖屋 移徙 安床 入宅 开市 开仓 酬神 求财 见贵 订婚 嫁娶|祭祀 祈福 斋醮 开光 赴任 出行', '祭祀 祈福 酬神 订婚 嫁娶 求财 入宅 安葬|赴任 修造 移徙 出行 词讼', '求财 见贵|祭祀 祈福 斋醮 酬神 赴任 出行 修造 动土', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床 作灶 祭祀|上梁 盖屋 入殓 赴任 出行', '祭祀 祈福 合脊 嫁娶 安葬|赴任 出行 修造', '订婚 嫁娶 安床 移徙 入宅 修造 安葬 赴任 出行 见贵 求财|祈福 求嗣', '祈福 求嗣 订婚 嫁娶 修造 入宅 开市 交易 安葬|赴任 出行 求财', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 见贵|赴任 词讼 修造 动土', '祈福 求嗣 出行 求财 嫁娶 安葬 赴任 见贵|'),
    ('出行 求财 见贵 订婚 嫁娶 入宅 开市 安葬 求嗣|赴任 词讼 祭祀 祈福 斋醮 开光', '|诸事不宜', '求嗣 订婚 嫁娶 修造 入宅 开市 交易 安葬|祭祀 祈福 斋醮 酬神', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 祭祀|', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|上梁 盖屋 入殓', '盖屋 移徙 安床 入宅 开市 开仓 祭祀 祈福 酬神 出行 求财 见贵 订婚 嫁娶|开光 修造 安葬', '订婚 嫁娶 出行 求财 开市 交易 安床|祈福 求嗣 祭祀', '见贵 求财 嫁娶 进人口 移徙 安葬|赴任 出行', '作灶 祭祀 祈福 斋醮 酬神 赴任 出行 求财 见贵 嫁娶 进人口 移徙 安葬|修造 动土', '|赴任 出行 求财', '订婚 嫁娶 安床 移徙 入宅 修造 安葬|祭祀 祈福 斋醮 开光 赴任 出行', '求嗣 订婚 嫁娶 求财 开市 交易 安床 修造 盖屋 移徙 作灶|祭祀 祈福 斋醮 开光 赴任 出行'),
    ('祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 赴任|', '祈福 求嗣 出行 求财 嫁娶 安葬 修造 盖屋 移徙 作灶 安床 入宅 开市 赴任|', '|诸事不宜', '修造 入宅 安葬 求嗣 嫁娶 移徙 祭祀 祈福 斋醮 酬神|', '祭祀 出行 订婚 嫁娶 入宅 修造 安葬|祈福 求嗣', '祭祀 祈福 合脊 嫁娶|开光 修造 安葬', '祈福 订婚 嫁娶 移徙 入宅 安葬|赴任 出行 修造 动土', '修造 盖屋 移徙 安床 入宅 开市 开仓 出行 求财 见贵 订婚 嫁娶|祭祀 祈福 斋醮 酬神', '求嗣 嫁娶 入宅 开市 交易 安葬|祭祀 祈福 斋醮 酬神 赴任 修造 移徙 出行 词讼', '求财 见贵 酬神|赴任 出行 修造 动土 祭祀 祈福 斋醮 开光', '作灶 祭祀 祈福 斋醮 酬神 修造 赴任 出行 求财 见贵 嫁娶 进人口 移徙 安葬|', '求嗣 嫁娶 移徙 入宅 开市 交易 修造 安葬 祈福|'),
    ('祈福 求嗣 出行 求财 嫁娶 安葬 作灶 祭祀|上梁 盖屋 入殓', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 祭祀|', '订婚 嫁娶 安床 移徙 入宅 修造 安葬 赴任 见贵 出行 求财|祈福 求嗣', '|诸事不宜', '祭祀 祈福 合脊 嫁娶 安葬|修造 动土', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床|赴任 出行', '求嗣 嫁娶 移徙 入宅 开市 交易 修造 安葬 订婚|赴任 出行 求财 祭祀 祈福 斋醮 开光', '酬神 修造 作灶|赴任 出行 求财 祭祀 祈福 斋醮 开光', '赴任 出行 求财 见贵|祭祀 祈福 斋醮 酬神 开光 修造 安葬', '修造 盖屋 移徙 安床 入宅 开市 开仓 赴任 出行 求财 嫁娶|造桥 乘船', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 赴任|上梁 盖屋 入殓', '祭祀 祈福 酬神 订婚 嫁娶 求财 入宅 安葬|赴任 出行 修造 动土'),
    ('求财 见贵 祭祀 酬神|赴任 修造 移徙 出行 词讼 祈福 求嗣', '修造 安葬 求财 见贵 嫁娶 进人口 移徙|赴任 出行', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 作灶 祭祀|修造 动土', '祭祀 祈福 合脊 嫁娶 安葬|赴任 出行 修造', '|诸事不宜', '求财 见贵 订婚 嫁娶 入宅 开市 安葬 修造 盖屋 移徙 作灶 安床|祭祀 祈福 斋醮 开光 赴任 出行', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 赴任|', '见贵 求财 嫁娶 进人口 移徙 安葬|赴任 出行', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 赴任 见贵|上梁 盖屋 入殓', '修造 入宅 安葬 出行 求财 见贵 订婚 嫁娶|祭祀 祈福 斋醮 酬神', '祭祀 斋醮 订婚 嫁娶 出行 安葬|造船 乘船 祈福 求嗣', '盖屋 移徙 安床 入宅 开市 开仓 祭祀 祈福 酬神 出行 求财 见贵 订婚 嫁娶|开光 修造 安葬'),
    ('赴任 出行 求财 嫁娶 移徙 开市 安葬|修造 动土', '修造 盖屋 移徙 安床 入宅 开市 开仓 赴任 出行 见贵 求财 订婚 嫁娶 进人口|', '合脊 嫁娶 修造 安葬|祭祀 祈福 斋醮 酬神', '求嗣 订婚 嫁娶 求财 开市 交易 安床|赴任 出行 修造 动土 祭祀 祈福 斋醮 开光', '作灶 祭祀 祈福 斋醮 酬神 修造 赴任 见贵 求财 出行 嫁娶 进人口 移徙 安葬|', '|诸事不宜', '祈福 求嗣 出行 求财 嫁娶 安葬|修造 动土', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 修造 入宅 安葬 祭祀|', '入宅 修造 安葬|赴任 词讼 祈福 求嗣 乘船', '祭祀 祈福 酬神 出行 求财 见贵 订婚 嫁娶 修造 安葬|', '订婚 嫁娶 开市 安葬|祭祀 祈福 斋醮 酬神 修造 动土', '求财 见贵 祭祀 祈福 酬神|赴任 出行'),
    ('订婚 嫁娶 开市 安葬 见贵 求财|祭祀 祈福 斋醮 开光 赴任 出行', '合脊 嫁娶 修造 安葬|祭祀 祈福 斋醮 开光 赴任 出行', '求嗣 嫁娶 移徙 入宅 开市 交易 修造 安葬 见贵 求财|赴任 出行', '求财 见贵 祭祀 祈福 酬神 修造 盖屋 移徙 安床 入宅 开市 开仓|赴任 出行', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 祭祀|上梁 盖屋 入殓', '入宅 赴任 出行 求财 见贵 订婚 嫁娶|开光 修造 安葬', '|诸事不宜', '祈福 求嗣 求财 嫁娶 安葬|赴任 出行 修造', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 祭祀|修造 动土', '修造 盖屋 移徙 作灶 安床 入宅 开市 赴任 出行 求财 嫁娶|祭祀 祈福 斋醮 酬神', '见贵 求财 嫁娶 进人口 移徙 安葬|祭祀 祈福 斋醮 开光 赴任 出行', '赴任 见贵 出行 求财 嫁娶 进人口 移徙 安葬|祭祀 祈福 斋醮 酬神'),
    ('祈福 求嗣 出行 求财 嫁娶 安葬|', '见贵 求财 嫁娶 进人口 移徙 安葬|造船 乘船 赴任 出行', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 赴任|上梁 盖屋 入殓', '修造 入宅 安葬 祈福 斋醮 出行 订婚 嫁娶 祭祀|', '|祈福 求嗣', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 盖屋 移徙|开光 修造 安葬', '祈福 求嗣 出行 求财 嫁娶 安葬 赴任|修造 动土', '|诸事不宜', '作灶 酬神 修造 见贵 求财 嫁娶 进人口 移徙 安葬|祭祀 祈福 斋醮 开光 赴任 出行', '求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|祭祀 祈福 斋醮 酬神', '祈福 订婚 嫁娶 安床 移徙 入宅 修造 安葬 祭祀|赴任 出行', '修造 盖屋 移徙 作灶 安床 入宅 开市 祈福 嫁娶 见贵 求财|赴任 出行'),
    ('祈福 订婚 嫁娶 安床 移徙 入宅 修造 安葬 赴任 出行 求财|上梁 盖屋 入殓', '出行 求财 见贵 订婚 嫁娶 修造 安葬|祭祀 祈福 斋醮 酬神', '嫁娶 移徙 入宅 开市 交易 修造 安葬|赴任 词讼 祈福 求嗣 乘船', '求嗣 订婚 嫁娶 修造 入宅 求财 开市 交易 安葬|祭祀 祈福 斋醮 酬神', '祈福 斋醮 出行 订婚 嫁娶 移徙 开市 安葬 赴任 见贵 求财|修造 动土', '祭祀 祈福 斋醮 酬神 修造 作灶 求嗣 嫁娶 移徙 入宅 开市 交易|', '求嗣 订婚 嫁娶 开市 交易 安床|赴任 出行 求财 祭祀 祈福 斋醮 开光', '修造 盖屋 移徙 安床 入宅 开市 开仓 酬神 求财 见贵 订婚 嫁娶|祭祀 祈福 斋醮 开光 赴任 出行', '|诸事不宜', '求嗣 嫁娶 移徙 入宅 开市 交易 安葬 祈福|赴任 出行 修造 动土', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 作灶 祭祀|上梁 盖屋 入殓', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床 入宅 安葬|赴任 出行 修造'),
    ('作灶 祭祀 斋醮 酬神 修造 嫁娶 移徙 入宅 开市 交易|祈福 求嗣 赴任 出行', '安葬 祭祀 祈福 求嗣 斋醮 订婚 嫁娶|赴任 出行 修造', '订婚 嫁娶 安床 移徙 入宅 修造 安葬|祭祀 祈福 斋醮 酬神 上梁 盖屋 入殓', '修造 盖屋 移徙 作灶 安床 入宅 开市|祭祀 祈福 斋醮 酬神', '求嗣 订婚 嫁娶 出行 安葬|赴任 词讼 祭祀 祈福 斋醮 开光', '酬神 订婚 嫁娶 求财 入宅 安葬|祭祀 祈福 斋醮 开光 赴任 出行', '祭祀 祈福 酬神 见贵 订婚 嫁娶 修造 安葬|赴任 出行 求财', '祭祀 祈福 出行 订婚 嫁娶 入宅 修造 安葬|', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|上梁 盖屋 入殓', '|诸事不宜', '订婚 嫁娶 求财 开市 交易 安床|赴任 修造 移徙 出行 词讼 祈福 求嗣 乘船', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床 见贵|赴任 出行 修造 动土 开光'),
    ('祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|修造 动土 赴任', '求财 见贵 嫁娶 进人口 移徙 安葬 祈福|赴任 出行 修造 动土', '见贵 求财 嫁娶 入宅 移徙 安葬|祭祀 祈福 斋醮 开光 赴任 出行', '求嗣 嫁娶 移徙 入宅 开市 交易 修造 安葬 出行 求财 见贵 订婚|祭祀 祈福 斋醮 酬神', '祈福 订婚 嫁娶 安床 移徙 入宅 修造 安葬 祭祀|造桥 乘船', '求嗣 出行 入宅 嫁娶 修造 安葬 赴任|祭祀 祈福 斋醮 酬神', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 赴任|上梁 盖屋 入殓', '修造 入宅 安葬 祈福 嫁娶|', '订婚 嫁娶 出行 求财 开市 交易 安床|祈福 求嗣', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 祭祀|', '|诸事不宜', '赴任 出行 求财 见贵 订婚 嫁娶 入宅 开市 安葬 修造 盖屋 移徙 安床|'),
    ('求嗣 求财 嫁娶 安葬|祭祀 祈福 斋醮 开光 赴任 出行', '修造 盖屋 移徙 安床 入宅 开市 开仓 求嗣 订婚 嫁娶 求财|祭祀 祈福 斋醮 开光 赴任 出行', '|祭祀 祈福 斋醮 酬神 赴任 出行', '求嗣 嫁娶 移徙 入宅 开市 交易 修造 安葬 祭祀 祈福 酬神 出行 求财 见贵|', '求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 作灶|上梁 盖屋 入殓 祭祀 祈福 斋醮 酬神', '入宅 祭祀 祈福 酬神 出行 求财 见贵 订婚 嫁娶 赴任|开光 修造 安葬', '订婚 嫁娶 安床 移徙 入宅 修造 安葬|祈福 求嗣 乘船', '修造 盖屋 移徙 作灶 安床 入宅 开市 祭祀 祈福 求嗣 斋醮 订婚 嫁娶 安葬|赴任 出行', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 赴任|修造 动土', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床|赴任 出行', '订婚 嫁娶 开市 安葬|祭祀 祈福 斋醮 开光 赴任 出行', '|诸事不宜'),
    ('|诸事不宜', '祭祀 祈福 斋醮 酬神 修造 作灶|', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 赴任 祭祀|上梁 盖屋 入殓', '求嗣 嫁娶 移徙 入宅 开市 交易 修造 安葬 赴任 出行 见贵 求财 订婚|', '祭祀 斋醮 订婚 嫁娶 安葬|赴任 修造 移徙 出行 词讼 祈福 求嗣 乘船', '订婚 嫁娶 移徙 入宅 安葬|赴任 出行 修造 动土 祭祀 祈福 斋醮 酬神 开光', '祈福 嫁娶 造庙 作灶 入宅 安葬|赴任 出行 修造 动土', '祈福 求嗣 求财 嫁娶 安葬|赴任 出行 修造', '订婚 嫁娶 安床 移徙 入宅 修造 安葬 赴任 出行 见贵 求财|祭祀 祈福 斋醮 酬神', '求财 见贵 酬神 修造 盖屋 移徙 作灶 安床 入宅 开市|祭祀 祈福 斋醮 开光 赴任 出行', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 见贵|赴任 词讼', '求嗣 嫁娶 移徙 入宅 开市 交易 修造 安葬 赴任 见贵 出行 求财|'),
    ('祭祀 祈福 酬神 出行 求财 见贵 订婚 嫁娶 修造 安葬|上梁 盖屋 入殓 赴任 词讼', '|诸事不宜', '嫁娶 移徙 入宅 开市 交易 修造 安葬 订婚|祈福 求嗣', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 赴任|', '|修造 动土', '修造 盖屋 移徙 安床 入宅 开市 开仓 见贵 求财 嫁娶|赴任 出行', '求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|祭祀 祈福 斋醮 酬神', '见贵 求财 嫁娶 进人口 移徙 安葬|造船 乘船 赴任 出行 修造 动土 祭祀 祈福 斋醮 开光', '求嗣 出行 求财 嫁娶|祭祀 祈福 斋醮 酬神 开光 修造 安葬', '|赴任 出行 修造', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床|上梁 盖屋 入殓 赴任 出行', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 祭祀 修造 盖屋 移徙 作灶|'),
    ('订婚 嫁娶 出行 求财 开市 交易 安床 赴任|祈福 求嗣', '修造 盖屋 移徙 作灶 安床 入宅 开市 祈福 求嗣 订婚 嫁娶 赴任 见贵 求财|', '|诸事不宜', '赴任 出行 见贵 求财 嫁娶 进人口 移徙 安葬 祭祀 祈福 斋醮 酬神|', '求嗣 订婚 嫁娶 开市 交易 安床|赴任 出行 求财 祭祀 祈福 斋醮 开光', '求嗣 订婚 嫁娶 求财 开市 交易 安床|祭祀 祈福 斋醮 开光 赴任 出行', '求嗣 嫁娶 移徙 入宅 开市 交易 修造 安葬 祈福|', '修造 盖屋 移徙 安床 入宅 开市 开仓 求嗣 订婚 嫁娶|祭祀 祈福 斋醮 酬神', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床|造船 乘船 上梁 盖屋 入殓 赴任 修造 移徙 出行 词讼', '祭祀 祈福 酬神 求财 见贵 订婚 嫁娶 安葬|赴任 出行 修造 动土', '作灶 祭祀 斋醮 酬神 修造|祈福 求嗣 乘船', '祈福 求嗣 求财 嫁娶 安葬|赴任 出行 修造 开光'),
    ('作灶 祭祀 祈福 斋醮 酬神|修造 动土', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床 祭祀|赴任 出行 修造', '订婚 嫁娶 安床 移徙 入宅 修造 安葬|祭祀 祈福 斋醮 开光 赴任 出行', '|诸事不宜', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 祭祀|赴任 词讼', '祈福 求嗣 订婚 嫁娶 开市 交易 安床|赴任 出行 求财', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 赴任|上梁 盖屋 入殓', '祈福 求嗣 订婚 嫁娶 修造 入宅 开市 交易 安葬 祭祀|', '|祈福 求嗣 乘船 祭祀', '祭祀 祈福 酬神 订婚 嫁娶 出行 求财 入宅 安葬 求嗣|造桥 乘船', '见贵 求财 嫁娶 进人口 安葬|赴任 修造 移徙 出行 词讼', '求财 见贵 祭祀 祈福 酬神|赴任 出行 修造 动土'),
    ('见贵 求财 嫁娶 进人口 安葬 求嗣 订婚|赴任 修造 移徙 出行 词讼 祭祀 祈福 斋醮 开光', '酬神 求财 见贵 订婚 嫁娶 修造 安葬|赴任 出行 祭祀 祈福 斋醮 开光', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床|赴任 出行', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床 入宅 安葬|赴任 出行 修造', '|诸事不宜', '见贵 订婚 嫁娶 入宅 开市|赴任 出行 求财 开光 修造 安葬', '订婚 嫁娶 出行 求财 开市 交易 安床 赴任|祈福 求嗣', '祈福 求嗣 出行 入宅 嫁娶 修造 安葬 赴任 见贵 求财|', '祭祀 祈福 酬神 订婚 嫁娶 出行 求财 入宅 安葬 赴任 见贵|修造 动土', '出行 订婚 嫁娶 修造 移徙 开市 安葬|祭祀 祈福 斋醮 酬神', '求嗣 订婚 嫁娶 安葬|造船 乘船 祭祀 祈福 斋醮 开光 赴任 出行', '修造 盖屋 移徙 安床 入宅 开市 开仓 见贵 求财 订婚 嫁娶 进人口|祭祀 祈福 斋醮 开光 赴任 出行'),
    ('祭祀 祈福 酬神 出行 求财 见贵 订婚 嫁娶 修造 安葬 赴任|', '修造 盖屋 移徙 安床 入宅 开市 开仓 见贵 求财 嫁娶 进人口|赴任 出行', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|上梁 盖屋 入殓', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 修造 入宅 安葬 赴任|', '作灶 祭祀 斋醮 酬神 修造 赴任 见贵 求财 出行 嫁娶 进人口 移徙 安葬|祈福 求嗣 乘船', '|诸事不宜', '祈福 订婚 嫁娶 安床 移徙 入宅 安葬 赴任 出行 求财 见贵|修造 动土', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 祭祀|', '求嗣 出行 求财 嫁娶 安葬|赴任 词讼 祭祀 祈福 斋醮 开光', '求嗣 嫁娶 移徙 入宅 开市 交易 修造 安葬|祭祀 祈福 斋醮 酬神', '订婚 嫁娶 开市 安葬|祭祀 祈福 斋醮 酬神', '祭祀 祈福 斋醮 酬神 修造 作灶|赴任 出行 造桥 乘船'),
    ('祈福 订婚 嫁娶 开市 安葬|造船 乘船 上梁 盖屋 入殓 赴任 出行', '祭祀 祈福 酬神 出行 求财 见贵 订婚 嫁娶 修造 安葬|', '赴任 见贵 出行 求财 嫁娶 进人口 移徙 安葬|祈福 求嗣', '修造 盖屋 移徙 安床 入宅 开市 开仓 祈福 求嗣 订婚 嫁娶 赴任 出行 见贵|', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床|赴任 修造 移徙 出行 词讼', '求嗣 嫁娶 移徙 入宅 开市 交易 安葬|赴任 出行 修造 动土', '|诸事不宜', '酬神 求财 见贵 订婚 嫁娶 修造 安葬|赴任 出行 祭祀 祈福 斋醮 开光', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 赴任 入宅|开光 修造 安葬', '求嗣 嫁娶 移徙 入宅 开市 交易 修造 安葬 祈福 赴任 出行 求财|', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床 见贵|上梁 盖屋 入殓 赴任 出行', '赴任 见贵 出行 求财 嫁娶 进人口 移徙 安葬 修造 入宅|祭祀 祈福 斋醮 酬神'),
    ('订婚 嫁娶 出行 求财 开市 交易 安床|祈福 求嗣', '修造 安葬|造船 乘船', '祈福 求嗣 出行 求财 嫁娶 安葬|修造 动土', '修造 作灶|祭祀 祈福 斋醮 酬神', '见贵 求财 嫁娶 进人口 移徙 安葬 入宅 修造|祭祀 祈福 斋醮 开光 赴任 出行', '求嗣 订婚 嫁娶 求财 开市 交易 安床 修造 盖屋 移徙|祭祀 祈福 斋醮 开光 赴任 出行', '祈福 求嗣 出行 求财 嫁娶 安葬 赴任|', '|诸事不宜', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 作灶 祭祀 赴任 见贵|上梁 盖屋 入殓', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 修造 入宅 安葬 赴任|', '订婚 嫁娶 安床 移徙 入宅 修造 安葬 祭祀|祈福 求嗣 乘船', '盖屋 移徙 作灶 安床 入宅 开市 赴任 出行 见贵 求财 嫁娶|开光 修造 安葬'),
    ('祈福 订婚 嫁娶 安床 移徙 入宅 安葬 求嗣 赴任 出行 求财|修造 动土', '修造 盖屋 移徙 作灶 安床 入宅 开市 求嗣 订婚 嫁娶|祭祀 祈福 斋醮 酬神', '|祭祀 祈福 斋醮 开光 赴任 出行', '酬神 求财 见贵 订婚 嫁娶 修造 安葬|祭祀 祈福 斋醮 开光 赴任 出行', '祈福 订婚 嫁娶 开市 安葬 祭祀 见贵|赴任 出行 求财', '出行 求财 见贵 订婚 嫁娶 修造 安葬|祭祀 祈福 斋醮 酬神', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|上梁 盖屋 入殓', '修造 入宅 安葬 赴任 出行 求财 见贵 嫁娶 进人口 移徙 祭祀 祈福 求嗣 斋醮|', '|诸事不宜', '祈福 求嗣 订婚 嫁娶 入宅 求财 开市 交易 安葬 祭祀|赴任 出行 修造 动土', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 作灶 祭祀|修造 动土', '祈福 求嗣 求财 嫁娶 安葬|赴任 出行 修造'),
    ('求财 见贵 订婚 嫁娶 入宅 开市 安葬 求嗣|赴任 出行 祭祀 祈福 斋醮 开光', '求嗣 订婚 嫁娶 安葬|赴任 出行 修造 祭祀 祈福 斋醮 开光', '订婚 嫁娶 安床 移徙 入宅 修造 安葬 赴任 见贵 出行 求财|祭祀 祈福 斋醮 酬神', '祈福 求嗣 出行 求财 嫁娶 安葬 修造 盖屋 移徙 作灶 安床 入宅 开市|', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 祭祀|上梁 盖屋 入殓 赴任 词讼', '祭祀 祈福 酬神 出行 求财 见贵 订婚 嫁娶 赴任|开光 修造 安葬', '修造 安葬 订婚 嫁娶 开市|祈福 求嗣 乘船', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床 祭祀|赴任 出行', '赴任 出行 求财 见贵 嫁娶 进人口 移徙 安葬|修造 动土', '|诸事不宜', '求嗣 订婚 嫁娶 求财 开市 交易 安床|赴任 修造 移徙 出行 词讼 祭祀 祈福 斋醮 开光', '求嗣 订婚 嫁娶 求财 开市 交易 安床 见贵|祭祀 祈福 斋醮 开光 赴任 出行'),
    ('祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床|赴任 修造 移徙 出行 词讼', '祈福 求嗣 入宅 嫁娶 安葬|赴任 出行 修造 动土', '祭祀 祈福 酬神 订婚 嫁娶 出行 求财 入宅 安葬 赴任 作灶|上梁 盖屋 入殓', '求嗣 嫁娶 移徙 入宅 开市 交易 安葬|祭祀 祈福 斋醮 酬神 赴任 出行 修造', '订婚 嫁娶 安床 移徙 入宅 修造 安葬|赴任 出行 祈福 求嗣 乘船', '盖屋 移徙 作灶 安床 入宅 开市 祭祀 祈福 出行 订婚 嫁娶|开光 修造 安葬', '求财 嫁娶 移徙 开市 安葬|赴任 出行 修造 动土', '祈福 求嗣 出行 入宅 嫁娶 修造 安葬 赴任 见贵 求财|', '求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|祭祀 祈福 斋醮 酬神', '求嗣 订婚 嫁娶 求财 开市 交易 安床|祭祀 祈福 斋醮 开光 赴任 出行', '|诸事不宜', '求嗣 嫁娶 移徙 入宅 开市 交易 修造 安葬|'),
    ('祈福 求嗣 出行 求财 嫁娶 安葬|上梁 盖屋 入殓', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 修造 入宅 安葬 赴任 见贵|', '订婚 嫁娶 入宅 安葬|赴任 修造 移徙 出行 词讼 祈福 求嗣 乘船', '求财 见贵 订婚 嫁娶 入宅 开市 安葬 祈福 求嗣|赴任 出行 修造 动土', '作灶 赴任 见贵 求财 出行 嫁娶 进人口 移徙 安葬|祭祀 祈福 斋醮 酬神 修造 动土', '祈福 嫁娶 修造 盖屋 造庙 作灶 入宅 安葬 见贵 求财|赴任 出行 造船 乘船', '订婚 嫁娶 安床 移徙 入宅 修造 安葬 求嗣|祭祀 祈福 斋醮 开光 赴任 出行', '修造 盖屋 移徙 作灶 安床 入宅 开市 求嗣 订婚 嫁娶|祭祀 祈福 斋醮 开光 赴任 出行', '求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|祭祀 祈福 斋醮 酬神 开光 修造 安葬', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 赴任|上梁 盖屋 入殓', '|诸事不宜'),
    ('|诸事不宜', '祭祀 祈福 斋醮 酬神 修造 作灶|', '求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|祭祀 祈福 斋醮 酬神 修造 动土', '修造 盖屋 移徙 安床 入宅 开市 开仓 祈福 求嗣 订婚 嫁娶 赴任 出行 见贵|', '求嗣 订婚 嫁娶 安葬 入宅 修造|赴任 出行 祭祀 祈福 斋醮 开光', '赴任 出行 求财 见贵 订婚 嫁娶 入宅 开市 安葬|祭祀 祈福 斋醮 酬神', '求嗣 嫁娶 移徙 入宅 开市 交易 修造 安葬 祈福 作灶 祭祀|造桥 乘船', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床|赴任 出行 修造', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 赴任|上梁 盖屋 入殓', '祭祀 祈福 酬神 出行 求财 见贵 订婚 嫁娶 修造 安葬 赴任|', '订婚 嫁娶 出行 求财 开市 交易 安床 赴任 见贵|祈福 求嗣 乘船', '祈福 求嗣 出行 求财 嫁娶 赴任 见贵|开光 修造 安葬'),
    ('|赴任 词讼 修造 动土', '|诸事不宜', '|祭祀 祈福 斋醮 开光 赴任 出行', '求嗣 订婚 嫁娶 求财 开市 交易 安床|祭祀 祈福 斋醮 开光 赴任 出行', '祈福 求嗣 订婚 嫁娶 修造 入宅 开市 交易 安葬|赴任 出行', '修造 盖屋 移徙 安床 入宅 开市 开仓 求嗣 嫁娶 赴任 出行 见贵 求财|', '求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 赴任|上梁 盖屋 入殓 祭祀 祈福 斋醮 酬神', '见贵 求财 嫁娶 进人口 移徙 安葬|赴任 出行 修造 动土', '赴任 见贵 出行 求财 嫁娶 进人口 移徙 安葬 订婚 作灶 祭祀|祈福 求嗣', '祭祀 祈福 酬神 出行 求财 见贵 订婚 嫁娶 修造 安葬 求嗣|', '祈福 订婚 嫁娶 安床 移徙 入宅 安葬|赴任 出行 修造 动土', '赴任 出行 求财 见贵 祭祀 祈福 酬神 修造 盖屋 移徙 作灶 安床 入宅 开市|'),
    ('订婚 嫁娶 安床 移徙 入宅 修造 安葬 见贵 求财|祭祀 祈福 斋醮 开光 赴任 出行', '修造 盖屋 移徙 作灶 安床 入宅 开市 酬神 求财 见贵 订婚 嫁娶|祭祀 祈福 斋醮 开光 赴任 出行', '|诸事不宜', '入宅 修造 安葬 祈福 求嗣 订婚 嫁娶 赴任 出行 求财|', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|上梁 盖屋 入殓', '祈福 斋醮 订婚 嫁娶 移徙 开市|赴任 出行 开光 修造 安葬', '修造 安葬 嫁娶 移徙 入宅 开市 交易|祈福 求嗣', '求嗣 出行 求财 嫁娶 安葬 修造 盖屋 移徙 安床 入宅 开市 开仓|祭祀 祈福 斋醮 酬神', '祭祀 祈福 酬神 订婚 嫁娶 求财 入宅 安葬|赴任 修造 移徙 出行 词讼', '|祭祀 祈福 斋醮 酬神 赴任 出行 修造 动土', '作灶 酬神 修造|祭祀 祈福 斋醮 开光 赴任 出行', '嫁娶 修造 造庙 作灶 入宅 安葬|赴任 出行 祭祀 祈福 斋醮 开光'),
    ('祭祀 祈福 出行 订婚 嫁娶 入宅 修造 盖屋 安葬 作灶|', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床 祭祀|赴任 出行', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 赴任 见贵|修造 动土', '|诸事不宜', '订婚 嫁娶 出行 求财 开市 交易 安床|赴任 词讼 祈福 求嗣 乘船', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|开光 修造 安葬', '祈福 订婚 嫁娶 开市 安葬 赴任 出行 求财 见贵|修造 动土', '祭祀 祈福 酬神 订婚 嫁娶 出行 求财 入宅 安葬|', '出行 求财 见贵 订婚 嫁娶 修造 安葬|祭祀 祈福 斋醮 酬神', '求嗣 嫁娶 移徙 入宅 开市 交易 修造 安葬|祭祀 祈福 斋醮 酬神', '见贵 求财 嫁娶 进人口 移徙 安葬|赴任 出行', '见贵 求财 嫁娶 进人口 移徙 安葬|赴任 出行'),
    ('求嗣 嫁娶 移徙 入宅 开市 交易 安葬 祈福 订婚|造船 乘船 修造 动土', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 祭祀|', '|祭祀 祈福 斋醮 开光 赴任 出行', '求嗣 求财 嫁娶 安葬 修造 盖屋 移徙 安床 入宅 开市 开仓|祭祀 祈福 斋醮 开光 赴任 出行', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床 祭祀|赴任 修造 移徙 出行 词讼', '求嗣 求财 嫁娶 安葬|祭祀 祈福 斋醮 酬神 赴任 出行 修造 动土', '|诸事不宜', '修造 入宅 安葬 求财 见贵 嫁娶 进人口 移徙|赴任 出行', '订婚 嫁娶 出行 求财 开市 交易 安床|祈福 求嗣', '修造 盖屋 移徙 作灶 安床 入宅 开市 祈福 求嗣 订婚 嫁娶 赴任 出行 求财|', '见贵 求财 出行 嫁娶 进人口 移徙 安葬|修造 动土 赴任 词讼', '赴任 出行 求财 见贵 订婚 嫁娶 入宅 开市 安葬|祭祀 祈福 斋醮 酬神'),
    ('赴任 出行 求财 见贵 订婚 嫁娶 入宅 开市 安葬 求嗣|祭祀 祈福 斋醮 酬神', '|祭祀 祈福 斋醮 开光 赴任 出行', '订婚 嫁娶 开市 安葬|祭祀 祈福 斋醮 酬神', '祭祀 祈福 酬神 订婚 嫁娶 出行 求财 入宅 安葬 求嗣|', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|上梁 盖屋 入殓', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 祭祀 盖屋 移徙|开光 修造 安葬', '求财 嫁娶 开市 安葬 订婚|赴任 修造 移徙 出行 词讼 祈福 求嗣', '|诸事不宜', '作灶 祭祀 祈福 斋醮 酬神 赴任 出行 求财 见贵 嫁娶 进人口 移徙 安葬|修造 动土', '祭祀 祈福 订婚 嫁娶 入宅 盖屋 安葬|赴任 出行 修造', '订婚 嫁娶 安床 移徙 入宅 修造 安葬|赴任 出行 祭祀 祈福 斋醮 开光', '修造 盖屋 移徙 作灶 安床 入宅 开市 见贵 求财 嫁娶|祭祀 祈福 斋醮 开光 赴任 出行'),
    ('祈福 订婚 嫁娶 安床 移徙 入宅 修造 安葬|赴任 出行 求财', '修造 盖屋 移徙 作灶 安床 入宅 开市 出行 求财 见贵 订婚 嫁娶 赴任|祭祀 祈福 斋醮 酬神', '祭祀 祈福 酬神 订婚 嫁娶 出行 求财 入宅 安葬 赴任|上梁 盖屋 入殓', '求嗣 嫁娶 移徙 入宅 开市 交易 修造 安葬 赴任 出行 求财|', '订婚 嫁娶 开市 安葬 赴任 见贵 求财 出行|祈福 求嗣 乘船', '祈福 斋醮 订婚 嫁娶 移徙 开市 见贵|赴任 出行 开光 修造 安葬', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床|赴任 出行 修造 动土', '祈福 求嗣 出行 求财 嫁娶 安葬 修造 盖屋 移徙 安床 入宅 开市 开仓 祭祀|', '|诸事不宜', '求财 见贵 酬神|赴任 出行 修造 动土 祭祀 祈福 斋醮 开光', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 作灶 祭祀 赴任|', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床|赴任 出行 修造'),
    ('作灶 祭祀 祈福 斋醮 酬神 修造|上梁 盖屋 入殓 赴任 出行', '祭祀 祈福 酬神 订婚 嫁娶 求财 入宅 安葬|赴任 出行 修造', '订婚 嫁娶 安床 移徙 入宅 修造 安葬|祭祀 祈福 斋醮 酬神 乘船', '赴任 出行 求财 见贵 订婚 嫁娶 入宅 开市 安葬 祈福 求嗣 修造 盖屋 移徙|', '祭祀 祈福 求嗣 斋醮 订婚 嫁娶 安葬|赴任 出行 修造 动土', '祈福 嫁娶 修造 盖屋 造庙 作灶 入宅 安葬 见贵 求财|赴任 出行', '求嗣 嫁娶 移徙 入宅 开市 交易 修造 安葬 订婚|祭祀 祈福 斋醮 开光 赴任 出行', '求嗣 订婚 嫁娶 求财 开市 交易 安床|祭祀 祈福 斋醮 开光 赴任 出行', '出行 求财 见贵 订婚 嫁娶|祭祀 祈福 斋醮 酬神 开光 修造 安葬', '|诸事不宜', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床|上梁 盖屋 入殓 赴任 修造 移徙 出行 词讼', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床 入宅 安葬 祭祀|赴任 出行 修造 动土'),
    ('订婚 嫁娶 求财 开市 交易 安床 祭祀|赴任 修造 移徙 出行 词讼 祈福 求嗣', '安葬 求财 见贵 嫁娶 进人口 移徙|赴任 出行 修造 动土', '求嗣 嫁娶 移徙 入宅 开市 交易 安葬 作灶 祭祀 祈福 斋醮 酬神 赴任 出行|修造 动土', '|祭祀 祈福 斋醮 酬神 赴任 出行', '订婚 嫁娶 安床 移徙 入宅 修造 安葬|造桥 乘船 赴任 出行 祭祀 祈福 斋醮 开光', '修造 盖屋 移徙 作灶 安床 入宅 开市 求财 见贵 订婚 嫁娶|祭祀 祈福 斋醮 开光 赴任 出行', '求嗣 嫁娶 移徙 入宅 开市 交易 修造 安葬 祈福 出行 求财|赴任 词讼', '赴任 见贵 求财 出行 嫁娶 进人口 移徙 安葬|修造 动土', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|上梁 盖屋 入殓', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 祭祀 修造 入宅 安葬|', '|诸事不宜', '盖屋 移徙 安床 入宅 开市 开仓 祭祀 祈福 酬神 出行 求财 见贵 订婚 嫁娶|开光 修造 安葬'),
    ('嫁娶 移徙 开市 安葬|赴任 出行 求财 修造 动土', '祈福 求嗣 订婚 嫁娶 开市 交易 安床 修造 盖屋 移徙|赴任 出行 求财', '求嗣 订婚 嫁娶 修造 入宅 开市 交易 安葬|祭祀 祈福 斋醮 开光 赴任 出行', '求嗣 订婚 嫁娶 修造 入宅 开市 交易 安葬|赴任 出行 祭祀 祈福 斋醮 开光', '作灶 修造|赴任 出行 祭祀 祈福 斋醮 酬神', '赴任 见贵 出行 求财 嫁娶 进人口 移徙 安葬 求嗣|造船 乘船 祭祀 祈福 斋醮 酬神', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 赴任|上梁 盖屋 入殓', '修造 入宅 安葬 祭祀 祈福 求嗣 斋醮 订婚 嫁娶 出行|', '订婚 嫁娶 出行 求财 开市 交易 安床|赴任 词讼 祈福 求嗣 乘船', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 祭祀|', '祈福 斋醮 出行 订婚 嫁娶 修造 移徙 开市 安葬 祭祀|', '|诸事不宜'),
    ('|诸事不宜', '酬神 求财 见贵 订婚 嫁娶 修造 安葬|赴任 出行 祭祀 祈福 斋醮 开光', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床|赴任 出行', '赴任 出行 求财 见贵 祭祀 祈福 酬神 修造 盖屋 移徙 安床 入宅 开市 开仓|', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床 祭祀|上梁 盖屋 入殓 赴任 修造 移徙 出行 词讼', '订婚 嫁娶 移徙 开市 入宅|祭祀 祈福 斋醮 酬神 开光 修造 安葬', '作灶 祭祀 斋醮 酬神 修造 嫁娶 移徙 入宅 开市 交易|祈福 求嗣 造桥 乘船', '祈福 求嗣 求财 嫁娶 安葬|赴任 出行 修造', '祭祀 祈福 酬神 订婚 嫁娶 出行 求财 入宅 安葬 赴任|修造 动土', '修造 盖屋 移徙 作灶 安床 入宅 开市 求嗣 订婚 嫁娶 赴任 出行 求财|祭祀 祈福 斋醮 酬神', '订婚 嫁娶 入宅 修造 安葬 见贵 求财|祭祀 祈福 斋醮 开光 赴任 出行', '嫁娶 修造 造庙 作灶 入宅 安葬 见贵 求财|祭祀 祈福 斋醮 开光 赴任 出行'),
    ('祈福 求嗣 出行 求财 嫁娶 安葬|赴任 词讼', '|诸事不宜', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 赴任|上梁 盖屋 入殓', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 修造 入宅 安葬 祭祀|', '订婚 嫁娶 修造 入宅 开市 交易 安葬|祈福 求嗣', '求嗣 嫁娶 移徙 入宅 开市 交易 赴任 出行 见贵 求财|开光 修造 安葬', '求嗣 出行 求财 嫁娶 安葬|祭祀 祈福 斋醮 酬神 修造 动土', '祭祀 祈福 酬神 订婚 嫁娶 求财 入宅 安葬 见贵|造船 乘船 赴任 出行 修造 动土', '作灶 酬神 修造 见贵 求财 嫁娶 进人口 移徙 安葬|祭祀 祈福 斋醮 开光 赴任 出行', '求嗣 嫁娶 移徙 入宅 开市 交易 安葬|赴任 出行 修造 祭祀 祈福 斋醮 酬神', '祈福 订婚 嫁娶 安床 移徙 入宅 修造 安葬 祭祀|赴任 出行', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床 修造 盖屋 移徙 作灶|赴任 出行'),
    ('祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床|上梁 盖屋 入殓 赴任 出行', '祭祀 祈福 酬神 见贵 订婚 嫁娶 修造 安葬|赴任 出行 求财', '|诸事不宜', '求嗣 订婚 嫁娶 修造 入宅 开市 交易 安葬|祭祀 祈福 斋醮 酬神', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床 赴任|修造 动土', '祭祀 祈福 斋醮 酬神 修造 作灶 求嗣 嫁娶 移徙 入宅 开市 交易|赴任 出行', '求财 见贵 酬神|祭祀 祈福 斋醮 开光 赴任 出行', '修造 盖屋 移徙 安床 入宅 开市 开仓 出行 求财 见贵 订婚 嫁娶|祭祀 祈福 斋醮 酬神', '求财 见贵 订婚 嫁娶 入宅 开市 安葬|赴任 修造 移徙 出行 词讼 开光', '求嗣 嫁娶 移徙 入宅 开市 交易 安葬 祈福 祭祀|赴任 出行 修造 动土', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床 作灶 祭祀|上梁 盖屋 入殓 赴任 出行', '修造 入宅 安葬|赴任 出行'),
    ('嫁娶 移徙 入宅 开市 交易 修造 安葬 作灶 祭祀 斋醮 酬神|祈福 求嗣 赴任 出行 求财', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床 祭祀|赴任 出行 修造', '祈福 订婚 嫁娶 安床 移徙 入宅 修造 安葬 祭祀 赴任 见贵 出行 求财|', '|诸事不宜', '求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|赴任 词讼 祭祀 祈福 斋醮 开光', '求嗣 订婚 嫁娶 求财 开市 交易 安床|祭祀 祈福 斋醮 开光 赴任 出行', '祭祀 祈福 酬神 出行 求财 见贵 订婚 嫁娶 修造 安葬|', '祭祀 祈福 斋醮 酬神 修造 作灶|', '求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|上梁 盖屋 入殓 祭祀 祈福 斋醮 酬神', '祈福 求嗣 出行 求财 嫁娶 安葬 修造 入宅|造桥 乘船', '见贵 求财 嫁娶 进人口 移徙 安葬|赴任 出行 祈福 求嗣', '见贵 求财 嫁娶 入宅 移徙 安葬|赴任 出行 修造 动土 开光'),
    ('求嗣 嫁娶 移徙 入宅 开市 交易 安葬|赴任 出行 求财 修造 动土', '祈福 嫁娶 修造 造庙 作灶 入宅 安葬|赴任 出行 求财', '求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|祭祀 祈福 斋醮 酬神', '求嗣 订婚 嫁娶 求财 开市 交易 安床|赴任 出行 修造 祭祀 祈福 斋醮 开光', '|诸事不宜', '出行 求财 见贵 订婚 嫁娶 修造 安葬|祭祀 祈福 斋醮 酬神', '祈福 求嗣 订婚 嫁娶 出行 求财 开市 交易 安床|上梁 盖屋 入殓 赴任 词讼', '见贵 求财 嫁娶 进人口 移徙 安葬|赴任 出行', '订婚 嫁娶 开市 安葬 见贵 求财|祈福 求嗣 赴任 出行', '修造 作灶|祭祀 祈福 斋醮 酬神', '祭祀 祈福 求嗣 斋醮 订婚 嫁娶 出行 安葬|造船 乘船', '修造 盖屋 移徙 安床 入宅 开市 开仓 赴任 出行 求财 见贵 订婚 嫁娶|'),
    ('求财 见贵 订婚 嫁娶 入宅 开市 安葬 求嗣|祭祀 祈福 斋醮 开光 赴任 出行', '修造 盖屋 移徙 安床 入宅 开市 开仓 见贵 订婚 嫁娶 进人口|赴任 出行 求财 祭祀 祈福 斋醮 开光', '求嗣 订婚 嫁娶 求财 开市 交易 安床|赴任 修造 移徙 出行 词讼 祭祀 祈福 斋醮 酬神', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床 祭祀|赴任 出行 修造 动土', '作灶 祭祀 祈福 斋醮 酬神 修造|上梁 盖屋 入殓', '|诸事不宜', '订婚 嫁娶 安床 移徙 入宅 修造 安葬|祈福 求嗣 乘船', '祈福 求嗣 订婚 嫁娶 求财 开市 交易 安床 修造 盖屋 移徙 作灶 祭祀|赴任 出行', '求财 见贵 嫁娶 进人口 移徙 安葬|赴任 出行 修造 动土', '赴任 出行 见贵 求财 嫁娶 入宅 移徙 安葬|', '订婚 嫁娶 开市 安葬|祭祀 祈福 斋醮 酬神', '求嗣 嫁娶 移徙 入宅 开市 交易 修造 安葬 订婚|造桥 乘船 祭祀 祈福 斋醮 开光 赴任 出行'),
)
SPIRITS = (
    ('天恩 母仓 时阳 生气 益后 青龙|灾煞 天火 四忌 八龙 复日', '天恩 续世 明堂|月煞 月虚 血支 天贼 五虚 土符 归忌 血忌', '月德 天恩 月恩 四相 王日 天仓 不将 要安 五合 鸣吠对|月建 小时 土府 往亡 天刑', '天德 天恩 四相 官日 吉期 不将 玉宇 五合 鸣吠对|大时 大败 咸池 朱雀', '天恩 守日 天巫 福德 六仪 金堂 金匮|厌对 招摇 九空 九坎 九焦', '相日 宝光|天罡 死神 月刑 月害 游祸 五虚 重日', '时德 民日 三合 临日 天马 时阴 鸣吠|死气 地囊 白虎', '月德合 敬安 玉堂 普护 解神|小耗', '天德合 月空 驿马 天后 普护 解神 除神 鸣吠|月破 大耗 五离 天牢', '阴德 福生 除神 鸣吠|天吏 致死 五虚 五离 元武', '阳德 三合 天喜 天医 司命|月厌 地火 四击 大煞 复日 大会', '母仓 天愿 六合 五富 圣心|河魁 劫煞 四穷 八龙 重日 勾陈', '月德 母仓 月恩 四相 时阳 生气 不将 益后 青龙 鸣吠对|灾煞 天火 触水龙', '天德 四相 不将 续世 明堂|月煞 月虚 血支 天贼 五虚 八风 土符 归忌 血忌', '天赦 王日 天仓 要安 五合|月建 小时 土府 往亡 天刑', '天恩 官日 吉期 不将 玉宇 五合|大时 大败 咸池 朱雀', '天恩 守日 天巫 福德 六仪 金堂 金匮|厌对 招摇 九空 九坎 九焦', '月德合 天恩 相日 宝光|天罡 死神 月刑 月害 游祸 五虚 重日', '天德合 月空 天恩 时德 民日 三合 临日 天马 时阴 鸣吠|死气 白虎', '天恩 敬安 玉堂|小耗 触水龙', '驿马 天后 普护 解神 除神 鸣吠|月破 大耗 复日 五离 天牢', '天恩 阴德 福生 除神 鸣吠|天吏 致死 五虚 五离 元武', '月德 天恩 四相 阳德 三合 天喜 天医 司命|月厌 地火 四击 大煞', '天德 母仓 四相 六合 五富 不将 圣心|河魁 劫煞 重日 勾陈', '母仓 时阳 生气 益后 青龙|灾煞 天火', '不将 续世 明堂|月煞 月虚 血支 天贼 五虚 土符 归忌 血忌', '王日 天仓 不将 要安 五合 鸣吠对|月建 小时 土府 往亡 天刑', '月德合 官日 吉期 不将 玉宇 五合 鸣吠对|大时 大败 咸池', '天德合 月空 守日 天巫 福德 六仪 金堂 金匮|厌对 招摇 九空 九坎 九焦', '相日 宝光|天罡 死神 月刑 月害 游祸 五虚 重日', '时德 民日 三合 临日 天马 时阴 鸣吠|死气 复日 白虎', '敬安 玉堂|小耗 五墓', '月德 月恩 四相 驿马 天后 普护 解神 除神 鸣吠|月破 大耗 五离', '天德 四相 阴德 福生 除神 鸣吠|天吏 致死 五虚 五离 元武', '阳德 三合 天喜 天医 司命|月厌 地火 四击 大煞', '母仓 六合 五富 不将 圣心|河魁 劫煞 重日 勾陈', '母仓 时阳 生气 不将 益后 青龙 鸣吠对|灾煞 天火 地囊', '月德合 不将 续世 明堂|月煞 月虚 血支 天贼 五虚 土符 归忌 血忌', '天德合 月空 王日 天仓 要安 五合 鸣吠对|月建 小时 土府 往亡 天刑', '官日 吉期 玉宇 五合 鸣吠对|大时 大败 咸池 朱雀', '守日 天巫 福德 六仪 金堂 金匮|厌对 招摇 九空 九坎 九焦 复日', '相日 宝光|天罡 死神 月刑 月害 游祸 五虚 重日', '月德 月恩 四相 时德 民日 三合 临日 天马 时阴 鸣吠|死气 白虎', '天德 四相 敬安 玉堂|小耗 八专', '驿马 天后 普护 解神 除神|月破 大耗 五离 天牢', '天恩 阴德 福生 除神 鸣吠|天吏 致死 五虚 五离 元武', '天恩 阳德 三合 天喜 天医 司命|月厌 地火 四击 大煞 阴错', '月德合 天恩 母仓 六合 五富 不将 圣心|河魁 劫煞 重日 勾陈', '天德合 月空 天恩 母仓 时阳 生气 益后 青龙 鸣吠对|灾煞 天火 四耗', '天恩 续世 明堂|月煞 月虚 血支 天贼 五虚 土符 归忌 血忌 八专 触水龙', '王日 天仓 要安 五合 鸣吠对|月建 小时 土府 往亡 复日 八专 天刑 阳错', '官日 吉期 玉宇 五合 鸣吠对|大时 大败 咸池 朱雀', '月德 月恩 四相 守日 天巫 福德 六仪 金堂 金匮|厌对 招摇 九空 九坎 九焦', '天德 四相 相日 宝光|天罡 死神 月刑 月害 游祸 五虚 八风 重日', '时德 民日 三合 临日 天马 时阴|死气 白虎', '敬安 玉堂|小耗 八专', '驿马 天后 普护 解神 除神 鸣吠|月破 大耗 四废 五离 八专 天牢', '月德合 阴德 福生 除神 鸣吠|天吏 致死 四废 五虚 五离 元武 三阴', '天德合 月空 阳德 三合 天喜 天医 司命|月厌 地火 四击 大煞', '母仓 六合 五富 圣心|河魁 劫煞 重日 勾陈'),
    ('月德 天恩 母仓 阳德 司命|天罡 月刑 大时 大败 咸池 天贼 四忌 八龙', '天恩 时阳 生气 天仓 不将 敬安|五虚 九空 九坎 九焦 复日 勾陈', '天恩 四相 王日 五富 不将 普护 五合 青龙 鸣吠对|游祸 血支 归忌', '天恩 月恩 四相 官日 六仪 福生 五合 明堂 鸣吠对|月建 小时 土府 厌对 招摇', '天恩 守日 吉期|月害 天刑', '月德合 相日 驿马 天后 天巫 福德 圣心|五虚 土符 大煞 往亡 重日 朱雀', '月空 时德 民日 益后 金匮 鸣吠对|河魁 死神 天吏 致死', '阴德 三合 时阴 续世 宝光|死气 血忌', '天马 要安 解神 鸣吠|劫煞 小耗 五离 白虎', '玉宇 除神 玉堂 鸣吠|月破 大耗 灾煞 天火 月厌 地火 五虚 五离', '月德 天愿 六合 金堂|月煞 月虚 四击 天牢', '母仓 三合 临日 天喜 天医 不将|四穷 八龙 复日 重日 元武', '母仓 四相 阳德 不将 司命 鸣吠对|天罡 月刑 大时 大败 咸池 天贼 触水龙', '月恩 四相 时阳 生气 不将 敬安|五虚 八风 九空 九坎 九焦 勾陈', '天赦 王日 五富 普护 五合 青龙|游祸 血支 归忌', '月德合 天恩 官日 六仪 福生 五合 明堂|月建 小时 土府 厌对 招摇 小会', '月空 天恩 守日 吉期|月害 天刑', '天恩 相日 驿马 天后 天巫 福德 圣心|五虚 土符 大煞 往亡 重日 朱雀', '天恩 时德 民日 益后 金匮 鸣吠|河魁 死神 天吏 致死', '天恩 阴德 三合 时阴 续世 宝光|死气 血忌 触水龙', '月德 天马 要安 解神 除神 鸣吠|劫煞 小耗 五离 白虎', '玉宇 除神 玉堂 鸣吠|月破 大耗 灾煞 天火 月厌 地火 五虚 复日 五离 白虎', '四相 六合 不将 金堂|月煞 月虚 四击 天牢', '母仓 月恩 四相 三合 临日 天喜 天医 不将|重日 元武', '母仓 阳德 司命|天罡 月刑 大时 大败 咸池 天贼', '月德合 时阳 生气 天仓 不将 敬安|五虚 九空 九坎 九焦 勾陈', '月空 王日 五富 不将 普护 五合 青龙 鸣吠对|游祸 血支 归忌', '官日 六仪 福生 五合 明堂 鸣吠|月建 小时 土府 厌对 招摇', '守日 吉期|月害 天刑', '相日 驿马 天后 天巫 福德 圣心|五虚 土符 大煞 往亡 重日 朱雀', '月德 时德 民日 益后 金匮 鸣吠|河魁 死神 天吏 致死', '阴德 三合 时阴 续世 宝光|死气 五墓 地囊 血忌 复日', '四相 天马 要安 解神 除神 鸣吠|劫煞 小耗 五离 白虎', '月恩 四相 玉宇 除神 玉堂 鸣吠|月破 大耗 灾煞 天火 月厌 地火 五虚 五离', '六合 金堂|月煞 月虚 四击 天牢', '月德合 母仓 三合 临日 天喜 天医 不将|重日 元武', '月空 母仓 阳德 不将 司命 鸣吠对|天罡 月刑 大时 大败 咸池 天贼', '时阳 生气 天仓 敬安|五虚 九空 九坎 九焦 勾陈', '王日 五富 普护 五合 青龙 鸣吠对|游祸 血支 归忌', '官日 六仪 福生 五合 明堂 鸣吠对|月建 小时 土府 厌对 招摇', '月德 守日 吉期|月害 天刑', '相日 驿马 天后 天巫 福德 圣心|五虚 土符 大煞 往亡 复日 重日 朱雀', '四相 时德 民日 益后 金匮 鸣吠|河魁 死神 天吏 致死', '月恩 四相 阴德 三合 时阴 续世 宝光|死气 血忌 八专', '天马 要安 解神 除神|劫煞 小耗 五离 白虎', '月德合 天恩 玉宇 除神 玉堂 鸣吠|月破 大耗 灾煞 天火 月厌 地火 五虚 五离 阴道冲阳', '月空 天恩 六合 不将 金堂|月煞 月虚 四击 天牢', '天恩 母仓 三合 临日 天喜 天医|重日 元武', '天恩 母仓 阳德 司命 鸣吠对|天罡 月刑 大时 大败 咸池 天贼 四耗', '天恩 时阳 生气 天仓 敬安|五虚 九空 九坎 九焦 地囊 八专 触水龙 勾陈', '月德 王日 五富 普护 五合 青龙 鸣吠对|游祸 血支 归忌', '官日 六仪 福生 五合 明堂 鸣吠对|月建 小时 土府 厌对 招摇 复日 阳错', '四相 守日 吉期|月害 天刑', '月恩 四相 相日 驿马 天后 天巫 福德 圣心|五虚 八风 土符 大煞 往亡 重日 朱雀', '时德 民日 益后 金匮|河魁 死神 天吏 致死', '月德合 阴德 三合 时阴 续世 宝光|死气 血忌 八专', '月空 天马 要安 解神 除神 鸣吠|劫煞 小耗 四废 五离 八专 白虎', '玉宇 除神 玉堂 鸣吠|月破 大耗 灾煞 天火 月厌 地火 四废 五虚 五离 阴错', '六合 金堂|月煞 月虚 四击 天牢', '母仓 三合 临日 天喜 天医|重日 元武'),
    ('天恩 母仓 三合 天喜 天医 天仓 不将 圣心|四忌 八龙 地囊 归忌 天牢', '天恩 不将 益后|河魁 五虚 元武', '月空 天恩 四相 阳德 王日 驿马 天后 时阳 生气 六仪 续世 五合 司命 鸣吠对|厌对 招摇 血忌', '天德合 月德合 天恩 四相 官日 要安 五合 鸣吠对|月害 天吏 致死 血支 勾陈', '天恩 守日 玉宇 青龙|月建 小时 土府 月刑 五墓 复日 小会 单阴', '阴德 相日 吉期 五富 金堂 明堂|劫煞 五虚 重日', '月恩 时德 民日 天巫 福德 鸣吠|灾煞 天火 大煞 天刑', '|天罡 死神 月煞 朱雀', '天德 月德 三合 临日 时阴 敬安 除神 金匮 鸣吠|月厌 地火 死气 往亡 五离 孤辰', '六合 普护 除神 宝光 鸣吠|大时 大败 咸池 小耗 五虚 土符 五离', '天马 不将 福生 解神|月破 大耗 四击 九空 九坎 九焦 白虎', '母仓 不将 玉宇|游祸 天贼 四穷 八龙 重日', '月空 母仓 四相 三合 天喜 天医 天仓 不将 圣心 鸣吠对|归忌 触水龙 天牢', '天德合 月德合 四相 不将 益后|河魁 五虚 八风 元武', '天赦 阳德 王日 驿马 天后 时阳 生气 六仪 续世 五合 司命|厌对 招摇 血忌 复日', '天恩 官日 要安 五合|月害 天吏 致死 血支 勾陈', '天恩 月恩 守日 玉宇 青龙|月建 小时 土府 月刑 阴位', '天恩 阴德 相日 吉期 五富 金堂 明堂|劫煞 五虚 重日', '天德 月德 天恩 时德 民日 天巫 福德 鸣吠|灾煞 天火 地囊 大煞 天刑', '天恩|天罡 死神 月煞 月虚 触水龙 朱雀', '三合 临日 时阴 敬安 除神 金匮 鸣吠|月厌 地火 死气 往亡 五离 行狠', '天愿 六合 不将 普护 除神 宝光 鸣吠|大时 大败 咸池 小耗 五虚 土符 五离', '月空 四相 天马 不将 福生 解神|月破 大耗 四击 九空 九坎 九焦 白虎', '天德合 月德合 母仓 四相 不将 玉堂|游祸 天贼 重日', '母仓 三合 天喜 天医 天仓 圣心|归忌 复日 天牢', '不将 益后|河魁 五虚 元武', '月恩 阳德 王日 驿马 天后 时阳 生气 六仪 续世 五合 司命 鸣吠对|厌对 招摇 血忌', '官日 要安 五合 鸣吠对|月害 天吏 致死 血支 勾陈', '天德 月德 守日 玉宇 青龙|月建 小时 土府 月刑', '阴德 相日 吉期 五富 金堂 明堂|劫煞 五虚 重日', '时德 民日 天巫 福德 鸣吠|灾煞 天火 大煞 天刑', '|天罡 死神 月煞 月虚 朱雀', '月空 四相 三合 临日 时阴 敬安 除神 金匮 鸣吠|月厌 地火 死气 往亡 五离 了戾', '天德合 月德合 四相 六合 不将 普护 除神 宝光 鸣吠|大时 大败 咸池 小耗 五虚 土符 五离', '天马 福生 解神|月破 大耗 四击 九空 九坎 九焦 复日 白虎', '母仓 不将 玉堂|游祸 天贼 重日', '母仓 月恩 三合 天喜 天医 天仓 圣心 鸣吠对|归忌 天牢', '益后|河魁 五虚 元武', '阴德 月德 阳德 王日 驿马 天后 时阳 生气 六仪 续世 五合 司命 鸣吠对|厌对 招摇 血忌', '官日 要安 五合 鸣吠对|月害 天吏 致死 血支 勾陈', '守日 玉宇 青龙|月建 小时 土府 月刑 阳错', '阴德 相日 吉期 五富 金堂 明堂|劫煞 五虚 重日', '月空 四相 时德 民日 天巫 福德 鸣吠|灾煞 天火 大煞 天刑', '天德合 月德合 四相|天罡 死神 月煞 月虚 八专 朱雀', '三合 临日 时阴 敬安 除神 金匮|月厌 地火 死气 往亡 复日 五离 孤辰', '天恩 六合 不将 普护 除神 宝光 鸣吠|大时 大败 咸池 小耗 五虚 土符 五离', '天恩 月恩 天马 福生 解神|月破 大耗 四击 九空 九坎 九焦 白虎', '天恩 母仓 玉堂|游祸 天贼 重日', '天德 月德 天恩 母仓 三合 天喜 天医 天仓 圣心 鸣吠对|四耗 归忌 天牢', '天恩 益后|河魁 五虚 八专 触水龙 元武', '阳德 王日 驿马 天后 时阳 生气 六仪 续世 五合 司命 鸣吠对|厌对 招摇 血忌 八专', '官日 要安 五合 鸣吠对|月害 天吏 致死 血支 勾陈', '月空 四相 守日 玉宇 青龙|月建 小时 土府 月刑', '天德合 月德合 四相 阴德 相日 吉期 五富 金堂 明堂|劫煞 五虚 八风 重日', '时德 民日 天巫 福德|灾煞 天火 大煞 复日 天刑', '|天罡 死神 月煞 月虚 八专 朱雀', '月恩 三合 临日 时阴 敬安 除神 金匮 鸣吠|月厌 地火 死气 四废 往亡 五离 八专 孤辰 阴错', '六合 普护 除神 宝光 鸣吠|大时 大败 咸池 小耗 四废 五虚 土符 五离', '天德 月德 天马 福生 解神|月破 大耗 四击 九空 九坎 九焦 白虎', '母仓 玉堂|游祸 天贼 重日'),
    ('月空 天恩 天马 不将|天吏 致死 五虚 白虎', '月德合 天恩 三合 临日 天喜 天医 六仪 玉堂|厌对 招摇 四击 归忌', '天德合 天恩 母仓 敬安 五合 鸣吠对|天罡 劫煞 月害 土符 复日 天牢', '天恩 母仓 阴德 时阳 生气 普护 五合 鸣吠对|灾煞 天火 元武', '天恩 四相 时德 阳德 福生 司命|月煞 月虚 血支 五虚 绝阴', '月恩 四相 王日|月建 小时 土府 重日 勾陈 小会 纯阳 阳错', '月德 官日 吉期 圣心 青龙 鸣吠|大时 大败 咸池', '天德 守日 天巫 福德 益后 明堂|月厌 地火 九空 九坎 九焦 大煞 孤辰', '相日 六合 五富 续世 除神 鸣吠|河魁 死神 月刑 游祸 五虚 血忌 五离 天刑', '民日 三合 时阴 要安 除神 鸣吠|死气 五离 朱雀', '月空 不将 玉宇 解神 金匮|小耗 天贼', '月德合 驿马 天后 天仓 不将 金堂 宝光|月破 大耗 往亡 重日', '天德合 天马 不将 鸣吠对|天吏 致死 四忌 七鸟 五虚 复日 触水龙 白虎', '三合 临日 天喜 天医 六仪 玉堂|厌对 招摇 四击 归忌', '母仓 四相 敬安 五合|天罡 劫煞 月害 土符 天牢', '天恩 母仓 月恩 四相 阴德 时阳 生气 普护 五合|灾煞 天火 地囊 元武', '月德 天恩 时德 阴德 福生 司命|月煞 月虚 血支 五虚', '天德 天恩 王日|月建 小时 土府 重日 勾陈', '天恩 官日 吉期 圣心 青龙 鸣吠|大时 大败 咸池', '天恩 守日 天巫 福德 益后 明堂|月厌 地火 九空 九坎 九焦 大煞 触水龙 孤辰', '月空 相日 六合 五富 不将 续世 除神 鸣吠|河魁 死神 月刑 游祸 五虚 八风 血忌 五离 天刑', '月德合 民日 三合 时阴 不将 要安 除神 鸣吠|死气 五离 朱雀', '天德合 不将 玉宇 解神 金匮|小耗 天贼 五墓 复日', '驿马 天后 天仓 不将 金堂 宝光|月破 大耗 四穷 七鸟 往亡 重日', '四相 天马 不将|天吏 致死 五虚 白虎', '月恩 四相 三合 临日 天喜 天医 六仪 玉堂|厌对 招摇 四击 归忌', '月德 母仓 敬安 五合 鸣吠对|天罡 劫煞 月害 土符 天牢', '天德 母仓 阴德 时阴 生气 普护 五合 鸣吠对|灾煞 天火 元武', '时德 阳德 福生 司命|月煞 月虚 血支 五虚', '王日|月建 小时 土府 重日 勾陈', '月空 天赦 官日 吉期 圣心 青龙 鸣吠|大时 大败 咸池', '月德合 守日 天巫 福德 益后 明堂|月厌 地火 九空 九坎 九焦 大煞 行狠', '天德合 天愿 相日 六合 五富 不将 续世 除神 鸣吠|河魁 死神 月刑 游祸 五虚 血忌 复日 五离 天刑', '民日 三合 时阴 不将 要安 除神 鸣吠|死气 五离 朱雀', '四相 不将 玉宇 解神 金匮|小耗 天贼', '月恩 四相 驿马 天后 天仓 金堂 宝光|月破 大耗 往亡 重日', '月德 天马 鸣吠对|天吏 致死 五虚 白虎', '天德 三合 临日 天喜 天医 六仪 玉堂|厌对 招摇 四击 归忌', '母仓 敬安 五合 鸣吠对|天罡 劫煞 月害 土符 天牢', '母仓 阴德 时阳 生气 普护 五合 鸣吠对|灾煞 天火 元武', '月空 时德 阳德 福生 司命|月煞 月虚 血支 五虚 八风', '月德合 王日|月建 小时 土府 重日 勾陈', '天德合 官日 吉期 圣心 青龙 鸣吠|大时 大败 咸池 复日 岁薄', '守日 天巫 福德 益后 明堂|月厌 地火 九空 九坎 九焦 大煞 八专 了戾 阴错', '四相 相日 六合 五富 不将 续世 除神|河魁 死神 月刑 游祸 五虚 血忌 五离 天刑', '天恩 月恩 四相 民日 三合 时阴 要安 除神 鸣吠|死气 地囊 五离 朱雀', '月德 天恩 玉宇 解神 金匮|小耗 天贼', '天德 天恩 驿马 天后 天仓 金堂 宝光|月破 大耗 往亡 重日', '天恩 天马 鸣吠对|天吏 致死 四废 五虚 白虎', '天恩 三合 临日 天喜 天医 六仪 玉堂|厌对 招摇 四击 归忌 八专 触水龙', '月空 母仓 敬安 五合 鸣吠对|天罡 劫煞 月害 土符 八专 天牢', '月德合 母仓 阴德 时阴 生气 普护 五合 鸣吠对|灾煞 天火 四耗 元武', '天德合 时德 阳德 福生 司命|月煞 月虚 血支 五虚 复日', '王日|月建 小时 土府 重日 勾陈 阳错', '四相 官日 吉期 圣心 青龙|大时 大败 咸池 岁薄', '月恩 四相 守日 天巫 福德 益后 明堂|月厌 地火 九空 九坎 九焦 大煞 八专 孤辰 阴错', '月德 相日 六合 五富 续世 除神 鸣吠|河魁 死神 月刑 游祸 五虚 血忌 五离 八专 天刑', '天德 民日 三合 时阴 要安 除神 鸣吠|死气 五离 朱雀', '玉宇 解神 金匮|小耗 天贼', '驿马 天后 天仓 金堂 宝光|月破 大耗 四废 往亡 重日 阴阳交破'),
    ('天恩 六仪 解神 金匮|月破 大耗 灾煞 天火 厌对 招摇 五虚', '天恩 阴德 圣心 宝光|月煞 月虚 月害 四击', '月德 天恩 母仓 三合 天马 天喜 天医 益后 五合 鸣吠对|大煞 归忌 白虎', '天恩 母仓 续世 五合 玉堂 鸣吠对|河魁 大时 大败 咸池 九坎 九焦 血忌 往亡 复日', '天恩 月恩 四相 时德 时阳 生气 要安|五虚 九空 天牢', '四相 王日 玉宇|游祸 血支 重日 元武', '阳德 官日 金堂 司命 鸣吠|月建 小时 土府 月刑 月厌 地火 土符', '月德合 守日 吉期 六合|勾陈', '月空 相日 驿马 天后 天巫 福德 除神 青龙 鸣吠|五虚 五离', '民日 不将 敬安 除神 明堂 鸣吠|天罡 死神 天吏 致死 天贼 五离', '三合 临日 时阴 天仓 不将 普护|死气 天刑', '五富 不将 福生|劫煞 小耗 重日 朱雀', '月德 六仪 解神 金匮 鸣吠对|月破 大耗 灾煞 天火 厌对 招摇 四忌 七鸟 五虚 触水龙', '阴德 圣心 宝光|月煞 月虚 月害 复日', '母仓 月恩 四相 三合 天马 天喜 天医 益后 五合|大煞 归忌 白虎', '天恩 母仓 四相 续世 五合 玉堂|河魁 大时 大败 咸池 九坎 九焦 血忌 往亡', '天恩 时德 时阳 生气 要安|五虚 九空 天牢', '月德合 天恩 王日 玉宇|游祸 血支 重日 元武', '月空 天恩 阳德 官日 金堂 司命 鸣吠|月建 小时 土府 月刑 月厌 地火 土符', '天恩 守日 吉期 六合 不将|触水龙 勾陈', '相日 驿马 天后 天巫 福德 不将 除神 青龙 鸣吠|五虚 八风 五离', '民日 不将 敬安 除神 明堂 鸣吠|天罡 死神 天吏 致死 天贼 五离', '月德 三合 临日 时阴 天仓 不将 普护|死气 五墓 天刑', '五富 福生|劫煞 小耗 四穷 七鸟 复日 重日 朱雀', '月恩 四相 六仪 解神 金匮|月破 大耗 灾煞 天火 厌对 招摇 五虚', '四相 阴德 圣心 宝光|月煞 月虚 月害 四击', '母仓 三合 天马 天喜 天医 益后 五合 鸣吠对|大煞 归忌 白虎', '月德合 母仓 续世 五合 玉堂 鸣吠对|河魁 大时 大败 咸池 九坎 九焦 血忌 往亡', '月空 时德 时阳 生气 要安|五虚 九空 天牢', '王日 玉宇|游祸 血支 重日 元武', '天赦 阳德 官日 金堂 司命 鸣吠|月建 小时 土府 月刑 月厌 地火 土符', '守日 吉期 六合 不将|勾陈', '月德 相日 驿马 天后 天巫 福德 不将 除神 青龙 鸣吠|五虚 五离', '民日 敬安 除神 明堂 鸣吠|天罡 死神 天吏 致死 天贼 复日 五离', '月恩 四相 三合 临日 时阴 天仓 不将|死气 天刑', '四相 五富 福生|劫煞 小耗 重日 朱雀', '六仪 解神 金匮 鸣吠对|月破 大耗 灾煞 天火 厌对 招摇 五虚', '月德合 阴德 圣心 宝光|月煞 月虚 月害 四击', '月空 母仓 三合 天马 天喜 天医 益后 五合 鸣吠对|大煞 归忌 白虎', '母仓 续世 五合 玉堂 鸣吠对|河魁 大时 大败 咸池 九坎 九焦 血忌 往亡', '时德 时阳 生气 要安|五虚 八风 九空 地囊 天牢', '王日 玉宇|游祸 血支 重日 元武', '月德 阳德 官日 金堂 司命 鸣吠|月建 小时 土府 月刑 月厌 地火 土符 大会 阴阳俱错', '天愿 守日 吉期 六合|复日 八专 勾陈', '月恩 四相 相日 驿马 天后 天巫 福德 不将 除神 青龙|五虚 五离', '天恩 四相 民日 敬安 除神 明堂 鸣吠|天罡 死神 天吏 致死 天贼 五离', '天恩 三合 临日 时阴 天仓 普护|死气 天刑', '月德合 天恩 五富 福生|劫煞 小耗 重日 朱雀', '月空 天恩 六仪 解神 金匮 鸣吠对|月破 大耗 灾煞 天火 厌对 招摇 四废 五虚 阴阳击冲', '天恩 阴德 圣心 宝光|月煞 月虚 月害 四击 八专 触水龙', '母仓 三合 天马 天喜 天医 益后 五合 鸣吠对|大煞 归忌 八专 白虎', '母仓 续世 五合 玉堂 鸣吠对|河魁 大时 大败 咸池 四耗 九坎 九焦 血忌 往亡', '月德 时德 时阳 生气 要安|五虚 九空 天牢', '王日 玉宇|游祸 血支 复日 重日 元武', '月德 四相 阳德 官日 金堂 司命|月建 小时 土府 月刑 月厌 地火 土符 小会', '四相 守日 吉期 六合|八专 勾陈', '相日 驿马 天后 天巫 福德 除神 青龙 鸣吠|五虚 五离 八专', '月德合 民日 敬安 除神 明堂 鸣吠|天罡 死神 天吏 致死 天贼 五离', '月空 三合 临日 时阴 天仓 普护|死气 地囊 天刑', '五富 不将 福生|劫煞 小耗 四废 重日 朱雀'),
    ('天德 月德 天恩 金堂 解神|月害 大时 大败 咸池 小耗 五虚 九坎 九焦 归忌 天刑', '天恩|月破 大耗 月刑 四击 九空 朱雀', '天恩 母仓 五富 五合 金匮 鸣吠对|游祸', '天恩 母仓 三合 临日 天喜 天医 敬安 五合 宝光 鸣吠对|大煞', '天恩 四相 时德 天马 普护|天罡 五虚 五墓 白虎', '天德合 月德合 四相 王日 驿马 天后 时阳 生气 福生 玉堂|月厌 地火 复日 重日 阴错', '月空 官日 六合 鸣吠|天吏 致死 血支 往亡 天牢', '月恩 守日 圣心|月建 小时 土府 元武', '阳德 相日 吉期 不将 益后 除神 司命 鸣吠|劫煞 天贼 五虚 五离', '民日 天巫 福德 天仓 不将 续世 除神 鸣吠|劫煞 天贼 五虚 五离', '天德 月德 不将 要安 青龙|河魁 死神 月煞 月虚 土符', '阴德 三合 时阴 六仪 玉宇 明堂|厌对 招摇 死气 重日', '金堂 解神 鸣吠对|月害 大时 大败 咸池 小耗 四忌 七鸟 五虚 九坎 九焦 归忌 触水龙 天刑', '|月破 大耗 月刑 四击 九空 朱雀', '母仓 四相 五富 五合 金匮|游祸', '天德合 月德合 天恩 母仓 四相 三合 临日 天喜 天医 敬安 五合 宝光|大煞 复日', '月空 天恩 时德 天马 普护|天罡 五虚 白虎', '天恩 月恩 王日 驿马 天后 时阳 生气 福生 玉堂|月厌 地火 重日', '天恩 官日 六合 不将 鸣吠|天吏 致死 血支 往亡 天牢', '天恩 守日 不将 圣心|月建 小时 土府 触水龙 元武', '天德 月德 阳德 相日 吉期 不将 益后 除神 司命 鸣吠|劫煞 天贼 五虚 八风 五离', '民日 天巫 福德 天仓 不将 续世 除神 鸣吠|灾煞 天火 血忌 五离 勾陈', '要安 青龙|河魁 死神 月煞 月虚 土符 地囊', '阴德 三合 时阴 六仪 玉宇 明堂|厌对 招摇 死气 四穷 七鸟 重日', '四相 金堂 解神|月害 大时 大败 咸池 小耗 五虚 九坎 九焦 归忌 天刑', '天德合 月德合 四相|月破 大耗 月刑 四击 九空 复日 朱雀', '月空 母仓 五富 五合 金匮 鸣吠对|游祸', '母仓 月恩 三合 临日 天喜 天医 敬安 五合 宝光 鸣吠对|大煞', '时德 天马 普护|天罡 五虚 白虎', '王日 驿马 天后 时阳 生气 福生 玉堂|月厌 地火 重日', '天德 月德 天赦 官日 六合 不将 鸣吠|天吏 致死 血支 往亡 天牢', '守日 不将 圣心|月建 小时 土府 元武', '阳德 相日 吉期 益后 除神 司命 鸣吠|劫煞 天贼 五虚 五离', '民日 天巫 福德 天仓 续世 除神 鸣吠|灾煞 天火 血忌 五离 勾陈', '四相 不将 要安 青龙|河魁 死神 月煞 月虚 土符', '天德合 月德合 四相 阴德 三合 时阴 六仪 玉宇 明堂|厌对 招摇 死气 复日 重日', '月空 金堂 解神 鸣吠对|月害 大时 大败 咸池 小耗 五虚 九坎 九焦 归忌 天刑', '月恩|月破 大耗 月刑 四击 九空 朱雀', '母仓 五富 五合 金匮 鸣吠对|游祸', '母仓 三合 临日 天喜 天医 敬安 五合 宝光 鸣吠对|大煞', '天德 月德 时德 天马 普护|天罡 五虚 八风 白虎', '王日 驿马 天后 时阳 生气 福生 玉堂|月厌 地火 重日', '官日 六合 鸣吠|天吏 致死 血支 往亡 天牢 逐阵', '守日 圣心|月建 小时 土府 八专 元武 阳错', '四相 阳德 相日 吉期 不将 益后 除神 司命|劫煞 天贼 五虚 五离', '天德合 月德合 天恩 四相 民日 天巫 福德 天仓 续世 除神 鸣吠|灾煞 天火 血忌 复日 五离 勾陈', '月空 天恩 要安 青龙|河魁 死神 月煞 月虚 土符', '天恩 月恩 阴德 三合 时阴 六仪 玉宇 明堂|厌对 招摇 死气 重日', '天恩 金堂 解神 鸣吠对|月害 大时 大败 咸池 小耗 四废 五虚 九坎 九焦 归忌 天刑', '天恩|月破 大耗 月刑 四击 九空 八专 触水龙 朱雀 阳错阴冲', '天德 月德 母仓 五富 五合 金匮 鸣吠对|游祸 八专', '母仓 三合 临日 天喜 天医 敬安 五合 宝光 鸣吠对|四耗 大煞', '时德 天马 普护|天罡 五虚 地囊 白虎', '王日 驿马 天后 时阳 生气 福生 玉堂|月厌 地火 重日 大会 阴错', '天愿 四相 官日 六合 不将|天吏 致死 血支 往亡 天牢 逐阵', '天德合 月德合 四相 守日 圣心|月建 小时 土府 复日 八专 元武 阳错', '月空 阳德 相日 吉期 益后 除神 司命 鸣吠|劫煞 天贼 五虚 五离 八专', '月恩 民日 天巫 福德 天仓 续世 除神 鸣吠|灾煞 天火 血忌 五离 勾陈', '不将 要安 青龙|河魁 死神 月煞 月虚 土符', '阴德 三合 时阴 六仪 玉宇 明堂|厌对 招摇 死气 四废 重日'),
    ('天恩 时阳 民日 三合 临日 时阴 福生 青龙|死气', '天恩 母仓 明堂|小耗 归忌', '月空 天恩 驿马 天后 圣心 解神 五合 鸣吠对|月破 大耗 月刑 天刑', '月德合 天恩 益后 五合 鸣吠对|天吏 致死 朱雀 五虚 七符', '天德合 天恩 母仓 三合 天喜 天医 续世 金匮|月厌 地火 四击 大煞 血忌', '天愿 六合 五富 要安 宝光|河魁 劫煞 重日', '天马 时阳 生气 玉宇 鸣吠|灾煞 天火 复日 白虎', '母仓 金堂 玉堂|月煞 月虚 血支 天贼 五虚', '月德 月恩 四相 王日|月建 小时 土符 五离 天牢', '天德 四相 阴德 官日 吉期 不将 除神 鸣吠|大时 大败 咸池 九坎 九焦 往亡 五离 元武', '母仓 阳德 守日 天巫 福德 六仪 敬安 司命|厌对 招摇 天狗 九空', '相日 普护|天罡 死神 月害 游祸 重日 勾陈', '月空 时德 民日 三合 临日 时阴 福生 青龙 鸣吠对|死气 触水龙', '月德合 母仓 明堂|小耗 归忌', '天德合 驿马 天后 圣心 解神 五合|月破 大耗 月刑', '天恩 益后 五合|天吏 致死 五虚 土符 朱雀', '天恩 母仓 三合 天喜 天医 续世 金匮|月厌 地火 四击 大煞 血忌 复日 大会', '天恩 六合 五富 要安 宝光|河魁 劫煞 重日', '月德 天德 月恩 四相 天马 时阳 生气 不将 玉宇 鸣吠|灾煞 天火 白虎', '天德 天恩 母仓 四相 不将 金堂 玉堂|月煞 月虚 血支 天贼 五虚 触水龙', '王日 天仓 不将 除神 鸣吠|月建 小时 土府 五离 天牢', '阴德 官日 吉期 不将 除神 鸣吠|大时 大败 咸池 九坎 九焦 往亡 五离 元武', '月空 母仓 阳德 守日 天巫 福德 六仪 敬安 司命|厌对 招摇 天狗 九空', '月德合 相日 普护|天罡 死神 月害 游祸 五虚 八风 地囊 重日 勾陈', '天德合 时德 民日 三合 临日 时阴 福生 青龙|死气', '母仓 明堂|小耗 归忌', '驿马 天后 圣心 解神 五合 鸣吠对|月破 大耗 月刑 复日 天刑', '益后 五合 鸣吠对|天吏 致死 五虚 土符 朱雀', '月德 母仓 月恩 四相 三合 天喜 天医 续世 金匮|月厌 地火 四击 大煞 血忌', '天德 四相 六合 五富 不将 要安 宝光|河魁 劫煞 重日', '天马 时阳 生气 不将 玉宇 鸣吠|灾煞 天火 白虎', '母仓 不将 金堂|月煞 月虚 血支 天贼 五虚', '月空 王日 天仓 除神 鸣吠|月建 小时 土府 五离 天牢', '月德合 阴德 官日 吉期 除神 鸣吠|大时 大败 咸池 九坎 九焦 往亡 五离 元武', '天德合 母仓 阳德 守日 天巫 福德 六仪 敬安 司命|厌对 招摇 天狗 九空', '相日 普护|天罡 死神 月害 游祸 五虚 重日 勾陈', '时德 民日 三合 临日 时阴 福生 青龙 鸣吠对|死气 四忌 九虎 复日', '母仓 明堂|小耗 五墓 归忌', '月德 月恩 四相 驿马 天后 圣心 解神 五合 鸣吠对|月破 大耗 月刑 天刑', '天德 四相 益后 五合 鸣吠对|天吏 致死 五虚 土符 朱雀', '母仓 三合 天喜 天医 续世 金匮|月厌 地火 四击 大煞 血忌 阴错', '六合 五富 不将 要安 宝光|河魁 劫煞 重日', '月空 天马 时阳 生气 玉宇 鸣吠|灾煞 天火 白虎', '月德合 母仓 金堂 玉堂|月煞 月虚 血支 天贼 五虚 八风 八专', '天德合 天赦 王日 天仓 不将|月建 小时 土府 五离 天牢', '天恩 阴德 官日 吉期 除神 鸣吠|大时 大败 咸池 九坎 九焦 往亡 五离 元武', '天恩 母仓 阳德 守日 天巫 福德 六仪 敬安 司命|厌对 招摇 天狗 九空 复日', '天恩 相日 普护|天罡 死神 月害 游祸 四穷 九虎 五虚 重日 勾陈', '月德 天恩 月恩 四相 时德 民日 三合 临日 时阴 福生 青龙 鸣吠对|死气', '天德 天恩 母仓 四相 明堂|小耗 归忌 八专 触水龙', '驿马 天后 圣心 解神 五合 鸣吠对|月破 大耗 月刑 四废 八专 天刑', '益后 五合 鸣吠对|天吏 致死 四废 五虚 土符 朱雀 三阴', '月空 母仓 三合 天喜 天医 续世 金匮|月厌 地火 四击 大煞 血忌', '月德合 六合 五富 要安 宝光|河魁 劫煞 地囊 重日', '天德合 天马 时阳 生气 不将 玉宇|四耗 白虎', '母仓 金堂 玉堂|月煞 月虚 血支 天贼 五虚 八专', '王日 天仓 除神 鸣吠|月建 小时 土府 复日 五离 八专 天牢 阳错', '阴德 官日 吉期 除神 鸣吠|大时 大败 咸池 九坎 九焦 往亡 五离 元武', '月德 母仓 月恩 四相 阳德 守日 天巫 福德 六仪 敬安 司命|厌对 招摇 天狗 九空', '天德 四相 相日 普护|天罡 死神 月害 游祸 五虚 重日 勾陈'),
    ('月空 天恩 时德 阳德 民日 玉宇 司命|河魁 死神 天吏 致死 往亡', '月德合 天恩 母仓 三合 时阴 金堂|死气 勾陈', '天恩 解神 五合 青龙 鸣吠对|劫煞 小耗 地囊 归忌', '天恩 五合 明堂 鸣吠对|月破 大耗 灾煞 天火 月厌 地火 五虚', '天恩 母仓 六合 不将 敬安|月煞 月虚 四击 天刑', '三合 临日 天喜 天医 普护|成日 朱雀', '月德 福生 金匮 鸣吠|天罡 大时 大败 咸池 天贼 九坎 九焦', '母仓 阴德 时阳 生气 天仓 不将 宝光|五虚 九空 土符 复日', '四相 王日 天马 五富 不将 圣心 除神 鸣吠|游祸 血支 五离 白虎', '月恩 四相 官日 六仪 益后 除神 玉堂 鸣吠|月建 小时 土府 月刑 厌对 招摇 五离', '月空 母仓 守日 吉期 续世|月害 血忌 天牢', '月德合 相日 驿马 天后 天巫 福德 要安|五虚 大煞 重日 元武', '时德 阳德 民日 玉宇 司命 鸣吠对|河魁 死神 天吏 致死 往亡 触水龙', '母仓 三合 时阴 金堂|死气 勾陈', '解神 五合 青龙|劫煞 小耗 归忌', '天恩 五合 明堂|月破 大耗 灾煞 天火 月厌 地火 五虚 阴道冲阳', '月德 天恩 母仓 天愿 六合 敬安|月煞 月虚 四击 天刑', '天恩 三合 临日 天喜 天医 不将 普护|复日 重日 朱雀', '天恩 四相 不将 福生 金匮 鸣吠|天罡 大时 大败 咸池 天贼 九坎 九焦', '天恩 母仓 月恩 四相 阴德 时阳 生气 天仓 不将 宝光|五虚 九空 土符 触水龙', '月空 王日 天马 五富 不将 圣心 除神 鸣吠|游祸 血支 五离 白虎', '月德合 官日 六仪 益后 除神 玉堂 鸣吠|月建 小时 土府 月刑 厌对 招摇 五离', '母仓 守日 吉期 续世|月害 血忌 天牢', '相日 驿马 天后 天巫 福德 要安|五虚 八风 大煞 重日 元武', '时德 阳德 民日 玉宇 司命|河魁 死神 天吏 致死 往亡', '母仓 三合 时阴 金堂|死气 勾陈', '月德 解神 五合 青龙 鸣吠对|劫煞 小耗 归忌', '五合 明堂 鸣吠对|月破 大耗 灾煞 天火 月厌 地火 五虚 复日 大会', '母仓 四相 六合 不将 敬安|月煞 月虚 四击 天刑', '月恩 四相 三合 临日 天喜 天医 不将 普护|重日 朱雀', '月空 不将 福生 金匮 鸣吠|天罡 大时 大败 咸池 天贼 九坎 九焦', '月德合 母仓 阳德 时阳 生气 天仓 宝光|五虚 九空 土符', '王日 天马 五富 圣心 除神 鸣吠|游祸 血支 地囊 五离 白虎', '官日 六仪 益后 除神 玉堂 鸣吠|月建 小时 土府 月刑 厌对 招摇 五离', '母仓 守日 吉期 续世|月害 血忌 天牢', '相日 驿马 天后 天巫 福德 要安|五虚 大煞 重日 元武', '月德 时德 阳德 民日 玉宇 司命 鸣吠对|河魁 死神 天吏 致死 四忌 九虎 往亡', '母仓 三合 时阴 金堂|死气 五墓 复日 勾陈', '四相 解神 五合 青龙 鸣吠对|劫煞 小耗 归忌', '月恩 四相 五合 明堂 鸣吠对|月破 大耗 灾煞 天火 月厌 地火 五虚', '月空 母仓 六合 不将 敬安|月煞 月虚 四击 天刑', '月德合 三合 临日 天喜 天医 普护|重日 朱雀', '福生 金匮 鸣吠|天罡 大时 大败 咸池 天贼 九坎 九焦', '母仓 阴德 时阳 生气 天仓 宝光|五虚 八风 九空 土符 八专', '天赦 王日 天马 五富 不将 圣心 除神|游祸 血支 五离 白虎', '天恩 官日 六仪 益后 除神 玉堂 鸣吠|月建 小时 土府 月厌 厌对 招摇 五离 小会', '月德 天恩 母仓 守日 吉期 续世|月害 血忌 天牢', '天恩 相日 驿马 天后 天巫 福德 要安|四穷 九虎 五虚 大煞 复日 重日 元武', '天恩 四相 时德 阳德 民日 玉宇 司命 鸣吠对|河魁 死神 天吏 致死 往亡', '天恩 母仓 月恩 四相 三合 时阴 金堂|死气 八专 触水龙 勾陈', '月空 解神 五合 青龙 鸣吠对|劫煞 小耗 四废 归忌 八专', '月德合 五合 明堂 鸣吠对|月破 大耗 灾煞 天火 月厌 地火 四废 五虚 阴错', '母仓 六合 敬安|月煞 月虚 四击 天刑', '三合 临日 天喜 天医 普护|重日 朱雀', '不将 福生 金匮|天罡 大时 大败 咸池 天贼 四耗 九坎 九焦', '母仓 阴德 时阳 生气 天仓 宝光|五虚 九空 土符 八专', '月德 王日 天马 五富 圣心 除神 鸣吠|游祸 血支 五离 八专 白虎', '官日 六仪 益后 除神 玉堂 鸣吠|月建 小时 土府 月刑 厌对 招摇 复日 五离 阳错', '母仓 四相 守日 吉期 续世|月害 血忌 天牢', '月恩 四相 相日 驿马 天后 天巫 福德 要安|五虚 大煞 重日 元武'),
    ('天恩 时德 民日 天符 福德 普护|灾煞 天火 大煞 归忌 天牢', '天恩 母仓 福生|天罡 死神 月煞 月虚 元武', '天德 月德 天恩 阳德 三合 临日 时阴 五合 司命 鸣吠对|月厌 地火 死气 九坎 九焦 孤辰', '天恩 六合 圣心 五合 鸣吠对|大时 大败 咸池 小耗 五虚 勾陈', '天恩 母仓 不将 益后 解神 青龙|月破 大耗 四击 五墓 九空 往亡 复日', '阴德 续世 明堂|游祸 天贼 血忌 重日', '月恩 三合 天喜 天医 天仓 不将 要安 鸣吠|天刑', '天德合 月德合 母仓 不将 玉宇|河魁 月刑 五虚 地囊 朱雀', '月空 四相 王日 驿马 天后 时阳 生气 六仪 金堂 除神 金匮 鸣吠|厌对 招摇 五离', '四相 官日 除神 宝光 鸣吠|月害 天吏 致死 血支 五离', '母仓 守日 天马|月建 小时 土府 白虎 阴位', '相日 吉期 五富 敬安 玉堂|劫煞 五虚 土符 重日', '天德 月德 时德 民日 天巫 福德 普护 鸣吠对|灾煞 天火 大煞 归忌 触水龙 天牢', '母仓 福生|天罡 死神 月煞 月虚 元武', '阳德 三合 临日 时阴 五合 司命|月厌 地火 死气 九坎 九焦 复日 孤辰', '天恩 六合 圣心 五合|大时 大败 咸池 小耗 五虚 勾陈', '天恩 母仓 月恩 不将 益后 解神 青龙|月破 大耗 四击 九空 往亡', '天德合 月德合 天恩 阴德 不将 续世 明堂|游祸 天贼 血忌 重日', '月空 天恩 四相 三合 天喜 天医 天仓 不将 要安 鸣吠|天刑', '天恩 母仓 四相 不将 玉宇|河魁 月刑 五虚 触水龙 朱雀', '王日 驿马 天后 时阳 生气 六仪 金堂 除神 金匮 鸣吠|厌对 招摇 五离', '官日 除神 宝光 鸣吠|月害 天吏 致死 血支 五离', '天德 月德 母仓 守日 天马|月建 小时 土府 白虎', '相日 吉期 五富 敬安 玉堂|劫煞 五虚 八风 土符 重日', '时德 民日 天巫 福德 普护|灾煞 天火 大煞 归忌 复日 天牢', '母仓 福生|天罡 死神 月煞 月虚 元武', '月恩 阳德 三合 临日 时阴 五合 司命 鸣吠对|月厌 地火 死气 九坎 九焦 行狠', '天德合 月德合 天愿 六合 不将 圣心 五合 鸣吠对|大时 大败 咸池 小耗 五虚 勾陈', '月空 母仓 四相 不将 益后 解神 青龙|月破 大耗 四击 九空 往亡', '四相 阴德 不将 续世 明堂|游祸 天贼 血忌 重日', '三合 天喜 天医 天仓 要安 鸣吠|天刑', '母仓 玉宇|河魁 月刑 五虚 朱雀', '天德 月德 王日 驿马 天后 时阳 生气 六仪 金堂 除神 金匮|厌对 招摇 五离', '官日 除神 宝光 鸣吠|月害 天吏 致死 血支 五离', '母仓 守日 天马|月建 小时 土府 复日 白虎 小会 孤阳', '相日 吉期 五富 敬安 玉堂|劫煞 五虚 土符 重日', '月恩 时德 民日 天巫 福德 普护 鸣吠对|灾煞 天火 四忌 九虎 大煞 归忌 天牢', '天德合 月德合 母仓 福德|天罡 死神 月煞 月虚 地囊 元武', '月空 四相 阳德 三合 临日 时阴 五合 司命 鸣吠对|月厌 地火 死气 九坎 九焦 了戾', '四相 六合 不将 圣心 五合 鸣吠对|大时 大败 咸池 小耗 五虚 勾陈', '母仓 益后 解神 青龙|月破 大耗 四击 九空 往亡', '阴德 续世 明堂|游祸 天贼 血忌 重日', '天德 月德 三合 天喜 天医 天仓 要安 鸣吠|天刑', '母仓 玉宇|河魁 月刑 五虚 八风 八专 朱雀', '天赦 王日 驿马 天后 时阳 生气 六仪 金堂 除神 金匮|厌对 招摇 复日 五离', '天恩 官日 除神 宝光 鸣吠|月害 天吏 致死 血支 五离', '天恩 母仓 月德 守日 天马|月建 小时 土府 白虎 阳错', '天德合 月德合 天恩 相日 吉期 五富 敬安 玉堂|劫煞 四穷 九虎 五虚 土符 重日', '月空 天恩 四相 时德 民日 天巫 福德 普护 鸣吠对|灾煞 天火 大煞 归忌 天牢', '天恩 母仓 四相 福生|天罡 死神 月煞 月虚 八专 触水龙 元武', '阳德 三合 临日 时阴 五合 司命 鸣吠对|月厌 地火 死气 四废 九坎 九焦 八专 孤辰 阴错', '六合 圣心 五合 鸣吠对|大时 大败 咸池 小耗 四废 五虚 勾陈', '天德 月德 母仓 益后 解神 青龙|月破 大耗 四击 九空 往亡', '阴德 续世 明堂|游祸 天贼 血忌 重日', '三合 天喜 天医 天仓 不将 要安|四耗 复日 天刑', '母仓 玉宇|河魁 月刑 五虚 八专 朱雀', '月恩 王日 驿马 天后 时阳 生气 六仪 金堂 除神 金匮 鸣吠|厌对 招摇 五离 八专', '天德合 月德合 官日 除神 宝光 鸣吠|月害 天吏 致死 血支 五离', '月空 母仓 四相 守日 天马|月建 小时 土府 白虎', '四相 相日 吉期 五富 敬安 玉堂|劫煞 五虚 土符 重日'),
    ('月德 天恩 天赦 四相 官日 天马 吉期 要安|大时 大败 咸池 白虎', '天德 天恩 月恩 四相 守日 天巫 福德 玉宇 玉堂|月厌 地火 九空 大煞 归忌 孤辰', '天恩 时德 相日 六合 五富 金堂 五合 鸣吠对|河魁 死神 游祸 五虚 天牢', '天恩 阴德 民日 三合 时阴 五合 鸣吠对|死气 元武', '天恩 阳德 解神 司命|小耗 天贼 土符', '月德合 驿马 天后 天仓 不将 敬安|月破 大耗 重日 勾陈', '天德合 月空 不将 普护 青龙 鸣吠|天吏 致死 五虚', '三合 临日 天喜 天医 六仪 福生 明堂|厌对 招摇 四击 往亡', '母仓 除神 鸣吠|天罡 劫煞 月害 复日 五离 天刑', '母仓 时阳 生气 圣心 除神 鸣吠|灾煞 天火 五离 朱雀', '月德 四相 益后 金匮|月煞 月虚 血支 五虚 八风', '天德 月德 四相 王日 续世 宝光|月建 小时 土府 月刑 九坎 九焦 血支 重日', '官日 天马 吉期 要安 鸣吠对|大时 大败 咸池 触水龙 白虎', '守日 天巫 福德 玉宇 玉堂|月厌 地火 九空 大煞 归忌 孤辰', '时德 相日 六合 五富 金堂 五合|河魁 死神 游祸 五虚 地囊 天牢', '月德合 天德 阴德 民日 三合 时阴 不将 五合|死气 元武', '天德合 月空 天恩 阳德 不将 解神 司命|小耗 天贼 土符', '天恩 驿马 天后 天仓 不将 敬安|月破 大耗 重日 勾陈', '天恩 不将 普护 青龙 鸣吠|天吏 致死 五虚 复日', '天恩 三合 临日 天喜 天医 六仪 福生 明堂|厌对 招摇 四击 往亡 触水龙', '月德 母仓 四相 除神 鸣吠|天罡 劫煞 月害 五离 天刑', '天德 母仓 月恩 四相 时阳 生气 圣心 除神 鸣吠|灾煞 天火 五离 朱雀', '益后 金匮|月煞 月虚 血支 五虚', '王日 续世 宝光|月建 小时 土府 月刑 九坎 九焦 血忌 重日', '官日 天马 吉期 要安|大时 大败 咸池 白虎 岁薄', '月德合 月空 时德 相日 六合 五富 不将 金堂 五合 鸣吠对|河魁 死神 游祸 五虚 天牢', '天德合 月空 时德 相日 六合 五富 不将 金堂 五合 鸣吠对|河魁 死神 游祸 五虚 天牢', '阴德 民日 三合 时阴 不将 五合 鸣吠对|死气 元武', '阳德 不将 解神 司命|小耗 天贼 五墓 土符 复日', '驿马 天后 天仓 不将 敬安|月破 大耗 重日 勾陈', '月德 四相 普护 青龙 鸣吠|天吏 致死 五虚', '天德 月恩 四相 三合 临日 天喜 天医 六仪 福生 明堂|厌对 招摇 四击 往亡', '母仓 除神 鸣吠|天罡 劫煞 月害 五离 天刑', '母仓 时阳 生气 圣心 除神 鸣吠|灾煞 天火 五离 朱雀', '益后 金匮|月煞 月虚 血支 五虚 绝阳', '月德合 王日 续世 宝光|月建 小时 土府 月刑 九坎 九焦 血忌 重日 小会 纯阴', '天德合 月空 官日 天马 吉期 要安 鸣吠对|大时 大败 咸池 白虎', '守日 天巫 福德 玉宇 玉堂|月厌 地火 九空 大煞 归忌 行狠', '天愿 时德 相日 六合 五富 不将 金堂 五合 鸣吠对|河魁 死神 游祸 五虚 复日 天牢', '阴德 民日 三合 时阴 不将 五合 鸣吠对|死气 元武', '月德 四相 阳德 解神 司命|小耗 天贼 土符', '天德 月恩 四相 驿马 天后 天仓 敬安|月破 大耗 重日 勾陈', '普护 青龙 鸣吠|天吏 致死 四废 五虚', '三合 临日 天喜 天医 六仪 福生 明堂|厌对 招摇 四击 往亡 八专', '母仓 除神|天罡 劫煞 月害 地囊 五离 天刑', '月德 天恩 母仓 时阳 生气 圣心 除神 鸣吠|灾煞 天火 五离 朱雀', '天德合 月空 天恩 益后 金匮|月煞 月虚 血支 五虚', '天恩 王日 续世 宝光|月建 小时 土府 月刑 九坎 九焦 血忌 重日', '天恩 官日 天马 吉期 要安 鸣吠对|大时 大败 咸池 四忌 六蛇 复日 白虎 岁薄', '天恩 守日 天巫 福德 玉宇 玉堂|月厌 地火 九空 大煞 归忌 八专 触水龙 了戾 阴错', '月德 四相 时德 相日 六合 五富 金堂 五合 鸣吠对|河魁 死神 游祸 五虚 八风 八专 天牢', '天德 月恩 四相 阳德 民日 三合 时阴 五合 鸣吠对|死气 元武', '阳德 解神 司命|小耗 天贼 土符', '驿马 天后 天仓 敬安|月破 大耗 四废 重日 勾陈 阴阳交破', '普护 青龙|天吏 致死 五虚', '月德合 三合 临日 天喜 天医 六仪 福生 明堂|厌对 招摇 四击 往亡 八专', '天德合 月空 母仓 阴神 鸣吠|天罡 劫煞 月害 五离 八专 天刑', '母仓 时阳 生气 圣心 除神 鸣吠|灾煞 天火 四耗 五离 朱雀', '益后 金匮|月煞 月虚 血支 五虚 复日', '王日 续世 宝光|月建 小时 土府 月刑 四穷 六蛇 九坎 九焦 血忌 重日 阳错'),
    ('天恩 天赦 月恩 四相 官日 敬安 金匮|月建 小时 土府 月厌 地火', '天恩 四相 阴德 守日 吉期 六合 普护 宝光|', '月空 天恩 时德 相日 驿马 天后 天马 天巫 福德 福生 五合 鸣吠对|五虚 归忌 白虎', '月德合 天恩 民日 不将 五合 玉堂 鸣吠对|天罡 死神 致死 天贼', '天恩 三合 临日 时阴 天仓 圣心|死气 天牢', '五富 不将 益后|劫煞 小耗 重日 元武', '五富 六仪 续世 解神 司命 鸣吠|月破 大耗 灾煞 天火 厌对 招摇 五虚 血忌', '要安|月煞 月虚 月害 四击 勾陈', '月德 母仓 三合 天喜 天医 玉宇 除神 青龙 鸣吠|九坎 九焦 土符 大煞 五离', '母仓 金堂 除神 明堂 鸣吠|河魁 大时 大败 咸池 复日 五离', '月恩 四相 时阳 生气|五虚 八风 九空 往亡 天刑', '四相 王日|游祸 血支 重日 朱雀', '月空 官日 敬安 金匮 鸣吠对|月建 小时 土府 月厌 地火 触水龙', '月德合 阴德 守日 吉期 六合 不将 普护 宝光|', '时德 相日 驿马 天后 天马 天巫 福德 福生 五合|五虚 归忌 白虎', '天恩 民日 不将 五合 玉堂|天罡 死神 月刑 天吏 致死 天贼', '天恩 三合 临日 时阴 天仓 不将 圣心|死气 天牢', '天恩 五富 不将 益后|劫煞 小耗 重日 元武', '月德 天恩 阳德 六仪 续世 解神 司命 鸣吠|月破 大耗 灾煞 天火 厌对 招摇 五虚 血忌', '天恩 要安|月煞 月虚 月害 四击 复日 触水龙 勾陈', '母仓 月恩 四相 三合 天喜 天医 玉宇 除神 青龙 鸣吠|九坎 九焦 土符 大煞 五离', '母仓 四相 金堂 除神 明堂 鸣吠|河魁 大时 大败 咸池 五离', '月空 时阳 生气|五虚 九空 往亡 天刑', '月德合 王日|游祸 血支 重日 朱雀', '官日 敬安 金匮|月建 小耗 土府 月厌 地火 小会', '阴德 守日 吉期 六合 不将 普护 宝光|', '时德 相日 驿马 天后 天马 天巫 福德 不将 福生 五合 鸣吠对|五虚 归忌 白虎', '民日 不将 五合 玉堂 鸣吠对|天罡 死神 月刑 天吏 致死 天贼 地囊', '月德 三合 临日 时阴 天仓 不将 圣心|死气 五墓 天牢', '五富 益后|劫煞 小耗 复日 重日 元武', '月恩 四相 阳德 六仪 续世 解除 司命 鸣吠|月破 大耗 灾煞 天火 厌对 招摇 五虚 血忌', '四相 要安|月煞 月虚 月害 四击 勾陈', '月空 母仓 三合 天喜 天医 玉宇 除神 青龙 鸣吠|九坎 九焦 土符 大煞 五离', '月德合 母仓 金堂 除神 明堂 鸣吠|河魁 大时 大败 咸池 五离', '时阳 生气|五虚 九空 往亡 天刑', '王日|游祸 血支 重日 朱雀', '官日 敬安 金匮 鸣吠对|月建 小时 土符 月厌 地火', '阴德 守日 吉期 六合 不将 普护 宝光|', '月德 时德 相日 驿马 天后 天马 天巫 福德 不将 福生 五合 鸣吠对|五虚 归忌 白虎', '民日 五合 玉堂 鸣吠对|天罡 死神 月刑 天吏 致死 天贼 复日', '月恩 四相 三合 临日 时阴 天仓 圣心|死气 天牢', '四相 五富 益后|劫煞 小耗 重日 元武', '月空 阳德 六仪 续世 解神 司命 鸣吠|月破 大耗 灾煞 天火 厌对 招摇 四废 五虚 血忌 阴阳击冲', '月德合 要安|月煞 月虚 月害 四击 八专 勾陈', '母仓 三合 天喜 天医 玉宇 除神 青龙|九坎 九焦 土符 大煞 五离', '天恩 母仓 金堂 除神 明堂 鸣吠|河魁 大时 大败 咸池 五离', '天恩 时阳 生气|五虚 九空 往亡 天刑', '天恩 王日|游祸 血支 重日 朱雀', '月德 天恩 官日 敬安 金匮 鸣吠对|月建 小时 土府 月厌 地火 四忌 六蛇 大会 阴阳俱错', '天恩 天愿 阴德 守日 吉期 六合 普护 宝光|复日 八专 触水龙', '月恩 四相 时德 相日 驿马 天后 天马 天巫 福德 福生 五合 鸣吠对|五虚 八风 归忌 八专 白虎', '四相 民日 五合 玉堂 鸣吠对|天罡 死神 月刑 天吏 致死 天贼', '月空 三合 临日 时阴 天仓 圣心|死气 天牢', '月德合 五富 不将 益后|劫煞 小耗 四废 重日 元武', '阳德 六仪 续世 解神 司命|月破 大耗 灾煞 天火 厌对 招摇 五虚 血忌', '要安|月煞 月虚 月害 四击 八专 勾陈', '母仓 三合 天喜 天医 玉宇 除神 青龙 鸣吠|九坎 九焦 土符 大煞 五离 八专', '母仓 金堂 除神 明堂 鸣吠|河魁 大时 大败 咸池 四耗 地囊 五离', '月德 时阳 生气|五虚 九空 往亡 天刑', '王日|游祸 血支 四穷 六蛇 复日 重日 朱雀'),
    ('月空 天恩 天赦 天愿 四相 官日 六合 续世|天吏 致死 血支 土符 归忌 血忌 天刑', '天德合 月德合 天恩 四相 守日 要安|月建 小时 土府 往亡 朱雀', '天恩 月德 相日 吉期 不将 玉宇 五合 金匮 鸣吠对|劫煞 天贼 五虚', '天恩 民日 天巫 福德 天仓 不将 金匮 五合 宝光 鸣吠对|灾煞 天火', '天恩 天马|河魁 死神 月煞 月虚 五墓 白虎', '三合 时阴 六仪 玉堂|厌对 招摇 死气 九坎 九焦 复日 重日', '天德 月德 敬安 解神 鸣吠|月害 大时 大败 咸池 小耗 五虚 天牢', '月恩 普护|月破 大耗 四击 九空 元武', '母仓 阳德 五富 福生 除神 司命 鸣吠|游祸 五离', '母仓 三合 临日 天喜 天医 除神 鸣吠|地囊 大煞 五离 勾陈', '月空 四相 圣心 青龙|天罡 月刑 五虚 八风', '天德合 月德合 四相 阴德 王日 驿马 天后 时阳 生气 益后 明堂|月厌 地火 重日', '官日 六合 不将 续世 鸣吠对|天吏 致死 血支 土符 归忌 血忌 触水龙 天刑', '守日 不将 要安|月建 小时 土府 往亡 朱雀', '时德 相日 吉期 玉堂 五合 金匮|劫煞 天贼 五虚', '天恩 民日 天巫 福德 天仓 不将 金堂 五合 宝光|灾煞 天火 复日', '天德 月德 天恩 天马 不将|河魁 死神 月煞 月虚 白虎', '天恩 月恩 三合 时阴 六仪 玉堂|厌对 招摇 死气 九坎 九焦 重日', '天恩 敬安 解神 鸣吠|月害 大时 大败 咸池 小耗 五虚 天牢', '天恩 普护|月破 大耗 四击 九空 触水龙 元武', '月空 母仓 四相 阳德 五富 生气 除神 司命 鸣吠|游祸 五离', '天德合 月德合 母仓 四相 三合 临日 天喜 天医 除神 鸣吠|大煞 五离 勾陈', '圣心 青龙|天罡 月刑 五虚', '阴德 王日 驿马 天后 时阴 生气 益后 明堂|月厌 地火 重日', '官日 六合 续世|天吏 致死 血支 土符 归忌 血忌 天刑 逐阵', '守日 不将 要安|月建 小时 土府 往亡 复日 朱雀', '天德 月德 时德 相日 吉期 不将 玉宇 五合 金匮|劫煞 天贼 五虚', '月恩 民日 天巫 福德 天仓 不将 金堂 五合 宝光 鸣吠对|灾煞 天火', '天马|河魁 死神 月煞 月虚 白虎', '三合 阴德 六仪 玉堂|厌对 招摇 死气 九坎 九焦 重日', '月空 四相 敬安 解神 鸣吠|月害 大时 大败 咸池 小耗 五虚 天牢', '天德合 月德合 四相 普护|月破 大耗 四击 九空 元武', '母仓 阳德 五富 福生 除神 司命 鸣吠|游祸 五离', '母仓 三合 临日 天喜 天医 除神 鸣吠|大煞 五离 勾陈', '圣心 青龙|天罡 月刑 五虚', '阴德 王日 驿马 天后 时阳 生气 益后 明堂|月厌 地火 复日 重日', '天德 月德 官日 六合 不将 续世 鸣吠对|天吏 致死 血支 土符 归忌 血忌 天刑', '月恩 守日 不将 要安|月建 小时 土府 往亡 朱雀', '时德 相日 吉期 玉宇 五合 金匮 鸣吠对|劫煞 天贼 五虚', '民日 天巫 福德 天仓 金堂 五合 宝光 鸣吠对|灾煞 天火', '月空 四相 天马|河魁 致死 月煞 月虚 白虎', '天德合 月德合 四相 三合 时阴 六仪 玉堂|厌对 招摇 死气 九坎 九焦 重日', '敬安 解神 鸣吠|月害 大时 大败 咸池 小耗 四废 五虚 天牢', '普护|月破 大耗 四击 九空 八专 元武 阳破阴冲', '母仓 阳德 五富 福生 除神 司命|游祸 五离', '天恩 母仓 三合 临日 天喜 天医 除神 鸣吠|大煞 复日 五离 勾陈', '天德 月德 天恩 圣心 青龙|天罡 月刑 五虚', '天恩 月恩 阴德 王日 驿马 天后 时阳 生气 益后 明堂|月厌 地火 重日', '天恩 官日 六合 续世|天吏 致死 血支 四忌 六蛇 土符 归忌 血忌 天刑 逐阵', '天恩 守日 要安|月建 小时 土府 往亡 八专 触水龙 朱雀 阳错', '月空 四相 时德 相日 吉期 玉宇 五合 金匮 鸣吠对|劫煞 天贼 五虚 八风 八专', '天德合 月德合 四相 民日 天巫 福德 天仓 金堂 五合 宝光 鸣吠对|灾煞 天火 地囊', '天马 不将|河魁 死神 月煞 月虚 白虎', '三合 时阴 六仪 玉堂|厌对 招摇 死气 四废 九坎 九焦 重日', '敬安 解神|月害 大时 大败 咸池 小耗 五虚 天牢', '普护|月破 大耗 四击 九空 复日 八专 元武', '天德 月德 母仓 阳德 五富 福生 除神 司命 鸣吠|游祸 五离 八专', '母仓 月恩 三合 临日 天喜 天医 除神 鸣吠|四耗 大煞 五离 勾陈', '圣心 青龙|天罡 月刑 五虚', '阴德 王日 驿马 天后 时阳 生气 益后 明堂|月厌 地火 四穷 六蛇 重日 大会 阴错'),
)
