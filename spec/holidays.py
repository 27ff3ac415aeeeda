# -*- coding: utf-8 -*-
"""the statutory holiday table and its lookups"""
from lunar_python import Holiday
from lunar_python.util import HolidayUtil
from .cal import *


def parts(s):
    require(len(s) == 10 and s[4] == '-' and s[7] == '-', 'holiday dates read YYYY-MM-DD')
    return int(s[0:4]), int(s[5:7]), int(s[8:10])


def iso(y, m, d):
    return '%04d-%02d-%02d' % (y, m, d)


def next_day(s, n):
    y, m, d = parts(s)
    y, m, d = forward(y, m, d, n)
    return iso(y, m, d)


def table(y):
    return [(h.getDay(), h.getName(), h.isWork(), h.getTarget()) for h in HolidayUtil.getHolidays(y)]


def record(h):
    if h is None:
        return None
    return (h.getDay(), h.getName(), h.isWork(), h.getTarget())


YEARS = range(1998, 2040)


@obligation('C12', y=YEARS, anchor='HolidayUtil.getHolidays', rule='every record of the table read through the public lookups is well formed')
def records(y):
    rows = table(y)
    note('year', y)
    near = {}
    for k in range(y - 1, y + 2):
        for r in table(k):
            near[r[0]] = r
    prev = ''
    for day, name, work, target in rows:
        note('record', day)
        yy, m, d = parts(day)
        require(yy == y and 1 <= m and m <= 12 and exists(y, m, d), 'a listed holiday is an existing date of its year')
        require(prev < day, 'the listed days of a year are ascending and distinct')
        prev = day
        require(name in HolidayUtil.NAMES, 'the holiday name is one of the known names')
        require(work is True or work is False, 'the work flag is a boolean')
        ty, tm, td = parts(target)
        require(1 <= tm and tm <= 12 and exists(ty, tm, td), 'the target is an existing date')
        require(target in near and not near[target][2], 'the target day itself is listed as a day off')
        if not work:
            # the days off of one holiday are consecutive and contain the target
            c = day
            n = 0
            while c != target:
                require(c in near and not near[c][2], 'every day between a day off and its holiday is a day off')
                c = next_day(c, 1 if c < target else -1)
                n = n + 1
                require(n < 15, 'a day off lies near its holiday')
    require(True)


@obligation('C12', y={'quick': list(YEARS) + [1, 9, 20, 99, 112, 200, 201, 291, 999, 1000, 1001, 1011, 1012, 1020, 1122, 1231, 2900, 9999],
                      'thorough': list(range(1, 10000, 7)) + list(YEARS)}, anchor='HolidayUtil.getHoliday', rule='exact lookups return the record of that day and nothing else')
def lookups(y):
    note('year', y)
    by_day = {}
    if 1998 <= y < 2040:
        for r in table(y):
            by_day[r[0]] = r
    else:
        require_eq(table(y), [], 'no holidays are listed outside the table')
    for m in range(1, 13):
        note('month', m)
        rows = [record(h) for h in HolidayUtil.getHolidays(y, m)]
        want = []
        for d in range(1, last(y, m) + 1):
            s = iso(y, m, d)
            e = by_day.get(s)
            require_eq(record(HolidayUtil.getHoliday(y, m, d)), e, 'getHoliday(y, m, d) is the record of that day')
            if e is not None:
                want.append(e)
                require_eq(record(HolidayUtil.getHoliday(s)), e, "getHoliday('yyyy-mm-dd') agrees with the numbers")
        require_eq(rows, want, 'getHolidays(y, m) lists exactly the records of the month')


@obligation('C12', y=YEARS, anchor='HolidayUtil.getHolidaysByTarget', rule='lookups by target return exactly the records with that target, in order')
def by_target(y):
    note('year', y)
    rows = []
    for k in range(y - 1, y + 2):
        rows = rows + table(k)
    targets = []
    for r in rows:
        if r[3] not in targets and parts(r[3])[0] == y:
            targets.append(r[3])
    for t in targets:
        note('target', t)
        ty, tm, td = parts(t)
        want = [r for r in rows if r[3] == t]
        require_eq([record(h) for h in HolidayUtil.getHolidaysByTarget(ty, tm, td)], want, 'getHolidaysByTarget lists exactly the records of the target')
        require_eq([record(h) for h in HolidayUtil.getHolidaysByTarget(t)], want, 'getHolidaysByTarget(text) agrees with the numbers')
    require_eq([record(h) for h in HolidayUtil.getHolidaysByTarget(y, 7, 17)], [], 'a day that is no target has no holidays')


# ------------------------------------------------------------------ histories of HolidayUtil.fix
# days: listed in the table, unlisted in a listed year, unlisted years before and after the table
DAYS = ('20200101', '20201225', '20181231', '19990505', '20510203')
KINDS = ('~00000000 ', '0020200101', '4120201225', '1120181230')


def model_start():
    d = {}
    for y in (2018, 2020):
        for r in table(y):
            d[r[0]] = r
    return d


def dash(s):
    return s[0:4] + '-' + s[4:6] + '-' + s[6:8]


def apply_model(model, names, day, kind):
    k = dash(day)
    if kind[0] == '~':
        if k in model:
            model.pop(k)
    else:
        model[k] = (k, names[int(kind[0])], kind[1] == '0', dash(kind[2:]))


def compare(model, names):
    for day in DAYS:
        k = dash(day)
        y, m, d = parts(k)
        require_eq(record(HolidayUtil.getHoliday(y, m, d)), model.get(k), 'getHoliday after fix')
    for y in (1999, 2018, 2020, 2051):
        want = sorted([k for k in model if k[0:4] == str(y)])
        got = [record(h) for h in HolidayUtil.getHolidays(y)]
        require_eq(got, [model[k] for k in want], 'getHolidays(y) after fix lists exactly the records of the year')
    for t in ('2020-01-01', '2020-12-25'):
        want = sorted([k for k in model if model[k][3] == t])
        require_eq([record(h) for h in HolidayUtil.getHolidaysByTarget(t)], [model[k] for k in want], 'getHolidaysByTarget after fix')


@obligation('C12', first=range(0, 5), steps={'quick': [1, 2], 'thorough': [1, 2, 3]}, anchor='HolidayUtil.fix', rule='every history of single corrections leaves the lookups equal to a plain table')
def fix_history(first, steps):
    model = model_start()
    # the state to compare with contains every record whose target is queried
    for r in table(2019):
        model[r[0]] = r
    names = HolidayUtil.NAMES
    for i in range(0, steps):
        day = DAYS[first] if i == 0 else choice('day %d' % (i + 1), DAYS)
        kind = choice('record %d' % (i + 1), KINDS)
        if kind[0] == '~':
            kind = '~000000000'
        HolidayUtil.fix(None, day + kind)
        apply_model(model, names, day, kind)
    compare(model, names)


@obligation('C12', first=range(0, 5), n={'quick': [2], 'thorough': [2, 3]}, anchor='HolidayUtil.fix', rule='several corrections in one call, in any order')
def fix_many(first, n):
    model = model_start()
    for r in table(2019):
        model[r[0]] = r
    names = HolidayUtil.NAMES
    left = list(DAYS)
    text = ''
    for i in range(0, n):
        day = DAYS[first] if i == 0 else choice('day %d' % (i + 1), left)
        left.remove(day)
        kind = choice('record %d' % (i + 1), ('~000000000', '0020200101', '4120201225'))
        text = text + day + kind
        apply_model(model, names, day, kind)
    # an incomplete tail is ignored
    HolidayUtil.fix(None, text + choice('tail', ['', '2020']))
    compare(model, names)


@obligation('C12', anchor='HolidayUtil.fix', rule='replacing the names renames by index')
def fix_names():
    old = table(2020)
    base = HolidayUtil.NAMES
    names = ['N%d' % i for i in range(0, 12)]
    HolidayUtil.fix(names, choice('data', [None, '20201225;120201225']))
    got = table(2020)
    for r in old:
        require((r[0], 'N%d' % base.index(r[1]), r[2], r[3]) in got, 'names are replaced by position')
    h = HolidayUtil.getHoliday('2020-12-25')
    if h is not None:
        require_eq(record(h), ('2020-12-25', 'N11', False, '2020-12-25'), 'name indexes beyond 9 follow the character table')
        HolidayUtil.fix(None, '20201225:020201225')
        require_eq(record(HolidayUtil.getHoliday('2020-12-25')), ('2020-12-25', 'N10', True, '2020-12-25'), 'a record with a name index beyond 9 can be replaced')
        HolidayUtil.fix(None, '20201225~000000000')
        require_eq(HolidayUtil.getHoliday('2020-12-25'), None, 'a record with a name index beyond 9 can be removed')
    require(True)


@obligation('C12', anchor='Holiday.getDay', rule='a Holiday shows its components; compact dates are given dashes')
def holiday_object():
    y, m, d = sym('year', 1000, 9999), sym('month', 1, 12), sym('day', 1, 31)
    work = choice('work', [False, True])
    compact = choice('compact', [False, True])
    s = '%04d-%02d-%02d' % (y, m, d)
    h = Holiday('%04d%02d%02d' % (y, m, d) if compact else s, '春节', work, '%04d%02d%02d' % (y, m, d))
    require_eq(h.getDay(), s, 'getDay')
    require_eq(h.getTarget(), s, 'getTarget')
    require_eq(h.isWork(), work, 'isWork')
    require_eq(h.getName(), '春节', 'getName')
    h.setDay('20200506')
    h.setTarget('20200507')
    h.setWork(not work)
    h.setName('x')
    require_eq(record(h), ('2020-05-06', 'x', not work, '2020-05-07'), 'setters')
