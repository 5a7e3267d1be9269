"""C11: EXTRACT of calendar fields."""
from common import *
from civil import *
import random

ASSUMPTIONS = ['timestamps within 2^28 400-year eras of the year 2000 (about 107 billion years)']
R = {'t': (-2**62, 2**62)}
FAST = 2**32 - 1 - 2208988800


def contracts():
    cs = []

    def gen(rng, i):
        i['t'] = nice_times(rng, 1)[0] & (2**64 - 1)
        return i

    EX = enum('DateExtractField')

    def X(fn, f, field=None):
        X1(fn, [], f)
        if field:
            X1('_Z15ExtractFromTimeN3hdk2ir16DateExtractFieldEl', [('f', Lit('i32', EX[field]))], f, label='ExtractFromTime[%s]' % field)

    def X1(fn, ps, f, label=None, cands=None, **kw):
        def cuts(c):
            v = Civil(c, c.t)
            rng = random.Random(7)
            ts = nice_times(rng, 24)
            return v.cands() + (cands(v) if cands else []), [[(z3.Int('t'), I(t))] + v.sample(t) for t in ts]
        cs.append(Contract(fn, ps + [('t', 'i64')], lambda c: f(Civil(c, c.t)), pre=lambda c: Civil(c, c.t).facts(), dom='int', ranges=R, gen=gen, cuts=cuts, label=label, **kw))
    eq = lambda n, f: (lambda v: [(n, v.c.ret == f(v))])
    X('extract_day', eq('day of the month', lambda v: v.d + 1), 'kDay')
    X('extract_hour', eq('hour of the day', lambda v: v.s / 3600), 'kHour')
    X('extract_minute', eq('minute of the hour', lambda v: v.s % 3600 / 60), 'kMinute')
    X('extract_second', eq('second of the minute', lambda v: v.s % 60), 'kSecond')
    X('extract_quarterday', eq('quarter of the day', lambda v: v.s / 21600 + 1), 'kQuarterDay')
    X('extract_dow', eq('Sunday = 0', lambda v: (v.day + 4) % 7), 'kDayOfWeek')
    X('extract_isodow', eq('Monday = 1', lambda v: (v.day + 3) % 7 + 1), 'kIsoDayOfWeek')
    X('extract_day_of_year', eq('day of the year', lambda v: v.dayofyear + 1), 'kDayOfYear')
    X('extract_epoch', eq('identity', lambda v: v.c.t), 'kEpoch')
    X('extract_dateepoch', eq('midnight', lambda v: 86400 * v.day), 'kDateEpoch')
    X('extract_month', eq('month', lambda v: v.month), 'kMonth')
    X('extract_quarter', eq('quarter', lambda v: (v.month + 2) / 3), 'kQuarter')
    X('extract_year', eq('year', lambda v: 2000 + 400 * v.e + v.rely), 'kYear')
    # week numbers: week 1 contains January 4
    for fn, off, fl in (('monday', 2, 'kWeek'), ('sunday', 3, 'kWeekSunday'), ('saturday', 4, 'kWeekSaturday')):
        def wk(v, off=off):
            nxt = 365 * v.y + v.y / 4 - v.y / 100 + 306 + 3    # Jan 4 of the calendar year after this March, relative to the era
            p = v.y - 1
            prv = 365 * p + p / 4 - p / 100 + p / 400 + 306 + 3
            first = lambda j: j - (j + off) % 7
            return [('weeks since the first week of the week year', v.c.ret == z3.If(v.doe >= first(nxt), (v.doe - first(nxt)) / 7 + 1, (v.doe - first(prv)) / 7 + 1))]
        X('extract_week_' + fn, wk, fl)
    for fn, k, fl in (('millisecond', 1000, 'kMilli'), ('microsecond', 10**6, 'kMicro'), ('nanosecond', 10**9, 'kNano')):
        cs.append(Contract('_Z15ExtractFromTimeN3hdk2ir16DateExtractFieldEl', [('f', Lit('i32', EX[fl])), ('t', 'i64')], lambda c, k=k: [('sub-minute units', c.ret == c.t % (60 * k))], dom='int',
                           label='ExtractFromTime[%s]' % fl))
        cs.append(Contract('extract_' + fn, [('t', 'i64')], lambda c, k=k: [('sub-minute units', c.ret == c.t % (60 * k))], dom='int'))
    return cs


def lemmas():
    import civil
    return civil.lemmas()
