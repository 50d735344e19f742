"""C24: UTC day and second and GPS time of a record are its time, also across midnight."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib.harness import prop
from vlib import chain, gen, outputs, writers
from vlib.gen import floats

ASSUMPTIONS = ['GPS time counts from 1980-01-06 and is 19 s behind TAI', 'the instant of midnight may be told as the end '
               'of one day or the beginning of the next']
EPOCH = (20 * 365 + 5 - 5) * 86400      # 1980-01-06 to 2000-01-01: 20 years, 5 leap days, less the first 5 days of 1980


def utcs():
    """[time of the record, [time, day and second of its reference burst], length of the day]"""
    def make(t):
        day, length, back, step, leap = t
        sec = min(max(length - back, 0.0), length)
        tai = day * 86400.0 + sec + leap
        return [tai + step, [tai, day, sec], length]
    return st.tuples(st.integers(0, 20000), st.sampled_from([86400.0, 86400.0, 86401.0, 86399.0]),
                     st.one_of(floats(0.0, 0.05), floats(0.0, 86000.0)), floats(0.0, 0.05), st.sampled_from([0.0, 17.0, 37.0])).map(make)


def cases():
    return st.tuples(writers.cases(), st.lists(utcs(), min_size=5, max_size=5), st.integers(0, 2)).map(
        lambda t: dict(t[0], utcs=t[1], kind=t[2]))


def judge(ctx, f, suffix, i, day, sec, length, tai, what):
    got = f.get('UTC_day', suffix)[i], f.get('UTC_sec', suffix)[i]
    over = sec - length
    accepted = []
    if over <= 1e-6:
        accepted.append((day, sec))
    if over >= -1e-6:
        accepted.append((day + 1, over))
    ctx.require(any(int(got[0]) == d and abs(float(got[1]) - s) < 1e-5 for d, s in accepted),
                '%sUTC day and second %r, expected %r', what, (int(got[0]), float(got[1])), accepted)
    name = 'GPS_time_%s_echo_sar_ku' % suffix
    if name in f.values:
        ctx.close(float(f.values[name][i]), tai + EPOCH - 19, what + 'GPS time', rtol=0, atol=1e-5)
    return over > 1e-6


@prop(cases, quick=110, thorough=4000, shards=(4, 8), rule='one record before and one after the end of the day')
def fields(case, ctx):
    from dedop.data.output import L1BSWriter, L1BWriter, L1BWriterExtended
    cls = [L1BSWriter, L1BWriter, L1BWriterExtended][case['kind']]
    _, made, f, _ = writers.write(case, ctx, cls)
    sides = set()
    for i in range(len(made)):
        time, (tai, day, sec), length = case['utcs'][i]
        sides.add(judge(ctx, f, 'l1bs' if case['kind'] == 0 else 'l1b', i, day, sec + (time - tai), length, time, 'record %d: ' % i))
    ctx.mark(len(sides) == 2)


def nights():
    return chain.scenarios(pulses=(4,), samples=(2,), surfaces=(84, 95), day=st.integers(100, 9000), before=st.one_of(floats(0.05, 0.95), floats(0.3, 0.9), floats(-0.1, 1.3)), second=st.sampled_from([0, 1]),
                           l1bs=st.booleans(), format=st.sampled_from(['extended', 'sentinel-3']))


@prop(nights, quick=36, thorough=500, shards=(4, 8), rule='records before and after midnight')
def midnight(case, ctx):
    """a track across midnight"""
    leap = case['world']['leap']
    extra = case['second']
    bri = 1.0 / gen.chd_of(case['inst'], case['world'])['brf_sar_chd']
    length = bri * (case['surfaces'] / case['inst']['ratio'] + 2)
    # the day ends after this part of the track
    case = dict(case, world=dict(case['world'], t_start=case['day'] * 86400.0 - case['before'] * length + leap + extra))
    p = chain.product(case, ctx, cnf={'output_format_flag_cnf': case['format']})
    if extra:
        # a leap second at the end of the day
        values = p.made
        since = values['time'] - leap - case['day'] * 86400.0
        values['UTC_day'] = np.where(since >= 1.0, case['day'], case['day'] - 1).astype(values['UTC_day'].dtype)
        values['UTC_sec'] = np.where(since >= 1.0, since - 1.0, since + 86400.0)
        p = chain.product(case, ctx, cnf={'output_format_flag_cnf': case['format']}, values=values)
    if chain.too_short(p):
        return
    out = os.path.join(p.dir, 'out')
    with chain.without_fits():
        p.processor('r', out, skip_l1bs=not case['l1bs']).process(p.path)
    for name, suffix in (('L1B__x_r.nc', 'l1b'), ('L1BS__x_r.nc', 'l1bs'))[:2 if case['l1bs'] else 1]:
        f = outputs.File(os.path.join(out, name))
        times = f.get('time', suffix)
        sides = set()
        for i, t in enumerate(times):
            sec = float(t) - leap - (case['day'] - 1) * 86400.0
            if extra and 86400.0 <= sec < 86401.0 - 1e-6:
                continue        # within the leap second: the length of the day is not known from two records in it
            sides.add(judge(ctx, f, suffix, i, case['day'] - 1, sec, 86400.0 + extra, float(t), '%s record %d: ' % (name, i)))
        ctx.mark(len(sides) == 2)
        ctx.label('leap second' if extra else 'no leap second')
