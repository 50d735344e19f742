"""C04: exactly the usable records inside the region of interest are processed."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib.harness import prop
from vlib import chain, gen, ref, synth
from vlib.gen import floats

from dedop.data.input.l1a import L1ADataset

ASSUMPTIONS = ['a record is unusable when it carries no position (latitude and longitude both zero)',
               'region limits are inclusive and compared with the decoded latitudes and longitudes in degrees']


def limit(lo, hi):
    """a limit: none, a plain value, or [record, offset]: the coordinate of a record plus an offset"""
    at_record = st.tuples(st.integers(0, 60), st.sampled_from([0.0, 0.0, 1e-6, -1e-6, 0.4, -0.4])).map(list)
    return st.one_of(st.none(), st.none(), floats(lo, hi), at_record, at_record)


def tracks():
    drift = st.one_of(floats(-2.0, 2.0), st.just(0.0))
    return st.fixed_dictionaries({
        'n': st.integers(1, 60),
        'lat': st.tuples(floats(-80, 80), drift, floats(0.0, 1.5)).map(list),
        'lon': st.tuples(floats(-179, 179), drift, floats(0.0, 1.5)).map(list),
        'seed': gen.seeds(),
        'zeros': st.lists(st.integers(0, 60), max_size=4),
        'roi': st.fixed_dictionaries({'min_lat_cnf': limit(-90, 20), 'max_lat_cnf': limit(-20, 90),
                                      'min_lon_cnf': limit(-180, 20), 'max_lon_cnf': limit(-20, 180)}),
        'mode': st.sampled_from(['next', 'iter']),
    })


@prop(tracks, quick=350, thorough=12000, rule='at least one limit is set and some but not all records are selected',
      shards=(3, 8))
def selection(case, ctx):
    n = case['n']
    rng = np.random.RandomState(case['seed'])
    lat = np.clip(case['lat'][0] + case['lat'][1] * np.arange(n) + case['lat'][2] * rng.uniform(-1, 1, n), -89.9, 89.9)
    lon = case['lon'][0] + case['lon'][1] * np.arange(n) + case['lon'][2] * rng.uniform(-1, 1, n)
    lon = (lon + 180.0) % 360.0 - 180.0
    chd = {'N_samples_sar_chd': 2, 'N_ku_pulses_burst_chd': 2}
    P0 = ref.Params(chd)
    values = synth.make_values({'n': n, 'seed': 5}, P0.chd)
    values['lat'], values['lon'] = lat, lon
    for z in case['zeros']:
        if z < n:
            values['lat'][z] = values['lon'][z] = 0.0
    path = os.path.join(ctx.tmpdir(), 'L1A_roi.nc')
    synth.write_l1a(path, values)
    values = synth.read_l1a(path)
    roi = {}
    for key, v in case['roi'].items():
        if isinstance(v, list):
            v = float(values['lat' if 'lat' in key else 'lon'][v[0] % n]) + v[1]
        if v is not None:
            roi[key] = v
    objs = synth.conf(chd, roi)
    mask = np.ones(n, bool)
    for key, op in (('min_lat_cnf', lambda v: values['lat'] >= v), ('max_lat_cnf', lambda v: values['lat'] <= v),
                    ('min_lon_cnf', lambda v: values['lon'] >= v), ('max_lon_cnf', lambda v: values['lon'] <= v)):
        if key in roi:
            mask &= op(roi[key])
    region = [int(i) for i in np.flatnonzero(mask)]
    keep = [i for i in region if not (values['lat'][i] == 0 and values['lon'][i] == 0)]

    d = L1ADataset(path, chd=objs[0], cst=objs[1], cnf=objs[2])
    got = []
    if case['mode'] == 'next':
        for _ in range(n + 2):
            try:
                p = next(d)
            except StopIteration:
                break
            if p is not None:
                got.append(p)
        else:
            ctx.fail('reading never ends')
        ctx.raises(StopIteration, lambda: next(d), 'reading past the end')
    else:
        got = [p for p in d if p is not None]
    ctx.equal([int(p.counter) for p in got], keep, 'records selected by %r' % (roi,))
    for p in got:
        ctx.close(p.time_sar_ku, values['time'][int(p.counter)], 'time of record %d' % p.counter, rtol=1e-14)
    if region:
        ctx.equal(float(d.first_time()), float(values['time'][region[0]]), 'time of the first record in the region')
        ctx.equal(float(d.last_time()), float(values['time'][region[-1]]), 'time of the last record in the region')
        ctx.equal(len(d), region[-1] - region[0] + 1, 'number of records to go through')
    else:
        ctx.equal(len(d), 0, 'number of records to go through')
        ctx.label('empty region')
    ctx.mark(bool(roi) and 0 < len(keep) < n)
    ctx.label('roi' if roi else 'no roi', case['mode'])


def cuts():
    return chain.scenarios(surfaces=(90, 130), cut=st.tuples(st.integers(0, 12), st.integers(0, 12)).map(list),
                           axis=st.sampled_from(['lat', 'lon', 'both']), **chain.holes())


@prop(cuts, quick=16, thorough=800, rule='the region cuts records off the product', shards=(2, 8))
def processed(case, ctx):
    """the whole processor uses no record outside the region and drops none inside"""
    p = chain.product(case, ctx)
    lat, lon = p.values['lat'], p.values['lon']
    a, b = case['cut'][0], p.n - 1 - case['cut'][1]
    ok = [i for i in range(p.n) if not (lat[i] == 0 and lon[i] == 0) and a <= i <= b]
    limits = {}
    for name, v in (('lat', lat), ('lon', lon)):
        if case['axis'] in (name, 'both'):
            limits['min_%s_cnf' % name] = float(min(v[ok]))
            limits['max_%s_cnf' % name] = float(max(v[ok]))
    out = chain.run_case(case, ctx, cnf=limits)
    if out is None:
        return
    p, snaps, _ = out
    expected = p.expected()
    if expected.fragile & {'gap', 'surface', 'visibility', 'focus'}:
        ctx.label('too close to call')
        return
    ctx.equal(len(snaps), len(expected), 'number of records')
    keep = set(ref.selected(p.P, p.values))
    for s, (surf, stack) in zip(snaps, expected):
        ctx.require(keep.issuperset(s.burst_counters), 'record %d uses bursts %s outside the region',
                    s.surface_counter, sorted(set(s.burst_counters) - keep))
        if not stack.fragile & {'looks'}:
            ctx.equal(s.burst_counters, [q.index for q in stack.bursts], 'bursts of record %d' % s.surface_counter)
    ctx.mark(len(keep) < p.n)
    ctx.label(case['axis'])
