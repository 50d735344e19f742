"""C18: an interruption of the acquisition separates the track; every run between interruptions is processed on its own."""
import numpy as np
from hypothesis import strategies as st

from vlib.harness import prop
from vlib import chain, gen, ref
from vlib.gen import floats

ASSUMPTIONS = ['a burst at least 1.5 burst repetition intervals after its predecessor starts a new run; intervals within '
               '1e-6 of that are not judged',
               'a product without any interruption that is too short is refused, runs next to an interruption are not']
SAME = ('beams_surf', 'beam_angles_surf', 'look_angles_surf', 'pointing_angles_surf', 'doppler_angles_surf', 'look_index_surf',
        'beams_geo_corr', 'range_sat_surf', 'stack_mask', 'waveform_multilooked')
ONE = ('time_surf', 'x_surf', 'y_surf', 'z_surf', 'lat_surf', 'lon_surf', 'alt_surf', 'x_sat', 'alt_sat', 'win_delay_surf',
       'data_stack_size', 'closest_burst_index', 'sigma0_scaling_factor', 'n_beams_start_stop', 'start_look_angle',
       'stop_look_angle', 'start_burst_index', 'stop_burst_index')


def equal_records(ctx, got, want, what):
    ctx.equal(len(got), len(want), what + 'number of records')
    for i, (a, b) in enumerate(zip(got, want)):
        for n in ONE:
            ctx.close(float(getattr(a, n)), float(getattr(b, n)), '%srecord %d: %s' % (what, i, n), rtol=1e-12)
        for n in SAME:
            x, y = np.asarray(getattr(a, n)), np.asarray(getattr(b, n))
            ctx.equal(x.shape, y.shape, '%srecord %d: shape of %s' % (what, i, n))
            ctx.require(np.allclose(x, y, rtol=1e-9, atol=0, equal_nan=True) or
                        np.allclose(x, y, rtol=0, atol=1e-9 * np.nanmax(np.abs(y)), equal_nan=True),
                        '%srecord %d: %s differs', what, i, n)


def pauses():
    return st.one_of(floats(0.51, 0.6), floats(0.6, 3.0), floats(3.0, 200.0))


def tracks():
    return chain.scenarios(pulses=(4, 8, 16), samples=(2, 4), surfaces=(84, 140), gaps=st.lists(
        st.tuples(st.one_of(st.integers(1, 6), st.integers(1, 160)), pauses()).map(list), min_size=1, max_size=4),
        invalid=st.one_of(st.just([]), st.lists(st.integers(0, 160), max_size=3)))


@prop(tracks, quick=40, thorough=2000, shards=(4, 8), rule='at least two runs have written records')
def runs(case, ctx):
    out = chain.run_case(case, ctx)
    if out is None:
        return
    p, snaps, _ = out
    expected = p.expected()
    if 'gap' in expected.fragile:
        return
    segs = expected.segments
    where = {b.index: k for k, seg in enumerate(segs) for b in seg}
    for i, s in enumerate(snaps):
        sides = {where[c] for c in s.burst_counters}
        ctx.equal(len(sides), 1, 'number of runs that contribute to record %d' % i)
        seg = segs[sides.pop()]
        ctx.require(seg[0].time - 1e-6 <= s.time_surf <= seg[-1].time + 1e-6,
                    'record %d has time %r, its looks are of a run from %r to %r', i, s.time_surf, seg[0].time, seg[-1].time)
    times = [s.time_surf for s in snaps]
    ctx.require(all(a < b for a, b in zip(times, times[1:])), 'records are not in order of time')
    if expected.fragile:
        ctx.label('too close to call')
        return
    want = [sum(1 for r in expected if r[0].segment is seg) for seg in segs]
    have = [0] * len(segs)
    for s in snaps:
        have[where[s.burst_counters[0]]] += 1
    ctx.equal(have, want, 'number of records of each run')
    for i, (s, (w, stack)) in enumerate(zip(snaps, expected)):
        ctx.close(s.time_surf, w.time, 'time of record %d' % i, rtol=0, atol=1e-5)
        if not stack.fragile & {'looks'}:
            ctx.equal(s.burst_counters, [b.index for b in stack.bursts], 'bursts of record %d' % i)
    ctx.mark(sum(1 for q in want if q) > 1)


def splits():
    return chain.scenarios(pulses=(4, 8), samples=(2, 4), surfaces=(176, 200), at=floats(0.49, 0.51), pause=pauses(),
                           rate=st.sampled_from([None, -25.0, 25.0]))


@prop(splits, quick=16, thorough=500, shards=(4, 8), rule='both parts are long enough to be products of their own')
def parts(case, ctx):
    """one interruption in the middle: the records are those of the two halves as products of their own"""
    if case['rate'] is not None:
        # bursts look ahead or back
        case = dict(case, inst=dict(case['inst'], freq=20e9), world=dict(case['world'], alt_rate=case['rate']))
    n = chain.product(case, ctx).n
    at = int(n * case['at'])
    bri = 1.0 / gen.chd_of(case['inst'], case['world'])['brf_sar_chd']
    whole = chain.Product(ctx.tmpdir(), case, gaps=[[at, case['pause'] * bri]])
    halves = []
    for a, b in ((0, at), (at, n)):
        cut = {k: v[a:b] for k, v in whole.made.items()}
        halves.append(chain.Product(ctx.tmpdir(), case, name='L1A_part%d' % a, n=b - a, values=cut))
    if any(chain.too_short(h) for h in halves):
        return
    status, got = whole.capture()
    want = [s for h in halves for s in h.capture()[1]]
    ctx.require(status is None, 'status %r', status)
    equal_records(ctx, got, want, '')
    ctx.mark()


def short_runs():
    """runs of a few bursts, one after the other: the last bursts of a run may see none of its surfaces"""
    def place(t):
        start, lengths, pause = t
        at = [start]
        for n in lengths:
            at.append(at[-1] + n)
        return [[a, pause] for a in at]
    return st.tuples(st.integers(1, 60), st.lists(st.integers(1, 5), max_size=8),
                     st.one_of(st.just(1.0), floats(0.51, 3.0))).map(place)


def tight():
    return chain.scenarios(pulses=(4, 8, 16), samples=(2,), surfaces=(84, 110), ratio=floats(0.8, 0.97), gaps=short_runs(),
                           rate=st.sampled_from([-25.0, 25.0, -20.0, 20.0]))


@prop(tight, quick=48, thorough=1500, shards=(4, 8), rule='at least two runs have written records')
def ends_of_runs(case, ctx):
    cnf = dict(case['cnf'], N_looks_stack_cnf=2 + case['cnf']['N_looks_stack_cnf'] % 3)
    inst = dict(case['inst'], ratio=case['ratio'], freq=20e9)
    runs.func(dict(case, inst=inst, world=dict(case['world'], jitter=0.0, alt_rate=case['rate']), cnf=cnf), ctx)
