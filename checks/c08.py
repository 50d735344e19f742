"""C08: a burst is given the beams of exactly the surfaces inside its Doppler field of view."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib.harness import prop
from vlib import chain, gen, ref
from vlib.gen import floats

from dedop.proc.sar import algorithms

from checks import c09

ASSUMPTIONS = ['a surface is seen when its beam angle minus the Doppler angle lies within +-c/(4 PRI f v) (cosine) of '
               'the normal; of more than N seen surfaces the last N are kept; the run of seen surfaces is '
               'uninterrupted', 'decisions within 1e-7 rad of the limits are not judged']


def views():
    return st.fixed_dictionaries({
        'inst': gen.instruments(pulses=(2, 4, 6, 8, 16, 32)), 'world': gen.orbits(), 'n': st.integers(6, 80),
        'burst': floats(0.0, 1.0), 'drop': st.integers(0, 15), 'number0': st.integers(0, 1000),
        'work': st.integers(0, 60), 'finer': st.sampled_from([1, 1, 1, 2, 4]), 'tilt': st.sampled_from([0.0, 0.0, 0.002, -0.002, 0.02])})


@prop(views, quick=400, thorough=16000, rule='some but not all surfaces are seen', shards=(3, 8))
def field_of_view(case, ctx):
    inst = dict(case['inst'], ratio=0.5 + case['inst']['ratio'] / 2.1)
    P, objs, values, bursts = gen.setup(inst, case['world'], case['n'])
    if case['finer'] > 1:
        # surfaces that lie closer together than the beams of the instrument do
        F, _, values, bursts = gen.setup(dict(inst, pulses=inst['pulses'] * case['finer']), case['world'], case['n'])
        located = ref.locate(F, bursts)
    else:
        located = ref.locate(P, bursts)
    drop = min(case['drop'], len(located) - 1)
    located = located[drop:]
    surfaces = [gen.surface(objs, s, case['number0'] + k) for k, s in enumerate(located)]
    b = bursts[int(case['burst'] * (len(bursts) - 1))]
    if case['tilt']:
        # a climbing or diving satellite
        up = b.pos / np.linalg.norm(b.pos)
        b.vel = b.vel + case['tilt'] * b.speed * up
        b.speed = float(np.linalg.norm(b.vel))
        b.doppler = ref.doppler_angle(P, b.lat, b.lon, b.alt, b.vel)
    p = gen.packet(objs, b)
    work = surfaces[case['work'] % len(surfaces)]
    alg = algorithms.BeamAnglesAlgorithm(*objs)
    angles, seen, tangent, (lo, hi), _ = ref.beam_angles(P, b, np.array([s.pos for s in located]))
    if np.any(np.abs(tangent - lo) < 1e-7) or np.any(np.abs(tangent - hi) < 1e-7):
        ctx.label('too close to call')
        return
    for _ in range(2):      # the algorithm object is reused for every burst
        alg(surfaces, p, work)
        ctx.equal([int(q) for q in alg.surfaces_seen], [case['number0'] + k for k in seen], 'surfaces seen')
        ctx.close(np.array(alg.beam_angles, dtype=float), angles, 'beam angles', rtol=0, atol=3e-8)
        ctx.require(len(alg.beam_angles) <= P.N, 'more beams than pulses')
    # the working location counts as seen even where the list keeps only the last N surfaces
    all_seen = (tangent >= lo) & (tangent <= hi)
    k = surfaces.index(work)
    first = int(np.argmax(all_seen)) if all_seen.any() else None
    expected = first is not None and k >= first and bool(all_seen[first:k + 1].all())
    ctx.equal(bool(alg.work_location_seen), expected, 'the working location is seen')
    ctx.mark(0 < len(seen) < len(surfaces))
    ctx.label('%d%% of the beams' % (100 * len(seen) // P.N // 25 * 25))
    if all_seen.sum() > P.N:
        ctx.label('more surfaces in view than pulses')


def sizes():
    return st.fixed_dictionaries({'pulses': st.sampled_from([2, 4, 8, 64]),
                                  'sizes': st.lists(st.integers(0, 64), min_size=1, max_size=30),
                                  'slow': st.booleans()})


@prop(sizes, quick=200, thorough=8000, rule='the number of beams both grows and shrinks')
def trend(case, ctx):
    """the trend tells whether the number of beams grows, is full, or shrinks; it persists while the number stands"""
    n = case['pulses']
    inst = {'pulses': n, 'samples': 8, 'freq': 13.575e9, 'prf': 17825.0, 'ratio': 0.9, 'clock': 1e7,
            'pulse_length': 4.4e-5, 'bw': 3.2e8}
    P, objs, _, (b,) = gen.setup(inst, {}, 1)
    prev_size, prev = -1, -1
    sizes = [min(s, n) for s in case['sizes']]
    if case['slow']:
        sizes = [s for s in sizes for _ in range(2)]
    for s in sizes:
        p = gen.packet(objs, b)
        p.beam_angles_list = [math.pi / 2] * s
        p.calculate_beam_angles_trend(prev_size, prev)
        want = ref.trend(P, s, prev_size, prev)
        ctx.equal(p.beam_angles_trend, want, 'trend of %d beams after %d' % (s, prev_size))
        prev_size, prev = s, want
    d = np.diff(sizes) if len(sizes) > 1 else np.zeros(1)
    ctx.mark((d > 0).any() and (d < 0).any())


@prop(lambda: chain.scenarios(pulses=(4, 8, 16, 64), **chain.holes()), quick=16, thorough=700, shards=(2, 8),
      rule='every case with records')
def in_the_chain(case, ctx):
    """each record's stack holds exactly the bursts of its run that see the surface, with their beam angles"""
    # a stack that holds every look
    looks = int(math.ceil(case['inst']['pulses'] / case['inst']['ratio'])) + 3
    out = chain.run_case(case, ctx, cnf={'N_looks_stack_cnf': looks})
    if out is None:
        return
    p, snaps, bursts = out
    P = p.P
    segs = ref.segments(P, [bursts[i] for i in ref.selected(P, p.values)])
    ctx.label('%d segments' % len(segs))
    if not snaps:
        check_none(ctx, p)
        return
    expected = p.expected()
    if expected.fragile:
        ctx.label('too close to call')
        return
    ctx.equal(len(snaps), len(expected), 'number of records')
    for s, (w, stack) in zip(snaps, expected):
        ctx.equal(s.burst_counters, [b.index for b in stack.bursts], 'bursts of record %d' % s.surface_counter)
        ctx.close(s.beam_angles_surf[:s.size], stack.beam_angle, 'beam angles of record %d' % s.surface_counter,
                  rtol=0, atol=2e-7)
        ctx.equal(s.look_index_surf[:s.size].tolist(), stack.look_index.tolist(), 'look indices of record %d' % s.surface_counter)
        ctx.mark()


@prop(lambda: chain.scenarios(pulses=(4, 8), cnf=chain.options().map(lambda c: dict(c, flag_azimuth_processing_method_cnf='approx')), **chain.holes()), quick=10, thorough=400, shards=(2, 8),
      rule='records of bursts with growing, full and shrinking numbers of beams')
def nadir_beam(case, ctx):
    """the beam taken for nadir: the one the beams of a burst are steered around"""
    c09.in_the_chain.func(case, ctx)


def check_none(ctx, p):
    expected = p.expected()
    if not expected.fragile:
        ctx.equal(0, len(expected), 'number of records')
