"""C10: the stack of a surface holds its looks, in order, limited to those nearest to nadir."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib.harness import prop
from vlib import chain, gen, ref, stacks
from vlib.gen import floats

from dedop.model import PacketPid, SurfaceType
from dedop.proc.sar import algorithms

ASSUMPTIONS = ['look angle = pi/2 + Doppler angle - beam angle; pointing angle = look angle - pitch',
               'selections closer than 1e-7 rad are not judged; look angles run monotonically through the stack, as '
               'they do along a track']


def piles():
    return st.fixed_dictionaries({
        'inst': gen.instruments(pulses=(2, 4, 8, 16), samples=(1, 4)), 'world': gen.orbits(),
        'count': st.integers(1, 30), 'looks': st.integers(1, 32), 'seed': gen.seeds(), 'spread': floats(1e-4, 0.03),
        'centre': floats(-0.6, 0.6), 'rmc': st.lists(st.integers(0, 60), max_size=2), 'before': st.booleans()})


def fill(P, objs, s, bursts, case, seed, rmc=()):
    rng = np.random.RandomState(seed)
    n = len(bursts)
    steps = rng.uniform(0.2, 1.0, n).cumsum()
    steps = (steps / steps[-1] - 0.5 + case['centre']) * case['spread'] * 2
    entries = []
    for k, b in enumerate(bursts):
        size = int(rng.randint(1, P.N + 1))
        at = int(rng.randint(0, size))
        trend = 0 if size == P.N else int(rng.choice([1, -1]))
        angles = [math.pi / 2 + 0.01 * (q - at) for q in range(size)]
        angles[at] = math.pi / 2 + b.doppler - steps[k]
        beams = gen.deck(seed + k, (P.N, P.Ns))
        b.pitch = float(rng.uniform(-3e-3, 3e-3))
        b.t0 = P.t0 * float(rng.uniform(0.9, 1.1))
        p = gen.packet(objs, b, beams_focused=beams,
                       isp_pid=PacketPid.echo_rmc if k in rmc else PacketPid.echo_sar)
        p.beam_angles_list = angles
        p.beam_angles_trend = trend
        s.add_stack_beam_index(at, trend, size)
        s.add_stack_burst(p)
        entries.append((b, angles[at], beams[at], at + (P.N - size if trend == 1 else 0) - P.N // 2))
    return entries


@prop(piles, quick=300, thorough=12000, rule='more looks than the stack may hold', shards=(2, 8))
def gathering(case, ctx):
    P, objs, values, bursts = gen.setup(case['inst'], case['world'], case['count'], {'N_looks_stack_cnf': case['looks']})
    s = gen.surface(objs, ref.first_surface(P, bursts[0]), 3)
    alg = algorithms.StackGatheringAlgorithm(*objs)
    if case['before']:      # another surface went through the same object
        other = gen.surface(objs, ref.first_surface(P, bursts[0]), 2)
        fill(P, objs, other, bursts[:max(1, len(bursts) // 2)], case, case['seed'] + 5, rmc=(0,))
        alg(other)
    entries = fill(P, objs, s, bursts, case, case['seed'], case['rmc'])
    want = ref.gather(P, entries)
    alg(s)
    if want.fragile & {'looks'}:
        ctx.label('too close to call')
        return
    n = want.size
    ctx.equal(int(alg.data_stack_size), n, 'stack size')
    ctx.equal([int(b.counter) for b in alg.stack_bursts[:n]], [b.index for b in want.bursts], 'bursts of the stack')
    ctx.close(alg.beam_angles_surf[:n], want.beam_angle, 'beam angles', rtol=0, atol=1e-12)
    ctx.close(alg.doppler_angles_surf[:n], want.doppler, 'Doppler angles', rtol=0, atol=1e-12)
    ctx.close(alg.look_angles_surf[:n], want.look, 'look angles', rtol=0, atol=1e-12)
    ctx.close(alg.pointing_angles_surf[:n], want.pointing, 'pointing angles', rtol=0, atol=1e-12)
    ctx.close(alg.t0_surf[:n], [b.t0 for b in want.bursts], 't0', rtol=1e-12)
    ctx.close(alg.beams_surf[:n], want.beams, 'beams', rtol=1e-12)
    ctx.equal(alg.look_index_surf[:n].tolist(), want.look_index.tolist(), 'look indices')
    ctx.equal(alg.look_counter_surf[:n].tolist(), [b.index for b in want.bursts], 'look counters')
    for name in ('beam_angles_surf', 'doppler_angles_surf', 'look_angles_surf', 'pointing_angles_surf', 't0_surf',
                 'look_index_surf', 'look_counter_surf'):
        ctx.equal(len(getattr(alg, name)), case['looks'], 'length of ' + name)
        stacks.padding_is(ctx, getattr(alg, name), n, name, -128 if name == 'look_index_surf' else 0)
    ctx.equal(alg.beams_surf.shape, (case['looks'], P.Ns), 'shape of the beams')
    stacks.padding_is(ctx, alg.beams_surf, n, 'beams')
    if not want.fragile & {'closest'}:
        ctx.equal(int(alg.closest_burst_index), want.closest, 'look nearest to broadside')
    kept = [b.index for b in want.bursts]
    rmc = any(k in kept for k in case['rmc'])
    ctx.equal(alg.surface_type, SurfaceType.surface_rmc if rmc else SurfaceType.surface_raw, 'surface type')
    ctx.mark(case['count'] > case['looks'])
    ctx.label('limited' if case['count'] > case['looks'] else 'complete', 'rmc' if rmc else 'raw')


@prop(lambda: chain.scenarios(pulses=(4, 8, 16), **chain.holes()), quick=16, thorough=700, shards=(2, 8),
      rule='a stack was limited')
def in_the_chain(case, ctx):
    chain_of(case, ctx, chain.run_case(case, ctx))


@prop(lambda: chain.scenarios(pulses=(64,), samples=(2,), surfaces=(110, 220), looks=st.sampled_from([100, 70, 100, 40, 240]), **chain.holes()),
      quick=24, thorough=400, shards=(4, 8), rule='a stack with more than 60 looks')
def whole_instrument(case, ctx):
    """as many pulses as the real instrument has"""
    out = chain.run_case(case, ctx, cnf={'N_looks_stack_cnf': case['looks']})
    chain_of(case, ctx, out)
    if out is not None and any(s.size > 60 for s in out[1]):
        ctx.mark()


def chain_of(case, ctx, out):
    if out is None:
        return
    p, snaps, _ = out
    expected = p.expected()
    if expected.fragile:
        ctx.label('too close to call')
        return
    ctx.equal([int(s.surface_counter) for s in snaps], [w.counter for w, _ in expected],
              'surfaces with at least half a stack of looks')
    for s, (w, want) in zip(snaps, expected):
        if want.fragile & {'looks'}:
            continue
        n, what = want.size, ' of record %d' % s.surface_counter
        ctx.equal(s.size, n, 'stack size' + what)
        ctx.equal(s.burst_counters, [b.index for b in want.bursts], 'bursts' + what)
        ctx.close(s.beam_angles_surf[:n], want.beam_angle, 'beam angles' + what, rtol=0, atol=2e-7)
        ctx.close(s.doppler_angles_surf[:n], want.doppler, 'Doppler angles' + what, rtol=0, atol=1e-7)
        ctx.close(s.look_angles_surf[:n], want.look, 'look angles' + what, rtol=0, atol=2e-7)
        ctx.close(s.pointing_angles_surf[:n], want.pointing, 'pointing angles' + what, rtol=0, atol=2e-7)
        ctx.close(s.t0_surf[:n], [b.t0 for b in want.bursts], 't0' + what, rtol=1e-12)
        ctx.equal(s.look_index_surf[:n].tolist(), want.look_index.tolist(), 'look indices' + what)
        ctx.equal(s.look_counter_surf[:n].tolist(), [b.index for b in want.bursts], 'look counters' + what)
        if not want.fragile & {'closest'}:
            ctx.equal(int(s.closest_burst_index), want.closest, 'look nearest to broadside' + what)
        if not case.get('looks'):
            ctx.mark(w.all_size > p.P.looks)
