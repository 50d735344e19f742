"""C09: azimuth processing steers the pulses of a burst to its beams."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib.harness import prop
from vlib import chain, gen, ref
from vlib.gen import floats

from dedop.proc.sar import algorithms

ASSUMPTIONS = ['pulse p is rotated by exp(-j 4 pi/lambda v cos(beam) PRI p), then a centred unitary DFT is taken over '
               'the pulses; exact: central bin for every beam, approximate: one rotation to the nadir beam',
               'Hamming .54/.46, Hanning .5/.5 windows, centred, of the configured width (at most N pulses)']


def bursts():
    return st.fixed_dictionaries({
        'inst': gen.instruments(pulses=(2, 3, 4, 8, 9, 16, 64), samples=(1, 4, 16)), 'world': gen.orbits(),
        'seed': gen.seeds(),
        'size': st.integers(0, 64), 'trend': st.sampled_from([-1, 0, 1]), 'spread': floats(0.0, 0.05),
        'method': st.sampled_from(['approx', 'exact']),
        'window': st.sampled_from(['none', 'boxcar', 'hamming', 'hanning']), 'width': st.integers(2, 64),
        'scale': st.sampled_from([1.0, 1e5])})


@prop(bursts, quick=400, thorough=16000, rule='at least two beams and a non-zero spread of beam angles', shards=(2, 8))
def focused_beams(case, ctx):
    inst = case['inst']
    n = inst['pulses']
    width = n if case['width'] >= n else case['width']
    size = min(case['size'], n)
    trend = case['trend'] if size < n else 0
    if size < n and trend == 0:
        trend = 1
    cnf = {'flag_azimuth_processing_method_cnf': case['method'],
           'flag_azimuth_windowing_method_cnf': case['window'], 'azimuth_window_width_cnf': width}
    P, objs, _, (b,) = gen.setup(inst, case['world'], 1, cnf)
    b.wave = gen.deck(case['seed'], (n, inst['samples']), case['scale'])
    angles = [math.pi / 2 + case['spread'] * (k - size / 2.3) / n for k in range(size)]
    p = gen.packet(objs, b)
    p.beam_angles_list = list(angles)
    p.beam_angles_trend = trend
    before = np.array(p.waveform_cor_sar)
    alg = algorithms.AzimuthProcessingAlgorithm(*objs)
    # other bursts went through the same object before
    other = gen.packet(objs, b, waveform_cor_sar=gen.deck(case['seed'] + 1, (n, inst['samples'])))
    other.beam_angles_list = [math.pi / 2 + 0.001 * k for k in range(n)]
    other.beam_angles_trend = 0
    alg(other, P.wl)
    first = alg.beams_focused
    snapshot = np.array(first)
    alg(p, P.wl)
    if size:
        want = ref.azimuth(P, b, b.wave, angles, trend)
        got = np.array(alg.beams_focused)
        ctx.require(got.ndim == 2 and got.shape[0] >= size, 'focused beams have shape %r for %d beams', got.shape, size)
        ctx.close(got[:size], want, 'focused beams (%s, %s)' % (case['method'], case['window']), rtol=1e-7,
                  atol=1e-8 * case['scale'] * math.sqrt(n))
    ctx.require(np.array_equal(p.waveform_cor_sar, before), 'focusing changed the waveform of the burst')
    ctx.require(np.array_equal(first, snapshot, equal_nan=True), 'focusing changed the beams of an earlier burst')
    ctx.mark(size >= 2 and case['spread'] > 0)
    ctx.label(case['method'], case['window'], 'trend %d' % trend)


def looks(spacing=1.0):
    return st.fixed_dictionaries({
        'inst': gen.instruments(pulses=(4, 8, 16, 32), samples=(4,)), 'world': gen.orbits(), 'seed': gen.seeds(),
        'beam': st.integers(0, 31), 'method': st.sampled_from(['approx', 'exact'])})


@prop(looks, quick=150, thorough=6000, rule='every case')
def point_target(case, ctx):
    """the echo of a point target focuses into the beam that points at it, with gain sqrt(N)"""
    inst = case['inst']
    n = inst['pulses']
    cnf = {'flag_azimuth_processing_method_cnf': case['method']}
    P, objs, _, (b,) = gen.setup(inst, case['world'], 1, cnf)
    # beams one resolution cell apart in Doppler: cos(angle_k) = cos(angle_0) + (k - n/2) lambda / (2 v PRI n)
    step = P.wl / (2 * b.speed * P.pri * n)
    # the azimuth angle decreases along the list of surfaces seen (later surfaces are further ahead)
    angles = [math.acos((k - n // 2) * step) for k in range(n)]
    k = case['beam'] % n
    pulse = np.arange(n)
    echo = np.exp(1j * 4 * np.pi / P.wl * b.speed * math.cos(angles[k]) * P.pri * pulse)
    b.wave = np.tile(echo[:, None], (1, inst['samples']))
    p = gen.packet(objs, b)
    p.beam_angles_list = angles
    p.beam_angles_trend = 0
    alg = algorithms.AzimuthProcessingAlgorithm(*objs)
    alg(p, P.wl)
    got = np.abs(np.array(alg.beams_focused))[:, 0]
    want = np.zeros(n)
    want[k] = math.sqrt(n)
    ctx.close(got, want, 'beam magnitudes of a point target in beam %d' % k, rtol=1e-6, atol=1e-6)
    ctx.mark()


@prop(lambda: chain.scenarios(pulses=(4, 8), **chain.holes()), quick=16, thorough=700, shards=(2, 8),
      rule='the product has a gap, unusable records or an azimuth window')
def in_the_chain(case, ctx):
    """every beam of every record is the steered beam of its burst"""
    out = chain.run_case(case, ctx)
    if out is None:
        return
    p, snaps, bursts = out
    expected = p.expected()
    if expected.fragile:
        ctx.label('too close to call')
        return
    for s, (w, stack) in zip(snaps, expected):
        if stack.fragile & {'looks'} or s.burst_counters != [b.index for b in stack.bursts]:
            continue        # another property
        size = float(np.max(np.abs(stack.beams))) if stack.size else 1.0
        ctx.close(s.beams_surf[:s.size], stack.beams, 'beams of record %d' % s.surface_counter, rtol=1e-5,
                  atol=1e-5 * size)
        ctx.mark(bool(case['gaps'] or case['invalid']) or case['cnf']['flag_azimuth_windowing_method_cnf'] != 'none')
