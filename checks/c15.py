"""C15: the stack characterisation describes the Gaussian that fits the power of the looks best."""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import OptimizeWarning, curve_fit

from vlib.harness import prop
from vlib import chain, gen, ref, stacks
from vlib.gen import floats

from dedop.proc.sar import algorithms

ASSUMPTIONS = ['the power of a look is the sum of the first half of its (masked) range samples, relative to the '
               'strongest look; at most 124 looks on each side of the one closest to broadside take part',
               'peak, centre and width are those of a*exp(-(x-b)^2/c^2) fitted by least squares started at (1, 1, 1); '
               'the standard deviation is |c|/2, skewness and excess kurtosis those of the values of the curve fitted '
               'against the look number; a fit that does not converge is reported as a = b = c = 1',
               'a fit is judged only where the data determine a bell shape: perturbations of up to 1e-8 do not move it']


def curve(x, a, b, c):
    return a * np.exp(-((x - b) / c) ** 2)


def curve2(x, a, b, c):
    return a * np.exp(-(x - b) ** 2 / (c ** 2))


def fit(x, y, f=curve):
    """parameters, or None if the search fails"""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        warnings.simplefilter('error', OptimizeWarning)
        try:
            p, _ = curve_fit(f, x, y)
        except (RuntimeError, OptimizeWarning, TypeError, ValueError):
            return None
    return np.array([p[0], p[1], abs(p[2])])


def stable_fit(x, y, seed):
    """fitted parameters, or None where rounding decides"""
    ok = np.isfinite(x) & np.isfinite(y)
    x, y = np.asarray(x, float)[ok], np.asarray(y, float)[ok]
    if len(y) < 3:
        return np.ones(3)
    rng = np.random.RandomState(seed % 2 ** 32)
    best = fit(x, y)
    if len(y) < 6 or best is None or not np.isfinite(best).all():
        return None
    a, b, c = best
    span = x.max() - x.min()
    if not (0.05 < a < 20 and x.min() - span < b < x.max() + span and span / len(x) < c < 3 * span):
        return None         # not a bell shape that the data determine
    scale = np.array([a, max(abs(b), c), c])
    for e in (0, 1e-14, 1e-12, 1e-11, 1e-10, 1e-9, 1e-8):
        for f in (curve, curve2):
            p = fit(x * (1 + 1e-3 * e), y * (1 + e * rng.uniform(-1, 1, len(y))), f)
            if p is None or not np.all(np.abs(p - best) < 1e-5 * scale):
                return None
    return best


def powers(P, masked, size):
    half = P.Ns // 2 * P.zp
    total = np.array([masked[k, :half].sum() for k in range(size)])
    with np.errstate(all='ignore'):
        return total / total.max() if total.max() > 0 else np.full(size, np.nan)


def central(angles, size):
    k = int(np.argmin(np.abs(np.pi / 2 - np.asarray(angles[:size]))))
    return slice(max(0, k - 124), min(k + 124, size - 1) + 1)


def close(ctx, got, want, scale, what):
    ctx.require(abs(float(got) - want) <= 1e-3 * scale, '%s is %r, the best fit has %r', what, float(got), want)


def check(ctx, P, got, look, pointing, y, seed, what=''):
    judged = 0
    p = stable_fit(look, y, seed)
    ctx.require(not float(got.stack_std) < 0, what + 'negative standard deviation %r', got.stack_std)
    if p is not None:
        close(ctx, got.stack_max, p[0], abs(p[0]), what + 'peak of the stack')
        if hasattr(got, 'look_angle_centre'):
            close(ctx, got.look_angle_centre, p[1], max(p[2], 1e-9), what + 'look angle of the centre of the stack')
        close(ctx, got.stack_std, p[2] / 2, p[2], what + 'standard deviation of the stack')
        judged += 1
    p = stable_fit(pointing, y, seed)
    if p is not None and hasattr(got, 'pointing_angle_centre'):
        close(ctx, got.pointing_angle_centre, p[1], max(p[2], 1e-9), what + 'pointing angle of the centre')
        judged += 1
    x = np.arange(len(y))
    p = stable_fit(x, y, seed)
    if p is not None:
        v = curve(x, *p)
        dev = v - v.mean()
        var = (dev ** 2).mean()
        if var > 1e-8 * (v ** 2).max() and len(y) > 2:
            close(ctx, got.stack_skewness, (dev ** 3).mean() / var ** 1.5, 1 + abs((dev ** 3).mean() / var ** 1.5),
                  what + 'skewness of the stack')
            k = (dev ** 4).mean() / var ** 2 - 3
            close(ctx, got.stack_kurtosis, k, 1 + abs(k), what + 'kurtosis of the stack')
            judged += 1
    return judged


def piles():
    return stacks.cases(pulses=(4,), samples=(2, 4, 8), cnf=st.fixed_dictionaries({
        'zp_fact_range_cnf': st.integers(1, 2), 'flag_avoid_zeros_in_multilooking_cnf': st.booleans()}),
        size=st.one_of(st.integers(1, 6), st.integers(12, 60), st.integers(125, 300)),
        planted=st.one_of(st.none(), st.fixed_dictionaries({
            'centre': floats(0.2, 0.8), 'width': floats(0.1, 1.5), 'noise': st.sampled_from([0.0, 0.01, 0.1])})),
        mute=st.sampled_from([0, 0, 0, 1]), lost=st.lists(st.integers(0, 299), max_size=5),
        shift=floats(-0.7, 0.7))


def build(case):
    P, objs, s, w, mid = stacks.build(case)
    looks, n, m = len(s.stack_bursts), w.size, P.zp * P.Ns
    # broadside anywhere in the stack; look and pointing angles monotonic as along a track
    w.beam_angle = np.asarray(w.beam_angle) + case['shift'] * case['spread']
    rng = np.random.RandomState(case['seed'])
    w.look = np.sort(np.asarray(w.look))
    w.pointing = w.look + rng.uniform(-1e-3, 1e-3)
    w.mask = np.ones((n, m))
    masked = np.abs(gen.deck(case['seed'], (n, m), 1.0)) ** 2
    half = P.Ns // 2 * P.zp
    if case['planted']:
        lo, hi = w.look[0], w.look[-1]
        c = case['planted']['width'] * (hi - lo) + 1e-12
        b = lo + case['planted']['centre'] * (hi - lo)
        wanted = np.exp(-((w.look - b) / c) ** 2) * (1 + case['planted']['noise'] * rng.uniform(-1, 1, n))
        total = masked[:, :half].sum(axis=1)
        masked = masked * (wanted / np.where(total > 0, total, 1))[:, None]
    for k in case['lost']:
        if k < n:
            w.mask[k] = 0
    if case['mute']:
        w.mask[:] = 0
    w.masked = masked * w.mask * case['scale']
    stacks.put(s, looks, stack_mask=w.mask, stack_mask_vector=ref.mask_vector(w.mask), beam_angles_surf=w.beam_angle,
               look_angles_surf=w.look, pointing_angles_surf=w.pointing)
    s.beams_masked = np.array(w.masked)
    s.beams_range_compr = np.array(w.masked)
    return P, objs, s, w


@prop(piles, quick=260, thorough=12000, rule='at least one of the fits is well determined', shards=(4, 8))
def characterisation(case, ctx):
    P, objs, s, w = build(case)
    n = w.size
    y = powers(P, w.masked, n)
    part = central(w.beam_angle, n)
    alg = algorithms.MultilookingAlgorithm(*objs)
    alg(s)
    judged = check(ctx, P, alg, w.look[part], w.pointing[part], y[part], case['seed'])
    ctx.mark(judged > 0)
    ctx.label('%d of 3 fits judged' % judged, 'more than 125 looks' if n > 125 else 'few' if n < 7 else 'normal',
              'no power' if case['mute'] else 'power')
    if case['planted'] and not case['planted']['noise'] and 12 < n and not case['mute'] and not any(
            k < n for k in case['lost']) and case['planted']['width'] > 0.15:
        # the truth is known here, independently of how it is searched for
        span = w.look[-1] - w.look[0]
        if span > 1e-5:
            c = case['planted']['width'] * span + 1e-12
            b = w.look[0] + case['planted']['centre'] * span
            p = stable_fit(w.look[part], y[part], case['seed'])
            if p is not None and abs(p[2] - c) < 1e-2 * c:
                close(ctx, alg.stack_std, c / 2, c, 'standard deviation of a Gaussian stack')
                close(ctx, alg.look_angle_centre, b, c, 'centre of a Gaussian stack')
                ctx.label('planted truth')


@prop(lambda: chain.scenarios(pulses=(8, 16), mask=st.one_of(st.none(), st.tuples(floats(-0.4, 0.0), floats(0.0, 0.4)).map(list)),
                              **chain.holes()), quick=6, thorough=160, shards=(2, 8),
      rule='a record with a well determined fit')
def in_the_chain(case, ctx):
    out = chain.run_case(case, ctx, fits=True)
    if out is None:
        return
    p, snaps, bursts = out
    for s in snaps:
        n = s.size
        y = powers(p.P, np.asarray(s.beams_masked), n)
        part = central(np.asarray(s.beam_angles_surf), n)
        look, pointing = np.asarray(s.look_angles_surf)[:n], np.asarray(s.pointing_angles_surf)[:n]
        if check(ctx, p.P, s, look[part], pointing[part], y[part], case['world'].get('seed', 1),
                 'record %d: ' % s.surface_counter):
            ctx.mark()
