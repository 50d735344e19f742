"""C13: the stack mask removes exactly the samples wrapped around by the alignment and the looks outside the limits."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib.harness import prop
from vlib import chain, gen, ref, stacks
from vlib.gen import floats

from dedop.proc.sar import algorithms

ASSUMPTIONS = ['a look shifted by +c samples loses its first c, one shifted by -c its last c (times zero padding); '
               'shifts within 1e-6 of half a sample are not judged',
               'mask vector: index of the first masked trailing sample, the last index if there is none, 0 if '
               'everything is masked']


def masks():
    return stacks.cases(
        samples=(2, 4, 8, 16), cnf=st.fixed_dictionaries({'zp_fact_range_cnf': st.integers(1, 4),
                                                           'flag_stack_masking_cnf': st.sampled_from([True, True, True, False])}),
        reach=st.sampled_from([0.3, 3.0, 20.0, 200.0]), whole=st.booleans(),
        limits=st.one_of(st.none(), st.tuples(floats(-1.0, 0.6), floats(-0.6, 1.0)).map(list),
                         st.sampled_from([[-0.3, None], [None, 0.3]])))


def wide_masks():
    return stacks.cases(samples=(100, 128), cnf=st.fixed_dictionaries({'zp_fact_range_cnf': st.integers(2, 4), 'flag_stack_masking_cnf': st.just(True)}),
                        reach=st.sampled_from([3.0, 20.0, 60.0, 200.0]), whole=st.booleans(), limits=st.integers(0, 3).flatmap(
                            lambda i: st.none() if i else st.tuples(floats(-1.0, 0.1), floats(-0.1, 1.0)).map(list)))


def check(ctx, P, got, w, looks, what):
    n, m = w.size, P.zp * P.Ns
    mask, vector, masked = np.asarray(got.stack_mask), np.asarray(got.stack_mask_vector), np.asarray(got.beams_masked)
    ctx.equal(mask.shape, (looks, m), what + 'shape of the mask')
    ctx.equal(vector.shape, (looks,), what + 'shape of the mask vector')
    ctx.require(masked.ndim == 2 and masked.shape[0] >= n and masked.shape[1] == m, what + 'masked stack %r', masked.shape)
    ctx.close(mask[:n], w.mask, what + 'mask', rtol=0)
    ctx.close(vector[:n], w.mask_vector, what + 'mask vector', rtol=0)
    size = float(np.max(np.abs(w.power))) if w.power.size else 1.0
    ctx.close(masked[:n], w.masked, what + 'masked stack', rtol=1e-12, atol=1e-14 * size)


@prop(masks, quick=500, thorough=20000, rule='some samples of a look are masked and some are not', shards=(2, 8))
def masking(case, ctx):
    chd = {}
    if case['limits']:
        for key, v in zip(('look_angle_mask_min_chd', 'look_angle_mask_max_chd'), case['limits']):
            if v is not None:
                chd[key] = v
    P, objs, s, w, mid = stacks.build(case, chd)
    looks = len(s.stack_bursts)
    rng = np.random.RandomState(case['seed'])
    shift = case['reach'] * rng.uniform(-1, 1, (3, w.size))
    if case['whole']:
        shift = np.round(shift)
    total = shift.sum(axis=0)
    near = np.abs(np.abs(total - np.floor(total)) - 0.5) < 1e-6
    shift[0, near] += 0.1
    w.dop_cor, w.slant_cor, w.wd_cor = shift
    w.shift = shift.sum(axis=0)
    w.power = np.abs(gen.deck(case['seed'], (w.size, P.zp * P.Ns))) ** 2 + 0.5
    stacks.put(s, looks, doppler_corrections=w.dop_cor, slant_range_corrections=w.slant_cor,
               win_delay_corrections=w.wd_cor)
    s.beams_range_compr = np.array(w.power)
    ref.mask(P, w)
    if w.fragile & {'mask'} and np.any([abs(x - math.radians(v)) < 1e-7 for v in chd.values() for x in w.look]):
        ctx.label('too close to call')
        return
    alg = algorithms.StackMaskingAlgorithm(*objs)
    if case['seed'] % 2:
        Q, _, other, v, there = stacks.another(case, chd)
        stacks.geometry(Q, other, v, there)
        other.beams_range_compr = np.ones((v.size, P.zp * P.Ns))
        alg(other)
    for _ in range(2):
        alg(s)
        check(ctx, P, alg, w, looks, '')
    ctx.require(np.array_equal(s.beams_range_compr, w.power), 'masking changed the unmasked stack')
    ctx.mark(bool(np.any(w.mask == 0) and np.any(w.mask == 1)))
    ctx.label('masking' if P.cnf['flag_stack_masking_cnf'] else 'disabled',
              'limits' if len(chd) == 2 else 'no limits', 'everything masked' if not w.mask.any() else 'some left')


@prop(wide_masks, quick=80, thorough=3000, rule='some samples of a look are masked and some are not', shards=(2, 8))
def wide(case, ctx):
    """as many samples as the real instrument has"""
    masking.func(case, ctx)


@prop(lambda: chain.scenarios(mask=st.one_of(st.none(), st.tuples(floats(-0.4, 0.0), floats(0.0, 0.4)).map(list)),
                              **chain.holes()), quick=16, thorough=700, shards=(2, 8), rule='masking is enabled')
def in_the_chain(case, ctx):
    out = chain.run_case(case, ctx)
    if out is None:
        return
    p, snaps, bursts = out
    for s in snaps:
        w = s.stack(p.P, bursts)
        ref.mask(p.P, w)
        near = np.abs(np.abs(w.shift - np.floor(w.shift)) - 0.5) < 1e-9
        limits = [math.radians(v) for v in (case['mask'] or ())]
        if near.any() or any(np.any(np.abs(w.look - v) < 1e-9) for v in limits):
            continue
        check(ctx, p.P, s, w, p.P.looks, 'record %d: ' % s.surface_counter)
        ctx.mark(p.cnf['flag_stack_masking_cnf'])
    ctx.label('masking' if p.cnf['flag_stack_masking_cnf'] else 'disabled', 'limits' if case['mask'] else 'no limits')
