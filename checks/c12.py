"""C12: range compression is the centred, zero-padded, energy-preserving spectrum of each aligned look."""
import numpy as np
from hypothesis import strategies as st

from vlib.harness import prop
from vlib import chain, gen, ref, stacks

from dedop.proc.sar import algorithms

ASSUMPTIONS = ['unitary DFT over zero-padding factor x samples bins, zero frequency in the middle; power = |.|^2']


def check(ctx, P, iq, power, w, what, rtol=1e-9):
    iq, power = np.asarray(iq), np.asarray(power)
    n, m = w.size, P.zp * P.Ns
    ctx.equal(iq.shape, (n, m), what + 'shape of the complex stack')
    ctx.equal(power.shape, (n, m), what + 'shape of the power stack')
    size = float(np.max(np.abs(w.iq))) if n else 1.0
    ctx.close(iq, w.iq, what + 'compressed looks', rtol=rtol, atol=1e-11 * size)
    ctx.close(power, w.power, what + 'power', rtol=rtol, atol=1e-11 * size ** 2)
    # nothing is lost or created: energy of the spectrum = energy of the pulse
    ctx.close(power.sum(axis=1), (np.abs(w.corrected) ** 2).sum(axis=1), what + 'energy of the looks', rtol=1e-9,
              atol=1e-11 * size ** 2)


@prop(lambda: stacks.cases(samples=(1, 2, 3, 8, 16, 32, 128), cnf=st.fixed_dictionaries(
    {'zp_fact_range_cnf': st.integers(1, 8)})), quick=400, thorough=16000, rule='zero padding is used', shards=(2, 8))
def compression(case, ctx):
    P, objs, s, w, mid = stacks.build(case)
    stacks.geometry(P, s, w, mid)
    ref.compress(P, w)
    before = np.array(s.beams_geo_corr)
    alg = algorithms.RangeCompressionAlgorithm(*objs)
    if case['seed'] % 2:
        Q, _, other, v, there = stacks.another(case)
        stacks.geometry(Q, other, v, there)
        alg(other)
    for _ in range(2):
        alg(s)
        check(ctx, P, alg.beam_range_compr_iq, alg.beam_range_compr, w, '')
    ctx.require(np.array_equal(before, s.beams_geo_corr), 'compression changed the looks it works on')
    ctx.mark(P.zp > 1)
    ctx.label('zero padding %d' % P.zp)


def tones():
    return st.fixed_dictionaries({'samples': st.sampled_from([2, 4, 8, 16, 31, 64, 128]), 'bin': st.integers(0, 127),
                                  'zp': st.integers(1, 4), 'amp': gen.floats(0.1, 1e3)})


@prop(tones, quick=150, thorough=5000, rule='every case')
def tone(case, ctx):
    """a pure tone of k cycles per pulse peaks at sample (k + samples/2) x zero padding"""
    m = case['samples']
    k = case['bin'] % m
    inst = {'pulses': 4, 'samples': m, 'freq': 13.575e9, 'prf': 17825.0, 'ratio': 0.9, 'clock': 1e7,
            'pulse_length': 4.4e-5, 'bw': 3.2e8}
    P, objs, s, w, mid = stacks.build({'inst': inst, 'world': {}, 'seed': 4, 'size': 1, 'spare': 0, 'scale': 1.0,
                                       'spread': 0.01, 'wd_spread': 0.0, 'cnf': {'zp_fact_range_cnf': case['zp']}})
    pulse = case['amp'] * np.exp(2j * np.pi * k * np.arange(m) / m)
    stacks.put(s, 1, beams_geo_corr=pulse[None, :])
    alg = algorithms.RangeCompressionAlgorithm(*objs)
    alg(s)
    total = m * case['zp']
    want = (total // 2 + k * case['zp']) % total
    got = np.asarray(alg.beam_range_compr)[0]
    ctx.equal(int(np.argmax(got)), want, 'peak of a tone of %d cycles' % k)
    ctx.close(got[want], case['amp'] ** 2 * m / case['zp'], 'power of the peak', rtol=1e-9)
    ctx.mark()


@prop(lambda: chain.scenarios(**chain.holes()), quick=16, thorough=700, shards=(2, 8), rule='every case with records')
def in_the_chain(case, ctx):
    out = chain.run_case(case, ctx)
    if out is None:
        return
    p, snaps, bursts = out
    for s in snaps:
        w = s.stack(p.P, bursts)
        iq, power = w.iq, w.power
        ref.compress(p.P, w)
        check(ctx, p.P, iq, power, w, 'record %d: ' % s.surface_counter)
        ctx.mark()
