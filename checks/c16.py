"""C16: the sigma-0 scaling factor is the radar equation of the stack."""
import numpy as np
from hypothesis import strategies as st

from vlib.harness import prop
from vlib import chain, gen, ref, stacks
from vlib.gen import floats

from dedop.proc.sar import algorithms

ASSUMPTIONS = ['-(10 log 64 + 30 log pi - 10 log Ptx - 2 G - 20 log lambda + ratio + 10 log N + 40 log R - '
               '10 log(0.886 azimuth x range extent) - AGC of the look nearest to broadside), averaged over the looks']


def instruments():
    return stacks.cases(samples=(2,), chd=st.fixed_dictionaries({
        'power_tx_ant_ku_chd': floats(0.1, 100.0), 'antenna_gain_ku_chd': floats(10.0, 60.0),
        'ptr_width_chd': floats(1e-10, 1e-7), 'ratio_trc_ku_chd': floats(-20.0, 20.0)}), size=st.integers(0, 15).flatmap(lambda i: st.integers(1, 24) if i else st.integers(25, 300)), factor=floats(0.1, 10.0))


@prop(instruments, quick=400, thorough=16000, rule='at least two looks', shards=(1, 8))
def radar_equation(case, ctx):
    P, objs, s, w, mid = stacks.build(case, case['chd'])
    stacks.geometry(P, s, w, mid)
    wl = P.wl * case['factor']
    ref.sigma0(P, w, wl)
    alg = algorithms.Sigma0ScalingFactorAlgorithm(*objs)
    chirp = case['inst']['bw'] / case['inst']['pulse_length']
    if case['seed'] % 2:
        Q, _, other, v, there = stacks.another(case, case['chd'])
        stacks.geometry(Q, other, v, there)
        alg(other, wl, chirp)
    for _ in range(2):
        got = alg(s, wl, chirp)
        ctx.close(float(got), w.sigma0, 'sigma-0 scaling factor', rtol=1e-9, atol=1e-8)
        ctx.close(np.asarray(alg.sigma0_scaling_factor_beam)[:w.size], w.sigma0_beam, 'scaling factors of the looks', rtol=1e-9,
                  atol=1e-8)
    ctx.mark(w.size >= 2)


@prop(lambda: chain.scenarios(**chain.holes()), quick=16, thorough=700, shards=(2, 8), rule='every case with records')
def in_the_chain(case, ctx):
    out = chain.run_case(case, ctx)
    if out is None:
        return
    p, snaps, bursts = out
    for s in snaps:
        w = s.stack(p.P, bursts)
        ref.sigma0(p.P, w)
        what = ' of record %d' % s.surface_counter
        ctx.close(float(s.sigma0_scaling_factor), w.sigma0, 'sigma-0 scaling factor' + what, rtol=1e-9, atol=1e-7)
        ctx.close(np.asarray(s.sigma0_scaling_factor_beam)[:s.size], w.sigma0_beam, 'scaling factors of the looks' + what, rtol=1e-9,
                  atol=1e-7)
        ctx.mark()
