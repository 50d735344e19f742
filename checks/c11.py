"""C11: geometry corrections align every look of a stack with the surface."""
import numpy as np
from hypothesis import strategies as st

from vlib.harness import prop
from vlib import chain, gen, ref, stacks

from dedop.proc.sar import algorithms

ASSUMPTIONS = ['shift = Doppler term (if enabled) + slant range term (if enabled) + window delay term, in samples; the '
               'pulse is rotated by exp(j 2 pi shift k / samples)']


def flags():
    return st.fixed_dictionaries({'flag_doppler_range_correction_cnf': st.booleans(),
                                  'flag_slant_range_correction_cnf': st.booleans()})


def check(ctx, P, got, want, looks, what, atol):
    n = want.size
    for name, v in (('range_sat_surf', want.range), ('doppler_corrections', want.dop_cor),
                    ('slant_range_corrections', want.slant_cor), ('win_delay_corrections', want.wd_cor)):
        g = getattr(got, name)
        ctx.equal(len(g), looks, what + 'length of ' + name)
        ctx.close(g[:n], v, what + name, rtol=1e-10, atol=atol)
        stacks.padding_is(ctx, g, n, what + name)
    ctx.equal(np.shape(got.beams_geo_corr), (looks, P.Ns), what + 'shape of the aligned beams')
    size = float(np.max(np.abs(want.corrected))) if n else 1.0
    ctx.close(got.beams_geo_corr[:n], want.corrected, what + 'aligned beams', rtol=1e-6,
              atol=(1e-9 + 10 * atol) * size)
    ctx.close(np.abs(got.beams_geo_corr[:n]), np.abs(want.beams), what + 'magnitude of the aligned beams', rtol=1e-9,
              atol=1e-12 * size)
    stacks.padding_is(ctx, got.beams_geo_corr, n, what + 'aligned beams')


@prop(lambda: stacks.cases(cnf=flags()), quick=400, thorough=16000, rule='a correction is enabled', shards=(2, 8))
def corrections(case, ctx):
    P, objs, s, w, mid = stacks.build(case)
    before = np.array(s.beams_surf)
    alg = algorithms.GeometryCorrectionsAlgorithm(*objs)
    ref.geometry(P, w, mid.pos, mid.wd)
    if case['seed'] % 2:
        alg(stacks.another(case)[2], P.wl)
    for _ in range(2):
        alg(s, P.wl)
        # rounding of ranges near 1e6 m, in samples
        check(ctx, P, alg, w, len(s.stack_bursts), '', 1e-8 / P.c / P.t0 * 2 + 1e-9)
    ctx.require(np.array_equal(before, s.beams_surf), 'the corrections changed the beams they were computed from')
    ctx.mark(any(case['cnf'].values()))
    ctx.label(*[k for k, v in case['cnf'].items() if v] or ['none'])


@prop(lambda: chain.scenarios(**chain.holes()), quick=16, thorough=700, shards=(2, 8), rule='every case with records')
def in_the_chain(case, ctx):
    out = chain.run_case(case, ctx)
    if out is None:
        return
    p, snaps, bursts = out
    for s in snaps:
        w = s.stack(p.P, bursts)
        ref.geometry(p.P, w, s.pos, float(s.win_delay_surf))
        check(ctx, p.P, s, w, p.P.looks, 'record %d: ' % s.surface_counter, 4e-4 / p.P.c / p.P.t0)
        ctx.mark()
