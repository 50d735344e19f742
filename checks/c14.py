"""C14: the multilooked waveform is the mean of the unmasked (antenna-weighted) looks."""
import numpy as np
from hypothesis import strategies as st

from vlib.harness import prop
from vlib import chain, gen, ref, stacks, synth
from vlib.gen import floats

from dedop.proc.sar import algorithms

ASSUMPTIONS = ['a look takes part when its mask vector is not zero; "avoid zeros" counts only unmasked samples',
               'antenna weights are interpolated linearly in the pattern and clamped at its ends',
               'start/stop values are those of the first and last look that take part; the burst indices those of the '
               'first and last burst of the stack', 'a waveform without any contributing look is not judged']


def piles():
    return stacks.cases(samples=(2, 4, 8), cnf=st.fixed_dictionaries({
        'zp_fact_range_cnf': st.integers(1, 3), 'flag_avoid_zeros_in_multilooking_cnf': st.booleans(),
        'flag_antenna_weighting_cnf': st.booleans()}),
        hide=st.integers(0, 6).flatmap(lambda i: st.lists(st.integers(0, 24), max_size=6) if i else st.just(list(range(25)))), spacing=st.sampled_from([1e-4, 1e-5, 3e-6]),
        thin=floats(0.0, 0.9), edge=st.one_of(st.none(), st.tuples(st.booleans(), floats(0.0, 3.0)).map(list)))


def check(ctx, P, got, w, looks, what, source_counts):
    n, m = w.size, P.zp * P.Ns
    wave = np.asarray(got.waveform_multilooked)
    ctx.equal(wave.shape, (m,), what + 'shape of the waveform')
    if w.n_used:
        size = float(np.nanmax(np.abs(w.waveform))) if np.isfinite(w.waveform).any() else 1.0
        ctx.close(wave, w.waveform, what + 'multilooked waveform', rtol=1e-8, atol=1e-12 * size)
    ctx.equal(int(got.n_beams_start_stop), w.n_start_stop, what + 'number of looks from the first to the last used')
    if hasattr(got, 'n_beams_multilooking'):
        ctx.equal(int(got.n_beams_multilooking), w.n_used, what + 'number of looks used')
    names = {'look': w.look, 'doppler': w.doppler, 'pointing': w.pointing, 'beam': w.beam_angle}
    for name, values in names.items():
        for end, k in (('start', w.start), ('stop', w.stop)):
            want = 0.0 if k is None else values[k]
            ctx.close(float(getattr(got, '%s_%s_angle' % (end, name))), want, what + '%s %s angle' % (end, name),
                      rtol=1e-12, atol=1e-14)
    want = (0, 0) if w.start is None else (source_counts[0], source_counts[n - 1])
    ctx.equal((int(got.start_burst_index), int(got.stop_burst_index)), want, what + 'first and last burst')
    for name, values in (('stack_mask_vector', w.mask_vector), ('beam_angles', w.beam_angle), ('look_angles', w.look)):
        a = np.asarray(getattr(got, name + '_start_stop'))
        expected = np.zeros(looks)
        if w.start is not None:
            expected[:w.n_start_stop] = values[w.start:w.stop + 1]
        ctx.close(a, expected, what + name + ' from first to last used look', rtol=1e-12, atol=1e-14)


@prop(piles, quick=500, thorough=20000, rule='looks are hidden or samples masked or weights applied', shards=(3, 8))
def multilooking(case, ctx):
    a, g = synth.antenna_pattern(case['spacing'], case['seed'] % 1000)
    if case['edge']:
        # the pattern ends among the looks
        look = stacks.build(case)[3].pointing[case['seed'] % case['size']]
        last, far = case['edge']
        move = look - (a[-1] - far * case['spacing'] if last else a[0] + far * case['spacing'])
        a = [x + move for x in a]
    chd = {'antenna_angles_chd': a, 'antenna_weights_chd': g, 'antenna_angles_spacing_chd': case['spacing']}
    P, objs, s, w, mid = stacks.build(case, chd)
    looks, n, m = len(s.stack_bursts), w.size, P.zp * P.Ns
    rng = np.random.RandomState(case['seed'])
    w.mask = (rng.rand(n, m) >= case['thin']).astype(float)
    for k in case['hide']:
        if k < n:
            w.mask[k] = 0
    w.mask_vector = ref.mask_vector(w.mask)
    w.masked = np.abs(gen.deck(case['seed'], (n, m), 3.0)) ** 2 * w.mask
    stacks.put(s, looks, stack_mask=w.mask, stack_mask_vector=w.mask_vector)
    s.beams_masked = np.array(w.masked)
    s.beams_range_compr = np.array(w.masked)
    ref.multilook(P, w)
    counts = [int(p.source_seq_count) for p in s.stack_bursts[:n]]
    alg = algorithms.MultilookingAlgorithm(*objs)
    if case['seed'] % 2:
        _, _, other, v, _ = stacks.another(case, chd)
        stacks.put(other, looks, stack_mask=np.ones((v.size, m)), stack_mask_vector=np.full(v.size, m - 1.0))
        other.beams_masked = other.beams_range_compr = np.ones((v.size, m))
        with chain.without_fits():
            alg(other)
    with chain.without_fits():
        for _ in range(2):
            alg(s)
            check(ctx, P, alg, w, looks, '', counts)
    ctx.require(np.array_equal(s.beams_masked, w.masked), 'multilooking changed the stack')
    ctx.mark(bool(np.any(w.mask == 0)) or case['cnf']['flag_antenna_weighting_cnf'])
    ctx.label('nothing left' if not w.n_used else 'some looks',
              'weighted' if case['cnf']['flag_antenna_weighting_cnf'] else 'plain',
              'avoid zeros' if case['cnf']['flag_avoid_zeros_in_multilooking_cnf'] else 'all samples')


@prop(lambda: chain.scenarios(mask=st.one_of(st.none(), st.tuples(floats(-0.4, 0.0), floats(0.0, 0.4)).map(list)),
                              **chain.holes()), quick=16, thorough=700, shards=(2, 8), rule='every case with records')
def in_the_chain(case, ctx):
    out = chain.run_case(case, ctx)
    if out is None:
        return
    p, snaps, bursts = out
    for s in snaps:
        w = s.stack(p.P, bursts)
        ref.multilook(p.P, w)
        check(ctx, p.P, s, w, p.P.looks, 'record %d: ' % s.surface_counter, [b.seq for b in w.bursts])
        ctx.mark()
    ctx.label('weighted' if p.cnf['flag_antenna_weighting_cnf'] else 'plain')
