"""C05: CAL1 and CAL2 apply exactly the calibration of the burst, once, and only when enabled."""
import numpy as np
from hypothesis import strategies as st

from vlib.harness import prop
from vlib import chain, gen, ref
from vlib.gen import floats

from dedop.proc.sar.cal import CAL1Algorithm, CAL2Algorithm

ASSUMPTIONS = ['CAL1: pulse p is multiplied by sqrt(power[p]) exp(j phase[p]) 10^(-(agc-sig0_cal)/20)',
               'CAL2: the centred range spectrum is divided by sqrt(gprw)']


def bursts():
    return st.fixed_dictionaries({
        'pulses': st.sampled_from([1, 2, 3, 8, 64]), 'samples': st.sampled_from([1, 2, 7, 16, 128]),
        'seed': gen.seeds(), 'scale': st.sampled_from([1e-6, 1.0, 1e4]), 'agc': floats(0, 63), 'sig0': floats(-40, 63),
        'steps': st.lists(st.sampled_from(['cal1', 'cal2']), min_size=1, max_size=3),
        'cal1': st.booleans(), 'cal2': st.booleans(), 'spread': floats(0.0, 3.0)})


@prop(bursts, quick=500, thorough=20000, rule='an enabled calibration was applied', shards=(1, 8))
def calibration(case, ctx):
    n, m = case['pulses'], case['samples']
    inst = {'pulses': n, 'samples': m, 'freq': 13.575e9, 'prf': 17825.0, 'ratio': 0.9, 'clock': 1e7,
            'pulse_length': 4.4e-5, 'bw': 3.2e8}
    cnf = {'flag_cal1_corrections_cnf': case['cal1'], 'flag_cal2_correction_cnf': case['cal2']}
    P, objs, _, (b,) = gen.setup(inst, {'seed': case['seed']}, 1, cnf)
    rng = np.random.RandomState(case['seed'])
    b.wave = gen.deck(case['seed'], (n, m), case['scale'])
    b.cal1_power = 10.0 ** (case['spread'] * rng.uniform(-1, 1, n))
    b.cal1_phase = case['spread'] * rng.uniform(-np.pi, np.pi, n)
    b.cal2 = 10.0 ** (case['spread'] * rng.uniform(-1, 1, m))
    b.agc, b.sig0 = case['agc'], case['sig0']
    p = gen.packet(objs, b)
    keep = {k: np.array(getattr(p, k)) for k in ('cal1_power', 'cal1_phase', 'cal2_array')}
    algs = {'cal1': CAL1Algorithm(*objs), 'cal2': CAL2Algorithm(*objs)}
    want = b.wave
    for step in case['steps']:
        algs[step](p)
        want = ref.cal1(P, b, want) if step == 'cal1' else ref.cal2(P, b, want)
        size = float(np.max(np.abs(want)))
        ctx.close(p.waveform_cor_sar, want, 'waveform after ' + step, rtol=1e-9, atol=1e-11 * size)
        ctx.mark(case[step])
    if not any(case[s] for s in case['steps']):
        ctx.require(np.array_equal(p.waveform_cor_sar, b.wave), 'a disabled calibration changed the waveform')
    for k, v in keep.items():
        ctx.require(np.array_equal(getattr(p, k), v), 'calibrating changed %s', k)
    ctx.close([p.agc_ku, p.sig0_cal_ku], [b.agc, b.sig0], 'gains', rtol=0)
    ctx.label('cal1' if case['cal1'] else '-', 'cal2' if case['cal2'] else '-')


@prop(lambda: chain.scenarios(**chain.holes()), quick=20, thorough=800, shards=(2, 8),
      rule='a calibration is enabled and the product has a gap or unusable records')
def in_the_chain(case, ctx):
    """every burst that contributes to a record has been calibrated once, with its own tables"""
    out = chain.run_case(case, ctx)
    if out is None:
        return
    p, snaps, bursts = out
    done = {}
    for s in snaps:
        for c, w in zip(s.burst_counters, s.burst_waves):
            if c not in done:
                b = bursts[c]
                want = ref.cal2(p.P, b, ref.cal1(p.P, b, b.wave))
                done[c] = (want, float(np.max(np.abs(want))))
            want, size = done[c]
            ctx.close(w, want, 'waveform of burst %d in record %d' % (c, s.surface_counter), rtol=1e-8,
                      atol=1e-10 * size)
    ctx.mark(bool(done) and (p.cnf['flag_cal1_corrections_cnf'] or p.cnf['flag_cal2_correction_cnf'])
             and bool(case['gaps'] or case['invalid']))
