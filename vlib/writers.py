"""Generated records for the output writers."""
import os

import numpy as np
from hypothesis import strategies as st

from . import gen, outputs, stacks
from .gen import floats


def cases():
    return st.fixed_dictionaries({
        'inst': gen.instruments(pulses=(4,), samples=(2, 4, 8)), 'world': gen.orbits(), 'seed': gen.seeds(),
        'looks': st.integers(1, 12), 'sizes': st.lists(st.integers(1, 12), min_size=1, max_size=5),
        'zp': st.integers(1, 3), 'scale': st.sampled_from([1e-3, 1.0, 1e6]), 'spread': floats(1e-4, 0.02),
        'extreme': st.booleans(), 'lost': st.booleans(), 'zeros': st.sampled_from([0.0, 0.0, 0.1, 0.5])})


def fill(rng, s, m, n, looks, case):
    """random content for everything a writer may want; returns that of the closest burst"""
    b = {}
    u, big = rng.uniform, case['extreme']
    k = 1.0 if big else 0.1
    for name, hi in (('isp_coarse_time', 2 ** 32 - 2), ('isp_fine_time', 2 ** 31 - 2), ('sral_fine_time', 2 ** 32 - 2),
                     ('h0_nav_dem', 2 ** 32 - 2), ('h0_applied', 2 ** 32 - 2), ('source_seq_count', 65534)):
        b[name] = int(rng.randint(0, (hi if big else hi // 1000) + 1, dtype=np.int64))
    for name, hi in (('cor2_nav_dem', 32760), ('cor2_applied', 32760), ('dh0', 2 ** 31 - 2)):
        b[name] = int(rng.randint(-hi, hi, dtype=np.int64))
    for name, hi in (('flag_time_status', 1), ('nav_bul_status', 1), ('nav_bul_source', 1), ('oper_instr', 1),
                     ('SAR_mode', 2), ('cl_gain', 1), ('acq_stat', 1), ('dem_eeprom', 1), ('loss_track', 1),
                     ('surf_type', 3), ('agccode_ku', 63)):
        b[name] = int(rng.randint(0, hi + 1))
    for name, w in (('uso_cor', 100), ('int_path_cor_ku', 100), ('sig0_cal_ku', 80), ('cog_cor', 3),
                    ('roll_sral_mispointing', 3), ('pitch_sral_mispointing', 3), ('yaw_sral_mispointing', 3)):
        b[name] = float(u(-w, w) * k)
    b['agc_ku'] = float(u(0, 63))
    s.roll_sat, s.pitch_sat, s.yaw_sat = (float(x) for x in u(-0.05, 0.05, 3) * k)
    s.lat_surf, s.lon_surf = float(u(-1.57, 1.57)), float(u(-3.14, 3.14))
    s.alt_rate_sat = float(u(-300, 300) * k)
    s.sigma0_scaling_factor = float(u(-300, 300))
    per = np.zeros(looks)
    per[:n] = u(-300, 300, n)
    s.sigma0_scaling_factor_beam = per
    s.stack_max, s.stack_std = float(u(0, 2)), float(u(0, 0.02) if rng.rand() < 0.9 else u(0, 4000))
    s.stack_skewness, s.stack_kurtosis = float(u(-20, 20)), float(u(-3, 100))
    used = n
    first = 0
    if case['lost'] and n > 2:
        first = int(rng.randint(0, n - 1))
        used = int(rng.randint(1, n - first + 1))
    s.n_beams_start_stop = used
    last = first + used - 1
    for angle, values in (('look', s.look_angles_surf), ('beam', s.beam_angles_surf), ('doppler', s.doppler_angles_surf),
                          ('pointing', s.pointing_angles_surf)):
        setattr(s, 'start_%s_angle' % angle, float(values[first]))
        setattr(s, 'stop_%s_angle' % angle, float(values[last]))
    for name, values in (('stack_mask_vector', rng.randint(0, m, looks).astype(float)),
                         ('beam_angles', s.beam_angles_surf), ('look_angles', s.look_angles_surf)):
        part = np.zeros(looks)
        part[:used] = np.asarray(values)[first:last + 1]
        setattr(s, name + '_start_stop', part)
    s.start_burst_index, s.stop_burst_index = int(rng.randint(0, 16384)), int(rng.randint(0, 16384))
    s.waveform_multilooked = u(0, 1, m) ** 2 * case['scale'] * 3
    s.beams_range_compr_iq = gen.deck(int(rng.randint(0, 2 ** 31 - 1)), (n, m), case['scale'])
    s.beams_range_compr = np.abs(s.beams_range_compr_iq) ** 2
    s.beams_masked = np.array(s.beams_range_compr)
    share = case.get('zeros')
    if share:
        # values that happen to be zero
        for name in b:
            if rng.rand() < share:
                b[name] = type(b[name])(0)
        for name in ('roll_sat', 'pitch_sat', 'yaw_sat', 'lat_surf', 'lon_surf', 'alt_rate_sat', 'sigma0_scaling_factor', 'stack_max', 'stack_std',
                     'stack_skewness', 'stack_kurtosis', 'start_look_angle', 'stop_look_angle'):
            if rng.rand() < share:
                setattr(s, name, 0.0)
        s.waveform_multilooked[1:][rng.rand(m - 1) < share] = 0
        s.waveform_multilooked[0] += case['scale']
        s.sigma0_scaling_factor_beam[rng.rand(looks) < share] = 0
        s.look_angles_start_stop[rng.rand(looks) < share] = 0
        s.beams_range_compr_iq[:, 1:][rng.rand(n, m - 1) < share] = 0
    return b


def surfaces(case):
    """[(surface, closest burst)], the configuration objects and the parameters"""
    out = []
    for i, want in enumerate(case['sizes']):
        n = min(want, case['looks'])
        one = dict(case, size=n, spare=case['looks'] - n, seed=case['seed'] + i, wd_spread=1.0,
                   cnf={'zp_fact_range_cnf': case['zp']})
        if case.get('utcs'):
            one['utc'] = case['utcs'][i]
        P, objs, s, w, mid = stacks.build(one)
        rng = np.random.RandomState((case['seed'] + 7919 * i) % 2 ** 32)
        m = P.zp * P.Ns
        k = s.closest_burst_index
        b = gen.packet(objs, w.bursts[k], **fill(rng, s, m, n, case['looks'], case))
        s.stack_bursts[k] = b
        out.append((s, b))
    return out, objs, P


def write(case, ctx, cls):
    made, objs, P = surfaces(case)
    chd, cst, cnf = objs
    path = os.path.join(ctx.tmpdir(), 'sub', 'out.nc')
    w = cls(chd=chd, cnf=cnf, cst=cst, filename=path)
    w.open()
    for s, _ in made:
        w.write_record(s)
    w.close()
    return cst.c, made, outputs.File(path), P
