"""Synthetic worlds: auxiliary files, orbits, bursts, L1A products.

Everything here is built from plain numbers (a `world` dict, JSON-able), so a case
can be replayed from its JSON form alone.
"""
import json
import math
import os

import numpy as np

C = 299792458.0
PI = math.pi

CST = {
    'semi_major_axis_cst': 6378137.0,
    'semi_minor_axis_cst': 6356752.3142,
    'flat_coeff_cst': 0.00335281067183084,
    'earth_radius_cst': 6378137.0,
    'pi_cst': 3.141592653589793,
    'c_cst': C,
    'sec_in_day_cst': 86400,
}

CHD = {
    'mean_sat_alt_chd': 814.5e3,
    'N_samples_sar_chd': 128,
    'N_ku_pulses_burst_chd': 64,
    'freq_ku_chd': 13575000000.0,
    'pulse_length_chd': 4.48e-5,
    'bw_ku_chd': 320000000.0,
    'power_tx_ant_ku_chd': 8.4510,
    'antenna_gain_ku_chd': 42.0,
    'uso_freq_nom_chd': 10e6,
    'alt_freq_multiplier_chd': 32,
    'prf_sar_chd': 17825.311,
    'brf_sar_chd': 78.53069,
    'antenna_angles_spacing_chd': 0.0001,
    'ptr_width_chd': 2.819e-9,
    'fft_step_freq_ku_chd': 2.5e6,
    'ratio_trc_ku_chd': 0.0,
}

CNF = {
    'flag_cal2_correction_cnf': False,
    'flag_uso_correction_cnf': False,
    'flag_cal2_table_index_cnf': 0,
    'flag_cal1_corrections_cnf': False,
    'flag_cal1_intraburst_corrections_cnf': False,
    'flag_surface_focusing_cnf': False,
    'surface_focusing_lat_cnf': 0.0,
    'surface_focusing_lon_cnf': 0.0,
    'surface_focusing_alt_cnf': 0.0,
    'flag_azimuth_processing_method_cnf': 'approx',
    'flag_postphase_azimuth_processing_cnf': False,
    'flag_azimuth_windowing_method_cnf': 'none',
    'azimuth_window_width_cnf': 64,
    'flag_doppler_range_correction_cnf': True,
    'flag_slant_range_correction_cnf': True,
    'flag_window_delay_alignment_method_cnf': 0,
    'flag_stack_masking_cnf': True,
    'flag_avoid_zeros_in_multilooking_cnf': False,
    'flag_surface_weighting_cnf': False,
    'flag_antenna_weighting_cnf': False,
    'zp_fact_range_cnf': 1,
    'N_looks_stack_cnf': 300,
}


def antenna_pattern(spacing, seed=0):
    """250 angles centred on zero and smooth positive weights with a slope"""
    angles = (np.arange(250) - 125) * spacing
    rng = np.random.RandomState(seed)
    centre = rng.uniform(-40, 40) * spacing
    width = rng.uniform(20, 200) * spacing
    weights = 0.05 + np.exp(-(angles - centre) ** 2 / (2 * width ** 2)) + 0.3 * rng.rand(250)
    return angles.tolist(), weights.tolist()


def chd_params(over=None):
    p = dict(CHD)
    p.update(over or {})
    if 'antenna_angles_chd' not in p:
        a, w = antenna_pattern(p['antenna_angles_spacing_chd'], 3)
        p['antenna_angles_chd'] = a
        p['antenna_weights_chd'] = w
    return p


def cnf_params(over=None):
    p = dict(CNF)
    p.update(over or {})
    return {k: v for k, v in p.items() if v != '__absent__'}


def cst_params(over=None):
    p = dict(CST)
    p.update(over or {})
    return p


def conf(chd=None, cnf=None, cst=None):
    """the three configuration objects, from keyword values"""
    from dedop.conf import ConstantsFile, CharacterisationFile, ConfigurationFile
    k = ConstantsFile(**cst_params(cst))
    h = CharacterisationFile(k, **chd_params(chd))
    cp = cnf_params(cnf)
    return h, k, ConfigurationFile(**cp)


def write_aux(path, params, version):
    doc = {'__metainf__': {'version': version, 'description': 'generated', 'changelog': []}}
    for name, value in params.items():
        doc[name] = {'value': value, 'units': None, 'description': name}
    with open(path, 'w') as f:
        json.dump(doc, f)


def write_config(directory, chd=None, cnf=None, cst=None):
    os.makedirs(directory, exist_ok=True)
    paths = {k: os.path.join(directory, k.upper() + '.json') for k in ('chd', 'cnf', 'cst')}
    write_aux(paths['cst'], cst_params(cst), 0)
    write_aux(paths['chd'], chd_params(chd), 1)
    write_aux(paths['cnf'], cnf_params(cnf), 3)
    return paths


# ---------------------------------------------------------------------------------------------------- geodesy

A = CST['semi_major_axis_cst']
B = CST['semi_minor_axis_cst']


def lla2ecef(lat, lon, alt, a=A, b=B):
    e2 = 1.0 - (b / a) ** 2
    n = a / np.sqrt(1.0 - e2 * np.sin(lat) ** 2)
    return np.array([(n + alt) * np.cos(lat) * np.cos(lon), (n + alt) * np.cos(lat) * np.sin(lon),
                     (n * (1.0 - e2) + alt) * np.sin(lat)])


def ecef2lla(x, y, z, a=A, b=B):
    """Newton iteration on the reduced latitude (independent of the closed form used by dedop)"""
    x, y, z = (np.asarray(v, dtype=np.float64) for v in (x, y, z))
    p = np.hypot(x, y)
    e2 = 1.0 - (b / a) ** 2
    lat = np.arctan2(z, p * (1 - e2))
    for _ in range(30):
        n = a / np.sqrt(1.0 - e2 * np.sin(lat) ** 2)
        lat = np.arctan2(z + e2 * n * np.sin(lat), p)
    n = a / np.sqrt(1.0 - e2 * np.sin(lat) ** 2)
    # altitude without the singularity at the poles
    alt = p * np.cos(lat) + z * np.sin(lat) - a * np.sqrt(1.0 - e2 * np.sin(lat) ** 2)
    return lat, np.arctan2(y, x), alt


# ---------------------------------------------------------------------------------------------------- orbit

def orbit(world, t):
    """position, velocity (ECEF), at times t (s, relative); circular orbit with a slow radial term"""
    h = world.get('alt', 814500.0)
    r0 = 6371000.0 + h
    mu = 3.986004418e14
    omega = math.sqrt(mu / r0 ** 3) * world.get('speed', 1.0)
    inc = world.get('inc', 1.72)
    node = world.get('node', 0.3)
    th0 = world.get('theta', 0.6)
    vz = world.get('alt_rate', 0.0)
    t = np.asarray(t, dtype=np.float64)
    th = th0 + omega * t
    r = r0 + vz * t
    u = np.array([math.cos(node), math.sin(node), 0.0])
    w = np.array([-math.sin(node) * math.cos(inc), math.cos(node) * math.cos(inc), math.sin(inc)])
    e_r = np.cos(th)[:, None] * u + np.sin(th)[:, None] * w
    e_t = -np.sin(th)[:, None] * u + np.cos(th)[:, None] * w
    pos = r[:, None] * e_r
    vel = vz * e_r + (r * omega)[:, None] * e_t
    return pos, vel


def speed_of(world):
    h = world.get('alt', 814500.0)
    r0 = 6371000.0 + h
    return math.sqrt(3.986004418e14 / r0) * world.get('speed', 1.0)


# ---------------------------------------------------------------------------------------------------- L1A product

T = 'time_l1a_echo_sar_ku'
PULSE = 'sar_ku_pulse_burst_ind'
CPULSE = 'sar_c_pulse_burst_ind'
SAMPLE = 'echo_sample_ind'
LTM = 'ltm_max_ind'
S = '_l1a_echo_sar_ku'

# name (without suffix), dtype, dims, scale, offset, fill
L1A_VARS = [
    ('UTC_day', 'i2', (T,), None, None, 32767),
    ('UTC_sec', 'f8', (T,), None, None, 1.84467440737096e+19),
    ('UTC_time_20hz', 'f8', (T,), None, None, None),
    ('isp_coarse_time', 'u4', (T,), None, None, 4294967295),
    ('isp_fine_time', 'i4', (T,), None, None, 2147483647),
    ('flag_time_status', 'i1', (T,), None, None, 127),
    ('sral_fine_time', 'u4', (T,), None, None, 4294967295),
    ('lat', 'i4', (T,), 1e-6, 0.0, 2147483647),
    ('lon', 'i4', (T,), 1e-6, 0.0, 2147483647),
    ('surf_type', 'i1', (T,), None, None, 127),
    ('burst_count_prod', 'i4', (T,), None, None, 2147483647),
    ('seq_count', 'u2', (T,), None, None, 65535),
    ('burst_count_cycle', 'i1', (T,), None, None, 127),
    ('nav_bul_status', 'i1', (T,), None, None, 127),
    ('nav_bul_source', 'i1', (T,), None, None, 127),
    ('oper_instr', 'i1', (T,), None, None, 127),
    ('SAR_mode', 'i1', (T,), None, None, 127),
    ('cl_gain', 'i1', (T,), None, None, 127),
    ('acq_stat', 'i1', (T,), None, None, 127),
    ('dem_eeprom', 'i1', (T,), None, None, 127),
    ('weighting', 'i1', (T,), None, None, 127),
    ('loss_track', 'i1', (T,), None, None, 127),
    ('h0_nav_dem', 'u4', (T,), None, None, 4294967295),
    ('h0_applied', 'u4', (T,), None, None, 4294967295),
    ('cor2_nav_dem', 'i2', (T,), None, None, 32767),
    ('cor2_applied', 'i2', (T,), None, None, 32767),
    ('dh0', 'i4', (T,), None, None, 2147483647),
    ('agccode_ku', 'i1', (T,), None, None, 127),
    ('agccode_c', 'i1', (T,), None, None, 127),
    ('alt', 'i4', (T,), 1e-4, 700000.0, 2147483647),
    ('orb_alt_rate', 'i2', (T,), 0.01, 0.0, 32767),
    ('x_pos', 'f8', (T,), None, None, 1.84467440737096e+19),
    ('y_pos', 'f8', (T,), None, None, 1.84467440737096e+19),
    ('z_pos', 'f8', (T,), None, None, 1.84467440737096e+19),
    ('x_vel', 'f8', (T,), None, None, 1.84467440737096e+19),
    ('y_vel', 'f8', (T,), None, None, 1.84467440737096e+19),
    ('z_vel', 'f8', (T,), None, None, 1.84467440737096e+19),
    ('roll_sat_pointing', 'i2', (T,), 1e-4, 0.0, 32767),
    ('pitch_sat_pointing', 'i2', (T,), 1e-4, 0.0, 32767),
    ('yaw_sat_pointing', 'i2', (T,), 1e-4, 0.0, 32767),
    ('roll_sral_mispointing', 'i2', (T,), 1e-4, 0.0, 32767),
    ('pitch_sral_mispointing', 'i2', (T,), 1e-4, 0.0, 32767),
    ('yaw_sral_mispointing', 'i2', (T,), 1e-4, 0.0, 32767),
    ('range_ku', 'i4', (T,), 1e-4, 700000.0, 2147483647),
    ('int_path_cor_ku', 'i4', (T,), 1e-4, 0.0, 2147483647),
    ('uso_cor', 'i4', (T,), 1e-4, 0.0, 2147483647),
    ('cog_cor', 'i2', (T,), 1e-4, 0.0, 32767),
    ('agc_ku', 'i4', (T,), 0.01, 0.0, 2147483647),
    ('scale_factor_ku', 'i4', (T,), 0.01, 0.0, 2147483647),
    ('sig0_cal_ku', 'i4', (T,), 0.01, 0.0, 2147483647),
    ('i_meas_ku', 'i2', (T, PULSE, SAMPLE), None, None, 32767),
    ('q_meas_ku', 'i2', (T, PULSE, SAMPLE), None, None, 32767),
    ('gprw_meas_ku', 'u4', (T, LTM, SAMPLE), 1e-4, 0.0, 4294967295),
    ('cal2_ku_ind', 'i1', (T,), None, None, 127),
    ('burst_power_cor_ku', 'u4', (T, PULSE), 1e-4, 0.0, 4294967295),
    ('burst_phase_cor_ku', 'i4', (T, PULSE), 1e-4, 0.0, 2147483647),
    ('cal1_ku_ind', 'i1', (T,), None, None, 127),
]

GLOBALS = {
    'mission_name': 'Sentinel 3A', 'altimeter_sensor_name': 'SRAL', 'gnss_sensor_name': 'GNSS',
    'doris_sensor_name': 'DORIS', 'references': 'some references', 'acq_station_name': 'Svalbard',
    'xref_altimeter_level0': 'L0-A', 'xref_navatt_level0': 'L0-NAV', 'xref_altimeter_orbit': 'ORB',
    'xref_doris_uso': 'USO', 'xref_altimeter_ltm_lrm_cal1': 'LRMCAL1', 'xref_altimeter_ltm_sar_cal1': 'SARCAL1',
    'xref_altimeter_ltm_ku_cal2': 'KUCAL2', 'xref_altimeter_ltm_c_cal2': 'CCAL2',
    'xref_altimeter_characterisation': 'CHAR', 'xref_time_correlation': 'TIMECORR', 'xref_platform': 'PLAT',
    'history': 'made by a generator', 'product_name': 'S3A_SR_1_SRA_A__20160101T000000_TEST',
}


def make_values(world, chd):
    """physical values of every L1A field for the bursts of a world.

    world: n, t_start, day0, seed, orbit keys, gaps: [[index, seconds]], invalid: [indices],
           terrain amplitude, jitter etc."""
    n = world['n']
    rng = np.random.RandomState(world.get('seed', 0))
    bri = 1.0 / chd['brf_sar_chd']
    dt = np.full(n, bri)
    dt[0] = 0.0
    for at, extra in world.get('gaps', []):
        if 0 < at < n:
            dt[at] += extra
    t = np.cumsum(dt)
    pos, vel = orbit(world, t)
    lat, lon, alt = ecef2lla(pos[:, 0], pos[:, 1], pos[:, 2])
    v = {}
    t0 = world.get('t_start', 5.0e8)
    v['time'] = t0 + t
    leap = world.get('leap', 0.0)
    utc = v['time'] - leap
    v['UTC_day'] = np.floor(utc / 86400.0)
    v['UTC_sec'] = utc - v['UTC_day'] * 86400.0
    v['UTC_time_20hz'] = utc
    v['lat'] = np.degrees(lat)
    v['lon'] = np.degrees(lon)
    v['alt'] = alt
    v['orb_alt_rate'] = np.full(n, world.get('alt_rate', 0.0)) + np.linspace(-1, 1, n)
    for i, k in enumerate('xyz'):
        v[k + '_pos'] = pos[:, i]
        v[k + '_vel'] = vel[:, i]
    ang = world.get('attitude', 0.02)
    for k in ('roll', 'pitch', 'yaw'):
        v[k + '_sral_mispointing'] = ang * rng.uniform(-1, 1) + 0.1 * ang * rng.uniform(-1, 1, n)
        v[k + '_sat_pointing'] = ang * rng.uniform(-1, 1) + 0.1 * ang * rng.uniform(-1, 1, n)
    terrain = world.get('height', 0.0) + world.get('terrain', 20.0) * np.sin(
        np.arange(n) * world.get('terrain_rate', 0.07) + 1.0)
    jitter = world.get('jitter', 0.0) * rng.uniform(-1, 1, n)
    v['cog_cor'] = np.full(n, world.get('cog', 0.5))
    v['range_ku'] = alt - terrain + jitter
    v['int_path_cor_ku'] = rng.uniform(-5, 5, n)
    v['uso_cor'] = rng.uniform(-5, 5, n)
    v['agc_ku'] = world.get('agc', 30.0) + np.round(rng.uniform(-2, 2, n), 1) * world.get('agc_var', 1.0)
    v['sig0_cal_ku'] = world.get('sig0', 25.0) + rng.uniform(-1, 1, n)
    v['scale_factor_ku'] = rng.uniform(-10, 10, n)
    for k, hi in (('flag_time_status', 2), ('surf_type', 4), ('nav_bul_status', 2), ('nav_bul_source', 2),
                  ('oper_instr', 2), ('SAR_mode', 3), ('cl_gain', 2), ('acq_stat', 2), ('dem_eeprom', 2),
                  ('weighting', 2), ('loss_track', 2), ('burst_count_cycle', 4), ('cal1_ku_ind', 3),
                  ('cal2_ku_ind', 3), ('agccode_ku', 62), ('agccode_c', 62)):
        v[k] = rng.randint(0, hi, n)
    v['isp_coarse_time'] = rng.randint(1, 2 ** 31 - 1, n).astype('u4')
    v['isp_fine_time'] = rng.randint(0, 2 ** 24, n)
    v['sral_fine_time'] = rng.randint(0, 2 ** 31 - 1, n).astype('u4')
    v['h0_nav_dem'] = rng.randint(0, 2 ** 31 - 1, n).astype('u4')
    v['h0_applied'] = rng.randint(0, 2 ** 31 - 1, n).astype('u4')
    v['cor2_nav_dem'] = rng.randint(-3000, 3000, n)
    v['cor2_applied'] = rng.randint(-3000, 3000, n)
    v['dh0'] = rng.randint(-10 ** 6, 10 ** 6, n)
    v['burst_count_prod'] = np.arange(n) + 1
    v['seq_count'] = (world.get('seq0', 100) + np.arange(n)) % 16384
    npul = chd['N_ku_pulses_burst_chd']
    nsam = chd['N_samples_sar_chd']
    v['i_meas_ku'], v['q_meas_ku'] = echoes(world, n, npul, nsam, rng)
    v['gprw_meas_ku'] = 0.5 + rng.rand(n, 3, nsam) + 0.5 * np.cos(np.linspace(-1, 1, nsam))[None, None, :]
    v['burst_power_cor_ku'] = 0.5 + rng.rand(n, npul)
    v['burst_phase_cor_ku'] = rng.uniform(-3, 3, (n, npul))
    for i in world.get('invalid', []):
        if 0 <= i < n:
            v['lat'][i] = 0.0
            v['lon'][i] = 0.0
    return v


def echoes(world, n, npul, nsam, rng):
    amp = world.get('amp', 600.0)
    kind = world.get('echo', 'mixed')
    k = np.arange(nsam)[None, None, :]
    p = np.arange(npul)[None, :, None]
    sig = np.zeros((n, npul, nsam), dtype=complex)
    if kind in ('tone', 'mixed'):
        for _ in range(3):
            fr = rng.uniform(-0.5, 0.5) + 0.02 * np.sin(np.arange(n) * rng.uniform(0.01, 0.3))[:, None, None]
            fa = rng.uniform(-0.5, 0.5) + np.arange(n)[:, None, None] * rng.uniform(-0.05, 0.05)
            sig += rng.uniform(0.3, 1.0) * np.exp(2j * PI * (fr * k + fa * p + rng.rand(n)[:, None, None]))
    if kind in ('noise', 'mixed'):
        sig += 0.5 * (rng.randn(n, npul, nsam) + 1j * rng.randn(n, npul, nsam))
    sig *= amp
    return (np.clip(np.round(sig.real), -32000, 32000).astype('i2'),
            np.clip(np.round(sig.imag), -32000, 32000).astype('i2'))


def write_l1a(path, values, globals_=None, drop=()):
    import netCDF4 as nc
    n = len(values['time'])
    npul, nsam = values['i_meas_ku'].shape[1:]
    d = nc.Dataset(path, 'w', format='NETCDF4')
    try:
        for name, size in ((SAMPLE, nsam), (PULSE, npul), (CPULSE, 2), (LTM, values['gprw_meas_ku'].shape[1]),
                           (T, n), ('time_l1a_echo_plrm', 3)):
            d.createDimension(name, size)
        for name in (SAMPLE, PULSE, CPULSE, LTM):
            var = d.createVariable(name, 'i2', (name,))
            var[:] = np.arange(len(d.dimensions[name]))
        var = d.createVariable(T, 'f8', (T,))
        var[:] = values['time']
        for name, dtype, dims, scale, offset, fill in L1A_VARS:
            if name in drop:
                continue
            var = d.createVariable(name + S, dtype, dims, fill_value=fill)
            if scale is not None:
                var.scale_factor = scale
                var.add_offset = offset
            var[:] = values[name]
        for k, g in (GLOBALS if globals_ is None else globals_).items():
            d.setncattr(k, g)
    finally:
        d.close()


def read_l1a(path):
    """the values a reader must see, decoded with netCDF4 directly"""
    import netCDF4 as nc
    d = nc.Dataset(path)
    out = {}
    try:
        for name, var in d.variables.items():
            var.set_auto_mask(False)
            key = name[:-len(S)] if name.endswith(S) else name
            if name == T:
                key = 'time'
            out[key] = np.array(var[:])
        out['globals'] = {k: d.getncattr(k) for k in d.ncattrs()}
    finally:
        d.close()
    return out
