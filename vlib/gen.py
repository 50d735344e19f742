"""Strategies shared by the checks, and the bridge from reference bursts/surfaces to dedop objects."""
import math

import numpy as np
from hypothesis import strategies as st

from . import ref, synth


def floats(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False)


def histories(step, low, high):
    """A list of low to high steps, every length as likely as another (lists() prefers short ones)."""
    return st.sampled_from(range(low, high + 1)).flatmap(lambda n: st.lists(step, min_size=n, max_size=n))


def seeds():
    return st.integers(0, 2 ** 31 - 2)


def orbits():
    """orbit and terrain of a generated world (JSON)"""
    return st.fixed_dictionaries({
        'seed': seeds(),
        'alt': floats(600e3, 890e3),      # the product packs altitudes up to 914 km
        'inc': floats(0.2, 2.9),
        'node': floats(-3.1, 3.1),
        'theta': floats(0.0, 6.28),
        'speed': floats(0.9, 1.1),
        'alt_rate': floats(-25.0, 25.0),
        'attitude': st.sampled_from([0.0, 0.02, 0.3]),
        'height': floats(-100.0, 4000.0),
        'terrain': st.sampled_from([0.0, 5.0, 20.0, 60.0]),
        'terrain_rate': floats(0.0, 0.5),
        'jitter': st.sampled_from([0.0, 0.0, 3.0]),
        'cog': floats(-1.0, 1.0),
        'agc': floats(0.0, 60.0),
        'sig0': floats(0.0, 60.0),
        't_start': st.one_of(floats(1e8, 9e8), st.just(5.0e8),
                             st.integers(1000, 9000).map(lambda d: d * 86400.0 + 0.0)),
        'leap': st.sampled_from([0.0, 17.0, 36.0]),
        'seq0': st.integers(0, 16383),
        'amp': st.sampled_from([30.0, 600.0, 4000.0]),
        'echo': st.sampled_from(['mixed', 'noise', 'tone']),
    })


def instruments(pulses=(2, 4, 6, 8, 16), samples=(8, 16, 32)):
    """overrides of the characterisation file (JSON); `ratio` is burst spacing / beam spacing on ground"""
    return st.fixed_dictionaries({
        'pulses': st.sampled_from(list(pulses)),
        'samples': st.sampled_from(list(samples)),
        'freq': floats(5e9, 36e9),
        'prf': floats(9e3, 30e3),
        'ratio': floats(0.15, 0.97),
        'clock': st.sampled_from([1e7, 8e7, 3.2e8]),
        'pulse_length': floats(2e-5, 6e-5),
        'bw': floats(1e8, 5e8),
    })


def chd_of(inst, world=None, **more):
    """characterisation overrides of a generated instrument"""
    world = world or {}
    n = inst['pulses']
    v = synth.speed_of(world)
    res = synth.C / (2 * inst['freq'] * v * n / inst['prf'])      # angular resolution
    spacing = res * world.get('alt', 814500.0)
    ground = v * 6371000.0 / (6371000.0 + world.get('alt', 814500.0))
    chd = {
        'N_samples_sar_chd': inst['samples'],
        'N_ku_pulses_burst_chd': n,
        'freq_ku_chd': inst['freq'],
        'prf_sar_chd': inst['prf'],
        'brf_sar_chd': ground / (spacing * inst['ratio']),
        'uso_freq_nom_chd': inst['clock'],
        'alt_freq_multiplier_chd': 1,
        'pulse_length_chd': inst['pulse_length'],
        'bw_ku_chd': inst['bw'],
    }
    chd.update(more)
    return chd


def setup(inst, world, n, cnf=None, chd=None, cst=None):
    """(reference parameters, (chd, cst, cnf) objects, reference bursts)"""
    over = chd_of(inst, world, **(chd or {}))
    P = ref.Params(over, cnf, cst)
    objs = synth.conf(over, cnf, cst)
    w = dict(world)
    w['n'] = n
    values = synth.make_values(w, P.chd)
    bursts = [ref.burst(P, values, i) for i in range(n)]
    return P, objs, values, bursts


def packet(objs, b, **more):
    """a dedop burst with the content of a reference burst"""
    from dedop.model import L1AProcessingData, PacketPid
    chd, cst, _ = objs
    kw = dict(
        isp_pid=PacketPid.echo_sar, time_sar_ku=b.time, days=b.day, seconds=b.sec, pri_sar_pre_dat=b.pri,
        lat_sar_sat=b.lat, lon_sar_sat=b.lon, alt_sar_sat=b.alt, alt_rate_sat_sar=b.alt_rate,
        x_vel_sat_sar=b.vel[0], y_vel_sat_sar=b.vel[1], z_vel_sat_sar=b.vel[2],
        roll_sar=b.roll, pitch_sar=b.pitch, yaw_sar=b.yaw, t0_sar=b.t0, win_delay_sar_ku=b.wd,
        x_sar_sat=b.pos[0], y_sar_sat=b.pos[1], z_sar_sat=b.pos[2],
        x_sar_surf=b.ground[0], y_sar_surf=b.ground[1], z_sar_surf=b.ground[2],
        doppler_angle_sar_sat=b.doppler, waveform_cor_sar=np.array(b.wave), beams_focused=None,
        agc_ku=b.agc, sig0_cal_ku=b.sig0, source_seq_count=b.seq,
        cal1_power=np.array(b.cal1_power), cal1_phase=np.array(b.cal1_phase), cal2_array=np.array(b.cal2))
    kw.update(more)
    return L1AProcessingData(cst, chd, b.index, **kw)


def surface(objs, s, number):
    """a dedop surface with the content of a reference surface"""
    from dedop.model import SurfaceData
    chd, cst, _ = objs
    out = SurfaceData(
        cst, chd, number, time_surf=s.time, x_surf=s.pos[0], y_surf=s.pos[1], z_surf=s.pos[2],
        lat_surf=s.lat, lon_surf=s.lon, alt_surf=s.alt, x_sat=s.sat[0], y_sat=s.sat[1], z_sat=s.sat[2],
        lat_sat=s.lat_sat, lon_sat=s.lon_sat, alt_sat=s.alt_sat,
        x_vel_sat=s.vel[0], y_vel_sat=s.vel[1], z_vel_sat=s.vel[2], alt_rate_sat=s.alt_rate,
        roll_sat=s.roll, pitch_sat=s.pitch, yaw_sat=s.yaw, win_delay_surf=s.wd,
        prev_tai=s.utc_ref[0], prev_utc_days=s.utc_ref[1], prev_utc_secs=s.utc_ref[2],
        curr_day_length=s.day_length)
    out.compute_surf_sat_vector()
    out.compute_angular_azimuth_beam_resolution(chd.pri_sar)
    return out


def angdiff(a, b):
    return abs((a - b + math.pi) % (2 * math.pi) - math.pi)


def deck(seed, shape, scale=1.0):
    """reproducible complex bulk data, a function of the drawn seed"""
    rng = np.random.RandomState(seed % (2 ** 32))
    return scale * (rng.randn(*shape) + 1j * rng.randn(*shape))
