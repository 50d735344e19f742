"""C03: a burst read from an L1A product has that record's content, whatever was read before it."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib.harness import prop
from vlib import gen, ref, synth

from dedop.data.input.l1a import L1ADataset

ASSUMPTIONS = ['products written with the Sentinel-3 L1A variable names, types and scale factors; no fill values',
               'the window delay is the range plus the projected centre-of-gravity correction; echoes are scaled by '
               '10^(agc/20); t0 and PRI are the nominal ones']

DIRECT = {
    'isp_coarse_time': 'isp_coarse_time', 'isp_fine_time': 'isp_fine_time', 'sral_fine_time': 'sral_fine_time',
    'days': 'UTC_day', 'seconds': 'UTC_sec', 'burst_sar_ku': 'burst_count_prod', 'alt_sar_sat': 'alt',
    'alt_rate_sat_sar': 'orb_alt_rate', 'roll_sral_mispointing': 'roll_sral_mispointing',
    'pitch_sral_mispointing': 'pitch_sral_mispointing', 'yaw_sral_mispointing': 'yaw_sral_mispointing',
    'cog_cor': 'cog_cor', 'h0_sar': 'h0_applied', 'uso_cor': 'uso_cor', 'cor2_sar': 'cor2_applied',
    'flag_time_status': 'flag_time_status', 'nav_bul_status': 'nav_bul_status', 'nav_bul_source': 'nav_bul_source',
    'source_seq_count': 'seq_count', 'oper_instr': 'oper_instr', 'SAR_mode': 'SAR_mode', 'cl_gain': 'cl_gain',
    'acq_stat': 'acq_stat', 'dem_eeprom': 'dem_eeprom', 'loss_track': 'loss_track', 'h0_nav_dem': 'h0_nav_dem',
    'h0_applied': 'h0_applied', 'cor2_nav_dem': 'cor2_nav_dem', 'cor2_applied': 'cor2_applied', 'dh0': 'dh0',
    'agccode_ku': 'agccode_ku', 'range_ku': 'range_ku', 'int_path_cor_ku': 'int_path_cor_ku', 'agc_ku': 'agc_ku',
    'sig0_cal_ku': 'sig0_cal_ku', 'surf_type': 'surf_type', 'cal1_power': 'burst_power_cor_ku',
    'cal1_phase': 'burst_phase_cor_ku', 'time_sar_ku': 'time',
}


def check_burst(ctx, P, values, i, p, scan=False):
    what = 'burst %d: ' % i
    if scan and values['lat'][i] == 0 and values['lon'][i] == 0:
        ctx.require(p is None, what + 'a burst without a position was delivered')     # the mark of an invalid record
        return
    ctx.require(p is not None, what + 'nothing was read')
    b = ref.burst(P, values, i)
    for attr, name in DIRECT.items():
        ctx.close(getattr(p, attr), values[name][i], what + attr, rtol=1e-13)
    ctx.close(p.lat_sar_sat, b.lat, what + 'latitude', rtol=1e-13, atol=1e-15)
    ctx.close(p.lon_sar_sat, b.lon, what + 'longitude', rtol=1e-13, atol=1e-15)
    for attr in ('roll', 'pitch', 'yaw'):
        ctx.close(getattr(p, attr + '_sar'), getattr(b, attr), what + attr, rtol=1e-12, atol=1e-15)
    ctx.close(np.ravel(p.vel_sat_sar), b.vel, what + 'velocity', rtol=1e-13)
    ctx.close(p.vel_sat_sar_norm, b.speed, what + 'speed', rtol=1e-12)
    ctx.close([p.x_vel_sat_sar, p.y_vel_sat_sar, p.z_vel_sat_sar], b.vel, what + 'velocity components', rtol=1e-13)
    ctx.close(p.win_delay_sar_ku, b.wd, what + 'window delay', rtol=1e-12)
    ctx.close(p.waveform_cor_sar, b.wave, what + 'waveform', rtol=1e-11)
    ctx.close(p.cal2_array, b.cal2, what + 'CAL2', rtol=1e-13)
    ctx.close(p.t0_sar, P.t0, what + 't0', rtol=1e-12)
    ctx.close(p.pri_sar_pre_dat, P.pri, what + 'PRI', rtol=1e-12)
    ctx.close([p.x_sar_sat, p.y_sar_sat, p.z_sar_sat], b.pos, what + 'satellite position', rtol=0, atol=1e-4)
    ctx.close([p.x_sar_surf, p.y_sar_surf, p.z_sar_surf], b.ground, what + 'ground position', rtol=0, atol=1e-4)
    ctx.close(p.doppler_angle_sar_sat, b.doppler, what + 'Doppler angle', rtol=0, atol=3e-8)
    ctx.require(p.seq_count_sar == i and p.counter == i, what + 'numbered %r', p.counter)


def product(ctx, case, **extra):
    inst = case['inst']
    chd = gen.chd_of(inst, case['world'])
    P = ref.Params(chd, case.get('cnf'))
    w = dict(case['world'])
    w['n'] = case['n']
    w['invalid'] = case.get('invalid', [])
    values = synth.make_values(w, P.chd)
    path = os.path.join(ctx.tmpdir(), 'L1A.nc')
    synth.write_l1a(path, values)
    return P, path, synth.read_l1a(path), synth.conf(chd, case.get('cnf'))


def cases():
    sizes = st.one_of(st.integers(1, 90), st.sampled_from([39, 40, 41, 79, 80, 81, 120, 121]))
    return sizes.flatmap(lambda n: st.fixed_dictionaries({
        'n': st.just(n), 'world': gen.orbits(), 'inst': gen.instruments((1, 2, 4), (2, 4, 8)),
        'cnf': st.fixed_dictionaries({'flag_cal2_table_index_cnf': st.integers(0, 2)}),
        'steps': st.lists(st.one_of(st.integers(0, n - 1), st.just(-1), st.just(-1)), min_size=1, max_size=25)}))


@prop(cases, quick=240, thorough=1500, shards=(5, 8),
      rule='the reads jump back to an earlier block after reading a later one')
def any_order(case, ctx):
    """indexed and sequential reads, mixed in any order (step -1 = read the next burst)"""
    P, path, values, (chd, cst, cnf) = product(ctx, case)
    ds = L1ADataset(path, cst=cst, chd=chd, cnf=cnf)
    try:
        ctx.equal(len(ds), case['n'], 'number of bursts')
        ctx.equal(ds.max_index, case['n'], 'max_index')
        ctx.close(ds.first_time(), values['time'][0], 'first time', rtol=0)
        ctx.close(ds.last_time(), values['time'][-1], 'last time', rtol=0)
        position = 0
        blocks = []
        for s in case['steps']:
            if s < 0:
                if position >= case['n']:
                    ctx.raises(StopIteration, lambda: next(ds), 'reading past the end')
                    continue
                i = position
                position += 1
                p = next(ds)
            else:
                i = s
                p = ds[i]
            blocks.append(i // 40)
            check_burst(ctx, P, values, i, p, s < 0)
        ctx.mark(any(a > b for a, b in zip(blocks, blocks[1:])))
        ctx.label('%d blocks' % (1 + (case['n'] - 1) // 40))
    finally:
        ds.close()


@prop(cases, quick=16, thorough=200, shards=(2, 8), rule='more than one block of records')
def full_scan(case, ctx):
    """iteration and repeated next() both give every burst exactly once, in order"""
    P, path, values, (chd, cst, cnf) = product(ctx, case)
    ctx.mark(case['n'] > 40)
    ds = L1ADataset(path, cst=cst, chd=chd, cnf=cnf)
    try:
        count = 0
        for i, p in enumerate(ds):
            check_burst(ctx, P, values, i, p, True)
            count += 1
        ctx.equal(count, case['n'], 'bursts iterated over')
        for i in range(case['n']):
            check_burst(ctx, P, values, i, next(ds), True)
        ctx.raises(StopIteration, lambda: next(ds), 'reading past the end')
        g = ds.read_globals()
        for name, want in values['globals'].items():
            ctx.equal(getattr(g, name), want, 'global attribute ' + name)
    finally:
        ds.close()


@prop(cases, quick=40, thorough=500, shards=(2, 8), rule='two datasets are read alternately')
def two_products(case, ctx):
    """two open products do not influence each other, and a burst that was read stays as it was"""
    P, path, values, (chd, cst, cnf) = product(ctx, case)
    other = dict(case, world=dict(case['world'], seed=(case['world']['seed'] + 1) % 2 ** 31))
    w = dict(other['world'])
    w['n'] = case['n']
    v2 = synth.make_values(w, P.chd)
    path2 = os.path.join(ctx.tmpdir(), 'L1A2.nc')
    synth.write_l1a(path2, v2)
    values2 = synth.read_l1a(path2)
    a = L1ADataset(path, cst=cst, chd=chd, cnf=cnf)
    b = L1ADataset(path2, cst=cst, chd=chd, cnf=cnf)
    try:
        kept = []
        for s in case['steps']:
            i = s if s >= 0 else (7 * len(kept)) % case['n']
            p, q = a[i], b[i]
            check_burst(ctx, P, values, i, p)
            check_burst(ctx, P, values2, i, q)
            kept.append((i, p))
        ctx.mark(len(kept) > 1)
        for i, p in kept:
            check_burst(ctx, P, values, i, p)
    finally:
        a.close()
        b.close()
