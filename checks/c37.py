"""C37: the processing has the symmetries of the measurement: turning, mirroring or postponing the pass, scaling the echoes,
changing one burst or appending bursts changes the records accordingly and in no other way."""
import numpy as np
from hypothesis import strategies as st

from vlib.harness import prop
from vlib import chain, ref
from vlib.gen import angdiff, floats

ASSUMPTIONS = ['passes with a decision closer to its threshold than rounding are not judged',
               'longitudes are compared modulo 360 degrees',
               'a burst contributes only to records less than twice the number of its pulses away (instruments are '
               'generated with at least 0.7 beams per burst interval)']
# what depends on where surfaces and satellite are relative to each other
GEOMETRY = ('beam_angles_surf', 'doppler_angles_surf', 'look_angles_surf', 'pointing_angles_surf', 'look_index_surf',
            'look_counter_surf', 'slant_range_corrections', 'range_sat_surf', 'doppler_corrections', 'win_delay_corrections',
            'stack_mask_vector', 'sigma0_scaling_factor_beam')
GEOMETRY1 = ('alt_surf', 'alt_sat', 'alt_rate_sat', 'roll_sat', 'pitch_sat', 'yaw_sat', 'win_delay_surf', 'data_stack_size',
             'closest_burst_index', 'sigma0_scaling_factor', 'n_beams_start_stop', 'start_look_angle', 'stop_look_angle',
             'start_doppler_angle', 'stop_doppler_angle', 'start_pointing_angle', 'stop_pointing_angle', 'start_beam_angle',
             'stop_beam_angle', 'start_burst_index', 'stop_burst_index', 'surface_counter')
TIMES = ('time_surf', 'prev_tai', 'prev_utc_days', 'prev_utc_secs', 'curr_day_length', 'gps_time_surf')
ECHO = ('beams_surf', 'beams_geo_corr', 'beams_range_compr_iq')
POWER = ('beams_range_compr', 'beams_masked', 'waveform_multilooked')
VECTORS = (('x_surf', 'y_surf', 'z_surf'), ('x_sat', 'y_sat', 'z_sat'), ('x_vel_sat', 'y_vel_sat', 'z_vel_sat'))


def near(a, b, rtol, atol=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or np.any(np.isnan(a) != np.isnan(b)):
        return False
    scale = np.nanmax(np.abs(b)) if b.size and not np.all(np.isnan(b)) else 0.0
    return bool(np.allclose(a, b, rtol=0, atol=rtol * scale + atol, equal_nan=True))


def same(ctx, a, b, what, arrays=(), ones=(), rtol=1e-9, atol=1e-9, factor=1.0):
    n = b.size
    ctx.equal(a.burst_counters, b.burst_counters, what + ': bursts')
    for k in arrays:
        x, y = np.asarray(getattr(a, k)), np.asarray(getattr(b, k))
        if x.ndim and k != 'waveform_multilooked':
            x, y = x[:n], y[:n]
        ctx.require(near(x, y * factor, rtol, atol if k in GEOMETRY else 0.0), '%s: %s differs', what, k)
    for k in ones:
        x, y = getattr(a, k), getattr(b, k)
        if x is None or y is None:
            ctx.require(x is y, '%s: %s is %r, not %r', what, k, x, y)
        else:
            ctx.close(float(x), float(y), '%s: %s' % (what, k), rtol=rtol, atol=atol)


def vectors(ctx, a, b, what, turn, rtol):
    for names in VECTORS:
        x = np.array([getattr(a, k) for k in names], dtype=float)
        y = turn @ np.array([getattr(b, k) for k in names], dtype=float)
        ctx.require(near(x, y, rtol), '%s: %s is %s, not %s', what, '/'.join(names), x, y)


def first_run(case, ctx):
    """(product, records) of the pass as it is, or None when it is refused or too close to call"""
    p = chain.product(case, ctx)
    if chain.too_short(p):
        return None
    expected = p.expected()
    if expected.fragile or any(s.fragile for _, s in expected):
        ctx.label('too close to call')
        return None
    return p, p.capture()[1]


def second_run(case, ctx, first, values, name='L1A_y', **more):
    gone = values.pop('n', None)
    q = chain.Product(ctx.tmpdir(), case, name=name, values=values, n=gone or first.n, **more)
    expected = q.expected()
    if expected.fragile or any(s.fragile for _, s in expected):
        ctx.label('too close to call')
        return None
    return q.capture()[1]


def passes(**more):
    return chain.scenarios(pulses=(4, 8), samples=(4, 8), surfaces=(84, 100), **more)


def turns():
    return passes(gaps=chain.holes()['gaps'], to=st.one_of(
        st.sampled_from([0.0, 90.0, 180.0, -90.0, 0.003, -180.0]), floats(-180.0, 180.0)), at=floats(0.0, 1.0))


@prop(turns, quick=24, thorough=1500, shards=(8, 8), rule='the pass has records and is turned')
def turned(case, ctx):
    """the same pass over another meridian"""
    got = first_run(case, ctx)
    if got is None:
        return
    p, before = got
    v = dict(p.made)
    k = int(case['at'] * (p.n - 1))
    d = round(case['to'] - float(v['lon'][k]), 6)        # whole steps of the stored longitude
    lon = np.round(v['lon'], 6) + d
    v['lon'] = (lon + 180.0) % 360.0 - 180.0
    c, s = np.cos(np.radians(d)), np.sin(np.radians(d))
    turn = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])
    for kind in ('_pos', '_vel'):
        xyz = turn @ np.array([v[a + kind] for a in 'xyz'])
        v['x' + kind], v['y' + kind], v['z' + kind] = xyz
    for made in (p.made, v):
        if np.any((np.abs(made['lat']) < 2e-6) & (np.abs(made['lon']) < 2e-6)):
            return                                        # stands for a record without position
    after = second_run(case, ctx, p, v)
    if after is None:
        return
    ctx.equal(len(after), len(before), 'number of records')
    for i, (a, b) in enumerate(zip(after, before)):
        what = 'record %d of the pass turned by %s degrees' % (i, d)
        same(ctx, a, b, what, GEOMETRY, GEOMETRY1, rtol=1e-6, atol=1e-6)
        same(ctx, a, b, what, (), TIMES, rtol=0, atol=1e-5)
        same(ctx, a, b, what, (), ('lat_surf', 'lat_sat'), rtol=0, atol=1e-8)
        same(ctx, a, b, what, ECHO + POWER, rtol=1e-4)
        vectors(ctx, a, b, what, turn, 1e-9)
        for n in ('lon_surf', 'lon_sat'):
            ctx.require(abs(angdiff(getattr(a, n), getattr(b, n) + np.radians(d))) < 1e-8, '%s: %s is %r, before %r', what, n,
                        getattr(a, n), getattr(b, n))
    ctx.mark(bool(before) and d != 0)
    if np.ptp(v['lon']) > 180:
        ctx.label('across the date line')


def mirrors():
    return passes(gaps=chain.holes()['gaps'])


@prop(mirrors, quick=16, thorough=800, shards=(4, 8), rule='the pass has records')
def mirrored(case, ctx):
    """the same pass on the other hemisphere"""
    got = first_run(case, ctx)
    if got is None:
        return
    p, before = got
    v = dict(p.made)
    v['lat'] = -v['lat']
    v['z_pos'], v['z_vel'] = -v['z_pos'], -v['z_vel']
    after = second_run(case, ctx, p, v)
    if after is None:
        return
    ctx.equal(len(after), len(before), 'number of records')
    for i, (a, b) in enumerate(zip(after, before)):
        what = 'record %d of the mirrored pass' % i
        same(ctx, a, b, what, GEOMETRY, GEOMETRY1, rtol=1e-6, atol=1e-6)
        same(ctx, a, b, what, (), TIMES, rtol=0, atol=1e-5)
        same(ctx, a, b, what, (), ('lon_surf', 'lon_sat'), rtol=0, atol=1e-8)
        same(ctx, a, b, what, ECHO + POWER, rtol=1e-4)
        vectors(ctx, a, b, what, np.diag([1.0, 1.0, -1.0]), 1e-9)
        ctx.close(float(a.lat_surf), -float(b.lat_surf), what + ': lat_surf', rtol=0, atol=1e-9)
        ctx.close(float(a.lat_sat), -float(b.lat_sat), what + ': lat_sat', rtol=0, atol=1e-9)
    ctx.mark(bool(before))


def delays():
    return passes(gaps=chain.holes()['gaps'], days=st.one_of(st.integers(-1000, 9000), st.sampled_from([1, -1, 365, 366])))


@prop(delays, quick=16, thorough=800, shards=(4, 8), rule='the pass has records and is moved')
def postponed(case, ctx):
    """the same pass some whole days earlier or later"""
    got = first_run(case, ctx)
    if got is None:
        return
    p, before = got
    v = dict(p.made)
    d = case['days'] * 86400.0
    v['time'] = v['time'] + d
    v['UTC_time_20hz'] = v['UTC_time_20hz'] + d
    v['UTC_day'] = v['UTC_day'] + case['days']
    after = second_run(case, ctx, p, v)
    if after is None:
        return
    ctx.equal(len(after), len(before), 'number of records')
    for i, (a, b) in enumerate(zip(after, before)):
        what = 'record %d of the pass %d days later' % (i, case['days'])
        same(ctx, a, b, what, GEOMETRY, GEOMETRY1, rtol=1e-6, atol=1e-6)
        same(ctx, a, b, what, (), ('lat_surf', 'lat_sat', 'lon_surf', 'lon_sat'), rtol=0, atol=1e-8)
        same(ctx, a, b, what, ECHO + POWER, rtol=1e-4)
        vectors(ctx, a, b, what, np.eye(3), 1e-9)
        ctx.close(float(a.time_surf), float(b.time_surf) + d, what + ': time_surf', rtol=0, atol=1e-5)
        ctx.equal(float(a.curr_day_length), float(b.curr_day_length), what + ': length of the day')
    ctx.mark(bool(before) and d != 0)


def echoes():
    return passes(factor=st.sampled_from([2, 3, 7, -1, -3, 0]), world=chain.gen.orbits().map(
        lambda w: dict(w, amp=min(w['amp'], 600.0))))


@prop(echoes, quick=16, thorough=800, shards=(4, 8), rule='the pass has records')
def scaled(case, ctx):
    """echoes k times as strong"""
    got = first_run(case, ctx)
    if got is None:
        return
    p, before = got
    v = dict(p.made)
    f = case['factor']
    for k in ('i_meas_ku', 'q_meas_ku'):
        v[k] = np.clip(v[k].astype('i4'), -4000, 4000)
        p.made[k] = v[k].astype('i2')
        v[k] = (v[k] * f).astype('i2')
    before = second_run(case, ctx, p, dict(p.made), name='L1A_z')
    after = second_run(case, ctx, p, v)
    if after is None or before is None:
        return
    ctx.equal(len(after), len(before), 'number of records')
    for i, (a, b) in enumerate(zip(after, before)):
        what = 'record %d with echoes times %d' % (i, f)
        same(ctx, a, b, what, GEOMETRY, GEOMETRY1 + TIMES + ('lat_surf', 'lat_sat', 'lon_surf', 'lon_sat'), rtol=1e-12,
             atol=1e-12)
        same(ctx, a, b, what, ECHO, rtol=1e-9, factor=f)
        same(ctx, a, b, what, POWER, rtol=1e-9, factor=float(f * f))
        vectors(ctx, a, b, what, np.eye(3), 1e-12)
    ctx.mark(bool(before))


def changes():
    return passes(gaps=chain.holes()['gaps'], at=floats(0.0, 1.0), seed=st.integers(0, 10 ** 6))


@prop(changes, quick=16, thorough=800, shards=(4, 8), rule='the changed burst is in some records and not in others')
def one_burst(case, ctx):
    """other echoes in one burst"""
    got = first_run(case, ctx)
    if got is None:
        return
    p, before = got
    v = dict(p.made)
    k = int(case['at'] * (p.n - 1))
    rng = np.random.RandomState(case['seed'])
    for name in ('i_meas_ku', 'q_meas_ku'):
        v[name] = v[name].copy()
        v[name][k] = rng.randint(-3000, 3000, v[name].shape[1:])
    after = second_run(case, ctx, p, v)
    if after is None:
        return
    ctx.equal(len(after), len(before), 'number of records')
    touched = 0
    for i, (a, b) in enumerate(zip(after, before)):
        what = 'record %d with other echoes in burst %d' % (i, k)
        same(ctx, a, b, what, GEOMETRY, GEOMETRY1 + TIMES + ('lat_surf', 'lat_sat', 'lon_surf', 'lon_sat'), rtol=1e-12,
             atol=1e-12)
        if k in b.burst_counters:
            touched += 1
            row = b.burst_counters.index(k)
            for name in ('beams_surf', 'beams_range_compr'):
                x, y = np.delete(getattr(a, name)[:b.size], row, 0), np.delete(getattr(b, name)[:b.size], row, 0)
                ctx.require(near(x, y, 1e-9), '%s: %s of its other looks differs', what, name)
        else:
            same(ctx, a, b, what + ' (not one of its looks)', ECHO + POWER, rtol=1e-12)
    ctx.mark(0 < touched < len(before))


def appended():
    return chain.scenarios(pulses=(4, 8), samples=(4,), surfaces=(110, 150), gaps=chain.holes()['gaps'], cut=floats(0.0, 0.25))


@prop(appended, quick=16, thorough=800, shards=(4, 8), rule='records are complete before the end of the shorter pass')
def longer(case, ctx):
    """bursts after the end of a pass do not change the records that are complete by then"""
    got = first_run(case, ctx)
    if got is None:
        return
    p, long = got
    m = int(p.n * (1 - case['cut'])) - 1
    v = {k: x[:m] for k, x in p.made.items()}
    q = chain.Product(ctx.tmpdir(), case, name='L1A_y', values=v, n=m)
    if chain.too_short(q):
        return
    v['n'] = m
    short = second_run(case, ctx, p, v)
    if short is None:
        return
    last = m - 2 * case['inst']['pulses'] - 2
    a = [s for s in short if max(s.burst_counters) < last]
    b = [s for s in long if max(s.burst_counters) < last]
    ctx.equal(len(a), len(b), 'number of records complete %d bursts before the end of the shorter pass' % (m - last))
    for i, (x, y) in enumerate(zip(a, b)):
        what = 'record %d of the pass of %d bursts and of its first %d' % (i, p.n, m)
        same(ctx, x, y, what, GEOMETRY + ECHO + POWER, GEOMETRY1 + TIMES + ('lat_surf', 'lat_sat', 'lon_surf', 'lon_sat'),
             rtol=1e-12, atol=1e-12)
        vectors(ctx, x, y, what, np.eye(3), 1e-12)
    ctx.mark(bool(a))
