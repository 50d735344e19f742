"""Reference model of the DeDop delay-Doppler chain.

Written from the algorithm descriptions (docs/user_manual and the comments of the
processing modules), vectorised, and sharing no code with dedop: it is the oracle the
generated cases are compared with.
"""
import math

import numpy as np

from . import synth


class Params:
    """plain view of the three auxiliary files"""

    def __init__(self, chd=None, cnf=None, cst=None):
        h = synth.chd_params(chd)
        k = synth.cst_params(cst)
        f = synth.cnf_params(cnf)
        self.chd, self.cst, self.cnf = h, k, f
        self.c = float(k['c_cst'])
        self.pi = float(k['pi_cst'])
        self.a = float(k['semi_major_axis_cst'])
        self.b = float(k['semi_minor_axis_cst'])
        self.re = float(k['earth_radius_cst'])
        self.day = float(k['sec_in_day_cst'])
        self.N = int(h['N_ku_pulses_burst_chd'])
        self.Ns = int(h['N_samples_sar_chd'])
        self.freq = float(h['freq_ku_chd'])
        self.wl = self.c / self.freq
        self.pri = 1.0 / float(h['prf_sar_chd'])
        self.bri = 1.0 / float(h['brf_sar_chd'])
        self.t0 = 1.0 / (float(h['uso_freq_nom_chd']) * float(h['alt_freq_multiplier_chd']))
        self.zp = int(f['zp_fact_range_cnf'])
        self.looks = int(f['N_looks_stack_cnf'])


def angle(u, v):
    u = np.ravel(np.asarray(u, dtype=np.float64))
    v = np.ravel(np.asarray(v, dtype=np.float64))
    # numerically robust at small angles
    return math.atan2(np.linalg.norm(np.cross(u, v)), float(np.dot(u, v)))


# ------------------------------------------------------------------------------------------------ input bursts

class Burst:
    pass


def burst(P, values, i):
    """what the reader has to make of record i of an L1A product"""
    b = Burst()
    b.index = i
    b.agc = float(values['agc_ku'][i])
    b.sig0 = float(values['sig0_cal_ku'][i])
    b.time = float(values['time'][i])
    b.day = float(values['UTC_day'][i])
    b.sec = float(values['UTC_sec'][i])
    b.lat = math.radians(values['lat'][i])
    b.lon = math.radians(values['lon'][i])
    b.alt = float(values['alt'][i])
    b.alt_rate = float(values['orb_alt_rate'][i])
    b.vel = np.array([values[k + '_vel'][i] for k in 'xyz'], dtype=np.float64)
    b.speed = float(np.sqrt(np.sum(b.vel ** 2)))
    b.roll, b.pitch, b.yaw = (math.radians(values[k + '_sral_mispointing'][i]) for k in ('roll', 'pitch', 'yaw'))
    rng = float(values['range_ku'][i]) + math.cos(math.radians(values['pitch_sat_pointing'][i])) * float(values['cog_cor'][i])
    b.wd = 2.0 * rng / P.c
    b.pos = synth.lla2ecef(b.lat, b.lon, b.alt, P.a, P.b)
    b.ground = synth.lla2ecef(b.lat, b.lon, b.alt - rng, P.a, P.b)
    b.t0 = P.t0
    b.pri = P.pri
    b.doppler = doppler_angle(P, b.lat, b.lon, b.alt, b.vel)
    # i and q are multiplied by 10^(agc/20)
    b.wave = (values['i_meas_ku'][i].astype(np.float64) + 1j * values['q_meas_ku'][i].astype(np.float64)) \
        * 10.0 ** (b.agc / 20.0)
    b.cal1_power = values['burst_power_cor_ku'][i]
    b.cal1_phase = values['burst_phase_cor_ku'][i]
    b.cal2 = values['gprw_meas_ku'][i][int(P.cnf['flag_cal2_table_index_cnf'])]
    b.seq = int(values['seq_count'][i])
    return b


def doppler_angle(P, lat, lon, alt, vel):
    """minus the angle between the velocity and its projection on the local horizontal plane"""
    normal = np.array([math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat)])
    horizontal = vel - np.dot(vel, normal) * normal
    return -angle(vel, horizontal)


def cal1(P, b, wave):
    if not P.cnf['flag_cal1_corrections_cnf']:
        return wave
    gain = np.sqrt(b.cal1_power) * np.exp(1j * np.asarray(b.cal1_phase)) * 10.0 ** (-(b.agc - b.sig0) / 20.0)
    return wave * gain[:, None]


def cal2(P, b, wave):
    if not P.cnf['flag_cal2_correction_cnf']:
        return wave
    spec = np.fft.fft(wave, axis=1)
    return np.fft.ifft(spec / np.sqrt(np.fft.ifftshift(b.cal2))[None, :], axis=1)


# ------------------------------------------------------------------------------------------------ surfaces

class Surface:
    pass


def first_surface(P, b):
    s = Surface()
    s.time = b.time
    s.sat = b.pos.copy()
    s.lat_sat, s.lon_sat, s.alt_sat = b.lat, b.lon, b.alt
    s.vel = b.vel.copy()
    s.alt_rate = b.alt_rate
    s.roll, s.pitch, s.yaw = b.roll, b.pitch, b.yaw
    s.lat, s.lon = b.lat, b.lon
    s.alt = b.alt - b.wd * P.c / 2
    s.pos = synth.lla2ecef(s.lat, s.lon, s.alt, P.a, P.b)
    s.wd = b.wd
    s.utc_ref = (b.time, b.day, b.sec)
    s.day_length = P.day
    return s


def resolution(P, vel):
    return math.asin(P.c / (2.0 * P.freq * np.linalg.norm(vel) * P.N * P.pri))


def subtended(s, point):
    return angle(s.pos - s.sat, point - s.sat)


def next_surface(P, s, prev, cur):
    """the surface created when the burst `cur` arrives, or None"""
    res = resolution(P, s.vel)
    now = subtended(s, cur.ground)
    if now < res:
        return None
    before = subtended(s, prev.ground)
    f = (res - before) / (now - before)
    n = Surface()
    n.fraction = f

    def mix(x, y):
        return x + f * (y - x)
    n.time = mix(prev.time, cur.time)
    n.pos = mix(prev.ground, cur.ground)
    n.sat = mix(prev.pos, cur.pos)
    n.vel = mix(prev.vel, cur.vel)
    n.alt_rate = mix(prev.alt_rate, cur.alt_rate)
    n.roll, n.pitch, n.yaw = mix(prev.roll, cur.roll), mix(prev.pitch, cur.pitch), mix(prev.yaw, cur.yaw)
    n.lat, n.lon, n.alt = (float(q) for q in synth.ecef2lla(*n.pos, P.a, P.b))
    n.lat_sat, n.lon_sat, n.alt_sat = (float(q) for q in synth.ecef2lla(*n.sat, P.a, P.b))
    n.wd = (n.alt_sat - n.alt) * 2.0 / P.c
    n.utc_ref = (prev.time, prev.day, prev.sec)
    leap = lambda b: b.time - (b.day * P.day + b.sec)
    n.day_length = P.day + leap(cur) - leap(prev)
    return n


def focus_target(P):
    return synth.lla2ecef(math.radians(P.cnf['surface_focusing_lat_cnf']),
                          math.radians(P.cnf['surface_focusing_lon_cnf']),
                          float(P.cnf['surface_focusing_alt_cnf']), P.a, P.b)


ANGLE_MARGIN = 1e-7     # decisions closer than this to their threshold are not judged


def locate(P, bursts, focusing=False, state=None, fragile=None):
    """all surfaces of one uninterrupted run of bursts; `state` says whether the target has been met before"""
    surfaces = []
    state = {'found': False} if state is None else state
    fragile = set() if fragile is None else fragile
    for j, b in enumerate(bursts):
        s = first_surface(P, b) if not surfaces else next_surface(P, surfaces[-1], bursts[j - 1], b)
        if surfaces:
            res = resolution(P, surfaces[-1].vel)
            if abs(subtended(surfaces[-1], b.ground) - res) < 1e-8 * res:
                fragile.add('surface')
        if s is None:
            continue
        s.born = j
        if focusing and surfaces and not state['found']:
            target = focus_target(P)
            if abs(np.linalg.norm(target - s.pos) - np.linalg.norm(target - surfaces[-1].pos)) < 1e-3:
                fragile.add('focus')
        if focusing and len(surfaces) > 1 and not state['found']:
            target = focus_target(P)
            if np.linalg.norm(target - s.pos) > np.linalg.norm(target - surfaces[-1].pos):
                state['found'] = True
                move(P, surfaces[-2], surfaces[-1], target)
        surfaces.append(s)
    return surfaces


def move(P, before, s, target):
    d = s.pos - before.pos
    d = d / np.linalg.norm(d)
    s.pos = before.pos + np.dot(target - before.pos, d) * d
    s.lat, s.lon, s.alt = (float(q) for q in synth.ecef2lla(*s.pos, P.a, P.b))
    s.wd = (s.alt_sat - s.alt) * 2.0 / P.c
    s.focused = True


# ------------------------------------------------------------------------------------------------ beams

def beam_angles(P, b, positions):
    """(angles of the surfaces the burst sees, their positions in the list)"""
    q_min = math.acos(P.c / (4.0 * P.pri * P.freq * b.speed))
    q_max = P.pi - q_min
    d = np.asarray(positions) - b.pos
    cosang = d.dot(b.vel) / (np.sqrt((d ** 2).sum(axis=1)) * b.speed)
    ang = np.arccos(cosang)
    seen = (ang - b.doppler >= q_min) & (ang - b.doppler <= q_max)
    idx = np.flatnonzero(seen)
    if len(idx):
        # one uninterrupted run, starting at the first surface seen
        stop = idx[0]
        while stop < len(seen) and seen[stop]:
            stop += 1
        idx = np.arange(idx[0], stop)
    return ang[idx[-P.N:]] if len(idx) else np.zeros(0), [int(q) for q in idx[-P.N:]], ang - b.doppler, (q_min, q_max), seen


def trend(P, size, prev_size, prev_trend):
    if size == P.N:
        return 0
    if prev_size == -1 or size > prev_size:
        return 1
    if size < prev_size:
        return -1
    return prev_trend


def azimuth_window(kind, width, n):
    w = np.zeros(n)
    start = n // 2 - width // 2
    if kind == 'none':
        return np.ones(n)
    k = np.arange(width)
    if kind == 'boxcar':
        w[start:start + width] = 1.0
    elif kind == 'hanning':
        w[start:start + width] = 0.5 - 0.5 * np.cos(2 * np.pi * k / (width - 1))
    elif kind == 'hamming':
        w[start:start + width] = 0.54 - 0.46 * np.cos(2 * np.pi * k / (width - 1))
    else:
        raise ValueError(kind)
    return w


def nadir_index(P, size, tr):
    half = P.N // 2
    if tr == 1:
        return 0 if size < half else size - half
    if tr == -1:
        return size - 1 if size <= half else half
    return half


def dft_rows(P, wave, phase_per_pulse, rows):
    """rows of the centred, unitary azimuth DFT of the phase-rotated pulses"""
    n = P.N
    k = np.arange(n)
    rotated = wave * np.exp(-1j * phase_per_pulse * k)[:, None]
    freq = (np.asarray(rows) - n // 2)
    kernel = np.exp(-2j * np.pi * np.outer(freq, k) / n) / math.sqrt(n)
    return kernel.dot(rotated)


def azimuth(P, b, wave, angles, tr, wl=None):
    """focused beams, one row per beam angle"""
    wl = P.wl if wl is None else wl
    win = azimuth_window(P.cnf['flag_azimuth_windowing_method_cnf'], int(P.cnf['azimuth_window_width_cnf']), P.N)
    wave = wave * win[:, None]
    phase = lambda a: 4.0 * np.pi / wl * b.speed * math.cos(a) * b.pri
    size = len(angles)
    if P.cnf['flag_azimuth_processing_method_cnf'] == 'approx':
        first = P.N - size if tr == 1 else 0
        return dft_rows(P, wave, phase(angles[nadir_index(P, size, tr)]), np.arange(first, first + size))
    return np.array([dft_rows(P, wave, phase(a), [P.N // 2])[0] for a in angles]).reshape(size, wave.shape[1])


# ------------------------------------------------------------------------------------------------ stack

class Stack:
    pass


def gather(P, entries):
    """entries: [(burst, beam angle, focused beam, absolute beam index)] in time order"""
    looks = np.array([P.pi / 2 + e[0].doppler - e[1] for e in entries])
    fragile = set()
    if len(entries) > P.looks:
        nearest = np.argsort(np.abs(looks), kind='stable')[:P.looks]
        o = np.sort(np.abs(looks))
        if o[P.looks] - o[P.looks - 1] < ANGLE_MARGIN:
            fragile.add('looks')
        first = int(nearest.min())
        entries = entries[first:first + P.looks]
    s = Stack()
    s.fragile = fragile
    s.size = len(entries)
    s.bursts = [e[0] for e in entries]
    s.beam_angle = np.array([e[1] for e in entries])
    s.beams = np.array([e[2] for e in entries])
    s.doppler = np.array([e[0].doppler for e in entries])
    s.look = P.pi / 2 + s.doppler - s.beam_angle
    s.pointing = s.look - np.array([e[0].pitch for e in entries])
    s.look_index = np.array([e[3] for e in entries])
    off = np.abs(s.beam_angle - P.pi / 2)
    s.closest = int(np.argmin(off))
    off = np.sort(off)
    if len(off) > 1 and off[1] - off[0] < ANGLE_MARGIN:
        fragile.add('closest')
    return s


def geometry(P, s, surf_pos, surf_wd, wl=None):
    wl = P.wl if wl is None else wl
    speed = np.array([b.speed for b in s.bursts])
    t0 = np.array([b.t0 for b in s.bursts])
    s.range = np.array([np.linalg.norm(b.pos - surf_pos) for b in s.bursts])
    s.dop_cor = np.zeros(s.size)
    s.slant_cor = np.zeros(s.size)
    if P.cnf['flag_doppler_range_correction_cnf']:
        s.dop_cor = -2.0 / wl * speed * np.cos(s.beam_angle) * P.chd['pulse_length_chd'] / P.chd['bw_ku_chd'] / t0
    if P.cnf['flag_slant_range_correction_cnf']:
        s.slant_cor = (surf_wd - 2.0 * s.range / P.c) / t0
    s.wd_cor = (np.array([b.wd for b in s.bursts]) - surf_wd) / t0
    s.shift = s.dop_cor + s.slant_cor + s.wd_cor
    k = np.arange(P.Ns)
    s.corrected = s.beams * np.exp(2j * np.pi * np.outer(s.shift, k) / P.Ns)
    return s


def compress(P, s):
    m = P.zp * P.Ns
    # centred unitary DFT of the zero-padded pulse
    s.iq = np.fft.fftshift(np.fft.fft(s.corrected, n=m, axis=1), axes=1) / math.sqrt(m)
    s.power = s.iq.real ** 2 + s.iq.imag ** 2
    return s


def mask(P, s):
    m = P.zp * P.Ns
    full = np.ones((s.size, m))
    if not P.cnf['flag_stack_masking_cnf']:
        s.mask = full
        s.masked = s.power
        s.mask_vector = np.full(s.size, m - 1.0)
        return s
    k = np.arange(m)
    coarse = np.round(s.shift)
    rows = []
    for c in coarse:
        rows.append(k >= c * P.zp if c > 0 else k < (P.Ns + c) * P.zp)
    rows = np.array(rows, dtype=float).reshape(s.size, m)
    margin = 1e-6 if P.cnf['flag_slant_range_correction_cnf'] else 2e-3
    if np.any(np.abs(np.abs(s.shift - np.floor(s.shift)) - 0.5) < margin):
        s.fragile.add('mask')
    lo, hi = P.chd.get('look_angle_mask_min_chd'), P.chd.get('look_angle_mask_max_chd')
    for limit in (lo, hi):
        if limit is not None and np.any(np.abs(s.look - math.radians(limit)) < ANGLE_MARGIN):
            s.fragile.add('mask')
    if lo is not None and hi is not None:
        inside = (s.look > math.radians(lo)) & (s.look < math.radians(hi))
        rows *= inside[:, None]
    s.mask = rows
    s.masked = s.power * rows
    s.mask_vector = mask_vector(rows)
    return s


def mask_vector(rows):
    m = rows.shape[1]
    out = np.zeros(len(rows))
    for i, r in enumerate(rows):
        on = np.flatnonzero(r == 1)
        if len(on):
            out[i] = m - 1 if on[-1] == m - 1 else on[-1] + 1
    return out


def antenna_weight(P, ang):
    return float(np.interp(ang, P.chd['antenna_angles_chd'], P.chd['antenna_weights_chd']))


def multilook(P, s):
    w = np.ones(s.size)
    if P.cnf['flag_antenna_weighting_cnf']:
        w = np.array([antenna_weight(P, a) for a in s.pointing])
    beams = s.masked * w[:, None]
    used = np.flatnonzero(s.mask_vector != 0)
    if P.cnf['flag_avoid_zeros_in_multilooking_cnf']:
        num = (beams[used] * s.mask[used]).sum(axis=0)
        den = s.mask[used].sum(axis=0)
    else:
        num = beams[used].sum(axis=0)
        den = np.full(beams.shape[1], float(len(used)))
    with np.errstate(all='ignore'):
        s.waveform = num / den
    s.n_used = len(used)
    s.used = used
    if len(used):
        s.start, s.stop = int(used[0]), int(used[-1])
        s.n_start_stop = s.stop - s.start + 1
    else:
        s.start = s.stop = None
        s.n_start_stop = 0
    return s


def sigma0(P, s, wl=None):
    wl = P.wl if wl is None else wl
    h = P.chd
    const = 10 * math.log10(64) + 30 * math.log10(P.pi) - 10 * math.log10(h['power_tx_ant_ku_chd']) \
        - 2 * h['antenna_gain_ku_chd'] - 20 * math.log10(wl) + h['ratio_trc_ku_chd'] + 10 * math.log10(P.N)
    r = s.range
    speed = np.array([b.speed for b in s.bursts])
    pri = np.array([b.pri for b in s.bursts])
    azim = (1 + r / P.re) * wl * r / (pri * 2 * speed * P.N)
    rang = 2 * np.sqrt(P.c * r * h['ptr_width_chd'] * P.re / (P.re + r))
    area = 0.886 * azim * rang
    s.sigma0_beam = -(const + 40 * np.log10(r) - 10 * np.log10(area) - s.bursts[s.closest].agc)
    s.sigma0 = float(np.mean(s.sigma0_beam))
    return s


# ------------------------------------------------------------------------------------------------ whole chain

def selected(P, values):
    """indices of the bursts that have to be processed: in the region of interest and valid"""
    lat, lon = values['lat'], values['lon']
    keep = ~((lat == 0.0) & (lon == 0.0))
    for key, op in (('min_lat_cnf', lambda v: lat >= v), ('max_lat_cnf', lambda v: lat <= v),
                    ('min_lon_cnf', lambda v: lon >= v), ('max_lon_cnf', lambda v: lon <= v)):
        if P.cnf.get(key) is not None:
            keep &= op(P.cnf[key])
    return [int(i) for i in np.flatnonzero(keep)]


def segments(P, bursts, fragile=None):
    """uninterrupted runs: a burst at least 1.5 burst repetition intervals after the last one starts a new run"""
    out = []
    for b in bursts:
        step = b.time - out[-1][-1].time if out else None
        if step is not None and fragile is not None and abs(step - 1.5 * P.bri) < 1e-6 * P.bri:
            fragile.add('gap')
        if step is None or step >= 1.5 * P.bri:
            out.append([])
        out[-1].append(b)
    return out


class Result(list):
    """the expected records, as (surface, stack) pairs; `fragile`: decisions too close to call"""
    fragile = ()
    surfaces = 0


def run_segment(P, bursts, counter0=0, state=None, fragile=None):
    """the records of one uninterrupted run of bursts"""
    fragile = set() if fragile is None else fragile
    surfaces = locate(P, bursts, bool(P.cnf['flag_surface_focusing_cnf']), state, fragile)
    positions = np.array([s.pos for s in surfaces])
    entries = [[] for _ in surfaces]
    prev_size, prev_trend = -1, -1
    for b in bursts:
        angs, seen, tangent, limits, _ = beam_angles(P, b, positions)
        if np.any(np.abs(tangent - limits[0]) < ANGLE_MARGIN) or np.any(np.abs(tangent - limits[1]) < ANGLE_MARGIN):
            fragile.add('visibility')
        size = len(angs)
        tr = trend(P, size, prev_size, prev_trend)
        prev_size, prev_trend = size, tr
        if not size:
            continue
        wave = cal2(P, b, cal1(P, b, b.wave))
        rows = azimuth(P, b, wave, angs, tr)
        base = P.N - size if tr == 1 else 0
        for j, k in enumerate(seen):
            entries[k].append((b, float(angs[j]), rows[j], j + base - P.N // 2))
    records = []
    for k, s in enumerate(surfaces):
        s.counter = counter0 + k
        if not entries[k]:
            continue
        st = gather(P, entries[k])
        s.all_size = len(entries[k])
        if st.size < P.looks // 2:
            continue
        geometry(P, st, s.pos, s.wd)
        compress(P, st)
        mask(P, st)
        multilook(P, st)
        sigma0(P, st)
        records.append((s, st))
    return records, len(surfaces)


def run(P, values):
    """every record the processor has to write for an L1A product, in order"""
    bursts = [burst(P, values, i) for i in selected(P, values)]
    records = Result()
    records.fragile = set()
    state = {'found': False}
    count = 0
    records.segments = segments(P, bursts, records.fragile)
    for seg in records.segments:
        recs, n = run_segment(P, seg, count, state, records.fragile)
        for r in recs:
            r[0].segment = seg
        count += n
        records.extend(recs)
    records.surfaces = count
    return records
