"""What the output products have to contain for a record, and reading them back (own decoding, no auto scaling)."""
import math

import netCDF4
import numpy as np

LIMITS = {'i1': (-128, 127), 'u1': (0, 255), 'i2': (-32768, 32767), 'u2': (0, 65535), 'i4': (-2 ** 31, 2 ** 31 - 1),
          'u4': (0, 2 ** 32 - 1)}
DEG = 'degrees'


def day_fields(s):
    """(day, second of the day) of a record, from its reference burst"""
    secs = s.prev_utc_secs + (s.time_surf - s.prev_tai)
    day = s.prev_utc_days
    if secs > s.curr_day_length:
        return day + 1, secs - s.curr_day_length
    return day, secs


def _common(sfx):
    """fields of all products: name -> (getter(surface, closest burst, speed of light), type, scale, offset, units)"""
    f = {
        'time': (lambda s, b, c: s.time_surf, 'f8', 1, 0, 'seconds since 2000-01-01 00:00:00.0'),
        'lat': (lambda s, b, c: math.degrees(s.lat_surf), 'i4', 1e-6, 0, 'degrees_north'),
        'lon': (lambda s, b, c: math.degrees(s.lon_surf), 'i4', 1e-6, 0, 'degrees_east'),
        'alt': (lambda s, b, c: s.alt_sat, 'i4', 1e-4, 7e5, 'm'),
        'orb_alt_rate': (lambda s, b, c: s.alt_rate_sat, 'i2', 1e-2, 0, 'm/s'),
        'surf_type': (lambda s, b, c: b.surf_type, 'i1', 1, 0, None),
        'range_ku': (lambda s, b, c: s.win_delay_surf * c / 2, 'i4', 1e-4, 7e5, 'm'),
        'uso_cor': (lambda s, b, c: b.uso_cor, 'i4', 1e-4, 0, 'm'),
        'int_path_cor_ku': (lambda s, b, c: b.int_path_cor_ku, 'i4', 1e-4, 0, 'm'),
        'agc_ku': (lambda s, b, c: b.agc_ku, 'i4', 1e-2, 0, 'dB'),
        'scale_factor_ku': (lambda s, b, c: s.sigma0_scaling_factor, 'i4', 1e-2, 0, 'dB'),
        'sig0_cal_ku': (lambda s, b, c: b.sig0_cal_ku, 'i4', 1e-2, 0, 'dB'),
        'stdev_stack': (lambda s, b, c: s.stack_std, 'u4', 1e-6, 0, 'rad'),
        'skew_stack': (lambda s, b, c: s.stack_skewness, 'i4', 1e-6, 0, 'count'),
        'kurt_stack': (lambda s, b, c: s.stack_kurtosis, 'i4', 1e-6, 0, 'count'),
    }
    for q in 'xyz':
        f[q + '_pos'] = (lambda s, b, c, q=q: getattr(s, q + '_sat'), 'f8', 1, 0, 'm')
        f[q + '_vel'] = (lambda s, b, c, q=q: getattr(s, q + '_vel_sat'), 'f8', 1, 0, 'm/s')
    return f


def _l1b():
    f = _common('l1b')
    for name, t in (('isp_coarse_time', 'u4'), ('isp_fine_time', 'i4'), ('sral_fine_time', 'u4'),
                    ('flag_time_status', 'i1'), ('nav_bul_status', 'i1'), ('nav_bul_source', 'i1'), ('oper_instr', 'i1'),
                    ('SAR_mode', 'i1'), ('cl_gain', 'i1'), ('acq_stat', 'i1'), ('dem_eeprom', 'i1'),
                    ('loss_track', 'i1'), ('h0_nav_dem', 'u4'), ('h0_applied', 'u4'), ('cor2_nav_dem', 'i2'),
                    ('cor2_applied', 'i2'), ('dh0', 'i4'), ('agccode_ku', 'i2')):
        f[name] = (lambda s, b, c, name=name: getattr(b, name), t, 1, 0, None)
    f['seq_count'] = (lambda s, b, c: b.source_seq_count, 'u2', 1, 0, None)
    f['agc_cor_ku'] = (lambda s, b, c: b.agc_ku - b.agccode_ku, 'i4', 1e-2, 0, 'dB')
    f['max_stack'] = (lambda s, b, c: s.stack_max, 'u4', 1e-2, 0, 'FFT power unit')
    return f


def _angles(f):
    for q in ('roll', 'pitch', 'yaw'):
        f[q + '_sat_pointing'] = (lambda s, b, c, q=q: math.degrees(getattr(s, q + '_sat')), 'i2', 1e-4, 0, DEG)
    for e in ('start', 'stop'):
        f[e + '_look_angle_stack'] = (lambda s, b, c, e=e: getattr(s, e + '_look_angle'), 'i2', 1e-6, 0, 'rad')
        f[e + '_beam_ang_stack'] = (lambda s, b, c, e=e: getattr(s, e + '_beam_angle'), 'i2', 1e-6, 1.57, 'rad')


def extended():
    f = _l1b()
    _angles(f)
    f['nb_stack'] = (lambda s, b, c: s.n_beams_start_stop, 'u2', 1, 0, 'count')
    n = lambda s: int(s.data_stack_size)
    f['beam_ang'] = (lambda s, b, c: np.asarray(s.beam_angles_surf)[:n(s)], 'i2', 1e-6, 1.57, 'rad')
    f['look_ang'] = (lambda s, b, c: np.asarray(s.look_angles_surf)[:n(s)], 'i2', 1e-6, 0, 'rad')
    f['stack_mask_vector'] = (lambda s, b, c: np.asarray(s.stack_mask_vector_start_stop)[:int(s.n_beams_start_stop)],
                              'i2', 1, 0, 'count')
    f['stack_scale_factor_ku'] = (lambda s, b, c: np.asarray(s.sigma0_scaling_factor_beam)[:n(s)], 'i4', 1e-2, 0, 'dB')
    return 'l1b', f


def sentinel3():
    f = _l1b()
    f['nb_stack'] = (lambda s, b, c: s.data_stack_size, 'u2', 1, 0, 'count')
    f['beam_ang'] = (lambda s, b, c: -np.asarray(s.look_angles_surf)[:int(s.data_stack_size)], 'i2', 1e-6, 0, 'rad')
    f['i2q2_meas_ku'] = (lambda s, b, c: np.asarray(s.waveform_multilooked), 'u4', 1e-3, 0, 'count')
    return 'l1b', f


def l1bs():
    f = _common('l1bs')
    _angles(f)
    for q in ('roll', 'pitch', 'yaw'):
        f[q + '_sral_mispointing'] = (lambda s, b, c, q=q: getattr(b, q + '_sral_mispointing'), 'i2', 1e-4, 0, DEG)
    for q in 'xyz':
        f['meas_%s_pos' % q] = (lambda s, b, c, q=q: getattr(s, q + '_surf'), 'f8', 1, 0, 'm')
    f['records_count'] = (lambda s, b, c: s.surface_counter, 'i4', 1, 0, 'count')
    f['cog_cor'] = (lambda s, b, c: b.cog_cor, 'i2', 1e-4, 0, 'm')
    f['agccode_ku'] = (lambda s, b, c: b.agccode_ku, 'i1', 1, 0, 'dB')
    f['i2q2_meas_ku'] = (lambda s, b, c: np.asarray(s.waveform_multilooked) * 10 ** (-b.agc_ku / 10.), 'u4', 1e-3, 0,
                         'count')
    f['nb_stack'] = (lambda s, b, c: s.data_stack_size, 'u2', 1, 0, 'count')
    f['max_stack'] = (lambda s, b, c: s.stack_max, 'u4', 1e-4, 0, 'FFT power unit')
    f['beam_ang'] = (lambda s, b, c: np.asarray(s.beam_angles_start_stop)[:int(s.n_beams_start_stop)], 'i2', 1e-6, 1.57,
                     'rad')
    f['burst_start_ind'] = (lambda s, b, c: s.start_burst_index, 'i4', 1, 0, 'count')
    f['burst_stop_ind'] = (lambda s, b, c: s.stop_burst_index, 'i4', 1, 0, 'count')
    return 'l1bs', f


class File:
    """decoded content of an output product"""

    def __init__(self, path):
        self.raw, self.units, self.values, self.fill, self.about = {}, {}, {}, {}, {}
        with netCDF4.Dataset(path) as d:
            self.dims = {n: len(v) for n, v in d.dimensions.items()}
            self.attrs = {n: d.getncattr(n) for n in d.ncattrs()}
            for n, v in d.variables.items():
                v.set_auto_maskandscale(False)
                a = v[:]
                self.raw[n] = a
                at = v.ncattrs()
                self.about[n] = {k: v.getncattr(k) for k in at}
                scale = float(v.getncattr('scale_factor')) if 'scale_factor' in at else None
                offset = float(v.getncattr('add_offset')) if 'add_offset' in at else 0.0
                self.values[n] = a if scale is None and not offset else a * (scale or 1.0) + offset
                u = v.getncattr('units') if 'units' in at else None
                self.units[n] = u.decode() if isinstance(u, bytes) else u
                self.fill[n] = v.getncattr('_FillValue') if '_FillValue' in at else None

    def get(self, name, suffix):
        return self.values['%s_%s_echo_sar_ku' % (name, suffix)]

    def count(self):
        return next(n for d, n in self.dims.items() if d.startswith('time_'))


def described(ctx, f):
    """texts are texts, and flags say what each of their values means"""
    for n, at in f.about.items():
        for k, v in at.items():
            ctx.require(not isinstance(v, (list, tuple)), 'attribute %s of %s is not one text but %r', k, n, v)
        if 'flag_meanings' in at:
            values, words = np.atleast_1d(at['flag_values']), at['flag_meanings'].split()
            ctx.equal(len(words), len(values), 'number of meanings of ' + n)
            ctx.equal(len(set(words)), len(words), 'number of different meanings of ' + n)
            stored = {int(x) for x in np.ravel(f.raw[n])} - {None if f.fill[n] is None else int(f.fill[n])}
            if len(np.ravel(f.raw[n])):
                ctx.require(stored - {-127, 127, -128} <= {int(x) for x in values}, '%s holds %s, its flags are %s', n, sorted(stored), values)


def compare(ctx, f, index, spec, s, b, c, what='', only=None, slack=1.0):
    """record `index` of file `f` against surface `s` with closest burst `b`; returns how many values could be judged"""
    suffix, fields = spec
    judged = 0
    for name, (get, kind, scale, offset, units) in fields.items():
        if only and name not in only:
            continue
        full = '%s_%s_echo_sar_ku' % (name, suffix)
        ctx.require(full in f.values, what + 'there is no variable %s', full)
        if units is not None:
            ctx.equal(f.units[full], units, what + 'units of ' + full)
        want = np.atleast_1d(np.asarray(get(s, b, c), dtype=float))
        got = np.atleast_1d(np.asarray(f.values[full][index], dtype=float))[:len(want)]
        ctx.equal(len(got), len(want), what + 'number of values of ' + full)
        ok = np.isfinite(want)
        if kind in LIMITS:
            raw = (np.where(ok, want, 0) - offset) / scale
            lo, hi = LIMITS[kind]
            ok &= (raw > lo - 0.4) & (raw < hi - 0.6)       # the last one is the fill value
            # rounding or truncation of counts, half a step of scaled values
            tol = np.full(want.shape, 0.5000001 * scale * slack if scale != 1 else 0.0)
            if scale == 1:
                tol = np.where(want == np.round(want), 0.0, 1.0)
        else:
            tol = np.zeros(want.shape)
        tol = tol + 4e-16 * np.abs(want)
        bad = ok & ~(np.abs(got - want) <= tol)
        if bad.any():
            k = int(np.argmax(bad))
            ctx.fail('%s%s: read %r, the record has %r (value %d of %d)' % (
                what, full, float(got[k]), float(want[k]), k, len(want)))
        judged += int(ok.sum())
    return judged


def waveform_extended(ctx, f, index, s, what=''):
    wave = np.asarray(s.waveform_multilooked, float)
    top = wave.max() if wave.size else 0
    if not (np.isfinite(wave).all() and top > 0 and wave.min() >= 0):
        return False
    got = f.get('i2q2_meas_ku', 'l1b')[index] * float(f.get('i2q2_scale_factor', 'l1b')[index])
    ctx.close(got, wave, what + 'waveform', rtol=1e-12, atol=top * 0.6 / 4294967294.)
    return True


def echoes(ctx, f, index, s, what=''):
    """the complex stack of an L1BS record: 127 steps for the largest component, unused places are fill values"""
    iq = np.asarray(s.beams_range_compr_iq)
    n = len(iq)
    top = max(np.abs(iq.real).max(), np.abs(iq.imag).max()) if n else 0
    if not (np.isfinite(iq).all() and top > 0):
        return False
    scale = float(f.get('iq_scale_factor', 'l1bs')[index])
    ctx.close(scale, top / 127., what + 'scale factor of the echoes', rtol=1e-9)
    for name, part in (('i_echoes_ku', iq.real), ('q_echoes_ku', iq.imag)):
        raw = np.asarray(f.get(name, 'l1bs')[index], float)
        ctx.close(raw[:n] * scale, part, what + name, rtol=0, atol=scale * (1 + 1e-6))
        fill = f.fill['%s_l1bs_echo_sar_ku' % name]
        ctx.require(fill is not None and np.all(raw[n:] == float(fill)), what + 'places of %s beyond the stack are used', name)
    return True
