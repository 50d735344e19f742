"""C02: what the configuration objects report is exactly what the auxiliary files say."""
import json
import math
import os
import warnings

import numpy as np
from hypothesis import strategies as st

from vlib.harness import prop
from vlib import synth
from vlib.gen import floats

from dedop.conf import CharacterisationFile, ConfigurationFile, ConstantsFile
from dedop.conf.auxiliary_errors import (IncompatibleAuxiliaryFileError, MissingParameterError,
                                         UnknownParameterWarning)
from dedop.conf.enums import AzimuthProcessingMethod, AzimuthWindowingMethod, OutputFormat

ASSUMPTIONS = ['parameter values are of the JSON type the shipped configuration uses for them']

numbers = st.one_of(st.integers(-10 ** 6, 10 ** 6), floats(-1e9, 1e9))
positive = st.one_of(st.integers(1, 10 ** 6), floats(1e-9, 1e9))
flag = st.booleans()
angle = st.one_of(floats(-180, 180), st.integers(-180, 180))

# attribute -> (JSON name, value strategy, conversion, optional, default)
CST = {a: (n, positive, float, False, None) for a, n in (
    ('c', 'c_cst'), ('pi', 'pi_cst'), ('semi_major_axis', 'semi_major_axis_cst'),
    ('semi_minor_axis', 'semi_minor_axis_cst'), ('earth_radius', 'earth_radius_cst'),
    ('flat_coeff', 'flat_coeff_cst'), ('sec_in_day', 'sec_in_day_cst'))}
CHD = {a: (n, positive, float, False, None) for a, n in (
    ('mean_sat_alt', 'mean_sat_alt_chd'), ('freq_ku', 'freq_ku_chd'), ('pulse_length', 'pulse_length_chd'),
    ('bw_ku', 'bw_ku_chd'), ('power_tx_ant_ku', 'power_tx_ant_ku_chd'), ('antenna_gain_ku', 'antenna_gain_ku_chd'),
    ('uso_freq_nom', 'uso_freq_nom_chd'), ('alt_freq_multiplier', 'alt_freq_multiplier_chd'),
    ('prf_sar', 'prf_sar_chd'), ('brf_sar', 'brf_sar_chd'),
    ('antenna_angles_spacing', 'antenna_angles_spacing_chd'), ('ptr_width', 'ptr_width_chd'),
    ('fft_step_freq_ku', 'fft_step_freq_ku_chd'))}
CHD['ratio_trc_ku'] = ('ratio_trc_ku_chd', numbers, float, False, None)
CHD['n_samples_sar'] = ('N_samples_sar_chd', st.integers(1, 1024), int, False, None)
CHD['n_ku_pulses_burst'] = ('N_ku_pulses_burst_chd', st.integers(1, 256), int, False, None)
CHD['look_angle_mask_min'] = ('look_angle_mask_min_chd', angle, math.radians, True, None)
CHD['look_angle_mask_max'] = ('look_angle_mask_max_chd', angle, math.radians, True, None)
same = lambda v: v
CNF = {a: (a + '_cnf', flag, same, False, None) for a in (
    'flag_cal2_correction', 'flag_uso_correction', 'flag_cal1_corrections', 'flag_cal1_intraburst_corrections',
    'flag_surface_focusing', 'flag_postphase_azimuth_processing', 'flag_doppler_range_correction',
    'flag_slant_range_correction', 'flag_stack_masking', 'flag_avoid_zeros_in_multilooking',
    'flag_surface_weighting', 'flag_antenna_weighting')}
CNF.update({
    'flag_cal2_table_index': ('flag_cal2_table_index_cnf', st.integers(0, 2), int, False, None),
    'surface_focusing_lat': ('surface_focusing_lat_cnf', angle, math.radians, False, None),
    'surface_focusing_lon': ('surface_focusing_lon_cnf', angle, math.radians, False, None),
    'surface_focusing_alt': ('surface_focusing_alt_cnf', numbers, same, False, None),
    'flag_azimuth_processing_method': ('flag_azimuth_processing_method_cnf', st.sampled_from(['approx', 'exact']),
                                       AzimuthProcessingMethod, False, None),
    'flag_azimuth_windowing_method': ('flag_azimuth_windowing_method_cnf',
                                      st.sampled_from(['none', 'boxcar', 'hamming', 'hanning']),
                                      AzimuthWindowingMethod, False, None),
    'azimuth_window_width': ('azimuth_window_width_cnf', st.integers(2, 64), same, False, None),
    'flag_window_delay_alignment_method': ('flag_window_delay_alignment_method_cnf', st.integers(0, 4), same, False,
                                           None),
    'zp_fact_range': ('zp_fact_range_cnf', st.integers(1, 8), same, False, None),
    'n_looks_stack': ('N_looks_stack_cnf', st.integers(1, 500), same, False, None),
    'min_lat': ('min_lat_cnf', angle, same, True, None), 'max_lat': ('max_lat_cnf', angle, same, True, None),
    'min_lon': ('min_lon_cnf', angle, same, True, None), 'max_lon': ('max_lon_cnf', angle, same, True, None),
    'output_format': ('output_format_flag_cnf', st.sampled_from(['sentinel-3', 'extended']), OutputFormat, True,
                      OutputFormat.extended),
})
TABLES = {'cst': (CST, ConstantsFile, 0), 'chd': (CHD, CharacterisationFile, 1), 'cnf': (CNF, ConfigurationFile, 3)}
ARRAYS = {'antenna_weights': 'antenna_weights_chd', 'antenna_angles': 'antenna_angles_chd'}


def contents(kind):
    table = TABLES[kind][0]
    mandatory = {n: s for n, s, _, opt, _ in table.values() if not opt}
    optional = {n: s for n, s, _, opt, _ in table.values() if opt}
    base = st.fixed_dictionaries(mandatory, optional=optional)
    if kind == 'chd':
        def add(t):
            d, seed = t
            if seed is not None:
                rng = np.random.RandomState(seed)
                d['antenna_weights_chd'] = rng.rand(250).round(6).tolist()
                d['antenna_angles_chd'] = (np.arange(250) * 1e-4 + round(float(rng.rand()), 3)).tolist()
            return d
        return st.tuples(base, st.one_of(st.none(), st.integers(0, 10 ** 6))).map(add)
    return base


def _write(path, params, version, order=None, meta=True, extra=()):
    doc = {}
    names = list(params) + [e for e in extra]
    if order is not None:
        rng = np.random.RandomState(order)
        rng.shuffle(names)
    info = {'version': version, 'description': 'x', 'changelog': []}
    if meta and (order is None or order % 2):
        doc['__metainf__'] = info
    for n in names:
        doc[n] = {'value': params.get(n, 17), 'units': 'm', 'description': n}
    if meta:
        doc['__metainf__'] = info
    with open(path, 'w') as f:
        json.dump(doc, f)


def _open(kind, path=None, cst=None, **kw):
    cls = TABLES[kind][1]
    if kind == 'chd':
        return cls(cst, path, **kw)
    return cls(path, **kw)


def _compare(ctx, kind, obj, params, what):
    for attr, (name, _, conv, optional, default) in TABLES[kind][0].items():
        got = getattr(obj, attr)
        want = conv(params[name]) if name in params else default
        if isinstance(want, float):
            ok = isinstance(got, (float, int)) and math.isclose(got, want, rel_tol=1e-14, abs_tol=1e-300)
        elif want is None:
            ok = got is None
        else:
            ok = got == want
        ctx.require(ok, '%s %s.%s is %r, the file says %r', what, kind, attr, got, params.get(name, 'nothing'))
    if kind == 'chd':
        for attr, name in ARRAYS.items():
            if name in params:
                ctx.close(getattr(obj, attr), np.array(params[name]), what + ' ' + attr, rtol=0)


def cases():
    return st.sampled_from(['cst', 'chd', 'cnf']).flatmap(lambda k: st.fixed_dictionaries({
        'kind': st.just(k), 'a': contents(k), 'b': contents(k), 'order': st.integers(0, 10 ** 6),
        'kw': st.lists(st.sampled_from(sorted(v[0] for v in TABLES[k][0].values())), max_size=4, unique=True),
        'reads': st.integers(1, 2)}))


@prop(cases, quick=700, thorough=12000, shards=(2, 8), rule='two different files are open at the same time')
def values(case, ctx):
    kind = case['kind']
    ctx.mark(case['a'] != case['b'])
    ctx.label(kind)
    d = ctx.tmpdir()
    cst = ConstantsFile(**synth.cst_params())
    pa, pb = os.path.join(d, 'A.json'), os.path.join(d, 'B.json')
    version = TABLES[kind][2]
    _write(pa, case['a'], version, case['order'])
    _write(pb, case['b'], version)
    with warnings.catch_warnings():
        warnings.simplefilter('error')      # nothing unknown in these files: no warning allowed
        a = _open(kind, pa, cst)
        b = _open(kind, pb, cst)
        for _ in range(case['reads']):
            _compare(ctx, kind, a, case['a'], 'first file:')
            _compare(ctx, kind, b, case['b'], 'second file:')
        # keyword values replace those of the file, and only those
        over = {n: case['b'][n] for n in case['kw'] if n in case['b']}
        mixed = dict(case['a'])
        mixed.update(over)
        _compare(ctx, kind, _open(kind, pa, cst, **over), mixed, 'with keywords:')
        _compare(ctx, kind, _open(kind, None, cst, **case['b']), case['b'], 'keywords only:')
        _compare(ctx, kind, a, case['a'], 'first file, again:')


@prop(cases, quick=400, thorough=5000, rule='a mandatory parameter was removed')
def missing(case, ctx):
    """leaving out one parameter: an error naming it for a mandatory one, the default for an optional one"""
    kind = case['kind']
    d = ctx.tmpdir()
    cst = ConstantsFile(**synth.cst_params())
    table = TABLES[kind][0]
    attrs = sorted(table)
    attr = attrs[case['order'] % len(attrs)]
    name, _, _, optional, default = table[attr]
    params = {k: v for k, v in case['a'].items() if k != name}
    path = os.path.join(d, 'A.json')
    _write(path, params, TABLES[kind][2], case['order'])
    obj = _open(kind, path, cst)
    ctx.label('optional' if optional else 'mandatory')
    ctx.mark(not optional)
    for _ in range(case['reads']):
        if optional:
            got = getattr(obj, attr)
            ctx.require(got == default, 'absent optional %s is %r, expected %r', name, got, default)
        else:
            e = ctx.raises(MissingParameterError, lambda: getattr(obj, attr), 'absent %s' % name)
            ctx.require(name in str(e), 'the error for %s does not name it: %s', name, e)


@prop(lambda: st.tuples(cases(), st.one_of(st.integers(-2, 6), st.none(), st.just('unknown'))).map(
    lambda t: dict(t[0], version=t[1])), quick=400, thorough=5000, rule='the version differs from the current one')
def versions(case, ctx):
    """a file of another version (or without one) is refused; a file with an unknown parameter is read with a warning"""
    kind = case['kind']
    d = ctx.tmpdir()
    cst = ConstantsFile(**synth.cst_params())
    current = TABLES[kind][2]
    path = os.path.join(d, 'A.json')
    version = case['version']
    if version == 'unknown':
        _write(path, case['a'], current, case['order'], extra=['no_such_parameter_xyz'])
        ctx.mark()
        ctx.label('unknown parameter')
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            obj = _open(kind, path, cst)
        ctx.require(any(issubclass(w.category, UnknownParameterWarning) and 'no_such_parameter_xyz' in str(w.message)
                        for w in caught), 'no warning about an unknown parameter')
        _compare(ctx, kind, obj, case['a'], 'file with an unknown parameter:')
        return
    _write(path, case['a'], version, case['order'], meta=version is not None)
    if version == current:
        _compare(ctx, kind, _open(kind, path, cst), case['a'], 'file of the current version:')
    else:
        ctx.mark()
        ctx.raises(IncompatibleAuxiliaryFileError, lambda: _open(kind, path, cst), 'version %r' % version)


@prop(lambda: st.fixed_dictionaries({'chd': contents('chd'), 'cst': contents('cst'), 'cst2': contents('cst'),
                                     'wl': st.one_of(st.none(), floats(1e-3, 1.0))}),
      quick=300, thorough=4000, rule='two sets of constants that differ')
def derived(case, ctx):
    """derived quantities follow from the parameters of the same files"""
    objs = []
    for c in (case['cst'], case['cst2']):
        cst = ConstantsFile(**c)
        kw = dict(case['chd'])
        if case['wl'] is not None:
            kw['wv_length_ku_chd'] = case['wl']
        objs.append((cst, CharacterisationFile(cst, **kw)))
    ctx.mark(case['cst'] != case['cst2'])
    h = case['chd']
    for (cst, chd), c in zip(objs, (case['cst'], case['cst2'])):
        ctx.close(chd.pri_sar, 1.0 / h['prf_sar_chd'], 'pulse repetition interval', rtol=1e-12)
        ctx.close(chd.bri_sar, 1.0 / h['brf_sar_chd'], 'burst repetition interval', rtol=1e-12)
        want = case['wl'] if case['wl'] is not None else c['c_cst'] / h['freq_ku_chd']
        for _ in range(2):
            ctx.close(chd.wv_length_ku, want, 'wavelength', rtol=1e-12)
            ctx.close(chd.chirp_slope_ku, h['bw_ku_chd'] / h['pulse_length_chd'], 'chirp slope', rtol=1e-12)
        ctx.close(chd.t0_nom, 1.0 / (float(h['uso_freq_nom_chd']) * h['alt_freq_multiplier_chd']), 'sampling interval',
                  rtol=1e-12)


@prop(lambda: st.fixed_dictionaries({'length': st.one_of(st.integers(0, 6), st.integers(245, 255), st.just(500)), 'which': st.sampled_from(sorted(ARRAYS))}),
      quick=60, thorough=600, rule='the table has another length than the one shipped')
def lengths(case, ctx):
    """a table of another length is refused or reported as it is: never cut, filled up or repeated"""
    cst = ConstantsFile(**synth.cst_params())
    path = os.path.join(ctx.tmpdir(), 'A.json')
    table = [round(0.5 + 0.001 * i, 6) for i in range(case['length'])]
    _write(path, {ARRAYS[case['which']]: table}, TABLES['chd'][2])
    ctx.mark(case['length'] != 250)
    try:
        got = getattr(CharacterisationFile(cst, path), case['which'])
    except Exception:
        ctx.label('refused')
        return
    ctx.require(np.shape(got) == (len(table),) and np.array_equal(got, table), 'a table of %d values is reported as one of %s', len(table), np.shape(got))
