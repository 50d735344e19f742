"""Drives the whole L1B processor on generated products."""
import contextlib
import math
import os

import numpy as np
from hypothesis import strategies as st

from . import gen, ref, synth
from .gen import floats

ARRAYS = ('beams_surf', 'beam_angles_surf', 't0_surf', 'doppler_angles_surf', 'look_angles_surf',
          'pointing_angles_surf', 'look_index_surf', 'look_counter_surf', 'beams_geo_corr',
          'slant_range_corrections', 'range_sat_surf', 'doppler_corrections', 'win_delay_corrections',
          'beams_range_compr', 'beams_range_compr_iq', 'beams_masked', 'stack_mask', 'stack_mask_vector',
          'waveform_multilooked', 'stack_mask_vector_start_stop', 'beam_angles_start_stop',
          'look_angles_start_stop', 'sigma0_scaling_factor_beam')
SCALARS = ('time_surf', 'x_surf', 'y_surf', 'z_surf', 'lat_surf', 'lon_surf', 'alt_surf', 'x_sat', 'y_sat', 'z_sat',
           'lat_sat', 'lon_sat', 'alt_sat', 'x_vel_sat', 'y_vel_sat', 'z_vel_sat', 'alt_rate_sat', 'roll_sat',
           'pitch_sat', 'yaw_sat', 'win_delay_surf', 'prev_tai', 'prev_utc_days', 'prev_utc_secs',
           'curr_day_length', 'data_stack_size', 'closest_burst_index', 'sigma0_scaling_factor', 'stack_max',
           'stack_std', 'stack_skewness', 'stack_kurtosis', 'n_beams_start_stop', 'start_look_angle',
           'stop_look_angle', 'start_doppler_angle', 'stop_doppler_angle', 'start_pointing_angle',
           'stop_pointing_angle', 'start_beam_angle', 'stop_beam_angle', 'start_burst_index', 'stop_burst_index',
           'surface_counter', 'gps_time_surf')


class Snap:
    """the content of a surface at the moment it is handed to a writer"""

    def __init__(self, s):
        for n in ARRAYS:
            setattr(self, n, np.array(getattr(s, n)))
        for n in SCALARS:
            setattr(self, n, getattr(s, n))
        n = int(s.data_stack_size)
        self.size = n
        self.burst_counters = [int(b.counter) for b in s.stack_bursts[:n]]
        self.burst_waves = [np.array(b.waveform_cor_sar) for b in s.stack_bursts[:n]]
        self.target_focused = bool(s.target_focused)
        self.pos = np.array([s.x_surf, s.y_surf, s.z_surf], dtype=float)

    def stack(self, P, bursts):
        """the record's stack as the reference model sees it; `bursts`: reference burst by counter"""
        st = ref.Stack()
        n = self.size
        st.fragile = set()
        st.size = n
        st.bursts = [bursts[c] for c in self.burst_counters]
        st.beam_angle = self.beam_angles_surf[:n]
        st.beams = self.beams_surf[:n]
        st.doppler = self.doppler_angles_surf[:n]
        st.look = self.look_angles_surf[:n]
        st.pointing = self.pointing_angles_surf[:n]
        st.closest = int(self.closest_burst_index)
        st.range = self.range_sat_surf[:n]
        st.dop_cor = self.doppler_corrections[:n]
        st.slant_cor = self.slant_range_corrections[:n]
        st.wd_cor = self.win_delay_corrections[:n]
        st.shift = st.dop_cor + st.slant_cor + st.wd_cor
        st.corrected = self.beams_geo_corr[:n]
        st.iq = self.beams_range_compr_iq[:n]
        st.power = self.beams_range_compr[:n]
        st.mask = self.stack_mask[:n]
        st.mask_vector = self.stack_mask_vector[:n]
        st.masked = self.beams_masked[:n]
        return st


@contextlib.contextmanager
def without_fits(enabled=True):
    """skip the (slow) curve fits of the stack characterisation where they are not the subject"""
    import importlib
    try:
        m = importlib.import_module('dedop.proc.sar.algorithms.multilooking')
    except ImportError:
        m = None
    saved = getattr(m, 'curve_fit', None) if enabled else None
    if saved is None:
        yield
        return

    def none(*args, **kwargs):
        raise RuntimeError('no fit')
    m.curve_fit = none
    try:
        yield
    finally:
        m.curve_fit = saved


@contextlib.contextmanager
def capturing(sink):
    """records go to `sink` instead of into the output files"""
    from dedop.data.output import L1BSWriter, L1BWriter, L1BWriterExtended
    saved = [(c, c.write_record) for c in (L1BSWriter, L1BWriter, L1BWriterExtended)]
    try:
        for c, _ in saved:
            c.write_record = (lambda name: lambda self, surf: sink(name, surf))(c.__name__)
        yield
    finally:
        for c, f in saved:
            c.write_record = f


def scenarios(pulses=(4, 8), samples=(8, 16), surfaces=(84, 110), cnf=None, world=None, **more):
    """a product long enough to be processed, with its configuration (JSON)"""
    parts = {
        'inst': st.fixed_dictionaries({
            'pulses': st.sampled_from(list(pulses)), 'samples': st.sampled_from(list(samples)),
            'freq': st.sampled_from([13.575e9, 13.575e9, 20e9]), 'prf': st.sampled_from([17825.311, 18181.8]),
            'ratio': floats(0.7, 0.97), 'clock': st.sampled_from([5e6, 1e7]),
            'pulse_length': st.just(4.48e-5), 'bw': st.sampled_from([320e6, 200e6])}),
        'world': world if world is not None else gen.orbits(),
        'surfaces': st.integers(*surfaces),
        'cnf': cnf if cnf is not None else options(),
    }
    parts.update(more)
    return st.fixed_dictionaries(parts)


def options():
    return st.fixed_dictionaries({
        'flag_cal1_corrections_cnf': st.booleans(), 'flag_cal2_correction_cnf': st.booleans(),
        'flag_cal2_table_index_cnf': st.integers(0, 2),
        'flag_azimuth_processing_method_cnf': st.sampled_from(['approx', 'exact']),
        'flag_azimuth_windowing_method_cnf': st.sampled_from(['none', 'boxcar', 'hamming', 'hanning']),
        'azimuth_window_width_cnf': st.just(4),
        'flag_doppler_range_correction_cnf': st.booleans(),
        'flag_slant_range_correction_cnf': st.sampled_from([True, True, False]),
        'flag_stack_masking_cnf': st.booleans(), 'flag_avoid_zeros_in_multilooking_cnf': st.booleans(),
        'flag_antenna_weighting_cnf': st.booleans(), 'zp_fact_range_cnf': st.integers(1, 3),
        'N_looks_stack_cnf': st.integers(2, 12),
    })


class Product:
    """the files of a scenario"""

    def __init__(self, directory, case, name='L1A_x', gaps=(), invalid=(), n=None, chd=None, cnf=None, values=None):
        self.dir = directory
        world = dict(case['world'])
        over = gen.chd_of(case['inst'], world, **(chd or {}))
        spacing = 1.5e-4
        a, w = synth.antenna_pattern(spacing, world['seed'] % 1000)
        over.update(antenna_angles_chd=a, antenna_weights_chd=w, antenna_angles_spacing_chd=spacing)
        if case.get('mask'):
            over.update(look_angle_mask_min_chd=case['mask'][0], look_angle_mask_max_chd=case['mask'][1])
        self.cnf = dict(case['cnf'])
        self.cnf.update(cnf or {})
        self.P = ref.Params(over, self.cnf)
        self.n = n if n is not None else int(math.ceil(case['surfaces'] / case['inst']['ratio'])) + 2
        world['n'] = self.n
        world['gaps'] = [list(g) for g in gaps]
        world['invalid'] = list(invalid)
        self.world = world
        self.made = synth.make_values(world, self.P.chd) if values is None else values
        self.path = os.path.join(directory, name + '.nc')
        synth.write_l1a(self.path, self.made)
        self.values = synth.read_l1a(self.path)
        self.conf = synth.write_config(os.path.join(directory, 'conf-' + name), over, self.cnf)
        self.over = over

    def processor(self, name='r', out=None, skip_l1bs=True):
        from dedop.proc.sar import L1BProcessor
        return L1BProcessor(name, self.conf['cnf'], self.conf['cst'], self.conf['chd'],
                            out or os.path.join(self.dir, 'out'), skip_l1bs=skip_l1bs)

    def capture(self, processor=None, path=None, monitor=None, fits=False):
        """(status, snapshots) of one run, nothing written"""
        snaps = []
        p = processor or self.processor()
        with without_fits(not fits), capturing(lambda name, s: snaps.append(Snap(s))):
            if monitor is None:
                status = p.process(path or self.path)
            else:
                status = p.process(path or self.path, monitor)
        return status, snaps

    def expected(self):
        return ref.run(self.P, self.values)

    def bursts(self):
        """reference bursts by index"""
        return {i: ref.burst(self.P, self.values, i) for i in range(self.n)}



def holes():
    """interruptions of a track: pauses (in burst intervals) and unusable records"""
    pause = st.one_of(floats(0.05, 0.45), floats(0.55, 3.0), floats(3.0, 100.0))
    return {'gaps': st.one_of(st.just([]), st.lists(st.tuples(st.integers(3, 120), pause).map(list),
                                                    min_size=1, max_size=3)),
            'invalid': st.one_of(st.just([]), st.lists(st.integers(0, 120), min_size=1, max_size=3))}


def product(case, ctx, **more):
    bri = 1.0 / gen.chd_of(case['inst'], case['world'])['brf_sar_chd']
    gaps = [[at, pause * bri] for at, pause in case.get('gaps', ())]
    return Product(ctx.tmpdir(), case, gaps=gaps, invalid=case.get('invalid', ()), **more)


def too_short(p):
    """a product has to be refused when it is one uninterrupted run with fewer than 80 surfaces"""
    segs = ref.segments(p.P, [ref.burst(p.P, p.values, i) for i in ref.selected(p.P, p.values)])
    return len(segs) == 0 or (len(segs) == 1 and len(ref.locate(p.P, segs[0])) < 80)


def run_case(case, ctx, fits=False, **more):
    """(product, snapshots, {counter: reference burst}) of a captured run of a scenario, or None if it is too short"""
    p = product(case, ctx, **more)
    try:
        status, snaps = p.capture(fits=fits)
    except Exception as e:
        if 'insufficient' in str(e) and too_short(p):
            ctx.label('refused as too short')
            return None
        raise
    ctx.require(status is None, 'processing a complete product reported status %r', status)
    return p, snaps, p.bursts()
