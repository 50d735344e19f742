"""C17: the written products hold the records of the processing, one for one, and they belong to the input."""
import contextlib
import math
import os

import numpy as np
from hypothesis import strategies as st

from vlib.harness import prop
from vlib import chain, gen, outputs, ref

ASSUMPTIONS = ['decisions of the reference model closer to their threshold than its accuracy are not judged',
               'positions are compared to 0.3 m, the waveforms and echoes with the content handed to the writers '
               '(whose computation is the subject of C05 to C16)']


@contextlib.contextmanager
def watching(sink):
    """records are noted and still written"""
    from dedop.data.output import L1BSWriter, L1BWriter, L1BWriterExtended
    saved = [(c, c.write_record) for c in (L1BSWriter, L1BWriter, L1BWriterExtended)]

    def make(name, f):
        def write_record(self, surf, *args, **kwargs):
            sink(name, surf)
            return f(self, surf, *args, **kwargs)
        return write_record
    try:
        for c, f in saved:
            c.write_record = make(c.__name__, f)
        yield
    finally:
        for c, f in saved:
            c.write_record = f


def scenarios():
    return chain.scenarios(pulses=(4,), samples=(4, 8), surfaces=(84, 96), l1bs=st.booleans(),
                           format=st.sampled_from(['extended', 'sentinel-3', None]), name=st.sampled_from(['r', 'run_1', 'x-y.z']),
                           **chain.holes())


@prop(scenarios, quick=20, thorough=400, rule='at least 60 records in the files', shards=(5, 8))
def files(case, ctx):
    p = chain.product(case, ctx, cnf={'output_format_flag_cnf': case['format']} if case['format'] else None)
    seen = {}

    def note(name, s):
        snap = chain.Snap(s)
        snap.burst = s.closest_burst
        snap.stack_bursts = list(s.stack_bursts[:int(s.data_stack_size)])
        seen.setdefault(name, []).append(snap)
    out = os.path.join(p.dir, 'out')
    proc = p.processor(case['name'], out, skip_l1bs=not case['l1bs'])
    try:
        with chain.without_fits(), watching(note):
            status = proc.process(p.path)
    except Exception as e:
        if 'insufficient' in str(e) and chain.too_short(p):
            ctx.label('refused as too short')
            return
        raise
    ctx.require(status is None, 'processing a complete product reported status %r', status)
    want = {'L1B__x_%s.nc' % case['name']} | ({'L1BS__x_%s.nc' % case['name']} if case['l1bs'] else set())
    ctx.equal(set(os.listdir(out)), want, 'output files')
    c = p.P.c
    expected = p.expected()
    for name in sorted(want):
        f = outputs.File(os.path.join(out, name))
        if name.startswith('L1BS'):
            snaps, spec = seen.get('L1BSWriter', []), outputs.l1bs()
        elif case['format'] == 'sentinel-3':
            snaps, spec = seen.get('L1BWriter', []), outputs.sentinel3()
        else:
            snaps, spec = seen.get('L1BWriterExtended', []), outputs.extended()
        ctx.equal(f.count(), len(snaps), 'number of records in ' + name)
        for i, s in enumerate(snaps):
            what = '%s record %d: ' % (name, i)
            outputs.compare(ctx, f, i, spec, s, s.burst, c, what)
            if name.startswith('L1BS'):
                outputs.echoes(ctx, f, i, s, what)
            elif case['format'] != 'sentinel-3':
                outputs.waveform_extended(ctx, f, i, s, what)
        if not expected.fragile:
            against_input(ctx, p, f, spec[0], expected, name)
            if len(expected) >= 60:
                ctx.mark()


COPIED = {'isp_coarse_time': 0, 'isp_fine_time': 0, 'sral_fine_time': 0, 'flag_time_status': 0, 'nav_bul_status': 0,
          'nav_bul_source': 0, 'oper_instr': 0, 'SAR_mode': 0, 'cl_gain': 0, 'acq_stat': 0, 'dem_eeprom': 0,
          'loss_track': 0, 'h0_nav_dem': 0, 'h0_applied': 0, 'cor2_nav_dem': 0, 'cor2_applied': 0, 'dh0': 0,
          'agccode_ku': 0, 'surf_type': 0, 'seq_count': 0, 'uso_cor': 1e-4, 'int_path_cor_ku': 1e-4, 'agc_ku': 1e-2,
          'sig0_cal_ku': 1e-2, 'cog_cor': 1e-4}


def against_input(ctx, p, f, suffix, expected, name):
    """the records are those the reference model derives from the input product"""
    ctx.equal(f.count(), len(expected), 'number of records in %s' % name)
    for i, (w, stack) in enumerate(expected):
        what = '%s record %d: ' % (name, i)
        got = lambda q: float(f.get(q, suffix)[i])
        ctx.close(got('time'), w.time, what + 'time', rtol=0, atol=1e-5)
        ctx.close(got('lat'), math.degrees(w.lat), what + 'latitude', rtol=0, atol=4e-6)
        ctx.require(gen.angdiff(math.radians(got('lon')), w.lon) * math.cos(w.lat) < 1e-7, what + 'longitude: %r, expected %r',
                    got('lon'), math.degrees(w.lon))
        ctx.close(got('alt'), w.alt_sat, what + 'altitude of the satellite', rtol=0, atol=0.3)
        ctx.close(got('range_ku'), w.wd * p.P.c / 2, what + 'range', rtol=0, atol=0.3)
        ctx.close([got(q + '_pos') for q in 'xyz'], w.sat, what + 'satellite position', rtol=0, atol=0.3)
        ctx.close([got(q + '_vel') for q in 'xyz'], w.vel, what + 'satellite velocity', rtol=0, atol=1e-3)
        ctx.close(got('orb_alt_rate'), w.alt_rate, what + 'altitude rate', rtol=0, atol=0.006)
        if 'closest' not in stack.fragile and 'looks' not in stack.fragile:
            k = stack.bursts[stack.closest].index
            for q, step in COPIED.items():
                full = '%s_%s_echo_sar_ku' % (q, suffix)
                if full not in f.values:
                    continue
                ctx.close(float(f.values[full][i]), float(p.values[q][k]), what + q + ' of its closest burst', rtol=0,
                          atol=step * 0.51 + 1e-9)
        if suffix == 'l1bs':
            ctx.close([got('meas_%s_pos' % q) for q in 'xyz'], w.pos, what + 'surface position', rtol=0, atol=0.3)
