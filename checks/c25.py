"""C25: names and global attributes of the output products follow from the input product and the processing."""
import datetime
import os

from hypothesis import strategies as st

from vlib.harness import prop
from vlib import chain, outputs, synth

ASSUMPTIONS = ['an L1A file whose name starts with L1A gives its name without that prefix to the outputs']
COPIED = ('mission_name', 'altimeter_sensor_name', 'gnss_sensor_name', 'doris_sensor_name', 'references', 'acq_station_name',
          'xref_altimeter_level0', 'xref_navatt_level0', 'xref_altimeter_orbit', 'xref_doris_uso',
          'xref_altimeter_ltm_lrm_cal1', 'xref_altimeter_ltm_sar_cal1', 'xref_altimeter_ltm_ku_cal2',
          'xref_altimeter_ltm_c_cal2', 'xref_altimeter_characterisation', 'xref_time_correlation', 'history')


def words():
    return st.text(alphabet='ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_ -.:/', min_size=1, max_size=30)


def plain():
    return st.text(alphabet='ABCDEFXYZabcxyz0123456789_-', min_size=1, max_size=20)


def cases():
    return chain.scenarios(
        pulses=(4,), samples=(2,), surfaces=(100, 104), l1bs=st.booleans(), file=st.one_of(
            plain().map(lambda s: 'L1A_' + s), plain(), st.just('L1A'), plain().map(lambda s: s + '.L1A'),
            plain().map(lambda s: 'L1A' + s), st.text('L1AB_', min_size=1, max_size=8).map(lambda s: 'L1A' + s)),
        name=plain(), globals=st.dictionaries(st.sampled_from(COPIED + ('xref_platform', 'something_else')), st.one_of(words(), st.integers(-999, 999), st.sampled_from(['', 0, 1.5])), max_size=19),
        product=st.one_of(st.none(), st.just('S3A_SR_1_SRA_A__20160910T094120_20160910T103149_20160912T063139_3029_008_293'),
                          words(), st.tuples(words(), words()).map(lambda t: t[0] + '_A__' + t[1])),
        roi=st.booleans(), cut=st.tuples(st.integers(0, 8), st.integers(0, 8)).map(list), format=st.sampled_from(['extended', 'sentinel-3']))


@prop(cases, quick=24, thorough=600, shards=(4, 8), rule='an attribute of the input is missing and another one is there')
def products(case, ctx):
    cnf = {'output_format_flag_cnf': case['format']}
    p = chain.product(case, ctx, cnf=cnf)
    if case['roi']:
        inner = p.values['lat'][case['cut'][0]:p.n - case['cut'][1]]
        cnf.update(min_lat_cnf=float(inner.min()), max_lat_cnf=float(inner.max()))
        p = chain.product(case, ctx, cnf=cnf)
    attrs = dict(case['globals'])
    if case['product'] is not None:
        attrs['product_name'] = case['product']
    folder = os.path.join(p.dir, 'in.put')
    os.makedirs(folder)
    path = os.path.join(folder, case['file'] + '.nc')
    synth.write_l1a(path, p.made, globals_=attrs)
    lat = p.values['lat']
    used = [i for i in range(p.n) if not case['roi'] or cnf['min_lat_cnf'] <= lat[i] <= cnf['max_lat_cnf']]
    if chain.too_short(p):
        return
    out = os.path.join(p.dir, 'a', 'b')
    begin = datetime.datetime.now(datetime.timezone.utc)
    with chain.without_fits():
        p.processor(case['name'], out, skip_l1bs=not case['l1bs']).process(path)
    end = datetime.datetime.now(datetime.timezone.utc)
    base = case['file'][3:] if case['file'].startswith('L1A') else case['file']
    tail = ('_' + base if base else '') + '_' + case['name'] + '.nc'
    names = ['L1B' + tail] + (['L1BS' + tail] if case['l1bs'] else [])
    ctx.equal(sorted(os.listdir(out)), sorted(names), 'files')
    for name in names:
        f = outputs.File(os.path.join(out, name))
        s = name.startswith('L1BS' + tail)
        text = lambda k: f.attrs[k].decode() if isinstance(f.attrs.get(k), bytes) else f.attrs.get(k)
        for k in COPIED + (('xref_platform',) if s else ()):
            ctx.equal(text(k), attrs.get(k, 'Not available'), '%s: attribute %s' % (name, k))
            ctx.equal(isinstance(text(k), str), isinstance(attrs.get(k, ''), str), '%s: attribute %s is a text' % (name, k))
        want = 'Not available' if case['product'] is None else case['product'].replace('_A__', '_BS_' if s else '____')
        ctx.equal(text('product_name'), want, name + ': product_name')
        ctx.equal(text('title'), 'DeDop SRAL Level 1%s Measurement' % ('BS' if s else ''), name + ': title')
        from dedop.version import __version__
        ctx.equal(text('source'), 'DeDop ' + __version__, name + ': source')
        ctx.equal(text('software_name'), 'dedop', name + ': software_name')
        ctx.equal(text('software_version'), __version__, name + ': software_version')
        ctx.require(not isinstance(f.attrs['semi_major_ellipsoid_axis'], (str, bytes)), '%s: the semi-major axis is not a number', name)
        ctx.close(float(f.attrs['semi_major_ellipsoid_axis']), p.P.a, name + ': semi-major axis', rtol=1e-12)
        ctx.close(float(f.attrs['ellipsoid_flattening']), p.P.cst['flat_coeff_cst'], name + ': flattening', rtol=1e-9)
        for k, i in (('first_meas_time', used[0]), ('last_meas_time', used[-1])):
            got = datetime.datetime.fromisoformat(text(k))
            want = datetime.datetime(2000, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(seconds=float(p.values['time'][i]))
            ctx.require(abs((got - want).total_seconds()) < 1e-5, '%s: %s is %s, expected %s', name, k, got, want)
        made = datetime.datetime.fromisoformat(text('creation_time'))
        ctx.require(begin <= made <= end, '%s: creation_time is %s, written between %s and %s', name, made, begin, end)
        ctx.equal(f.dims.get('echo_sample_ind'), p.P.zp * p.P.Ns, name + ': number of samples')
        ctx.equal(f.dims.get('max_multi_stack_ind'), p.P.looks, name + ': places for looks')
    ctx.mark(0 < len([k for k in COPIED if k in attrs]) < len(COPIED))
