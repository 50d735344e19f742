"""C35: inspecting and comparing L1B products shows what is in the files."""
import contextlib
import datetime
import io
import os
import re
import sys
import types

import netCDF4
import numpy as np
from hypothesis import strategies as st

from vlib.harness import prop

ASSUMPTIONS = ['the waveform shown is the measured echo times the scale factor of its record',
               'modules of plotting libraries that are missing in this sandbox are replaced by empty ones',
               'figures are judged by the data of their artists, not by pixels']
TIME, SAMPLE = 'time_l1b_echo_sar_ku', 'echo_sample_ind'
EPOCH = datetime.datetime(2000, 1, 1)


def ui():
    """the modules under test, with a backend that draws into files"""
    import matplotlib
    matplotlib.use('Agg')
    matplotlib.rcParams['savefig.dpi'] = 10
    try:
        import bokeh.util.platform  # noqa: F401
    except ImportError:
        sys.modules['bokeh.util.platform'] = types.ModuleType('bokeh.util.platform')
    import dedop.ui.compare
    import dedop.ui.inspect
    return dedop.ui.inspect, dedop.ui.compare


def numbers(lo, hi):
    return st.integers(lo, hi)


def products():
    return st.fixed_dictionaries({
        'n': st.integers(1, 7), 'm': st.integers(2, 12), 'seed': st.integers(0, 10**6), 'start': st.integers(0, 10**9).map(lambda x: x / 4),
        'lat': st.integers(-80, 80), 'lon': st.sampled_from([-170, -1, 0, 12, 170]), 'same': st.booleans(),
        'attrs': st.dictionaries(st.sampled_from(['title', 'institution', 'orbit', 'x']), st.one_of(st.integers(-9, 9), st.text('ab c', min_size=1, max_size=5)), max_size=3)})


class File:
    """An L1B product with known content."""

    def __init__(self, path, c, salt=0):
        rng = np.random.RandomState(c['seed'] + salt)
        n, m = c['n'], c['m']
        self.path, self.n, self.m = path, n, m
        self.raw = {
            'lat': np.rint((c['lat'] + np.cumsum(rng.rand(n)) * .1) * 1e6).astype('i4'), 'lon': np.rint((c['lon'] + np.cumsum(rng.rand(n)) * .1) * 1e6).astype('i4'),
            'time': c['start'] + np.cumsum(rng.randint(1, 9, n)) / 8., 'counts': rng.randint(0, 2**16, (n, m)).astype('i4'),
            'scale': (rng.randint(-2000, 12000, n) / 100.), 'a': rng.randint(-99, 99, n).astype('i2'), 'b': rng.rand(n), 'img': rng.randint(-50, 50, (n, m)).astype('i2'),
            'u': rng.rand(m), 'v': rng.rand(m)}
        if c['same']:
            self.raw['counts'][:] = self.raw['counts'][0, 0]
            self.raw['scale'][:] = self.raw['scale'][0]
        self.attrs = c['attrs']
        with netCDF4.Dataset(path, 'w') as d:
            d.createDimension(TIME, None)
            d.createDimension(SAMPLE, m)
            d.createDimension('other', 0)
            t = d.createVariable(TIME, 'f8', (TIME,))
            t.units, t.calendar = 'seconds since 2000-01-01 00:00:00.0', 'gregorian'
            for k in ('lat', 'lon'):
                v = d.createVariable(k + '_l1b_echo_sar_ku', 'i4', (TIME,))
                v.units, v.scale_factor = 'degrees', 1e-6
                v.set_auto_scale(False)
                v[:] = self.raw[k]
            t[:] = self.raw['time']
            d.createVariable('i2q2_meas_ku_l1b_echo_sar_ku', 'i4', (TIME, SAMPLE))[:] = self.raw['counts']
            d.createVariable('scale_factor_ku_l1b_echo_sar_ku', 'f8', (TIME,))[:] = self.raw['scale']
            v = d.createVariable('a', 'i2', (TIME,))
            v.units = 'm'
            v[:] = self.raw['a']
            d.createVariable('b', 'f8', (TIME,))[:] = self.raw['b']
            for k in 'uv':
                d.createVariable(k, 'f8', (SAMPLE,))[:] = self.raw[k]
            v = d.createVariable('img', 'i2', (TIME, SAMPLE))
            v.units, v.scale_factor, v.add_offset = 'count', 0.5, 3.
            v.set_auto_scale(False)
            v[:] = self.raw['img']
            for k, v in c['attrs'].items():
                d.setncattr(k, v)
        self.waveform = self.raw['counts'] * self.raw['scale'][:, None]
        self.values = {'u': self.raw['u'], 'v': self.raw['v'], 'a': self.raw['a'], 'b': self.raw['b'], 'img': self.raw['img'] * 0.5 + 3., 'i2q2_meas_ku_l1b_echo_sar_ku': self.raw['counts'],
                       'scale_factor_ku_l1b_echo_sar_ku': self.raw['scale'], TIME: self.raw['time'],
                       'lat_l1b_echo_sar_ku': self.raw['lat'] * 1e-6, 'lon_l1b_echo_sar_ku': self.raw['lon'] * 1e-6}
        self.dims = {k: (TIME, SAMPLE) if np.ndim(v) == 2 else (SAMPLE,) if k in ('u', 'v') else (TIME,) for k, v in self.values.items()}


def moment(t):
    return (datetime.datetime(t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond) - EPOCH).total_seconds()


def check_content(ctx, p, f):
    ctx.equal(p.file_path, f.path, 'file path')
    ctx.equal(sorted(p.var_names), sorted(f.values), 'variables')
    ctx.equal(sorted(p.dim_names), sorted([TIME, SAMPLE, 'other']), 'dimensions')
    ctx.equal(p.dim_name_to_size, {TIME: f.n, SAMPLE: f.m, 'other': 0}, 'sizes')
    groups = {}
    for k, d in f.dims.items():
        groups.setdefault(d, set()).add(k)
    ctx.equal({k: set(v) for k, v in p.dim_names_to_var_names.items()}, groups, 'variables by dimensions')
    ctx.equal({k: v if isinstance(v, str) else int(v) for k, v in p.attributes.items()}, f.attrs, 'attributes')
    lat, lon, t = f.raw['lat'] * 1e-6, f.raw['lon'] * 1e-6, f.raw['time']
    for what, a, e in (('latitudes', p.lat, lat), ('longitudes', p.lon, lon), ('mean latitude', p.lat_0, lat.mean()), ('mean longitude', p.lon_0, lon.mean()),
                       ('latitude range', p.lat_range, (lat.min(), lat.max())), ('longitude range', p.lon_range, (lon.min(), lon.max()))):
        ctx.close(a, e, what, rtol=0, atol=1e-9)
    ctx.close([moment(x) for x in p.time], t, 'times', rtol=0, atol=2e-5)
    ctx.close(moment(p.time_0), t.mean(), 'mean time', rtol=0, atol=2e-5)
    ctx.close([moment(x) for x in p.time_range], [t[0], t[-1]], 'time range', rtol=0, atol=2e-5)
    ctx.close(p.waveform, f.waveform, 'waveform', rtol=1e-12)
    ctx.close(p.waveform_range, (f.waveform.min(), f.waveform.max()), 'waveform range', rtol=1e-12)
    ctx.equal((p.num_times, p.num_samples), (f.n, f.m), 'shape')
    ctx.equal(list(p.echo_sample_ind), list(range(f.m)), 'sample indices')


@contextlib.contextmanager
def opened(ctx, files, out, fmt):
    i, c = ui()
    import matplotlib.pyplot as plt
    plt.close('all')
    text = io.StringIO()
    p = None
    try:
        with contextlib.redirect_stdout(text):
            p = i.inspect_l1b_product(files[0].path, out, fmt) if len(files) == 1 else c.compare_l1b_products(files[0].path, files[1].path, out, fmt)
            yield p, text
    finally:
        if p is not None:
            p.close()
        plt.close('all')


@prop(products, quick=60, thorough=2000, shards=(4, 8), rule='several records with different waveforms')
def content(case, ctx):
    """The inspector reports the content of the product; the comparator that of both and their difference."""
    tmp = ctx.tmpdir()
    f, g = File(os.path.join(tmp, '1.nc'), case), File(os.path.join(tmp, '2.nc'), case, 1)
    h = File(os.path.join(tmp, '3.nc'), dict(case, m=case['m'] + 1))
    with opened(ctx, [f], os.path.join(tmp, 'x'), None) as (p, _):
        check_content(ctx, p, f)
    with opened(ctx, [f, g], os.path.join(tmp, 'y'), 'dir') as (p, _):
        check_content(ctx, p.p1, f)
        check_content(ctx, p.p2, g)
        ctx.equal(tuple(p.file_paths), (f.path, g.path), 'file paths')
        d = f.waveform - g.waveform
        tol = 1e-9 * max(1, np.abs(f.waveform).max(), np.abs(g.waveform).max())
        ctx.close(p.waveforms_delta, d, 'difference', rtol=0, atol=tol)
        ctx.close(p.waveforms_delta_range, (d.min(), d.max()), 'range of the difference', rtol=0, atol=tol)
        ctx.close(p.waveforms[0], f.waveform, 'first waveform', rtol=1e-12)
        ctx.close(p.waveforms[1], g.waveform, 'second waveform', rtol=1e-12)
    i, c = ui()
    ctx.raises(ValueError, lambda: c.compare_l1b_products(f.path, h.path, os.path.join(tmp, 'z'), 'dir'), 'products of different shapes')
    other = os.path.join(tmp, '4.nc')
    with netCDF4.Dataset(other, 'w') as d:
        d.createDimension('x', 2)
        d.createVariable('x', 'f8', ('x',))[:] = [1, 2]
    ctx.raises(ValueError, lambda: i.inspect_l1b_product(other, os.path.join(tmp, 'z'), 'dir'), 'another kind of product')
    ctx.raises(ValueError, lambda: i.inspect_l1b_product('', os.path.join(tmp, 'z'), 'dir'), 'no product')
    ctx.mark(case['n'] > 1 and not case['same'])


def limits():
    return st.one_of(st.none(), st.none(), st.just(0), st.integers(-40, 40))


def fraction():
    """a limit of a histogram: none, 0, or so much of the range of the values"""
    return st.one_of(st.none(), st.none(), st.just('zero'), st.floats(-.2, 1.2))


def between(x, data):
    return x if x is None else 0 if x == 'zero' else float(data.min() + x * (data.max() - data.min()))


def range_of(lo, hi, data):
    """the limits asked for, unless they leave no range, and those in effect"""
    lo, hi = between(lo, data), between(hi, data)
    if not (data.min() if lo is None else lo) < (data.max() if hi is None else hi):
        lo = hi = None
    a, b = (float(data.min()) if lo is None else lo), (float(data.max()) if hi is None else hi)
    return lo, hi, a, b if b > a else a + 1


def sessions():
    d2, d1 = st.sampled_from(['img', 'i2q2_meas_ku_l1b_echo_sar_ku']), st.sampled_from(['a', 'b', TIME, 'lat_l1b_echo_sar_ku'])
    i = st.integers(0, 11)

    def op(kind, *args):
        return st.tuples(st.just(kind), *args).map(list)
    one = st.one_of(op('waveform_im', limits(), limits()), op('waveform_line', st.one_of(st.none(), i), st.one_of(st.none(), i)), op('im', d2, limits(), limits()), op('im', d2, limits(), limits()),
                    op('line', st.one_of(st.just('index'), d1), d1), op('im_line', d2, limits(), limits(), st.one_of(st.none(), i), st.one_of(st.none(), i)), op('im', d1, st.none(), st.none()),
                    op('waveform_hist', st.integers(1, 20), fraction(), fraction(), st.booleans()), op('im_line', d2, limits(), limits(), i, i), op('locations'), op('3d', st.sampled_from(['surf', 'poly', 'line']), st.one_of(st.none(), st.integers(-20, -1)), st.one_of(st.none(), st.integers(1, 40))))
    two = st.one_of(op('locations'), op('delta_im', limits(), limits()), op('scatter'), op('hexbin', st.booleans()), op('delta_hist', st.integers(1, 20), fraction(), fraction(), st.booleans()), op('hists', st.integers(1, 20), st.booleans()))
    return st.fixed_dictionaries({'file': products(), 'plots': st.lists(one, min_size=1, max_size=4), 'both': st.lists(two, max_size=2),
                                  'pdf': st.booleans(), 'given': st.booleans()})


def images(fig):
    return [im for ax in fig.axes for im in ax.images]


def check_image(ctx, fig, data, lo, hi, what):
    ctx.equal(len(images(fig)), 1, 'images of ' + what)
    im = images(fig)[0]
    ctx.close(np.asarray(im.get_array()), data, 'image of ' + what, rtol=1e-9, atol=1e-9)
    scale = 1e-9 * max(1., np.abs(data).max())
    lo, hi = (lo if lo is not None else data.min(), hi if hi is not None else data.max())
    if lo < hi:
        # (the plotting library widens empty ranges)
        ctx.close(im.get_clim(), (lo, hi), 'limits of ' + what, rtol=0, atol=scale)


def curves(fig, index):
    return [line.get_xydata() for line in fig.axes[index].lines]


def histogram(fig):
    """(left, right, height) of the bars"""
    return sorted((b.get_x(), b.get_x() + b.get_width(), b.get_height()) for b in fig.axes[0].patches)


def check_histogram(ctx, bars, data, lo, hi, bins, what):
    # the fractions of the data within the limits, per unit of the value; values at the edges may fall on either side
    edges = np.linspace(lo, hi, bins + 1)
    ctx.equal(len(bars), bins, 'bars of ' + what)
    width = edges[1] - edges[0]
    ctx.close([b[0] for b in bars], edges[:-1], 'bars of ' + what, rtol=0, atol=1e-6 * (hi - lo))
    x = data.ravel()
    near = 1e-6 * (hi - lo)
    inside = x[(x >= lo) & (x <= hi)]
    if len(inside) == 0 or any(np.abs(inside - e).min() < near for e in edges[1:-1]):
        ctx.label('values at the edges of bins')
        return
    counts = [((inside >= a) & (inside <= b)).sum() for a, b in zip(edges[:-1], edges[1:])]
    ctx.close([b[2] for b in bars], np.array(counts) / len(inside) / width, 'heights of ' + what, rtol=1e-6, atol=1e-12)


def check_scale(ctx, fig, log):
    ctx.equal(fig.axes[0].get_yscale(), 'log' if log else 'linear', 'scale of the counts')


def check_lines(ctx, fig, index, expected, what):
    got = curves(fig, index)
    ctx.equal(len(got), len(expected), 'curves of ' + what)
    for k, (a, (x, y)) in enumerate(zip(got, expected)):
        ctx.close(a, np.array([x, y], dtype=float).T, 'curve %d of %s' % (k, what), rtol=1e-12, atol=1e-12)


@prop(sessions, quick=120, thorough=1500, shards=(6, 8), rule='an image of a variable other than the waveform or a curve of two variables was drawn')
def figures(case, ctx):
    """Figures hold the data asked for; each is saved as a file of its own or a page."""
    import matplotlib.pyplot as plt
    tmp = ctx.tmpdir()
    f, g = File(os.path.join(tmp, '1.nc'), case['file']), File(os.path.join(tmp, '2.nc'), case['file'], 1)
    pages = 0
    for files, plots in (([f], case['plots']), ([f, g], case['both'])):
        if not plots:
            continue
        out = os.path.join(tmp, 'out%d' % len(files), 'figs' + ('.pdf' if case['pdf'] else ''))
        expected, pages = set(), 0
        with opened(ctx, files, out, ('pdf' if case['pdf'] else 'dir') if case['given'] else None) as (p, text):
            for op in plots:
                plt.close('all')
                pos = text.tell()
                if op[0] == 'locations':
                    expected |= locations(ctx, p, files, case['pdf'], out)
                    ctx.equal(plt.get_fignums(), [], 'figures drawn for the map')
                    continue
                name = draw(ctx, p, f, g, op)
                if name is None:
                    ctx.equal(plt.get_fignums(), [], 'figures drawn by a refused request')
                    ctx.require('Error' in text.getvalue()[pos:], 'a variable that is no image was not refused')
                    continue
                expected.add(name)
                pages += 1
                ctx.equal(len(plt.get_fignums()), 1, 'figures')
                if not case['pdf']:
                    ctx.equal(set(os.listdir(out)), expected, 'figure files')
        if case['pdf'] and pages:
            with open(out, 'rb') as fp:
                data = fp.read()
            ctx.require(data.startswith(b'%PDF') and data.rstrip().endswith(b'%%EOF'), 'not a complete PDF')
            ctx.equal(len(re.findall(rb'/Type /Page\b', data)), pages, 'pages')
            ctx.equal(os.listdir(os.path.dirname(out)), [os.path.basename(out)], 'files beside the PDF')
        elif not expected:
            ctx.require(not os.path.exists(out), 'output without figures')
        else:
            for name in expected - {'fig-locations.html'}:
                with open(os.path.join(out, name), 'rb') as fp:
                    ctx.require(fp.read(8) == b'\x89PNG\r\n\x1a\n', 'not a PNG: %s', name)
    ctx.mark(any(o[0] in ('im', 'im_line') and o[1] == 'img' or o[0] == 'line' for o in case['plots']))


def mercator(lat, lon):
    r = 6378137.
    return r * np.radians(lon), r * np.log(np.tan(np.pi / 4 + np.radians(lat) / 2))


def locations(ctx, p, files, pdf, out):
    """the map has a point at each position of each product"""
    import bokeh.io
    saved, maps = bokeh.io.save, []

    def save(fig, filename, *args, **kwargs):
        maps.append(fig)
        with open(filename, 'w') as fp:
            fp.write('map')
    try:
        bokeh.io.save = save
        p.plot.locations()
    finally:
        bokeh.io.save = saved
    ctx.label('locations')
    if pdf:
        ctx.equal(maps, [], 'maps saved in a PDF')
        return set()
    ctx.equal(len(maps), 1, 'maps')
    points = [np.array([r.data_source.data['x'], r.data_source.data['y']]) for r in maps[0].renderers if hasattr(r, 'data_source')]
    ctx.equal(len(points), len(files), 'sets of points')
    xy = [mercator(f.raw['lat'] * 1e-6, f.raw['lon'] * 1e-6) for f in files]
    for i, (a, e) in enumerate(zip(points, xy)):
        ctx.close(a, np.array(e), 'points of product %d on the map' % (i + 1), rtol=1e-6, atol=1e-2)
    both = np.concatenate(xy, axis=1)
    ctx.close([maps[0].x_range.start, maps[0].x_range.end, maps[0].y_range.start, maps[0].y_range.end],
              [both[0].min(), both[0].max(), both[1].min(), both[1].max()], 'extent of the map', rtol=1e-6, atol=1e-2)
    return {'fig-locations.html'}


def curves3d(collection, m):
    """points of the curves or polygons of a set"""
    if hasattr(collection, '_segments3d'):
        return [np.asarray(s)[:m] for s in collection._segments3d]
    faces = getattr(collection, '_faces', None)
    if faces is not None:
        return [np.asarray(x)[:m, :3] for x in faces]
    points = np.asarray(collection._vec)[:3].T
    return [points[s][:m] for s in collection._segslices]


def draw(ctx, p, f, g, op):
    """draws one figure, judges its content and returns the name of its file (None if it had to be refused)"""
    import matplotlib.pyplot as plt
    kind = op[0]
    ctx.label(kind)
    if kind in ('waveform_im', 'im', 'im_line', 'delta_im'):
        # only limits that leave a range: the plotting library refuses others
        i = 1 if kind in ('waveform_im', 'delta_im') else 2
        data = f.waveform if kind == 'waveform_im' else f.waveform - g.waveform if kind == 'delta_im' else f.values[op[1]]
        if not (data.min() if op[i] is None else op[i]) < (data.max() if op[i + 1] is None else op[i + 1]):
            op = op[:i] + [None, None] + op[i + 2:]
    if kind == 'waveform_im':
        p.plot.waveform_im(vmin=op[1], vmax=op[2])
        check_image(ctx, plt.gcf(), f.waveform, op[1], op[2], 'the waveform')
        return 'fig-waveform-im.png'
    if kind == 'waveform_line':
        i, r = (None if x is None else x % f.n for x in op[1:])
        p.plot.waveform_line(ind=i, ref_ind=r)
        i = i or 0
        check_lines(ctx, plt.gcf(), 0, [(range(f.m), f.waveform[k]) for k in (i, r) if k is not None], 'a waveform')
        return 'fig-waveform-x-%d.png' % i
    if kind == 'im':
        p.plot.im(op[1], zmin=op[2], zmax=op[3])
        if np.ndim(f.values[op[1]]) != 2:
            return None
        check_image(ctx, plt.gcf(), f.values[op[1]], op[2], op[3], op[1])
        return 'fig-%s.png' % op[1]
    if kind == 'line':
        p.plot.line(op[1], op[2])
        check_lines(ctx, plt.gcf(), 0, [(range(f.n) if op[1] == 'index' else f.values[op[1]], f.values[op[2]])], '%s over %s' % (op[2], op[1]))
        return 'fig-%s-over-%s.png' % (op[1], op[2])
    if kind == 'im_line':
        x, y = (None if op[4] is None else op[4] % f.m), (None if op[5] is None else op[5] % f.n)
        p.plot.im_line(op[1], zmin=op[2], zmax=op[3], xind=x, yind=y)
        fig, z = plt.gcf(), f.values[op[1]]
        check_image(ctx, fig, z, op[2], op[3], op[1])
        main = [i for i, ax in enumerate(fig.axes) if ax.images][0]
        ctx.equal(sorted(c.tolist() for c in curves(fig, main)), sorted(([[[x, 0], [x, 1]]] if x is not None else []) + ([[[0, y], [1, y]]] if y is not None else [])), 'marks on the image')
        others = [i for i, ax in enumerate(fig.axes) if ax.lines and not ax.images]
        wanted = ([(range(f.m), z[y])] if y is not None else []) + ([(z[:, x], range(f.n))] if x is not None else [])
        ctx.equal(len(others), len(wanted), 'cuts')
        for i, w in zip(others, wanted):
            check_lines(ctx, fig, i, [w], 'a cut through ' + op[1])
        return 'fig-%s%s%s.png' % (op[1], '' if x is None else '-x-%d' % x, '' if y is None else '-y-%d' % y)
    w = f.waveform
    if kind == '3d':
        if f.n == 1 and op[1] == 'surf':
            op = ['3d', 'line'] + op[2:]         # a surface needs two records
        lo, hi = op[2:]
        getattr(p.plot, 'waveform_3d_' + op[1])(**dict({} if lo is None else {'zmin': lo}, **({} if hi is None else {'zmax': hi})))
        ax = plt.gcf().axes[0]
        ctx.equal(len(ax.collections), 1, 'sets of curves or faces')
        if f.n > 1:
            ctx.close(ax.get_xlim3d() + ax.get_ylim3d(), [0, f.m - 1, 0, f.n - 1], 'axes', rtol=0, atol=1e-9)
        lo, hi = lo or 0, hi or w.max()
        if hi > lo:
            ctx.close(ax.get_zlim3d(), [lo, hi], 'vertical axis', rtol=1e-9)
        if op[1] != 'surf':
            # one curve per record: its samples, at the index of the record
            got = curves3d(ax.collections[0], f.m)
            ctx.equal(len(got), f.n, 'curves')
            for k, c in enumerate(got):
                ctx.close(c, np.array([np.arange(f.m), np.full(f.m, k), w[k]]).T, 'curve of record %d' % k, rtol=1e-9, atol=1e-9)
        return 'fig-waveform-3d-%s.png' % op[1]
    if kind == 'waveform_hist':
        lo, hi, a, b = range_of(op[2], op[3], w)
        p.plot.waveform_hist(bins=op[1], vmin=lo, vmax=hi, log=op[4])
        check_histogram(ctx, histogram(plt.gcf()), w, a, b, op[1], 'the waveform')
        check_scale(ctx, plt.gcf(), op[4])
        return 'fig-waveform-hist.png'
    d = f.waveform - g.waveform
    if kind == 'delta_im':
        p.plot.waveforms_delta_im(vmin=op[1], vmax=op[2])
        check_image(ctx, plt.gcf(), d, op[1], op[2], 'the difference')
        return 'fig-waveform_delta-im.png'
    if kind == 'delta_hist':
        lo, hi, a, b = range_of(op[2], op[3], d)
        p.plot.waveforms_delta_hist(bins=op[1], vmin=lo, vmax=hi, log=op[4])
        check_histogram(ctx, histogram(plt.gcf()), d, a, b, op[1], 'the difference')
        check_scale(ctx, plt.gcf(), op[4])
        return 'fig-waveforms_delta-hist.png'
    both = np.concatenate([f.waveform.ravel(), g.waveform.ravel()])
    lo, hi = float(both.min()) - 1, float(both.max()) + 1
    if kind == 'hists':
        p.plot.waveforms_hist(vmin=lo, vmax=hi, bins=op[1], log=op[2])
        check_scale(ctx, plt.gcf(), op[2])
        bars = [(b.get_x(), b.get_x() + b.get_width(), b.get_height()) for b in plt.gcf().axes[0].patches]
        check_histogram(ctx, sorted(bars[:len(bars) // 2]), f.waveform, lo, hi, op[1], 'the first waveform')
        check_histogram(ctx, sorted(bars[len(bars) // 2:]), g.waveform, lo, hi, op[1], 'the second waveform')
        return 'fig-waveforms-hist.png'
    if kind == 'scatter':
        p.plot.waveforms_scatter(vmin=lo, vmax=hi)
        ax = plt.gcf().axes[0]
        ctx.close(ax.collections[0].get_offsets(), np.array([f.waveform.ravel(), g.waveform.ravel()]).T, 'points', rtol=1e-12)
        ctx.close(ax.axis(), (lo, hi, lo, hi), 'axes', rtol=1e-12)
        return 'fig-waveforms-scatter.png'
    p.plot.waveforms_hexbin(vmin=lo, vmax=hi, log=op[1])
    counts = np.asarray(plt.gcf().axes[0].collections[0].get_array(), dtype=float)
    ctx.close(counts.sum(), f.n * f.m, 'points in hexagons', rtol=1e-9)
    return 'fig-waveforms-hexbin.png'


def targets():
    return st.fixed_dictionaries({'base': st.sampled_from(['out', 'a.b', 'x.pdf', 'X.PDF', 'x.png', 'x.Pdf', '.pdf', 'a/b', 'a/b.pdf', '']),
                                  'format': st.sampled_from([None, '', 'pdf', 'dir', 'PDF', 'Dir', 'png'])})


@prop(targets, quick=400, thorough=1500, rule='the format was derived from the path')
def targeting(case, ctx):
    """Where figures go follows from the output path and format."""
    ui()
    from dedop.ui.figurewriter import FigureWriter
    base = case['base']
    name = os.path.basename(base)
    ext = os.path.splitext(name)[1]
    fmt = case['format'].lower() if case['format'] else ext[1:].lower() if len(ext) > 1 else 'dir'
    bad = not base or fmt not in ('pdf', 'dir') or fmt == 'pdf' and ext not in ('', '.pdf', '.PDF')
    path = os.path.join(ctx.tmpdir(), base) if base else ''
    if bad:
        if not (fmt == 'pdf' and ext == '.Pdf'):
            ctx.raises(ValueError, lambda: FigureWriter(path, case['format']), 'unsupported output')
        return
    w = FigureWriter(path, case['format'])
    ctx.equal(w.output_format, fmt, 'format')
    ctx.equal(w.output_path, path + ('.pdf' if fmt == 'pdf' and not ext else ''), 'path')
    ctx.equal(os.listdir(ctx.tmpdir()), [], 'files before the first figure')
    ctx.mark(not case['format'])


def runs():
    from vlib import chain
    return chain.scenarios(pulses=(4,), samples=(4, 8), surfaces=(84, 90), format=st.sampled_from(['extended', 'sentinel-3']))


@prop(runs, quick=4, thorough=60, shards=(2, 4), rule='always: the product has records')
def own(case, ctx):
    """A product of the processor can be inspected: positions, times and waveforms are those in its file."""
    from vlib import chain
    p = chain.product(case, ctx, cnf={'output_format_flag_cnf': case['format']})
    out = os.path.join(p.dir, 'out')
    with chain.without_fits():
        p.processor('r', out, skip_l1bs=True).process(p.path)
    path = [os.path.join(out, n) for n in os.listdir(out) if n.startswith('L1B')][0]
    with netCDF4.Dataset(path) as d:
        lat, lon, t = (np.asarray(d[k + '_l1b_echo_sar_ku'][:], dtype=float) for k in ('lat', 'lon', 'time'))
        wave = np.ma.asarray(d['i2q2_meas_ku_l1b_echo_sar_ku'][:]) * np.ma.asarray(d['scale_factor_ku_l1b_echo_sar_ku'][:])[:, None]
        names = sorted(d.variables)
        attrs = {k: d.getncattr(k) for k in d.ncattrs()}
    if not len(t):
        ctx.label('no records')
        return
    i, _ = ui()
    q = i.inspect_l1b_product(path, os.path.join(p.dir, 'figs'), 'dir')
    try:
        ctx.close(q.lat, lat, 'latitudes', rtol=0, atol=1e-9)
        ctx.close(q.lon, lon, 'longitudes', rtol=0, atol=1e-9)
        ctx.close([moment(x) for x in q.time], t, 'times', rtol=0, atol=1e-3)
        ctx.close(np.ma.filled(q.waveform, -1), np.ma.filled(wave, -1), 'waveform', rtol=1e-9)
        ctx.equal(q.var_names, names, 'variables')
        ctx.equal({k: str(v) for k, v in q.attributes.items()}, {k: str(v) for k, v in attrs.items()}, 'attributes')
    finally:
        q.close()
    ctx.mark(True)


# In a notebook: figures are shown, and what was not given is chosen with widgets --------------------------------------------------

def notebooks():
    i = st.one_of(st.none(), st.integers(0, 11))
    d1, d2 = ('a', 'b', TIME), ('img', 'i2q2_meas_ku_l1b_echo_sar_ku')
    op = st.one_of(
        st.tuples(st.just('waveform_line'), i, i), st.tuples(st.just('im'), st.one_of(st.none(), st.sampled_from(d2))), st.tuples(st.just('waveform_im')),
        st.tuples(st.just('line'), st.one_of(st.none(), st.sampled_from(d1 + ('index',))), st.one_of(st.none(), st.sampled_from(d1)), st.booleans()),
        st.tuples(st.just('im_line'), st.one_of(st.none(), st.sampled_from(d2)), i, i)).map(list)
    return st.fixed_dictionaries({'file': products().map(lambda c: dict(c, n=c['n'] + 5 * (c['seed'] % 3))), 'plots': st.lists(op, min_size=1, max_size=3), 'pick': st.integers(0, 999)})


class Bench:
    """Stands for the notebook: keeps the widgets and lets the user choose with them."""

    def __init__(self, ctx):
        self.ctx, self.shown, self.displayed, self.controls = ctx, 0, [], None

    def interact(self, func, **widgets):
        self.controls = (func, widgets)

    @staticmethod
    def choices(w):
        """the values a control can take"""
        if isinstance(w, tuple) and len(w) == 2:
            return list(range(w[0], w[1] + 1))
        if isinstance(w, list):
            return list(w)
        if hasattr(w, 'options'):
            return [o[1] if isinstance(o, tuple) else o for o in w.options]
        if hasattr(w, 'min'):
            return list(range(w.min, w.max + 1, w.step or 1))
        return [w.value]

    @contextlib.contextmanager
    def used(self):
        import ipywidgets
        import matplotlib.pyplot as plt
        i, _ = ui()
        saved = plt.show, getattr(i, 'interact', None), getattr(i, 'display', None), ipywidgets.interact

        def show(*args, **kwargs):
            self.shown += 1
        try:
            plt.show = show
            ipywidgets.interact = self.interact
            if saved[1] is not None:
                i.interact = self.interact
            if saved[2] is not None:
                i.display = lambda *args: self.displayed.extend(args)
            yield
        finally:
            plt.show, ipywidgets.interact = saved[0], saved[3]
            if saved[1] is not None:
                i.interact = saved[1]
            if saved[2] is not None:
                i.display = saved[2]


@prop(notebooks, quick=80, thorough=2000, shards=(4, 8), rule='something was chosen with a widget in a product of several records')
def interactive(case, ctx):
    """Every choice offered shows the data chosen, and every record and suitable variable is offered."""
    import bokeh.io
    import matplotlib.pyplot as plt
    tmp = ctx.tmpdir()
    f = File(os.path.join(tmp, '1.nc'), case['file'])
    i, _ = ui()
    rng = np.random.RandomState(case['pick'])
    saved, bokeh.io.output_notebook = bokeh.io.output_notebook, lambda *args, **kwargs: None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            p = i.inspect_l1b_product(f.path)
    finally:
        bokeh.io.output_notebook = saved
    used = False
    try:
        for op in case['plots']:
            used |= notebook_plot(ctx, p, f, op, rng)
    finally:
        p.close()
        plt.close('all')
    ctx.equal(os.listdir(tmp), ['1.nc'], 'files after plots in a notebook')
    ctx.mark(used and f.n > 1)


def notebook_plot(ctx, p, f, op, rng):
    import matplotlib.pyplot as plt
    bench = Bench(ctx)
    kind = op[0]
    d1 = sorted(k for k, d in f.dims.items() if len(d) == 1)
    d2 = sorted(k for k, d in f.dims.items() if d == (TIME, SAMPLE))

    def judge(call, check):
        """one drawing: exactly one figure, shown once"""
        plt.close('all')
        before = bench.shown
        call()
        ctx.equal(len(plt.get_fignums()), 1, 'figures of %s' % op)
        ctx.equal(bench.shown - before, 1, 'times the figure of %s was shown' % op)
        check(plt.gcf())

    def limit(x, n):
        return None if x is None else x % n

    with bench.used(), contextlib.redirect_stdout(io.StringIO()):
        plt.close('all')
        if kind == 'waveform_im':
            judge(p.plot.waveform_im, lambda fig: check_image(ctx, fig, f.waveform, None, None, 'the waveform'))
            return False
        if kind == 'waveform_line':
            ind, ref = limit(op[1], f.n), limit(op[2], f.n)

            def lines(k):
                return lambda fig: check_lines(ctx, fig, 0, [(range(f.m), f.waveform[j]) for j in (k, ref) if j is not None], 'waveform %d' % k)
            if ind is not None:
                judge(lambda: p.plot.waveform_line(ind, ref), lines(ind))
                return False
            p.plot.waveform_line(ref_ind=ref)
            func, w = bench.controls
            ctx.equal(bench.choices(w['ind']), list(range(f.n)), 'records offered')
            k = int(rng.randint(f.n))
            judge(lambda: func(ind=k, ref_ind=bench.choices(w['ref_ind'])[0]), lines(k))
            return True
        if kind == 'im':
            if op[1]:
                judge(lambda: p.plot.im(op[1]), lambda fig: check_image(ctx, fig, f.values[op[1]], None, None, op[1]))
                return False
            p.plot.im()
            func, w = bench.controls
            ctx.equal(bench.choices(w['z_name']), d2, 'variables offered')
            name = d2[rng.randint(len(d2))]
            others = {k: bench.choices(v)[0] for k, v in w.items() if k != 'z_name'}
            judge(lambda: func(z_name=name, **others), lambda fig: check_image(ctx, fig, f.values[name], None, None, name))
            return True
        if kind == 'line':
            x, y, by_dim = op[1:]

            def curve(x, y):
                return lambda fig: check_lines(ctx, fig, 0, [(range(len(f.values[y])) if x == 'index' else f.values[x], f.values[y])], '%s over %s' % (y, x))
            if x and y:
                judge(lambda: p.plot.line(x, y, by_dim), curve(x, y))
                return False
            p.plot.line(x, y, by_dim)
            func, w = bench.controls
            wx, wy = w['x_name'], w['y_name']

            def offered():
                """the variables there are for both axes"""
                here = [k for k in d1 if not by_dim or f.dims[k] == (dim.value,)]
                ctx.equal(bench.choices(wx), ['index'] + here, 'variables offered')
                ctx.equal(bench.choices(wy), [k for k in here if wx.value == 'index' or f.dims[k] == f.dims[wx.value]], 'variables offered over %s' % wx.value)
                judge(lambda: func(x_name=wx.value, y_name=wy.value), curve(wx.value, wy.value))
            if by_dim:
                dim, = [d for d in bench.displayed if hasattr(d, 'options')]
                ctx.equal(bench.choices(dim), [SAMPLE, TIME], 'dimensions offered')
            else:
                ctx.equal((wx.value, wy.value), (x or 'index', y or [k for k in d1 if not x or x == 'index' or f.dims[k] == f.dims[x]][0]), 'variables chosen to begin with')
            offered()
            for _ in range(3):
                if by_dim and rng.randint(2):
                    dim.value = [SAMPLE, TIME][rng.randint(2)]
                    offered()
                wx.value = wx.options[rng.randint(len(wx.options))]
                wy.value = bench.choices(wy)[rng.randint(len(bench.choices(wy)))]
                offered()
            return True
        z, x, y = op[1], limit(op[2], f.m), limit(op[3], f.n)

        def cuts(name, x, y):
            def check(fig):
                data = f.values[name]
                check_image(ctx, fig, data, None, None, name)
                others = [k for k, ax in enumerate(fig.axes) if ax.lines and not ax.images]
                for k, e in zip(others, [(range(f.m), data[y]), (data[:, x], range(f.n))]):
                    check_lines(ctx, fig, k, [e], 'a cut through ' + name)
            return check
        if z and x is not None and y is not None:
            judge(lambda: p.plot.im_line(z, xind=x, yind=y), cuts(z, x, y))
            return False
        p.plot.im_line(z, xind=x, yind=y)
        func, w = bench.controls
        wz, wx, wy = w['z_name'], w['xind'], w['yind']
        ctx.equal(bench.choices(wz), [z] if z else d2, 'variables offered')
        if not z:
            wz.value = d2[rng.randint(len(d2))]
        ctx.equal(bench.choices(wx), [x] if x is not None else list(range(f.m)), 'columns offered')
        ctx.equal(bench.choices(wy), [y] if y is not None else list(range(f.n)), 'rows offered')
        x, y = (c[rng.randint(len(c))] for c in (bench.choices(wx), bench.choices(wy)))
        others = {k: bench.choices(v)[0] for k, v in w.items() if k not in ('z_name', 'xind', 'yind')}
        judge(lambda: func(z_name=wz.value, xind=x, yind=y, **others), cuts(wz.value, x, y))
        return True


def made_for():
    return st.fixed_dictionaries({'file': products(), 'other': products(), 'more': st.integers(521, 560), 'compare': st.booleans()})


@prop(made_for, quick=8, thorough=200, shards=(4, 8), rule='every case')
def made_notebooks(case, ctx):
    """All cells of the notebooks made for one or two products can be run, and they show these products."""
    import ast
    import json

    import bokeh.io
    import matplotlib.pyplot as plt
    from dedop.ui.workspace_manager import WorkspaceManager
    tmp = ctx.tmpdir()
    i, c = ui()
    one = File(os.path.join(tmp, 'a b.nc'), dict(case['file'], n=case['more']))
    two = File(os.path.join(tmp, 'c.nc'), dict(case['other'], n=case['more'], m=case['file']['m']), 1)
    opened = []

    class Manager(WorkspaceManager):
        @classmethod
        def launch_notebook(cls, title, notebook_dir, notebook_path=None):
            opened.append(notebook_path)
    m = Manager(os.path.join(tmp, 'workspaces'))
    m.create_workspace('w')
    with contextlib.redirect_stdout(io.StringIO()):
        if case['compare']:
            m.compare_l1b_products('w', two.path, one.path)
        else:
            m.inspect_l1b_product('w', one.path)
    ctx.equal(len(opened), 1, 'notebooks opened')
    with open(opened[0], encoding='utf-8') as fp:
        cells = [''.join(x['source']) for x in json.load(fp)['cells'] if x['cell_type'] == 'code']
    bench, scope, values = Bench(ctx), {}, {}
    saved = [(k, getattr(bokeh.io, k)) for k in ('output_notebook', 'show')]
    maps = []
    bokeh.io.output_notebook = lambda *args, **kwargs: None
    bokeh.io.show = lambda *args, **kwargs: maps.append(args)
    try:
        with bench.used(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
            for cell in cells:
                tree = ast.parse('\n'.join(x for x in cell.splitlines() if not x.startswith('%')))
                last = tree.body.pop() if tree.body and isinstance(tree.body[-1], ast.Expr) else None
                exec(compile(tree, 'cell', 'exec'), scope)
                if last is not None:
                    bench.controls = None
                    values[cell] = eval(compile(ast.Expression(last.value), 'cell', 'eval'), scope)
                    if bench.controls is not None:
                        func, w = bench.controls
                        func(**{k: bench.choices(v)[0] for k, v in w.items()})
        if case['compare']:
            p = scope['comp']
            ctx.close(values['comp.waveforms_delta'], two.waveform - one.waveform, 'difference of the waveforms', rtol=1e-9, atol=1e-3)
        else:
            p = scope['insp']
            ctx.close(values['insp.waveform'], one.waveform, 'waveform', rtol=1e-9)
            ctx.close(values['insp.lat_range'], [one.values['lat_l1b_echo_sar_ku'].min(), one.values['lat_l1b_echo_sar_ku'].max()], 'range of latitudes', rtol=0, atol=1e-6)
        p.close()
    finally:
        for k, v in saved:
            setattr(bokeh.io, k, v)
        plt.close('all')
    ctx.equal(len(maps), 1, 'maps shown')
    ctx.require(bench.shown >= 5, '%d figures shown', bench.shown)
    ctx.label('compare' if case['compare'] else 'inspect')
    ctx.mark()
