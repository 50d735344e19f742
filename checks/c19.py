"""C19: what a run produces depends on its product and configuration only, not on what ran before."""
import hashlib
import os

import numpy as np
from hypothesis import strategies as st

from vlib.harness import prop
from vlib import chain, gen, outputs, synth
from vlib.gen import floats
from dedop.util.monitor import Monitor

ASSUMPTIONS = ['the creation time in the global attributes is not compared']


class Cancelling(Monitor):
    """cancels at a chosen check"""

    def __init__(self, at):
        self.at, self.checks = at, 0

    def start(self, label, total_work=None):
        pass

    def progress(self, work=None, msg=None):
        pass

    def done(self):
        pass

    def is_cancelled(self):
        self.checks += 1
        return self.checks > self.at


def histories():
    """runs of two processors over three products, one of them too short; some are cancelled"""
    run = st.tuples(st.integers(0, 1), st.sampled_from([0, 0, 1, 1, 2]), st.one_of(st.none(), st.none(), st.integers(1, 150)))
    return chain.scenarios(pulses=(4,), samples=(2, 4), surfaces=(84, 95), other=chain.options(),
                           other_seed=gen.seeds(), focus=st.booleans(), gaps=chain.holes()['gaps'],
                           runs=st.lists(run.map(list), min_size=2, max_size=4))


def same(ctx, got, want, what):
    ctx.equal(len(got), len(want), what + 'number of records')
    for i, (a, b) in enumerate(zip(got, want)):
        for n in chain.SCALARS + chain.ARRAYS:
            x, y = np.asarray(getattr(a, n)), np.asarray(getattr(b, n))
            ctx.require(x.shape == y.shape and np.array_equal(x, y, equal_nan=x.dtype.kind in 'fc'),
                        '%srecord %d: %s is not what it is in a fresh process', what, i, n)
        ctx.equal(a.burst_counters, b.burst_counters, '%srecord %d: bursts' % (what, i))
        ctx.equal(a.target_focused, b.target_focused, '%srecord %d: focused' % (what, i))


@prop(histories, quick=16, thorough=700, shards=(4, 8), rule='a processor was used more than once')
def reuse(case, ctx):
    bri = 1.0 / gen.chd_of(case['inst'], case['world'])['brf_sar_chd']
    gaps = [[at, pause * bri] for at, pause in case['gaps']]
    focus = {}
    first = chain.Product(ctx.tmpdir(), case, name='L1A_a', gaps=gaps)
    if case['focus']:
        at = first.n // 2
        focus = {'flag_surface_focusing_cnf': True, 'surface_focusing_lat_cnf': float(first.values['lat'][at]),
                 'surface_focusing_lon_cnf': float(first.values['lon'][at]), 'surface_focusing_alt_cnf': 10.0}
    first = chain.Product(ctx.tmpdir(), case, name='L1A_a', gaps=gaps, cnf=focus)
    other = dict(case, cnf=case['other'], world=dict(case['world'], seed=case['other_seed'], echo='noise'))
    second = chain.Product(ctx.tmpdir(), other, name='L1A_b', cnf=focus)
    short = chain.Product(ctx.tmpdir(), other, name='L1A_c', n=20)
    products = [first, second, short]
    sums = [hashlib.sha256(open(p.path, 'rb').read()).hexdigest() for p in products]
    used = [first.processor('r0'), second.processor('r1')]
    fresh = {}

    def run(proc, which, stop):
        p = products[which]
        try:
            return p.capture(processor=proc, monitor=None if stop is None else Cancelling(stop))
        except Exception as e:
            if 'insufficient' in str(e) and chain.too_short(p):
                return 'short', []
            raise
    for k, (conf, which, stop) in enumerate(case['runs']):
        got = run(used[conf], which, stop)
        key = (conf, which, stop)
        if key not in fresh:
            fresh[key] = run((first if conf == 0 else second).processor('f'), which, stop)
        want = fresh[key]
        ctx.equal(got[0], want[0], 'status of run %d' % k)
        same(ctx, got[1], want[1], 'run %d: ' % k)
    ctx.equal([hashlib.sha256(open(p.path, 'rb').read()).hexdigest() for p in products], sums, 'content of the input files')
    confs = [r[0] for r in case['runs']]
    ctx.mark(len(set(confs)) < len(confs))


def twice():
    return chain.scenarios(pulses=(4,), samples=(2, 4), surfaces=(84, 90), junk=st.booleans(), failed=st.booleans(), gaps=chain.holes()['gaps'])


@prop(twice, quick=12, thorough=200, shards=(4, 8), rule='records were written')
def files(case, ctx):
    """a second run into the same place replaces the files by equal ones; the L1B product does not depend on L1BS"""
    p = chain.product(case, ctx)
    before = hashlib.sha256(open(p.path, 'rb').read()).hexdigest()
    out = os.path.join(p.dir, 'out')
    alone = os.path.join(p.dir, 'alone')
    path = os.path.join(out, 'L1B__x_r.nc')
    if case['junk']:
        os.makedirs(out)
        with open(path, 'w') as f:
            f.write('something else')
        with open(os.path.join(out, 'keep.txt'), 'w') as f:
            f.write('kept')
    try:
        with chain.without_fits():
            first = p.processor('r', out, skip_l1bs=False)
            if case['failed']:
                # a product of the same name that cannot be processed
                there = os.path.join(ctx.tmpdir(), 'failed')
                os.makedirs(there)
                short = chain.Product(there, case, n=20)
                ctx.raises(Exception, lambda: first.process(short.path), 'a product that is too short')
            first.process(p.path)
            one = outputs.File(path)
            p.processor('r', out, skip_l1bs=True).process(p.path)
            p.processor('r', alone, skip_l1bs=True).process(p.path)
    except Exception as e:
        if 'insufficient' in str(e) and chain.too_short(p):
            return
        raise
    ctx.equal(sorted(os.listdir(out)), sorted(['L1B__x_r.nc', 'L1BS__x_r.nc'] + ['keep.txt'] * case['junk']), 'files')
    ctx.equal(os.listdir(alone), ['L1B__x_r.nc'], 'files without L1BS')
    for what, two in (('second run', outputs.File(path)), ('without L1BS', outputs.File(os.path.join(alone, 'L1B__x_r.nc')))):
        ctx.equal(two.dims, one.dims, what + ': dimensions')
        ctx.equal(set(two.raw), set(one.raw), what + ': variables')
        for n in one.raw:
            ctx.require(np.array_equal(one.raw[n], two.raw[n], equal_nan=one.raw[n].dtype.kind == 'f'), '%s: %s differs', what, n)
        for n in one.attrs:
            if n != 'creation_time':
                ctx.equal(two.attrs.get(n), one.attrs[n], what + ': attribute ' + n)
    ctx.equal(hashlib.sha256(open(p.path, 'rb').read()).hexdigest(), before, 'content of the input file')
    ctx.mark(one.count() > 0)


class Calling(Monitor):
    """calls a function at chosen reports of progress"""

    def __init__(self, at, what):
        self.at, self.what, self.count = set(at), what, 0

    def start(self, label, total_work=None):
        pass

    def progress(self, work=None, msg=None):
        self.count += 1
        if self.count in self.at:
            self.what()

    def done(self):
        pass


def nests():
    return chain.scenarios(pulses=(4,), samples=(2, 4), surfaces=(94, 104), other=chain.options(), other_seed=gen.seeds(), focus=st.booleans(),
                           gaps=chain.holes()['gaps'], at=st.lists(st.integers(1, 110), min_size=1, max_size=2, unique=True),
                           cancel=st.sampled_from([None, None, 95, 110, 40]))


@prop(nests, quick=12, thorough=300, shards=(4, 8), rule='the other processor ran in the middle and both gave records')
def within(case, ctx):
    """another processor that runs while one is in the middle of a product changes nothing for either"""
    bri = 1.0 / gen.chd_of(case['inst'], case['world'])['brf_sar_chd']
    gaps = [[at, pause * bri] for at, pause in case['gaps']]
    first = chain.Product(ctx.tmpdir(), case, name='L1A_a', gaps=gaps)
    focus = {}
    if case['focus']:
        at = first.n // 3
        focus = {'flag_surface_focusing_cnf': True, 'surface_focusing_lat_cnf': float(first.values['lat'][at]),
                 'surface_focusing_lon_cnf': float(first.values['lon'][at]), 'surface_focusing_alt_cnf': 10.0}
        first = chain.Product(ctx.tmpdir(), case, name='L1A_a', gaps=gaps, cnf=focus)
    other = dict(case, cnf=case['other'], world=dict(case['world'], seed=case['other_seed'], echo='noise'))
    second = chain.Product(ctx.tmpdir(), other, name='L1A_b', cnf=focus)
    if chain.too_short(first) or chain.too_short(second):
        ctx.label('too short')
        return
    limit = None if case['cancel'] is None else Cancelling(case['cancel'])
    alone = first.capture()[1], second.capture(monitor=limit)[1]
    inner = []
    records = {0: [], 1: []}

    def sink(name, s):
        records[1 if inner and inner[-1] == 'running' else 0].append(chain.Snap(s))

    def start():
        inner.append('running')
        records[1] = []
        p = second.processor('second')
        p.process(second.path, *([Cancelling(case['cancel'])] if limit else []))
        inner[-1] = 'done'
        same(ctx, records[1], alone[1], 'the run in the middle of another: ')
    with chain.without_fits(), chain.capturing(sink):
        first.processor('first').process(first.path, Calling(case['at'], start))
    same(ctx, records[0], alone[0], 'the run interrupted by another: ')
    ctx.label('%s %s %s' % (bool(inner), bool(alone[0]), bool(alone[1])))
    ctx.mark(bool(inner) and bool(alone[0]) and bool(alone[1]))


def unusable():
    return chain.scenarios(pulses=(4,), samples=(2, 4), surfaces=(84, 90), before=st.booleans(),
                           bad=st.lists(st.sampled_from(['absent', 'text', 'empty', 'folder', 'cut', 'variable', 'records', 'samples']),
                                        min_size=1, max_size=3), drop=st.sampled_from(['lat', 'i_meas_ku', 'x_pos', 'agc_ku', 'seq_count', 'time']))


@prop(unusable, quick=12, thorough=300, shards=(4, 8), rule='an input was refused and records were written afterwards')
def refused(case, ctx):
    """an input that is no usable product is refused, and what was and will be produced is as if it had not been there"""
    p = chain.product(case, ctx)
    if chain.too_short(p):
        return
    out = os.path.join(p.dir, 'out')
    direct = os.path.join(p.dir, 'direct')
    with chain.without_fits():
        p.processor('r', direct, skip_l1bs=False).process(p.path)
        proc = p.processor('r', out, skip_l1bs=False)
        if case['before']:
            proc.process(p.path)
        for k, kind in enumerate(case['bad']):
            path = os.path.join(ctx.tmpdir(), 'L1A_bad%d.nc' % k)
            if kind in ('variable', 'records', 'samples'):
                values = dict(p.made)
                if kind == 'records':
                    values = {n: v[:0] for n, v in values.items()}
                elif kind == 'samples':
                    values['i_meas_ku'], values['q_meas_ku'] = values['i_meas_ku'][:, :, :1], values['q_meas_ku'][:, :, :1]
                    values['gprw_meas_ku'] = values['gprw_meas_ku'][:, :, :1]
                synth.write_l1a(path, values, drop=(case['drop'],) if kind == 'variable' else ())
            elif kind == 'folder':
                os.makedirs(path)
            elif kind != 'absent':
                with open(p.path, 'rb') as f:
                    content = f.read()
                with open(path, 'wb') as f:
                    f.write({'text': b'time lat lon\n1 2 3\n', 'empty': b'', 'cut': content[:len(content) // 3]}[kind])
            there = {n: hashlib.sha256(open(os.path.join(out, n), 'rb').read()).hexdigest() for n in os.listdir(out)} if os.path.isdir(out) else {}
            try:
                proc.process(path)
                failed = False
            except Exception:
                failed = True
            if kind != 'samples' and not (kind == 'variable' and case['drop'] in ('time',)):
                ctx.require(failed, 'an input that is unusable (%s) was processed without an error', kind)
            ctx.label(kind)
            now = {n: hashlib.sha256(open(os.path.join(out, n), 'rb').read()).hexdigest() for n in os.listdir(out)} if os.path.isdir(out) else {}
            for n in there:
                if 'bad' not in n:
                    ctx.equal(now.get(n), there[n], 'content of %s after an unusable input (%s)' % (n, kind))
        proc.process(p.path)
    for n in ('L1B__x_r.nc', 'L1BS__x_r.nc'):
        one, two = outputs.File(os.path.join(out, n)), outputs.File(os.path.join(direct, n))
        ctx.equal(one.dims, two.dims, n + ' after unusable inputs: dimensions')
        ctx.equal(set(one.raw), set(two.raw), n + ' after unusable inputs: variables')
        for v in one.raw:
            ctx.require(np.array_equal(one.raw[v], two.raw[v], equal_nan=one.raw[v].dtype.kind == 'f'), '%s after unusable inputs: %s differs', n, v)
        made = two.count()
    ctx.mark(made > 0)
