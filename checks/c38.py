"""C38: a processing session on the command line produces exactly the products of the processor."""
import json
import os

import netCDF4
import numpy as np
from hypothesis import strategies as st

from vlib.harness import prop
from vlib import chain, gen
from vlib.climodel import Cli

ASSUMPTIONS = ['the cate package is not installed in this sandbox: its argument parsing and error reporting are replaced by a stand-in (vlib/catestub.py)',
               'the creation time in the global attributes is not compared',
               'the curve fits of the stack statistics are left out']
CONFIGS = ('c', 'd', 'v1.2')
INPUTS = ('L1A_a.nc', 'b.nc', 'L1A_short.nc', 'L1A.v2.nc')


def sessions():
    run = st.fixed_dictionaries({
        'verb': st.just('run'), 'w': st.booleans(), 'c': st.sampled_from([None, None, 0, 1]), 'all': st.sampled_from([False, False, True]),
        's': st.booleans(), 'q': st.booleans(), 'o': st.sampled_from([False, False, True]),
        'i': st.one_of(st.none(), st.none(), st.lists(st.sampled_from([0, 0, 1, 1, 3, 2]), min_size=1, max_size=2, unique=True))})
    edit = st.fixed_dictionaries({'verb': st.just('edit'), 'c': st.integers(0, 1), 'cnf': chain.options()})
    cur = st.fixed_dictionaries({'verb': st.just('cur'), 'c': st.integers(0, 1)})
    copy = st.fixed_dictionaries({'verb': st.just('copy'), 'c': st.integers(0, 1)})
    clean = st.fixed_dictionaries({'verb': st.just('clean'), 'c': st.integers(0, 1)})
    ops = st.tuples(run, st.lists(st.sampled_from((run, run, run, edit, edit, cur, copy, clean)).flatmap(lambda x: x), min_size=1, max_size=4)).map(
        lambda x: [x[0]] + x[1])
    return chain.scenarios(pulses=(4,), samples=(2, 4), surfaces=(88, 92), other=chain.options(), names=st.permutations(CONFIGS),
                           inputs=st.lists(st.sampled_from([0, 1, 3, 0, 1, 3, 0, 2]), min_size=1, max_size=2, unique=True), ops=ops)


def same_file(ctx, got, want, what):
    with netCDF4.Dataset(got) as a, netCDF4.Dataset(want) as b:
        ctx.equal(sorted(a.variables), sorted(b.variables), what + ': variables')
        ctx.equal({k: len(d) for k, d in a.dimensions.items()}, {k: len(d) for k, d in b.dimensions.items()}, what + ': dimensions')
        for n in b.variables:
            for v in (a.variables[n], b.variables[n]):
                v.set_auto_maskandscale(False)
            x, y = a.variables[n][...], b.variables[n][...]
            ctx.require(np.array_equal(x, y, equal_nan=x.dtype.kind == 'f'), '%s: variable %s differs', what, n)
        for n in b.ncattrs():
            if n != 'creation_time':
                ctx.require(np.array_equal(a.getncattr(n), b.getncattr(n)), '%s: attribute %s differs', what, n)
        return len(b.dimensions[sorted(d for d in b.dimensions if d.startswith('time_l1b'))[0]]) \
            if any(d.startswith('time_l1b') for d in b.dimensions) else 0


@prop(sessions, quick=24, thorough=800, shards=(8, 8), rule='products with records were made and the configuration or the options changed between runs')
def session(case, ctx):
    from dedop.proc.sar import L1BProcessor
    w = Cli(ctx)
    first, second = case['names'][:2]
    names = [first, second]
    a = chain.Product(w.outside, case, name='L1A_a')
    paths = {0: a.path}
    for k, name, seed, n in ((1, 'b', 1, None), (2, 'L1A_short', 2, 30), (3, 'L1A.v2', 3, None)):
        world = dict(case['world'], seed=case['world']['seed'] + seed)
        paths[k] = chain.Product(w.outside, dict(case, world=world), name=name, n=n).path
    if chain.too_short(a):
        return
    conf = {}                   # the parameters of each configuration
    with open(a.conf['chd']) as fp:
        chd = fp.read()
    with open(a.conf['cst']) as fp:
        cst = fp.read()
    with open(a.conf['cnf']) as fp:
        base = json.load(fp)

    def cnf_text(options):
        text = json.loads(json.dumps(base))
        for k, v in options.items():
            text[k]['value'] = v
        return json.dumps(text, indent=4)

    def cli(args, fails=None):
        try:
            status, out, err, _ = real(w, args)
        except Exception as e:
            if fails and fails(e):
                return False
            raise
        ctx.require(status == 0 or fails, '"%s" failed: %s', ' '.join(args), err)
        return status == 0

    cli(['w', 'add', 'w'])
    for n in names:
        cli(['c', 'add', n])
    for n, options in zip(names, (case['cnf'], case['other'])):
        conf[n] = options
        for k, text in (('CHD', chd), ('CST', cst), ('CNF', cnf_text(options))):
            with open(w.path('w', 'configs', n, k + '.json'), 'w') as fp:
                fp.write(text)
    current = names[1]
    cli(['i', 'add', '-q'] + [paths[k] for k in case['inputs']])
    expected = {}               # outputs folder -> file name -> path of the processor's product
    made = ran = changed = 0
    for step, op in enumerate(case['ops']):
        verb = op['verb']
        name = names[op['c']] if op.get('c') is not None else None
        if verb == 'edit':
            conf[name] = op['cnf']
            with open(w.path('w', 'configs', name, 'CNF.json'), 'w') as fp:
                fp.write(cnf_text(op['cnf']))
            changed |= ran > 0
        elif verb == 'cur':
            cli(['c', 'cur', name])
            current = name
        elif verb == 'copy':
            new = 'copy%d' % step
            cli(['c', 'cp', name, new])
            expected[new] = dict(expected.get(name, {}))       # with what is in its outputs folder
            conf[new] = conf[name]
            # which one is current after a copy is taken from the tool
            with open(w.path('w', 'configs', '.current')) as fp:
                current = fp.read().strip()
            names[op['c']] = new
        elif verb == 'clean':
            if expected.get(name):
                cli(['o', 'cl', '-c', name, '-q'])
                expected[name] = {}
        else:
            if op['all'] and name:
                name = None
            chosen = sorted(paths[k] for k in op['i']) if op['i'] else None
            other = os.path.join(ctx.tmpdir(), 'elsewhere')
            args = ['run'] + (['-w', 'w'] if op['w'] else []) + (['-c', name] if name else []) + (['-a'] if op['all'] else [])
            args += (['-s'] if op['s'] else []) + (['-q'] if op['q'] else []) + (['-o', other] if op['o'] else [])
            args += ['-i'] + chosen if chosen else []
            what = '"%s" (step %d)' % (' '.join(args), step)
            files = chosen or [w.path('w', 'inputs', os.path.basename(p)) for p in sorted(paths[k] for k in case['inputs'])]
            configs = sorted(conf) if op['all'] else [name or current]
            # what the processor makes of it; several products are independent of each other, up to the first that is refused
            refused = False
            for c in configs:
                results = expected.setdefault(other if op['o'] else c, {})
                for f in files:
                    direct = os.path.join(ctx.tmpdir(), 'direct', '%d-%s' % (step, c))
                    files_of = {k: w.path('w', 'configs', c, k + '.json') for k in ('CHD', 'CNF', 'CST')}
                    p = L1BProcessor(c, files_of['CNF'], files_of['CST'], files_of['CHD'], direct, skip_l1bs=op['s'])
                    before = set(os.listdir(direct)) if os.path.isdir(direct) else set()
                    try:
                        with chain.without_fits():
                            p.process(f)
                    except Exception as e:
                        if 'insufficient' not in str(e):
                            raise
                        refused = True
                    for n in set(os.listdir(direct)) - before:
                        results[n] = (os.path.join(direct, n), refused)
                    if refused:
                        break
                if refused:
                    break
            ok = cli(args, fails=lambda e: refused and 'insufficient' in str(e))
            ctx.equal(ok, not refused, 'success of ' + what)
            ctx.label('refused' if refused else 'done')
            ran += 1
            changed |= ran > 1
        for where, results in expected.items():
            folder = where if os.path.isabs(where) else w.path('w', 'configs', where, 'outputs')
            there = sorted(os.listdir(folder)) if os.path.isdir(folder) else []
            ctx.equal(there, sorted(results), 'products in %s after step %d' % (folder, step))
            for n in there:
                if not results[n][1]:
                    made += same_file(ctx, os.path.join(folder, n), results[n][0], 'step %d: %s of %s' % (step, n, where))
    ctx.mark(made and changed)


def real(w, args):
    """a command with the real processor"""
    import contextlib
    import io
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), chain.without_fits():
        status = w.main.main(args=list(args), workspace_manager=w.Manager(w.root))
    return status or 0, out.getvalue(), err.getvalue(), None
