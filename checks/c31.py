"""C31: the commands for inputs, outputs and processing runs act on exactly the files and configurations they name."""
import os

from hypothesis import strategies as st

from vlib.harness import prop
from vlib import gen
from vlib.climodel import Cli
from checks.c29 import listed

ASSUMPTIONS = ['the cate package is not installed in this sandbox: its argument parsing and error reporting are replaced by a stand-in (vlib/catestub.py)',
               'names are plain file names; the processor is a stand-in that records its calls']
FILES = ('L1A_01.nc', 'L1A_02.nc', 'x.nc', 'a.txt', 'L1A 3.nc')
PATTERNS = ('*.nc', 'L1A*', 'L1A_01.nc', '?.nc', 'zz*')
POOL = ('a', 'b', 'default')


def commands():
    def cmd(verb, **opt):
        return st.fixed_dictionaries(dict(opt, verb=st.just(verb), answer=st.sampled_from(['yes', '', 'no', 'Yes'])))
    w = st.sampled_from([None] * 4 + list(POOL))
    some = st.lists(st.sampled_from(FILES), max_size=3, unique=True)
    pats = st.lists(st.sampled_from(PATTERNS + FILES[:2]), max_size=3)
    c = st.sampled_from([None] * 3 + ['c', 'd', 'default'])
    start = st.booleans().map(lambda full: [dict(verb='ws', name='a', answer=''), dict(verb='config', w=None, name='c', answer=''),
                                             dict(verb='config', w=None, name='d', answer=''), dict(verb='add', w=None, files=['x.nc'], wild=True, quiet=True, answer='')] if full else [])
    history = gen.histories(st.one_of(
        cmd('ws', name=st.sampled_from(POOL)), cmd('config', w=w, name=st.sampled_from(['c', 'd', 'default'])),
        cmd('add', w=w, files=some, wild=st.booleans(), quiet=st.booleans()), cmd('add', w=w, files=some, wild=st.booleans(), quiet=st.booleans()),
        cmd('rm', w=w, patterns=pats, quiet=st.booleans()), cmd('ls', w=w, pattern=st.one_of(st.none(), st.sampled_from(PATTERNS))),
        cmd('run', w=w, c=c, all=st.booleans(), skip=st.booleans(), quiet=st.booleans(), files=st.one_of(st.none(), some), dir=st.booleans()),
        cmd('run', w=w, c=st.none(), all=st.booleans(), skip=st.booleans(), quiet=st.booleans(), files=st.none(), dir=st.just(False)),
        cmd('out', w=w, c=c, pattern=st.one_of(st.none(), st.sampled_from(PATTERNS + ('L1B_c*',)))), cmd('clean', w=w, c=c, quiet=st.booleans())),
        6, 15)
    return st.tuples(start, history).map(lambda x: x[0] + x[1])


@prop(commands, quick=450, thorough=8000, shards=(4, 8), rule='a run processed at least two files or configurations and another command was refused')
def histories(case, ctx):
    w = Cli(ctx)
    t = w.tree
    for f in FILES:
        w._write(os.path.join(w.outside, f), f.encode())
    many = refused = False
    for op in case:
        verb, ans = op['verb'], op['answer']
        yes = ans.lower() in ('yes', '')
        if verb == 'ws':
            if op['name'] in w.workspaces():
                w.command(['w', 'cur', {}, [op['name']]])
            else:
                w.command(['w', 'add', {}, [op['name']]])
            continue
        ws = op['w'] or w.current
        if op['w'] and op['w'] not in w.workspaces():
            ws = w.current
            op = dict(op, w=None)
        wopt = ['-w', op['w']] if op['w'] else []
        ctx.label(verb)
        if verb == 'config':
            w.command(['c', 'cur' if ws and op['name'] in w.configs(ws) else 'add', {'w': op['w']}, [op['name']]])
            continue
        quiet = ['-q'] if op.get('quiet') else []
        if verb == 'add':
            files = [f for f in FILES if f.endswith('.nc')] if op['wild'] and op['files'] else op['files']
            args = ['i', 'add'] + wopt + quiet + ([os.path.join(w.outside, '*.nc')] if op['wild'] and op['files']
                                                   else [os.path.join(w.outside, f) for f in op['files']] or [os.path.join(w.outside, 'none*')])
            status, out, err, _ = w.run(args)
            ctx.equal(status == 0, bool(files), 'success of %s: %s' % (args, err))
            if status == 0:
                if not ws:
                    w.add_workspace('default')
                    ws = 'default'
                for f in files:
                    t.put('%s/inputs/%s' % (ws, f), f.encode())
        elif verb == 'rm':
            args = ['i', 'rm'] + wopt + quiet + op['patterns']
            names = listed(t.files(ws + '/inputs'), op['patterns'] or None) if ws else []
            status, out, err, asked = w.run(args, ans)
            ctx.equal(status == 0, bool(names), 'success of %s with %s: %s' % (args, t.files(ws + '/inputs') if ws else None, err))
            if status == 0:
                ctx.equal(bool(asked), not op['quiet'], 'confirmation asked for')
                if op['quiet'] or yes:
                    for f in names:
                        del t['%s/inputs/%s' % (ws, f)]
        elif verb == 'ls':
            args = ['i', 'ls'] + wopt + ([op['pattern']] if op['pattern'] else [])
            status, out, err, _ = w.run(args)
            ctx.equal(status == 0, bool(ws), 'success of %s: %s' % (args, err))
            if status == 0:
                ctx.equal(w.numbered(out), listed(t.files(ws + '/inputs'), op['pattern']), 'inputs shown by %s' % args)
                ctx.require('"%s"' % ws in out, '%s does not name workspace %r: %s', args, ws, out)
        elif verb == 'run':
            c = op['c'] if ws and op['c'] in w.configs(ws) else None
            chosen = [os.path.join(w.outside, f) for f in op['files']] if op['files'] else None
            other = os.path.join(ctx.tmpdir(), 'elsewhere')
            args = ['run'] + wopt + quiet + (['-c', c] if c else []) + (['-a'] if op['all'] else []) + (['-s'] if op['skip'] else [])
            args += (['-o', other] if op['dir'] else []) + (['-i'] + chosen if chosen else [])
            status, out, err, _ = w.run(args)
            what = ' '.join(args)
            if op['all'] and c:
                ctx.require(status != 0 and not w.calls, '"%s" was accepted', what)
            else:
                if not ws:
                    w.add_workspace('default')
                    ws = 'default'
                if op['all']:
                    configs = w.configs(ws)
                else:
                    configs = [c or w.current_config(ws) or 'default']
                    if configs[0] not in w.configs(ws):
                        w.add_config(ws, configs[0])
                files = chosen or [w.path(ws, 'inputs', f) for f in listed(t.files(ws + '/inputs'), None)]
                ok = bool(configs) and bool(files)
                ctx.equal(status == 0, ok, 'success of "%s": %s' % (what, err))
                expected = []
                for n in configs if ok else []:
                    for f in files:
                        expected.append(dict(name=n, chd=w.path(ws, 'configs', n, 'CHD.json'), cnf=w.path(ws, 'configs', n, 'CNF.json'),
                                             cst=w.path(ws, 'configs', n, 'CST.json'), dir=other if op['dir'] else w.path(ws, 'configs', n, 'outputs'),
                                             skip=op['skip'], file=f, quiet=op['quiet']))
                        if not op['dir']:
                            t.put('%s/configs/%s/outputs/L1B_%s_%s' % (ws, n, n, os.path.basename(f)), b'L1B')
                ctx.equal(w.calls, expected, 'processing done by "%s"' % what)
                many |= len(expected) > 1
        else:
            configs = w.configs(ws) if ws else []
            c = op['c'] if op['c'] in configs else None
            name = c or (w.current_config(ws) if ws else None)
            copt = ['-c', c] if c else []
            there = t.files('%s/configs/%s/outputs' % (ws, name)) if name else []
            if verb == 'out':
                args = ['o', 'ls'] + wopt + copt + ([op['pattern']] if op['pattern'] else [])
                status, out, err, _ = w.run(args)
                ctx.equal(status == 0, bool(name), 'success of %s: %s' % (args, err))
                if status == 0:
                    ctx.equal(w.numbered(out), listed(there, op['pattern']), 'outputs shown by %s' % args)
                    ctx.require('"%s"' % name in out and '"%s"' % ws in out, '%s names neither configuration %r nor workspace %r: %s', args, name, ws, out)
            else:
                args = ['o', 'cl'] + wopt + copt + quiet
                status, out, err, asked = w.run(args, ans)
                ctx.equal(status == 0, bool(listed(there, None)), 'success of %s: %s' % (args, err))
                if status == 0:
                    ctx.equal(bool(asked), not op['quiet'], 'confirmation asked for')
                    if op['quiet'] or yes:
                        for f in there:
                            del t['%s/configs/%s/outputs/%s' % (ws, name, f)]
        refused |= status != 0
        if status != 0:
            ctx.require(err.strip(), 'no message for %s', args)
        w.verify('"%s"' % ' '.join(args))
    ctx.mark(many and refused)


def products():
    one = st.tuples(st.sampled_from(['name', 'name', 'path', 'relative', 'missing']), st.sampled_from(['p.nc', 'q.nc'])).map(list)
    return st.fixed_dictionaries({
        'first': one, 'second': st.one_of(st.none(), one), 'w': st.sampled_from([None, 'w', 'v']), 'c': st.sampled_from([None, 'c', 'd']),
        'W': st.sampled_from([None, 'w', 'v']), 'C': st.sampled_from([None, 'c', 'd']), 'compare': st.booleans(),
        'absent': st.lists(st.tuples(st.sampled_from('wv'), st.sampled_from('cd'), st.sampled_from(['p.nc', 'q.nc'])).map(list), max_size=3)})


@prop(products, quick=300, thorough=8000, shards=(4, 8), rule='the products of the two files came from different places')
def analysis(case, ctx):
    """inspect and compare open the product meant: a name in the outputs of the workspace and configuration given, a path as it is."""
    w = Cli(ctx)
    opened = []

    class Manager(w.Manager):
        def inspect_l1b_product(self, workspace_name, l1b_path):
            opened.append((workspace_name, l1b_path))

        def compare_l1b_products(self, workspace_name, l1b_path_1, l1b_path_2):
            opened.append((workspace_name, l1b_path_1, l1b_path_2))
    m = Manager(w.root)
    for s in 'wv':
        m.create_workspace(s)
        for c in 'cd':
            m.create_config(s, c)
        m.set_current_config_name(s, 'd')
    m.set_current_workspace_name('v')
    for f in ('p.nc', 'q.nc'):
        w._write(os.path.join(w.outside, f), b'')
    for s in 'wv':
        for c in 'cd':
            for f in ('p.nc', 'q.nc'):
                if [s, c, f] not in case['absent']:
                    w._write(w.path(s, 'configs', c, 'outputs', f), b'')

    def text(spec):
        kind, f = spec
        return f if kind == 'name' else os.path.join('..', os.path.basename(w.outside), f) if kind == 'relative' else os.path.join(w.outside, f if kind == 'path' else 'no' + f)

    def resolve(spec, s, c):
        return w.path(s, 'configs', c, 'outputs', spec[1]) if spec[0] == 'name' else os.path.join(w.outside, spec[1]) if spec[0] == 'relative' else text(spec)
    opts = [x for k in 'wc' + ('WC' if case['compare'] else '') if case[k] for x in ('-' + k, case[k])]
    s1 = case['w'] or 'v'
    c1 = case['c'] or 'd'
    paths = [resolve(case['first'], s1, c1)]
    if case['compare']:
        second = case['second'] or case['first']
        paths.append(resolve(second, case['W'] or s1, case['C'] or c1))
        args = ['o', 'compare'] + opts + [text(case['first'])] + ([text(case['second'])] if case['second'] else [])
    else:
        args = ['o', 'inspect'] + opts + [text(case['first'])]
    here = os.getcwd()
    os.chdir(w.outside)
    try:
        status, out, err, _ = w.run(args, manager=m)
    finally:
        os.chdir(here)
    ok = all(os.path.exists(p) for p in paths)
    ctx.equal(status == 0, ok, 'success of %s: %s' % (args, err))
    ctx.equal(opened, [(s1,) + tuple(paths)] if ok else [], 'products opened by %s' % args)
    ctx.label('opened' if ok else 'not found')
    ctx.mark(ok and len({os.path.dirname(p) for p in paths}) > 1)
