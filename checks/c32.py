"""C32: the web service follows the workspace model over histories of requests and answers in JSON."""
import contextlib
import io
import json
import os

import netCDF4
import numpy as np
from hypothesis import strategies as st

from vlib.harness import prop
from vlib import catestub, chain, gen, synth, wsmodel
from vlib.climodel import Cli
from vlib.wsmodel import KEYS
from checks.c28 import upgraded
from checks.c29 import listed, opened_by

ASSUMPTIONS = ['the cate package is not installed in this sandbox: only the methods of the service are exercised, not the transport',
               'which of the remaining workspaces or configurations becomes current after a deletion is left open']
POOL = ('a', 'b', 'default')
CONFIGS = ('c', 'd', 'default')
FILES = ('x.nc', 'y.nc', 'z.txt')


def requests():
    def op(kind, *args):
        return st.tuples(st.just(kind), *args).map(list)
    s, c = st.sampled_from([0, 1, 2, 3, 0, 1, 2] + list(POOL)), st.sampled_from([0, 1, 2, 0, 1] + list(CONFIGS))
    some = st.lists(st.sampled_from(FILES), min_size=1, max_size=3, unique=True)
    start = st.tuples(st.lists(st.sampled_from(POOL), max_size=3, unique=True), st.lists(st.tuples(st.integers(0, 2), st.sampled_from(CONFIGS)), max_size=3)).map(
        lambda x: [['new_workspace', n] for n in x[0]] + [['add_new_config', x[0][i % len(x[0])], c, False] for i, c in x[1] if x[0]])
    rest = gen.histories(st.one_of(
        op('new_workspace', s), op('new_workspace', st.sampled_from(POOL)), op('delete_workspace', s), op('copy_workspace', s, s), op('rename_workspace', s, s),
        op('set_current_workspace', s), op('add_new_config', s, c, st.booleans()), op('add_new_config', s, st.sampled_from(CONFIGS), st.booleans()),
        op('delete_config', s, c), op('copy_config', s, c, c), op('rename_config', s, c, c), op('set_current_config', s, c),
        op('save_configs', s, c, st.integers(-1, 3), st.integers(0, 99)), op('upgrade_configs', s, c),
        op('add_input_files', s, some), op('remove_input_files', s, some), op('output', s, c, some), op('remove_output_files', s, c)),
        6, 20)
    return st.tuples(start, rest).map(lambda x: x[0] + x[1])


@prop(requests, quick=300, thorough=10000, shards=(4, 8), rule='a deletion or rename succeeded and another request was refused')
def histories(case, ctx):
    w = Cli(ctx)
    from dedop.webapi.websocket import WebSocketService
    t = w.tree
    for f in FILES:
        w._write(os.path.join(w.outside, f), f.encode())
    done = refused = False
    for kind, *args in case:
        service = WebSocketService(w.Manager(w.root))
        spaces = w.workspaces()
        s = args[0]
        s = s if isinstance(s, str) else (spaces[s % len(spaces)] if spaces else 'a')
        configs = w.configs(s) if s in spaces else []
        there = spaces if kind.endswith('workspace') else configs
        args = [s] + [x if not isinstance(x, int) or isinstance(x, bool) or kind == 'save_configs' and i > 0 else (there[x % len(there)] if there else 'c')
                      for i, x in enumerate(args[1:])]
        what = '%s(%s)' % (kind, ', '.join(map(repr, args)))
        has = s in spaces
        c = args[1] if len(args) > 1 else None
        cfg = has and c in configs
        base = '%s/configs/%s' % (s, c)
        ctx.label(kind)
        if kind == 'output':
            if cfg:
                for f in args[2]:
                    w.plant('%s/outputs/%s' % (base, f), f.encode())
            continue
        if kind in ('save_configs', 'upgrade_configs', 'add_input_files', 'remove_input_files') and not (cfg if 'config' in kind else has):
            continue
        call = list(args)
        if kind == 'new_workspace':
            ok = not has or (None if not t.children(s) else False)
        elif kind in ('delete_workspace', 'set_current_workspace'):
            ok = has
        elif kind in ('copy_workspace', 'rename_workspace'):
            ok = has and args[1] not in spaces
            if args[1] == s and has and kind[0] == 'r':
                ok = None
        elif kind == 'add_new_config':
            ok = has and not cfg
        elif kind in ('delete_config', 'set_current_config'):
            ok = cfg
        elif kind in ('copy_config', 'rename_config'):
            ok = cfg and args[2] not in configs
            if args[2] == c and cfg and kind[0] == 'r':
                ok = None
        elif kind == 'save_configs':
            docs = {}
            for k in KEYS:
                doc = json.loads(t['%s/%s.json' % (base, k)].decode('utf-8'))
                doc['mine'] = {'value': args[3]}
                doc.pop('__metainf__', None)
                if args[2] >= 0:
                    doc['__metainf__'] = {'version': args[2], 'changelog': []}
                docs[k.lower()] = doc
            call = [s, c, docs]
            ok = True
        elif kind == 'add_input_files':
            call = [s, [os.path.join(w.outside, f) for f in args[1]]]
            ok = True
        elif kind == 'remove_output_files':
            ok = has and base + '/outputs' in t
        else:
            ok = True
        success, out = w.attempt(ok, lambda: getattr(service, kind)(*json.loads(json.dumps(call))), what)
        json.dumps(out)
        refused |= not success
        if success:
            if kind == 'new_workspace':
                t.mkdir(s)
                w.exists = True
                ctx.equal(out['name'], s, 'answer of ' + what)
            elif kind == 'delete_workspace':
                t.remove(s)
                ctx.label('left %s' % (len(w.workspaces()) if 'default' not in w.workspaces() else 'default'))
                w.adopt('.current', s, w.workspaces(), what)
                done = True
            elif kind == 'set_current_workspace':
                w.current = s
                ctx.equal((out['name'], out['workspace_dir'], bool(out['is_current'])), (s, w.path(s), True), 'answer of ' + what)
            elif kind in ('copy_workspace', 'rename_workspace') and s != args[1]:
                (t.copy_to if kind[0] == 'c' else t.move)(s, args[1])
                ctx.equal(out['name'], args[1], 'answer of ' + what)
                done |= kind[0] == 'r'
            elif kind == 'add_new_config':
                for k in KEYS:
                    t.put('%s/%s.json' % (base, k), wsmodel.template(k, args[2]))
            elif kind == 'delete_config':
                t.remove(base)
                ctx.label('configs left %s' % (len(w.configs(s)) if 'default' not in w.configs(s) else 'default'))
                w.adopt(s + '/configs/.current', c, w.configs(s), what)
                done = True
            elif kind == 'set_current_config':
                w.set_current_config(s, c)
            elif kind in ('copy_config', 'rename_config') and c != args[2]:
                (t.copy_to if kind[0] == 'c' else t.move)(base, '%s/configs/%s' % (s, args[2]))
                done |= kind[0] == 'r'
            elif kind in ('save_configs', 'upgrade_configs'):
                for k in KEYS:
                    path = '%s/%s.json' % (base, k)
                    if kind == 'save_configs':
                        expected = docs[k.lower()]
                    else:
                        expected = upgraded(json.loads(t[path].decode('utf-8')), json.loads(wsmodel.template(k, False).decode('utf-8')))
                        ctx.equal(dict(out[k.lower()]), expected, '%s in the answer of %s' % (k, what))
                    with open(w.path(path), 'rb') as fp:
                        data = fp.read()
                    ctx.equal(json.loads(data.decode('utf-8')), expected, '%s after %s' % (k, what))
                    t[path] = data
            elif kind == 'add_input_files':
                for f in args[1]:
                    t.put('%s/inputs/%s' % (s, f), f.encode())
            elif kind == 'remove_input_files':
                for f in args[1]:
                    t.pop('%s/inputs/%s' % (s, f), None)
            elif kind == 'remove_output_files':
                for f in t.files(base + '/outputs'):
                    del t['%s/outputs/%s' % (base, f)]
        w.verify(what)
        service = WebSocketService(w.Manager(w.root))
        ctx.equal(sorted(x['name'] for x in service.get_all_workspaces()['workspaces'] or []), w.workspaces(), 'workspaces after ' + what)
        for x in json.loads(json.dumps(service.get_all_workspaces()))['workspaces'] or []:
            ctx.equal(x['workspace_dir'], w.path(x['name']), 'directory of %r after %s' % (x['name'], what))
            ctx.equal(bool(x['is_current']), x['name'] == w.current, 'whether %r is the current workspace after %s' % (x['name'], what))
        versions = {k.lower() + '_version': json.loads(wsmodel.template(k, False).decode('utf-8'))['__metainf__']['version'] for k in KEYS}
        ctx.equal(json.loads(json.dumps(service.get_default_config_versions())), versions, 'versions of the default configuration')
        if w.current in w.workspaces():
            ctx.equal(service.get_current_workspace()['name'], w.current, 'current workspace after ' + what)
        for x in w.workspaces():
            ctx.equal(service.get_config_names(x) or [], w.configs(x), 'configurations after ' + what)
            ctx.equal(service.get_current_config(x)['name'] or None, w.current_config(x), 'current configuration after ' + what)
            for n in w.configs(x):
                ctx.equal(service.get_output_names(x, n), listed(t.files('%s/configs/%s/outputs' % (x, n)), None), 'outputs after ' + what)
                got = service.get_configs(x, n)
                json.dumps(got)
                ctx.equal(got['name'], n, 'name of the configuration after ' + what)
                for k in KEYS:
                    expected = json.loads(t['%s/configs/%s/%s.json' % (x, n, k)].decode('utf-8'))
                    ctx.equal(dict(got[k.lower()]), expected, '%s of %s/%s after %s' % (k, x, n, what))
                    ctx.equal(sorted(got[k.lower() + '_order']), sorted(expected), 'order of ' + k)
    ctx.mark(done and refused)


def inputs():
    number = st.one_of(st.integers(-2**31, 2**31 - 1), st.floats(-1e6, 1e6), st.text('abcZ 0', min_size=1, max_size=8),
                       st.lists(st.integers(-100, 100), min_size=2, max_size=4))
    return st.fixed_dictionaries({
        'attrs': st.dictionaries(st.text('abc_', min_size=1, max_size=5), number, max_size=5), 'n': st.integers(0, 8), 'seed': st.integers(0, 999),
        'positions': st.sampled_from(['both', 'both', 'none', 'lat'])})


@prop(inputs, quick=100, thorough=3000, shards=(4, 8), rule='the product has positions and a numeric attribute')
def metadata(case, ctx):
    """Coordinates and attributes of an input product are those in the file, and can be sent as JSON."""
    w = Cli(ctx)
    from dedop.webapi.websocket import WebSocketService
    path = os.path.join(w.outside, 'in.nc')
    rng = np.random.RandomState(case['seed'])
    values = {k: rng.randint(-90, 90, case['n']) for k in ('lat', 'lon')}
    with netCDF4.Dataset(path, 'w') as ds:
        ds.createDimension('t', case['n'])
        for k in ('lat', 'lon'):
            if case['positions'] in ('both', k):
                v = ds.createVariable('%s_l1a_echo_sar_ku' % k, 'i4', ('t',))
                v.scale_factor = 1e-6
                v.set_auto_scale(False)
                v[:] = values[k] * 10**6
        for k, x in case['attrs'].items():
            ds.setncattr(k, x)
    got = WebSocketService.get_lat_lon(path)
    ends = WebSocketService.get_max_min_coordinates(path)
    attrs = WebSocketService.get_global_attributes(path)
    json.dumps([got, ends, attrs])
    for k in ('lat', 'lon'):
        expected = list(map(float, values[k])) if case['positions'] in ('both', k) else []
        ctx.close(np.array(got[k], dtype=float), np.array(expected), k, rtol=1e-9, atol=1e-9)
        ctx.close(np.array(ends[k], dtype=float), np.array(expected[:1] + expected[-1:]), 'first and last ' + k, rtol=1e-9, atol=1e-9)
    ctx.equal(json.loads(json.dumps(attrs)), {k: x for k, x in case['attrs'].items()}, 'global attributes')
    ctx.mark(case['positions'] == 'both' and case['n'] > 1 and any(not isinstance(x, str) for x in case['attrs'].values()))


def runs():
    return chain.scenarios(pulses=(4,), samples=(2,), surfaces=(100, 104))


@prop(runs, quick=6, thorough=60, shards=(2, 4), rule='always: the products have records')
def processing(case, ctx):
    """A run requested from the service produces what the processor produces with the files of that configuration."""
    w = Cli(ctx)
    from dedop.webapi.websocket import WebSocketService
    from dedop.util.monitor import Monitor
    p = chain.product(case, ctx)
    if chain.too_short(p):
        return
    service = WebSocketService(w.Manager(w.root))
    service.new_workspace('w')
    for c in ('c', 'd'):
        service.add_new_config('w', c, False)
    for k, path in zip(KEYS, (p.conf['chd'], p.conf['cnf'], p.conf['cst'])):
        with open(path) as fp:
            service.workspace_manager.write_config_file('w', 'c', k, fp.read())
    service.add_input_files('w', [p.path])
    l1a = service.workspace_manager.get_input_paths('w')[0]
    out = service.workspace_manager.get_outputs_path('w', 'c')
    with chain.without_fits():
        service.process('run', 'w', 'c', out, l1a, Monitor.NULL)
        direct = os.path.join(p.dir, 'direct')
        p.processor('run', direct, skip_l1bs=False).process(p.path)
    names = sorted(os.listdir(direct))
    ctx.equal(service.get_output_names('w', 'c'), names, 'output files')
    ctx.equal(service.get_output_names('w', 'd'), [], 'output files of another configuration')
    records = 0
    for n in names:
        with netCDF4.Dataset(os.path.join(out, n)) as a, netCDF4.Dataset(os.path.join(direct, n)) as b:
            ctx.equal(sorted(a.variables), sorted(b.variables), 'variables of ' + n)
            for v in a.variables:
                x, y = (np.ma.filled(z.variables[v][...], 0) for z in (a, b))
                ctx.require(np.array_equal(x, y), 'variable %s of %s differs', v, n)
                records += x.size
    ctx.mark(records)


def wishes():
    s = st.sampled_from(['a', 'b', 'a', 'b', 'none'])
    path = st.sampled_from(['/out/L1B_x.nc', '/out/L1B y.nc', 'L1B_x.nc', "/it's/L1B.nc"])
    return st.fixed_dictionaries({'code': st.sampled_from([None, None, None, 'no terminal']), 'wishes': st.lists(st.one_of(
        st.tuples(st.just('inspect_output'), s, path).map(list), st.tuples(st.just('compare_outputs'), s, path, path).map(list),
        st.tuples(st.just('launch_notebook'), s, st.integers(0, 4)).map(list),
        st.tuples(st.just('own'), st.sampled_from('ab'), st.sampled_from(['mine.ipynb', 'x.txt'])).map(list)), min_size=2, max_size=9)})


@prop(wishes, quick=150, thorough=4000, shards=(4, 8), rule='a notebook made before was opened again')
def notebooks(case, ctx):
    """Notebooks are made for the products named, listed, and opened again by their names."""
    catestub.install()
    from dedop.ui.exception import WorkspaceError
    from dedop.webapi.websocket import WebSocketService
    w = wsmodel.World(ctx)
    opened = []

    class Manager(w.Manager):
        @classmethod
        def launch_notebook(cls, title, notebook_dir, notebook_path=None):
            opened.append((notebook_dir, notebook_path))
            if case['code']:
                raise WorkspaceError(case['code'])
    for s in 'ab':
        w.manager.create_workspace(s)
    made = {'a': {}, 'b': {}}
    again = False
    for kind, s, *args in case['wishes']:
        service = WebSocketService(Manager(w.root))
        folder = w.path(s, 'notebooks')
        if kind == 'own':
            if args[0] not in made[s]:
                w._write(os.path.join(folder, args[0]), b'{}')
                made[s][args[0]] = None
            continue
        names = [n for n in made.get(s, {}) if n.endswith('.ipynb')]
        if kind == 'launch_notebook':
            if not names:
                continue
            args = [names[args[0] % len(names)]]
            again = again or made[s][args[0]] is not None
        what = '%s(%s)' % (kind, ', '.join(map(repr, [s] + args)))
        del opened[:]
        with contextlib.redirect_stdout(io.StringIO()):
            success, out = w.attempt(s in made and not case['code'], lambda: getattr(service, kind)(s, *args), what)
        json.dumps(out)
        ctx.equal(len(opened), int(s in made), 'notebooks opened by ' + what)
        ctx.label(kind, 'done' if success else 'refused')
        if s in made:
            where, path = opened[0]
            ctx.equal(where, folder, 'folder opened by ' + what)
            if kind == 'launch_notebook':
                ctx.equal(path, os.path.join(folder, args[0]), 'notebook opened by ' + what)
            else:
                ctx.equal(os.path.dirname(path), folder, 'folder of the notebook made by ' + what)
                ctx.require(os.path.basename(path) not in made[s], '%s replaced %s', what, path)
                with open(path, encoding='utf-8') as fp:
                    ctx.equal(opened_by(json.load(fp)), (kind.split('_')[0], tuple(args)), 'products of the notebook made by ' + what)
                made[s][os.path.basename(path)] = kind
        for x in 'ab':
            ctx.equal(json.loads(json.dumps(service.get_notebook_file_names(x))), sorted(n for n in made[x] if n.endswith('.ipynb')), 'notebooks after ' + what)
            ctx.equal(sorted(os.listdir(w.path(x, 'notebooks'))) if made[x] else [], sorted(made[x]), 'files after ' + what)
    ctx.mark(again)
