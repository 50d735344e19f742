"""C29: input, output and notebook files of a workspace follow a reference model over histories of operations."""
import os
import re

from hypothesis import strategies as st

from vlib.harness import prop
from vlib import wsmodel

ASSUMPTIONS = ['file names are plain names; patterns are shell wildcards as documented (the sandbox file system is case-sensitive)']
FILES = ('a.nc', 'b.nc', 'L1A_1.nc', 'L1A_12.nc', 'l1a_1.nc', 'a.txt', 'nc', 'a.nc.bak', '[x].nc', 'a b.nc')
PATTERNS = ('*', '*.nc', 'L1A*', 'L1A_?.nc', 'a.nc', '[ab].nc', '[!a]*', '?.nc', 'zz*', '*1*', '[[]x].nc', '')


class Monitor:
    """Counts what it is told, as a monitor of the software may do."""

    def __init__(self):
        self.total, self.done, self.work = None, False, 0

    def starting(self, label, total_work=None):
        monitor = self
        monitor.total = total_work

        class Scope:
            def __enter__(self):
                return monitor

            def __exit__(self, *args):
                monitor.done = True
        return Scope()

    def progress(self, work=None, msg=None):
        self.work += work or 0

    def is_cancelled(self):
        return False


def wild(pattern, name):
    """Shell wildcards, written out as a regular expression."""
    out, i = '', 0
    while i < len(pattern):
        ch = pattern[i]
        i += 1
        if ch == '*':
            out += '.*'
        elif ch == '?':
            out += '.'
        elif ch == '[' and ']' in pattern[i + 1:]:
            j = pattern.index(']', i + 1)
            body = pattern[i:j]
            negate = body.startswith('!')
            out += '[%s%s]' % ('^' if negate else '', re.escape(body[1:] if negate else body))
            i = j + 1
        else:
            out += re.escape(ch)
    return re.fullmatch(out, name, re.S) is not None


def listed(names, pattern):
    names = [n for n in names if n.endswith('.nc')]
    if isinstance(pattern, str):
        return sorted(n for n in names if wild(pattern, n))
    if pattern:
        return sorted(n for n in names if any(wild(p, n) for p in pattern))
    return sorted(names)


def pattern():
    one = st.sampled_from(PATTERNS + FILES[:4])
    return st.one_of(st.none(), one, st.lists(one, max_size=3))


def operations():
    def op(kind, *args):
        return st.tuples(st.just(kind), *args).map(list)
    space, config = st.sampled_from(['w', 'v']), st.sampled_from(['c', 'd'])
    def some_of(*sizes):
        return st.sampled_from(sizes).flatmap(lambda n: st.lists(st.sampled_from(FILES), min_size=n, max_size=n))
    some = some_of(0, 1, 2, 2, 3, 4)
    source = st.sampled_from(['src1', 'src2'])
    kinds = {'add': op('add', space, some, source), 'missing': op('missing', space, some), 'remove': op('remove', space, some),
             'folder': op('folder', space, st.sampled_from(['d.nc', 'sub'])), 'select': op('select', space, pattern()),
             'produce': op('produce', space, config, some), 'clean': op('clean', space, config), 'own': op('own', space, space, st.sampled_from(FILES))}
    one = st.sampled_from(4 * ['add'] + 3 * ['remove'] + 4 * ['select'] + 2 * ['produce', 'own'] + ['clean', 'missing', 'folder']).flatmap(kinds.get)
    start = st.one_of(st.just([]), st.tuples(op('add', space, some_of(5, 8), source), op('produce', space, config, some_of(5, 8))).map(list))
    return st.tuples(start, st.sampled_from([3, 6, 10, 14]).flatmap(lambda n: st.lists(one, min_size=n, max_size=n))).map(lambda t: t[0] + t[1])


@prop(operations, quick=800, thorough=15000, shards=(4, 8), rule='files were added and removed, and a listing had a proper, non-empty selection')
def histories(case, ctx):
    w = wsmodel.World(ctx)
    t, m = w.tree, w.manager
    outside = os.path.join(ctx.tmpdir(), 'outside')
    for src in ('src1', 'src2'):
        for f in FILES:
            w._write(os.path.join(outside, src, f), (src + f).encode())
    originals = wsmodel.snapshot(outside)
    for s in ('w', 'v'):
        m.create_workspace(s)
        for c in ('c', 'd'):
            m.create_config(s, c)
            for k in wsmodel.KEYS:
                t.put('%s/configs/%s/%s.json' % (s, c, k), wsmodel.template(k, False))
    w.exists = True
    added = removed = selected = False
    for op in case:
        kind, s = op[:2]
        what = ' '.join(repr(x) for x in op)
        if kind == 'add':
            names, src = op[2:]
            mon = Monitor()
            m.add_inputs(s, [os.path.join(outside, src, f) for f in names], mon)
            t.mkdir(s + '/inputs')
            for f in names:
                t.put('%s/inputs/%s' % (s, f), (src + f).encode())
                added = True
            ctx.equal((mon.total, mon.work, mon.done), (len(names), len(names), True), 'progress of ' + what)
        elif kind == 'missing':
            if op[2]:
                path = os.path.join(outside, 'src3', op[2][0])
                w.attempt(False, lambda: m.add_inputs(s, [path], Monitor()), what)
                t.mkdir(s + '/inputs')
        elif kind == 'own':
            x, f = op[2:]
            given = t.get('%s/inputs/%s' % (x, f))
            # a file that is there already may be refused or not; it stays as it is
            w.attempt(None if s == x and given is not None else given is not None, lambda: m.add_inputs(s, [w.path(x, 'inputs', f)], Monitor()), what)
            if given is not None:
                t.put('%s/inputs/%s' % (s, f), given)
            t.mkdir(s + '/inputs')
        elif kind == 'remove':
            mon = Monitor()
            m.remove_inputs(s, list(op[2]), mon)
            for f in op[2]:
                removed |= t.pop('%s/inputs/%s' % (s, f), None) is not None
            ctx.equal((mon.total, mon.work, mon.done), (len(op[2]), len(op[2]), True), 'progress of ' + what)
        elif kind == 'folder':
            t.mkdir('%s/inputs/%s' % (s, op[2]))
            os.makedirs(w.path(s, 'inputs', op[2]), exist_ok=True)
        elif kind == 'select':
            names = t.files(s + '/inputs')
            found = m.get_input_names(s, pattern=op[2])
            expected = listed(names, op[2])
            ctx.equal(found, expected, 'inputs of %r matching %r' % (s, op[2]))
            selected |= 0 < len(expected) < len(names)
            for c in ('c', 'd'):
                names = t.files('%s/configs/%s/outputs' % (s, c))
                expected = listed(names, op[2])
                ctx.equal(m.get_output_names(s, c, pattern=op[2]), expected, 'outputs of %r/%r matching %r' % (s, c, op[2]))
                selected |= 0 < len(expected) < len(names)
        elif kind == 'produce':
            for f in op[3]:
                w.plant('%s/configs/%s/outputs/%s' % (s, op[2], f), what.encode())
        elif kind == 'clean':
            folder = '%s/configs/%s/outputs' % (s, op[2])
            success, _ = w.attempt(folder in t, lambda: m.remove_outputs(s, op[2]), what)
            if success:
                removed |= bool(t.files(folder))
                for f in t.files(folder):
                    del t[folder + '/' + f]
        ctx.label(kind)
        w.verify(what)
        ctx.require(wsmodel.snapshot(outside) == originals, 'the files added were changed by %s', what)
        for x in ('w', 'v'):
            expected = listed(t.files(x + '/inputs'), None)
            ctx.equal(m.get_input_names(x), expected, 'inputs of %r after %s' % (x, what))
            ctx.equal(m.get_input_paths(x), [w.path(x, 'inputs', f) for f in expected], 'paths of the inputs of %r' % x)
            for c in ('c', 'd'):
                ctx.equal(m.get_output_names(x, c), listed(t.files('%s/configs/%s/outputs' % (x, c)), None),
                          'outputs of %r/%r after %s' % (x, c, what))
    ctx.mark(added and removed and selected)


def notebooks():
    path = st.sampled_from(['/data/L1B_a.nc', 'out/L1B_a.nc', '/x y/L1B b.nc', "/it's/L1B_a.nc", '/q"uote/L1B.nc', '/d\\ir/L1B_z.nc', 'C:\\out\\L1B.nc', '/\u00e9/L1B.nc'])
    return st.fixed_dictionaries({'calls': st.lists(st.one_of(
        st.tuples(st.just('inspect'), st.sampled_from(['w', 'v']), path).map(list),
        st.tuples(st.just('compare'), st.sampled_from(['w', 'v']), path, path).map(list),
        st.tuples(st.just('inspect'), st.sampled_from(['none', 'w']), st.sampled_from(['/d/L1B.nc', '/d/%s.nc' % ('L1B_S3A_' * 32)])).map(list),
        st.tuples(st.just('compare'), st.sampled_from(['none', 'w']), *[st.sampled_from(['/d/L1B.nc', '/d/%s.nc' % ('L1B_S3A_' * 15)])] * 2).map(list),
        st.tuples(st.just('often'), st.sampled_from(['w', 'v']), path, st.integers(2, 13)).map(list),
        st.tuples(st.just('own'), st.sampled_from(['w', 'v']), st.sampled_from(['mine.ipynb', 'inspect-L1B_a.nc-2.ipynb', 'x.txt', 'old.ipynb/', 'inspect-L1B_a.nc-1.ipynb/'])).map(list)),
        min_size=1, max_size=7)})


class Opened(Exception):
    pass


def opened_by(notebook):
    """what the cells of a notebook do first: the function of dedop.ui and the products it is called with"""
    import ast
    import sys
    import types

    def recorder(kind):
        def call(*args, **kwargs):
            raise Opened(kind, args + tuple(kwargs[k] for k in sorted(kwargs)))
        return call
    fake = {'dedop.ui.inspect': ('inspect_l1b_product', 'inspect'), 'dedop.ui.compare': ('compare_l1b_products', 'compare')}
    saved = {k: sys.modules.get(k) for k in fake}
    try:
        for k, (name, kind) in fake.items():
            sys.modules[k] = types.ModuleType(k)
            setattr(sys.modules[k], name, recorder(kind))
        scope = {}
        for cell in notebook['cells']:
            if cell['cell_type'] == 'code':
                code = '\n'.join(x for x in ''.join(cell['source']).splitlines() if not x.startswith('%'))
                exec(compile(ast.parse(code), 'cell', 'exec'), scope)
    except Opened as e:
        return e.args[0], e.args[1]
    finally:
        for k, v in saved.items():
            sys.modules.pop(k, None)
            if v is not None:
                sys.modules[k] = v
    return None


@prop(notebooks, quick=200, thorough=5000, shards=(4, 8), rule='a notebook was created for a product that had one already')
def analysis(case, ctx):
    """inspect/compare create a new notebook each time, never overwrite one, and refer to the products given."""
    import json
    import ntpath
    import dedop.ui.workspace_manager as module
    w = wsmodel.World(ctx)
    m = w.manager
    launched = []

    class Manager(w.Manager):
        @classmethod
        def launch_notebook(cls, title, notebook_dir, notebook_path=None):
            launched.append((title, notebook_dir, notebook_path))
    m = Manager(w.root)
    for s in ('w', 'v'):
        m.create_workspace(s)
    before = {}
    own = {}
    repeated = False
    seen = set()
    import contextlib
    import io
    calls = []
    for call in case['calls']:
        calls += [['inspect', call[1], call[2]]] * call[3] if call[0] == 'often' else [call]
    for kind, s, *paths in calls:
        folder = w.path(s, 'notebooks')
        if kind == 'own':
            os.makedirs(folder, exist_ok=True)
            p = os.path.join(folder, paths[0])
            if p.endswith(os.sep):
                if not os.path.exists(p[:-1]):
                    os.mkdir(p)
            elif not os.path.exists(p):
                w._write(p, b'{"mine": true}')
                before[p] = b'{"mine": true}'
        else:
            del launched[:]
            length = len('-'.join([kind] + [ntpath.basename(x) for x in paths]) + '-99.ipynb')
            with contextlib.redirect_stdout(io.StringIO()):
                done, _ = w.attempt(s != 'none' and length <= 255, lambda: (m.inspect_l1b_product if kind == 'inspect' else m.compare_l1b_products)(s, *paths),
                                    '%s in %r with %r' % (kind, s, paths))
            ctx.equal(len(launched), int(done), 'notebooks opened')
        if kind != 'own' and done:
            title, where, path = launched[0]
            ctx.equal(where, folder, 'folder of the notebook')
            ctx.require(path not in before, '%s was overwritten', path)
            ctx.equal(os.path.dirname(path), folder, 'place of the notebook')
            with open(path, encoding='utf-8') as fp:
                text = fp.read()
            code = '\n'.join(''.join(c['source']) for c in json.loads(text)['cells'] if c['cell_type'] == 'code')
            import ast
            strings = [n.value for n in ast.walk(ast.parse('\n'.join(l for l in code.splitlines() if not l.startswith('%'))))
                       if isinstance(n, ast.Constant) and isinstance(n.value, str)]
            for x in paths:
                ctx.require(x in strings, 'the notebook does not name %r', x)
            ctx.equal(opened_by(json.loads(text)), (kind, tuple(paths)), 'products the notebook opens')
            names = tuple(ntpath.basename(x) for x in paths)
            repeated |= (kind, s, names) in seen
            seen.add((kind, s, names))
            before[path] = text.encode('utf-8')
            ctx.require(all(n in os.path.basename(path) for n in names), 'the notebook %s is not named after %s', path, names)
        ctx.label(kind)
        found = wsmodel.snapshot(w.root)
        expected = {os.path.relpath(p, w.root): v for p, v in before.items()}
        ctx.equal({k: v for k, v in found.items() if v is not None}, expected, 'files in the workspaces')
        for x in ('w', 'v'):
            ctx.equal(m.get_notebook_names(x), sorted(os.path.basename(p) for p in before if p.startswith(w.path(x) + os.sep)
                                                      and p.endswith('.ipynb')), 'notebooks of %r' % x)
    ctx.mark(repeated)
