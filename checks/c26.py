"""C26: workspace management follows a reference model over histories of operations."""
import os

from hypothesis import strategies as st

from vlib.harness import prop
from vlib import gen, wsmodel
from vlib.wsmodel import LONG, NAMES, names

ASSUMPTIONS = ['workspace names are plain directory names', 'one process works on the workspaces directory at a time']


def some():
    """A name: one of the workspaces there (an index), a name of the pool, or none."""
    return st.one_of(st.integers(0, 5), st.integers(0, 5), names(), st.sampled_from(NAMES * 2 + (LONG,)), st.just(''))


def full():
    return st.tuples(st.just('fill'), names()).map(list)


def operations():
    return gen.histories(st.one_of(
        st.tuples(st.just('create'), some()).map(list), full(), full(),
        st.tuples(st.just('delete'), some()).map(list),
        st.tuples(st.just('copy'), some(), some()).map(list), st.tuples(st.just('rename'), some(), some()).map(list),
        st.tuples(st.just('current'), some()).map(list),
        st.tuples(st.just('put'), some(), st.sampled_from(['inputs/x.nc', 'configs/.current', 'configs/a/CNF.json', 'a/b', 'f']),
                  st.text('xyz', max_size=3)).map(list),
        st.tuples(st.just('stray'), st.sampled_from(['notes.txt', 'zz'])).map(list),
        st.just(['wipe']), st.just(['restart'])), 6, 18)


@prop(operations, quick=2400, thorough=30000, shards=(4, 8),
      rule='a copy, rename or deletion succeeded on a workspace with content and another operation was refused')
def histories(case, ctx):
    w = wsmodel.World(ctx)
    t = w.tree
    current, known = None, True
    done = refused = False

    def has(n):
        return bool(n) and n in t and t[n] is None

    for op in case:
        there = t.folders('')
        kind, args = op[0], [x if isinstance(x, str) else (there[x % len(there)] if there else NAMES[x]) for x in op[1:]]
        op = [kind] + args
        what = ' '.join(repr(x) for x in op)
        m = w.manager
        if kind == 'restart':
            w.restart()
        elif kind == 'put':
            if has(args[0]) and args[0] + '/' + args[1] not in t and \
                    not any(t.get(args[0] + '/' + '/'.join(args[1].split('/')[:i]), None) is not None
                            for i in range(1, len(args[1].split('/')))):
                w.plant(args[0] + '/' + args[1], args[2].encode())
        elif kind == 'fill':
            if not has(args[0]):
                w.attempt(True, lambda: m.create_workspace(args[0]), what)
                t.mkdir(args[0])
                w.exists = True
                w.plant(args[0] + '/configs/a/CNF.json', args[0].encode())
                w.plant(args[0] + '/inputs/deep/er/x.nc', b'\x00\xff')
        elif kind == 'stray':
            if w.exists:
                w.plant(args[0], b'not a workspace')
        elif kind == 'wipe':
            m.delete_all_workspaces()
            t.clear()
            w.exists, current, known = False, None, True
        elif kind == 'create':
            n, = args
            ok = False if n in ('', LONG) or (has(n) and t.children(n)) else (None if has(n) else True)
            success, out = w.attempt(ok, lambda: m.create_workspace(n), what)
            if success:
                t.mkdir(n)
                w.exists = True
                ctx.equal((out.name, out.workspace_dir, bool(out.is_current)), (n, w.path(n), False), what)
            elif n == LONG:
                w.exists |= os.path.isdir(w.root)       # made before the folder inside failed
            refused |= not success
        elif kind == 'delete':
            n, = args
            success, _ = w.attempt(has(n), lambda: m.delete_workspace(n), what)
            if success:
                done |= bool(t.children(n))
                t.remove(n)
                if n == current:
                    known = False
            refused |= not success
        elif kind in ('copy', 'rename'):
            n, new = args
            ok = has(n) and new not in ('', LONG) and not has(new)
            if kind == 'rename' and ok is False and n == new and has(n):
                ok = None
            success, out = w.attempt(ok, lambda: (m.copy_workspace if kind == 'copy' else m.rename_workspace)(n, new), what)
            if success and n != new:
                done |= bool(t.children(n))
                (t.copy_to if kind == 'copy' else t.move)(n, new)
                ctx.equal((out.name, out.workspace_dir), (new, w.path(new)), what)
                if kind == 'rename' and n == current:
                    known = False
            refused |= not success
        elif kind == 'current':
            n, = args
            success, out = w.attempt(has(n) if n else (True if w.exists else None), lambda: m.set_current_workspace_name(n), what)
            if success:
                current, known = n, True
                t['.current'] = n.encode()
                if n:
                    ctx.equal((out.name, out.workspace_dir, out.is_current), (n, w.path(n), True), what)
            refused |= not success
        ctx.label(kind, *['too long a name'] * (LONG in args))
        w.verify(what, ignore=() if known else ('.current',))
        m = w.manager
        there = t.folders('')
        ctx.equal(m.get_workspace_names(), there, 'workspaces after ' + what)
        listed = m.get_workspaces() or []
        ctx.equal(sorted(x['name'] for x in listed), there, 'workspaces with details after ' + what)
        for x in listed:
            ctx.equal(x['workspace_dir'], w.path(x['name']), 'directory of a workspace')
            if known:
                ctx.equal(bool(x['is_current']), x['name'] == current, 'whether %r is the current one after %s' % (x['name'], what))
        for n in NAMES:
            ctx.equal(bool(m.workspace_exists(n)), has(n), 'existence of %r after %s' % (n, what))
        if known:
            now = m.get_current_workspace()
            ctx.equal(now.name or None, current or None, 'current workspace after ' + what)
            if current:
                ctx.equal((now.workspace_dir, now.is_current), (w.path(current), True), 'current workspace after ' + what)
    ctx.mark(done and refused)
