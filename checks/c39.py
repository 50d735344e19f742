"""C39: when nothing more can be written, operations and runs say so and destroy nothing."""
import contextlib
import io
import json
import os
import resource
import shutil

from hypothesis import strategies as st

from vlib.harness import prop
from vlib import chain, gen, outputs, synth, wsmodel

ASSUMPTIONS = ['a full disk is imitated by the limit of the operating system for the size of a file (RLIMIT_FSIZE): every write beyond it fails',
               'what a failed copy or a failed creation leaves of the new files is not judged, only that it is a part of them',
               'an input that is replaced by another one of the same name is lost when the copy fails',
               'a second run into a product that could not be closed, in the same process, is not judged (the HDF5 library keeps it open)']
LIMITS = (0, 1, 10, 100, 1000, 3000, 10000, 100000)


@contextlib.contextmanager
def at_most(size):
    """no file can be written beyond this size"""
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (size, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


def spaces():
    config = st.fixed_dictionaries({'cryosat': st.booleans(), 'old': st.booleans(), 'outputs': st.lists(st.integers(0, 5000), max_size=2)})
    space = st.fixed_dictionaries({'configs': st.lists(config, min_size=1, max_size=2), 'inputs': st.lists(st.integers(0, 5000), max_size=3),
                                   'notebooks': st.integers(0, 1)})
    pick = st.integers(0, 1)

    def op(kind, *args):
        return st.tuples(st.just(kind), *args).map(list)
    new = st.sampled_from(['n', 'new one'])
    key = st.sampled_from(wsmodel.KEYS)
    kinds = {'create_workspace': op('create_workspace', new), 'copy_workspace': op('copy_workspace', pick, new), 'rename_workspace': op('rename_workspace', pick, new),
             'delete_workspace': op('delete_workspace', pick), 'current_workspace': op('current_workspace', pick),
             'create_config': op('create_config', pick, new, st.booleans()), 'copy_config': op('copy_config', pick, pick, new),
             'rename_config': op('rename_config', pick, pick, new), 'delete_config': op('delete_config', pick, pick),
             'current_config': op('current_config', pick, pick), 'save': op('save', pick, pick, key, st.sampled_from([2, 60, 700, 5000])),
             'upgrade': op('upgrade', pick, pick, st.one_of(st.none(), key)),
             'add': op('add', pick, gen.histories(st.integers(0, 5000), 1, 3), st.booleans()), 'remove': op('remove', pick), 'clean': op('clean', pick, pick),
             'inspect': op('inspect', pick), 'compare': op('compare', pick)}
    weights = ['save', 'upgrade', 'current_workspace', 'current_config', 'create_config', 'add', 'inspect'] * 2 + list(kinds)
    return st.sampled_from(weights).flatmap(lambda kind: st.fixed_dictionaries({
        'op': kinds[kind], 'spaces': st.lists(space, min_size=2, max_size=2), 'limit': st.sampled_from(LIMITS), 'current': st.booleans()}))


def build(ctx, manager, case, outside):
    names = ['w', 'v']
    for s, space in zip(names, case['spaces']):
        manager.create_workspace(s)
        for c, config in zip('cd', space['configs']):
            manager.create_config(s, c, config['cryosat'])
            if config['old']:
                for k in wsmodel.KEYS:
                    path = manager.get_config_file(s, c, k)
                    with open(path) as fp:
                        content = json.load(fp)
                    content.pop('__metainf__', None)
                    with open(path, 'w') as fp:
                        json.dump(content, fp, indent=4)
            for i, n in enumerate(config['outputs']):
                path = manager.get_outputs_path(s, c, 'L1B_%d.nc' % i)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, 'wb') as fp:
                    fp.write(b'o' * n)
        for i, n in enumerate(space['inputs']):
            path = manager.get_inputs_path(s, 'L1A_%d.nc' % i)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'wb') as fp:
                fp.write(b'i' * n)
        if space['notebooks']:
            path = manager.get_workspace_path(s, 'notebooks', 'inspect-L1B_0.nc-1.ipynb')
            os.makedirs(os.path.dirname(path))
            with open(path, 'w') as fp:
                fp.write('{}')
        if case['current']:
            manager.set_current_config_name(s, 'c')
    if case['current']:
        manager.set_current_workspace_name('v')


class Nothing:
    """a monitor that nothing is written for"""

    @contextlib.contextmanager
    def starting(self, label, total_work=None):
        yield self

    def progress(self, work=None, msg=None):
        pass

    def is_cancelled(self):
        return False


def perform(m, case, outside):
    kind, *args = case['op']
    if kind == 'create_workspace':
        return m.create_workspace(args[0])
    s = 'wv'[args[0]]
    configs = 'cd'[:len(case['spaces'][args[0]]['configs'])]
    c = configs[args[1] % len(configs)] if len(args) > 1 and isinstance(args[1], int) else None
    if kind in ('copy_workspace', 'rename_workspace'):
        getattr(m, kind)(s, args[1])
    elif kind == 'delete_workspace':
        m.delete_workspace(s)
    elif kind == 'current_workspace':
        m.set_current_workspace_name(s)
    elif kind == 'create_config':
        m.create_config(s, args[1], args[2])
    elif kind in ('copy_config', 'rename_config'):
        getattr(m, kind)(s, c, args[2])
    elif kind == 'delete_config':
        m.delete_config(s, c)
    elif kind == 'current_config':
        m.set_current_config_name(s, c)
    elif kind == 'save':
        m.write_config_file(s, c, args[2], json.dumps({'x': 'y' * args[3]}))
    elif kind == 'upgrade':
        if args[2]:
            m.upgrade_config(s, c, args[2])
        else:
            m.upgrade_all_config(s, c)
    elif kind == 'add':
        paths = []
        for i, n in enumerate(args[1]):
            path = os.path.join(outside, ('L1A_%d.nc' if args[2] else 'x%d.nc') % i)
            if not os.path.exists(path):
                with open(path, 'wb') as fp:
                    fp.write(b'n' * n)
            paths.append(path)
        return lambda: m.add_inputs(s, paths, Nothing())
    elif kind == 'remove':
        m.remove_inputs(s, m.get_input_names(s), Nothing())
    elif kind == 'clean':
        m.remove_outputs(s, c)
    elif kind == 'inspect':
        m.inspect_l1b_product(s, '/d/L1B_0.nc')
    elif kind == 'compare':
        m.compare_l1b_products(s, '/d/L1B_0.nc', '/d/L1B_1.nc')


@prop(spaces, quick=500, thorough=15000, shards=(4, 8), rule='the operation failed for lack of space where there was something to lose')
def operations(case, ctx):
    w = wsmodel.World(ctx)
    from dedop.ui.exception import WorkspaceError

    class Manager(w.Manager):
        @classmethod
        def launch_notebook(cls, title, notebook_dir, notebook_path=None):
            pass
    outside = os.path.join(ctx.tmpdir(), 'outside')
    os.makedirs(outside)
    twin = os.path.join(ctx.tmpdir(), 'twin')
    build(ctx, Manager(w.root), case, outside)
    before = wsmodel.snapshot(w.root)
    shutil.copytree(w.root, twin)

    def run(root):
        m = Manager(root)
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            if case['op'][0] == 'add':
                act = perform(m, case, outside)
            else:
                def act():
                    perform(m, case, outside)
            with at_most(case['limit'] if root == w.root else resource.RLIM_INFINITY):
                try:
                    act()
                    return None
                except WorkspaceError as e:
                    return e
                except OSError as e:
                    return e
    ideal = run(twin)
    if ideal is not None:
        ctx.label('not possible at all')
        return
    sources = wsmodel.snapshot(outside)
    after = wsmodel.snapshot(twin)
    error = run(w.root)
    found = wsmodel.snapshot(w.root)
    what = '%s with %d bytes at most: ' % (' '.join(repr(x) for x in case['op']), case['limit'])
    ctx.equal(wsmodel.diff(wsmodel.snapshot(outside), sources), '', what + 'files that were added')
    ctx.label(case['op'][0] + (' failed' if error else ''))
    if error is None:
        ctx.equal(wsmodel.diff(found, after), '', what + 'succeeded, but its result is not the one with enough space')
        return
    ctx.require(isinstance(error, WorkspaceError), '%sfailed with %r, not with a workspace error', what, error)
    ctx.require(str(error).strip(), '%sfailed without a message', what)
    for path, content in sorted(before.items()):
        if path in after and after[path] == content:
            ctx.require(path in found, '%sfailed and lost %s', what, path)
            ctx.require(found[path] == content, '%sfailed and changed %s', what, path)
        elif path in after and case['op'][0] != 'add':
            ctx.require(found.get(path, 0) in (content, after[path]), '%sfailed and left %s with neither its old nor its new content', what, path)
    for path, content in sorted(found.items()):
        if path not in before:
            ctx.require(path in after, '%sfailed and left %s behind', what, path)
            if content is not None and after[path] is not None:
                ctx.require(after[path].startswith(content), '%sfailed and left %s with other content', what, path)
    ctx.mark(any(v for v in before.values()))


def limited(limit, action):
    """what an action does in a process of its own that cannot write files beyond a size: ['done', answer], ['failed', error] or None (it crashed)"""
    inlet, outlet = os.pipe()
    child = os.fork()
    if not child:
        status = 1
        try:
            os.close(inlet)
            null = os.open(os.devnull, os.O_RDWR)
            os.dup2(null, 1)
            os.dup2(null, 2)
            hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
            try:
                answer = ['done', action()]
            except Exception as e:
                answer = ['failed', repr(e)]
            os.write(outlet, json.dumps(answer).encode()[:3000])
            status = 0
        finally:
            os._exit(status)        # not the usual way: the library may crash when it closes the files it could not write
    os.close(outlet)
    with os.fdopen(inlet, 'rb') as fp:
        answer = fp.read()
    os.waitpid(child, 0)
    return json.loads(answer) if answer else None


def runs():
    part = st.one_of(gen.floats(0.02, 1.0), gen.floats(0.02, 1.0), gen.floats(0.9, 1.1), st.sampled_from([0.0, 1.0]))
    return chain.scenarios(pulses=(4,), samples=(2, 4), surfaces=(84, 90), parts=st.lists(part, min_size=3, max_size=6),
                           l1bs=st.booleans(), format=st.sampled_from(['extended', 'sentinel-3']))


@prop(runs, quick=24, thorough=500, shards=(8, 8), rule='a run could not write all of its products')
def processing(case, ctx):
    """A run that cannot write its products fails; one that reports to be complete has written them."""
    p = chain.product(case, ctx, cnf={'output_format_flag_cnf': case['format']})
    if chain.too_short(p):
        return
    full = os.path.join(p.dir, 'full')
    with contextlib.redirect_stdout(io.StringIO()):
        p.processor('r', full, skip_l1bs=not case['l1bs']).process(p.path)
    sizes = {f: os.path.getsize(os.path.join(full, f)) for f in os.listdir(full)}
    with open(p.path, 'rb') as fp:
        given = fp.read()
    for i, part in enumerate(case['parts']):
        limit = int(part * max(sizes.values()))
        other = os.path.join(p.dir, 'other%d' % i)
        os.makedirs(other)
        with open(os.path.join(other, 'L1B__w_r.nc'), 'wb') as fp:
            fp.write(b'another product')
        processor = p.processor('r', other, skip_l1bs=not case['l1bs'])
        answer = limited(limit, lambda: processor.process(p.path))
        ctx.require(answer is not None, 'a run with at most %d bytes in a file crashed', limit)
        status, detail = answer
        with open(p.path, 'rb') as fp:
            ctx.require(fp.read() == given, 'the input was changed')
        with open(os.path.join(other, 'L1B__w_r.nc'), 'rb') as fp:
            ctx.equal(fp.read(), b'another product', 'another product')
        ctx.label(status)
        if limit > max(sizes.values()) + 200000:
            ctx.equal(status, 'done', 'run with enough space')
        if status == 'done':
            ctx.equal(detail, None, 'status of the run')
            for f in sizes:
                path = os.path.join(other, f)
                try:
                    a, b = outputs.File(os.path.join(full, f)), outputs.File(path)
                except OSError as e:
                    ctx.fail('a run with at most %d bytes in a file reports to be complete, but %s cannot be read: %s', limit, f, e)
                ctx.equal(sorted(b.values), sorted(a.values), 'variables of ' + f)
                for k in a.values:
                    ctx.require(a.values[k].tobytes() == b.values[k].tobytes(), '%s: %s is not what it is with enough space', f, k)
        ctx.mark(status == 'failed')
