"""C30: workspace and configuration commands of the command line follow a reference model over histories of commands."""
import os

from hypothesis import strategies as st

from vlib.harness import prop
from vlib import gen
from vlib.climodel import Cli
from vlib.wsmodel import KEYS

ASSUMPTIONS = ['the cate package is not installed in this sandbox: its argument parsing and error reporting are replaced by a stand-in (vlib/catestub.py)',
               'names are plain directory names']
POOL = ('a', 'b', 'a_1', 'a_copy', 'default', 'a_2', 'b_1_2')


def name():
    return st.one_of(st.integers(0, 5), st.integers(0, 5), st.sampled_from(POOL))


def upto(n, least=0):
    return st.lists(name(), min_size=least, max_size=n)


def commands():
    def cmd(group, verb, pos, **opt):
        return st.tuples(st.just(group), st.just(verb), st.fixed_dictionaries(dict({'w': st.sampled_from([None] * 6 + [0, 1, 'a', 'zz'])} if group == 'c' else {}, **opt)), pos,
                         st.sampled_from(['yes', '', 'no', 'YES', 'y'])).map(list)
    flag = dict(flag=st.booleans())
    often = dict(times=st.sampled_from([1, 1, 1, 3, 4]))
    start = st.lists(st.tuples(st.sampled_from(POOL), st.lists(st.tuples(st.sampled_from(POOL), st.booleans()), max_size=3, unique_by=lambda x: x[0])), max_size=3,
                     unique_by=lambda x: x[0]).map(lambda spaces: sum((
                         [['w', 'add', {}, [n], '']] + [['c', 'add', {'w': None, 'cryosat': b}, [c], ''] for c, b in cs] for n, cs in spaces), []))
    history = gen.histories(st.one_of(
        cmd('c', 'i', upto(1)), cmd('c', 'age', upto(1), keys=st.one_of(st.sampled_from(KEYS).map(lambda k: [k]), st.sets(st.sampled_from(KEYS), min_size=1).map(sorted)), up=st.booleans()), cmd('c', 'up', upto(1)),
        cmd('w', 'rm', upto(1), **flag), cmd('c', 'rm', upto(1), **flag),
        cmd('w', 'add', upto(1, 1)), cmd('w', 'add', st.sampled_from(POOL).map(lambda x: [x])), cmd('w', 'rm', upto(1), **flag), cmd('w', 'cp', upto(2), **often),
        cmd('w', 'rn', upto(2, 1)), cmd('w', 'cur', upto(1)), cmd('w', 'ls', st.just([])),
        cmd('c', 'add', upto(1, 1), cryosat=st.booleans()), cmd('c', 'add', st.sampled_from(POOL).map(lambda x: [x]), cryosat=st.booleans()),
        cmd('c', 'rm', upto(1), **flag), cmd('c', 'cp', upto(2), **often), cmd('c', 'rn', upto(2, 1)), cmd('c', 'cur', upto(1)), cmd('c', 'ls', st.just([])),
        cmd('c', 'v', upto(1)), cmd('c', 'up', upto(1))), 6, 16)
    return st.tuples(start, history).map(lambda x: x[0] + x[1])


@prop(commands, quick=400, thorough=8000, shards=(8, 8),
      rule='a copy, rename or removal succeeded and another command was refused')
def histories(case, ctx):
    w = Cli(ctx)
    done = refused = False
    for group, verb, opt, pos, answer in case:
        spaces = w.workspaces()

        def pick(x, there):
            return x if not isinstance(x, int) else (there[x % len(there)] if there else POOL[x])
        opt = dict(opt)
        if isinstance(opt.get('w'), int):
            opt['w'] = pick(opt['w'], spaces)
        there = spaces if group == 'w' else (w.configs(opt.get('w') or w.current) if (opt.get('w') or w.current) else [])
        names = [pick(x, there) for x in pos]
        if verb == 'age':
            w.age(opt.get('w') or w.current, names[0] if names else None, opt['keys'])
            if not opt['up']:
                continue
            opt, verb = {'w': opt.get('w')}, 'up'
        for i in range(opt.pop('times', 1)):                    # a copy of the same again and again: a new name every time
            ok = w.command([group, verb, opt, names], answer)
        done |= ok and verb in ('cp', 'rn', 'rm')
        refused |= not ok
        ctx.label(group + ' ' + verb)
        if ok and verb in ('add', 'rm', 'rn', 'cur'):
            status, out, err, _ = w.run(['w', 'cur'])
            ctx.require(status == 0 and ('"%s"' % w.current in out if w.current else 'no current workspace' in out),
                        'current workspace should be %r: %s', w.current, out)
        status, out, err, _ = w.run(['status'])
        ctx.equal(status, 0, 'status of "dedop status"')
        fields = dict(x.split(':', 1) for x in out.splitlines() if ':' in x)
        ctx.equal(fields['current workspace'].strip(), w.current or '(not set)', 'current workspace in "dedop status"')
        if w.workspaces():
            ctx.equal(fields['workspace names'].strip(), ', '.join(w.workspaces()), 'workspaces in "dedop status"')
        ctx.equal(fields['current DDP configuration'].strip(), (w.current_config(w.current) if w.current else None) or '(not set)',
                  'current configuration in "dedop status"')
    ctx.mark(done and refused)


def contents():
    size = st.one_of(st.sampled_from([0, 1, 2**20 - 1, 2**20, 2**20 + 1]), st.integers(0, 3 * 2**20))
    path = st.sampled_from(['a/x.nc', 'a/inputs/x.nc', 'a/inputs/y.nc', 'b/configs/c/outputs/x.nc', 'b/configs/c/outputs/y.nc', 'z', 'b/q/w/e/r/t.nc'])
    return st.dictionaries(path, size, max_size=6)


@prop(contents, quick=60, thorough=2000, shards=(2, 8), rule='files in different folders, more than 1 MiB together')
def sizes(case, ctx):
    """The status shows the size of everything in the workspaces."""
    w = Cli(ctx)
    for p, n in case.items():
        w._write(w.path(p), b'')
        os.truncate(w.path(p), n)
    status, out, err, _ = w.run(['status'])
    ctx.equal(status, 0, 'status of "dedop status"')
    fields = {k.strip(): v.strip() for k, v in (x.split(':', 1) for x in out.splitlines() if ':' in x)}
    total = sum(case.values())
    if case:
        ctx.equal(fields['workspaces total size'], '%d MiB' % (total // 2**20), 'size of %s' % case)
        ctx.equal(fields['workspaces location'], w.root, 'location')
        ctx.equal(fields['workspace names'], ', '.join(sorted({p.split('/')[0] for p in case if '/' in p})) or '(not set)', 'names')
    else:
        ctx.require(not os.path.exists(w.root), '"dedop status" created %s', w.root)
    ctx.mark(total > 2**20 and len({os.path.dirname(p) for p in case}) > 1)
