"""C27: configuration management follows a reference model over histories of operations."""
import json
import os

from hypothesis import strategies as st

from vlib.harness import prop
from vlib import gen, wsmodel
from vlib.wsmodel import KEYS

ASSUMPTIONS = ['configuration names are plain directory names', 'one process works on the workspaces directory at a time',
               'the templates shipped with the software are the reference for what a new configuration contains']
POOL = ('a', 'b', 'Ab', 'default', 'a b', 'outputs', 'a_copy', 'v1.2')
WORKSPACES = ('w', 'v')


def name():
    return st.one_of(st.integers(0, 5), st.integers(0, 5), st.sampled_from(POOL), st.sampled_from(POOL * 2 + (wsmodel.LONG,)), st.just(''))


def space():
    return st.sampled_from(WORKSPACES * 5 + ('none', ''))


def values():
    return st.recursive(st.one_of(st.integers(-10**6, 10**6), st.booleans(), st.text('aZ\u00e9 "\\', max_size=4), st.none()),
                        lambda x: st.one_of(st.lists(x, max_size=2), st.dictionaries(st.text('aZ_', max_size=3), x, max_size=2)),
                        max_leaves=4)


def documents():
    return st.dictionaries(st.text('abXYZ_', min_size=1, max_size=4), values(), max_size=4)


def operations():
    def op(kind, *args):
        return st.tuples(st.just(kind), *args).map(list)
    started = st.lists(st.tuples(st.sampled_from(WORKSPACES), st.sampled_from(POOL), st.booleans(), st.booleans()).map(
        lambda x: [['create', x[0], x[1], x[2]]] + ([['output', x[0], x[1], 'x.nc']] if x[3] else [])), max_size=4).map(lambda x: sum(x, []))
    history = gen.histories(st.one_of(
        op('create', space(), name(), st.booleans()), op('create', st.sampled_from(WORKSPACES), st.sampled_from(POOL), st.booleans()),
        op('delete', space(), name()), op('copy', space(), name(), name()), op('rename', space(), name(), name()),
        op('current', space(), name()), op('write', st.sampled_from(WORKSPACES), name(), st.sampled_from(KEYS), documents()),
        op('output', st.sampled_from(WORKSPACES), name(), st.sampled_from(['x.nc', 'y.nc'])), op('stray', st.sampled_from(WORKSPACES), st.sampled_from(['notes.txt', 'README']))), 6, 18)
    return st.tuples(started, history).map(lambda x: x[0] + x[1])


@prop(operations, quick=800, thorough=15000, shards=(4, 8),
      rule='a copy, rename or deletion of a configuration succeeded and another operation was refused')
def histories(case, ctx):
    w = wsmodel.World(ctx)
    t = w.tree
    for s in WORKSPACES:
        w.manager.create_workspace(s)
        t.mkdir(s)
    w.exists = True
    current = {s: None for s in WORKSPACES}
    known = {s: True for s in WORKSPACES}
    done = refused = False

    def has(s, c):
        return bool(c) and t.get('%s/configs/%s' % (s, c), 0) is None

    for op in case:
        kind, s = op[:2]
        there = t.folders(s + '/configs') if s in WORKSPACES else []
        args = [x if isinstance(x, bool) or not isinstance(x, int) else (there[x % len(there)] if there else POOL[x]) for x in op[2:]]
        what = ' '.join(repr(x) for x in [kind, s] + args)
        m = w.manager
        valid = s in WORKSPACES
        c = args[0]
        base = '%s/configs/%s' % (s, c)
        success = True
        if kind == 'create':
            success, _ = w.attempt(valid and c not in ('', wsmodel.LONG) and not has(s, c), lambda: m.create_config(s, c, cryosat=args[1]), what)
            if success:
                for k in KEYS:
                    t.put('%s/%s.json' % (base, k), wsmodel.template(k, args[1]))
            elif valid and c == wsmodel.LONG and os.path.isdir(w.path(s, 'configs')):
                t.mkdir(s + '/configs')     # made before the folder inside failed
        elif kind == 'delete':
            success, _ = w.attempt(valid and has(s, c), lambda: m.delete_config(s, c), what)
            if success:
                t.remove(base)
                done = True
                known[s] &= c != current[s]
        elif kind in ('copy', 'rename'):
            new = args[1]
            ok = valid and has(s, c) and new not in ('', wsmodel.LONG) and not has(s, new)
            if kind == 'rename' and valid and has(s, c) and new == c:
                ok = None
            success, _ = w.attempt(ok, lambda: (m.copy_config if kind == 'copy' else m.rename_config)(s, c, new), what)
            if success and new != c:
                (t.copy_to if kind == 'copy' else t.move)(base, '%s/configs/%s' % (s, new))
                done = True
                if kind == 'rename':
                    known[s] &= c != current[s]
        elif kind == 'current':
            ok = valid and (has(s, c) or (None if not c else False))
            if not c and valid and s + '/configs' in t:
                ok = True
            success, _ = w.attempt(ok, lambda: m.set_current_config_name(s, c), what)
            if success:
                t.put(s + '/configs/.current', c.encode())
                current[s], known[s] = c, True
        elif kind == 'write':
            if has(s, c):
                text = json.dumps(args[2], indent=op[2] if isinstance(op[2], int) else None, ensure_ascii=True)
                m.write_config_file(s, c, args[1], text)
                t.put('%s/%s.json' % (base, args[1]), text.encode())
        elif kind == 'output':
            if has(s, c):
                w.plant('%s/outputs/%s' % (base, args[1]), what.encode())
        elif kind == 'stray':
            if s + '/configs' in t:
                w.plant('%s/configs/%s' % (s, c), b'not a configuration')
        refused |= not success
        ctx.label(kind)
        w.verify(what, ignore=[x + '/configs/.current' for x in WORKSPACES if not known[x]])
        m = w.manager if len(what) % 2 else w.Manager(w.root)
        for x in WORKSPACES:
            there = t.folders(x + '/configs')
            ctx.equal(m.get_config_names(x) or [], there, 'configurations of %r after %s' % (x, what))
            for n in POOL:
                ctx.equal(bool(m.config_exists(x, n)), has(x, n), 'existence of configuration %r in %r after %s' % (n, x, what))
            if known[x]:
                ctx.equal(m.get_current_config_name(x) or None, current[x] or None, 'current configuration of %r after %s' % (x, what))
            for n in there:
                for k in KEYS:
                    ctx.equal(m.get_config_file(x, n, k), w.path(x, 'configs', n, k + '.json'), 'path of a file')
                    expected = json.loads(t['%s/configs/%s/%s.json' % (x, n, k)].decode('utf-8'))
                    found, order = m.get_config_json(x, n, k)
                    ctx.equal(dict(found), expected, 'content of %s of %s/%s after %s' % (k, x, n, what))
                    ctx.equal(sorted(order), sorted(expected), 'parameters of %s of %s/%s' % (k, x, n))
                    ctx.equal([y.lower() for y in order], sorted(y.lower() for y in expected), 'order of %s of %s/%s' % (k, x, n))
    ctx.mark(done and refused)


def edits():
    return st.fixed_dictionaries({
        'cryosat': st.booleans(), 'copy': st.booleans(), 'cnf': st.dictionaries(st.sampled_from(['zp_fact_range_cnf', 'N_looks_stack_cnf']),
                                                                               st.integers(1, 500)),
        'chd': st.dictionaries(st.sampled_from(['freq_ku_chd', 'brf_sar_chd', 'power_tx_ant_ku_chd', 'mean_sat_alt_chd']),
                               st.floats(1, 1e9)),
        'cst': st.dictionaries(st.sampled_from(['c_cst', 'pi_cst', 'earth_radius_cst']), st.floats(1, 1e9))})


ATTRS = {'zp_fact_range_cnf': 'zp_fact_range', 'N_looks_stack_cnf': 'n_looks_stack', 'N_samples_sar_chd': 'n_samples_sar',
         'freq_ku_chd': 'freq_ku', 'brf_sar_chd': 'brf_sar', 'power_tx_ant_ku_chd': 'power_tx_ant_ku', 'mean_sat_alt_chd': 'mean_sat_alt',
         'c_cst': 'c', 'pi_cst': 'pi', 'sec_in_day_cst': 'sec_in_day', 'earth_radius_cst': 'earth_radius'}


@prop(edits, quick=60, thorough=1500, shards=(4, 8), rule='at least one parameter of a new configuration was edited')
def usable(case, ctx):
    """A new configuration, edited by its owner, is accepted by the processor and gives it the values in its files."""
    from dedop.conf import CharacterisationFile, ConfigurationFile, ConstantsFile
    from dedop.ui.workspace_manager import WorkspaceManager
    m = WorkspaceManager(os.path.join(ctx.tmpdir(), 'ws'))
    m.create_workspace('w')
    m.create_config('w', 'c', cryosat=case['cryosat'])
    ctx.mark(case['cnf'] or case['chd'] or case['cst'])
    expected = {}
    for key in KEYS:
        config, _ = m.get_config_json('w', 'c', key)
        for n, v in case[key.lower()].items():
            config[n]['value'] = v
        expected[key] = {n: v['value'] for n, v in config.items() if n != '__metainf__'}
        m.write_config_file('w', 'c', key, json.dumps(config))
    c = 'c'
    if case['copy']:
        m.copy_config('w', 'c', 'd')
        m.delete_config('w', 'c')
        c = 'd'
    ctx.equal(m.get_all_config_version('w', c), m.get_all_default_config_version(), 'versions of a new configuration')
    cst = ConstantsFile(m.get_config_file('w', c, 'CST'))
    cnf = ConfigurationFile(m.get_config_file('w', c, 'CNF'))
    chd = CharacterisationFile(cst, m.get_config_file('w', c, 'CHD'))
    for key, obj in (('CST', cst), ('CNF', cnf), ('CHD', chd)):
        for n, v in expected[key].items():
            if n in ATTRS:
                ctx.close(float(getattr(obj, ATTRS[n])), float(v), '%s as the processor sees it' % n, rtol=1e-12)
