"""C28: upgrading a configuration applies exactly the changes since its version and keeps everything else."""
import copy
import json
import os

from hypothesis import strategies as st

from vlib.harness import prop
from vlib import wsmodel
from vlib.wsmodel import KEYS

ASSUMPTIONS = ['the changelog of a template lists its versions in ascending order, and what it says was added or changed is in the template']
NAMES = ('p', 'q', 'r', 's', 't', 'u')


def changelogs():
    change = st.tuples(st.sampled_from(NAMES), st.sampled_from('+*-')).map(list)
    return st.lists(st.lists(change, max_size=4), min_size=1, max_size=5)


def synthetic():
    return st.fixed_dictionaries({
        'log': changelogs(), 'first': st.sets(st.sampled_from(NAMES)).map(sorted), 'version': st.integers(-2, 6),
        'edits': st.dictionaries(st.sampled_from(NAMES), st.integers(100, 199)), 'extra': st.booleans(),
        'lost': st.sets(st.sampled_from(NAMES), max_size=2).map(sorted)})


def evolve(case):
    """All versions of a template, each a map from parameter to value, with the changelog that leads to them."""
    state = {n: {'value': i, 'units': None} for i, n in enumerate(case['first'])}
    states, log = [dict(state)], [{'version': 0, 'parameters': [], 'comment': 'initial version'}]
    for v, changes in enumerate(case['log'], 1):
        entries = []
        for n, op in changes:
            if op == '-' and n in state:
                del state[n]
            elif op == '-' or (op == '+') == (n in state):
                continue
            else:
                state[n] = {'value': 1000 * v + len(entries), 'units': 'u'}
            entries.append([n, op, 'because'])
        log.append({'version': v, 'parameters': entries, 'comment': 'c%d' % v})
        states.append(dict(state))
    return states, log


def upgraded(current, default):
    """Reference: last change of each parameter after the version of the file decides; everything else is the user's."""
    version = current['__metainf__']['version'] if '__metainf__' in current else -1
    out = copy.deepcopy(current)
    meta = default['__metainf__']
    if version >= meta['version']:
        return out
    last = {}
    for change in meta['changelog']:
        if change['version'] > version:
            for n, op in (x[:2] for x in change['parameters']):
                last[n] = op
    for n, op in last.items():
        if op == '-':
            out.pop(n, None)
        else:
            out[n] = copy.deepcopy(default[n])
    out['__metainf__'] = copy.deepcopy(meta)
    return out


@prop(synthetic, quick=1500, thorough=60000, shards=(4, 8), rule='at least one parameter changed after the version of the file and another was kept')
def changes(case, ctx):
    from dedop.ui.workspace_manager import WorkspaceManager
    states, log = evolve(case)
    newest = len(states) - 1
    default = dict(copy.deepcopy(states[-1]), __metainf__={'description': 'd', 'version': newest, 'changelog': log})
    v = case['version']
    current = copy.deepcopy(states[min(max(v, 0), newest)])
    for n, x in case['edits'].items():
        if n in current:
            current[n]['value'] = x
    for n in case['lost']:
        current.pop(n, None)
    if case['extra']:
        current['mine'] = {'value': 'x'}
    if v >= 0:
        current['__metainf__'] = {'description': 'd', 'version': v, 'changelog': log[:v + 1]}
    expected = upgraded(current, default)
    ctx.label('older' if v < newest else 'not older')
    ctx.mark(v < newest and any(c['parameters'] for c in log if c['version'] > v) and
             any(n in expected and expected[n] == current.get(n) for n in current))
    reference = copy.deepcopy(default)
    result = WorkspaceManager._do_upgrade_config(copy.deepcopy(current), default)
    ctx.equal(dict(result), expected, 'configuration upgraded from version %d to %d' % (v, newest))
    ctx.equal(default, reference, 'template after the upgrade')
    again = WorkspaceManager._do_upgrade_config(copy.deepcopy(result), default)
    ctx.equal(dict(again), expected, 'configuration upgraded twice')


def shipped():
    return st.fixed_dictionaries({
        'cryosat': st.booleans(), 'versions': st.tuples(*(st.integers(-1, 4) for _ in KEYS)).map(list),
        'edits': st.lists(st.tuples(st.sampled_from(KEYS), st.integers(0, 30), st.integers(1, 9)).map(list), max_size=8),
        'one': st.sampled_from((None,) + KEYS)})


@prop(shipped, quick=120, thorough=3000, shards=(4, 8), rule='a file of an older version with an edited parameter was upgraded')
def files(case, ctx):
    """The shipped templates, taken back to an older version and edited, then upgraded in a workspace."""
    from dedop.conf import CharacterisationFile, ConfigurationFile, ConstantsFile
    from dedop.ui.workspace_manager import WorkspaceManager
    root = os.path.join(ctx.tmpdir(), 'ws')
    m = WorkspaceManager(root)
    m.create_workspace('w')
    for c in ('c', 'other'):
        m.create_config('w', c, cryosat=case['cryosat'])
    expected, newest = {}, {}
    older = edited = False
    for key, v in zip(KEYS, case['versions']):
        default = json.loads(wsmodel.template(key, False).decode('utf-8'))
        newest[key] = default['__metainf__']['version']
        config = json.loads(wsmodel.template(key, case['cryosat']).decode('utf-8'))
        for change in reversed(default['__metainf__']['changelog']):
            if change['version'] > v:
                for n, op, *_ in change['parameters']:
                    if op == '+':
                        config.pop(n, None)
        if v < 0:
            del config['__metainf__']
        else:
            config['__metainf__']['version'] = v
        params = sorted(set(config) - {'__metainf__'})
        for k, i, x in case['edits']:
            if k == key and isinstance(config[params[i % len(params)]]['value'], (int, float)):
                config[params[i % len(params)]]['value'] = x
                edited = True
        older |= v < newest[key]
        m.write_config_file('w', 'c', key, json.dumps(config))
        expected[key] = upgraded(config, default) if case['one'] in (None, key) else config
    ctx.mark(older and edited)
    before = wsmodel.snapshot(os.path.join(root, 'w', 'configs', 'other'))
    if case['one']:
        version = m.upgrade_config('w', 'c', case['one'])
        ctx.equal(version, expected[case['one']].get('__metainf__', {}).get('version', -1), 'version reported')
    else:
        versions = m.upgrade_all_config('w', 'c')
        ctx.equal(list(versions), [expected[k].get('__metainf__', {}).get('version', -1) for k in KEYS], 'versions reported')
    for key in KEYS:
        ctx.equal(dict(m.get_config_json('w', 'c', key)[0]), expected[key], '%s after the upgrade' % key)
        ctx.equal(m.get_config_version('w', 'c', key), expected[key].get('__metainf__', {}).get('version', -1), 'version of %s' % key)
    ctx.equal(wsmodel.snapshot(os.path.join(root, 'w', 'configs', 'other')), before, 'another configuration')
    if case['one'] is None and all(v <= newest[k] for k, v in zip(KEYS, case['versions'])):
        cst = ConstantsFile(m.get_config_file('w', 'c', 'CST'))
        ConfigurationFile(m.get_config_file('w', 'c', 'CNF'))
        CharacterisationFile(cst, m.get_config_file('w', 'c', 'CHD'))
        ctx.label('loaded')
