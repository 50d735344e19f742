"""C34: the settings of the tools come from the configuration files, the local one taking precedence."""
import contextlib
import importlib
import importlib.util
import io
import json
import os
import shutil
import tempfile
import time

from hypothesis import strategies as st

from vlib import catestub
from vlib.harness import prop

ASSUMPTIONS = ['settings are evaluated once per process, as documented; each case starts afresh']
KEYS = ('workspaces_dir', 'launch_notebook_command', 'launch_editor_command', 'mine', 'other')


def files():
    value = st.one_of(st.integers(-9, 9), st.booleans(), st.none(), st.text('ab~/\\\'" {}', max_size=6), st.sampled_from(['~/x', '~', 'a/~', '/abs', '']))
    one = st.one_of(st.fixed_dictionaries({'values': st.dictionaries(st.sampled_from(KEYS), value, min_size=1, max_size=4),
                                                       'broken': st.sampled_from(7 * [None] + ['syntax', 'error']),
                                                       'bare': st.booleans()}), st.none())
    return st.fixed_dictionaries({'home': one, 'local': one, 'defaults': st.dictionaries(st.sampled_from(KEYS), value, max_size=2), 'folder': st.booleans()})


def text(spec):
    out = ('' if spec['bare'] else '# settings\nimport os.path\n') + ''.join('%s = %r\n' % kv for kv in spec['values'].items())
    return out + {None: '', 'syntax': 'x = (\n', 'error': 'y = 1 / 0\n'}[spec['broken']]


def fresh():
    """The settings module as a new process has it."""
    import dedop.util.config as config
    spec = importlib.util.spec_from_file_location('dedop.util.config_again', config.__file__)
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module


@prop(files, quick=300, thorough=8000, shards=(4, 8), rule='both files set the same parameter to different values')
def settings(case, ctx):
    home, cwd = os.path.join(ctx.tmpdir(), 'home'), os.path.join(ctx.tmpdir(), 'cwd')
    os.makedirs(home)
    os.makedirs(cwd)
    stored = os.path.join(home, '.dedop', 'config.py')
    if case['home'] is not None or case['folder']:
        os.makedirs(os.path.dirname(stored))
    if case['home'] is not None:
        with open(stored, 'w') as fp:
            fp.write(text(case['home']))
    if case['local'] is not None:
        with open(os.path.join(cwd, 'dedop-config.py'), 'w') as fp:
            fp.write(text(case['local']))
    saved, before = os.environ.get('HOME'), os.getcwd()
    try:
        os.environ['HOME'] = home
        os.chdir(cwd)
        config = fresh()
        out = io.StringIO()
        expected = {}
        for f in ('home', 'local'):
            if case[f] is not None and case[f]['broken'] is None:
                expected.update(case[f]['values'])
        with contextlib.redirect_stdout(out):
            for k in KEYS:
                default = case['defaults'].get(k)
                value = expected.get(k, default)
                ctx.equal(config.get_config_value(k, default), value, 'parameter ' + k)
                path = config.get_config_path(k, default)
                if value is None:
                    ctx.equal(path, None, 'path ' + k)
                else:
                    value = str(value)
                    if value == '~' or value.startswith('~/'):
                        value = home + value[1:]
                    if not value.startswith('~'):
                        ctx.equal(path, value, 'path ' + k)
        ctx.equal(out.getvalue().count('warning'), sum(case[f] is not None and case[f]['broken'] is not None for f in ('home', 'local')), 'warnings')
        ctx.require(os.path.isfile(stored), 'no settings file was written')
        with open(stored) as fp:
            content = fp.read()
        if case['home'] is not None:
            ctx.equal(content, text(case['home']), 'settings file of the user')
        else:
            ctx.equal(config.read_python_config(stored), {}, 'settings in a new file')
            ctx.label('written')
    finally:
        os.environ['HOME'] = saved
        os.chdir(before)
    ctx.mark(case['home'] and case['local'] and any(case['local']['values'].get(k, v) != v for k, v in case['home']['values'].items()))


def scripts():
    names = ['a', 'b', 'c', 'd']
    name = st.sampled_from(names)

    def lines(start):
        first = [['set', n, v] for n, v in zip(names, start)]
        line = st.one_of(st.tuples(st.just('set'), name, st.integers(-99, 99)).map(list), st.tuples(st.just('text'), name, st.text('xyz~', max_size=4)).map(list),
                         st.tuples(st.sampled_from(['add', 'add', 'function', 'items', 'if', 'loop']), name, name, name).map(list),
                         st.tuples(st.just('del'), name).map(list), st.tuples(st.just('path'), name).map(list))
        return st.lists(line, min_size=1, max_size=8).map(lambda x: first + x)
    return st.lists(st.integers(-9, 9), min_size=2, max_size=4).flatmap(lines)


@prop(scripts, quick=200, thorough=5000, shards=(2, 8), rule='a value was computed from earlier ones')
def computed(case, ctx):
    """A configuration file may compute its values; every assignment is reported, from a path or an open file."""
    from dedop.util.config import read_python_config
    env, lines, used = {}, [], False
    helpers = set()
    for kind, n, *rest in case:
        if kind == 'set':
            env[n] = rest[0]
            lines.append('%s = %d' % (n, rest[0]))
        elif kind == 'text':
            env[n] = rest[0]
            lines.append('%s = %r' % (n, rest[0]))
        elif kind == 'del':
            if n in env:
                del env[n]
                lines.append('del ' + n)
        elif kind == 'path':
            env[n] = '/etc/x'
            helpers.add('os')
            lines += ['import os', '%s = os.path.join("/etc", "x")' % n]
        elif all(isinstance(env.get(x), int) for x in rest):
            x, y = (env[r] for r in rest)
            used = True
            ctx.label(kind)
            if kind == 'add':
                env[n] = x + y
                lines.append('%s = %s + %s' % (n, *rest))
            elif kind == 'function':
                env[n] = x + y
                helpers.add('sum_up')
                lines += ['def sum_up():', '    return %s + %s' % tuple(rest), '%s = sum_up()' % n]
            elif kind == 'items':
                env[n] = [x + y + i for i in range(2)]
                lines.append('%s = [%s + %s + i for i in range(2)]' % (n, *rest))
            elif kind == 'if':
                env[n] = 1 if x > y else 0
                lines += ['if %s > %s:' % tuple(rest), '    %s = 1' % n, 'else:', '    %s = 0' % n]
            else:
                helpers.add('k')
                env[n] = x + 3 * y if n != rest[0] and n != rest[1] else 0
                if env[n] or n not in rest:
                    lines += ['%s = %s' % (n, rest[0]), 'for k in range(3):', '    %s += %s' % (n, rest[1])]
                else:
                    lines.append('k = %s = 0' % n)
    path = os.path.join(ctx.tmpdir(), 'c.py')
    with open(path, 'w') as fp:
        fp.write('\n'.join(lines))

    def read(source, what):
        found = read_python_config(source)
        ctx.equal({n: v for n, v in found.items() if n not in helpers}, env, what)
        ctx.require(helpers <= set(found), '%s: %s is not in %s', what, sorted(helpers), sorted(found))
    read(path, 'configuration from a path')
    fp = io.StringIO('\n'.join(lines))
    read(fp, 'configuration from an open file')
    ctx.require(not fp.closed, 'the file of the caller was closed')
    ctx.mark(used)


PLACES = ['~/ws', '~/a b/c', '~', 'ABS/x', 'rel', './r/s']
FACTORY = '''
import json
class Recorder:
    def __init__(self, name, chd_file=None, cnf_file=None, cst_file=None, output_dir=None, skip_l1bs=None):
        self.args = [name, chd_file, cnf_file, cst_file, output_dir, skip_l1bs]
    def process(self, l1a_file, monitor=None):
        with open(%r, 'a') as fp:
            fp.write(json.dumps([%r, l1a_file] + self.args) + '\\n')
processor_factory = Recorder
'''
DUMMY = '''
import dedop.model.processor
processor_factory = dedop.model.processor.DummyProcessor
'''


def sessions():
    one = st.fixed_dictionaries({'place': st.one_of(st.none(), st.sampled_from(PLACES)), 'factory': st.sampled_from([None, 'own', 'dummy'])})
    return st.fixed_dictionaries({
        'home': one, 'local': one, 'name': st.text('abw-_1', max_size=5).map('w'.__add__), 'skip': st.booleans(),
        'inputs': st.lists(st.sampled_from(['L1A_a.nc', 'L1A_b.nc', 'x.nc', 'L1A_err_c.nc', 'ERR.nc']), min_size=1, max_size=3, unique=True)})


HOME = []


def own_home():
    """A home of this process, which the default directory is computed from when the tools are first imported."""
    if not HOME:
        HOME.append(tempfile.mkdtemp(dir=os.environ['HOME']))
        os.environ['HOME'] = HOME[0]
    return HOME[0]


@prop(sessions, quick=60, thorough=1500, shards=(2, 8), rule='the workspaces directory and the processor both come from a file')
def tools(case, ctx):
    """The command line keeps its workspaces where the settings say and runs the processor that they name."""
    home = own_home()
    catestub.install()
    import dedop.cli.main as cli
    import dedop.util.config as config
    for f in os.listdir(home):
        p = os.path.join(home, f)
        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    cwd = os.path.join(ctx.tmpdir(), 'cwd')
    record = os.path.join(ctx.tmpdir(), 'calls')
    os.makedirs(cwd)
    os.makedirs(os.path.join(home, '.dedop'))
    for f, path in (('home', os.path.join(home, '.dedop', 'config.py')), ('local', os.path.join(cwd, 'dedop-config.py'))):
        with open(path, 'w') as fp:
            if case[f]['place']:
                fp.write('workspaces_dir = %r\n' % case[f]['place'].replace('ABS', ctx.tmpdir()))
            fp.write({None: '', 'own': FACTORY % (record, f), 'dummy': DUMMY}[case[f]['factory']])
    place = case['local']['place'] or case['home']['place'] or '~/.dedop/workspaces'
    place = place.replace('ABS', ctx.tmpdir()).replace('~', home)
    root = os.path.join(cwd, place)
    before, sleep = os.getcwd(), time.sleep
    out, err = io.StringIO(), io.StringIO()
    try:
        os.chdir(cwd)
        importlib.reload(config)
        time.sleep = lambda s: None
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            ctx.equal(cli.main(args=['w', 'add', case['name']]) or 0, 0, 'status of adding a workspace')
            ctx.require(os.path.isdir(os.path.join(root, case['name'])), 'no workspace in %s', place)
            who = 'local' if case['local']['factory'] else 'home' if case['home']['factory'] else None
            if who is None:
                return
            status = cli.main(args=['run', '-w', case['name']] + ['-s'] * case['skip'] + ['-i'] + case['inputs']) or 0
    finally:
        time.sleep = sleep
        os.chdir(before)
    ctx.label(case[who]['factory'])
    made = [(os.path.join(d, f)) for d, _, fs in os.walk(root) for f in fs if f.startswith('L1B')]
    if case[who]['factory'] == 'own':
        ctx.equal(status, 0, 'status of the run')
        with open(record) as fp:
            calls = [json.loads(line) for line in fp]
        ctx.equal([c[:2] for c in calls], [[who, f] for f in case['inputs']], 'processor that was run and its inputs')
        for c in calls:
            ctx.equal(c[2], 'default', 'name of the run')
            ctx.equal(c[7], case['skip'], 'L1BS products skipped')
            for kind, path in zip(('CHD', 'CNF', 'CST'), c[3:6]):
                ctx.equal(os.path.basename(path), kind + '.json', 'parameter file')
            for path in c[3:7]:
                ctx.require(os.path.realpath(os.path.join(cwd, path)).startswith(os.path.realpath(os.path.join(root, case['name'])) + os.sep),
                            '%s is not in the workspace', path)
    else:
        # the documented stand-in fails for inputs named so, which ends the run
        good = []
        for f in case['inputs']:
            if 'ERR' in f.upper():
                break
            good.append(f)
        failed = len(good) < len(case['inputs'])
        ctx.equal(status, 1 if failed else 0, 'status of the run')
        if failed:
            ctx.require(case['inputs'][len(good)] in err.getvalue(), 'the message %r does not name the input', err.getvalue()[-200:])
            ctx.label('failing input')
        names = [kind + '_' + (f[3:] if f.startswith('L1A') else f)[:-3] + '_default.nc' for f in good for kind in (['L1B'] if case['skip'] else ['L1B', 'L1BS'])]
        ctx.equal(sorted(os.path.basename(f) for f in made), sorted(names), 'products of the run')
    ctx.mark(case['home']['place'] or case['local']['place'])
