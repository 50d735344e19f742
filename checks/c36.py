"""C36: opening notebooks and files runs the configured command, once, with the right paths."""
import contextlib
import io
import json
import os
import shutil
import subprocess
import sys
import time

from hypothesis import strategies as st

from vlib.harness import prop

# every shard has its own home directory: the file that launches the notebook server lies there
os.environ['HOME'] = os.path.join(os.environ.get('HOME') or '/nonexistent', 'of-%d' % os.getpid())
os.makedirs(os.environ['HOME'], exist_ok=True)

ASSUMPTIONS = ['names do not contain characters that a shell interprets within double quotes, nor (for terminals) single quotes',
               'jupyter, the terminals and the editors are stand-ins in a scratch directory that record their arguments',
               'the platform is Linux']
TERMINALS = ('konsole', 'gnome-terminal', 'xterm')
OPENERS = ('xdg-open', 'open')

# a stand-in: its name and arguments go to the log; terminals run the command they are given
TOOL = '''#!%(python)s -SE
import json, os, sys
with open(%(log)r, 'a') as fp:
    fp.write(json.dumps([os.path.basename(sys.argv[0]), sys.argv[1:]]) + '\\n')
%(then)s
sys.exit(%(code)d)
'''
RUN = '''
if '-e' in sys.argv:
    import subprocess
    subprocess.call(sys.argv[-1], shell=True)
'''
START = '''
import subprocess
subprocess.call(sys.argv[-1:])
'''


def cases():
    name = st.one_of(st.sampled_from(['w', 'my work', 'default']), st.text('ab {}(),;&#%+=@~[]!-', min_size=1, max_size=8).map(
        lambda s: s.strip().strip('-~') or 'x'), st.text('aé ß漢_', min_size=1, max_size=5).map(lambda s: s.strip() or 'y'))
    template = st.one_of(st.none(), st.none(), st.sampled_from([
        '{command}', 'mine "{title}" {command}', 'term -x 1 -e \'{command}\'', 'start "{title}" "{command_file}"', '  start "{command_file}" ',
        '{prefix}/bin/mine "{prefix}" "{title}"', '', '   ', 0, 7, True, ['x'], {'a': 1}]))
    editor = st.one_of(st.none(), st.none(), st.sampled_from(['mine "{file}"', ' mine -x "{file}" ', '', '  ', 3, ['x']]))
    return st.fixed_dictionaries({
        'space': name, 'notebook': st.one_of(st.none(), name), 'title': name, 'template': template, 'editor': editor,
        'installed': st.sets(st.sampled_from(TERMINALS + OPENERS), max_size=2).map(sorted), 'code': st.sampled_from([0, 0, 0, 0, 1, 3]),
        'new': st.sampled_from([None, True, False])})


class Desk:
    """A scratch directory with stand-ins for the programs that may be run."""

    def __init__(self, ctx, case, code):
        self.dir = os.path.join(ctx.tmpdir(), 'desk')
        self.bin = os.path.join(self.dir, 'bin')
        os.makedirs(self.bin)
        self.log = os.path.join(self.dir, 'log')
        self.tool('jupyter', code if self.direct(case) else 0)
        for name in case['installed']:
            self.tool(name, code if name in TERMINALS else 0, RUN)
        self.tool('term', code, RUN)
        self.tool('start', code, START)
        self.tool('mine', code)
        with open(os.path.join(self.bin, 'activate'), 'w') as fp:
            fp.write('PATH="$1/bin:$PATH"\n')

    @staticmethod
    def direct(case):
        if case['template']:
            return case['template'] == '{command}'
        return not set(TERMINALS) & set(case['installed'])

    def tool(self, name, code, then=''):
        path = os.path.join(self.bin, name)
        with open(path, 'w') as fp:
            fp.write(TOOL % {'python': sys.executable, 'log': self.log, 'then': then, 'code': code})
        os.chmod(path, 0o755)

    def calls(self, least=0):
        end = time.time() + 10
        while True:
            out = []
            if os.path.exists(self.log):
                with open(self.log) as fp:
                    text = fp.read()
                if not text or text.endswith('\n'):
                    out = [json.loads(line) for line in text.splitlines()]
                    if len(out) >= least:
                        return out
            elif not least:
                return out
            if time.time() > end:
                return out
            time.sleep(0.01)

    @contextlib.contextmanager
    def used(self, settings):
        from dedop.util.config import get_config
        with contextlib.redirect_stdout(io.StringIO()):
            config = get_config()
        saved = dict(config), sys.prefix, os.environ.get('PATH')
        out = io.StringIO()
        try:
            config.clear()
            config.update(settings)
            sys.prefix = self.dir
            os.environ['PATH'] = self.bin
            with contextlib.redirect_stdout(out):
                yield out
        finally:
            config.clear()
            config.update(saved[0])
            sys.prefix = saved[1]
            os.environ['PATH'] = saved[2]


@prop(cases, quick=120, thorough=3000, shards=(4, 8), rule='jupyter was started through a command of the configuration or a terminal')
def notebooks(case, ctx):
    from dedop.ui.workspace_manager import WorkspaceManager, WorkspaceError
    desk = Desk(ctx, case, case['code'])
    folder = os.path.join(ctx.tmpdir(), 'spaces', case['space'], 'notebooks')
    os.makedirs(folder)
    path = os.path.join(folder, case['notebook'] + '-1.ipynb') if case['notebook'] is not None else None
    template = case['template']
    settings = {} if template is None else {'launch_notebook_command': template}
    if case['new'] is not None:
        settings['launch_notebook_in_new_terminal'] = case['new']
    invalid = bool(template) and not (isinstance(template, str) and template.strip())
    error = None
    with desk.used(settings) as out:
        try:
            if path is None:
                WorkspaceManager.launch_notebook(case['title'], folder)
            else:
                WorkspaceManager.launch_notebook(case['title'], folder, path)
        except WorkspaceError as e:
            error = e
    if invalid:
        ctx.require(error is not None and 'launch_notebook_command' in str(error), 'setting %r is not refused: %r', template, error)
        ctx.equal(desk.calls(), [], 'commands run for an invalid setting')
        ctx.label('invalid setting')
        return
    if not template:
        present = [t for t in TERMINALS if t in case['installed']]
        tool = present[0] if present else 'jupyter'
    else:
        template = template.strip()
        tool = {'{': 'jupyter', 'm': 'mine', 't': 'term', 's': 'start'}[template[0]] if not template.startswith('{prefix}') else 'mine'
    wanted = ['notebook', '--notebook-dir', folder] + ([path] if path else [])
    via = tool != 'jupyter'
    both = via and tool != 'mine'
    calls = desk.calls(2 if both else 1)
    ctx.equal([c[0] for c in calls], ([tool] if via else []) + (['jupyter'] if both or not via else []), 'programs started')
    if both or not via:
        ctx.equal(calls[-1][1], wanted, 'arguments of jupyter')
    if tool == 'mine':
        first = [desk.dir, None] if template.startswith('{prefix}') else [None, os.path.join(desk.bin, 'jupyter')] + wanted
        got = calls[0][1]
        ctx.equal(len(got), len(first), 'number of arguments of the configured command')
        for a, b in zip(got, first):
            if b is None:
                ctx.require(case['title'] in a, 'title %r given as %r', case['title'], a)
            else:
                ctx.equal(a, b, 'argument of the configured command')
    elif tool in ('konsole', 'xterm') or template and '{title}' in template:
        ctx.require(any(case['title'] in a for a in calls[0][1]), 'no title %r in %s', case['title'], calls[0])
    # a terminal that is put into the background cannot report failure
    if tool != 'konsole' or not case['code']:
        ctx.equal(error is not None, case['code'] != 0, 'failure reported (%s, the command ends with %d)' % (error, case['code']))
    new = via if not template else bool(case['new'])
    if error is None:
        ctx.equal('terminal window' in out.getvalue(), new, 'says that a terminal window was opened')
    ctx.mark(both)
    ctx.label(tool)


@prop(cases, quick=80, thorough=3000, shards=(4, 8), rule='a program got the file')
def files(case, ctx):
    from dedop.ui.workspace_manager import WorkspaceManager, WorkspaceError
    desk = Desk(ctx, case, case['code'])
    path = os.path.join(ctx.tmpdir(), case['space'], (case['notebook'] or 'c') + '.json')
    os.makedirs(os.path.dirname(path))
    with open(path, 'w') as fp:
        fp.write('content')
    template = case['editor']
    error = None
    with desk.used({} if template is None else {'launch_editor_command': template}) as out:
        try:
            WorkspaceManager.open_file(path)
        except WorkspaceError as e:
            error = e
    calls = desk.calls()
    with open(path) as fp:
        ctx.equal(fp.read(), 'content', 'content of the file opened')
    if template and not (isinstance(template, str) and template.strip()):
        ctx.require(error is not None and 'launch_editor_command' in str(error), 'setting %r is not refused: %r', template, error)
        ctx.equal(calls, [], 'commands run for an invalid setting')
    elif template:
        ctx.equal(calls, [['mine', (['-x'] if '-x' in template else []) + [path]]], 'programs started')
    else:
        present = [t for t in OPENERS if t in case['installed']]
        ctx.equal(calls, [[t, [path]] for t in present[:1]], 'programs started')
        if not present:
            ctx.require('warning' in out.getvalue(), 'no warning that %s cannot be opened: %r', path, out.getvalue())
            ctx.equal(error, None, 'error')
    ctx.mark(bool(calls))


@prop(cases, quick=60, thorough=2000, shards=(4, 8), rule='a notebook was created and given to jupyter')
def products(case, ctx):
    """Inspecting and comparing products, and opening a notebook in the web service, starts jupyter with that notebook."""
    from dedop.ui.workspace_manager import WorkspaceManager, WorkspaceError
    case = dict(case, template=None, installed=[n for n in case['installed'] if n not in TERMINALS])
    desk = Desk(ctx, case, case['code'])
    root = os.path.join(ctx.tmpdir(), 'spaces')
    m = WorkspaceManager(root)
    with contextlib.redirect_stdout(io.StringIO()):
        m.create_workspace(case['space'])
    folder = os.path.join(root, case['space'], 'notebooks')
    one, two = os.path.join('/data', case['title'], 'L1B_a.nc'), os.path.join('/data', (case['notebook'] or 'n') + '.nc')
    error = False
    with desk.used({}):
        try:
            if case['notebook'] is None:
                m.inspect_l1b_product(case['space'], one)
            else:
                m.compare_l1b_products(case['space'], one, two)
        except WorkspaceError:
            error = True
    made = os.listdir(folder)
    ctx.equal(len(made), 1, 'notebooks made')
    with open(os.path.join(folder, made[0])) as fp:
        text = json.dumps(json.load(fp), ensure_ascii=False)
    for p in [one] if case['notebook'] is None else [one, two]:
        ctx.require(json.dumps(repr(p), ensure_ascii=False)[1:-1] in text, '%s is not in the notebook', p)
    ctx.equal(desk.calls(), [['jupyter', ['notebook', '--notebook-dir', folder, os.path.join(folder, made[0])]]], 'programs started')
    ctx.equal(error, case['code'] != 0, 'failure reported')
    ctx.mark()


def commandlines():
    return st.fixed_dictionaries({
        'args': st.sampled_from([['c', 'ed'], ['c', 'ed'], ['config', 'edit'], ['o', 'op'], ['output', 'open'], ['notebook'], ['o', 'ins', 'p.nc'], ['o', 'cmp', 'p.nc', 'q.nc']]),
        'w': st.sampled_from([None, None, 'v', 'w 1']), 'c': st.sampled_from([None, None, 'c', 'd e']), 'state': st.sampled_from(['full', 'full', 'full', 'no config', 'nothing']),
        'current': st.tuples(st.sampled_from(['v', 'w 1']), st.sampled_from(['c', 'd e'])).map(list), 'outputs': st.booleans(), 'code': st.sampled_from([0, 0, 0, 1])})


@prop(commandlines, quick=80, thorough=2000, shards=(4, 8), rule='a program was started for a configuration or workspace other than the current one')
def commands(case, ctx):
    """The commands that open something open that of the workspace and configuration meant."""
    from vlib.climodel import Cli
    cli = Cli(ctx)
    desk = Desk(ctx, {'installed': [], 'template': None}, case['code'])
    m = cli.Manager(cli.root)
    state = case['state']
    if state != 'nothing':
        for ws in ('v', 'w 1'):
            m.create_workspace(ws)
            for c in ('c', 'd e') if state == 'full' else ():
                m.create_config(ws, c)
                if case['outputs']:
                    for f in ('p.nc', 'q.nc'):
                        cli._write(cli.path(ws, 'configs', c, 'outputs', f), b'')
            if state == 'full':
                m.set_current_config_name(ws, case['current'][1])
        m.set_current_workspace_name(case['current'][0])
    full = state == 'full'
    args, rest = case['args'][:2], case['args'][2:]
    verb = args[-1]
    ws = case['w'] if state != 'nothing' and verb != 'notebook' else None
    c = case['c'] if full and verb != 'notebook' else None
    opts = (['-w', ws] if ws else []) + (([c] if verb in ('ed', 'edit') else ['-c', c]) if c else [])
    with desk.used({'launch_editor_command': 'mine "{file}"'}):
        status, out, err, _ = cli.run(args + opts + rest)
    s = ws or (case['current'][0] if state != 'nothing' else 'default')
    n = c or (case['current'][1] if full else 'default')
    calls = desk.calls()
    what = ' '.join(args + opts + rest)
    there = cli.path(s, 'configs', n, 'outputs')
    ctx.label(verb)
    if verb in ('ed', 'edit'):
        # without a workspace or configuration the default ones are made
        ctx.equal(status, 0, 'status of "%s": %s' % (what, err))
        ctx.equal(sorted(calls), sorted(['mine', [cli.path(s, 'configs', n, k + '.json')]] for k in ('CHD', 'CNF', 'CST')), 'programs started by "%s"' % what)
        for _, (path,) in calls:
            ctx.require(os.path.exists(path), '%s was opened and does not exist', path)
    elif verb in ('op', 'open'):
        ctx.equal(status == 0, full, 'success of "%s": %s' % (what, err))
        ctx.equal(calls, [['mine', [there]]] if full and case['outputs'] else [], 'programs started by "%s"' % what)
        if full and not case['outputs']:
            ctx.require(n in out and s in out, 'no message that there are no outputs: %s', out)
    elif verb == 'notebook':
        ctx.equal(calls, [['jupyter', ['notebook', '--notebook-dir', cli.root]]], 'programs started by "%s"' % what)
        ctx.require(os.path.isdir(cli.root), 'the directory given to jupyter does not exist')
        ctx.equal(status == 0, case['code'] == 0, 'success of "%s"' % what)
    else:
        found = full and case['outputs']
        if not found:
            ctx.require(status != 0 and not calls, '"%s" succeeded without products: %s', what, calls)
        else:
            ctx.equal(status == 0, case['code'] == 0, 'success of "%s"' % what)
            folder = cli.path(s, 'notebooks')
            made = os.listdir(folder)
            ctx.equal(len(made), 1, 'notebooks')
            ctx.equal(calls, [['jupyter', ['notebook', '--notebook-dir', folder, os.path.join(folder, made[0])]]], 'programs started by "%s"' % what)
            with open(os.path.join(folder, made[0])) as fp:
                text = fp.read()
            for f in rest:
                ctx.require(os.path.join(there, f) in text, '%s is not in the notebook', os.path.join(there, f))
    ctx.mark(bool(calls) and full and (bool(ws) or bool(c)))
