"""Model of the dedop command line: what each command does to the workspaces directory, and whether it succeeds.

Works on the tree of wsmodel; where the documentation leaves the choice open (which workspace becomes current after the
current one is removed) the model checks that the choice is a valid one and takes it over.
"""
import builtins
import contextlib
import io
import json
import os
import re
import sys

from vlib import catestub, wsmodel
from vlib.wsmodel import KEYS


class Cli(wsmodel.World):
    def __init__(self, ctx):
        super().__init__(ctx)
        catestub.install()
        from dedop.cli import main
        self.main = main
        self.calls = []
        self.outside = os.path.join(ctx.tmpdir(), 'outside')
        os.makedirs(self.outside)

    # running a command -----------------------------------------------------------------------------------------------

    def factory(self, name, chd_file=None, cnf_file=None, cst_file=None, output_dir=None, skip_l1bs=None):
        cli = self

        class Processor:
            def process(self, l1a_file, monitor=None):
                from dedop.util.monitor import Monitor
                cli.calls.append(dict(name=name, chd=chd_file, cnf=cnf_file, cst=cst_file, dir=output_dir, skip=skip_l1bs,
                                      file=l1a_file, quiet=monitor is Monitor.NULL))
                os.makedirs(output_dir, exist_ok=True)
                with open(os.path.join(output_dir, 'L1B_%s_%s' % (name, os.path.basename(l1a_file))), 'wb') as fp:
                    fp.write(b'L1B')
        return Processor()

    def run(self, args, answer='yes', manager=None):
        out, err = io.StringIO(), io.StringIO()
        programs = os.path.join(self.ctx.tmpdir(), 'printed')           # what programs that a command starts print
        sys.stdout.flush()
        kept = os.dup(1)
        fd = os.open(programs, os.O_CREAT | os.O_TRUNC | os.O_RDWR)
        os.dup2(fd, 1)
        os.close(fd)
        asked = []

        def answers(prompt=''):
            asked.append(prompt)
            return answer
        saved, builtins.input = builtins.input, answers
        del self.calls[:]
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                status = self.main.main(args=list(args), workspace_manager=manager or self.Manager(self.root),
                                        processor_factory=self.factory)
        finally:
            builtins.input = saved
            os.dup2(kept, 1)
            os.close(kept)
        with open(programs) as fp:
            out.write(fp.read())
        self.ctx.require(status in (0, 1, 2, None), 'status %s', status)
        return status or 0, out.getvalue(), err.getvalue(), asked

    @staticmethod
    def numbered(text):
        """The names in a numbered list."""
        return [m.group(2) for m in re.finditer(r'^ *(\d+): (.*)$', text, re.M)]

    # state -----------------------------------------------------------------------------------------------------------

    @property
    def current(self):
        return (self.tree.get('.current') or b'').decode() or None

    @current.setter
    def current(self, name):
        self.tree['.current'] = (name or '').encode()

    def current_config(self, ws):
        return (self.tree.get(ws + '/configs/.current') or b'').decode() or None

    def set_current_config(self, ws, name):
        self.tree.put(ws + '/configs/.current', (name or '').encode())

    def workspaces(self):
        return self.tree.folders('')

    def configs(self, ws):
        return self.tree.folders(ws + '/configs')

    def files(self, ws, config=None):
        where = ws + ('/inputs' if config is None else '/configs/%s/outputs' % config)
        return [f for f in self.tree.files(where) if f.endswith('.nc')]

    def add_workspace(self, name):
        self.tree.mkdir(name)
        self.exists = True
        self.current = name

    def add_config(self, ws, name, cryosat=False):
        for k in KEYS:
            self.tree.put('%s/configs/%s/%s.json' % (ws, name, k), wsmodel.template(k, cryosat))
        self.set_current_config(ws, name)

    @staticmethod
    def unique(name, taken):
        candidate, i = name, 2
        while candidate in taken:
            candidate = '%s_%d' % (name, i)
            i += 1
        return candidate

    def adopt(self, path, removed, remaining, what):
        """After the current one was removed: the new current one has to be one of the remaining, or none if there is none."""
        real = os.path.join(self.root, path)
        name = ''
        if os.path.exists(real):
            with open(real) as fp:
                name = fp.read()
        if remaining:
            self.ctx.require(name in remaining, 'after %s the current one is %r, and there are %s', what, name, remaining)
        else:
            self.ctx.require(name == '', 'after %s the current one is %r, and there is none', what, name)
        self.tree[path] = name.encode()

    # commands: each returns True (has to succeed), False (has to fail) or None (either) and a function for the new state --------

    def expect(self, cmd):
        """cmd: a list [group, verb, options dict, positional names]. Returns (ok, apply, check of the output)."""
        group, verb, opt, pos = cmd
        t = self.tree
        wss = self.workspaces()
        nothing = (lambda: None)
        if group == 'w':
            given = pos[0] if pos else None
            if verb == 'add':
                ok = given not in wss or (None if not t.children(given) else False)
                return ok, lambda: self.add_workspace(given), None
            if verb == 'cur':
                if given:
                    return given in wss, lambda: setattr(self, 'current', given), None
                return True, nothing, lambda out: '"%s"' % self.current in out if self.current else 'no current workspace' in out
            if verb == 'ls':
                return True, nothing, lambda out: self.numbered(out) == wss
            if verb == 'rm':
                ws = given or self.current

                def remove():
                    was = self.current == ws
                    t.remove(ws)
                    if was:
                        self.adopt('.current', ws, self.workspaces(), ' '.join(map(str, cmd)))
                return ws in wss if opt['yes'] else (None if ws else False), remove if opt['yes'] else nothing, None
            if verb == 'cp':
                ws = given or self.current
                new = self.unique(pos[1] if len(pos) > 1 else '%s_1' % ws, wss)
                return ws in wss, lambda: t.copy_to(ws, new), lambda out: '"%s"' % new in out
            if verb == 'rn':
                ws = pos[0] if len(pos) > 1 else self.current
                new = self.unique(pos[-1], wss)

                def rename():
                    was = self.current == ws
                    t.move(ws, new)
                    if was:
                        self.current = new
                return ws in wss, rename, lambda out: '"%s"' % new in out
        if group == 'c':
            ws = opt.get('w') or self.current
            if not ws and verb == 'add':
                def both():
                    self.add_workspace('default')
                    self.add_config('default', pos[0], opt.get('cryosat'))
                return True, both, None
            if ws not in wss:
                return (None if verb == 'rm' and ws and not opt['yes'] else False), nothing, None
            configs = self.configs(ws)
            given = pos[0] if pos else None
            if verb == 'add':
                return given not in configs, lambda: self.add_config(ws, given, opt.get('cryosat')), None
            if verb == 'cur':
                if given:
                    return given in configs, lambda: self.set_current_config(ws, given), None
                cur = self.current_config(ws)
                return True, nothing, lambda out: '"%s"' % cur in out if cur else 'no current' in out
            if verb == 'ls':
                return True, nothing, lambda out: self.numbered(out) == configs
            if verb == 'i':
                c = given or self.current_config(ws)
                shown = [ws, c, self.path(ws, 'configs', c or '')] + self.tree.files('%s/configs/%s' % (ws, c))
                # a missing configuration is left open
                return (True if c in configs else None if c else False), nothing, lambda out: c not in configs or all(x in out for x in shown)
            if verb == 'up' and (given or self.current_config(ws)) in configs:
                return True, lambda: self.upgrade(ws, given or self.current_config(ws)), None
            if verb in ('up', 'v'):
                c = given or self.current_config(ws)

                def versions(out):
                    return self.versions(out) == [self.version(ws, c, k) for k in KEYS]
                return c in configs, nothing, versions
            if verb == 'rm':
                c = given or self.current_config(ws)

                def remove():
                    was = self.current_config(ws) == c
                    t.remove('%s/configs/%s' % (ws, c))
                    if was:
                        self.adopt(ws + '/configs/.current', c, self.configs(ws), ' '.join(map(str, cmd)))
                return c in configs if opt['yes'] else (None if c else False), remove if opt['yes'] else nothing, None
            if verb == 'cp':
                c = given or self.current_config(ws)
                new = self.unique(pos[1] if len(pos) > 1 else '%s_copy' % c, configs)
                return c in configs, lambda: t.copy_to('%s/configs/%s' % (ws, c), '%s/configs/%s' % (ws, new)), lambda out: '"%s"' % new in out
            if verb == 'rn':
                c = pos[0] if len(pos) > 1 else self.current_config(ws)
                new = self.unique(pos[-1], configs)

                def rename():
                    was = self.current_config(ws) == c
                    t.move('%s/configs/%s' % (ws, c), '%s/configs/%s' % (ws, new))
                    if was:
                        self.set_current_config(ws, new)
                return c in configs, rename, lambda out: '"%s"' % new in out
        raise AssertionError(cmd)

    @staticmethod
    def versions(out):
        return [int(a) if a else -1 for a, _ in re.findall(r'json: *(?:version (\d+)|(no-version))', out)]

    def age(self, ws, config, keys):
        """Files of a configuration made from the standard templates lose their version, as those of the first release had none."""
        config = config or (self.current_config(ws) if ws else None)
        for k in keys:
            path = '%s/configs/%s/%s.json' % (ws, config, k)
            if path in self.tree:
                content = json.loads(self.tree[path].decode())
                if content == json.loads(wsmodel.template(k, False).decode()):
                    del content['__metainf__']
                    self.plant(path, json.dumps(content).encode())

    def upgrade(self, ws, config):
        """Files without a version are as those of the template again; the others say the same as before."""
        found = {}
        for k in KEYS:
            path = '%s/configs/%s/%s.json' % (ws, config, k)
            with open(os.path.join(self.root, path), 'rb') as fp:
                found[path] = fp.read()
            wanted = json.loads((self.tree[path] if self.version(ws, config, k) >= 0 else wsmodel.template(k, False)).decode())
            self.ctx.equal(json.loads(found[path].decode()), wanted, '%s of %s/%s after the upgrade' % (k, ws, config))
        if all(self.version(ws, config, k) >= 0 for k in KEYS):
            self.ctx.label('nothing to upgrade')
        else:
            self.ctx.label('upgraded')
            self.tree.update(found)

    def version(self, ws, config, key):
        return json.loads(self.tree['%s/configs/%s/%s.json' % (ws, config, key)].decode('utf-8')).get('__metainf__', {}).get('version', -1)

    def command(self, cmd, answer='yes'):
        """Run one workspace or configuration command on both sides."""
        group, verb, opt, pos = cmd
        asks = verb == 'rm' and not opt.get('flag')
        if verb == 'rm':
            opt = dict(opt, yes=opt.get('flag') or answer.lower() in ('yes', ''))
            cmd = [group, verb, opt, pos]
        args = [group, verb] + (['-w', opt['w']] if opt.get('w') else []) + (['-y'] if verb == 'rm' and opt.get('flag') else [])
        args += (['--cryosat-adapted'] if opt.get('cryosat') else []) + list(pos)
        what = ' '.join(map(str, args)) + (' (%s)' % answer if asks else '')
        ok, apply, judge = self.expect(cmd)
        status, out, err, asked = self.run(args, answer)
        if ok is True:
            self.ctx.require(status == 0, '"%s" failed: %s', what, err.strip()[-300:])
        elif ok is False:
            self.ctx.require(status != 0 and err.strip(), '"%s" did not fail: %s', what, out)
        if asks and ok is True or asks and status == 0:
            self.ctx.require(asked, '"%s" did not ask for confirmation', what)
        if verb == 'rm' and opt.get('flag'):
            self.ctx.require(not asked, '"%s" asked for confirmation', what)
        if status == 0:
            apply()
            if judge is not None:
                self.ctx.require(judge(out), 'output of "%s": %s', what, out)
        else:
            self.ctx.label('refused')
        self.verify('"%s"' % what)
        return status == 0
