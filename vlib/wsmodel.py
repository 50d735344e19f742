"""Reference model of a workspaces directory: a map from relative path to bytes (a file) or None (a directory).

The model knows the documented operations only; it shares no code with dedop.ui.workspace_manager. Everything happens in a
scratch directory, with the workspaces directory several levels deep and neighbours around it that must never change.
"""
import os
import pkgutil
import sys

from hypothesis import strategies as st

NAMES = ('a', 'b', 'ab', 'default', 'a b', 'configs', 'a_1', 'v1.2', 'B-c')
KEYS = ('CHD', 'CNF', 'CST')


LONG = 'long' * 75     # longer than a file name may be


def names():
    return st.sampled_from(NAMES)


def snapshot(root):
    out = {}
    for folder, dirs, files in os.walk(root):
        rel = os.path.relpath(folder, root)
        rel = '' if rel == '.' else rel.replace(os.sep, '/') + '/'
        for d in dirs:
            out[rel + d] = None
        for f in files:
            with open(os.path.join(folder, f), 'rb') as fp:
                out[rel + f] = fp.read()
    return out


def diff(a, b):
    """What differs between the tree found (a) and the one expected (b), in words."""
    out = []
    for k in sorted(set(a) | set(b)):
        if k not in a:
            out.append('missing %s' % k)
        elif k not in b:
            out.append('unexpected %s' % k)
        elif a[k] != b[k]:
            out.append('content of %s' % k)
    return '; '.join(out[:6])


class Tree(dict):
    def sub(self, path):
        return {k: v for k, v in self.items() if k == path or k.startswith(path + '/')}

    def children(self, path):
        prefix = path + '/' if path else ''
        return sorted(k[len(prefix):] for k in self if k.startswith(prefix) and k != path and '/' not in k[len(prefix):])

    def folders(self, path):
        prefix = path + '/' if path else ''
        return [n for n in self.children(path) if self[prefix + n] is None]

    def files(self, path):
        prefix = path + '/' if path else ''
        return [n for n in self.children(path) if self[prefix + n] is not None]

    def mkdir(self, path):
        parts = path.split('/')
        for i in range(1, len(parts) + 1):
            self.setdefault('/'.join(parts[:i]), None)

    def put(self, path, data):
        if '/' in path:
            self.mkdir(path.rsplit('/', 1)[0])
        self[path] = data

    def remove(self, path):
        for k in self.sub(path):
            del self[k]

    def copy_to(self, src, dst):
        for k, v in self.sub(src).items():
            self[dst + k[len(src):]] = v

    def move(self, src, dst):
        self.copy_to(src, dst)
        self.remove(src)


def template(key, cryosat):
    """The bytes of a configuration file as shipped with the software."""
    return pkgutil.get_data('dedop.ui.data.cryosat_config' if cryosat else 'dedop.ui.data.config', key + '.json')


class World:
    """The real directory and the model side by side."""

    def __init__(self, ctx, others=()):
        from dedop.ui.workspace_manager import WorkspaceManager
        self.ctx = ctx
        self.outer = os.path.join(ctx.tmpdir(), 'world')
        self.root = os.path.join(self.outer, 'x', 'y', 'workspaces')
        os.makedirs(os.path.join(self.outer, 'x', 'y'))
        self.around = Tree()
        for p in ('x/y/other/a/configs/a/CNF.json', 'x/a/keep.txt', 'a/b', 'x/y/a.nc'):
            self.around.put(p, p.encode())
        for p, v in self.around.items():
            self._write(os.path.join(self.outer, p), v)
        self.around.mkdir('x/y')
        self.tree = Tree()
        self.exists = False
        self.Manager = WorkspaceManager
        self.manager = WorkspaceManager(self.root)

    @staticmethod
    def _write(path, data):
        if data is None:
            os.makedirs(path, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'wb') as fp:
                fp.write(data)

    def path(self, *parts):
        return os.path.join(self.root, *parts)

    def plant(self, path, data):
        """A file put there by the user, not by the software."""
        self.tree.put(path, data)
        self._write(os.path.join(self.root, path), data)
        self.exists = True

    def restart(self):
        self.manager = self.Manager(self.root)

    def attempt(self, ok, func, what):
        """Run an operation; ok: it has to succeed (True), to be refused (False), or may do either (None)."""
        from dedop.ui.exception import WorkspaceError
        try:
            out = func()
        except WorkspaceError as e:
            self.ctx.require(ok is not True, '%s was refused: %s', what, e)
            self.ctx.label('refused')
            return False, None
        self.ctx.require(ok is not False, '%s was accepted', what)
        return True, out

    def verify(self, what, ignore=()):
        found = snapshot(self.outer)
        expected = dict(self.around)
        if self.exists:
            expected['x/y/workspaces'] = None
            expected.update(('x/y/workspaces/' + k, v) for k, v in self.tree.items())
        for k in ignore:
            found.pop('x/y/workspaces/' + k, None)
            expected.pop('x/y/workspaces/' + k, None)
        self.ctx.require(found == expected, 'after %s: %s', what, diff(found, expected))
