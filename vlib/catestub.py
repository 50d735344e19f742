"""Stand-ins for the parts of the cate package that dedop.cli and dedop.webapi import (cate is not installed here).

Only the documented surface is provided: command classes with an argparse parser each, run_main, and a null monitor.
run_main turns the errors the commands report (CommandError, WorkspaceError, OSError) into exit status 1 and lets any other
exception through, so that an internal error of a command is seen as one.
"""
import argparse
import subprocess
import sys
import types


class CommandError(Exception):
    pass


class Command:
    @classmethod
    def name(cls):
        raise NotImplementedError

    @classmethod
    def parser_kwargs(cls):
        return {}

    @classmethod
    def configure_parser(cls, parser):
        pass

    def execute(self, command_args):
        raise NotImplementedError

    @staticmethod
    def new_monitor():
        from dedop.util.monitor import Monitor

        class Quiet(Monitor):
            def start(self, label, total_work=None):
                pass

            def progress(self, work=None, msg=None):
                pass

            def done(self):
                pass
        return Quiet()


class SubCommandCommand(Command):
    @classmethod
    def configure_parser(cls, parser):
        cls.configure_parser_and_subparsers(parser, parser.add_subparsers(metavar='COMMAND'))


def _make_parser(name, description, version, registry, license_text=None, docs_url=None):
    parser = argparse.ArgumentParser(prog=name, description=description)
    parser.add_argument('--version', action='version', version='%s %s' % (name, version))
    subparsers = parser.add_subparsers(dest='command_name', metavar='COMMAND')
    for cls in registry:
        sub = subparsers.add_parser(cls.name(), **cls.parser_kwargs())
        cls.configure_parser(sub)
        sub.set_defaults(command_class=cls)
    return parser


def run_main(name, description, version, registry, license_text=None, docs_url=None, args=None):
    from dedop.ui.exception import WorkspaceError
    parser = _make_parser(name, description, version, registry)
    try:
        parsed = parser.parse_args(args)
    except SystemExit as e:
        return e.code or 0
    if not getattr(parsed, 'command_class', None):
        parser.print_help()
        return 2
    try:
        parsed.command_class().execute(parsed)
    except (CommandError, WorkspaceError, OSError, subprocess.CalledProcessError) as e:
        sys.stderr.write('%s: error: %s\n' % (name, e))
        return 1
    return 0


def install():
    """Put the stand-ins into sys.modules, unless the real package is there."""
    try:
        import cate.util.cli  # noqa: F401
        return
    except ImportError:
        pass
    from dedop.util.monitor import Monitor

    class CateMonitor:
        NONE = Monitor.NULL

    mods = {n: types.ModuleType(n) for n in ('cate', 'cate.util', 'cate.util.cli', 'cate.util.monitor', 'cate.util.web', 'cate.util.web.webapi',
                                            'cate.util.web.jsonrpchandler')}
    for n in ('cate', 'cate.util', 'cate.util.web'):
        mods[n].__path__ = []
    for k in ('CommandError', 'Command', 'SubCommandCommand', 'run_main', '_make_parser'):
        setattr(mods['cate.util.cli'], k, globals()[k])
    mods['cate.util.monitor'].Monitor = CateMonitor
    for n, m in mods.items():
        sys.modules[n] = m
        if '.' in n:
            setattr(mods[n.rsplit('.', 1)[0]], n.rsplit('.', 1)[1], m)
