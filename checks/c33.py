"""C33: progress monitors account for all the work, show it, and pass on cancellation."""
import io
import os
import re
import signal
import sys

from hypothesis import strategies as st

from vlib.harness import prop

ASSUMPTIONS = ['work reported does not exceed the total announced; totals are positive']


def tasks():
    leaf = st.fixed_dictionaries({'steps': st.lists(st.integers(0, 9), min_size=1, max_size=5), 'known': st.booleans(), 'msg': st.booleans()})
    node = st.recursive(leaf, lambda kids: st.fixed_dictionaries({'kids': st.lists(st.tuples(st.integers(1, 9), kids).map(list), min_size=1, max_size=3),
                                                                  'steps': st.lists(st.integers(0, 9), max_size=3)}), max_leaves=8)
    return st.fixed_dictionaries({'task': node, 'fail': st.one_of(st.none(), st.none(), st.integers(0, 12)), 'cancel': st.one_of(st.none(), st.integers(0, 12))})


class Failed(Exception):
    pass


@prop(tasks, quick=600, thorough=20000, shards=(4, 8), rule='nested children at two levels did all their work')
def nested(case, ctx):
    """The work of nested children adds up at the top to what was handed to them; failures and cancellation pass through."""
    from dedop.util.monitor import Monitor

    class Top(Monitor):
        def __init__(self):
            self.log, self.stopped = [], False

        def start(self, label, total_work=None):
            self.log.append(('start', label, total_work))

        def progress(self, work=None, msg=None):
            self.log.append(('progress', work, msg))

        def done(self):
            self.log.append(('done',))

        def cancel(self):
            self.stopped = True

        def is_cancelled(self):
            return self.stopped

    top = Top()
    count = [0]
    depth = [0]
    seen_cancel = []

    def expected(task, share):
        """Work at the top once the task is complete: only what had a known total counts."""
        total = sum(task['steps']) + sum(p for p, _ in task.get('kids', ()))
        if not total or ('kids' not in task and not task['known']):
            return 0.0
        out = share * sum(task['steps']) / total
        for p, kid in task.get('kids', ()):
            out += expected(kid, share * p / total)
        return out

    def run(task, monitor, level, name, sure=True):
        depth[0] = max(depth[0], level)
        total = sum(task['steps']) + sum(p for p, _ in task.get('kids', ()))
        known = total > 0 and ('kids' in task or task['known'])
        with monitor.starting(name, total_work=total if known else None) as scope:
            ctx.require(scope is None or scope is monitor, 'starting gave another monitor')
            for i, s in enumerate(task['steps']):
                count[0] += 1
                if count[0] - 1 == case['cancel']:
                    monitor.cancel()
                    seen_cancel.append(True)
                ctx.equal(bool(monitor.is_cancelled()), bool(seen_cancel), 'cancellation seen at level %d' % level)
                if count[0] - 1 == case['fail']:
                    raise Failed()
                before = len(top.log)
                msg = 'm%d' % i if task.get('msg') else None
                monitor.progress(work=s, msg=msg)
                ctx.require(len(top.log) > before, 'progress at level %d did not reach the top', level)
                # an amount of work stays one (of zero, perhaps), so that the share done so far can be shown
                if known and sure:
                    ctx.require(top.log[-1][1] is not None, 'work %r of level %d arrived as an unknown amount', s, level)
                if msg:
                    ctx.require(msg in (top.log[-1][2] or ''), 'message %r of level %d lost: %s', msg, level, top.log[-1])
                    if level:
                        ctx.require(name in top.log[-1][2], 'label %r lost: %s', name, top.log[-1])
            for i, (p, kid) in enumerate(task.get('kids', ())):
                run(kid, monitor.child(p), level + 1, '%s.%d' % (name, i), sure and known)

    total = sum(case['task']['steps']) + sum(p for p, _ in case['task'].get('kids', ()))
    failed = False
    try:
        run(case['task'], top, 0, 'T')
    except Failed:
        failed = True
    ctx.equal(failed, case['fail'] is not None and count[0] - 1 == case['fail'] if failed else False, 'failure passed on')
    ctx.equal(top.log[0][0], 'start', 'first event')
    ctx.equal(top.log[-1], ('done',), 'last event')
    ctx.equal(sum(x == ('done',) for x in top.log), 1, 'times the task was done')
    works = [x[1] for x in top.log if x[0] == 'progress' and x[1] is not None]
    ctx.require(all(x >= 0 for x in works), 'negative work reported: %s', works)
    known = 'kids' in case['task'] or case['task']['known']
    if not failed:
        want = expected(case['task'], total) if known else sum(case['task']['steps'])
        ctx.close(float(sum(works)), float(want), 'work that arrived at the top', rtol=1e-9, atol=1e-9)
    ctx.mark(depth[0] >= 2 and not failed and sum(works) > 0)


def console():
    return st.fixed_dictionaries({
        'total': st.one_of(st.none(), st.floats(0.5, 500), st.integers(1, 300)), 'line': st.booleans(), 'bar': st.one_of(st.none(), st.integers(1, 40)),
        'label': st.text('abc ', min_size=1, max_size=12),
        'steps': st.lists(st.tuples(st.one_of(st.none(), st.floats(0, 1), st.just(0.0)), st.one_of(st.none(), st.text('xyz', max_size=15))).map(list), max_size=12),
        'before': st.lists(st.tuples(st.integers(1, 9), st.integers(0, 9), st.one_of(st.none(), st.text('xyz', max_size=3))).map(list), max_size=2),
        'how': st.sampled_from([None, None, 'cancel', 'ctrl-c']), 'when': st.integers(0, 11)})


def visible(text):
    """The lines as a terminal shows them."""
    out = []
    for line in text.split('\n'):
        shown = ''
        for part in line.split('\r'):
            shown = part + shown[len(part):]
        out.append(shown.rstrip())
    return out


@prop(console, quick=600, thorough=15000, shards=(4, 8), rule='at least two different percentages were shown')
def shown(case, ctx):
    """What the console shows is always the work done so far, and Ctrl+C requests cancellation while the task runs, only then."""
    from dedop.util.monitor import ConsoleMonitor
    m = ConsoleMonitor(stay_in_line=case['line'], progress_bar_size=case['bar'])
    interrupted = []

    def mine(*args):
        interrupted.append(True)
    old = signal.signal(signal.SIGINT, mine)
    out, saved = io.StringIO(), sys.stdout
    left = total = case['total']
    worked = 0.0
    percentages = set()
    cancelled = False
    label = case['label'].strip() or 'x'
    try:
        sys.stdout = out
        try:
            # the monitor may have served other tasks before
            for parts, did, note in case['before']:
                with m.starting('before', total_work=parts):
                    m.progress(work=min(did, parts), msg=note)
            with m.starting(label, total_work=total):
                for i, (fraction, msg) in enumerate(case['steps']):
                    work = None
                    if fraction is not None:
                        work = fraction * (left if total is not None else 10)
                        if total is not None:
                            left -= work
                        worked += work
                    if case['how'] and i == case['when']:
                        cancelled = True
                        if case['how'] == 'cancel':
                            m.cancel()
                        else:
                            os.kill(os.getpid(), signal.SIGINT)
                    m.progress(work=work, msg=msg)
                    ctx.equal(bool(m.is_cancelled()), cancelled, 'cancellation')
                    last = [x for x in visible(out.getvalue()) if x][-1]
                    ctx.require(last.startswith(label + ': '), 'line %r without the label %r', last, label)
                    if msg:
                        ctx.require(last.endswith(msg), 'line %r without the message %r', last, msg)
                    found = re.search(r'(\d+)%', last)
                    if work is not None and total is not None:
                        ctx.require(found is not None, 'no percentage in %r', last)
                        ctx.require(abs(float(found.group(1)) - 100 * worked / total) <= 0.5 + 1e-6, 'shows %r after %g of %g', last, worked, total)
                        percentages.add(found.group(1))
                        bar = re.search(r'\[(#*)(-*)\]', last)
                        if case['bar']:
                            ctx.require(bar is not None and len(bar.group(0)) == case['bar'] + 2, 'bar in %r', last)
                            ctx.require(abs(len(bar.group(1)) - case['bar'] * float(found.group(1)) / 100) <= 0.5 + 1e-6, 'bar in %r', last)
                    elif total is None:
                        ctx.require(found is None, 'percentage without a total: %r', last)
        finally:
            sys.stdout = saved
        ctx.require(not interrupted, 'Ctrl+C was not taken by the running task')
        ctx.require(callable(signal.getsignal(signal.SIGINT)), 'Ctrl+C after the task is not given to its former handler')
        os.kill(os.getpid(), signal.SIGINT)
        ctx.require(interrupted, 'Ctrl+C after the task is not given to its former handler')
    finally:
        signal.signal(signal.SIGINT, old)
    last = [x for x in visible(out.getvalue()) if x][-1]
    ctx.require(last.startswith(label + ': '), 'last line %r', last)
    ctx.require(('cancelled' in last) == cancelled, 'last line %r of a task that was %scancelled', last, '' if cancelled else 'not ')
    ctx.mark(len(percentages) > 1)
    ctx.label('in line' if case['line'] else 'lines')
