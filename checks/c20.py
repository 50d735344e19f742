"""C20: a cancelled run stops early and leaves a readable product with the records finished so far."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib.harness import prop
from vlib import chain, outputs
from dedop.util.monitor import Monitor

ASSUMPTIONS = ['cancellation is looked at between input records; at most three records may still be finished after the request']


class Recorder(Monitor):
    """cancels when a chosen amount of calls of a chosen kind has been seen"""

    def __init__(self, kind=None, at=None):
        self.kind, self.at = kind, at
        self.count = {'is_cancelled': 0, 'progress': 0, 'start': 0, 'done': 0}
        self.stopped = False
        self.written = lambda: 0
        self.at_request = None
        self.worked, self.total = 0.0, None

    def see(self, kind):
        self.count[kind] += 1
        if kind == self.kind and self.count[kind] > self.at and not self.stopped:
            self.stopped = True
            self.at_request = self.written()

    def start(self, label, total_work=None):
        self.total = total_work
        self.see('start')

    def progress(self, work=None, msg=None):
        self.worked += work or 0.0
        self.see('progress')

    def done(self):
        self.see('done')

    def is_cancelled(self):
        self.see('is_cancelled')
        return self.stopped


def requests():
    # never: no run here asks a hundred thousand times
    kinds = {'early': st.integers(0, 90), 'late': st.integers(90, 215), 'never': st.just(100000)}
    return st.sampled_from(['early', 'late', 'late', 'late', 'late', 'progress', 'progress', 'never']).flatmap(
        lambda k: st.tuples(st.just('progress'), st.integers(60, 130)) if k == 'progress'
        else st.tuples(st.just('is_cancelled'), kinds[k])).map(list)


def scenarios():
    return chain.scenarios(pulses=(4,), samples=(2, 4), surfaces=(84, 100), stop=requests(), **chain.holes())


@prop(scenarios, quick=60, thorough=2000, shards=(4, 8), rule='cancelled after the first and before the last record')
def prefix(case, ctx):
    p = chain.product(case, ctx)
    if chain.too_short(p):
        return
    _, full = p.capture()
    m = Recorder(*case['stop'])
    snaps = []
    m.written = lambda: len(snaps)
    with chain.without_fits(), chain.capturing(lambda name, s: snaps.append(chain.Snap(s))):
        status = p.processor().process(p.path, m)
    n = len(snaps)
    ctx.require(n <= len(full), '%d records of a cancelled run, a complete one has %d', n, len(full))
    for i, (a, b) in enumerate(zip(snaps, full)):
        ctx.equal(a.time_surf, b.time_surf, 'time of record %d' % i)
        ctx.require(np.array_equal(a.waveform_multilooked, b.waveform_multilooked, equal_nan=True), 'waveform of record %d', i)
        ctx.equal(a.burst_counters, b.burst_counters, 'bursts of record %d' % i)
    ctx.equal(m.count['start'], 1, 'number of starts told to the monitor')
    ctx.equal(m.count['done'], 1, 'number of ends told to the monitor')
    ctx.require(m.total is not None and m.worked <= m.total * (1 + 1e-9), 'progress of %r of %r records', m.worked, m.total)
    if status is None:
        ctx.close(m.worked, m.total, 'progress of a run that reports to be complete', rtol=1e-9)
    if m.stopped:
        ctx.require(n - m.at_request <= 3, '%d records written after the request to cancel', n - m.at_request)
    if not m.stopped:
        ctx.require(status is None, 'status %r of a complete run', status)
    if status is None:
        ctx.equal(n, len(full), 'number of records of a run that reports to be complete')
    else:
        ctx.equal(status, -1, 'status of a cancelled run')
    ctx.mark(m.stopped and 0 < n < len(full))


@prop(lambda: chain.scenarios(pulses=(4,), samples=(2, 4), surfaces=(84, 90), stop=requests(), l1bs=st.booleans(),
                              gaps=chain.holes()['gaps']), quick=18, thorough=300, shards=(4, 8),
      rule='the product of a cancelled run has records')
def readable(case, ctx):
    """the files of a cancelled run are complete netCDF files with the finished records and the global attributes"""
    p = chain.product(case, ctx)
    if chain.too_short(p):
        return
    _, full = p.capture()
    m = Recorder(*case['stop'])
    out = os.path.join(p.dir, 'files')
    with chain.without_fits():
        status = p.processor('r', out, skip_l1bs=not case['l1bs']).process(p.path, m)
    counts = []
    for name, suffix in (('L1B__x_r.nc', 'l1b'), ('L1BS__x_r.nc', 'l1bs'))[:2 if case['l1bs'] else 1]:
        f = outputs.File(os.path.join(out, name))
        counts.append(f.count())
        ctx.require(np.array_equal(f.get('time', suffix), [s.time_surf for s in full[:f.count()]]),
                    'the times of %s are not those of the first records', name)
        ctx.require(str(f.attrs.get('product_name', '')) != '', 'no global attributes in %s', name)
    ctx.equal(len(set(counts)), 1, 'number of different record counts of the files')
    if status is None:
        ctx.equal(counts[0], len(full), 'number of records of a run that reports to be complete')
    ctx.mark(status == -1 and counts[0] > 0)
