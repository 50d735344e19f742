"""Generated stacks: a surface with the looks that see it, for the dedop algorithms and for the reference model."""
import math

import numpy as np
from hypothesis import strategies as st

from . import gen, ref
from .gen import floats


def cases(pulses=(2, 4, 8, 16), samples=(2, 4, 8, 16, 32), cnf=None, **more):
    parts = {
        'inst': gen.instruments(pulses, samples), 'world': gen.orbits(), 'seed': gen.seeds(),
        'size': st.integers(1, 24), 'spare': st.sampled_from([0, 0, 1, 5]), 'scale': st.sampled_from([1e-3, 1.0, 1e6]),
        'spread': floats(1e-4, 0.02), 'cnf': cnf if cnf is not None else st.just({}), 'wd_spread': floats(0.0, 3.0),
    }
    parts.update(more)
    return st.fixed_dictionaries(parts)


def build(case, chd=None, antenna=None):
    """(P, (chd, cst, cnf), dedop surface, reference stack, reference surface)"""
    size = case['size']
    looks = size + case['spare']
    cnf = dict(case['cnf'], N_looks_stack_cnf=looks)
    P, objs, values, bursts = gen.setup(case['inst'], case['world'], size + 1, cnf, chd)
    rng = np.random.RandomState(case['seed'])
    mid = ref.first_surface(P, bursts[size // 2])
    if case.get('utc'):
        mid.time, mid.utc_ref, mid.day_length = case['utc'][0], tuple(case['utc'][1]), case['utc'][2]
    s = gen.surface(objs, mid, 7)
    for b in bursts:
        # every burst has its own tracking window
        b.wd += case['wd_spread'] * P.t0 * rng.uniform(-1, 1)
        b.agc = float(rng.uniform(0, 60))
        b.pitch = float(rng.uniform(-2e-3, 2e-3))
        b.t0 = P.t0 * float(rng.uniform(0.9, 1.1))
        b.pri = P.pri * float(rng.uniform(0.95, 1.05))
    angles = math.pi / 2 + case['spread'] * (np.arange(size) - size / 2.0 + 0.37) / size + \
        0.1 * case['spread'] / size * rng.uniform(-1, 1, size)
    angles = angles[::-1] if case['seed'] % 2 else angles
    beams = gen.deck(case['seed'], (size, P.Ns), case['scale'])
    entries = [(bursts[k], float(angles[k]), beams[k], k - size // 2) for k in range(size)]
    w = ref.gather(P, entries)
    packets = np.zeros(looks, dtype=object)
    for k in range(size):
        packets[k] = gen.packet(objs, bursts[k])

    def padded(values, dtype=float):
        out = np.zeros((looks,) + np.shape(values)[1:], dtype=dtype)
        out[:size] = values
        return out
    s.data_stack_size = size
    s.stack_bursts = packets
    s.stack_all_bursts = list(packets[:size])
    s.beams_surf = padded(w.beams, complex)
    s.beam_angles_surf = padded(w.beam_angle)
    s.t0_surf = padded([b.t0 for b in w.bursts])
    s.doppler_angles_surf = padded(w.doppler)
    s.look_angles_surf = padded(w.look)
    s.pointing_angles_surf = padded(w.pointing)
    s.look_index_surf = padded(w.look_index, np.int32)
    s.look_counter_surf = padded([b.index for b in w.bursts], np.int32)
    s.closest_burst_index = w.closest
    return P, objs, s, w, mid


def another(case, chd=None):
    """an unrelated stack for the same configuration: the objects of the algorithms serve one surface after the other"""
    return build(dict(case, seed=case['seed'] + 1, size=max(1, case['size'] - 1), spare=case['spare'] + (case['size'] > 1)), chd)


def geometry(P, s, w, mid):
    """add the reference geometry corrections to both"""
    ref.geometry(P, w, mid.pos, mid.wd)
    put(s, len(s.stack_bursts), range_sat_surf=w.range, doppler_corrections=w.dop_cor,
        slant_range_corrections=w.slant_cor, win_delay_corrections=w.wd_cor, beams_geo_corr=w.corrected)


def put(s, looks, **arrays):
    for name, v in arrays.items():
        out = np.zeros((looks,) + np.shape(v)[1:], dtype=np.asarray(v).dtype)
        out[:len(v)] = v
        setattr(s, name, out)


def padding_is(ctx, array, size, what, value=0):
    a = np.asarray(array)
    ctx.require(not np.any(a[size:] != value), '%s: looks beyond the stack are %r', what, a[size:])
