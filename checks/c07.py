"""C07: surface focusing moves one location, and one only, onto the point of the track closest to the target."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib.harness import prop
from vlib import chain, gen, ref, synth
from vlib.gen import floats

from dedop.model import SurfaceData
from dedop.proc.sar import algorithms

ASSUMPTIONS = ['the target is abeam of the interior of the track, at most 20 km to the side',
               'the moved location is the last one before the distance to the target starts to grow; it is put on the '
               'foot of the perpendicular from the target to the line through its predecessor and itself']


def target_of(P, surfaces, where):
    """a target abeam of the track: [position along the track, sideways metres, altitude]"""
    k = 1 + int(where[0] * (len(surfaces) - 3))
    f = where[0] * (len(surfaces) - 3) % 1.0
    a, b = surfaces[k].pos, surfaces[k + 1].pos
    if len(where) > 3 and where[3] is not None:
        f = 0.5 + where[3] / np.linalg.norm(b - a)       # nearly as far from the one as from the other
    at = a + f * (b - a)
    side = np.cross(at, b - a)
    at = at + where[1] * side / np.linalg.norm(side)
    lat, lon, _ = (float(q) for q in synth.ecef2lla(*at, P.a, P.b))
    return {'flag_surface_focusing_cnf': True, 'surface_focusing_lat_cnf': math.degrees(lat),
            'surface_focusing_lon_cnf': math.degrees(lon), 'surface_focusing_alt_cnf': where[2]}


def targets():
    return st.tuples(floats(0.0, 0.999), st.one_of(st.just(0.0), floats(-20e3, 20e3), floats(10e3, 20e3)), floats(-50.0, 3000.0), st.sampled_from([None, None, None, 0]).flatmap(
        lambda x: st.none() if x is None else floats(-20.0, 20.0))).map(list)


def walks():
    return st.fixed_dictionaries({
        'inst': gen.instruments(pulses=(4, 8, 16)), 'world': gen.orbits(), 'surfaces': st.integers(6, 25),
        'target': targets(), 'enabled': st.sampled_from([True, True, True, False])})


@prop(walks, quick=160, thorough=8000, rule='the target was passed and a location moved', shards=(3, 8))
def walk(case, ctx):
    n = int(case['surfaces'] / case['inst']['ratio']) + 3
    P, objs, values, bursts = gen.setup(case['inst'], case['world'], n)
    plain = ref.locate(P, bursts)
    if len(plain) < 5:
        return
    cnf = target_of(P, plain, case['target'])
    cnf['flag_surface_focusing_cnf'] = case['enabled']
    P, objs, values, bursts = gen.setup(case['inst'], case['world'], n, cnf)
    fragile = set()
    want = ref.locate(P, bursts, case['enabled'], None, fragile)
    if fragile:
        ctx.label('too close to call')
        return
    alg = algorithms.SurfaceLocationAlgorithm(*objs)
    chd, cst, _ = objs
    surfaces, packets = [], []
    for b in bursts:
        packets.append(gen.packet(objs, b))
        if alg(surfaces, packets):
            s = SurfaceData(cst, chd, len(surfaces), **alg.get_surface())
            s.compute_surf_sat_vector()
            s.compute_angular_azimuth_beam_resolution(chd.pri_sar)
            surfaces.append(s)
    check(ctx, P, surfaces, want, case['enabled'])
    ctx.mark(any(getattr(s, 'focused', False) for s in want))


def check(ctx, P, surfaces, want, enabled):
    ctx.equal(len(surfaces), len(want), 'number of locations')
    for k, (s, w) in enumerate(zip(surfaces, want)):
        moved = getattr(w, 'focused', False)
        compare(ctx, P, s, w, k)
        ctx.equal(bool(s.target_focused), moved, 'location %d is marked as focused' % k)
    if enabled and any(getattr(w, 'focused', False) for w in want):
        # the moved location is the one nearest to the target
        t = ref.focus_target(P)
        d = [np.linalg.norm(np.array([s.x_surf, s.y_surf, s.z_surf], dtype=float) - t) for s in surfaces]
        k = [i for i, w in enumerate(want) if getattr(w, 'focused', False)][0]
        ctx.require(d[k] <= min(d) + 30.0, 'focused location is %r m from the target, another one %r m', d[k], min(d))


def compare(ctx, P, s, w, k):
    ctx.close([s.x_surf, s.y_surf, s.z_surf], w.pos, 'position of location %d' % k, rtol=0, atol=0.3)
    ctx.close(s.lat_surf, w.lat, 'latitude of location %d' % k, rtol=0, atol=6e-8)
    ctx.require(gen.angdiff(s.lon_surf, w.lon) * math.cos(w.lat) < 6e-8, 'longitude of location %d: %r, expected %r',
                k, s.lon_surf, w.lon)
    ctx.close(s.alt_surf, w.alt, 'altitude of location %d' % k, rtol=0, atol=0.3)
    ctx.close(s.win_delay_surf, w.wd, 'window delay of location %d' % k, rtol=0, atol=2 * 0.4 / P.c)
    ctx.close([s.x_sat, s.y_sat, s.z_sat], w.sat, 'satellite position of location %d' % k, rtol=0, atol=0.3)
    ctx.close(s.time_surf, w.time, 'time of location %d' % k, rtol=0, atol=6e-5)


@prop(lambda: chain.scenarios(surfaces=(86, 100), target=targets(), **chain.holes()), quick=16, thorough=700,
      shards=(2, 8), rule='a written record was focused')
def in_the_chain(case, ctx):
    plain = chain.product(case, ctx)
    fragile = set()
    first = ref.segments(plain.P, [ref.burst(plain.P, plain.values, i) for i in ref.selected(plain.P, plain.values)])
    longest = max(first, key=len)
    track = ref.locate(plain.P, longest)
    if len(track) < 8:
        return
    out = chain.run_case(case, ctx, cnf=target_of(plain.P, track, case['target']))
    if out is None:
        return
    p, snaps, _ = out
    expected = p.expected()
    if expected.fragile:
        ctx.label('too close to call')
        return
    ctx.equal(len(snaps), len(expected), 'number of records')
    for s, (w, stack) in zip(snaps, expected):
        compare(ctx, p.P, s, w, int(s.surface_counter))
        ctx.equal(bool(s.target_focused), getattr(w, 'focused', False), 'record %d is focused' % s.surface_counter)
        if getattr(w, 'focused', False):
            ctx.mark()
            # the beams of the record are those of the moved position
            if not stack.fragile & {'looks'}:
                ctx.close(s.beam_angles_surf[:s.size], stack.beam_angle, 'beam angles of the focused record', rtol=0,
                          atol=2e-6)
