"""C06: surface locations follow the ground track at the angular azimuth resolution."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib.harness import prop
from vlib import chain, gen, ref, synth
from vlib.gen import floats

from dedop.model import SurfaceData
from dedop.proc.sar import algorithms

ASSUMPTIONS = ['a location is created when the angle subtended at the satellite position of the last location reaches '
               'asin(c / (2 f v N PRI)); all its parameters are interpolated linearly between the two bursts '
               'around it']


def of_model(s):
    """the reference view of a located surface"""
    r = ref.Surface()
    r.pos = np.array([s.x_surf, s.y_surf, s.z_surf], dtype=float)
    r.sat = np.array([s.x_sat, s.y_sat, s.z_sat], dtype=float)
    r.vel = np.array([s.x_vel_sat, s.y_vel_sat, s.z_vel_sat], dtype=float)
    return r


def compare(ctx, P, s, want, what, loose):
    """loose: metres of along-track uncertainty left by rounding"""
    t = loose / 5000.0
    ctx.close([s.x_surf, s.y_surf, s.z_surf], want.pos, what + 'surface position', rtol=0, atol=loose)
    ctx.close([s.x_sat, s.y_sat, s.z_sat], want.sat, what + 'satellite position', rtol=0, atol=loose)
    ctx.close(s.time_surf, want.time, what + 'time', rtol=0, atol=t + 3e-7)
    ctx.close([s.x_vel_sat, s.y_vel_sat, s.z_vel_sat], want.vel, what + 'velocity', rtol=0, atol=1e-3 * loose + 1e-6)
    ctx.close(s.alt_rate_sat, want.alt_rate, what + 'altitude rate', rtol=0, atol=1e-3 * loose + 1e-6)
    for n in ('roll', 'pitch', 'yaw'):
        ctx.close(getattr(s, n + '_sat'), getattr(want, n), what + n, rtol=0, atol=1e-4 * loose + 1e-12)
    for lat, lon, alt, wlat, wlon, walt in (
            (s.lat_surf, s.lon_surf, s.alt_surf, want.lat, want.lon, want.alt),
            (s.lat_sat, s.lon_sat, s.alt_sat, want.lat_sat, want.lon_sat, want.alt_sat)):
        ctx.close(lat, wlat, what + 'latitude', rtol=0, atol=loose / 6e6 + 4e-9)
        ctx.require(gen.angdiff(lon, wlon) * abs(math.cos(wlat)) < loose / 6e6 + 4e-9,
                    what + 'longitude: got %r, expected %r', lon, wlon)
        ctx.close(alt, walt, what + 'altitude', rtol=0, atol=loose + 2e-2)
    ctx.close(s.win_delay_surf, want.wd, what + 'window delay', rtol=0, atol=2 * (2 * loose + 4e-2) / P.c)
    ctx.close([s.prev_tai, s.prev_utc_days, s.prev_utc_secs], want.utc_ref, what + 'UTC reference', rtol=0, atol=1e-9)
    ctx.close(s.curr_day_length, want.day_length, what + 'length of day', rtol=0, atol=1e-6)


def margin(P, last, prev, now):
    """(rounding uncertainty in metres, is the decision itself too close to call)"""
    before = ref.subtended(last, prev.ground)
    after = ref.subtended(last, now.ground)
    res = ref.resolution(P, last.vel)
    err = 3e-8 if before < 1e-5 else 3e-16 / before + 1e-13
    height = float(np.linalg.norm(last.pos - last.sat))
    speedup = np.linalg.norm(now.ground - prev.ground) / max(abs(after - before), 1e-12) / height
    return 1e-6 + 4 * err * height * max(1.0, speedup), abs(after - res) < 1e-8 * res + 2e-16 / res


def walks():
    return st.fixed_dictionaries({
        'inst': gen.instruments(), 'world': gen.orbits(), 'n': st.integers(2, 50),
        'forced': st.lists(st.integers(1, 49), max_size=2),
        'leaps': st.lists(st.tuples(st.integers(1, 49), st.sampled_from([1.0, -1.0])).map(list), max_size=1)})


@prop(walks, quick=300, thorough=12000, rule='at least two locations after the first one', shards=(3, 8))
def walk(case, ctx):
    P, objs, values, bursts = gen.setup(case['inst'], case['world'], case['n'])
    for at, step in case['leaps']:          # a leap second between two bursts
        for b in bursts[at:]:
            b.sec += step
            ctx.label('leap second')
    alg = algorithms.SurfaceLocationAlgorithm(*objs)
    chd, cst, _ = objs
    surfaces, packets = [], []
    created = 0
    for j, b in enumerate(bursts):
        packets.append(gen.packet(objs, b))
        force = j in case['forced'] and bool(surfaces)
        last = of_model(surfaces[-1]) if surfaces else None
        made = alg(surfaces, packets, force_new=force)
        what = 'burst %d: ' % j
        if last is None or force:
            ctx.require(made, what + 'no location below the burst')
            want, loose = ref.first_surface(P, b), 1e-4
        else:
            loose, undecided = margin(P, last, bursts[j - 1], b)
            want = ref.next_surface(P, last, bursts[j - 1], b)
            if undecided:
                ctx.label('too close to call')
                return
            ctx.require(bool(made) == (want is not None), what + 'location created: %r, expected %r', bool(made),
                        want is not None)
            created += bool(made)
        if made:
            s = SurfaceData(cst, chd, len(surfaces), **alg.get_surface())
            s.compute_surf_sat_vector()
            s.compute_angular_azimuth_beam_resolution(chd.pri_sar)
            ctx.close(np.ravel(s.surf_sat_vector), [s.x_surf - s.x_sat, s.y_surf - s.y_sat, s.z_surf - s.z_sat],
                      what + 'vector to the satellite', rtol=1e-12, atol=1e-8)
            ctx.close(s.angular_azimuth_beam_resolution, ref.resolution(P, of_model(s).vel),
                      what + 'angular resolution', rtol=1e-11)
            compare(ctx, P, s, want, what, loose)
            surfaces.append(s)
    ctx.mark(created >= 2)
    ctx.label('%d+ locations' % (10 * (len(surfaces) // 10)))


@prop(lambda: chain.scenarios(**chain.holes()), quick=16, thorough=800, shards=(2, 8),
      rule='the product has a gap or unusable records')
def in_the_chain(case, ctx):
    """the records sit on the locations of their own uninterrupted run"""
    out = chain.run_case(case, ctx)
    if out is None:
        return
    p, snaps, bursts = out
    used = [bursts[i] for i in ref.selected(p.P, p.values)]
    fragile = set()
    located = []
    for seg in ref.segments(p.P, used, fragile):
        located.extend(ref.locate(p.P, seg, False, None, fragile))
    if fragile:
        ctx.label('too close to call')
        return
    for s in snaps:
        k = int(s.surface_counter)
        ctx.require(0 <= k < len(located), 'record of location %d, but only %d exist', k, len(located))
        compare(ctx, p.P, s, located[k], 'location %d: ' % k, 0.3)
    numbers = [int(s.surface_counter) for s in snaps]
    ctx.require(numbers == sorted(set(numbers)), 'records are not in track order: %r', numbers)
    ctx.mark(bool(snaps) and bool(case['gaps'] or case['invalid']))
