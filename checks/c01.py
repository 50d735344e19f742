"""C01: geodetic <-> Cartesian conversion agree with the ellipsoid and with each other."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib.harness import prop
from vlib import synth
from vlib.gen import floats, angdiff

from dedop.conf import ConstantsFile
from dedop.proc.geo import ecef2lla, lla2ecef, normalize

ASSUMPTIONS = ['altitudes between -10 km and 2000 km above the ellipsoid; longitudes compared modulo a full turn',
               'tolerances: 1e-10 rad and 1 cm near the ellipsoid, 4e-9 rad and 4 cm at orbit height (the closed form used is '
               'not exact there)']

HALF = math.pi / 2


def _cst(case):
    return ConstantsFile(**synth.cst_params(case.get('cst')))


def ellipsoids():
    def build(t):
        a, inv = t
        f = 1.0 / inv
        return {'semi_major_axis_cst': a, 'semi_minor_axis_cst': a * (1 - f), 'flat_coeff_cst': f}
    return st.one_of(st.just({}), st.just({}),
                     st.tuples(floats(6.30e6, 6.45e6), floats(290.0, 305.0)).map(build))


def latitudes():
    return st.one_of(
        floats(-HALF, HALF), st.sampled_from([0.0, HALF, -HALF, 1e-9, -1e-9, 0.5, -0.5]),
        st.tuples(st.sampled_from([1, -1]), st.floats(-9, -1)).map(lambda t: t[0] * (HALF - 10 ** t[1])))


def longitudes():
    return st.one_of(floats(-math.pi, math.pi), floats(0, 2 * math.pi),
                     st.sampled_from([0.0, math.pi, -math.pi, HALF, -HALF, 2 * math.pi]))


def altitudes():
    return st.one_of(floats(-10e3, 10e3), floats(5e5, 2e6), st.just(0.0))


def points():
    return st.fixed_dictionaries({'lat': latitudes(), 'lon': longitudes(), 'alt': altitudes(), 'cst': ellipsoids()})


def axes(case):
    k = synth.cst_params(case.get('cst'))
    return k['semi_major_axis_cst'], k['semi_minor_axis_cst']


def check_lla(ctx, got, want, a, what):
    lat, lon, alt = (float(v) for v in got)
    high = want[2] > 20e3
    ctx.require(abs(lat - want[0]) <= (4e-9 if high else 1e-10), '%s: latitude %.12g, expected %.12g', what, lat, want[0])
    # a longitude error counts by the distance on ground it makes
    on_ground = angdiff(lon, want[1]) * a * math.cos(want[0])
    ctx.require(on_ground <= 1e-3, '%s: longitude %.12g, expected %.12g', what, lon, want[1])
    ctx.require(abs(alt - want[2]) <= (0.04 if high else 0.01), '%s: altitude %.9g, expected %.9g', what, alt, want[2])


@prop(points, quick=2500, thorough=40000, shards=(2, 8), rule='the point is off the equator and has an altitude')
def round_trip(case, ctx):
    cst = _cst(case)
    lat, lon, alt = case['lat'], case['lon'], case['alt']
    ctx.mark(abs(lat) > 1e-6 and alt != 0)
    ctx.label('pole' if abs(lat) > HALF - 1e-6 else 'near pole' if abs(lat) > 1.5 else 'mid',
              'south' if lat < 0 else 'north', 'other ellipsoid' if case['cst'] else 'WGS84')
    xyz = lla2ecef((lat, lon, alt), cst)
    a, b = axes(case)
    want = synth.lla2ecef(lat, lon, alt, a, b)
    ctx.close([float(v) for v in xyz], want, 'Cartesian position', rtol=0, atol=1e-6)
    check_lla(ctx, ecef2lla(xyz, cst), (lat, lon, alt), a, 'round trip')


@prop(lambda: st.fixed_dictionaries({'pts': st.lists(st.tuples(latitudes(), longitudes(), altitudes()), min_size=1,
                                                     max_size=6), 'cst': ellipsoids()}),
      quick=600, thorough=10000, rule='at least two points')
def arrays(case, ctx):
    """converting arrays of points gives the conversion of each point"""
    cst = _cst(case)
    pts = np.array(case['pts'], dtype=np.float64)
    ctx.mark(len(pts) > 1)
    a, b = axes(case)
    xyz = lla2ecef((pts[:, 0], pts[:, 1], pts[:, 2]), cst)
    for k in range(len(pts)):
        one = lla2ecef(tuple(pts[k]), cst)
        for q in range(3):
            ctx.close(float(xyz[q][k]), float(one[q]), 'array element %d' % k, rtol=0, atol=1e-6)
    back = ecef2lla(tuple(np.array(v, dtype=np.float64) for v in xyz), cst)
    for k in range(len(pts)):
        check_lla(ctx, (back[0][k], back[1][k], back[2][k]), pts[k], a, 'array element %d' % k)


@prop(points, quick=1000, thorough=15000, rule='latitude or longitude not zero')
def degrees(case, ctx):
    """the degrees flag of the forward conversion only changes the unit of the input"""
    cst = _cst(case)
    ctx.mark(case['lat'] != 0 or case['lon'] != 0)
    d = lla2ecef((math.degrees(case['lat']), math.degrees(case['lon']), case['alt']), cst, lla_as_degrees=True)
    r = lla2ecef((case['lat'], case['lon'], case['alt']), cst)
    ctx.close([float(v) for v in d], [float(v) for v in r], 'degrees input', rtol=0, atol=1e-5)


@prop(lambda: st.fixed_dictionaries({'v': st.one_of(floats(-40, 40), st.sampled_from(
    [math.pi, -math.pi, 3 * math.pi, 2 * math.pi, 0.0]))}), quick=1000, thorough=10000,
      rule='the angle is outside the principal range')
def wrapping(case, ctx):
    """normalising an angle keeps the direction and lands in [-pi, pi]"""
    cst = _cst({})
    v = case['v']
    got = float(normalize(v, cst))
    ctx.mark(abs(v) > math.pi)
    ctx.require(-math.pi <= got <= math.pi, 'normalized %.12g to %.12g', v, got)
    ctx.require(angdiff(got, v) < 1e-9, 'normalized %.12g to a different direction %.12g', v, got)
    if abs(v) <= math.pi:
        ctx.require(got == v, 'changed an angle already in range: %.12g -> %.12g', v, got)
