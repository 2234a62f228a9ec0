"""C01 viewing geometry: axis ratio -> inclination, sky -> galaxy rotation."""
import math

FUNCTIONS = ['kin_functions.sin_i', 'kin_functions.transform_int_3d', 'kin_functions.r_int_ellip']
BOUNDS = ('all real axis ratios q in [0.02,1], q0 in [0.01,0.6]; all coordinates in [-5,5] arcsec, position angles '
          'in [-360,360] deg, inclinations in [-pi,pi]')
OUTSIDE = 'floating point rounding; coordinates beyond the stated box'
ASSUMPTIONS = ['sine and cosine are represented by unit-circle pairs with monotonicity facts']


def sini(t, repo):
    q = t.real('q', 0.02, 1.)
    q0 = t.real('q0', 0.01, 0.6)
    s = repo.kf.sin_i(q, q0=q0)
    t.observe('s', s)
    t.le(s, 1., 'sini_le_1')
    t.le(0., s, 'sini_ge_0')
    # q <= q0: edge-on; otherwise q^2 = cos^2 i + q0^2 sin^2 i (oblate spheroid of thickness q0)
    thick = q <= q0
    cosi2 = 1. - s * s
    t.eq(t.ite(thick, s, 1.), 1., 'edge_on_when_q_below_q0')
    t.eq(t.ite(thick, q * q, cosi2 + q0 * q0 * s * s), q * q, 'projected_axis_ratio')


def sini_monotone(t, repo):
    q0 = t.real('q0', 0.01, 0.6)
    qa = t.real('qa', 0.02, 1.)
    qb = t.real('qb', 0.02, 1.)
    t.assume(qa <= qb)
    t.le(repo.kf.sin_i(qb, q0=q0), repo.kf.sin_i(qa, q0=q0), 'rounder_is_less_inclined')
    t.eq(repo.kf.sin_i(1., q0=q0), 0., 'round_is_face_on')


def rot(t, repo):
    np = t.np
    x, y, z = t.real('x', -5, 5), t.real('y', -5, 5), t.real('z', -5, 5)
    x2, y2, z2 = t.real('x2', -5, 5), t.real('y2', -5, 5), t.real('z2', -5, 5)
    pa = t.real('pa', -360., 360.)
    inc = t.real('inc', -math.pi, math.pi)
    f = repo.kf.transform_int_3d
    a, b, c = f(x, y, z, pa, inc)
    d, e, g = f(x2, y2, z2, pa, inc)
    t.observe('abc', [a, b, c])
    # isometry: all inner products preserved
    t.eq(a * d + b * e + c * g, x * x2 + y * y2 + z * z2, 'isometry')
    # the galaxy major axis, on the sky at PA counter-clockwise from up, is internal +y and is
    # left unchanged by the inclination
    pr = pa * (math.pi / 180.)
    r = t.real('r', -5, 5)
    m = f(-np.sin(pr) * r, np.cos(pr) * r, 0., pa, inc)
    t.eq(list(m), [0., r, 0.], 'major_axis_is_internal_y')
    # orientation preserving, and the line of sight leans towards internal x by sin(inc)
    n = f(0., 0., 1., pa, inc)
    t.eq(list(n), [np.sin(inc), 0., np.cos(inc)], 'line_of_sight_axis')
    # full matrix
    k = f(np.cos(pr) * r, np.sin(pr) * r, 0., pa, inc)
    t.eq(list(k), [np.cos(inc) * r, 0., -np.sin(inc) * r], 'minor_axis')


def rot_array(t, repo):
    """array arguments: element by element the scalar result"""
    x, y, z = t.reals('x', (2, 1, 2), -5, 5), t.reals('y', (2, 1, 2), -5, 5), t.reals('z', (2, 1, 2), -5, 5)
    pa = t.real('pa', -180., 180.)
    inc = t.real('inc', 0., math.pi / 2)
    A = repo.kf.transform_int_3d(x, y, z, pa, inc)
    for i in (0, 1):
        for k in (0, 1):
            s = repo.kf.transform_int_3d(x[i, 0, k], y[i, 0, k], z[i, 0, k], pa, inc)
            t.eq([A[0][i, 0, k], A[1][i, 0, k], A[2][i, 0, k]], list(s), 'elementwise')


def ellip(t, repo):
    """radius of the projected ellipse: circularised radius"""
    np = t.np
    q = t.real('q', 0.1, 1.)
    pa = t.real('pa', -180., 180.)
    r = t.real('r', 0., 5.)
    pr = pa * (math.pi / 180.)
    f = repo.kf.r_int_ellip
    t.eq(f(np.sin(pr) * r, np.cos(pr) * r, q, pa) ** 2, q * r * r, 'along_major_axis')
    t.eq(f(np.cos(pr) * r, -np.sin(pr) * r, q, pa) ** 2 * q, r * r, 'along_minor_axis')
    x, y = t.real('x', -3, 3), t.real('y', -3, 3)
    t.eq(f(x, y, 1., pa) ** 2, x * x + y * y, 'circle')
    t.eq(f(-x, -y, q, pa), f(x, y, q, pa), 'point_symmetric')


HARNESSES = [
    dict(name='sini', fn=sini),
    dict(name='sini_monotone', fn=sini_monotone),
    dict(name='rot', fn=rot),
    dict(name='rot_array', fn=rot_array),
    dict(name='ellip', fn=ellip),
]
