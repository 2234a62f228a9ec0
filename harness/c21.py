"""C21 sky geometry: slit misalignment, projections on the slit, inclination."""
import math
from . import common as K

FUNCTIONS = ['galaxy_utils.calculate_slit_offset_angles', 'galaxy.Galaxy.calculate_slit_object_delta_PA', 'general_utils.y_proj_phys',
             'general_utils.x_proj_phys', 'general_utils.x_proj_major', 'general_utils.y_proj_major', 'general_utils.r_unproj_major',
             'general_utils.y_proj_major_inslit', 'general_utils.inclination_angle', 'kin_functions.sin_i', 'kin_functions.r_int_ellip',
             'kin_functions.transform_int_3d']
BOUNDS = ('every position angle (galaxy, slit and image) in [-200,200] degrees, every radius up to 10 arcsec, slit width 0.1-3 arcsec, axis '
          'ratio 0.05-1, intrinsic thickness 0-0.5, every point within 10 arcsec')
OUTSIDE = 'misalignments within 1e-6 degree of +-90 degrees (the sign there is a matter of rounding); floating point rounding'
ASSUMPTIONS = []
D = math.pi / 180.


def slit(t, repo, method=False, lim=200., img=True):
    np = t.np
    pa, sl = t.real('pa', -lim, lim), t.real('slit', -lim, lim)
    im = t.real('img', -lim, lim) if img else 0.
    g = repo.gal.Galaxy(z=0.)
    g.generate_model = False
    g.spec2D, g.pstamp = repo.gal.ObsSpectrum2D(), repo.gal.Pstamp()
    g.sersicPA, g.spec2D.slit_PA, g.pstamp.img_PA = pa, sl, im
    d = pa - (sl - im)
    k = int(np.round(d / 180.))
    want = d - 180. * k
    t.assume(abs(want) <= 90. - 1e-6)
    if method:
        g.calculate_slit_object_delta_PA()
    else:
        r = repo.gu.calculate_slit_offset_angles(g)
        t.check(r is g, 'same_galaxy')
    t.eq(g.delt_PA, want, 'misalignment_modulo_half_turns', tol=1e-6)
    t.eq(g.delt_PA_abs, want if bool(want >= 0.) else -want, 'size_of_misalignment', tol=1e-6)
    t.eq(g.sersicPA, pa, 'angles_kept')
    t.eq(g.spec2D.slit_PA, sl, 'angles_kept')
    # again, with the slit on the galaxy
    g.spec2D.slit_PA = pa + im
    g.calculate_slit_object_delta_PA()
    t.eq(g.delt_PA, 0., 'follows_the_angles', tol=1e-6)
    t.eq(g.delt_PA_abs, 0., 'follows_the_angles', tol=1e-6)


def given(t, repo):
    g = repo.gal.Galaxy(z=0.)
    g.generate_model = True
    g.delt_PA = d = t.real('d', -180., 180.)
    g.calculate_slit_object_delta_PA()
    t.eq(g.delt_PA, d, 'given_misalignment_kept')
    t.eq(g.delt_PA_abs, d if bool(d >= 0.) else -d, 'size_of_misalignment')


def project(t, repo):
    np, u = t.np, repo.utils
    re, q, a = t.real('re', .01, 10.), t.real('q', .05, 1.), t.real('a', -180., 180.)
    c, s = np.cos(a * D), np.sin(a * D)
    x, y = u.x_proj_major(re, a, q), u.y_proj_major(re, a)
    t.ge(x, 0., 'projection_is_a_length')
    t.ge(y, 0., 'projection_is_a_length')
    t.eq(x * x, (re * s) ** 2, 'across_the_slit')
    t.eq(y * y, (re * c) ** 2, 'along_the_slit')
    yp, xp = u.y_proj_phys(re, a, q), u.x_proj_phys(re, a, q)
    # half axes of the ellipse (re, q re) along and across the slit
    t.ge(yp, 0., 'ellipse_along_the_slit')
    t.ge(xp, 0., 'ellipse_across_the_slit')
    t.eq(yp * yp * ((q * c) ** 2 + s ** 2), (q * re) ** 2, 'ellipse_along_the_slit', tol=1e-5)
    t.eq(xp * xp * ((q * s) ** 2 + c ** 2), (q * re) ** 2, 'ellipse_across_the_slit', tol=1e-5)


def unproject(t, repo):
    np, u = t.np, repo.utils
    re, q, a = t.real('re', .01, 10.), t.real('q', .05, 1.), t.real('a', -89., 89.)
    t.eq(u.r_unproj_major(u.y_proj_major(re, a), a, q), re, 'projection_undone', tol=1e-5)


def inslit(t, repo, lo=1., hi=89., sign=1.):
    np, u = t.np, repo.utils
    re, w = t.real('re', .01, 10.), t.real('w', .1, 3.)
    a = sign * t.real('a', lo, hi)
    c, s = np.cos(a * D), np.sin(a * D)
    t.assume(abs(re * abs(s) - w / 2.) >= 1e-6)
    y = u.y_proj_major_inslit(re, a, slit_width_arcsec=w)
    if bool(re * abs(s) <= w / 2.):
        t.eq(y, re * abs(c), 'all_of_it_in_the_slit')
    else:
        # where the major axis leaves the slit: the point (w/2, y) lies on it
        t.eq(y * abs(s), .5 * w * abs(c), 'leaves_the_slit', tol=1e-5)
        t.le(y, re * abs(c) + 1e-6, 'less_than_without_slit')


def incl(t, repo):
    np = t.np
    q, q0 = t.real('q', .02, 1.), t.real('q0', 0., .5)
    si = repo.kf.sin_i(q, q0=q0)
    if bool(q < q0):
        t.eq(si, 1., 'edge_on_below_the_thickness')
    else:
        t.ge(si, 0., 'sine_of_the_inclination')
        t.eq(si * si * (1. - q0 * q0), 1. - q * q, 'sine_of_the_inclination', tol=1e-6)
        i = repo.utils.inclination_angle(q, q0=q0)
        t.ge(i, -1e-9, 'inclination_between_face_on_and_edge_on')
        t.le(i, math.pi / 2 + 1e-9, 'inclination_between_face_on_and_edge_on')
        t.eq(np.cos(i) ** 2 * (1. - q0 * q0), q * q - q0 * q0, 'inclination_of_a_thick_disk', tol=1e-6)
    t.eq(repo.kf.sin_i(1., q0=q0), 0., 'round_is_face_on')
    t.eq(repo.kf.sin_i(q0, q0=q0), 1., 'edge_on_at_the_thickness', tol=1e-6)


def ellip(t, repo):
    """galaxy-frame radius of a sky position (flat, inclined disk with axis ratio q), circularized"""
    np = t.np
    x, y = t.real('x', -10., 10.), t.real('y', -10., 10.)
    q, a = t.real('q', .05, 1.), t.real('a', -90., 90.)
    r = repo.kf.r_int_ellip(t.arr([[x]]), t.arr([[y]]), q, a)
    r = r[0, 0]
    c, s = np.cos(a * D), np.sin(a * D)
    major, minor = s * x + c * y, c * x - s * y
    t.ge(r, 0., 'radius_in_the_disk')
    t.eq(r * r * q, (major * q) ** 2 + minor ** 2, 'radius_in_the_disk', tol=1e-5)


def rotate(t, repo, edge=False):
    """rotation to the galaxy frame keeps distances; the major axis stays in the plane; height is measured along the disk axis"""
    np = t.np
    x, y, z = t.real('x', -10., 10.), t.real('y', -10., 10.), t.real('z', -10., 10.)
    a = t.real('a', -90., 90.)
    i = math.pi / 2 if edge else t.real('i', 0., 1.5)
    one = lambda v: t.arr([[[v]]])
    r = repo.kf.transform_int_3d(one(x), one(y), one(z), a, i)
    X, Y, Z = [v[0, 0, 0] for v in r[:3]]
    c, s = np.cos(a * D), np.sin(a * D)
    ci, si = (0., 1.) if edge else (np.cos(i), np.sin(i))
    t.eq(X * X + Y * Y + Z * Z, x * x + y * y + z * z, 'distances_kept', tol=1e-5)
    t.eq(Y, c * y - s * x, 'along_the_major_axis', tol=1e-5)
    t.eq(Z, ci * z - si * (c * x + s * y), 'height_above_the_disk', tol=1e-5)


HARNESSES = [
    dict(name='slit', fn=slit, configs=[dict(lim=100.), dict(method=True, img=False), dict(method=True, lim=60.)], thorough=[dict(lim=370.)]),
    dict(name='given', fn=given),
    dict(name='project', fn=project),
    dict(name='unproject', fn=unproject),
    dict(name='inslit', fn=inslit, configs=[dict(), dict(sign=-1.), dict(lo=91., hi=179.)]),
    dict(name='incl', fn=incl),
    dict(name='ellip', fn=ellip),
    dict(name='rotate', fn=rotate, configs=[dict(), dict(edge=True)]),
]
