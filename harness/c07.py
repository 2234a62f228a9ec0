"""C07 kinematic and intensity profile laws."""
import math
from . import common as K

FUNCTIONS = ['kin_classes.VelArctanProfile.vel', 'kin_classes.DispConstProfile.sigma', 'kin_classes.KinProfile.*',
             'kin_classes.IntProfileSersic.int', 'kin_classes.IntProfileExpZ.int', 'kin_classes.IntProfileExpZScale.int',
             'kin_classes.IntensityProfile.*']
BOUNDS = ('every radius in [0,10] arcsec, height in [-5,5], velocity in [-500,500] km/s, turnover radius in [0.01,5], '
          'dispersion in [-200,300], effective radius in [0.1,3], thickness in [0.05,0.6]; Sersic index in [0.3,6] or '
          'the listed values')
OUTSIDE = 'floating point rounding; zero turnover radius'
ASSUMPTIONS = ['arctan and exp are uninterpreted apart from monotonicity, bounds and functional-equation facts; powers '
               'with symbolic exponent are exp(e log b)']


def gal(t, repo, **kw):
    d = dict(z=0.5, n=1., re_arcsec=0.5, q=0.6, q0=0.2, delt_PA=20., re_mass_arcsec=0.4, q_mass=0.7)
    d.update(kw)
    return repo.gal.Galaxy(**d)


def arctan(t, repo):
    np = t.np
    va, rt, s0 = t.real('va', -500., 500.), t.real('rt', 0.01, 5.), t.real('s0', -200., 300.)
    k = repo.kc.KinProfileFiducial()
    k.update_theta(np.array([va, rt, s0, t.real('m0', -1., 1.), 0.3]))
    r = t.reals('r', 2, 0., 10.)
    z = t.reals('z', 2, -5., 5.)
    v = k.vel(r, z)
    t.eq(v, 2. / math.pi * va * np.arctan(r / rt), 'arctan_law')
    t.eq(k.vel(np.array([rt, 0.]), np.array([0., 1.])), [0.5 * va, 0.], 'half_at_turnover_zero_at_centre')
    t.le(v * v, va * va * np.ones(2), 'bounded_by_asymptote')
    t.assume(r[0] <= r[1])
    t.assume(va >= 0.)
    t.le(v[0], v[1], 'rises_outwards')
    t.eq(k.sigma(r, z), np.array([s0, s0]), 'constant_dispersion')


def arctan_sign(t, repo):
    np = t.np
    va, rt = t.real('va', -500., 500.), t.real('rt', 0.01, 5.)
    r = t.reals('r', (1, 2), 0., 10.)
    out = []
    for s in (1., -1.):
        k = repo.kc.KinProfileFiducial()
        k.update_theta(np.array([s * va, rt, 40., 0., 0.]))
        out.append(k.vel(r, 0. * r))
    t.eq(out[0], -out[1], 'reversing_rotation_reverses_velocity')


def theta_split(t, repo, nv, nd):
    """velocity parameters come first, dispersion parameters next, the rest is ignored by the profiles"""
    np = t.np

    class V(repo.kc.VelProfile):
        def __init__(self):
            repo.kc.VelProfile.__init__(self)
            self.theta = np.zeros(nv)

        def vel(self, r, z):
            return sum(self.theta[i] * r ** (i + 1) for i in range(nv)) + z

    class D(repo.kc.DispProfile):
        def __init__(self):
            repo.kc.DispProfile.__init__(self)
            self.theta = np.zeros(nd)

        def sigma(self, r, z):
            return sum(self.theta[i] * r ** i for i in range(nd)) * (1. + z)

    k = repo.kc.KinProfile(velProfile=V(), dispProfile=D())
    for n in range(2):
        th = t.reals('th%d' % n, nv + nd + 2, -3., 3.)
        k.update_theta(th)
        r, z = t.reals('r%d' % n, 2, 0., 3.), t.reals('z%d' % n, 2, 0., 3.)
        t.eq(k.vel(r, z), sum(th[i] * r ** (i + 1) for i in range(nv)) + z, 'velocity_parameters')
        t.eq(k.sigma(r, z), sum(th[nv + i] * r ** i for i in range(nd)) * (1. + z), 'dispersion_parameters')


def sersic(t, repo, n, kind):
    """n None: symbolic index"""
    np = t.np
    n = t.real('n', 0.3, 6.) if n is None else n
    re, q0 = t.real('re', 0.1, 3.), t.real('q0', 0.05, 0.6)
    g = gal(t, repo, n=n, re_arcsec=re, q0=q0)
    P = repo.kc.IntensityProfileFiducial(g) if kind == 'expz' else repo.kc.IntensityProfileSersicExpScale(g)
    r = t.reals('r', 2, 0.01, 10.)
    z = t.reals('z', 2, -5., 5.)
    I = P.int(r, z)
    z0 = q0 * re if kind == 'expz' else q0 * re / 1.676
    for i in range(2):
        t.eq(I[i], K.ref_sersic(t, r[i], n, re) * np.exp(-np.abs(z[i]) / z0), 'sersic_times_exponential')
    c = P.int(np.array([re, re, re]), np.array([0., z0, -z0]))
    t.eq(c, [1., math.exp(-1.), math.exp(-1.)], 'unit_at_effective_radius_and_scale_height')
    t.check(I[0] >= 0., 'non_negative')


def sersic_decreases(t, repo, n):
    np = t.np
    re = t.real('re', 0.1, 3.)
    P = repo.kc.IntensityProfileFiducial(gal(t, repo, n=n, re_arcsec=re, q0=0.2))
    r = t.reals('r', 2, 0.01, 10.)
    z = t.reals('z', 2, -5., 5.)
    t.assume(r[0] <= r[1])
    I = P.int(r, 0. * r)
    t.le(I[1], I[0], 'fainter_outwards')
    t.assume(np.abs(z[0]) <= np.abs(z[1]))
    J = P.int(0. * z + re, z)
    t.le(J[1], J[0], 'fainter_off_the_plane')


def follow_galaxy(t, repo):
    """update_values adopts the galaxy's current structure"""
    np = t.np
    g = gal(t, repo, n=1., re_arcsec=0.5, q0=0.2)
    for cls, f in ((repo.kc.IntensityProfileFiducial, 1.), (repo.kc.IntensityProfileSersicExpScale, 1.676)):
        P = cls(g)
        g2 = gal(t, repo, n=2., re_arcsec=t.real('re', 0.1, 3.), q0=t.real('q0', 0.05, 0.6))
        P.update_values(g2)
        r, z = t.reals('r', 1, 0.01, 5.), t.reals('z', 1, -3., 3.)
        t.eq(P.int(r, z)[0], K.ref_sersic(t, r[0], 2., g2.re_arcsec) * np.exp(-np.abs(z[0]) * f / (g2.q0 * g2.re_arcsec)),
             'new_structure_used')


HARNESSES = [
    dict(name='arctan', fn=arctan),
    dict(name='arctan_sign', fn=arctan_sign),
    dict(name='theta_split', fn=theta_split, configs=[dict(nv=2, nd=1), dict(nv=3, nd=2), dict(nv=1, nd=2)]),
    dict(name='sersic', fn=sersic, configs=[dict(n=n, kind=k) for n in (1., 4., None) for k in ('expz', 'scale')],
         thorough=[dict(n=n, kind=k) for n in (0.5, 2., 0.8) for k in ('expz', 'scale')]),
    dict(name='sersic_decreases', fn=sersic_decreases, configs=[dict(n=1.), dict(n=2.)], thorough=[dict(n=4.), dict(n=.5)]),
    dict(name='follow_galaxy', fn=follow_galaxy),
]
