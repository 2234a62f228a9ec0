"""C22 1D emission line model: one Gaussian per line with its flux, dispersion and redshift, plus continuum."""
import math
from . import common as K

FUNCTIONS = ['emission_lines_model.gaussian_line', 'emission_lines_model.EmissionLines1DModel.make1DProfile',
             'emission_lines_model.EmissionLines1DModel.setAttr', 'emission_lines_model.EmissionLinesSpectrum1DModel.make1DProfile',
             'emission_lines_model.EmissionLinesSpectrum1DModel.residual1DProfile', 'io.read_line_names', 'io.read_restwave', 'io.read_line_ratio']
BOUNDS = ('every redshift in [0,4], dispersion 20-600 km/s, flux, continuum coefficient up to third order, wavelength, datum and error; sets of '
          'one and two lines given or by name, spectra of one to three sets, 3-4 channels, every choice of masked or missing pixels')
OUTSIDE = 'more channels and lines; a zero or negative dispersion; floating point rounding'
ASSUMPTIONS = []
C = 299792.458
E18 = 1.e18
LIB = {'Halpha': [(6564.60, 1.)], 'Hbeta': [(4862.71, 1.)], 'OIII': [(5008.24, 1.), (4960.295, 0.333333)],
       'NII': [(6549.86, 0.333333), (6585.27, 1.)]}


class Par(object):
    def __init__(self, v):
        self.value = v


def gauss(t, x, mu, sig):
    np = t.np
    return np.exp(-(x - mu) ** 2 / (2. * sig ** 2)) / (sig * math.sqrt(2. * math.pi))


def line(t, repo, n=3):
    np = t.np
    mu, s, F = t.real('mu', 3000., 25000.), t.real('s', 20., 600.), t.real('F', -50., 50.)
    sig = s / C * mu
    u = [-1.7, 0., .6, 2.1][:n]
    x = t.arr([mu + v * sig for v in u])
    y = repo.el.gaussian_line(x, mu, s, F)
    t.check(len(y) == n, 'one_value_per_channel')
    for k in range(n):
        t.eq(y[k] * sig, F * math.exp(-.5 * u[k] ** 2) / math.sqrt(2. * math.pi), 'gaussian_of_the_flux', tol=1e-5)


def waves(t, lam, n):
    return [lam + d for d in (-7., 1., 12., 19.)[:n]]


def one(t, repo, name=None, lines=((6000., 1.), (6020., .4)), again=False, symratio=False, n=3):
    np = t.np
    if name:
        m = repo.el.EmissionLines1DModel(name=name)
        lines = LIB[name]
    else:
        r = [l[1] for l in lines]
        if symratio:
            r[-1] = t.real('ratio', 0., 1.)
        m = repo.el.EmissionLines1DModel(linenames_arr=['L%d' % i for i in range(len(lines))], restwave_arr=np.array([l[0] for l in lines]),
                                         flux_ratio_arr=t.arr(r))
        lines = [(l[0], x) for l, x in zip(lines, r)]
    if again:
        m.make1DProfile(np.array([100., 200.]), t.real('z0', 0., 4.), 30., 7.)
    z, s, F = t.real('z', 0., 4.), t.real('s', 20., 600.), t.real('F', -50., 50.)
    # channels at fixed distances from the first line
    lam = lines[0][0] * (1. + z)
    x = t.arr(waves(t, lam, n))
    x0 = x.copy()
    m.make1DProfile(x, z, s, F)
    for k in range(n):
        want = 0.
        for w, r in lines:
            mu = w * (1. + z)
            want = want + F * r * gauss(t, x0[k], mu, s / C * mu)
        t.eq(m.profile[k], want, 'sum_of_the_lines', tol=1e-7)
    t.eq(x, x0, 'wavelengths_kept')
    t.eq(m.z, z, 'parameters_noted')
    t.eq(m.vel_disp, s, 'parameters_noted')
    t.eq(m.flux, F, 'parameters_noted')


def other_shape(t, repo):
    """any profile function is called with the position, dispersion and flux of each line"""
    np = t.np
    got = []

    def shape(x, mu, s, F):
        got.append((mu, s, F))
        return F * (x - mu)
    m = repo.el.EmissionLines1DModel(profile_function=shape, name='OIII')
    z, s, F = t.real('z', 0., 4.), t.real('s', 20., 600.), t.real('F', -50., 50.)
    m.make1DProfile(np.array([9000., 9100.]), z, s, F)
    t.check(len(got) == 2, 'one_profile_per_line')
    for (mu, ss, f), (w, r) in zip(got, LIB['OIII']):
        t.eq(mu, w * (1. + z), 'line_position', tol=1e-5)
        t.eq(ss, s, 'line_dispersion')
        t.eq(f, F * r, 'line_flux')
    t.eq(m.profile, [sum(F * r * (x - w * (1. + z)) for w, r in LIB['OIII']) for x in (9000., 9100.)], 'sum_of_the_lines', tol=1e-4)
    t.raises(ValueError, lambda: repo.el.EmissionLines1DModel(name='none'), 'unknown_line_refused')
    t.raises(ValueError, lambda: repo.el.EmissionLinesSpectrum1DModel(names_arr=['OIII'], shape1D='lorentzian'), 'unknown_shape_refused')


def params(t, names, order):
    p = dict(z=Par(t.real('z', 0., 4.)), vel_disp=Par(t.real('s', 20., 600.)))
    for i in range(order + 1):
        p['cont_coeff%d' % i] = Par(t.real('c%d' % i, -3., 3.) * E18 / 1000. ** i)
    for i in range(len(names)):
        p['flux%d' % i] = Par(t.real('F%d' % i, -50., 50.))
    return p


def ref(t, p, names, order, x):
    np = t.np
    z, s = p['z'].value, p['vel_disp'].value
    r = 0.
    for i, n in enumerate(names):
        for w, q in LIB[n]:
            mu = w * (1. + z)
            r = r + p['flux%d' % i].value * q * gauss(t, x, mu, s / C * mu)
    for i in range(order + 1):
        r = r + p['cont_coeff%d' % i].value * 1e-18 * x ** i
    return r


def spectrum(t, repo, names=('Halpha', 'NII'), order=1, again=False, n=3):
    np = t.np
    m = repo.el.EmissionLinesSpectrum1DModel(names_arr=list(names), cont_order=order)
    p = params(t, names, order)
    if again:
        q = {k: Par(1.) for k in p}
        q['vel_disp'] = Par(100.)
        m.make1DProfile(q, np.array([1000., 3000., 3300., 3600.]))
    lam = LIB[names[0]][0][0] * (1. + p['z'].value)
    x = t.arr(waves(t, lam, n))
    y = m.make1DProfile(p, x)
    t.check(len(y) == n, 'one_value_per_channel')
    for k in range(n):
        t.eq(y[k], ref(t, p, names, order, x[k]), 'lines_and_continuum', tol=1e-6)
    t.eq(m.z, p['z'].value, 'parameters_noted')
    t.eq(m.vel_disp, p['vel_disp'].value, 'parameters_noted')
    t.eq(m.flux_arr, [p['flux%d' % i].value for i in range(len(names))], 'parameters_noted')
    t.eq(np.array(m.cont_coeff), [p['cont_coeff%d' % i].value * 1e-18 for i in range(order + 1)], 'parameters_noted')


def residual(t, repo, names=('Halpha',), order=0, z=1., s=150., zero_err=None, inf=None):
    np = t.np
    n = 4
    m = repo.el.EmissionLinesSpectrum1DModel(names_arr=list(names), cont_order=order)
    p = params(t, names, order)
    p['z'], p['vel_disp'] = Par(z), Par(s)
    lam = LIB[names[0]][0][0] * (1. + z)
    x = waves(t, lam, n)
    d = t.arr([t.nanreal('d%d' % k, -9., 9.) for k in range(n)])
    e = [.3, .5, .4, .7]
    if zero_err is not None:
        e[zero_err] = 0.
    if inf is not None:
        e[inf] = float('nan')
    on = [bool(t.flag('on%d' % k)) for k in range(n)]
    off = [0., .5, 2., -1.]
    mask = [1. if v else off[k] for k, v in enumerate(on)]
    miss = [bool(t.isnan(v)) for v in d]
    X, E, Mk = np.array(x), np.array(e), np.array(mask)
    d0 = d.copy()
    r = m.residual1DProfile(p, X, d, E, Mk)
    tot = []
    for k in range(n):
        if not on[k]:
            continue
        if miss[k] or e[k] == 0. or e[k] != e[k]:
            tot.append(0.)
        else:
            tot.append((ref(t, p, names, order, x[k]) - d0[k]) / e[k])
    t.check(len(r) == len(tot), 'only_unmasked_pixels')
    for a, b in zip(r, tot):
        t.eq(a, b, 'residual_over_error', tol=1e-6)
    t.eq(X, x, 'data_kept')
    t.eq(Mk, mask, 'data_kept')


HARNESSES = [
    dict(name='line', fn=line, configs=[dict(n=4)]),
    dict(name='one', fn=one, configs=[dict(), dict(again=True, symratio=True), dict(name='OIII'), dict(name='NII', again=True), dict(name='Hbeta')]),
    dict(name='other_shape', fn=other_shape),
    dict(name='spectrum', fn=spectrum, configs=[dict(), dict(names=['OIII'], order=0, again=True), dict(names=['Halpha', 'NII', 'OIII'], order=2, n=2),
                                                dict(names=['Hbeta', 'OIII'], order=3, again=True, n=2)]),
    dict(name='residual', fn=residual, configs=[dict(), dict(zero_err=1, order=1), dict(inf=2), dict(names=['Halpha', 'NII'], order=1)]),
]
