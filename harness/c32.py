"""C32 the size of the emission along the slit, and what a spectrum carries when it is attached to a galaxy."""
import math
from . import common as K
from lib import lmstub, rnd

FUNCTIONS = ['galaxy_utils.fit_emission_y_profile', 'galaxy.ObsSpectrum2D.fit_emission_y_profile', 'galaxy.Galaxy.set_spectrum_1D',
             'galaxy.Galaxy.set_spectrum_2D', 'galaxy.GalaxyBasic.set_spectrum_2D', 'galaxy.ObsSpectrum1D.load_basic_defaults',
             'galaxy.ObsSpectrum2DBasic.load_basic_defaults', 'galaxy.ObsSpectrum.calculate_restwave', 'galaxy.ObsSpectrum2D._ensure_mask_weight']
BOUNDS = ('every flux of 4-6 rows x 2 channels, every fitted width, centre and deviate of 1-3 repetitions of the fit, for the listed errors, low rows, sky '
          'channels, seeing and pixel scales; every wavelength and redshift when a spectrum is attached')
OUTSIDE = 'that lmfit finds the minimum; the default of 500 repetitions; plots'
ASSUMPTIONS = ['lmfit.minimize returns some value of each free parameter within its bounds']
setup_lifted = setup_real = lmstub.install

F = 2. * math.sqrt(2. * math.log(2.))


def gauss(x, A, mu, s):
    return A * math.exp(-(x - mu) ** 2 / (2. * s ** 2))


def pct(v, q):
    v = sorted(v)
    h = (len(v) - 1) * q / 100.
    i = int(math.floor(h))
    return v[i] + (h - i) * (v[min(i + 1, len(v) - 1)] - v[i])


def size(t, repo, ny=5, low=(0,), sky=(), fwhm=.5, pix=.18, n=2, lims=None, main='any', reps=None, fail=None, method=False, ypos=2.2):
    np = t.np
    nx = 2 + len(sky)
    f = t.reals('f', (ny, nx), -3., 3.)
    e = [[.5 + .05 * ((2 * j + i) % 5) for i in range(nx)] for j in range(ny)]
    s = repo.gal.ObsSpectrum2D(wave=100. + 2. * np.arange(nx))
    s.flux, s.flux_err = f.copy(), np.array(e)
    s.mask_sky = np.array([[0. if i in sky else 1. for i in range(nx)] for j in range(ny)])
    s.mask_low_snr = np.ones((ny, nx))
    s.low_snr_row_inds = np.array(list(low), dtype=int)
    s.ypos, s.m_lims = ypos, np.array([0, ny])
    g = repo.gal.Galaxy(z=0.)
    ins = K.instrument(repo, PSF_FWHM=fwhm, pixscale=pix)
    rows = [j for j in range(ny) if j not in low]
    prof = [sum(f[j, i] for i in range(nx) if i not in sky) for j in range(ny)]
    err = [sum(e[j][i] ** 2 for i in range(nx) if i not in sky) ** .5 for j in range(ny)]
    y = [j * pix for j in range(ny)]
    top = (ny - 1) * pix / F
    dev = t.reals('r', (max(n, 1), ny), -3., 3.)
    ws = [t.real('w', .05, 2. * top) if main == 'any' else main]
    for k in range(n):
        v = reps[k] if reps else None
        ws.append(t.real('w%d' % k, .02, 2. * top) if v == 'any' else v if v is not None else .1 + .13 * ((k * 3) % 4))
    for v in ws:
        t.assume(abs(v - top) >= 1e-6)
        t.assume(abs(v - fwhm / F) >= 1e-4)
    second = .9 * top
    calls = []

    def hook(fn, p, args):
        c = len(calls)
        bounded = p['sigma'].max < 1e9
        if not bounded:
            calls.append(0)
            c = len(calls) - 1
        else:
            calls[-1] += 1
            c = len(calls) - 1
            t.check(calls[-1] == 1, 'one_more_fit')
            t.eq(p['sigma'].max, top, 'not_wider_than_the_window')
        if fail is not None and c == fail:
            raise ValueError('no fit')
        t.check(p.free() == ['A', 'mu', 'sigma'], 'parameters_of_the_fit')
        t.check(bool(p['sigma'].min == 0.), 'parameters_of_the_fit')
        t.eq(p['mu'].min, 0., 'parameters_of_the_fit')
        t.eq(p['mu'].max, y[-1], 'parameters_of_the_fit')
        d = prof if c == 0 else [prof[j] + err[j] * dev[c - 1, j] for j in range(ny)]

        def T(A, mu, sg):
            r = fn(p.at(A=A, mu=mu, sigma=sg))
            return np.sum(r * r)
        tot = sum(((gauss(y[j], 1.7, .4, 1.) / math.sqrt(2. * math.pi) - d[j]) / err[j]) ** 2 for j in rows)
        t.eq(T(1.7, .4, 1.), tot, 'what_the_fit_minimises', tol=1e-5)
        # the shape for other widths, whatever the units of the amplitude are
        G, D = ([sum(w[j] * gauss(y[j], 1., m, .3) ** k / err[j] ** 2 for j in rows) for m in (.3, .5)] for k, w in ((2, [1.] * ny), (1, d)))
        E = [T(1., m, .3) + T(-1., m, .3) - 2. * T(0., m, .3) for m in (.3, .5)]
        H = [T(1., m, .3) - T(-1., m, .3) for m in (.3, .5)]
        t.eq(E[0] * G[1], E[1] * G[0], 'shape_of_the_fit', tol=1e-5)
        t.eq(H[0] * D[1], H[1] * D[0], 'shape_of_the_fit', tol=1e-4)
        return dict(A=1., mu=.3, sigma=second if bounded else ws[c])
    repo.lm.hook = hook

    with rnd.numbers(t, normal=lambda k: dev[k // ny, k % ny]):
        if method:
            t.raises(ValueError, lambda: s.fit_emission_y_profile(g, ins), 'prepared_spectra_only')
            t.check(not calls, 'prepared_spectra_only')
            return
        repo.gu.fit_emission_y_profile(s, g, ins, num_MC=n)
    few = len(rows) * pix / fwhm < .8
    if not rows or few or fail is not None:
        for a in ('sigma_y_emis_obs', 'sigma_y_emis_int', 'D50'):
            t.eq(getattr(s, a), -99., 'missing_value')
            t.eq(getattr(s, a + '_err'), [-99., -99.], 'missing_value')
        t.check((len(calls) == 0) == (fail is None), 'no_fit_without_rows')
        return
    t.check(len(calls) == n + 1, 'repetitions')
    obs, wide = [], []
    for c, w in enumerate(ws):
        if w > top:
            w = second
            t.check(calls[c] == 1, 'fit_again_when_too_wide')
        else:
            t.check(calls[c] == 0, 'fit_again_when_too_wide')
        obs.append(w)
    inn = [(w ** 2 - (fwhm / F) ** 2) ** .5 if w > fwhm / F else 0. for w in obs]
    for a, v in (('sigma_y_emis_obs', obs), ('sigma_y_emis_int', inn), ('D50', [F * w for w in inn])):
        t.eq(getattr(s, a), v[0], 'width_' + a)
        t.eq(getattr(s, a + '_err'), [v[0] - pct(v[1:], 15.865), pct(v[1:], 84.135) - v[0]], 'error_' + a)
    t.eq(s.flux, f, 'data_kept')


def attach(t, repo, two=True, basic=False, mask=None, kind='wave', z=True):
    """a spectrum attached to a galaxy knows its rest wavelengths and has a mask"""
    np = t.np
    n = 4
    zz = t.real('z', 0., 5.) if z else None
    w, f = t.reals('w', n, 3000., 20000.), t.reals('f', (2, n) if two else n, -3., 3.)
    G = repo.gal.GalaxyBasic if basic else repo.gal.Galaxy
    g = G(z=zz)
    cls = (repo.gal.ObsSpectrum2DBasic if basic else repo.gal.ObsSpectrum2D) if two else repo.gal.ObsSpectrum1D
    kw = dict(wave=w.copy(), flux=f.copy(), flux_err=np.ones(np.shape(f)))
    if mask:
        m = t.reals('m', np.shape(f), 0., 1.)
        kw['spec_mask'] = m.copy()
    s = cls(**kw)
    s.spec_type = kind
    (g.set_spectrum_2D if two else g.set_spectrum_1D)(s)
    t.check((g.spec2D if two else g.spec1D) is s, 'attached')
    t.check(np.shape(s.spec_mask) == np.shape(f), 'mask')
    t.eq(s.spec_mask, m if mask else np.ones(np.shape(f)), 'mask')
    t.eq(s.flux, f, 'data_kept')
    t.eq(s.wave, w, 'data_kept')
    if z and kind == 'wave':
        t.eq(s.restwave * (1. + zz), w, 'rest_wavelengths')
        t.eq(s.obswave, w, 'observed_wavelengths')
        g.z = t.real('z2', 0., 5.)
        (g.set_spectrum_2D if two else g.set_spectrum_1D)(s)
        t.eq(s.restwave * (1. + g.z), w, 'rest_wavelengths_follow_the_redshift')
        if not basic or two:
            o = t.real('o', -9., 9.)
            (g.spec2D if two else g.spec1D).load_basic_defaults(g, units_flux='other', flux=f + o)
            t.check(s.units_flux == 'other', 'values_given_along')
            t.eq(s.flux, f + o, 'values_given_along')
            t.eq(s.restwave * (1. + g.z), w, 'values_given_along')
    if two and not basic:
        s2 = cls(**kw)
        s2._ensure_mask_weight()
        t.eq(s2.spec_weight, np.ones(np.shape(f)), 'weights')
        t.eq(s2.spec_mask, m if mask else np.ones(np.shape(f)), 'mask')


HARNESSES = [
    dict(name='size', fn=size, configs=[dict(n=1), dict(low=(0, 4), n=2, main=.25, reps=['any', .2]), dict(sky=(1,), low=(), n=3, main=.3, reps=[.1, 'any', .5]),
                                        dict(ny=6, pix=.1, fwhm=.6, low=(), n=1, reps=['any'], main=.15)],
         must_reach=['width_D50', 'error_D50', 'shape_of_the_fit']),
    dict(name='unfit', fn=size, configs=[dict(low=(0, 1, 2, 3, 4)), dict(low=(0, 1, 2, 3), fwhm=.9), dict(fail=0, main=.2), dict(fail=1, main=.2, n=2)],
         must_reach=['missing_value']),
    dict(name='unprepared', fn=size, configs=[dict(method=True)], must_reach=['prepared_spectra_only']),
    dict(name='attach', fn=attach, configs=[dict(), dict(mask=True), dict(basic=True), dict(basic=True, mask=True), dict(two=False), dict(two=False, mask=True),
                                            dict(z=False), dict(kind='velocity'), dict(two=False, z=False)], must_reach=['mask']),
]
