"""C23 the 1D fit: what is minimised, when it is repeated, what it reports, its errors and the instrument correction."""
import math
from . import common as K
from lib import lmstub, rnd

FUNCTIONS = ['fit1D.FitEmissionLines1D.__init__', 'fit1D.FitEmissionLines1D.setAttr', 'fit1D.FitEmissionLines1D.setup_spectrum',
             'fit1D.FitEmissionLines1D.make_params', 'fit1D.FitEmissionLines1D.fit', 'fit1D.FitEmissionLines1D.calculate_inst_corr_vel_disp',
             'emission_lines_model.EmissionLinesSpectrum1DModel.residual1DProfile', 'emission_lines_model.EmissionLinesSpectrum1DModel.make1DProfile']
BOUNDS = ('every flux of 3-6 channels, every starting value, every value a minimisation may return for every parameter, one and two line sets, '
          'continuum of order 0-2, 1-3 Monte Carlo realisations with every normal deviate, every dispersion and instrument resolution')
OUTSIDE = 'that lmfit finds the minimum of the sum it is given; more channels, lines and realisations; the plot'
ASSUMPTIONS = ['lmfit.minimize returns some value of each parameter within its bounds', 'the normal deviates are arbitrary']
setup_lifted = setup_real = lmstub.install

C = 299792.458
LIB = {'Halpha': [(6564.60, 1.)], 'Hbeta': [(4862.71, 1.)], 'OIII': [(5008.24, 1.), (4960.295, 0.333333)],
       'NII': [(6549.86, 0.333333), (6585.27, 1.)]}
E18 = 1e18


def gauss(t, x, mu, sig):
    return t.np.exp(-(x - mu) ** 2 / (2. * sig ** 2)) / (sig * math.sqrt(2. * math.pi))


def model(t, names, order, x, z, s, F, c, lib=None):
    r = 0.
    for i, n in enumerate(names):
        for w, q in (lib or LIB)[n]:
            mu = w * (1. + z)
            r = r + F[i] * q * gauss(t, x, mu, s / C * mu)
    for i in range(order + 1):
        r = r + c[i] * 1e-18 * x ** i
    return r


def spectrum(t, repo, lam0, z, n, step=6., mask=None, err=None, whole=False):
    """n channels about the line, two further ones outside of the range to be trimmed"""
    np = t.np
    x = [lam0 * (1. + z) + step * (k - n // 2) for k in range(n)]
    f = t.reals('d', n, -9., 9.)
    e = err or [.5 + .1 * ((3 * k) % 4) for k in range(n)]
    g = repo.gal.Galaxy(z=z, ID=7, field='F', maskname='m')
    W = np.array([x[0] - 400.] + x + [x[-1] + 400.])
    F = t.arr([1.] + [f[k] for k in range(n)] + [1.])
    if whole:
        # fluxes that are whole numbers, in an array of whole numbers
        f = [(5 * k + 3) % 7 - 2 for k in range(n)]
        F = np.array([1] + f + [1])
    M = None if mask is None else np.array([1.] + list(mask) + [1.])
    s1 = repo.gal.ObsSpectrum1D(wave=W, flux=F, flux_err=np.array([1.] + e + [1.]), spec_mask=M)
    g.set_spectrum_1D(s1)
    return g, x, f, e, [lam0 - 200., lam0 + 200.]


def fitter(t, repo, g, rng, names, order, R=40., **kw):
    ins = K.instrument(repo)
    ins.instrument_resolution = R
    return repo.f1.FitEmissionLines1D(galaxy=g, instrument=ins, names_arr=list(names), cont_order=order, trim_restwave_range=rng, **kw)


def pick(t, p, tag, z0, dl, neg):
    """any value of each parameter, within the bounds"""
    out = {}
    for k in p.free():
        q = p[k]
        if k == 'z':
            v = t.real(tag + k, z0 - dl, z0 + dl)
        elif k == 'vel_disp':
            v = t.real(tag + k, -300. if neg and q.min < 0. else 0., 300.)
        elif k.startswith('flux'):
            v = t.real(tag + k, -50. if neg and q.min < 0. else 0., 50.)
        else:
            v = t.real(tag + k, -3., 3.) * E18
        out[k] = v
    return out


def chisq(t, fn, p, **kw):
    r = fn(p.at(**kw))
    return t.np.sum(r * r)


def run(t, repo, names=('Halpha',), order=1, n=3, z=0., start_c=False, mask=None, err=None, dl=20., kwz=False, again=False):
    np = t.np
    lam0 = LIB[names[0]][0][0]
    g, x, f, e, rng = spectrum(t, repo, lam0, z, n, mask=mask, err=err)
    s0 = t.real('s0', 1., 300.)
    F0 = [t.real('F0%d' % i, -50., 50.) for i in range(len(names))]
    c0 = [t.real('c0%d' % i, -3., 3.) * E18 for i in range(order + 1)] if start_c else [0.] * (order + 1)
    kw = dict(cont_coeff=t.arr(c0)) if start_c else {}
    if dl != 20.:
        kw['del_obs_lam'] = dl
    fit = fitter(t, repo, g, rng, names, order, flux_arr=t.arr(F0), vel_disp=s0, **kw)
    tr = g.spec1D_trim
    t.eq(tr.obswave, x, 'fitted_channels', tol=1e-7)
    t.eq(tr.flux, f, 'fitted_channels')
    t.eq(tr.flux_err, e, 'fitted_channels')
    on = [k for k in range(n) if mask is None or mask[k] == 1]
    on = on if (not on or (on[0] == 0 and on[-1] == n - 1)) else None
    t.check(len(g.spec1D.flux) == n + 2, 'spectrum_kept')
    dz = dl / lam0
    calls = []
    # a candidate
    zz, ss = z + .3 * dz, 170.
    Fc = [t.real('Fc%d' % i, -50., 50.) for i in range(len(names))]
    cc = [t.real('cc%d' % i, -3., 3.) * E18 / 1000. ** i for i in range(order + 1)]
    keys = sorted(['z', 'vel_disp'] + ['flux%d' % i for i in range(len(names))] + ['cont_coeff%d' % i for i in range(order + 1)])
    got = []

    def hook(fn, p, args):
        k = len(calls)
        calls.append(p)
        t.check(k < 2, 'at_most_one_refit')
        t.check(p.free() == keys, 'free_parameters')
        t.eq(p['z'].value, z, 'start_redshift')
        t.eq(p['z'].min, z - dz, 'redshift_range')
        t.eq(p['z'].max, z + dz, 'redshift_range')
        t.eq(p['vel_disp'].value, s0, 'start_dispersion')
        for i in range(len(names)):
            t.eq(p['flux%d' % i].value, F0[i], 'start_fluxes')
        for i in range(order + 1):
            t.eq(p['cont_coeff%d' % i].value, c0[i], 'start_continuum')
        nb, fb = k == 1 and bool(got[0]['vel_disp'] < 0.), k == 1 and bool(got[0]['flux0'] < 0.)
        t.check((p['vel_disp'].min == 0.) == nb and (nb or p['vel_disp'].min == -math.inf), 'dispersion_bound')
        for i in range(len(names)):
            t.check((p['flux%d' % i].min == 0.) == fb and (fb or p['flux%d' % i].min == -math.inf), 'flux_bound')
        v = dict(z=zz, vel_disp=ss)
        v.update(('flux%d' % i, Fc[i]) for i in range(len(names)))
        v.update(('cont_coeff%d' % i, cc[i]) for i in range(order + 1))
        r = fn(p.at(**v))
        good = [j for j in (on or []) if e[j] > 0.]
        want = [((model(t, names, order, x[j], zz, ss, Fc, cc) - f[j]) / e[j]) for j in good]
        t.eq(np.sum(r * r), sum(w * w for w in want) + 0., 'what_is_minimised', tol=1e-5)
        w = pick(t, p, 'r%d' % k, z, dz, k == 0)
        got.append(w)
        # the model of the data is evaluated at the result: keep it in its domain
        if k == 1 or not (bool(w['vel_disp'] < 0.) or bool(w['flux0'] < 0.)):
            t.assume_ge(w['vel_disp'], 20.)
            w['vel_disp'] = w['vel_disp']
        return w
    repo.lm.hook = hook
    fit.fit(noErrors=True, noPlot=True)
    w = got[-1]
    bad = bool(got[0]['vel_disp'] < 0.) or bool(got[0]['flux0'] < 0.)
    t.check(len(calls) == (2 if bad else 1), 'refit_only_if_negative')
    check_result(t, fit, w, names, order)
    t.eq(fit.final_model, [model(t, names, order, v, w['z'], w['vel_disp'], fit.flux_arr, fit.cont_coeff) for v in x], 'model_of_the_result', tol=1e-6)
    for a, s in ((fit.z_err, (2,)), (fit.vel_disp_err, (2,)), (fit.flux_arr_err, (len(names), 2)), (fit.cont_coeff_err, (order + 1, 2))):
        t.check(np.shape(a) == s, 'shape_of_the_errors')
        t.eq(a, np.zeros(s), 'no_errors_asked_for')
    t.eq(g.z, z, 'galaxy_kept')
    t.eq(tr.flux, f, 'data_kept')


STR = {'HA6565': 1., 'HB4863': 1., 'OIII5008': 1., 'OIII4960': 0.333333, 'NII6550': 0.333333, 'NII6585': 1.}


def given(t, repo, names=('Halpha',), lines=None, waves=None, order=0):
    """lines and wavelengths as given, not those of the groups"""
    np = t.np
    n = 4
    lib = {}
    for i, nm in enumerate(names):
        ls = lines[i] if lines else [{6564.60: 'HA6565', 4862.71: 'HB4863', 5008.24: 'OIII5008', 4960.295: 'OIII4960', 6549.86: 'NII6550', 6585.27: 'NII6585'}[w] for w, _ in LIB[nm]]
        tab = {'HA6565': 6564.60, 'HB4863': 4862.71, 'OIII5008': 5008.24, 'OIII4960': 4960.295, 'NII6550': 6549.86, 'NII6585': 6585.27}
        lib[nm] = [(waves[i][k] if waves else tab[l], STR[l]) for k, l in enumerate(ls)]
    lam0 = lib[names[0]][0][0]
    g, x, f, e, rng = spectrum(t, repo, lam0, 0., n)
    kw = {}
    if lines:
        kw['linenames_arr'] = [list(l) for l in lines]
    if waves:
        kw['restwave_arr'] = [list(l) for l in waves]
    s0 = t.real('s0', 50., 300.)
    fit = fitter(t, repo, g, rng, names, order, flux_arr=np.array([1.] * len(names)), vel_disp=s0, **kw)
    dz = 20. / lam0
    zz, ss = .3 * dz, 170.
    Fc = [t.real('Fc%d' % i, -50., 50.) for i in range(len(names))]
    cc = [t.real('cc%d' % i, -3., 3.) * E18 for i in range(order + 1)]
    best = dict(z=t.real('bz', -dz, dz), vel_disp=t.real('bs', 20., 300.))
    best.update(('flux%d' % i, t.real('bf%d' % i, .1, 50.)) for i in range(len(names)))
    best.update(('cont_coeff%d' % i, t.real('bc%d' % i, -3., 3.) * E18) for i in range(order + 1))

    def hook(fn, p, args):
        t.eq(p['z'].min, -dz, 'redshift_range')
        t.eq(p['z'].max, dz, 'redshift_range')
        v = dict(z=zz, vel_disp=ss)
        v.update(('flux%d' % i, Fc[i]) for i in range(len(names)))
        v.update(('cont_coeff%d' % i, cc[i]) for i in range(order + 1))
        r = fn(p.at(**v))
        want = [(model(t, names, order, x[j], zz, ss, Fc, cc, lib) - f[j]) / e[j] for j in range(n)]
        t.eq(np.sum(r * r), sum(w * w for w in want), 'given_lines_are_fitted', tol=1e-5)
        return best
    repo.lm.hook = hook
    fit.fit(noErrors=True, noPlot=True)
    check_result(t, fit, best, names, order)
    t.eq(fit.final_model, [model(t, names, order, v, best['z'], best['vel_disp'], fit.flux_arr, fit.cont_coeff, lib) for v in x],
         'model_of_the_given_lines', tol=1e-6)


def check_result(t, fit, w, names, order):
    t.eq(fit.z, w['z'], 'redshift_reported')
    t.eq(fit.vel_disp, w['vel_disp'], 'dispersion_reported')
    t.check(len(fit.flux_arr) == len(names) and len(fit.cont_coeff) == order + 1, 'values_reported')
    for i in range(len(names)):
        t.eq(fit.flux_arr[i], w['flux%d' % i], 'fluxes_reported')
    for i in range(order + 1):
        t.eq(fit.cont_coeff[i] * 1e-18, w['cont_coeff%d' % i] * 1e-18, 'continuum_reported')


P = (.15865, .84135)


def quant(v, p):
    """v sorted"""
    h = (len(v) - 1) * p
    i = min(int(h), len(v) - 2) if len(v) > 1 else 0
    return v[i] + (v[i + 1] - v[i]) * (h - i) if len(v) > 1 else v[0]


def ordered(t, name, n, lo, hi, perm):
    """n values whose order is perm: sorted, and as drawn"""
    v = [t.real('%s%d' % (name, k), lo, hi) if k == 0 else t.real('%s%d' % (name, k), 1e-6 * (hi - lo), hi - lo) for k in range(n)]
    for k in range(1, n):
        v[k] = v[k - 1] + v[k]
    return v, [v[k] for k in perm]


def errors(t, repo, names=('Halpha',), order=0, nmc=2, reload=False, perms=None, two=False, whole=False):
    """fluxes perturbed by their errors, the scatter of the results is the error"""
    np = t.np
    n = 3
    lam0 = LIB[names[0]][0][0]
    g, x, f, e, rng = spectrum(t, repo, lam0, 0., n, whole=whole)
    fit = fitter(t, repo, g, rng, names, order, flux_arr=np.array([1.] * len(names)), vel_disp=100.)
    fit.num_MC = nmc
    keys = ['z', 'vel_disp'] + ['flux%d' % i for i in range(len(names))] + ['cont_coeff%d' % i for i in range(order + 1)]
    dz = 20. / lam0
    best = dict(z=t.real('bz', -dz, dz), vel_disp=t.real('bs', 20., 300.))
    for k in keys[2:]:
        best[k] = t.real('b' + k, .1, 50.) if k.startswith('flux') else t.real('b' + k, -3., 3.) * E18
    perms = perms or [list(range(nmc))]
    srt, drawn = {}, {}
    for i, k in enumerate(keys):
        lo, hi = (-dz, dz) if k == 'z' else (-300., 300.) if k == 'vel_disp' else (-50., 50.)
        srt[k], drawn[k] = ordered(t, 'm' + k, nmc, lo, hi, perms[i % len(perms)])
        if k.startswith('cont'):
            srt[k], drawn[k] = [v * E18 for v in srt[k]], [v * E18 for v in drawn[k]]
    calls = []
    dev = {}

    def normal(k):
        if k not in dev:
            dev[k] = t.real('n%d' % k, -4., 4.)
        return dev[k]

    def hook(fn, p, args):
        k = len(calls)
        calls.append(p)
        if k == 0:
            return best
        t.check(not reload, 'no_fits_when_reloaded')
        t.check(k <= nmc, 'one_fit_per_realisation')
        t.check(p.free() == sorted(keys), 'free_parameters')
        for q in keys:
            t.eq(p[q].value * (1e-18 if q[0] == 'c' else 1.), best[q] * (1e-18 if q[0] == 'c' else 1.), 'realisations_start_from_the_best_fit')
        t.eq(p['z'].min, -dz, 'redshift_range')
        t.eq(p['z'].max, dz, 'redshift_range')
        v = dict(z=.2 * dz, vel_disp=150.)
        for q in keys[2:]:
            v[q] = 2. if q.startswith('flux') else 0.
        r = fn(p.at(**v))
        want = 0.
        for j in range(n):
            m = model(t, names, order, x[j], v['z'], 150., [2.] * len(names), [0.] * (order + 1))
            want = want + ((m - f[j]) / e[j] - normal((k - 1) * n + j)) ** 2
        t.eq(np.sum(r * r), want, 'perturbed_by_the_errors', tol=1e-5)
        return {q: drawn[q][k - 1] for q in keys}
    repo.lm.hook = hook
    store = {}
    fit.save_mc_sim_matrix = lambda m, line='none', err_filename=None: store.update(m=m.copy(), name=err_filename)
    M = t.arr([[drawn[q][k] for q in keys] for k in range(nmc)])
    fit.load_mc_sim_matrix = lambda line='none', err_filename=None: M.copy() if err_filename == 'x' else None
    with rnd.numbers(t, normal=normal):
        fit.fit(noPlot=True, err_filename='x', reload_errors=reload)
    t.check(len(calls) == (1 if reload else 1 + nmc), 'one_fit_per_realisation')
    if not reload:
        t.check(store.get('name') == 'x', 'realisations_saved')
        t.check(np.shape(store['m']) == (nmc, len(keys)), 'realisations_saved')
        for k in range(nmc):
            for i, q in enumerate(keys):
                u = 1e-18 if q[0] == 'c' else 1.
                t.eq(store['m'][k, i] * u, drawn[q][k] * u, 'realisations_saved')
    check_result(t, fit, best, names, order)
    got = dict(z=fit.z_err, vel_disp=fit.vel_disp_err)
    t.check(np.shape(fit.flux_arr_err) == (len(names), 2) and np.shape(fit.cont_coeff_err) == (order + 1, 2), 'shape_of_the_errors')
    for i in range(len(names)):
        got['flux%d' % i] = fit.flux_arr_err[i]
    for i in range(order + 1):
        got['cont_coeff%d' % i] = fit.cont_coeff_err[i]
    for q in keys:
        u = 1e-18 if q[0] == 'c' else 1.
        t.check(np.shape(got[q]) == (2,), 'shape_of_the_errors')
        t.eq(got[q][0] * u, (best[q] - quant(srt[q], P[0])) * u, 'lower_error', tol=1e-5)
        t.eq(got[q][1] * u, (quant(srt[q], P[1]) - best[q]) * u, 'upper_error', tol=1e-5)
    t.eq(g.spec1D_trim.flux, f, 'data_kept')


def refused(t, repo):
    np = t.np
    g, x, f, e, rng = spectrum(t, repo, 6564.60, 0., 3)
    fit = fitter(t, repo, g, rng, ['Halpha'], 0, flux_arr=np.array([1.]), vel_disp=100., R=t.real('R', -50., -.001))
    repo.lm.hook = lambda fn, p, a: dict(z=0., vel_disp=50., flux0=1., cont_coeff0=0.)
    t.raises(ValueError, lambda: fit.fit(noErrors=True, noPlot=True), 'negative_resolution_refused')
    fit.instrument.instrument_resolution = 30.
    fit.num_MC = 1
    t.raises(ValueError, lambda: fit.fit(noPlot=True), 'errors_need_a_file')
    t.raises(ValueError, lambda: fit.fit(noPlot=True, reload_errors=True), 'errors_need_a_file')
    t.raises(ValueError, lambda: fit.fit(noErrors=True), 'plot_needs_a_file')
    t.raises(ValueError, lambda: fit.calculate_inst_corr_vel_disp(), 'errors_need_a_file')
    t.raises(ValueError, lambda: fitter(t, repo, g, rng, ['Halpha'], 0, flux_arr=np.array([1.]), vel_disp=100., shape1D='lorentzian'),
             'other_shapes_refused')


def lines(t, repo, names=('OIII', 'Halpha'), given=False, z=1.3):
    """line lists, redshift and the range of the line from the library"""
    np = t.np
    lam = LIB[names[0]][0][0]
    rng = {'Halpha': (6480., 6650.), 'OIII': (4930., 5060.), 'Hbeta': (4800., 4920.)}[names[0]]
    g = repo.gal.Galaxy(z=z, ID=7, field='F')
    w = [(rng[0] - 1.) * (1. + z), (rng[0] + 1.) * (1. + z), lam * (1. + z), (rng[1] - 1.) * (1. + z), (rng[1] + 1.) * (1. + z)]
    f, m = t.reals('f', 5, -9., 9.), [1., 1., 0., 1., 1.]
    s1 = repo.gal.ObsSpectrum1D(wave=np.array(w), flux=f.copy(), flux_err=np.ones(5), spec_mask=np.array(m))
    g.set_spectrum_1D(s1)
    kw = dict(linenames_arr=[['A', 'B'], ['C']], restwave_arr=[[1., 2.], [3.]]) if given else {}
    fit = repo.f1.FitEmissionLines1D(galaxy=g, instrument=K.instrument(repo), names_arr=list(names), flux_arr=np.ones(len(names)), vel_disp=50.,
                                     z=9., **kw)
    t.eq(fit.z, z, 'starts_at_the_redshift_of_the_galaxy')
    want = [[1., 2.], [3.]] if given else [[v[0] for v in LIB[q]] for q in names]
    t.check(len(fit.restwave_arr) == len(want) and all(len(a) == len(b) for a, b in zip(fit.restwave_arr, want)), 'lines_of_the_sets')
    for a, b in zip(fit.restwave_arr, want):
        t.eq(list(a), b, 'lines_of_the_sets')
    t.eq(g.spec1D_trim.wave, w[1:4], 'range_of_the_first_line')
    t.eq(g.spec1D_trim.flux, f[1:4], 'range_of_the_first_line')
    t.eq(g.spec1D_trim.spec_mask, m[1:4], 'range_of_the_first_line')


def edge(t, repo, lo, hi, ne=2, n=9):
    """channels next to a masked end are masked as well"""
    np = t.np
    mask = [1. if lo <= k <= hi else 0. for k in range(n)]
    g, x, f, e, rng = spectrum(t, repo, 6564.60, 0., n, mask=mask)
    g.spec1D.num_mask_edge = ne
    want = list(mask)
    if lo > 0:
        for k in range(lo, min(lo + ne, n)):
            want[k] = 0.
    if hi < n - 1:
        for k in range(max(hi - ne + 1, 0), hi + 1):
            want[k] = 0.
    fit = fitter(t, repo, g, rng, ['Halpha'], 0, flux_arr=np.array([1.]), vel_disp=100.)
    t.eq(g.spec1D_trim.spec_mask, want, 'edges_masked')
    t.eq(g.spec1D.spec_mask, [1.] + mask + [1.], 'spectrum_kept')
    rest = [k for k in range(n) if want[k] == 1.]
    F = t.real('F', -9., 9.)

    def hook(fn, p, a):
        r = fn(p.at(z=0., vel_disp=100., flux0=F, cont_coeff0=0.))
        ref = [(model(t, ['Halpha'], 0, x[k], 0., 100., [F], [0.]) - f[k]) / e[k] for k in rest]
        t.eq(np.sum(r * r), sum(v * v for v in ref) + 0., 'masked_channels_not_fitted', tol=1e-5)
        return dict(z=0., vel_disp=50., flux0=1., cont_coeff0=0.)
    repo.lm.hook = hook
    fit.fit(noErrors=True, noPlot=True)


def instcorr(t, repo, nmc=0, perm=(0, 1, 2), none=False, below=0):
    np = t.np
    g, x, f, e, rng = spectrum(t, repo, 6564.60, 0., 3)
    R = t.real('R', 0., 200.)
    fit = fitter(t, repo, g, rng, ['Halpha'], 0, flux_arr=np.array([1.]), vel_disp=100., R=None if none else R)
    s = t.real('s', -400., 400.)
    fit.vel_disp = s
    if none:
        fit.calculate_inst_corr_vel_disp(noErrors=True)
        t.check(getattr(fit, 'vel_disp_inst_corr', None) is None, 'no_resolution')
        return
    if nmc:
        u = [t.real('u%d' % k, 0., 300.) for k in range(nmc)]
        for k in range(nmc - 1):
            t.assume(u[k] <= u[k + 1])
        for k in range(nmc):
            if k < below:
                t.assume(u[k] <= R - 1e-3)
            else:
                t.assume(u[k] >= R + 1e-3)
        sgn = [1., -1., 1.]
        M = t.arr([[7., sgn[k] * u[k], 8., 9.] for k in perm[:nmc]])
        fit.load_mc_sim_matrix = lambda line='none', err_filename=None: M.copy() if err_filename == 'x' else None
        fit.calculate_inst_corr_vel_disp(err_filename='x')
    else:
        fit.calculate_inst_corr_vel_disp(noErrors=True)
    c = fit.vel_disp_inst_corr
    # no correction is larger than the dispersion; quadrature
    if bool(abs(s) > R):
        t.eq(c * c, s * s - R * R, 'quadrature', tol=1e-4)
        t.check(c >= 0., 'not_negative')
    else:
        t.eq(c, 0., 'below_the_resolution')
    t.check(np.shape(fit.vel_disp_inst_corr_err) == (2,), 'shape_of_the_errors')
    er = fit.vel_disp_inst_corr_err
    if not nmc:
        t.eq(er, [0., 0.], 'no_errors_asked_for')
        return
    v = [0. if k < below else np.sqrt(u[k] * u[k] - R * R) for k in range(nmc)]
    t.eq(er[0], c - quant(v, P[0]), 'lower_error', tol=1e-5)
    t.eq(er[1], quant(v, P[1]) - c, 'upper_error', tol=1e-5)
    t.eq(fit.vel_disp, s, 'dispersion_kept')


HARNESSES = [
    dict(name='run', fn=run, configs=[dict(), dict(start_c=True, order=2, z=.4), dict(names=['OIII'], order=0, dl=8.),
                                      dict(names=['Halpha', 'NII'], order=1, n=4), dict(n=4, mask=[1, 0, 1, 1], order=0, err=[.5, .4, 0., .7])],
         must_reach=['what_is_minimised', 'refit_only_if_negative']),
    dict(name='errors', fn=errors, configs=[dict(), dict(order=1, nmc=3, perms=[[0, 1, 2], [2, 0, 1], [1, 2, 0]]), dict(nmc=1), dict(whole=True),
                                            dict(names=['Halpha', 'NII'], nmc=2, perms=[[0, 1], [1, 0]]),
                                            dict(names=['OIII', 'Hbeta'], order=1, nmc=3, reload=True, perms=[[2, 1, 0], [0, 2, 1], [1, 0, 2]])],
         must_reach=['lower_error', 'upper_error']),
    dict(name='refused', fn=refused),
    dict(name='lines', fn=lines, configs=[dict(), dict(names=['Halpha'], z=0.), dict(given=True), dict(names=['Hbeta', 'OIII'], z=2.)]),
    dict(name='given', fn=given, configs=[dict(waves=[[6700.5]]), dict(lines=[['OIII5008', 'OIII4960']]), dict(lines=[['HB4863', 'OIII5008']], waves=[[5100., 5110.5]], order=1),
                                          dict(names=['Halpha', 'NII'], waves=[[6560.], [6547., 6586.]])],
         must_reach=['given_lines_are_fitted', 'model_of_the_given_lines']),
    dict(name='edge', fn=edge, configs=[dict(lo=0, hi=8), dict(lo=1, hi=8), dict(lo=0, hi=6), dict(lo=2, hi=7, ne=1), dict(lo=3, hi=4)]),
    dict(name='instcorr', fn=instcorr, configs=[dict(), dict(none=True), dict(nmc=3, perm=[2, 0, 1]), dict(nmc=3, perm=[0, 2, 1], below=1),
                                                dict(nmc=2, perm=[1, 0], below=2), dict(nmc=1, perm=[0])]),
]
