"""C15 objects don't influence each other through shared state."""
from . import common as K
from .c10 import off_axis, theta, WAVE, PIX

FUNCTIONS = ['kin_model.KinModel2D.__init__', 'kin_model.KinModel2D.copy', 'kin_model.KinModel2D.make_model',
             'kin_model.KinModel2D.update_model', 'fit2D.FitEmissionLines2D.__init__', 'fit1D.FitEmissionLines1D.__init__',
             'kin_classes.KinProfileFiducial', 'kin_classes.IntensityProfileFiducial', 'kin_classes.Theta2DSettings',
             'kin_model.KinModel2DOptions', 'galaxy.GalaxyBasic.copy', 'galaxy.Spectrum.copy', 'instrument.Instrument.copy',
             'aper_model.AperModel2D.update_model', 'instrument.PSF.set_conv_stamp', 'aper_model.AperModel1DRot.__init__']
BOUNDS = ('every amplitude, turnover, dispersion and (where listed) centre shift and redshift of two models of 1-2 rows x 2 channels '
          'evaluated alternately; every number reachable from a galaxy, spectrum, instrument, model, option set, fit or result and its copy; every value stored in one object after the other was made')
OUTSIDE = 'more than two interleaved objects; objects shared on purpose through the caller\'s own arrays; threads'
ASSUMPTIONS = ['exp, arctan, sqrt are uninterpreted apart from functional-equation and monotonicity facts']



def interleaved(t, repo, vary=('va', 'rt', 's0'), share=('galaxy', 'instrument', 'options', 'kin', 'int'), fwhm=0., res=0.,
                order='abab', noscale=True, ny=1, opts={}, copy=False, psf='Gaussian'):
    """two models evaluated in turn (objects shared as listed) give what each gives alone"""
    np = t.np
    th = {}
    for k, w in enumerate(order):
        prev = [j for j in range(k) if order[j] == w or copy and j == 0]
        th[k] = theta(t, k, vary, th[prev[-1]] if prev else None)
    dx = PIX
    p = int(round(fwhm * .5 / dx))
    par = {'a': dict(q=.6, delt_PA=25., m0=.3 if ny == 1 else .7, n=1., re_arcsec=.5),
           'b': dict(q=.5, delt_PA=-40., m0=.2 if ny == 1 else .4, n=1., re_arcsec=.3)}
    names = ['V_a', 'r_t', 'sigma0', 'm0_shift', 'z']

    def gal(w):
        kw = {} if noscale else dict(flux=np.array([[1., 2.], [3., -.5]][:ny]), err=np.array([[.5, .25], [.3, .7]][:ny]))
        return K.galaxy(t, repo, ny=ny, **dict(par['a' if 'galaxy' in share else w], **dict(WAVE, **kw)))

    def ins(w):
        f = fwhm if w == 'a' or 'instrument' in share else fwhm * 2.
        kw = dict(PSF_beta=2.5) if psf == 'Moffat' else {}
        return K.instrument(repo, pixscale=PIX, slit_width=.2, PSF_FWHM=f, instrument_resolution=res, PSF_type=psf, **kw)

    def options():
        return repo.km.KinModel2DOptions(**dict(dict(nSubpixels=1, pad_factor=.5, adaptive_upsample_wave=False, sigma_floor=False), **opts))

    def build(w, g, i, o, kp, ip):
        S = repo.kc.Theta2DSettings(theta=np.array([100., .5, 60., 0., 0.]), theta_vary=np.array([True] * 5), theta_names=names,
                                    theta_names_nice=list(names))
        d = {}
        if kp is not None:
            d['kinProfile'] = kp
        if ip is not None:
            d['intensityProfile'] = ip
        m = repo.km.KinModel2D(g, thetaSettings=S, kinModelOptions=o, **d)
        m.no_scale = noscale
        return m

    for w in 'ab':
        g = gal(w)
        for k, v in enumerate(order):
            if v == w:
                off_axis(t, g, repo, th[k], ny, 1, 1, p, p, dx)
    shared = dict(galaxy=gal('a'), instrument=ins('a'), options=options(), kin=repo.kc.KinProfileFiducial())
    shared['int'] = repo.kc.IntensityProfileFiducial(shared['galaxy'])

    def pick(w, fresh):
        g = shared['galaxy'] if 'galaxy' in share and not fresh else gal(w)
        i = shared['instrument'] if 'instrument' in share and not fresh else ins(w)
        o = shared['options'] if 'options' in share and not fresh else options()
        kp = (shared['kin'] if not fresh else repo.kc.KinProfileFiducial()) if 'kin' in share else None
        ip = (shared['int'] if not fresh else repo.kc.IntensityProfileFiducial(g)) if 'int' in share else None
        return g, i, o, kp, ip
    objs = {w: pick(w, False) for w in 'ab'}
    M = {w: build(w, *objs[w]) for w in 'ab'}
    fresh_made = {}
    got = []
    for k, w in enumerate(order):
        if copy and k == 1:
            M['b'] = M['a'].copy()
            fresh_made['b'] = True
        if w not in fresh_made:
            M[w].make_model(galaxy=objs[w][0], instrument=objs[w][1], theta_fitting=np.array(th[k]))
            fresh_made[w] = True
        else:
            M[w].update_model(theta_fitting=np.array(th[k]))
        got.append((M[w].model, M[w].aperModel.spectra_cube))
    for k, w in enumerate(order):
        v = 'a' if copy else w
        g, i, o, kp, ip = pick(v, True)
        f = build(v, g, i, o, kp, ip)
        f.make_model(galaxy=g, instrument=i, theta_fitting=np.array(th[k]))
        t.check(got[k][0].shape == f.model.shape, 'same_shape_as_alone')
        t.eq(got[k][0], f.model, 'same_model_as_alone')
        t.eq(got[k][1], f.aperModel.spectra_cube, 'same_cube_as_alone')


def defaults(t, repo):
    """defaults are made anew for each object"""
    np = t.np
    a = t.reals('a', 5, 1., 9.)
    g, g2 = (K.galaxy(t, repo, ny=1, m0=.3, flux=np.array([[1., 2.]]), **WAVE) for k in range(2))
    for x in (g, g2):
        x.spec2D.linenames_arr = ['HA']
    i = K.instrument(repo, pixscale=.2, slit_width=.2)

    def apart(mk, names, what):
        p, q = mk(), mk()
        for n in names:
            u, v = getattr(p, n), getattr(q, n)
            t.check(u is not None and u is not v, what)
        return p, q
    p, q = apart(lambda: repo.km.KinModel2D(g), ('kinProfile', 'intensityProfile', 'kinModelOptions', 'theta'), 'default_objects_of_two_models')
    before = [v for v in q.theta]
    for k in range(5):
        p.theta[k] = a[k]
    p.kinProfile.update_theta(a)
    p.kinModelOptions.nSubpixels = 7
    t.eq(q.theta, before, 'other_parameters_kept')
    t.eq(q.kinProfile.velProfile.theta, before[:2], 'other_velocity_profile_kept')
    t.eq(q.kinProfile.dispProfile.theta, before[2:3], 'other_dispersion_profile_kept')
    r = repo.km.KinModel2D(g)
    t.eq(r.theta, before, 'later_model_has_the_defaults')
    t.eq(r.theta_init, before, 'later_model_has_the_defaults')
    t.check(r.kinModelOptions.nSubpixels == q.kinModelOptions.nSubpixels != 7, 'default_options_kept')
    p, q = apart(repo.kc.KinProfileFiducial, ('velProfile', 'dispProfile'), 'profiles_of_two_defaults')
    p.velProfile.theta[0] = a[0]
    p.dispProfile.theta[0] = a[1]
    t.eq(q.velProfile.theta[0], 0., 'other_velocity_profile_kept')
    t.eq(q.dispProfile.theta[0], 0., 'other_dispersion_profile_kept')
    t.eq(repo.kc.KinProfileFiducial().velProfile.theta, [0., 0.], 'later_profile_has_the_defaults')
    p, q = apart(lambda: repo.f2.FitEmissionLines2D(galaxy=g, instrument=i, skip_fit_prep_calcs=True),
                 ('kinProfile', 'intensityProfile', 'kinModelOptions', 'mcmcOptions', 'mcmc_results'), 'default_objects_of_two_fits')
    p.kinProfile.update_theta(a)
    t.eq(q.kinProfile.velProfile.theta, [0., 0.], 'other_velocity_profile_kept')
    p.intensityProfile.intProfile_r.re_arcsec = a[0]
    t.eq(q.intensityProfile.intProfile_r.re_arcsec, .5, 'other_intensity_profile_kept')
    p.mcmcOptions.nWalkers = 7
    t.check(q.mcmcOptions.nWalkers != 7, 'other_sampling_options_kept')
    S = [repo.kc.Theta2DSettings() if k else repo.kc.Theta2DSettingsFiducial() for k in (0, 0, 1, 1)] \
        if hasattr(repo.kc, 'Theta2DSettingsFiducial') else []
    for x, y in ((0, 1), (2, 3)):
        if not S:
            break
        if S[x].theta is not None:
            b4 = [v for v in S[y].theta]
            S[x].theta[0] = a[0]
            t.eq(S[y].theta, b4, 'other_settings_kept')


def copies(t, repo):
    """a copy is independent of its original: changing one, however deep, leaves the other"""
    np = t.np
    a, b = t.reals('a', 8, 1., 9.), t.reals('b', 8, 10., 20.)
    g = K.galaxy(t, repo, ny=1, m0=.3, flux=t.arr(np.zeros((1, 2))), **WAVE)
    s = g.spec2D
    s.flux[0, 0], s.flux_err[0, 0] = a[0], a[1]
    g.n, g.z = a[2], a[3]
    h = g.copy()
    t.check(type(h) is type(g), 'copy_of_the_same_kind')
    t.eq([h.spec2D.flux[0, 0], h.spec2D.flux_err[0, 0], h.n, h.z], a[:4], 'copy_equals_the_galaxy')
    h.spec2D.flux[0, 0], h.spec2D.flux_err[0, 0], h.n, h.z = b[:4]
    t.eq([s.flux[0, 0], s.flux_err[0, 0], g.n, g.z], a[:4], 'galaxy_kept_when_its_copy_changes')
    s.flux[0, 0] = b[4]
    t.eq(h.spec2D.flux[0, 0], b[0], 'copy_kept_when_the_galaxy_changes')
    for mk in (lambda: repo.gal.ObsSpectrum1D(wave=np.array([1., 2.]), flux=np.array(a[:2]), flux_err=np.array(a[2:4]),
                                              spec_mask=np.array(a[4:6])),
               lambda: repo.gal.ObsSpectrum2D(wave=np.array([1., 2.]), flux=np.array([a[:2]]), flux_err=np.array([a[2:4]]),
                                              spec_mask=np.array([a[4:6]]))):
        x = mk()
        y = x.copy()
        t.check(type(x) is type(y), 'copy_of_the_same_kind')
        for k, n in enumerate(('flux', 'flux_err', 'spec_mask')):
            u, v = getattr(x, n), getattr(y, n)
            t.eq(v.ravel(), a[2 * k:2 * k + 2], 'copy_equals_the_spectrum')
            v[..., 0] = b[k]
            t.eq(u.ravel(), a[2 * k:2 * k + 2], 'spectrum_kept_when_its_copy_changes')
            u[..., 1] = b[k + 3]
            t.eq(v.ravel(), [b[k], a[2 * k + 1]], 'copy_kept_when_the_spectrum_changes')
    i = K.instrument(repo, pixscale=.2, slit_width=.2, PSF_FWHM=.5, instrument_resolution=40.)
    j = i.copy()
    j.instrument_resolution, j.PSF.PSF_FWHM = a[0], a[1]
    t.eq([i.instrument_resolution, i.PSF.PSF_FWHM], [40., .5], 'instrument_kept_when_its_copy_changes')
    o = repo.km.KinModel2DOptions()
    c = o.copy()
    c.nSubpixels = 11
    t.check(o.nSubpixels != 11, 'options_kept_when_their_copy_changes')
    names = ['V_a', 'r_t', 'sigma0', 'm0_shift', 'z']
    S = repo.kc.Theta2DSettings(theta=np.array(a[:5]), theta_vary=np.array([True] * 5), theta_names=names, theta_names_nice=list(names))
    m = repo.km.KinModel2D(g, thetaSettings=S)
    c = m.copy()
    c.update_parameters(np.array(b[:5]))
    c.update_profiles()
    t.eq(m.theta, a[:5], 'model_kept_when_its_copy_changes')
    t.eq(m.kinProfile.velProfile.theta, a[:2], 'profile_kept_when_the_copy_changes')
    t.eq(c.kinProfile.velProfile.theta, b[:2], 'profile_of_the_copy_changed')
    t.eq(c.theta, b[:5], 'copy_has_its_parameters')
    t.eq(S.theta, a[:5], 'settings_kept')


def nodes(np, x, path='', seen=None):
    """every object, list, dictionary and array that can be reached from x, once"""
    seen = {} if seen is None else seen
    if id(x) in seen:
        return []
    if isinstance(x, (list, dict, np.ndarray)) or (hasattr(x, '__dict__') and type(x).__module__.startswith('misfit') and not isinstance(x, type)):
        seen[id(x)] = x
    else:
        return []
    r = [(path, x)]
    if isinstance(x, np.ndarray):
        return r
    sub = enumerate(x) if isinstance(x, list) else x.items() if isinstance(x, dict) else sorted(vars(x).items())
    for k, v in list(sub):
        r += nodes(np, v, '%s.%s' % (path, k), seen)
    return r


def number(x):
    return not isinstance(x, (str, bytes, bool, type(None))) and (isinstance(x, (int, float)) or hasattr(x, 'p'))


def content(np, x):
    """what a node holds itself"""
    if isinstance(x, np.ndarray):
        return list(x.ravel()) if x.dtype.kind in 'fiubO' else []
    if isinstance(x, list):
        return list(x)
    return [v for k, v in sorted((x if isinstance(x, dict) else vars(x)).items(), key=lambda q: str(q[0]))]


def deep(t, repo, kind, other=False):
    """nothing that can be reached from a copy changes the original, or the other way around"""
    np = t.np
    a = t.reals('a', 8, 1., 9.)
    d = t.reals('d', 3, 20., 30.)
    g = K.galaxy(t, repo, ny=1, m0=.3, flux=t.arr(np.zeros((1, 2))), **WAVE)
    g.spec2D.flux[0, 0], g.spec2D.flux_err[0, 0] = a[0], a[1]
    g.n, g.z = a[2], a[3]
    g.spec2D.linenames_arr = ['HA']
    g.pstamp = repo.gal.Pstamp(img_PA=a[4])
    g.pstamp.pstamp = np.array([[a[5], 1.]])
    g.set_spectrum_1D(repo.gal.ObsSpectrum1D(wave=np.array([1., 2.]), flux=np.array(a[:2]), flux_err=np.array(a[2:4]),
                                             spec_mask=np.array([1., 1.])))
    i = K.instrument(repo, pixscale=.2, slit_width=.2, PSF_FWHM=.5, instrument_resolution=40.)
    i.PSF.set_conv_stamp(np.array([[[a[6], 1.]]]))
    names = ['V_a', 'r_t', 'sigma0', 'm0_shift', 'z']
    S = repo.kc.Theta2DSettings(theta=np.array(a[:5]), theta_vary=np.array([True] * 5), theta_names=names, theta_names_nice=list(names))
    if kind == 'galaxy':
        x = g
    elif kind == 'instrument':
        x = i
    elif kind == 'spectrum':
        x = g.spec2D
    elif kind == 'model':
        x = repo.km.KinModel2D(galaxy=g, instrument=i, thetaSettings=S)
    elif kind == 'options':
        x = repo.km.KinModel2DOptions()
    elif kind == 'mcmc options':
        x = repo.fc.MCMC2DOptions()
    elif kind == 'results':
        x = repo.fc.FitEmissionLines2DResults(galaxy=g, instrument=i, thetaSettings=S)
        x.mcmc_results.bestfit_theta = np.array(a[:3])
    else:
        x = repo.f2.FitEmissionLines2D(galaxy=g, instrument=i, thetaSettings=S, skip_fit_prep_calcs=True)
    y = x.copy()
    t.check(type(y) is type(x), 'copy_of_the_same_kind')
    if other:
        x, y = y, x
    nx, ny = nodes(np, x), nodes(np, y)
    before = [content(np, v) for p, v in nx]
    copied = dict(ny)
    for (p, v), b in zip(nx, before):
        # caches may be left out of a copy
        if p in copied and type(copied[p]) is type(v):
            c = content(np, copied[p])
            for u, w in zip(c, b) if len(b) == len(c) else ():
                if number(u) and number(w) and not bool(t.isnan(w)):
                    t.eq(u, w, 'copy_has_the_same_values')
    for k, (p, v) in enumerate(ny):
        new = d[k % 3]
        if isinstance(v, np.ndarray):
            if v.dtype.kind in 'fO' and v.size:
                try:
                    v[...] = new
                except Exception:
                    v[...] = 77.
        elif isinstance(v, list):
            v.append(new)
        elif isinstance(v, dict):
            v['new'] = new
        else:
            for n, w in list(vars(v).items()):
                if number(w):
                    v.__dict__[n] = new
    for (p, v), b in zip(nx, before):
        c = content(np, v)
        t.check(len(b) == len(c), 'original_kept_when_its_copy_changes')
        for u, w in zip(c, b):
            if number(u) and number(w):
                if not bool(t.isnan(w)):
                    t.eq(u, w, 'original_kept_when_its_copy_changes')
            else:
                t.check(number(u) == number(w), 'original_kept_when_its_copy_changes')


ALL = dict(adaptive_upsample_wave=True, sigma_floor=True)
HARNESSES = [
    dict(name='interleaved', fn=interleaved, configs=[
        dict(), dict(share=()), dict(share=('instrument',), vary=('va', 'shift'), fwhm=.4),
        dict(share=('galaxy',), vary=('va',), fwhm=.2),
        dict(share=('instrument',), vary=('va',), fwhm=.4, psf='Moffat', order='ab'),
        dict(share=('instrument', 'options'), vary=('s0', 'z'), opts=ALL), dict(share=('galaxy', 'kin'), vary=('s0', 'shift')),
        dict(share=('instrument',), vary=('va', 's0'), res=60.), dict(share=('galaxy', 'instrument'), vary=('va', 's0'), noscale=False, order='aba'),
        dict(copy=True, order='aba'), dict(copy=True, order='aab', vary=('va', 'shift'), fwhm=.2), dict(share=('options',), ny=2, order='abba')],
        thorough=[dict(vary=('va', 'rt', 's0', 'shift', 'z'), order='ababab'), dict(share=('instrument', 'galaxy'), ny=2, fwhm=.4, res=40.),
                  dict(copy=True, order='abab', vary=('va', 'rt', 's0', 'shift', 'z'))]),
    dict(name='defaults', fn=defaults),
    dict(name='copies', fn=copies),
    dict(name='deep', fn=deep, configs=[dict(kind=k) for k in ('galaxy', 'instrument', 'spectrum', 'model', 'options', 'mcmc options',
                                                               'results', 'fit')] + [dict(kind='galaxy', other=True), dict(kind='fit', other=True)]),
]
