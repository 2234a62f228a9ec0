"""C10 a model depends on its current parameters only, not on the ones it had before."""
import math
from . import common as K

FUNCTIONS = ['kin_model.KinModel2D.make_model', 'kin_model.KinModel2D.update_model',
             'kin_model.KinModel2D.update_parameters', 'kin_model.KinModel2D.make_3D_int_model',
             'kin_model.KinModel2D.update_3D_int_model', 'aper_model.AperModel2D.update_model',
             'aper_model.AperModel2D.setup_calcs', 'aper_model.AperModel2D.do_model_calcs',
             'kin_classes.KinProfile.update_theta']
BOUNDS = ('every earlier and every later value of amplitude [-300,300], turnover [0.1,2], dispersion [4,120], centre shift '
          '[-0.4,0.4] rows and redshift [0,0.01]; histories of two and three parameter sets by every mix of make and update; '
          'models of 1-2 rows x 2 channels with and without seeing, instrument resolution, subpixels, upsampling and floor')
OUTSIDE = 'centres or redshifts that differ by less than 1e-6; longer histories and larger models; floating point rounding'
ASSUMPTIONS = ['exp, arctan, sqrt are uninterpreted apart from functional-equation and monotonicity facts']

WAVE = dict(wave=(6560., 6575.), rest=(6564.6,))
PIX = 0.2


def theta(t, k, vary, prev=None):
    """parameter set number k: those in `vary` are arbitrary; centre and redshift stay the same or change"""
    full = []
    for n, lo, hi, dflt in (('va', -300., 300., 120.), ('rt', 0.1, 2., 0.4), ('s0', 4., 120., 55.), ('shift', -0.4, 0.4, 0.1),
                            ('z', 0., 0.01, 0.002)):
        if n not in vary:
            full.append(dflt)
            continue
        v = t.real('%s%d' % (n, k), lo, hi)
        if prev is not None and n in ('shift', 'z'):
            if t.flag('same_%s%d' % (n, k)):
                v = prev[len(full)]
            else:
                t.assume(abs(v - prev[len(full)]) >= 1e-6)
        full.append(v)
    return full


def setting(t, repo, th, vary, bounds=None):
    names = ['V_a', 'r_t', 'sigma0', 'm0_shift', 'z']
    return repo.kc.Theta2DSettings(theta=t.np.array(list(th)), theta_vary=t.np.array(list(vary)), theta_names=names,
                                   theta_names_nice=list(names))


def kin_model(t, repo, g, ths, opts, noscale):
    kp, ip = K.profiles(t, repo, g)
    d = dict(nSubpixels=1, pad_factor=0.5, adaptive_upsample_wave=False, sigma_floor=False)
    d.update(opts)
    m = repo.km.KinModel2D(g, thetaSettings=ths, kinProfile=kp, intensityProfile=ip,
                           kinModelOptions=repo.km.KinModel2DOptions(**d))
    m.no_scale = noscale
    return m


def off_axis(t, g, repo, th, ny, nsub, nx, px, py, dx):
    """cells do not sit exactly on the rotation axis"""
    si = repo.kf.sin_i(g.q, q0=g.q0)
    ci = t.np.cos(t.np.arcsin(si))
    dy = PIX / nsub
    ys = [(j / nsub + 0.5 / nsub - 0.5 - g.spec2D.m0 - th[3]) * PIX for j in range(-py, ny * nsub + py)]
    for z in K.grid1(ny * nsub, dy):
        for y in ys:
            for x in K.grid1(nx + 2 * px, dx):
                a, b, c = K.ref_rotate(t, x, y, z, g.delt_PA, si, ci)
                r2 = a * a + b * b
                if isinstance(r2, float):
                    t.check(r2 > 1e-12, 'cells_off_the_axis')
                else:
                    t.assume_ge(r2, 1e-4)


def same_as_fresh(t, repo, vary, steps='mu', ny=1, nsub=1, fwhm=0., res=0., noscale=True, opts={}, cube=False, free=None,
                  spec_type='wave'):
    np = t.np
    opts = dict(opts, nSubpixels=nsub)
    w = dict(WAVE) if spec_type == 'wave' else dict(wave=(-40., 70.), rest=(1.,))

    def gal():
        kw = {}
        if not noscale:
            kw = dict(flux=np.array([[1., 2.], [3., -0.5]][:ny]), err=np.array([[0.5, 0.25], [0.3, 0.7]][:ny]))
        return K.galaxy(t, repo, ny=ny, m0=0.3 if ny == 1 else 0.7, spec_type=spec_type, delt_PA=25., q=0.6, **dict(w, **kw))

    def ins():
        return K.instrument(repo, pixscale=PIX, slit_width=0.2, PSF_FWHM=fwhm, instrument_resolution=res)
    g = gal()
    ths = []
    for k in range(len(steps)):
        ths.append(theta(t, k, vary, ths[-1] if ths else None))
    dx = dy = PIX / nsub
    nx = nsub * (ny if cube else 1)
    px = int(round(fwhm * 0.5 / dx))
    for th in ths:
        off_axis(t, g, repo, th, ny, nsub, nx, px, px, dx)
    free = [True] * 5 if free is None else free
    fit = lambda th: np.array([v for v, f in zip(th, free) if f])
    fixed = [0. if f else d for f, d in zip(free, [120., 0.4, 55., 0.1, 0.002])]

    def settings():
        return setting(t, repo, fixed, free)
    m = kin_model(t, repo, g, settings(), opts, noscale)
    m.spec_type = spec_type
    i = ins()
    for k, (s, th) in enumerate(zip(steps, ths)):
        if s == 'm' and not cube:
            m.make_model(galaxy=g, instrument=i, theta_fitting=fit(th))
        elif s == 'm':
            m.make_3D_int_model(galaxy=g, instrument=i, theta_fitting=fit(th))
        elif not cube:
            m.update_model(theta_fitting=fit(th))
        else:
            m.update_3D_int_model(theta_fitting=fit(th))
    g2 = gal()
    f = kin_model(t, repo, g2, settings(), opts, noscale)
    f.spec_type = spec_type
    if cube:
        f.make_3D_int_model(galaxy=g2, instrument=ins(), theta_fitting=fit(ths[-1]))
        t.eq(m.model_cube, f.model_cube, 'same_cube_as_fresh')
    else:
        f.make_model(galaxy=g2, instrument=ins(), theta_fitting=fit(ths[-1]))
        t.check(m.model.shape == f.model.shape, 'same_shape_as_fresh')
        t.eq(m.model, f.model, 'same_model_as_fresh')
        if noscale:
            t.eq(m.aperModel.model, f.aperModel.model, 'same_unscaled_model_as_fresh')
        t.eq(m.aperModel.spectra_cube, f.aperModel.spectra_cube, 'same_spectral_cube_as_fresh')
    t.eq(m.theta, [v for v in ths[-1]], 'current_parameters')


def theta_copy(t, repo):
    """the caller's parameter array isn't tied to the model"""
    np = t.np
    vary = ('va', 'shift', 'z')
    g = K.galaxy(t, repo, ny=1, m0=0.3, delt_PA=25., q=0.6, **WAVE)
    th0 = theta(t, 0, vary)
    th1 = theta(t, 1, vary, th0)
    for th in (th0, th1):
        off_axis(t, g, repo, th, 1, 1, 1, 0, 0, PIX)
    i = K.instrument(repo, pixscale=PIX, slit_width=0.2)
    a = np.array(th0)
    A = K.aper2d(t, repo, g, i, a)
    a[0], a[3], a[4] = th1[0], th1[3], th1[4]          # the caller changes the array in place and asks for an update
    A.update_model(theta=a)
    B = K.aper2d(t, repo, g, i, np.array(th1))
    t.eq(A.model, B.model, 'in_place_change_of_the_parameters')


V3, V5 = ('va', 'rt', 's0'), ('va', 'rt', 's0', 'shift', 'z')
ALL = dict(adaptive_upsample_wave=True, sigma_floor=True)
HARNESSES = [
    dict(name='same_as_fresh', fn=same_as_fresh, configs=[
        dict(vary=V5, steps='mu'),
        dict(vary=V5, steps='mm', ny=2),
        dict(vary=V5, steps='muu'),
        dict(vary=V5, steps='mum'),
        dict(vary=('va', 'shift'), steps='mu', fwhm=0.4),
        dict(vary=('z', 's0'), steps='mu', res=60.),
        dict(vary=('rt', 'z'), steps='mu', nsub=2),
        dict(vary=('s0', 'z'), steps='mu', opts=ALL),
        dict(vary=('s0', 'va'), steps='muu', opts=ALL),
        dict(vary=('va', 'shift'), steps='mu', noscale=False),
        dict(vary=V3, steps='mu', free=[True, True, True, False, False]),
        dict(vary=('va', 's0', 'shift'), steps='mu', spec_type='velocity'),
        dict(vary=('va', 'z', 's0'), steps='mu', cube=True),
        dict(vary=('va', 'shift'), steps='mu', cube=True, ny=2, fwhm=0.2),
        dict(vary=('rt', 's0'), steps='mm', cube=True)],
        thorough=[dict(vary=V5, steps='mu', ny=2, nsub=2), dict(vary=V5, steps='mum', fwhm=0.2, res=40., ny=2),
                  dict(vary=V5, steps='mumu', ny=1), dict(vary=V5, steps='mu', opts=ALL)]),
    dict(name='theta_copy', fn=theta_copy),
]
