"""C14 free and fixed parameters."""
from . import common as K

FUNCTIONS = ['fit_core.initialize_fitting_theta', 'kin_model.KinModel2D.update_parameters', 'kin_model.KinModel2D.make_model',
             'kin_model.KinModel2D.update_model', 'kin_model.KinModel2D.make_3D_int_model',
             'kin_model.KinModel2D.update_3D_int_model', 'fit2D.FitEmissionLines2D.setup_model', 'kin_classes.KinProfile.update_theta']
BOUNDS = 'every value of 1-6 parameters and every choice of which are free; vectors up to one longer than the number of parameters'
OUTSIDE = 'more parameters; floating point rounding'
ASSUMPTIONS = []

NAMES = ['V_a', 'r_t', 'sigma0', 'm0_shift', 'z']


class Kin(object):
    """a kinematic profile that records its parameters"""

    def __init__(self):
        self.seen = None

    def update_theta(self, theta):
        self.seen = [v for v in theta]


class Int(object):
    def update_values(self, galaxy):
        pass


class Aper(object):
    """stands for the aperture model"""

    def __init__(self):
        self.got = []

    def update_model(self, **kw):
        self.got.append([v for v in kw['theta']])
        raise Done()


class Done(Exception):
    pass


def settings(t, repo, th, vary, bounds=None):
    n = ['p%d' % i for i in range(len(vary))]
    return repo.kc.Theta2DSettings(theta=th, theta_vary=vary, theta_names=n, theta_names_nice=n, theta_bounds=bounds)


def mapping(t, repo, n, as_list=False):
    """free values go to the free places in order, fixed ones keep their initial values"""
    np = t.np
    vary = [bool(t.flag('vary%d' % i)) for i in range(n)]
    init, fit = t.reals('init', n, -9., 9.), t.reals('fit', n, -9., 9.)
    idx = [i for i in range(n) if vary[i]]
    i0 = repo.fc.initialize_fitting_theta(init, np.array(vary))
    t.check(len(i0) == len(idx), 'as_many_as_free')
    t.eq(i0, [init[i] for i in idx], 'initial_values_of_the_free_ones')
    src = [v for v in init] if as_list else init
    S = settings(t, repo, src, vary if as_list else np.array(vary))
    M = repo.km.KinModel2D(None, thetaSettings=S, kinProfile=Kin(), intensityProfile=Int(), kinModelOptions=object())
    t.check(M.n_free_param == len(idx), 'number_of_free_parameters')
    t.eq(M.theta, init, 'starts_at_the_initial_values')
    t.eq(M.kinProfile.seen, init, 'profile_starts_at_the_initial_values')
    f = np.array([fit[i] for i in idx])
    f0 = f.copy()
    M.update_parameters(f)
    t.eq(M.theta, [fit[i] if vary[i] else init[i] for i in range(n)], 'free_replaced_fixed_kept')
    t.eq(repo.fc.initialize_fitting_theta(M.theta, M.theta_vary), f, 'read_back')
    t.eq(f, f0, 'input_vector_untouched')
    t.eq(M.theta_init, init, 'initial_values_kept')
    t.eq(S.theta, init, 'settings_untouched')
    M2 = repo.km.KinModel2D(None, thetaSettings=S, kinProfile=Kin(), intensityProfile=Int(), kinModelOptions=object())
    t.eq(M2.theta, init, 'second_model_starts_at_the_initial_values')
    M.update_parameters(i0)
    t.eq(M.theta, init, 'and_back')


def lengths(t, repo, n, extra):
    """a vector of another length than the number of free parameters is refused, by every entry point, and changes nothing"""
    np = t.np
    vary = [bool(t.flag('vary%d' % i)) for i in range(n)]
    init = t.reals('init', n, -9., 9.)
    k = sum(vary) + extra
    if k < 0:
        return t.check(True, 'wrong_length_refused')
    fit = t.reals('fit', k, -9., 9.) if k else np.array([])
    M = repo.km.KinModel2D(None, thetaSettings=settings(t, repo, init, np.array(vary)), kinProfile=Kin(), intensityProfile=Int(),
                           kinModelOptions=object())
    M.aperModel = Aper()
    for fn in ('make_model', 'update_model', 'make_3D_int_model', 'update_3D_int_model'):
        f = getattr(M, fn)
        if extra:
            t.raises(ValueError, lambda: f(theta_fitting=fit), 'wrong_length_refused')
            t.eq(M.theta, init, 'nothing_changed')
            t.check(not M.aperModel.got, 'model_not_evaluated')
        else:
            t.raises(Done, lambda: f(theta_fitting=fit), 'right_length_evaluated')
            full, j = [], 0
            for i in range(n):
                full.append(fit[j] if vary[i] else init[i])
                j += 1 if vary[i] else 0
            t.eq(M.aperModel.got.pop(), full, 'model_gets_all_parameters')
            t.check(not M.aperModel.got, 'evaluated_once')


def counts(t, repo):
    """changing which parameters are free later is taken into account"""
    np = t.np
    init, fit = t.reals('init', 3, -9., 9.), t.reals('fit', 3, -9., 9.)
    M = repo.km.KinModel2D(None, thetaSettings=settings(t, repo, init, np.array([True, False, True])), kinProfile=Kin(),
                           intensityProfile=Int(), kinModelOptions=object())
    M.setAttr(theta_vary=np.array([False, True, True]))
    t.check(M.n_free_param == 2, 'count_follows')
    M.setAttr(theta_vary=np.array([False, True, False]))
    t.check(M.n_free_param == 1, 'count_follows')
    M.update_parameters(fit[:1])
    t.eq(M.theta, [init[0], fit[0], init[2]], 'mapping_follows')


def fit2d(t, repo, free):
    """a 2D fit starts its model at the initial parameters with the given bounds as prior, without changing its settings"""
    np = t.np
    vary = [n in free for n in NAMES]
    va, s0 = t.real('va', -300., 300.), t.real('s0', 20., 120.)
    full = [va, .4, s0, .1, 0.]
    lo, hi = t.reals('lo', 5, -500., -1.), t.reals('hi', 5, 1., 500.)
    bounds = [[lo[i], hi[i]] for i in range(5)]
    S = repo.kc.Theta2DSettings(theta=np.array(full), theta_vary=np.array(vary), theta_names=NAMES, theta_names_nice=NAMES,
                                theta_bounds=bounds, theta_linked_posteriors=[[0, 1]])
    flux = np.array([[1., 2.]])
    g = K.galaxy(t, repo, ny=1, wave=(6560., 6566.), rest=(6564.,), m0=.3, flux=flux, delt_PA=25.)
    g.spec2D.linenames_arr = ['HA']
    ins = K.instrument(repo, pixscale=.2, slit_width=.2)
    opt = repo.km.KinModel2DOptions(nSubpixels=1, adaptive_upsample_wave=False, sigma_floor=False)
    F = repo.f2.FitEmissionLines2D(galaxy=g, instrument=ins, thetaSettings=S, kinModelOptions=opt, skip_fit_prep_calcs=True)
    F.setup_model()
    t.eq(F.kinModel.theta, full, 'model_at_the_initial_parameters')
    t.check(F.kinModel.n_free_param == len(free), 'number_of_free_parameters')
    t.check(F.theta_linked_posteriors == [[0, 1]], 'linked_parameters')
    for i in range(5):
        t.eq(F.thetaPrior.theta_bounds[i], bounds[i], 'prior_has_the_bounds')
    p = np.array([v for v, f in zip([150., .7, 90., -.1, 0.002], vary) if f])
    F.update_model(theta_fitting=p)
    t.eq(F.kinModel.theta, [v if f else w for v, w, f in zip([150., .7, 90., -.1, 0.002], full, vary)], 'model_updated')
    t.eq(S.theta, full, 'settings_untouched')
    F.setup_model()
    t.eq(F.kinModel.theta, full, 'set_up_again_at_the_initial_parameters')
    S2 = [[-1., 2.]] * 5
    F.thetaSettings.theta_bounds = S2
    F.setup_model()
    for i in range(5):
        t.eq(F.thetaPrior.theta_bounds[i], S2[i], 'prior_follows_new_bounds')


def whole(t, repo, n, as_list=False):
    """initial parameters given as whole numbers: the fitted values, which are not, are kept as they are"""
    np = t.np
    start = [100, 1, 50, 0, 2][:n]
    vary = [bool(t.flag('vary%d' % i)) for i in range(n)]
    fit = [t.real('fit%d' % i, 0., 2.) for i in range(n)]
    S = settings(t, repo, list(start) if as_list else np.array(start), vary if as_list else np.array(vary))
    M = repo.km.KinModel2D(None, thetaSettings=S, kinProfile=Kin(), intensityProfile=Int(), kinModelOptions=object())
    t.eq(M.theta, start, 'starts_at_the_initial_values')
    idx = [i for i in range(n) if vary[i]]
    M.update_parameters(np.array([fit[i] for i in idx]))
    t.eq(M.theta, [fit[i] if vary[i] else start[i] for i in range(n)], 'free_replaced_fixed_kept')
    t.eq(S.theta, start, 'settings_untouched')


HARNESSES = [
    dict(name='mapping', fn=mapping, configs=[dict(n=5), dict(n=3, as_list=True), dict(n=1)], thorough=[dict(n=6), dict(n=7)]),
    dict(name='lengths', fn=lengths, configs=[dict(n=4, extra=e) for e in (-1, 0, 1)], thorough=[dict(n=6, extra=e) for e in (-2, 0, 2)]),
    dict(name='counts', fn=counts),
    dict(name='whole', fn=whole, configs=[dict(n=3), dict(n=2, as_list=True)], thorough=[dict(n=5)]),
    dict(name='fit2d', fn=fit2d, configs=[dict(free=['V_a', 'r_t', 'sigma0']), dict(free=['sigma0', 'z']), dict(free=NAMES)]),
]
