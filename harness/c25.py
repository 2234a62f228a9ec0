"""C25 the MCMC run: starting positions, the posterior that is sampled, burn-in, stopping, stored samples."""
import math
from . import common as K
from lib import mcstub, rnd

FUNCTIONS = ['fit_core.run_mcmc', 'fit_core._run_mcmc_emcee_3', 'fit_core.make_pruned_fitEmis2D_class', 'fit_core.init_walker_pos',
             'fit_core.lnprob', 'fit_core.lnlike', 'general_utils.range_arrs', 'fit_io.make_emcee_sampler_dict']
BOUNDS = ('every prior box and uniform deviate of 2-3 walkers in 1-5 parameters; every datum, amplitude, turnover and dispersion of models of 1-2 '
          'rows x 2 channels for the pared-down and the full fit; every acceptance fraction and autocorrelation time of the last three of '
          '49-53 steps, 0-3 burn-in steps; every position of the walkers')
OUTSIDE = 'that the walkers sample the posterior (emcee); the branch for emcee 2; parallel evaluation; files and plots'
ASSUMPTIONS = ['the sampler moves the walkers anywhere; uniform deviates lie in [0,1)']

NAMES = ['V_a', 'r_t', 'sigma0', 'm0_shift', 'z']


def setup_lifted(repo):
    mcstub.install(repo)


setup_real = setup_lifted


def bounds(t, vary, sym):
    b = []
    for i in range(5):
        if sym:
            lo = t.real('lo%d' % i, -500., 500.)
            b.append([lo, lo + t.real('w%d' % i, .01, 900.)])
        else:
            b.append([[-300., 300.], [.1, 2.], [10., 200.], [-1., 1.], [0., .01]][i])
    return b


class Walk(object):
    pass


def walkers(t, repo, vary=(1, 1, 1, 0, 0), nw=3, at=None, swapped=False):
    np = t.np
    vary = [bool(v) for v in vary]
    nd = sum(vary)
    b = bounds(t, vary, True)
    F = Walk()
    F.kinModel, F.thetaPrior = Walk(), Walk()
    F.kinModel.theta_names, F.kinModel.theta_vary, F.kinModel.n_free_param = list(NAMES), np.array(vary), nd
    F.kinModel.theta = np.zeros(5)
    F.thetaPrior.theta_bounds = [x[::-1] for x in b] if swapped else b

    def uni(k):
        if at is not None:
            return at
        # all deviates differ
        return t.real('u%d' % k, (k + .01) / (nw * nd), (k + .99) / (nw * nd))
    with rnd.numbers(t, uniform=uni) as s:
        pos = repo.fc.init_walker_pos(F, ndim=nd, nwalkers=nw)
    t.check(len(pos) == nw and all(len(p) == nd for p in pos), 'one_position_per_walker')
    free = [i for i in range(5) if vary[i]]
    for w in range(nw):
        for j, i in enumerate(free):
            t.check(pos[w][j] >= b[i][0] - 1e-7, 'inside_of_the_box')
            t.check(pos[w][j] <= b[i][1] + 1e-7, 'inside_of_the_box')
            if at is not None:
                t.eq(pos[w][j], b[i][0] + at * (b[i][1] - b[i][0]), 'whole_box', tol=1e-5)
            elif w:
                t.check(abs(pos[w][j] - pos[w - 1][j]) >= 1e-6, 'walkers_start_apart')


def fit2d(t, repo, vary, full, b, ny=1, flux=None, err=None, wt=None, mask=None, nsub=1, psf=None, floor=False, up=False, prior=None, R=40., **kw):
    np = t.np
    S = repo.kc.Theta2DSettings(theta=t.arr(list(full)), theta_vary=np.array(list(vary)), theta_names=list(NAMES), theta_names_nice=list(NAMES),
                                theta_bounds=b)
    d = dict(re_mass_arcsec=.35, q_mass=.75, q=.62, q0=.17, n=1.2, re_arcsec=.45, delt_PA=25.)
    g = K.galaxy(t, repo, ny=ny, wave=(6560., 6566.), rest=(6562., 6565.), ratio=(1., .4), m0=.3, flux=flux, err=err, weight=wt, mask=mask, **d)
    g.spec2D.linenames_arr = ['HA', 'XX']
    g.spec2D.lam0 = 6564.
    g.pstamp = 5
    g.ID, g.field = 3, 'F'
    ins = K.instrument(repo, pixscale=.2, slit_width=.2, **(dict(PSF_FWHM=psf) if psf else {}))
    ins.instrument_resolution = R
    ins.band = 'H'
    opt = repo.km.KinModel2DOptions(nSubpixels=nsub, adaptive_upsample_wave=up, sigma_floor=floor)
    F = repo.f2.FitEmissionLines2D(galaxy=g, instrument=ins, thetaSettings=S, kinModelOptions=opt, skip_fit_prep_calcs=True)
    if prior is not None:
        F.thetaPrior = repo.kc.ThetaPriorFlat(theta=np.array(list(full)), theta_vary=np.array(list(vary)), theta_bounds=prior)
        F.thetaSettings.theta_bounds = None
    F.setup_model()
    return F


def posterior(t, repo, vary=(1, 0, 1, 0, 0), fixed=(120., .4, 60., .1, 0.), prior=None, masked=False, at=None, **kw):
    """the pared-down fit that is sampled has the posterior of the full one"""
    np = t.np
    vary = [bool(v) for v in vary]
    ny = kw.get('ny', 1)
    b = bounds(t, vary, False)
    flux, err = t.reals('flux', (ny, 2), -5., 5.), np.array([[.5, .7], [.4, .9]][:ny])
    wt = np.array([[1.2, .6], [.8, .3]][:ny])
    mask = np.array([[1., 0.], [1., 1.]][:ny]) if masked else None
    F = fit2d(t, repo, vary, fixed, b, flux=flux.copy(), err=err, wt=wt, mask=mask, prior=prior, **kw)
    X = repo.fc.make_pruned_fitEmis2D_class(F)
    t.check(X is not F, 'a_separate_fit')
    rng = [(-250., 250.), (.2, 1.5), (20., 150.), (-.4, .4), (0., .005)]
    box = prior or b
    v = []
    for i in range(5):
        if vary[i]:
            v.append(at[i] if at else t.real('p%d' % i, max(rng[i][0], box[i][0]), min(rng[i][1], box[i][1])))
    p = t.arr(v)
    before = F.kinModel.model
    x = repo.fc.lnprob(p, X)
    t.eq(F.kinModel.theta, list(fixed), 'full_fit_kept')
    full = repo.fc.lnprob(p, F)
    t.eq(x, full, 'same_posterior', tol=1e-5)
    out = t.arr([v[0] + 2000.] + v[1:])
    t.check(not bool(np.isfinite(repo.fc.lnprob(out, X))), 'same_prior')
    # data changed afterwards are not seen by the sampled fit
    F.galaxy.spec2D.flux[0, 0] = 7.
    F.galaxy.q = .3
    t.eq(repo.fc.lnprob(p, X), x, 'own_copy_of_the_data', tol=1e-5)
    t.check(hasattr(F.instrument, 'band') and hasattr(F.kinModel, 'theta_names') and hasattr(F, 'kinModelOptions'), 'full_fit_kept')


def run(t, repo, nburn=2, nsteps=3, given=False, ncpu=1, nothread=False, frac=False, overwrite=True, save=False, af=None, late=False, allsteps=False,
        none=None, acor_fails=False, ac=(.4, .45), neff=100, vary=(1, 0, 1, 0, 0)):
    np = t.np
    vary = [bool(v) for v in vary]
    nd = sum(vary)
    nw = 2
    b = bounds(t, vary, False)
    full = (120., .4, 60., .1, 0.)
    F = fit2d(t, repo, vary, full, b)
    o = F.mcmcOptions
    o.nWalkers, o.nSteps, o.nBurn, o.nCPUs, o.NoThread, o.overwrite = nw, nsteps, nburn, ncpu, nothread, overwrite
    o.filename_sampler_h5, o.filename_log, o.runAllSteps, o.nEff, o.scale_param_a = 'h5', None, allsteps, neff, 2.5
    o.filename_sampler = 'sampler' if save else None
    cpu = None
    if frac:
        o.nCPUs, o.cpuFrac = None, t.real('frac', .3, .9)
        repo.fc.psutil.cpu_count = lambda *a, **k: 4
    if none:
        setattr(o, none, None)
    mc = repo.mc
    A, T, XX = {}, {}, {}

    def hook(s, k):
        i = mc.samplers.index(s)
        if k >= 47 and k < nsteps - 1:
            x = np.array([[1. * w + k + j for j in range(nd)] for w in range(nw)])
            lp = np.array([1. * k, 2.])
        elif k >= 2 and nsteps > 10:
            x = np.array([[1. * w + k + j for j in range(nd)] for w in range(nw)])
            lp = np.array([1. * k, 2.])
        else:
            x = t.reals('x%d_%d' % (i, k), (nw, nd), -300., 300.)
            lp = t.reals('lp%d_%d' % (i, k), nw, -1e3, 0.)
        XX[i, k] = (x.copy(), lp.copy())
        return x, lp

    def accept(s, k):
        if k < 48 or nsteps < 10 or s is not mc.samplers[-1]:
            return np.array([.3, .34])
        if k not in A:
            A[k] = t.real('af%d' % k, 0., 1.)
        return t.arr([A[k] - .05, A[k] + .05])

    def acor(s, k):
        if acor_fails:
            raise RuntimeError('too short')
        if k < 48 or nsteps < 10 or s is not mc.samplers[-1]:
            return np.array([.01] * nd)
        if k not in T:
            T[k] = t.real('ac%d' % k, *ac)
        return t.arr([T[k]] + [.01] * (nd - 1))
    mc.start(t, hook, accept, acor)
    dumped = []
    repo.fio.dumppickle = lambda data, filename=None: dumped.append((data, filename))
    X = repo.fc.make_pruned_fitEmis2D_class(F) if given else None
    start = {}

    def uni(k):
        if k not in start:
            start[k] = t.real('u%d' % k, 0., .999)
        return start[k]
    with rnd.numbers(t, uniform=uni):
        r = repo.fc.run_mcmc(F, fitEmis2D_fit=X)
    t.check(r is F, 'same_fit')
    # number of processes
    n = 1 if nothread else ncpu
    if frac and not nothread:
        n = int(math.floor(4 * o.cpuFrac)) if not t.symbolic else o.nCPUs
        t.check(n <= 4. * o.cpuFrac, 'fraction_of_the_processors')
        t.check(n > 4. * o.cpuFrac - 1., 'fraction_of_the_processors')
    t.check(o.nCPUs == n, 'number_of_processes')
    t.check(len(mc.pools) == (1 if n > 1 else 0) and all(p._processes == n and p.closed for p in mc.pools), 'pool')
    # burn-in, then the run
    S = mc.samplers
    main = S[-1]
    for s in S:
        t.check(s.nwalkers == nw and s.ndim == nd, 'walkers_and_parameters')
        t.check(s._moves == ('stretch', 2.5), 'scale_of_the_moves')
        t.check((s.pool is None) == (n <= 1), 'pool')
        if given:
            t.check(len(s.log_prob_fn.args) == 1 and s.log_prob_fn.args[0] is X, 'fit_given_is_sampled')
        t.check(s.log_prob_fn.args[0] is not F, 'pared_down_fit_is_sampled')
        p = np.array([v for v, f in zip((90., .5, 70., .2, .001), vary) if f])
        t.eq(s.log_prob_fn(p), repo.fc.lnprob(p, F), 'posterior_is_sampled', tol=1e-5)
    F.update_model(theta_fitting=np.array([v for v, f in zip(full, vary) if f]))
    t.check(all(len(bk.resets) == (1 if overwrite else 0) for bk in mc.backends_made), 'overwrite')
    t.check(all(q == (nw, nd) for bk in mc.backends_made for q in bk.resets), 'overwrite')
    t.check(len(set(bk.name for bk in mc.backends_made)) == len(mc.backends_made) and all(bk.filename == 'h5' for bk in mc.backends_made), 'own_backend')
    burned = sum(s.iteration for s in S[:-1])
    t.check(burned == nburn, 'burn_in_steps')
    pos = None
    for i, s in enumerate(S):
        for k, x in s.starts:
            if pos is None:
                free = [b[m] for m in range(5) if vary[m]]
                t.check(np.shape(x) == (nw, nd), 'one_position_per_walker')
                for w in range(nw):
                    for j in range(nd):
                        t.check(x[w, j] >= free[j][0] - 1e-7, 'starts_in_the_box')
                        t.check(x[w, j] <= free[j][1] + 1e-7, 'starts_in_the_box')
            else:
                t.eq(x, pos, 'continues_from_the_last_positions')
            # a call may do several steps
            nxt = [q for q, _ in s.starts if q > k]
            last = (min(nxt) if nxt else s.iteration) - 1
            pos = XX[i, last][0] if last >= k else x
    # when it stops
    stop = nsteps
    if nsteps > 49 and not allsteps and none is None and not acor_fails:
        for k in range(49, nsteps):
            a = A.get(k, None)
            if a is None:
                break
            if bool(a > .2) and bool(a < .5) and bool(T[k] * neff < k):
                stop = k + 1
                break
    t.check(main.iteration == stop, 'stops_when_converged' if stop < nsteps else 'all_steps')
    # what is stored
    d = F.sampler_dict
    im = len(S) - 1
    t.check(np.shape(d['chain']) == (nw, stop, nd) and np.shape(d['lnprobability']) == (nw, stop), 'samples_of_the_run')
    t.check(np.shape(d['flatchain']) == (nw * stop, nd) and np.shape(d['flatlnprobability']) == (nw * stop,), 'samples_of_the_run')
    t.check(d['nParam'] == nd and d['nWalkers'] == nw and d['nIter'] == stop, 'numbers_of_the_run')
    ks = range(stop) if stop < 10 else list(range(2)) + [stop - 1]
    for k in ks:
        for w in range(nw):
            x, lp = XX[im, k]
            t.eq(d['chain'][w, k], x[w], 'samples_of_the_run')
            t.eq(d['lnprobability'][w, k], lp[w], 'samples_of_the_run')
            t.eq(d['flatchain'][w * stop + k], x[w], 'samples_of_the_run')
            t.eq(d['flatlnprobability'][w * stop + k], lp[w], 'samples_of_the_run')
    t.check(len(dumped) == (1 if save else 0), 'saved')
    if save:
        t.check(dumped[0][0] is d and dumped[0][1] == 'sampler', 'saved')


HARNESSES = [
    dict(name='walkers', fn=walkers, configs=[dict(), dict(vary=[0, 1, 0, 1, 1], nw=2), dict(vary=[1] * 5, at=0.), dict(vary=[0, 0, 1, 0, 1], at=.75),
                                              dict(vary=[0, 1, 0, 0, 0], nw=2, swapped=True)]),
    dict(name='posterior', fn=posterior, configs=[
        dict(), dict(vary=[1, 1, 1, 0, 0], masked=True, nsub=2, at=[-80., .7, 45.]), dict(ny=2, psf=.5, at=[150., 0., 100.]), dict(masked=True, ny=2, psf=.7, vary=[1, 0, 0, 1, 1], at=[60., 0., 0., .3, .002]),
        dict(vary=[0, 1, 0, 0, 0]), dict(vary=[1, 0, 0, 0, 0], masked=True), dict(up=True, at=[33., 0., 30.]),
        dict(ny=2, floor=True, masked=True, fixed=[90., .6, 20., .2, .001], at=[99., 0., 12.]),
        dict(vary=[0, 0, 1, 0, 0], prior=[[-9., 9.], [1., 2.], [30., 70.], [1., 2.], [0., 1.]])]),
    dict(name='run', fn=run, configs=[
        dict(), dict(nburn=0, nsteps=2, given=True), dict(nburn=1, ncpu=3, nsteps=1), dict(ncpu=3, nothread=True, nsteps=2, overwrite=False),
        dict(frac=True, nsteps=1, nburn=0), dict(nsteps=52, nburn=1, save=True), dict(nsteps=51, nburn=0, allsteps=True),
        dict(nsteps=51, nburn=0, none='minAF'), dict(nsteps=51, nburn=0, none='nEff'), dict(nsteps=51, nburn=0, acor_fails=True),
        dict(nsteps=53, nburn=0, ac=[.5, .52], vary=[0, 0, 1, 0, 1])],
         must_reach=['posterior_is_sampled']),
]
