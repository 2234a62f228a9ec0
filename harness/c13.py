"""C13 posterior: flat prior box plus likelihood."""
import math
from . import common as K

FUNCTIONS = ['kin_classes.ThetaPriorFlat.log_prior', 'fit_core.lnprob', 'fit_core.lnlike',
             'kin_model.KinModel2D.update_model', 'kin_model.KinModel2D.model_llike']
BOUNDS = ('every box with bounds in [-500,500] (also one-sided or without bounds), every parameter value in [-600,600] or '
          'not-a-number, every subset of 1-5 free parameters; every likelihood value, finite or not; end to end for a model of '
          '1 row x 2 channels with arbitrary data')
OUTSIDE = 'floating point rounding'
ASSUMPTIONS = []

INF = float('inf')


def _neg_inf(x):
    return not hasattr(x, 'p') and x == -INF


def box(t, repo, free, unbounded=(), nan=None):
    """zero inside of the box (edges included), minus infinity outside; fixed parameters do not matter"""
    np = t.np
    n = len(free)
    bounds = []
    for i in range(n):
        lo, hi = t.real('lo%d' % i, -500., 500.), t.real('hi%d' % i, -500., 500.)
        t.assume(lo <= hi)
        bounds.append([-INF if (i, 0) in unbounded else lo, INF if (i, 1) in unbounded else hi])
    P = repo.kc.ThetaPriorFlat(theta=np.array([1000.] * n), theta_vary=np.array(free), theta_bounds=bounds)
    idx = [i for i in range(n) if free[i]]
    th = [t.real('th%d' % i, -600., 600.) for i in idx]
    if nan is not None:
        th[nan] = float('nan')
    got = P.log_prior(theta_fitting=np.array(th))
    inside = nan is None
    for i, v in zip(idx, th):
        if not (bounds[i][0] <= v):
            inside = False
            break
        if not (v <= bounds[i][1]):
            inside = False
            break
    if inside:
        t.eq(got, 0., 'zero_inside')
    else:
        t.check(_neg_inf(got), 'minus_infinity_outside')


class Model(object):
    """stands for the model: records evaluations, hands out a given log-likelihood"""

    def __init__(self, val):
        self.val, self.calls, self.theta = val, 0, None
        self.kinModel = self

    def update_model(self, theta_fitting=None):
        self.calls += 1
        self.theta = theta_fitting

    def model_llike(self):
        return self.val


class Prior(object):
    def __init__(self, val):
        self.val = val

    def log_prior(self, theta_fitting=None):
        self.seen = theta_fitting
        return self.val


def total(t, repo, prior, like):
    """log-probability = prior + likelihood; outside of the prior the model is not evaluated; never not-a-number"""
    np = t.np
    vals = dict(nan=float('nan'), inf=INF, ninf=-INF)
    lp = t.real('lp', -1e4, 1e4) if prior == 'real' else vals[prior]
    ll = t.real('ll', -1e6, 1e6) if like == 'real' else vals[like]
    M = Model(ll)
    M.thetaPrior = Prior(lp)
    th = t.reals('theta', 2, -5., 5.)
    got = repo.fc.lnprob(th, M)
    if prior != 'real':
        t.check(_neg_inf(got), 'minus_infinity_outside_the_prior')
        t.check(M.calls == 0, 'model_not_evaluated_outside_the_prior')
    else:
        t.eq(M.thetaPrior.seen, th, 'prior_gets_the_parameters')
        t.eq(M.theta, th, 'model_gets_the_parameters')
        t.check(M.calls == 1, 'model_evaluated_once')
        if like == 'real':
            t.eq(got, lp + ll, 'sum_of_prior_and_likelihood')
        else:
            t.check(_neg_inf(got), 'minus_infinity_when_undefined')


def end_to_end(t, repo, free):
    """log-probability differences of the real thing: half of the weighted chi squared of the scaled models"""
    np = t.np
    names = ['V_a', 'r_t', 'sigma0', 'm0_shift', 'z']
    flux, err = t.reals('flux', (1, 2), -5., 5.), t.reals('err', (1, 2), .2, 3.)
    wt = t.reals('wt', (1, 2), 0., 4.)
    g = K.galaxy(t, repo, ny=1, wave=(6560., 6566.), rest=(6564.,), m0=.3, flux=flux, err=err, weight=wt)
    full = [120., .4, 60., 0.1, 0.]
    vary = [n in free for n in names]
    S = repo.kc.Theta2DSettings(theta=np.array(full), theta_vary=np.array(vary), theta_names=names, theta_names_nice=names,
                                theta_bounds=[[-300., 300.], [0.1, 2.], [10., 200.], [-1., 1.], [0., 0.01]])
    ins = K.instrument(repo, pixscale=.2, slit_width=.2)
    opt = repo.km.KinModel2DOptions(nSubpixels=1, adaptive_upsample_wave=False, sigma_floor=False)
    F = repo.fc.FitEmissionLines2DBasic(thetaSettings=S, kinModelOptions=opt)
    F.thetaPrior = repo.kc.ThetaPriorFlat(theta=np.array(full), theta_vary=np.array(vary), theta_bounds=S.theta_bounds)
    kp, ip = K.profiles(t, repo, g)
    F.kinModel = repo.km.KinModel2D(g, thetaSettings=S, kinProfile=kp, intensityProfile=ip, kinModelOptions=opt)
    i0 = [full[i] for i in range(5) if vary[i]]
    F.make_model(galaxy=g, instrument=ins, theta_fitting=np.array(i0))
    res = []
    for p in ([-90., .3, 40., 0.2, 0.], [200., 1., 90., -.1, 0.001]):
        v = np.array([p[i] for i in range(5) if vary[i]])
        L = repo.fc.lnprob(v, F)
        chi = 0.
        raw = repo.am.AperModel2D(galaxy=g, instrument=ins, nSubpixels=1, adaptive_upsample_wave=False, sigma_floor=False,
                                  kinProfile=repo.kc.KinProfileFiducial(), intensityProfile=repo.kc.IntensityProfileFiducial(g),
                                  theta=np.array([p[i] if vary[i] else full[i] for i in range(5)])).model[0]
        a = sum(flux[0, w] * raw[w] / err[0, w] ** 2 for w in range(2)) / sum(raw[w] ** 2 / err[0, w] ** 2 for w in range(2))
        for w in range(2):
            chi = chi + wt[0, w] * ((flux[0, w] - a * raw[w]) / err[0, w]) ** 2
        res.append((L, chi))
    t.eq(res[1][0] - res[0][0], -0.5 * (res[1][1] - res[0][1]), 'posterior_ratio_is_the_likelihood_ratio')
    out = np.array([999.] + i0[1:])
    before = F.kinModel.model.copy()
    t.check(_neg_inf(repo.fc.lnprob(out, F)), 'outside_of_the_box')
    t.eq(F.kinModel.model, before, 'model_not_touched_outside_of_the_box')


F5 = [True] * 5
HARNESSES = [
    dict(name='box', fn=box, configs=[dict(free=[True]), dict(free=[True, False]), dict(free=[False, True, True]),
                                      dict(free=[True, True, True, False, False]), dict(free=[False, False, True, False, True]),
                                      dict(free=F5), dict(free=[True, True], nan=0), dict(free=[True, True], nan=1)],
         thorough=[dict(free=[bool(k >> i & 1) for i in range(5)]) for k in range(1, 31)]),
    dict(name='one_sided', fn=lambda t, repo, which: box(t, repo, [True, True], unbounded=[tuple(w) for w in which]),
         configs=[dict(which=[[0, 0]]), dict(which=[[0, 1]]), dict(which=[[0, 0], [0, 1]])]),
    dict(name='total', fn=total, configs=[dict(prior=p, like='real') for p in ('real', 'ninf', 'nan', 'inf')] + [
        dict(prior='real', like=l) for l in ('nan', 'inf', 'ninf')]),
    dict(name='end_to_end', fn=end_to_end, configs=[dict(free=['V_a', 'r_t', 'sigma0']), dict(free=['V_a', 'sigma0', 'z']),
                                                    dict(free=['V_a', 'm0_shift'])]),
]
