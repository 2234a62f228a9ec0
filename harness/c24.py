"""C24 summaries of the posterior: derived quantities, best fit, errors, linked parameters, opposite signs."""
import contextlib
import math
import numpy as _np
from . import common as K
from .c23 import quant, P, ordered
from lib import kdestub

FUNCTIONS = ['fit_core.add_v_re_22', 'fit_core.get_param_posterior_bestfits', 'fit_core.get_chain_results', 'general_utils.find_peak_gaussian_KDE',
             'general_utils.find_peak_gaussian_KDE_multiD', 'general_utils.get_bestfit_values_linked', 'fit2D.FitEmissionLines2D.analyze_results',
             'fit2D.FitEmissionLines2D.set_bestfit', 'fit2D.FitEmissionLines2D.make_pruned_fitEmis2D_result_class']
BOUNDS = ('every chain of 2-3 samples of 1-5 free parameters, every choice of free parameters listed, every position of the density peaks, '
          'every fixed value; any bin of the histogram as the fullest')
OUTSIDE = 'that the kernel density peak is found (SciPy); longer chains; the default bandwidth'
ASSUMPTIONS = ['the kernel density is an opaque function of the samples; the minimiser returns any position and the same for the same samples']
setup_lifted = setup_real = kdestub.install

NAMES = ['V_a', 'r_t', 'sigma0', 'm0_shift', 'z']
NICE = ['Va', 'rt', 'sigma0', 'm0shift', 'z']
P2 = (.02275, .97725)


def same(t, a, b):
    """the same expression (symbolic run), the same numbers (real run)"""
    np = t.np
    if np.shape(a) != np.shape(b):
        return False
    for x, y in zip(np.ravel(a), np.ravel(b)):
        d = x - y
        if hasattr(d, 'p'):
            if d.p.t:
                return False
        elif d != 0.:
            return False
    return True


@contextlib.contextmanager
def histogram(t, bin_):
    """any bin may be the fullest"""
    old = _np.histogram

    def hist(a, bins=10, *x, **k):
        lo, hi = t.np.min(a), t.np.max(a)
        c = _np.zeros(bins, dtype=int)
        c[bin_ % bins] = 3
        return c, t.arr([lo + (hi - lo) * (i / float(bins)) for i in range(bins + 1)])
    _np.histogram = hist
    try:
        yield
    finally:
        _np.histogram = old


def fit2d(t, repo, vary, full=(120., .5, 60., .1, 0.001), linked=None, absv=False, rm=.4, usetex=False):
    np = t.np
    S = repo.kc.Theta2DSettings(theta=t.arr(list(full)), theta_vary=np.array(list(vary)), theta_names=list(NAMES), theta_names_nice=list(NICE),
                                theta_bounds=[[-500., 500.], [.05, 3.], [1., 300.], [-2., 2.], [-.1, .1]], theta_linked_posteriors=linked)
    g = K.galaxy(t, repo, ny=1, wave=(6560., 6564.), rest=(6562.,), re_mass_arcsec=rm)
    g.spec2D.linenames_arr = ['HA']
    g.pstamp = None
    g.ID, g.field = 3, 'F'
    ins = K.instrument(repo, pixscale=.2, slit_width=.2)
    opt = repo.km.KinModel2DOptions(nSubpixels=1, adaptive_upsample_wave=False, sigma_floor=False, absvalsigma=absv)
    F = repo.f2.FitEmissionLines2D(galaxy=g, instrument=ins, thetaSettings=S, kinModelOptions=opt, skip_fit_prep_calcs=True, usetex=usetex)
    F.theta_linked_posteriors = linked
    # the parts of setup_model that don't evaluate a model
    F.kinModel = repo.km.KinModel2D(g, thetaSettings=S, kinProfile=F.kinProfile, intensityProfile=F.intensityProfile, kinModelOptions=opt)
    return F


def rt_chain(t, n):
    return [t.real('rt%d' % k, .05, 3.) for k in range(n)]


def derived(t, repo, vary=(1, 1, 1, 0, 0), n=2, absv=False, rm=None, again=False, usetex=False):
    np = t.np
    vary = [bool(v) for v in vary]
    full = [120., .5, 60., .1, .001]
    for i, (lo, hi) in enumerate([(-400., 400.), (.05, 3.), (-300., 300.), (-1., 1.), (-.1, .1)]):
        if not vary[i]:
            full[i] = t.real('fixed%d' % i, lo, hi)
    rm = t.real('rm', .05, 2.) if rm is None else rm
    F = fit2d(t, repo, vary, full, absv=absv, rm=rm, usetex=usetex)
    free = [i for i in range(5) if vary[i]]
    col = {i: [t.real('c%d_%d' % (i, k), .05 if i == 1 else -400., 3. if i == 1 else 400.) for k in range(n)] for i in free}
    fc = t.arr([[col[i][k] for i in free] for k in range(n)])
    ch = t.reals('ch', (2, 1, len(free)), -400., 400.)
    F.sampler_dict = dict(flatchain=fc.copy(), chain=ch.copy())
    r = repo.fc.add_v_re_22(F)
    if again:
        r = repo.fc.add_v_re_22(F)
    t.check(r is F, 'same_fit')
    val = lambda i, k: (col[i][k] if vary[i] else full[i])
    got = F.sampler_dict['flatchain']
    t.check(np.shape(got) == (n, len(free) + 4), 'four_added')
    for k in range(n):
        for j, i in enumerate(free):
            v = abs(col[i][k]) if i == 2 and absv else col[i][k]
            t.eq(got[k, j], v, 'samples_kept')
        for j, rad in ((0, rm), (1, 2.2 / 1.676 * rm)):
            t.eq(got[k, len(free) + j], 2. / math.pi * val(0, k) * np.arctan(rad / val(1, k)), 'rotation_at_the_radius', tol=1e-5)
        for j in (2, 3):
            s = val(2, k)
            t.eq(got[k, len(free) + j], abs(s) if absv and vary[2] else s, 'dispersion_at_the_radius')
    for k in range(2):
        for j, i in enumerate(free):
            t.eq(F.sampler_dict['chain'][k, 0, j], abs(ch[k, 0, j]) if i == 2 and absv else ch[k, 0, j], 'walkers_kept')
    t.check(F.mcmc_results.theta_names == [NAMES[i] for i in free] + ['V_RE', 'V_22', 'sigma_RE', 'sigma_22'], 'names')
    nice = ([r'$V(R_E)$', r'$V_{2.2}$', r'$\sigma(R_E)$', r'$\sigma_{2.2}$'] if usetex else ['VRE', 'V22', 'sigmaRE', 'sigma22'])
    t.check(F.mcmc_results.theta_names_nice == [NICE[i] for i in free] + nice, 'names')
    t.eq(F.kinModel.theta, full, 'parameters_of_the_model_kept')


def chain(t, cols, n, perms, signs=None):
    """columns of n samples: sorted and as drawn"""
    srt, drawn = [], []
    for c in range(cols):
        lo, hi = {None: (-5., 5.), 1: (.5, 5.), -1: (-9., -5.)}[(signs or [None] * cols)[c]]
        v = [t.real('x%d_0' % c, lo, hi)]
        for k in range(1, n):
            # spacings of a third sample: any in the first column
            v.append(v[-1] + (t.real('x%d_%d' % (c, k), .01, 2.) if n == 2 or c == 0 else .3 + .7 * ((c + 2 * k) % 3)))
        srt.append(v)
        drawn.append([v[k] for k in perms[c % len(perms)]])
    return srt, drawn


def summary(t, repo, vary=(1, 0, 0, 0, 0), n=3, perms=((0, 1, 2),), linked=None, bin_=10, signs=(None, 1, 1, 1, 1), bsign=None):
    np = t.np
    vary = [bool(v) for v in vary]
    F = fit2d(t, repo, vary, linked=linked)
    nf = sum(vary)
    cols = nf + 4
    signs = (list(signs) + [1] * cols)[:cols]
    srt, drawn = chain(t, cols, n, [list(p) for p in perms], signs)
    fc = t.arr([[drawn[c][k] for c in range(cols)] for k in range(n)])
    F.sampler_dict = dict(flatchain=fc.copy())
    F.mcmc_results.bestfit_theta = None
    peak = [t.real('pk%d' % c, *((-9., 9.) if signs[c] is None else (.5, 9.))) for c in range(cols)]
    sets = [list(range(nf)) if isinstance(s, str) else list(s) for s in (linked or [])]
    lpk = [[t.real('lp%d_%d' % (i, k), *((-9., 9.) if signs[k] is None else (.5, 9.))) for k in s] for i, s in enumerate(sets)]
    seen = []

    def hook(data, x0):
        if np.ndim(data) == 1:
            for c in range(cols):
                if same(t, data, t.arr(drawn[c])):
                    seen.append(c)
                    t.check(x0[0] >= srt[c][0] - 1e-9, 'starts_within_the_chain')
                    t.check(x0[0] <= srt[c][-1] + 1e-9, 'starts_within_the_chain')
                    return [peak[c]]
            t.check(False, 'density_of_one_parameter')
        for i, s in enumerate(sets):
            if same(t, data, t.arr([drawn[c] for c in s])):
                t.check(len(x0) == len(s), 'starts_at_the_single_peaks')
                return lpk[i]
        t.check(False, 'density_of_the_linked_parameters')
    repo.kde.start(t, hook)
    with histogram(t, bin_):
        r = repo.fc.get_param_posterior_bestfits(F)
    t.check(r is F and sorted(seen) == list(range(cols)), 'one_peak_per_parameter')
    best = list(peak)
    for s, v in zip(sets, lpk):
        for c, x in zip(s, v):
            best[c] = x
    R = F.mcmc_results
    t.check(np.shape(R.bestfit_theta) == (cols,), 'best_fit')
    t.check(np.shape(R.err_theta_1sig) == (cols, 2) and np.shape(R.err_theta_2sig) == (cols, 2), 'lower_and_upper')
    t.eq(R.bestfit_theta, best, 'best_fit')
    t.check(np.shape(R.bestfit_theta_fitting) == (nf,), 'free_parameters_of_the_best_fit')
    t.eq(R.bestfit_theta_fitting, best[:nf], 'free_parameters_of_the_best_fit')
    for c in range(cols):
        t.eq(R.err_theta_1sig[c, 0], best[c] - quant(srt[c], P[0]), 'lower_1_sigma', tol=1e-5)
        t.eq(R.err_theta_1sig[c, 1], quant(srt[c], P[1]) - best[c], 'upper_1_sigma', tol=1e-5)
        t.eq(R.err_theta_2sig[c, 0], best[c] - quant(srt[c], P2[0]), 'lower_2_sigma', tol=1e-5)
        t.eq(R.err_theta_2sig[c, 1], quant(srt[c], P2[1]) - best[c], 'upper_2_sigma', tol=1e-5)
        if signs[c] is None:
            k = 0
            for x in drawn[c]:
                if bool(best[c] > 0.):
                    k += bool(x < 0.)
                elif bool(best[c] < 0.):
                    k += bool(x > 0.)
            t.eq(R.percent_oppsign[c], 100. * k / n, 'percent_of_opposite_sign')
        else:
            t.eq(R.percent_oppsign[c], 0. if signs[c] > 0 else 100., 'percent_of_opposite_sign')
    t.eq(F.sampler_dict['flatchain'], fc, 'chain_kept')


def one_parameter(t, repo, flat=True):
    """a single chain"""
    np = t.np
    x = t.reals('x', 3, -5., 5.)
    pk = t.real('pk', -9., 9.)

    def hook(data, x0):
        t.eq(np.ravel(data), x, 'density_of_one_parameter')
        t.eq(x0, [1.5], 'starts_where_told')
        return [pk]
    repo.kde.start(t, hook)
    v = repo.utils.find_peak_gaussian_KDE(x if flat else x.reshape((3, 1)), 1.5 if flat else [1.5])
    t.eq(np.ravel(v), [pk], 'peak_found')


def analyse(t, repo, vary=(1, 1, 1, 0, 0), linked=None, stored=False):
    """the whole analysis: derived values first, then the summary, then the model at the best fit"""
    np = t.np
    vary = [bool(v) for v in vary]
    full = [120., .5, 60., .1, .001]
    F = fit2d(t, repo, vary, full, linked=linked)
    free = [i for i in range(5) if vary[i]]
    n = 2
    lo = [100., .3, 40., -1., -.1]
    col = []
    for i in free:
        a = t.real('c%d' % i, lo[i], lo[i] + .1)
        col.append([a, a + t.real('d%d' % i, .01, .1)])
    fc = t.arr([[c[k] for c in col] for k in range(n)])
    d = dict(flatchain=fc, chain=fc.reshape((n, 1, len(free))).copy())
    if stored:
        F.sampler_dict = None
        F.reload_sampler = lambda: setattr(F, 'sampler_dict', d)
    else:
        F.sampler_dict = d
    count = [0]

    def hook(data, x0):
        count[0] += 1
        if np.ndim(data) == 1:
            return [t.real('pk%d' % count[0], 1., 2.)]
        return [t.real('lp%d' % k, 1., 2.) for k in range(len(x0))]
    repo.kde.start(t, hook)
    made = []

    def make(galaxy=None, instrument=None, theta_fitting=None, **k):
        made.append(theta_fitting)
        F.kinModel.theta = np.array([7.] * 5)
    F.kinModel.make_model = make
    with histogram(t, 3):
        F.analyze_results()
    R = F.mcmc_results
    t.check(len(made) == 1, 'one_model_at_the_best_fit')
    t.check(len(R.bestfit_theta) == len(free) + 4, 'best_fit_of_the_derived_quantities')
    t.eq(made[0], R.bestfit_theta[:len(free)], 'model_at_the_best_fit')
    t.check(F.kinModel.bestfit is not F.kinModel, 'best_fit_model_is_a_copy')
    t.eq(F.kinModel.bestfit.theta, [7.] * 5, 'best_fit_model_is_a_copy')
    F.kinModel.theta[0] = 8.
    t.eq(F.kinModel.bestfit.theta, [7.] * 5, 'best_fit_model_is_a_copy')
    # again: the same, not one more set of derived quantities
    with histogram(t, 3):
        F.analyze_results()
    t.check(len(R.bestfit_theta) == len(free) + 4 and np.shape(F.sampler_dict['flatchain']) == (n, len(free) + 4), 'analysed_again')


HARNESSES = [
    dict(name='derived', fn=derived, configs=[dict(), dict(vary=[1, 0, 1, 1, 1], again=True), dict(vary=[0, 1, 0, 0, 0], usetex=True),
                                              dict(vary=[1, 1, 0, 0, 1], absv=True), dict(absv=True, again=True, n=3), dict(vary=[0, 0, 1, 0, 0], absv=True),
                                              dict(vary=[1, 1, 1, 1, 1], n=3)],
         must_reach=['rotation_at_the_radius']),
    dict(name='summary', fn=summary, configs=[
        dict(), dict(perms=[[2, 0, 1], [1, 2, 0]], bin_=45), dict(vary=[1, 1, 1, 0, 0], linked=[[0, 1]], perms=[[0, 2, 1], [1, 0, 2]], bin_=30),
        dict(vary=[1, 1, 1, 0, 0], linked=[[0, 1], [2]], signs=[1, None, -1, 1, 1, 1, 1], n=2, perms=[[1, 0], [0, 1]], bin_=0),
        dict(vary=[1, 1, 0, 0, 1], linked=['all'], signs=[1, 1, None, -1, 1, 1, 1], bin_=24),
        dict(vary=[1, 1, 1, 1, 1], linked=[[1, 3], [0, 2]], signs=[-1, 1, 1, None, 1, 1, -1, 1], n=2, perms=[[0, 1], [1, 0]], bin_=49)],
         must_reach=['percent_of_opposite_sign']),
    dict(name='one_parameter', fn=one_parameter, configs=[dict(), dict(flat=False)]),
    dict(name='analyse', fn=analyse, configs=[dict(), dict(vary=[1, 0, 1, 0, 1], linked=[[0, 1]], stored=True)]),
]
