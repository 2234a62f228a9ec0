"""C20 row weights of the 2D fit."""
import math
from . import common as K
from lib import lmstub

FUNCTIONS = ['galaxy_utils.calculate_2D_fit_weights', 'galaxy.ObsSpectrum2D.calculate_fit_weights', 'general_utils.gaus_residual',
             'general_utils.gaus_profile', 'general_utils.gaus_simple']
BOUNDS = ('every flux of 2-4 rows x 1-3 channels, every choice of low-signal rows, errors and sky masks listed; every fitted position, '
          'width and amplitude for optimal weights')
OUTSIDE = 'rows that are not marked low and have no signal at all (their weight is undefined); larger spectra; that lmfit finds the minimum'
ASSUMPTIONS = ['lmfit.minimize returns some value of each free parameter within its bounds']

setup_lifted = setup_real = lmstub.install


def spec(t, repo, f, err, sky, low, kind):
    np = t.np
    s = repo.gal.ObsSpectrum2D(wave=np.arange(f.shape[1]) * 1. + 100.)
    s.flux, s.flux_err, s.mask_sky = f, err, sky
    s.low_snr_row_inds = np.array(low) if low else np.array([], dtype=int)
    s.weighting_type = kind
    s.spec_mask, s.spec_weight = np.ones(f.shape), np.ones(f.shape)
    return s


def check(t, s, want, ny, nx):
    np = t.np
    t.check(len(s.fitting_weight_profile) == ny, 'one_weight_per_row')
    t.eq(s.fitting_weight_profile, want, 'row_weights', tol=1e-6)
    t.check(np.shape(s.fitting_weight_matrix) == (ny, nx), 'weight_matrix')
    for i in range(nx):
        t.eq(s.fitting_weight_matrix[:, i], want, 'weight_matrix', tol=1e-6)


def up(t, repo, ny=3, nx=1, nsky=(), dead=None, low=None, errs=0):
    """weights fall with the signal to noise of the row; low rows get none; they add up to one"""
    np = t.np
    f = t.reals('f', (ny, nx), .3, 20.)
    neg = [bool(t.flag('neg%d' % j)) for j in range(ny)] if nx == 1 else [False] * ny
    f = f * np.array([[-1. if n else 1.] for n in neg])
    err = np.array([[.5 + .25 * ((2 * j + 3 * i) % 5) for i in range(nx)] for j in range(ny)])
    sky = np.ones((ny, nx))
    for i in nsky:
        sky[:, i] = 0.
    if dead is not None:
        sky[dead, :] = 0.
    if low is None:
        lo = [bool(t.flag('low%d' % j)) for j in range(ny)]
    else:
        lo = [j in low for j in range(ny)]
    if dead is not None:
        lo[dead] = True
    inv = []
    for j in range(ny):
        sm = sum(f[j, i] for i in range(nx) if float(sky[j, i])) if not lo[j] else 0.
        ev = sum(float(err[j, i]) ** 2 for i in range(nx) if float(sky[j, i])) ** .5
        inv.append(0. if lo[j] else ev / (-sm if neg[j] else sm))
    tot = sum(inv)
    s = spec(t, repo, f.copy(), err, sky, [j for j in range(ny) if lo[j]], 'up-edges')
    f0 = f.copy()
    s.calculate_fit_weights()
    check(t, s, [0.] * ny if all(lo) else [v / tot for v in inv], ny, nx)
    t.eq(s.flux, f0, 'flux_kept')
    if not all(lo):
        t.eq(np.sum(s.fitting_weight_profile), 1., 'adds_up_to_one')
    for j in range(ny):
        if lo[j]:
            t.check(bool(s.fitting_weight_profile[j] == 0.), 'low_rows_have_no_weight')
        else:
            t.le(0., s.fitting_weight_profile[j], 'no_negative_weights')


def none(t, repo, ny=3, nx=2):
    """without weighting every row counts the same"""
    np = t.np
    f = t.reals('f', (ny, nx), -5., 5.)
    s = spec(t, repo, f, np.ones((ny, nx)), np.ones((ny, nx)), [1], 'none')
    s.calculate_fit_weights()
    w = s.fitting_weight_profile
    t.check(len(w) == ny and np.shape(s.fitting_weight_matrix) == (ny, nx), 'weight_matrix')
    for j in (0, 2):
        t.eq(w[j], w[0], 'the_same_for_each_row')
        t.eq(s.fitting_weight_matrix[j], [w[0]] * nx, 'the_same_for_each_row')
    t.check(bool(w[0] > 0.), 'the_same_for_each_row')


def optimal(t, repo, ny=3, nx=2, nsky=(), low=()):
    """weights follow the Gaussian fitted to the spatial profile of the data with continuum"""
    np = t.np
    f = t.reals('f', (ny, nx), .1, 5.)
    err = np.array([[.5 + .25 * ((2 * j + 3 * i) % 5) for i in range(nx)] for j in range(ny)])
    sky = np.ones((ny, nx))
    for i in nsky:
        sky[:, i] = 0.
    s = spec(t, repo, np.ones((ny, nx)) * 7., err, sky, list(low), 'optimal')
    s.flux_incl_cont = f.copy()
    mu, sg, A = t.real('mu', -1., ny + 1.), t.real('sg', .5, 6.), t.real('A', .5, 10.)
    calls = []

    def hook(fn, p, args):
        calls.append(p)
        t.check(p.free() == ['A', 'mu', 'sigma'], 'position_width_and_amplitude_fitted')
        t.check(p['sigma'].min == 0., 'width_not_negative')
        r = fn(p.at(mu=1.25, sigma=.8, A=2.))
        want = 0.
        for j in range(ny):
            d = sum(f[j, i] for i in range(nx) if float(sky[j, i]))
            e = sum(float(err[j, i]) for i in range(nx) if float(sky[j, i]))
            m = 2. * math.exp(-(j - 1.25) ** 2 / (2. * .64)) / math.sqrt(2. * math.pi * .8)
            want = want + ((m - d) / e) ** 2
        t.eq(np.sum(r * r), want, 'what_the_fit_minimises', tol=1e-5)
        return dict(mu=mu, sigma=sg, A=A)
    repo.lm.hook = hook
    s.calculate_fit_weights()
    t.check(len(calls) == 1, 'one_fit')
    raw = [0. if j in low else np.exp(-(j - mu) ** 2 / (2. * sg ** 2)) for j in range(ny)]
    w = s.fitting_weight_profile
    ref = [j for j in range(ny) if j not in low]
    t.check(len(w) == ny, 'one_weight_per_row')
    for j in range(ny):
        # proportional to the fitted profile
        t.eq(w[j] * raw[ref[0]], w[ref[0]] * raw[j], 'proportional_to_the_profile')
        t.eq(s.fitting_weight_matrix[j], [w[j]] * nx, 'weight_matrix')
    t.eq(np.sum(w), 1., 'adds_up_to_one')


HARNESSES = [
    dict(name='up', fn=up, configs=[dict(), dict(ny=2, nx=2), dict(ny=3, nx=3, nsky=[1], low=[0]), dict(ny=3, nx=2, dead=1), dict(ny=4, low=[0, 3]), dict(ny=3, nx=2, low=[0, 1, 2])],
         thorough=[dict(ny=5, nx=2, low=[0, 4])]),
    dict(name='none', fn=none),
    dict(name='optimal', fn=optimal, configs=[dict(), dict(nsky=[0]), dict(low=[0]), dict(ny=4, low=[0, 3], nx=1)]),
]
