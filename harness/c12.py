"""C12 goodness of fit: chi squared, likelihood, masks and weights."""
import math
from . import common as K

FUNCTIONS = ['kin_model.KinModel2D.model_chisq', 'kin_model.KinModel2D.model_redchisq', 'kin_model.KinModel2D.model_llike',
             'kin_model.KinModel2D.model_redchisq_no_weight']
BOUNDS = ('every flux and model in [-5,5], error in [0.1,3], weight in [0,4], 2x2 pixels (thorough 3x4), every mask; every '
          'number of free parameters from 0 to 5 with fewer than the unmasked pixels')
OUTSIDE = 'larger spectra; missing flux in masked pixels; floating point rounding'
ASSUMPTIONS = ['logarithm uninterpreted apart from functional-equation and monotonicity facts']


def setup(t, repo, ny, nw, nfree=3):
    np = t.np
    flux, err = t.reals('flux', (ny, nw), -5., 5.), t.reals('err', (ny, nw), 0.1, 3.)
    wt = t.reals('weight', (ny, nw), 0., 4.)
    mask = t.arr(np.zeros((ny, nw)))
    on = []
    for j in range(ny):
        for w in range(nw):
            if t.flag('mask%d%d' % (j, w)):
                mask[j, w] = 1.
                on.append((j, w))
    g = K.galaxy(t, repo, ny=ny, wave=[6500. + 3. * i for i in range(nw)], flux=flux, err=err, weight=wt, mask=mask)
    kp, ip = K.profiles(t, repo, g)
    th = repo.kc.Theta2DSettingsFiducial(theta_vary=np.array([i < nfree for i in range(5)]))
    M = repo.km.KinModel2D(g, kinProfile=kp, intensityProfile=ip, thetaSettings=th)

    class A(object):
        pass
    M.aperModel = A()
    M.aperModel.galaxy = g
    M.model = t.reals('model', (ny, nw), -5., 5.)
    return M, flux, err, wt, mask, on


def chisq(t, repo, ny, nw, nfree):
    M, f, e, w, mask, on = setup(t, repo, ny, nw, nfree)
    m0 = M.model.copy()
    chi = sum((w[i] * ((f[i] - m0[i]) / e[i]) ** 2 for i in on), 0.)
    raw = sum((((f[i] - m0[i]) / e[i]) ** 2 for i in on), 0.)
    t.eq(M.model_chisq(), chi, 'weighted_chi_squared_over_unmasked')
    t.le(0., M.model_chisq(), 'chi_squared_not_negative')
    if len(on) > nfree:
        dof = float(len(on) - nfree)
        t.eq(M.model_redchisq(), chi / dof, 'reduced_by_unmasked_minus_free')
        t.eq(M.model_redchisq_no_weight(), raw / dof, 'reduced_without_weights')
    t.eq(M.model, m0, 'model_untouched')
    t.eq(M.aperModel.galaxy.spec2D.fitting_weight_matrix, w, 'weights_untouched')


def llike(t, repo, ny, nw):
    """log-likelihoods of two models of the same data differ by minus half of the difference of chi squared"""
    M, f, e, w, mask, on = setup(t, repo, ny, nw)
    L0, c0 = M.model_llike(), M.model_chisq()
    M.model = t.reals('second', (ny, nw), -5., 5.)
    L1, c1 = M.model_llike(), M.model_chisq()
    t.eq(L1 - L0, -0.5 * (c1 - c0), 'likelihood_falls_by_half_of_chi_squared')
    if not on:
        t.eq(L1, 0., 'nothing_unmasked')


def masked_pixels(t, repo):
    """data, errors and weights of masked pixels have no effect on any statistic"""
    np = t.np
    out = []
    f, e, w = t.reals('flux', (2, 2), -5., 5.), t.reals('err', (2, 2), .1, 3.), t.reals('weight', (2, 2), 0., 4.)
    m = t.reals('model', (2, 2), -5., 5.)
    for k in range(2):
        ff, ee, ww, mm = f.copy(), e.copy(), w.copy(), m.copy()
        ff[0, 1], ee[0, 1], mm[0, 1] = t.real('f%d' % k, -99., 99.), t.real('e%d' % k, .01, 99.), t.real('m%d' % k, -99., 99.)
        ww[0, 1] = t.real('w%d' % k, 0., 9.)
        g = K.galaxy(t, repo, ny=2, wave=(6500., 6503.), flux=ff, err=ee, weight=ww, mask=np.array([[1., 0.], [1., 1.]]))
        kp, ip = K.profiles(t, repo, g)
        M = repo.km.KinModel2D(g, kinProfile=kp, intensityProfile=ip,
                               thetaSettings=repo.kc.Theta2DSettingsFiducial(theta_vary=np.array([True, True, False, False, False])))

        class A(object):
            pass
        M.aperModel = A()
        M.aperModel.galaxy = g
        M.model = mm
        out.append((M.model_chisq(), M.model_llike(), M.model_redchisq(), M.model_redchisq_no_weight()))
    for a, b in zip(*out):
        t.eq(a, b, 'masked_pixels_have_no_effect')


HARNESSES = [
    dict(name='chisq', fn=chisq, configs=[dict(ny=2, nw=2, nfree=n) for n in (0, 1, 2, 3)] + [dict(ny=2, nw=3, nfree=5)],
         thorough=[dict(ny=3, nw=3, nfree=n) for n in (2, 4)]),
    dict(name='llike', fn=llike, configs=[dict(ny=2, nw=2)], thorough=[dict(ny=2, nw=4)]),
    dict(name='masked_pixels', fn=masked_pixels),
]
