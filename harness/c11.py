"""C11 amplitude of the model: one least-squares factor per detector row."""
from . import common as K

FUNCTIONS = ['kin_model.KinModel2D.scale_model', 'kin_model.KinModel2D.make_model']
BOUNDS = ('every model in [0,5] (also with rows that are zero), every flux in [-5,5] or missing, every error in [0.1,3], 1-2 rows '
          'x 2-3 wavelengths, every listed set of sky-free channels')
OUTSIDE = 'larger spectra; zero errors; models brighter than 0 but fainter than 1e-3; floating point rounding'
ASSUMPTIONS = []


class _Aper(object):
    pass


def kin_model(t, repo, g):
    kp, ip = K.profiles(t, repo, g)
    return repo.km.KinModel2D(g, kinProfile=kp, intensityProfile=ip)


def scale(t, repo, ny, nw, nosky, zero=(), missing=()):
    np = t.np
    missing = [tuple(i) for i in missing]
    flux, err = t.reals('flux', (ny, nw), -5., 5.), t.reals('err', (ny, nw), 0.1, 3.)
    for j, w in missing:
        flux[j, w] = float('nan')
    m = t.reals('model', (ny, nw), 1e-3, 5.)
    for j in zero:
        m[j] = 0. * m[j]
    g = K.galaxy(t, repo, ny=ny, wave=[6500. + 3. * i for i in range(nw)], flux=flux, err=err,
                 wh_nosky=np.array(list(nosky), dtype=int))
    M = kin_model(t, repo, g)
    M.model = m.copy()
    f0, e0 = flux.copy(), err.copy()
    M.scale_model(g)
    t.check(M.model.shape == (ny, nw), 'shape')
    for j in range(ny):
        if j in zero or not nosky or any((j, w) in missing for w in nosky):
            t.eq(M.model[j], [0.] * nw, 'nothing_to_scale_to')
            continue
        num = sum((flux[j, w] * m[j, w] / err[j, w] ** 2 for w in nosky), 0.)
        den = sum((m[j, w] ** 2 / err[j, w] ** 2 for w in nosky), 0.)
        for w in range(nw):
            t.eq(M.model[j, w], m[j, w] * (num / den), 'least_squares_amplitude_of_the_row')
    ok = [(j, w) for j in range(ny) for w in range(nw) if (j, w) not in missing]
    t.eq([flux[i] for i in ok], [f0[i] for i in ok], 'data_untouched')
    t.eq(err, e0, 'errors_untouched')
    t.eq(g.spec2D.wh_nosky, list(nosky), 'sky_channels_untouched')


def sky_is_ignored(t, repo):
    """what the data are in a channel on a skyline has no effect"""
    np = t.np
    nosky = [0, 2]
    m = t.reals('model', (1, 3), 1e-3, 5.)
    out = []
    base, be = t.reals('flux', (1, 3), -5., 5.), t.reals('err', (1, 3), 0.1, 3.)
    for k in range(2):
        flux, err = base.copy(), be.copy()
        flux[0, 1], err[0, 1] = t.real('f%d' % k, -9., 9.), t.real('e%d' % k, 0.1, 9.)
        g = K.galaxy(t, repo, ny=1, wave=(6500., 6503., 6506.), flux=flux, err=err, wh_nosky=np.array(nosky))
        M = kin_model(t, repo, g)
        M.model = m.copy()
        M.scale_model(g)
        out.append(M.model)
    t.eq(out[0], out[1], 'skyline_data_ignored')


def made_model_is_scaled(t, repo, noscale, how):
    """the model that make/update hand out is the aperture model scaled to the data, row by row (or as it is)"""
    np = t.np
    ny = 2
    flux, err = t.reals('flux', (ny, 2), -5., 5.), t.reals('err', (ny, 2), 0.1, 3.)
    g = K.galaxy(t, repo, ny=ny, wave=(6560., 6566.), rest=(6564.,), m0=0.7, flux=flux, err=err, wh_nosky=np.array([0, 1]))
    kp, ip = K.profiles(t, repo, g)
    M = repo.km.KinModel2D(g, kinProfile=kp, intensityProfile=ip, kinModelOptions=repo.km.KinModel2DOptions(nSubpixels=1),
                           thetaSettings=repo.kc.Theta2DSettingsFiducial(theta=np.array([0., 0., 0., 0.2, 0.])))
    M.no_scale = noscale
    ins = K.instrument(repo, pixscale=0.2, slit_width=0.2)
    th = np.array([120., .4, 60.])
    M.make_model(galaxy=g, instrument=ins, theta_fitting=th)
    if how == 'update':
        th = np.array([-90., .3, 75.])
        M.update_model(theta_fitting=th)
    raw = M.aperModel.model
    for j in range(ny):
        num = sum(flux[j, w] * raw[j, w] / err[j, w] ** 2 for w in range(2))
        den = sum(raw[j, w] ** 2 / err[j, w] ** 2 for w in range(2))
        for w in range(2):
            t.eq(M.model[j, w], raw[j, w] if noscale else raw[j, w] * (num / den), 'model_scaled_to_the_data')
    f = repo.am.AperModel2D(galaxy=g, instrument=ins, theta=np.array(list(th) + [0.2, 0.]), kinProfile=repo.kc.KinProfileFiducial(),
                            intensityProfile=repo.kc.IntensityProfileFiducial(g), nSubpixels=1)
    t.eq(raw, f.model, 'unscaled_model_kept')


HARNESSES = [
    dict(name='scale', fn=scale, configs=[
        dict(ny=2, nw=3, nosky=[0, 1, 2]), dict(ny=2, nw=3, nosky=[0, 2]), dict(ny=2, nw=2, nosky=[1]), dict(ny=1, nw=2, nosky=[]),
        dict(ny=2, nw=2, nosky=[0, 1], zero=[1]), dict(ny=2, nw=2, nosky=[0, 1], missing=[(1, 0)]),
        dict(ny=2, nw=3, nosky=[0, 2], missing=[(0, 1)])],
         thorough=[dict(ny=3, nw=5, nosky=[0, 1, 3, 4], zero=[2]), dict(ny=3, nw=6, nosky=[0, 2, 4], missing=[(0, 1), (1, 2)])]),
    dict(name='sky_is_ignored', fn=sky_is_ignored),
    dict(name='made_model_is_scaled', fn=made_model_is_scaled, configs=[dict(noscale=n, how=h) for n in (False, True)
                                                                        for h in ('make', 'update')]),
]
