"""C31 preparing a spectrum for the fit: steps as a whole."""
from . import common as K
from lib import lmstub

FUNCTIONS = ['galaxy.ObsSpectrum2D.fit_prep_calcs', 'galaxy_utils.subtract_continuum_2D', 'galaxy_utils.trim_spectrum_2D_wavelength',
             'galaxy_utils.get_skyline_mask_2D', 'galaxy_utils.get_low_snr_mask_2D', 'galaxy_utils.trim_spectrum_2D_spatial',
             'galaxy_utils.vert_position', 'galaxy_utils.calculate_2D_fit_weights', 'galaxy_utils.get_m0_lam0_pos_2D']
BOUNDS = ('every scale of the flux in [0.5,2] times 1e-21, 1 and 1e21, every value and error recorded in masked pixels, every flux beyond '
          'the continuum range; spectra of 9 rows (30 when dithered) x 26 channels with the listed signal, sky lines, bad pixels and weights')
OUTSIDE = 'other spectra; steps are decided one by one for every value by C16-C20'
ASSUMPTIONS = ['lmfit.minimize returns the same values for the same data, amplitudes in units of the flux']
setup_lifted = setup_real = lmstub.install


def make(t, repo, s, ny=9, n=26, missing=(), wild=None, kind='up-edges', dead=(), sky=(8,), zero=(), dither=False, cont=.4, at=4.2, none=False, outside=None, werr=None, zero1=()):
    np = t.np
    z, missing = .5, [tuple(x) for x in missing]
    wave = [(96. + .7 * k) * (1. + z) for k in range(n)]
    f, e = [], []
    for j in range(ny):
        f.append([]), e.append([])
        for i in range(n):
            line = 6. * 2. ** -((i - 12.) ** 2 / 2.) * 2. ** -((j - at) ** 2 / 2.)
            noise = .11 * ((7 * i + 3 * j + i * j) % 9 - 4)
            f[j].append(s * (line + noise + cont * 2. ** -((j - at) ** 2 / 2.) + .01 * i))
            e[j].append(s * (.4 + .03 * ((3 * i + 5 * j) % 4) + (4. if i in sky else 0.)))
    if outside is not None:
        for j in range(ny):
            for i in (0, 1, 23, 24, 25):
                f[j][i] = f[j][i] + outside * (1 + j % 2)
    f1 = [sum(r[i] for r in f) for i in range(n)]
    if wild is not None:
        for (j, i) in missing:
            f[j][i] = wild
            if werr is not None:
                e[j][i] = werr
    for (j, i) in zero:
        e[j][i] = 0.
    g = repo.gal.Galaxy(z=z, n=1., re_arcsec=.5, q=.6, q0=.2)
    g.dither, g.delt_PA = dither, 0.
    m = [[0. if (j, i) in missing else 1. for i in range(n)] for j in range(ny)]
    sp = repo.gal.ObsSpectrum2D(wave=np.array(wave), flux=t.arr(f), flux_err=t.arr(e), spec_mask=np.array(m), band='H', linenames_arr=['L'],
                                restwave_arr=np.array([104.4]), flux_ratio_arr=np.array([1.]), weighting_type=kind, ypos=at + .1, row_snr_cut=2.,
                                wave_full_range_rest=np.array([97., 112.]), wave_line_range_rest=np.array([101., 108.]),
                                mask_lines_wave_range_rest=np.array([102., 107.]), band_cutoff=3., no_continuum_subtraction=none)
    g.set_spectrum_1D(repo.gal.ObsSpectrum1D(wave=np.array(wave), flux=t.arr(f1),
                                             flux_err=t.arr([0. if i in zero1 else s * 1.2 for i in range(n)])))
    g.set_spectrum_2D(sp)
    return g, sp


def hook(t, s, seen, m=.45):
    """every fit returns the same values, amplitudes in units of the flux"""
    def h(fn, p, args):
        k = len(seen)
        v = {}
        for i, a in enumerate(sorted(p.free())):
            c = .1 * ((3 * k + 5 * i) % 7 + 1)
            if a == 'deltl':
                v[a] = 8.2
            elif a == 'a':
                v[a] = s * c * .01
            elif a in ('b', 'A', 'C'):
                v[a] = s * c
            elif a == 'mu':
                lo = p[a].min
                v[a] = 3.6 + m if lo is None or abs(lo) > 1e6 else lo + (p[a].max - lo) * m
            else:
                v[a] = c
        r = fn(p.at(**v))
        seen.append((sorted(p.free()), t.np.sum(r * r)))
        return v
    return h


def prepare(t, repo, s=1., like=True, wild=None, m=.45, **kw):
    np = t.np
    ins = K.instrument(repo, pixscale=.18, slit_width=.18)
    g, sp = make(t, repo, s, wild=wild, **kw)
    seen = []
    repo.lm.hook = hook(t, s, seen, m)
    if not like:
        sp.fit_prep_calcs(g, ins)
        return g, sp, seen, None
    S = repo.kc.Theta2DSettings(theta=np.array([100., .4, 60., .1, .5]), theta_vary=np.array([True] * 4 + [False]), theta_names=list('abcde'),
                                theta_names_nice=list('abcde'), theta_bounds=[[-500., 500.]] * 5)
    F = repo.f2.FitEmissionLines2D(galaxy=g, instrument=ins, thetaSettings=S,
                                   kinModelOptions=repo.km.KinModel2DOptions(nSubpixels=1, adaptive_upsample_wave=False, sigma_floor=False))
    F.setup_model()
    F.kinModel.intensityProfile = Light(np)
    a = repo.fc.lnlike(np.array([100., .4, 60., .1]), F)
    chi = F.kinModel.model_chisq()
    return g, sp, seen, (chi, repo.fc.lnlike(np.array([-140., .6, 80., -.2]), F) - a, a)


class Light(object):
    def __init__(self, np):
        self.np = np

    def update_values(self, galaxy=None):
        pass

    def int(self, r, z):
        return self.np.array([2. ** -(j - 4.) ** 2 for k in range(r.shape[0]) for j in range(r.shape[1]) for i in range(r.shape[2])]).reshape(r.shape)


SAME = ('spec_mask', 'mask_sky', 'mask_low_snr', 'mask_qual', 'fitting_weight_profile', 'fitting_weight_matrix', 'wave', 'm0', 'm0_shift', 'ypos', 'lam0',
        'low_snr_row_inds')
FLUX = ('flux', 'flux_err', 'cont_model', 'flux_incl_cont')


def compare(t, x, y, s, only=False, unit=1.):
    a, b = x[1], y[1]
    t.check(t.np.shape(a.flux) == t.np.shape(b.flux), 'same_pixels')
    for n in SAME:
        u, v = getattr(a, n), getattr(b, n)
        t.check(t.np.shape(u) == t.np.shape(v), 'same_' + n)
        t.eq(v, u, 'same_' + n)
    for n in FLUX:
        w = a.spec_mask if only else 1.
        t.eq(getattr(b, n) * w / unit, s / unit * getattr(a, n) * w, 'same_' + n)
    t.check([k for k, _ in x[2]] == [k for k, _ in y[2]], 'same_fits')
    for (_, u), (_, v) in zip(x[2], y[2]):
        t.eq(v, u, 'same_fits', tol=1e-5)
    if x[3] is not None:
        t.eq(y[3][0], x[3][0], 'same_chi_squared', tol=1e-5)
        t.eq(y[3][1], x[3][1], 'same_likelihood', tol=1e-5)
        if only:
            t.eq(y[3][2], x[3][2], 'same_likelihood', tol=1e-5)


def scale(t, repo, unit=1., **kw):
    """the units of the flux don't matter"""
    s = t.real('s', .5, 2.) * unit
    m = t.real('m', .44, .46)
    compare(t, prepare(t, repo, 1., m=m, **kw), prepare(t, repo, s, m=m, **kw), s, unit=unit)


def masked(t, repo, missing=((4, 12), (2, 3)), nan=False, **kw):
    """what is recorded in pixels marked as bad doesn't matter"""
    w = float('nan') if nan else t.real('w', -1e4, 1e4)
    v = float('nan') if nan == 'error' else t.real('v', .1, 1e3)
    compare(t, prepare(t, repo, missing=missing, wild=.3, **kw), prepare(t, repo, missing=missing, wild=w, werr=v, **kw), 1., True)



def beyond(t, repo, **kw):
    """nor does the flux beyond the range of continuum and lines, nor next to the line but beyond the range of the fit"""
    kw['outside'] = t.real('w', -1e3, 1e3)
    compare(t, prepare(t, repo, **dict(kw, outside=.2)), prepare(t, repo, **kw), 1.)


def again(t, repo, angle=None, **kw):
    """a spectrum is prepared once; the parts of the result fit together"""
    np = t.np
    s = t.real('s', .5, 2.)
    ins = K.instrument(repo, pixscale=.18, slit_width=.18)
    g, sp = make(t, repo, s, **kw)
    pa = g.delt_PA = t.real('pa', -75., 75.)
    if angle is not None:
        g.delt_PA, g.sersicPA, sp.slit_PA, g.pstamp = None, pa + angle, angle + 30., repo.gal.Pstamp(img_PA=30.)
    given = {n: np.array(getattr(sp, n)) for n in ('flux', 'wave', 'spec_mask')}
    y0 = sp.ypos
    seen = []
    repo.lm.hook = hook(t, s, seen, t.real('m', .44, .46))
    sp.fit_prep_calcs(g, ins)
    n, k = np.shape(sp.flux)
    for a in ('flux_err', 'spec_mask', 'mask_sky', 'mask_low_snr', 'mask_qual', 'cont_model', 'flux_incl_cont', 'fitting_weight_matrix', 'spec_weight'):
        t.check(np.shape(getattr(sp, a)) == (n, k), 'same_shape')
    t.check(len(sp.wave) == k and len(sp.fitting_weight_profile) == n and sp.n_spatial == n, 'same_shape')
    t.check(bool(np.all(sp.wave >= 101. * 1.5)) and bool(np.all(sp.wave <= 108. * 1.5)), 'range_of_the_line')
    t.check(k == sum(1 for v in given['wave'] if 101. * 1.5 <= v <= 108. * 1.5), 'range_of_the_line')
    t.eq(sp.flux * sp.spec_mask, (sp.flux_incl_cont - sp.cont_model) * sp.spec_mask, 'continuum_taken_off')
    c0 = [i for i, v in enumerate(given['wave']) if v >= 101. * 1.5][0]
    r0 = sp.full_l_ind
    t.eq(sp.flux_incl_cont * sp.spec_mask, given['flux'][r0:r0 + n, c0:c0 + k] * sp.spec_mask, 'rows_and_channels_of_the_data')
    t.eq(sp.ypos, y0 - r0, 'position_of_the_rows')
    for j in range(n):
        low = j in [int(x) for x in sp.low_snr_row_inds]
        for i in range(k):
            # not masked: neither given as bad, nor next to the edge of the 1D spectrum, nor in a row of low signal
            ok = given['spec_mask'][r0 + j, c0 + i] == 1.
            t.check(bool(sp.mask_qual[j, i] == (1. if ok else 0.)), 'quality_mask')
            t.check(bool(sp.spec_mask[j, i] == (1. if ok and sp.mask_low_snr[j, i] else 0.)), 'mask_of_the_fit')
            if low:
                t.check(bool(sp.fitting_weight_matrix[j, i] == 0.) or kw.get('kind') == 'none', 'low_rows_weigh_nothing')
            t.eq(sp.fitting_weight_matrix[j, i], sp.fitting_weight_profile[j], 'weights_of_the_rows')
    t.check(sp.prepared_for_fitting is True, 'prepared')
    t.check(g.spec2D is sp, 'prepared')
    t.eq(g.delt_PA, pa, 'misalignment_of_galaxy_and_slit')
    calls = len(seen)
    before = {a: np.array(getattr(sp, a)) for a in SAME + FLUX}
    sp.fit_prep_calcs(g, ins)
    repo.f2.FitEmissionLines2D(galaxy=g, instrument=ins)
    t.check(len(seen) == calls, 'prepared_once')
    for a in SAME + FLUX:
        t.check(np.shape(getattr(sp, a)) == np.shape(before[a]), 'prepared_once')
        t.eq(getattr(sp, a), before[a], 'prepared_once')


CASES = [dict(), dict(kind='optimal'), dict(kind='none', missing=((4, 12), (5, 14)), sky=(8, 15)), dict(dither=True, ny=30, at=14.2), dict(none=True)]
HARNESSES = [
    dict(name='scale', fn=scale, configs=CASES + [dict(unit=1e-21), dict(unit=1e21, kind='optimal'), dict(zero=[[4, 9], [3, 20]]), dict(unit=1e-21, zero1=[14], zero=[[4, 9], [3, 20]])],
         must_reach=['same_likelihood']),
    dict(name='masked', fn=masked, configs=[dict(), dict(nan=True), dict(kind='optimal', zero1=[0, 20]), dict(nan='error'), dict(missing=((0, 3), (4, 12), (8, 24)), none=True),
                                            dict(nan=True, dither=True, ny=30, at=14.2),
                                            dict(missing=[[8, i] for i in range(26)]), dict(missing=[[0, i] for i in range(26)], kind='none')], must_reach=['same_likelihood']),
    dict(name='beyond', fn=beyond, configs=[dict(), dict(kind='optimal')], must_reach=['same_likelihood']),
    dict(name='again', fn=again, configs=CASES + [dict(angle=15.), dict(angle=-160., kind='optimal')], must_reach=['prepared_once']),
]
