"""C09 small velocity dispersions: wavelength upsampling and dispersion floor."""
import math
from . import common as K

FUNCTIONS = ['aper_model.AperModel2D.setup_calcs', 'aper_model.AperModel2D.check_do_upsample_wave',
             'aper_model.AperModel2D.calculate_spectral_cube', 'aper_model.AperModel2D.downsample_to_real_wave',
             'aper_model.AperModel2D.do_model_calcs', 'aper_model.AperModel2D.update_model']
BOUNDS = ('every dispersion in [0.5,60] and [-60,-0.5] (wavelength) or [0.5,90] km/s (velocity), and every second dispersion after it; '
          'one cell on the rotation axis, 3 channels; upsampling factors 3 and 2 (thorough: 4, 5)')
OUTSIDE = 'non-integer upsampling factors; floating point rounding; dispersions within 1e-3 km/s of a threshold'
ASSUMPTIONS = ['exp is uninterpreted apart from functional-equation and monotonicity facts']


def expected(t, wave, lam0, s0, spec_type, up, floor, fac, absval):
    """(the model, wavelength by wavelength) of one cell of intensity exp(1.676), 0.2 arcsec wide and deep"""
    np = t.np
    d = wave[1] - wave[0]
    unit = d / lam0 * K.C_KMS / 2.35 if spec_type == 'wave' else d / 2.35
    if absval:
        s0 = abs(s0)
    a = abs(s0)
    fl = (0.75 * unit / fac if up else unit) if floor else 0.
    fine = (a < unit) if up else False
    t.assume(abs(a - unit) >= 1e-3)
    t.assume(abs(a - fl) >= 1e-3)
    s = fl if floor and a < fl else s0
    n = fac if fine else 1
    out = []
    for w in wave:
        v = 0.
        for k in range(n):
            x = w + (k - 0.5 * (n - 1)) * d / n
            if spec_type == 'wave':
                v = v + K.ref_gauss(t, x, lam0, s / K.C_KMS * lam0)
            else:
                v = v + K.ref_gauss(t, x, 0., s)
        out.append(v / n * math.exp(1.676) * 0.2 * 0.2)
    return out


def build(t, repo, wave, lam0, spec_type, th, up, floor, fac, absval):
    g = K.galaxy(t, repo, ny=1, wave=wave, rest=(lam0,), m0=0., spec_type=spec_type)
    ins = K.instrument(repo, pixscale=0.2, slit_width=0.2)
    return K.aper2d(t, repo, g, ins, th, spec_type=spec_type, adaptive_upsample_wave=up, sigma_floor=floor,
                    adaptive_upsample_factor=float(fac), absvalsigma=absval)


def single(t, repo, spec_type, up, floor, fac=3, absval=False, neg=False):
    np = t.np
    lam0 = 6564.
    wave = (6560., 6563., 6566.) if spec_type == 'wave' else (-90., 10., 110.)
    s0 = t.real('s0', -60. if absval or neg else 0.5, (-.5 if neg else 60.) if spec_type == 'wave' else 90.)
    if absval:
        t.assume(abs(s0) >= 0.5)
    A = build(t, repo, wave, lam0, spec_type, np.array([100., .4, s0, 0., 0.]), up, floor, fac, absval)
    t.check(A.model.shape == (1, 3), 'detector_shape')
    t.eq(A.model[0], expected(t, wave, lam0, s0, spec_type, up, floor, fac, absval), 'mean_of_the_finer_channels')


def rows(t, repo, up, fac=3, ny=2):
    """every row is the mean of its own finer channels"""
    np = t.np
    lam0, wave = 6564., (6560., 6563., 6566.)
    s0 = t.real('s0', 0.5, 60.)
    g = K.galaxy(t, repo, ny=ny, wave=wave, rest=(lam0,), m0=0., delt_PA=0.)
    ins = K.instrument(repo, pixscale=0.2, slit_width=0.2)
    make = lambda s, u: K.aper2d(t, repo, g, ins, np.array([0., .4, s, 0., 0.]), adaptive_upsample_wave=u, sigma_floor=True, adaptive_upsample_factor=float(fac))
    B = make(90., False).model
    A = make(s0, up)
    t.check(A.model.shape == (ny, 3) and B.shape == (ny, 3), 'detector_shape')
    w, v = (expected(t, wave, lam0, s, 'wave', u, True, fac, False) for s, u in ((s0, up), (90., False)))
    for j in range(ny):
        t.ge(B[j, 1], .01, 'rows_have_light')
        t.eq([A.model[j, k] * v[1] for k in range(3)], [w[k] * B[j, 1] for k in range(3)], 'rows_keep_their_light')


def again(t, repo, spec_type, up, floor, fac=3):
    """the second dispersion gets the same treatment whatever the first one was"""
    np = t.np
    lam0 = 6564.
    wave = (6560., 6563., 6566.) if spec_type == 'wave' else (-90., 10., 110.)
    hi = 60. if spec_type == 'wave' else 90.
    s0, s1 = t.real('s0', 0.5, hi), t.real('s1', 0.5, hi)
    A = build(t, repo, wave, lam0, spec_type, np.array([100., .4, s0, 0., 0.]), up, floor, fac, False)
    t.eq(A.wave_arr, list(wave), 'wavelengths_restored')
    A.update_model(theta=np.array([100., .4, s1, 0., 0.]))
    t.eq(A.model[0], expected(t, wave, lam0, s1, spec_type, up, floor, fac, False), 'no_memory_of_previous_dispersion')


def theta_untouched(t, repo):
    """the floor applies to the calculation only: the parameters keep their values"""
    np = t.np
    s0 = t.real('s0', 0.5, 60.)
    th = np.array([100., .4, s0, 0., 0.])
    A = build(t, repo, (6560., 6563., 6566.), 6564., 'wave', th, True, True, 3, False)
    t.eq(A.theta, [100., .4, s0, 0., 0.], 'parameters_kept')
    t.eq(th, [100., .4, s0, 0., 0.], 'input_kept')


HARNESSES = [
    dict(name='single', fn=single, configs=[dict(spec_type='wave', up=True, floor=True), dict(spec_type='wave', up=False, floor=True),
                                            dict(spec_type='wave', up=True, floor=False), dict(spec_type='wave', up=False, floor=False),
                                            dict(spec_type='velocity', up=True, floor=True),
                                            dict(spec_type='velocity', up=False, floor=True),
                                            dict(spec_type='wave', up=True, floor=True, fac=2),
                                            dict(spec_type='wave', up=False, floor=False, absval=True),
                                            dict(spec_type='wave', up=True, floor=True, absval=True), dict(spec_type='wave', up=True, floor=False, neg=True),
                                            dict(spec_type='wave', up=True, floor=True, neg=True), dict(spec_type='wave', up=False, floor=True, neg=True)],
         thorough=[dict(spec_type=s, up=True, floor=f, fac=n) for s in ('wave', 'velocity') for f in (True, False) for n in (4, 5)]),
    dict(name='rows', fn=rows, configs=[dict(up=True), dict(up=False), dict(up=True, fac=2, ny=3)], must_reach=['rows_keep_their_light']),
    dict(name='again', fn=again, configs=[dict(spec_type='wave', up=True, floor=True), dict(spec_type='velocity', up=True, floor=True),
                                          dict(spec_type='wave', up=False, floor=True)]),
    dict(name='theta_untouched', fn=theta_untouched),
]
