"""C04 instrumental resolution."""
import math
from . import common as K

FUNCTIONS = ['kin_functions.inst_convol_complete', 'kin_functions.convol_instconstfwhm', 'kin_functions.gaus_from_fwhm',
             'aper_model.AperModel2D.convolve_instrument_resolution']
BOUNDS = ('every non-negative 2D model of 4 or 5 channels x 2 rows (thorough up to 7 x 3) on uniform wavelengths, '
          'instrument dispersions of 0.3 to 4 channels')
OUTSIDE = 'other sizes, non-uniform wavelengths; rounding of the FFT'
ASSUMPTIONS = ['the FFT convolution of SciPy is replaced by the exact sum it computes',
               'exponentials are uninterpreted apart from sign, monotonicity and functional-equation facts']


def ref(t, M, sig, dw, nW, nY):
    """every channel spread as a Gaussian of that dispersion over the channels within half of the (odd) array"""
    np = t.np
    h = (nW - 1) // 2
    g = [np.exp(-(d * dw) ** 2 / (2. * sig * sig)) if d else 1. for d in range(h + 1)]
    out = [[0.] * nY for _ in range(nW)]
    for i in range(nW):
        for j in range(nW):
            d = abs(i - j)
            if d <= h:
                for k in range(nY):
                    out[i][k] = out[i][k] + M[j, k] * g[d]
    return out


def conv(t, repo, nW, nY, dw=2.):
    np = t.np
    M = t.reals('m', (nW, nY), 0., 3.)
    tot = sum(M[i, k] for i in range(nW) for k in range(nY))
    t.assume(tot >= 0.1)
    sig = t.real('sig', 0.3 * dw, 4. * dw)
    wave = np.array([6560. + dw * i for i in range(nW)])
    M0 = M.copy()
    out = repo.kf.inst_convol_complete(M, wave, sig)
    t.check(out.shape == (nW, nY), 'same_shape')
    R = ref(t, M0, sig, dw, nW, nY)
    rtot = sum(v for r in R for v in r)
    t.eq(out * rtot, np.array(R) * tot, 'gaussian_of_the_instrument_dispersion')
    t.eq(np.sum(out) * rtot, tot * rtot, 'total_flux_conserved')


def step(t, repo, spec_type, nW, rest=(5000., 5010.)):
    """the model's resolution step: the velocity dispersion of the instrument, at the observed line"""
    np = t.np
    dw = 2. if spec_type == 'wave' else 80.
    wave = [5000. + dw * i for i in range(nW)] if spec_type == 'wave' else [-80. + dw * i for i in range(nW)]
    z = t.real('z', 0., 3.)
    res = t.real('res', 30., 200.)
    g = K.galaxy(t, repo, ny=2, wave=wave, rest=rest, ratio=(1., 0.3), spec_type=spec_type)
    ins = K.instrument(repo, instrument_resolution=res)
    A = K.grid2d(t, repo, g, ins, np.array([100., .4, 60., 0., z]), spec_type=spec_type)
    M = t.reals('m', (nW, 2), 0., 3.)
    tot = sum(M[i, k] for i in range(nW) for k in range(2))
    t.assume(tot >= 0.1)
    A.model_out = M.copy()
    A.convolve_instrument_resolution()
    sig = res / K.C_KMS * rest[0] * (1. + z) if spec_type == 'wave' else res
    R = ref(t, M, sig, dw, nW, 2)
    rtot = sum(v for r in R for v in r)
    t.eq(A.model_out * rtot, np.array(R) * tot, 'dispersion_at_the_line')
    ins.instrument_resolution = 0.
    A.model_out = M.copy()
    A.convolve_instrument_resolution()
    t.eq(A.model_out, M, 'perfect_resolution_is_identity')


def gaus(t, repo):
    np = t.np
    x = t.reals('x', 3, -5., 5.)
    f = t.real('fwhm', 0.1, 5.)
    c = t.real('x0', -5., 5.)
    y = repo.kf.gaus_from_fwhm(x, f, c)
    t.eq(y, np.exp(-4. * math.log(2.) * (x - c) ** 2 / f ** 2), 'fwhm')


HARNESSES = [
    dict(name='conv', fn=conv, configs=[dict(nW=5, nY=2), dict(nW=4, nY=2)],
         thorough=[dict(nW=7, nY=2), dict(nW=6, nY=3, dw=0.7), dict(nW=3, nY=3)]),
    dict(name='step', fn=step, configs=[dict(spec_type='wave', nW=3), dict(spec_type='velocity', nW=4), dict(spec_type='wave', nW=3, rest=(5010., 4960.))]),
    dict(name='gaus', fn=gaus),
]
