"""C02 PSF stamps."""
import math
from . import common as K

FUNCTIONS = ['instrument.PSFGaussian.generate_conv_stamp', 'instrument.PSFMoffat.generate_conv_stamp',
             'instrument.PSF_stamp_gauss', 'instrument.PSF_stamp_moffat', 'aper_model.AperModel2D.setup_calcs',
             'aper_model.AperModel2D.setup_model_grid']
BOUNDS = ('stamps of 3x2 samples at arbitrary offsets in [-2,2] arcsec, FWHM in [0.2,2], Moffat beta in [1.02,8], '
          'nod distance in [0.5,4]; model kernels for the listed FWHM / pixel scale / slit width combinations')
OUTSIDE = 'other grid sizes; floating point rounding'
ASSUMPTIONS = ['powers with a symbolic exponent are uninterpreted apart from monotonicity facts']


def psf(repo, kind, **kw):
    return K.instrument(repo, PSF_type=kind, **kw).PSF


def radial(t, repo, kind):
    """every sample is the same decreasing function of distance to the centre, normalised to its peak, which falls
    to one half at half of the FWHM; rows follow y and columns follow x"""
    np = t.np
    fw = t.real('fwhm', 0.2, 2.)
    x = t.reals('x', 3, -2., 2.)
    y = t.reals('y', 2, -2., 2.)
    kw = {}
    if kind == 'Moffat':
        kw['PSF_beta'] = beta = t.real('beta', 1.02, 8.)
    P = psf(repo, kind, PSF_FWHM=fw, **kw)
    s = P.generate_conv_stamp(x, y)
    t.check(s.shape == (2, 3), 'rows_are_y')
    c = P.generate_conv_stamp(np.array([0.]), np.array([0.]))[0, 0]
    h = P.generate_conv_stamp(np.array([0.]), np.array([0.5 * fw]))[0, 0]
    t.eq(h / c, 0.5, 'half_at_half_fwhm')
    t.check(c > 0., 'positive_peak')
    for j in range(2):
        for i in range(3):
            r2 = x[i] ** 2 + y[j] ** 2
            if kind == 'Gaussian':
                ref = np.exp(-4. * math.log(2.) * r2 / fw ** 2)
            else:
                ref = np.power(1. + 4. * (np.power(2., 1. / beta) - 1.) * r2 / fw ** 2, -beta)
            t.eq(s[j, i] / c, ref, 'profile')
    o = P.generate_conv_stamp(x, y, PSF_FWHM=fw)
    t.eq(o, s, 'explicit_fwhm_same')


def other_fwhm(t, repo, kind):
    """an explicit width overrides the one of the PSF"""
    fw, g = t.real('fwhm', 0.2, 2.), t.real('other', 0.2, 2.)
    x, y = t.reals('x', 2, -2., 2.), t.reals('y', 1, -2., 2.)
    kw = dict(PSF_beta=t.real('beta', 1.02, 8.)) if kind == 'Moffat' else {}
    a = psf(repo, kind, PSF_FWHM=fw, **kw).generate_conv_stamp(x, y, PSF_FWHM=g)
    b = psf(repo, kind, PSF_FWHM=g, **kw).generate_conv_stamp(x, y)
    t.eq(a, b, 'explicit_fwhm')


def moffat_beta_default(t, repo):
    np = t.np
    fw = t.real('fwhm', 0.2, 2.)
    r = t.real('r', 0., 2.)
    P = psf(repo, 'Moffat', PSF_FWHM=fw)
    v = P.generate_conv_stamp(np.array([0., r]), np.array([0.]))
    t.eq(v[0, 1] / v[0, 0], np.power(1. + 4. * (2. ** 0.4 - 1.) * r ** 2 / fw ** 2, -2.5), 'beta_2_5')
    h = P.generate_conv_stamp(np.array([0., 0.5 * fw]), np.array([0.]))
    t.eq(h[0, 1] / h[0, 0], 0.5, 'half_at_half_fwhm')


def dither(t, repo, kind):
    """a nodded observation: the stamp minus half of itself at either nod position"""
    fw = t.real('fwhm', 0.2, 2.)
    d = t.real('nod', 0.5, 4.)
    x = t.reals('x', 2, -2., 2.)
    y = t.reals('y', 2, -2., 2.)
    kw = dict(PSF_beta=t.real('beta', 1.02, 8.)) if kind == 'Moffat' else {}
    P = psf(repo, kind, PSF_FWHM=fw, yspace_dither_arc=d, **kw)
    Q = psf(repo, kind, PSF_FWHM=fw, **kw)
    s = P.generate_conv_stamp(x, y)
    c = Q.generate_conv_stamp(x, y)
    u, l = Q.generate_conv_stamp(x, y + d), Q.generate_conv_stamp(x, y - d)
    t.eq(s * fw ** 2, (c - 0.5 * u - 0.5 * l) * fw ** 2, 'nod_negatives')


def model_kernel(t, repo, fwhm, kind, pix, slit, nsub, xc=0.):
    """the kernel a 2D model convolves with: the PSF sampled on the model's own pixels out to the FWHM, with its
    peak on the middle element of an odd array, whatever the position of the galaxy"""
    np = t.np
    m0 = t.real('m0', -1., 3.)
    w = t.real('dfwhm', 0., 0.01) + fwhm
    g = K.galaxy(t, repo, ny=2, m0=m0)
    ins = K.instrument(repo, PSF_FWHM=w, PSF_type=kind, pixscale=pix, slit_width=slit)
    A = K.grid2d(t, repo, g, ins, np.array([100., .4, 60., 0., 0.]), nSubpixels=nsub, xc=xc)
    dy = pix / nsub
    nx = int(math.ceil(slit / dy - 1e-9))
    dx = slit / nx
    k = ins.PSF._conv_stamp
    ny_, nx_ = k.shape[1:]
    t.check(k.shape[0] == 1, 'one_channel')
    t.check(ny_ % 2 == 1 and nx_ % 2 == 1, 'odd_kernel')
    cy, cx = ny_ // 2, nx_ // 2
    t.check((cy + 1) * dy > fwhm * (1 - 1e-9) and (cx + 1) * dx > fwhm * (1 - 1e-9), 'reaches_the_fwhm')
    ref = ins.PSF.generate_conv_stamp(np.array([(i - cx) * dx for i in range(nx_)]),
                                      np.array([(j - cy) * dy for j in range(ny_)]))
    t.eq(k[0] * ref[cy, cx], ref * k[0, cy, cx], 'samples_of_the_psf')
    t.eq(k[0], k[0, ::-1, :], 'symmetric_y')
    t.eq(k[0], k[0, :, ::-1], 'symmetric_x')
    t.check(k[0, cy, cx] > 0., 'peak_in_the_middle')


HARNESSES = [
    dict(name='radial', fn=radial, configs=[dict(kind='Gaussian'), dict(kind='Moffat')]),
    dict(name='other_fwhm', fn=other_fwhm, configs=[dict(kind='Gaussian'), dict(kind='Moffat')]),
    dict(name='moffat_beta_default', fn=moffat_beta_default),
    dict(name='dither', fn=dither, configs=[dict(kind='Gaussian'), dict(kind='Moffat')]),
    dict(name='model_kernel', fn=model_kernel, configs=[
        dict(fwhm=0.5, kind='Gaussian', pix=0.2, slit=0.4, nsub=1),
        dict(fwhm=0.7, kind='Moffat', pix=0.2, slit=0.7, nsub=1),
        dict(fwhm=0.3, kind='Gaussian', pix=0.2, slit=0.4, nsub=2, xc=0.1)],
        thorough=[dict(fwhm=w, kind=k, pix=p, slit=s, nsub=n)
                  for w in (0.25, 0.6, 0.85) for k in ('Gaussian', 'Moffat') for p in (0.18, 0.25)
                  for s in (0.5, 0.7) for n in (1, 2)]),
]
