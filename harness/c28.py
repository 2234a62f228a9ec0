"""C28 mock observations: slit images and IFU cubes of a given galaxy."""
import math
from . import common as K

FUNCTIONS = ['generate_basic.generate_mock_basis', 'generate_basic.generate_mock_slit_obs', 'generate_basic.generate_mock_IFU_cube',
             'kin_model.KinModel2D.make_3D_int_model', 'kin_model.KinModel2D._downsample_cube', 'kin_model.KinModel2D.make_model']
BOUNDS = ('every velocity, turnover radius, dispersion and centre shift [-0.4,0.4] rows; images of 1-3 rows x 2 channels and cubes of 2x2-3x3 '
          'spaxels x 2 channels; the listed angles, axis ratios, seeing, resolution, subpixels')
OUTSIDE = 'larger images; the default minimum of 13 rows is checked through the shape only'
ASSUMPTIONS = ['exp, arctan, sqrt are uninterpreted apart from functional-equation and monotonicity facts']

PIX = .2
WAVE = (6561., 6569.)
BASE = dict(ID=5, n=1., re_arcsec=.5, q=.6, q0=.2, delt_PA=25., instrument_name='I', band='H', line_primary='HA6565', linegroup_name='Halpha',
            pixscale=PIX, instrument_resolution=0., PSF_FWHM=0., PSF_type='Gaussian', z=0., slit_width=.2, nSubpixels=1)


def pars(t, vary=('va', 's0'), sign=1., shift=.1):
    d = dict(Va=110., rt=.4, sigma0=120., yshift=shift)
    for k, n, lo, hi in (('va', 'Va', 1., 300.), ('rt', 'rt', .1, 2.), ('s0', 'sigma0', 80., 200.), ('shift', 'yshift', -.4, .4)):
        if k in vary:
            d[n] = t.real(k, lo, hi)
    d['Va'] = d['Va'] * sign
    return d


def args(t, p, ny, **kw):
    d = dict(BASE, wave=t.np.array(list(WAVE)), slit_length=(ny - .3) * PIX, nymin=1)
    d.update(p)
    d.update(kw)
    return d


def off(t, repo, p, ny, d, nx, nsub=1, px=0, py=0):
    """no cell on the axis of rotation"""
    si = repo.kf.sin_i(d.get('q', .6), q0=.2)
    ci = math.sqrt(1. - si * si)
    h = PIX / nsub
    dx = d.get('slit_width', .2) / (nx * nsub) if nx else h
    for z in K.grid1(ny * nsub, h):
        for j in range(-py, ny * nsub + py):
            y = ((j + .5) / nsub - .5 * ny - p['yshift']) * PIX
            for x in K.grid1((nx or ny) * nsub + 2 * px, dx):
                a, b, c = K.ref_rotate(t, x, y, z, d.get('delt_PA', 25.), si, ci)
                r2 = a * a + b * b
                if isinstance(r2, float):
                    t.check(r2 > 1e-12, 'cells_off_the_axis')
                else:
                    t.assume_ge(r2, 1e-4)


class Light(object):
    """a distribution of light of which two cells are arbitrary (linear), the rest uneven"""

    def __init__(self, t, scale=False):
        self.t, self.v = t, [t.real('light%d' % i, 0., 9.) for i in range(2)]
        self.scale, self.updated = scale, []

    def update_values(self, galaxy=None):
        self.updated.append(galaxy)

    def int(self, r, z):
        np = self.t.np
        sh = np.shape(r)
        n = 1
        for k in sh:
            n *= k
        base = [1. + (7 * k % 5) * .3 for k in range(n)]
        if self.scale:
            return np.array(base).reshape(sh) * self.v[0]
        base[n // 2], base[n // 3] = self.v
        return self.t.arr(base).reshape(sh)


def by_hand(t, repo, d, ny, cube=False, light=None):
    """the model put together from its parts"""
    np = t.np
    ins = K.instrument(repo, PSF_type=d['PSF_type'], PSF_FWHM=d['PSF_FWHM'], pixscale=d['pixscale'], slit_width=ny * PIX if cube else d['slit_width'],
                       slit_length=d['slit_length'], instrument_resolution=d['instrument_resolution'])
    g = K.galaxy(t, repo, ny=ny, wave=WAVE, rest=(6564.6,), ratio=(1.,), z=d['z'], n=d['n'], re_arcsec=d['re_arcsec'], q=d['q'], q0=d['q0'],
                 delt_PA=d['delt_PA'], m0=.5 * ny - .5)
    S = repo.kc.Theta2DSettings(theta=np.array([100., .5, 60., 0., 0.]), theta_vary=np.array([True] * 5), theta_names=list('abcde'),
                                theta_names_nice=list('abcde'))
    m = repo.km.KinModel2D(g, thetaSettings=S, kinProfile=repo.kc.KinProfileFiducial(), intensityProfile=light or repo.kc.IntensityProfileFiducial(g),
                           kinModelOptions=repo.km.KinModel2DOptions(nSubpixels=d['nSubpixels'], pad_factor=d.get('pad_factor', .5)))
    m.no_scale = True
    th = t.arr([d['Va'], d['rt'], d['sigma0'], d['yshift'], d['z']])
    (m.make_3D_int_model if cube else m.make_model)(galaxy=g, instrument=ins, theta_fitting=th)
    return m.model_cube if cube else m.model


def image(t, repo, ny=2, vary=('va', 's0'), shift=.1, cube=False, light=False, **kw):
    """the image of the galaxy, dispersion, centre and instrument that were asked for"""
    p = pars(t, vary, shift=shift)
    d = args(t, p, ny, **kw)
    dx = d['slit_width']
    ns = d['nSubpixels']
    pad = int(round(d['PSF_FWHM'] * .5 / (PIX / ns)))
    off(t, repo, p, ny, d, 0 if cube else 1, ns, pad, pad)
    fn = repo.mock.generate_mock_IFU_cube if cube else repo.mock.generate_mock_slit_obs
    if light:
        light = Light(t)
        got = fn(intensityProfile=light, **d)
    else:
        got = fn(**d)
    t.check(t.np.shape(got) == ((2, ny, ny) if cube else (ny, 2)), 'shape')
    t.eq(got, by_hand(t, repo, d, ny, cube, light), 'model_of_the_parameters')
    if d['PSF_FWHM'] == 0. and d['instrument_resolution'] == 0.:
        t.check(t.np.all(got >= 0.), 'no_negative_light')


def summed(t, repo, ny=3, vary=('va',), shift=.1, wide=1, **kw):
    """the slit image is the sum of the spaxels behind the slit"""
    p = pars(t, vary, shift=shift)
    d = args(t, p, ny, slit_width=wide * PIX, **kw)
    off(t, repo, p, ny, d, 0)
    img = repo.mock.generate_mock_slit_obs(**d)
    cube = repo.mock.generate_mock_IFU_cube(**d)
    lo = (ny - wide) // 2
    t.check(t.np.shape(cube) == (2, ny, ny), 'shape')
    s = 0.
    for i in range(lo, lo + wide):
        s = s + cube[:, :, i]
    a, b = img, s.T
    # the model of the slit may be scaled as a whole
    t.eq(a * t.np.sum(b), b * t.np.sum(a), 'sum_of_the_spaxels')


def turned(t, repo, ny=2, vary=('va',), by=180., **kw):
    """a galaxy turned on the sky gives the turned cube; with the rotation reversed, the flipped one"""
    np = t.np
    p = pars(t, vary, shift=0.)
    d = args(t, p, ny, **kw)
    e = dict(d, delt_PA=d['delt_PA'] + by)
    for x in (d, e):
        off(t, repo, p, ny, x, 0)
    a, b = repo.mock.generate_mock_IFU_cube(**d), repo.mock.generate_mock_IFU_cube(**e)
    n = int(round(by / 90.)) % 4
    for j in range(ny):
        for i in range(ny):
            y, x = j, i
            for _ in range(n):
                # counter-clockwise by a quarter turn: (x, y) -> (-y, x)
                x, y = y, ny - 1 - x
            t.eq(b[:, j, i], a[:, y, x], 'turned_cube')


def square(t, repo, ny=3, ns=3, **kw):
    """an IFU cube is as wide as long, for any subpixels"""
    d = args(t, pars(t, ()), ny, nSubpixels=ns, **kw)
    c = repo.mock.generate_mock_IFU_cube(intensityProfile=Light(t, True), **d)
    t.check(t.np.shape(c) == (2, ny, ny), 'as_wide_as_long')
    t.check(t.np.sum(c) >= 0., 'no_negative_light')


def rows(t, repo, length=None):
    """a slit too short is lengthened to the minimum"""
    for n, nymin, want in ((.3, 2, 2), (.5, 2, 3), (.41, 1, 3), (.7, 13, 13), (.2, None, 13), (2.9, None, 15)):
        d = args(t, pars(t, ('va', 's0')), 2, slit_length=n, nymin=nymin)
        if nymin is None:
            del d['nymin']
        m, g, i = repo.mock.generate_mock_basis(**d)
        t.check(list(g.spec2D.shape) == [want, 2], 'rows')
        t.eq(g.spec2D.m0, .5 * want - .5, 'centre')
        t.eq(i.slit_length, max(n, (nymin or 13) * PIX), 'length')
        t.eq(m.theta, [d['Va'], d['rt'], d['sigma0'], d['yshift'], d['z']], 'parameters')
        t.check(m.n_free_param == 0, 'nothing_free')


HARNESSES = [
    dict(name='image', fn=image, configs=[dict(), dict(vary=['va', 'rt'], nSubpixels=2, ny=1), dict(vary=['shift'], ny=1),
                                          dict(vary=[], light=True, PSF_FWHM=.4, delt_PA=-50.),
                                          dict(vary=[], light=True, instrument_resolution=60., PSF_type='Moffat', PSF_FWHM=.2, pad_factor=1.),
                                          dict(cube=True), dict(cube=True, vary=[], light=True, PSF_FWHM=.4, delt_PA=-50.),
                                          dict(cube=True, vary=['rt'], z=.001, nSubpixels=2)],
         must_reach=['model_of_the_parameters']),
    dict(name='summed', fn=summed, configs=[dict(vary=['rt']), dict(ny=2, wide=2, vary=['s0']), dict(ny=2, wide=2, delt_PA=-70., vary=['va', 'rt'])]),
    dict(name='turned', fn=turned, configs=[dict(), dict(by=90.), dict(by=270., vary=['s0'], q=.4), dict(by=90., ny=4, vary=['va'])]),
    dict(name='square', fn=square, configs=[dict(), dict(ns=5), dict(ns=2, ny=2)]),
    dict(name='rows', fn=rows),
]
