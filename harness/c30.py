"""C30 light that falls off the middle of the slit is displaced in wavelength by its offset."""
import math
from . import common as K
from .c27 import seeing, convolve
from lib import lmstub

FUNCTIONS = ['kin_functions.calculate_effective_inst_res_lam_shift', 'kin_functions.check_slit_illum', 'kin_functions.lmfit_gaussian',
             'kin_functions.gaus_residual_FWHM', 'kin_functions.gaus_from_fwhm', 'kin_functions.PSF_convolve',
             'aper_model.AperModel2D.calculate_spectral_cube', 'aper_model.AperModel2D.convolve_instrument_resolution',
             'aper_model.AperModel2D.update_model', 'aper_model.AperModel1DRot.calculate_kin_cube']
BOUNDS = ('every centre in [-1.5,1.5] slit widths and full width in [0.05,3] arcsec the fit of a row may give, every velocity of the galaxy; models '
          'of 1-2 rows x 2-3 slit columns x 2 channels with and without seeing, histories of two centre shifts; apertures of 1-2 rows')
OUTSIDE = 'that the fit finds the Gaussian of the row; the deprecated resolution that varies along the slit; wider grids'
ASSUMPTIONS = ['lmfit.minimize returns some value of each parameter']
setup_lifted = setup_real = lmstub.install

PIX = .2
F2S = 2. * math.sqrt(2. * math.log(2.))


class Light(object):
    """uneven light of known amounts"""

    def __init__(self, np, shape=1):
        self.np, self.shape = np, shape

    def update_values(self, galaxy=None):
        pass

    def at(self, k):
        return 1. + ((5 + 2 * self.shape) * k % 7) * .4

    def int(self, r, z):
        sh = self.np.shape(r)
        n = 1
        for k in sh:
            n *= k
        return self.np.array([self.at(k) for k in range(n)]).reshape(sh)


def fits(t, repo, name, x, light, out=0, width=(.05, 3.)):
    """any Gaussian for any row, beyond the slit in row `out`; what is fitted is the light in the slit"""
    np = t.np
    G = []

    def hook(fn, p, args):
        j = len(G)
        free = sorted(p.free())
        t.check(free == ['A', 'FWHM', 'mu'], 'gaussian_of_the_row')
        y = light[j % len(light)]
        u, v, w = (fn(p.at(A=a, mu=.05, FWHM=.3)) for a in (0., 1., 2.))
        t.check(len(u) == len(x), 'light_within_the_slit')
        for i in range(len(x)):
            t.eq(u[i] * y[0], u[0] * y[i], 'light_within_the_slit', tol=1e-7)
            g = math.exp(-(x[i] - .05) ** 2 / (2. * (.3 / F2S) ** 2))
            g0 = math.exp(-(x[0] - .05) ** 2 / (2. * (.3 / F2S) ** 2))
            # one more unit of amplitude adds one Gaussian, which takes away as much of the residual as the light adds
            t.eq((v[i] - u[i]) * g0, (v[0] - u[0]) * g, 'gaussian_of_the_row', tol=1e-7)
            t.eq(w[i] - v[i], v[i] - u[i], 'gaussian_of_the_row', tol=1e-7)
        t.check(bool(u[0] * (v[0] - u[0]) < 0.), 'gaussian_of_the_row')
        b = .6 if out in (j, None) else .4 * (x[1] - x[0]) * .5 * len(x)
        g = dict(mu=t.real('%smu%d' % (name, j), -b, b), FWHM=t.real('%sf%d' % (name, j), *width), A=2.)
        G.append(g)
        return g
    repo.lm.hook = hook
    return G


def offset(mu, slit):
    if mu > .5 * slit:
        return .5 * slit
    if mu < -.5 * slit:
        return -.5 * slit
    return mu


def image(t, repo, ny=1, slit=.4, fwhm=0., res=50., shift=None, pa=25., light=1, out=0, wide=False, znew=None, only=False):
    """2D model: every row is displaced by its own offset"""
    np = t.np
    va = t.real('va', -300., 300.)
    rest, z = 6564.6, 0.
    wave = (6561., 6567.)
    g = K.galaxy(t, repo, ny=ny, wave=wave, rest=(rest,), m0=.3, q=.6, delt_PA=pa)
    ins = K.instrument(repo, PSF_FWHM=fwhm, pixscale=PIX, slit_width=slit, instrument_resolution=res)
    L = Light(np, light)
    kp = repo.kc.KinProfileFiducial()
    mx = int(math.ceil(round(slit / PIX, 9)))
    dx = slit / mx
    px, py = int(round(fwhm * .5 / dx)), int(round(fwhm * .5 / PIX))
    nx, nY, nz = mx + 2 * px, ny + 2 * py, ny
    I = [[[L.at((k * nY + j) * nx + i) for i in range(nx)] for j in range(nY)] for k in range(nz)]
    S = [[sum(I[k][j][i] for k in range(nz)) for i in range(nx)] for j in range(nY)]
    if fwhm > 0.:
        hx, hy = int(math.floor(round(fwhm / dx, 9))), int(math.floor(round(fwhm / PIX, 9)))
        k = {(b, a): seeing('Gaussian', fwhm, a * dx, b * PIX) for a in range(-hx, hx + 1) for b in range(-hy, hy + 1)}
        S = convolve(S, nx, nY, k, hx, hy)
    rows = [r[px:px + mx] for r in S]
    x = [(i - .5 * (mx - 1)) * dx for i in range(mx)]
    th = [va, .4, 60., .1, z]
    if shift in (None, .1) or wide:
        G = fits(t, repo, 'a', x, rows, out, (.2, .3) if only else (.05, 3.))
    else:
        G = fits(t, repo, 'a', x, rows, -1, (.2, .21))

    class Cube(repo.am.AperModel2D):
        # the cube only
        def convolve_spectral_cube_PSF(self):
            pass

        def trim_downsample_spectral_cube(self):
            self.model_out = self.spectra_cube[:, :, 0]

        def convolve_instrument_resolution(self):
            pass
    cls = Cube if only else repo.am.AperModel2D
    m = cls(galaxy=g, instrument=ins, theta=t.arr(th), kinProfile=kp, intensityProfile=L, nSubpixels=1,
                            adaptive_upsample_wave=False, sigma_floor=False, do_position_wave_shift=True)
    t.check(len(G) == nY, 'a_fit_for_each_row')
    if shift is not None:
        z = z if znew is None else znew
        th = [va + 1., .5, 60., shift, z]
        if shift != .1:
            G = fits(t, repo, 'b', x, rows, out, (.05, 3.) if wide else (.2, .3))
        m.update_model(theta=t.arr(th))
        if shift != .1:
            t.check(len(G) == nY, 'a_fit_for_each_row')
    si = repo.kf.sin_i(g.q, q0=g.q0)
    ci = math.sqrt(1. - si * si)
    t.check(np.shape(m.spectra_cube) == (2, nY, nx), 'shape')
    for j in range(nY):
        d = offset(G[j]['mu'], slit) / slit * F2S * res
        for i in range(nx):
            for w in range(2):
                s = 0.
                for k in range(nz):
                    X, Y, Z = K.ref_rotate(t, (i - .5 * (nx - 1)) * dx, (j - py - .3 - th[3]) * PIX, (k - .5 * (nz - 1)) * PIX, pa, si, ci)
                    r = math.sqrt(X * X + Y * Y)
                    v = 2. / math.pi * th[0] * math.atan(r / th[1]) * Y / r * si + d
                    s = s + I[k][j][i] * K.ref_gauss(t, wave[w], rest * (1. + z) * (1. + v / K.C_KMS), th[2] / K.C_KMS * rest * (1. + z))
                t.eq(m.spectra_cube[w, j, i], s * PIX, 'displaced_by_the_offset')


def aperture(t, repo, n=2, slit=.55, fwhm=0., res=50., again=False, pa=25., out=0):
    """rotating disk in an aperture: likewise"""
    np = t.np
    va, v2s = t.real('va', 5., 300.), 2.
    rt = .4
    g = K.galaxy(t, repo, ny=1, wave=(6561., 6567.), rest=(6564.6,), q=.6, delt_PA=pa)
    ins = K.instrument(repo, PSF_FWHM=fwhm, slit_width=slit, instrument_resolution=res)
    L = Light(np)
    kp = repo.kc.KinProfileFiducial()
    dy = 1. / n
    mx = int(math.ceil(slit / dy))
    dx = slit / mx
    px, py = int(round(fwhm * .5 / dx)), int(round(fwhm * .5 / dy))
    nx, nY = mx + 2 * px, n + 2 * py
    I = [[[L.at((k * nY + j) * nx + i) for i in range(nx)] for j in range(nY)] for k in range(n)]
    S = [[sum(I[k][j][i] for k in range(n)) for i in range(nx)] for j in range(nY)]
    kern = None
    if fwhm > 0.:
        hx, hy = int(math.floor(round(fwhm / dx, 9))), int(math.floor(round(fwhm / dy, 9)))
        hx, hy = min(hx, (nx - 1) // 2), min(hy, (nY - 1) // 2)
        kern = {(b, a): seeing('Gaussian', fwhm, a * dx, b * dy) for a in range(-hx, hx + 1) for b in range(-hy, hy + 1)}
        C = convolve(S, nx, nY, kern, hx, hy)
    else:
        C = S
    x = [(i - .5 * (mx - 1)) * dx for i in range(mx)]
    G = fits(t, repo, 'a', x, [r[px:px + mx] for r in C], out)
    m = repo.am.AperModel1DRot(galaxy=g, instrument=ins, theta=t.arr([v2s, va, rt]), kinProfile=kp, intensityProfile=L, nPixels=n, extraction_width=1.,
                               extraction_method='boxcar', do_position_wave_shift=True)
    t.check(len(G) == nY, 'a_fit_for_each_row')
    if again:
        va, rt = va + 3., .5
        m.theta = t.arr([v2s, va, rt])
        m.calc_aper_correction()
    si = repo.kf.sin_i(g.q, q0=g.q0)
    ci = math.sqrt(1. - si * si)
    sg = 2. / math.pi * va * math.atan(.5 / rt) / v2s
    R = []
    for j in range(nY):
        d = offset(G[j]['mu'], slit) / slit * F2S * res
        R.append([])
        for i in range(nx):
            s = 0.
            for k in range(n):
                X, Y, Z = K.ref_rotate(t, (i - .5 * (nx - 1)) * dx, (j - .5 * (nY - 1)) * dy, (k - .5 * (n - 1)) * dy, pa, si, ci)
                r = math.sqrt(X * X + Y * Y)
                v = (2. / math.pi * va * math.atan(r / rt) * Y / r * si if r > 1e-12 else 0.) + d
                s = s + I[k][j][i] * (v ** 2 + sg ** 2)
            R[j].append(s)
    if kern:
        R = convolve(R, nx, nY, kern, hx, hy)
    num = sum(R[py + j][px + i] for j in range(n) for i in range(mx))
    den = sum(C[py + j][px + i] for j in range(n) for i in range(mx))
    t.eq(m.sigma_aper ** 2 * den, num, 'displaced_by_the_offset')


HARNESSES = [
    dict(name='image', fn=image, configs=[dict(), dict(ny=2, out=1), dict(slit=.6, fwhm=.2, out=1), dict(shift=-.2), dict(shift=-.2, znew=2e-4), dict(shift=.1, res=90.),
                                            dict(fwhm=.4, out=2, only=True)],
         thorough=[dict(shift=-.2, wide=True), dict(ny=2, out=None), dict(slit=.6, fwhm=.2, out=2), dict(ny=2, fwhm=.4, out=3)], must_reach=['displaced_by_the_offset']),
    dict(name='aperture', fn=aperture, configs=[dict(), dict(again=True, n=1), dict(n=1, slit=.3, fwhm=.9)],
         thorough=[dict(out=1), dict(n=1, slit=.3, fwhm=.9, out=1)], must_reach=['displaced_by_the_offset']),
]
