"""C03 seeing: convolution of the spectral cube with the PSF."""
from . import common as K

FUNCTIONS = ['kin_functions.PSF_convolve', 'kin_functions.PSF_convolve_flat',
             'aper_model.AperModel2D.convolve_spectral_cube_PSF', 'aper_model.AperModel2D.setup_calcs']
BOUNDS = ('cubes of 2 channels x 2-3 rows x 3-4 columns with arbitrary non-negative light in two (thorough: three) '
          'voxels, every kernel of 3x3 or 3x5 non-negative samples with positive peak; every flat image of 3x4')
OUTSIDE = 'other sizes; rounding of the FFT'
ASSUMPTIONS = ['the FFT convolution of SciPy is replaced by the exact sum it computes']


def psf(t, repo, stamp, fwhm):
    P = K.instrument(repo, PSF_FWHM=fwhm).PSF
    P.set_conv_stamp(stamp)
    return P


def ref_conv(img, k):
    """centred 2D convolution, light outside is lost"""
    ny, nx = len(img), len(img[0])
    ky, kx = len(k), len(k[0])
    cy, cx = ky // 2, kx // 2
    out = [[0.] * nx for _ in range(ny)]
    for j in range(ny):
        for i in range(nx):
            s = 0.
            for b in range(ky):
                for a in range(kx):
                    jj, ii = j - (b - cy), i - (a - cx)
                    if 0 <= jj < ny and 0 <= ii < nx:
                        s = s + img[jj][ii] * k[b][a]
            out[j][i] = s
    return out


def cube(t, repo, ny, nx, kx, lit):
    """arbitrary light in the listed voxels (channel, row, column)"""
    np = t.np
    v = t.reals('c', len(lit), 0., 3.)
    C = t.arr(np.zeros((2, ny, nx)))
    for n, (w, j, i) in enumerate(lit):
        C[w, j, i] = v[n]
    k = t.reals('k', (1, 3, kx), 0., 1.)
    t.assume(k[0, 1, kx // 2] >= 0.1)
    tot = sum(v[n] for n in range(len(lit)))
    t.assume(tot >= 0.1)
    P = psf(t, repo, k, t.real('fwhm', 0.05, 2.))
    C0 = C.copy()
    out = repo.kf.PSF_convolve(C, P)
    t.check(out.shape == C.shape, 'same_shape')
    ref = [ref_conv([[C0[w, j, i] for i in range(nx)] for j in range(ny)],
                    [[k[0, b, a] for a in range(kx)] for b in range(3)]) for w in range(2)]
    rtot = sum(v for w in ref for r in w for v in r)
    t.eq(out * rtot, np.array(ref) * tot, 'convolved_per_channel')
    t.eq(np.sum(out) * rtot, tot * rtot, 'total_flux_conserved')
    t.eq(C, C0, 'input_untouched')


def no_seeing(t, repo):
    C = t.reals('c', (2, 3, 2), -3., 3.)
    P = psf(t, repo, t.reals('k', (1, 3, 3), 0., 1.), 0.)
    t.eq(repo.kf.PSF_convolve(C, P), C, 'identity')
    t.eq(repo.kf.PSF_convolve_flat(C[0], P), C[0], 'identity_flat')


def flat(t, repo):
    np = t.np
    C = t.reals('c', (3, 4), -3., 3.)
    k = t.reals('k', (3, 3), -1., 1.)
    out = repo.kf.PSF_convolve_flat(C, psf(t, repo, k, 0.5))
    t.eq(out, np.array(ref_conv([[C[j, i] for i in range(4)] for j in range(3)],
                                [[k[b, a] for a in range(3)] for b in range(3)])), 'convolved')


def in_model(t, repo, shared):
    """the model's cube: light of a point source ends up as the PSF centred on the source, also when another model
    has used the same instrument in between"""
    np = t.np
    ny, pix, fwhm = 3, 0.2, 0.25
    ins = K.instrument(repo, PSF_FWHM=fwhm, pixscale=pix, slit_width=0.6)
    g = K.galaxy(t, repo, ny=ny, wave=(6560., 6564., 6568.), m0=1.)

    class Probe(repo.am.AperModel2D):
        src = None

        def calculate_spectral_cube(self):
            self.spectra_cube = self.src

    f = t.reals('f', 2, 0.5, 3.)
    kp, ip = K.profiles(t, repo, g)
    pad = 1
    src = np.zeros((3, ny + 2 * pad, 3 + 2 * pad))
    src[1, pad + 1, pad + 1] = f[0]
    src[0, pad + 0, pad + 1] = f[1]
    Probe.src = src
    A = Probe(galaxy=g, instrument=ins, theta=np.array([100., .4, 60., 0., 0.]), kinProfile=kp, intensityProfile=ip,
              nSubpixels=1, pad_factor=0.8, adaptive_upsample_wave=False, sigma_floor=False)
    if shared:
        Q = K.grid2d(t, repo, K.galaxy(t, repo, ny=2), ins, np.array([100., .4, 60., 0., 0.]), nSubpixels=2)
        A.update_model(theta=np.array([100., .4, 60., 0., 0.]))
    k = ins.PSF.generate_conv_stamp(np.array([-.2, 0., .2]), np.array([-.2, 0., .2]))
    img = A.spectra_cube_conv
    t.check(img.shape == (3, ny, 3), 'trimmed_to_slit')
    t.eq(img[1] * k[1, 1], k * img[1, 1, 1], 'psf_about_the_source')
    t.eq(img[0, 0:2] * k[1, 1], k[1:3] * img[0, 0, 1], 'psf_about_edge_source')
    t.eq(img[2], np.zeros((ny, 3)), 'no_light_in_other_channel')


HARNESSES = [
    dict(name='cube', fn=cube, configs=[dict(ny=3, nx=3, kx=3, lit=[(0, 1, 1), (1, 0, 2)]),
                                        dict(ny=3, nx=3, kx=3, lit=[(0, 0, 0), (0, 2, 1)]),
                                        dict(ny=2, nx=3, kx=5, lit=[(1, 1, 0), (0, 0, 1)])],
         thorough=[dict(ny=3, nx=4, kx=3, lit=[(0, j, i), (1, 2 - j, 3 - i), (0, 1, 2)])
                   for j in range(3) for i in range(4) if (j, i) != (1, 2)]),
    dict(name='no_seeing', fn=no_seeing),
    dict(name='flat', fn=flat),
    dict(name='in_model', fn=in_model, configs=[dict(shared=False), dict(shared=True)]),
]
