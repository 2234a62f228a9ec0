"""C05 rebinning and collapse of the cube onto the detector."""
from . import common as K

FUNCTIONS = ['kin_functions.rebin', 'aper_model.AperModel2D.trim_downsample_spectral_cube',
             'aper_model.AperModel2D.convolve_spectral_cube_PSF', 'aper_model.AperModel2D.do_model_calcs']
BOUNDS = 'every real array of the listed shapes'
OUTSIDE = 'other shapes; floating point rounding'
ASSUMPTIONS = []


def rebin2(t, repo, shape, new):
    np = t.np
    a = t.reals('a', tuple(shape), -5., 5.)
    a0 = a.copy()
    out = repo.kf.rebin(a, *new)
    t.check(out.shape == tuple(new), 'requested_shape')
    f = [s // n for s, n in zip(shape, new)]
    if len(shape) == 2:
        for i in range(new[0]):
            for j in range(new[1]):
                t.eq(out[i, j], np.sum(a0[i * f[0]:(i + 1) * f[0], j * f[1]:(j + 1) * f[1]]), 'sum_of_block')
    else:
        for i in range(new[0]):
            for j in range(new[1]):
                for k in range(new[2]):
                    t.eq(out[i, j, k], np.sum(a0[i * f[0]:(i + 1) * f[0], j * f[1]:(j + 1) * f[1],
                                                 k * f[2]:(k + 1) * f[2]]), 'sum_of_block')
    t.eq(np.sum(out), np.sum(a0), 'total_conserved')
    t.eq(a, a0, 'input_untouched')


def collapse(t, repo, ny, nsub, slit, fwhm, pad, rebin=True):
    """from the cube to the 2D model: padding is dropped, the slit is summed across its width, subpixels are summed
    into detector rows, rows first and wavelengths second"""
    np = t.np
    pix = 0.2
    dy = pix / nsub
    nx = int(-(-slit // dy)) if abs(slit / dy - round(slit / dy)) > 1e-9 else int(round(slit / dy))
    dx = slit / nx
    px, py = int(round(fwhm * pad / dx)), int(round(fwhm * pad / dy))
    nW = 2
    C = t.reals('c', (nW, ny * nsub + 2 * py, nx + 2 * px), 0., 3.)
    ins = K.instrument(repo, PSF_FWHM=fwhm, pixscale=pix, slit_width=slit)
    g = K.galaxy(t, repo, ny=ny, wave=(6560., 6564.), m0=0.5)

    class Probe(repo.am.AperModel2D):
        def calculate_spectral_cube(self):
            self.spectra_cube = C

        def convolve_spectral_cube_PSF(self):
            self.spectra_cube_conv = self.spectra_cube

    kp, ip = K.profiles(t, repo, g)
    A = Probe(galaxy=g, instrument=ins, theta=np.array([100., .4, 60., 0., 0.]), kinProfile=kp, intensityProfile=ip,
              nSubpixels=nsub, pad_factor=pad, adaptive_upsample_wave=False, sigma_floor=False, rebin_output=rebin)
    m = A.model
    if not rebin:
        t.check(m.shape == (ny * nsub, nW), 'high_resolution_shape')
        for w in range(nW):
            for j in range(ny * nsub):
                t.eq(m[j, w], np.sum(C[w, py + j, px:px + nx]) * dx, 'subpixel_row')
        return
    t.check(m.shape == (ny, nW), 'rows_by_channels')
    for w in range(nW):
        for j in range(ny):
            t.eq(m[j, w], np.sum(C[w, py + j * nsub:py + (j + 1) * nsub, px:px + nx]) * dx, 'detector_row')


HARNESSES = [
    dict(name='rebin', fn=rebin2, configs=[dict(shape=(4, 6), new=(2, 3)), dict(shape=(3, 4), new=(3, 2)),
                                           dict(shape=(2, 4, 2), new=(2, 2, 1)), dict(shape=(6, 2), new=(2, 2)),
                                           dict(shape=(3, 2), new=(3, 2))],
         thorough=[dict(shape=(9, 8), new=(3, 2)), dict(shape=(4, 6, 9), new=(2, 2, 3)), dict(shape=(12, 5), new=(1, 5))]),
    dict(name='collapse', fn=collapse, configs=[
        dict(ny=2, nsub=1, slit=0.5, fwhm=0., pad=.5), dict(ny=2, nsub=2, slit=0.4, fwhm=0., pad=.5),
        dict(ny=3, nsub=1, slit=0.4, fwhm=0.6, pad=.5), dict(ny=2, nsub=2, slit=0.25, fwhm=0.6, pad=.5),
        dict(ny=3, nsub=1, slit=0.4, fwhm=0.6, pad=1.5), dict(ny=2, nsub=2, slit=0.25, fwhm=0.6, pad=.5, rebin=False)],
         thorough=[dict(ny=n, nsub=s, slit=l, fwhm=f, pad=p) for n in (2, 4) for s in (1, 2, 3) for l in (0.4, 0.7)
                   for f in (0.5, 0.9) for p in (0.5, 1.)]),
]
