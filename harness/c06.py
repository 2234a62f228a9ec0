"""C06 sampling of the slit: where the model's cells sit on the sky and in the galaxy."""
import math
from . import common as K

FUNCTIONS = ['aper_model.AperModel2D.setup_model_grid', 'kin_functions.transform_int_3d', 'kin_functions.sin_i']
BOUNDS = ('every galaxy centre m0 in [-1,4] rows, shift in [-2,2] rows, slit offset, position angle and axis ratio, for '
          'the listed pixel scales, subpixel factors, slit widths, paddings and row counts')
OUTSIDE = 'other grid sizes; slit masks (not implemented in the package); floating point rounding'
ASSUMPTIONS = ['sine and cosine are represented by unit-circle pairs with monotonicity facts']


def layout(ny, nsub, pix, slit, fwhm, pad):
    dy = pix / nsub
    nx = int(math.ceil(slit / dy - 1e-9))
    dx = slit / nx
    px, py = int(round(fwhm * pad / dx)), int(round(fwhm * pad / dy))
    return dy, dx, nx, px, py


def cells(t, repo, ny, nsub, pix, slit, fwhm, pad, generate=False, more=False):
    """the intensity profile is asked for galaxy-frame positions of a regular grid of cells that covers the slit and
    the detector rows, with the galaxy centre at row m0 + shift and at the slit offset"""
    np = t.np
    m0 = t.real('m0', -1., 4.)
    sh = t.real('shift', -2., 2.)
    xc = t.real('xc', -0.5, 0.5)
    pa = t.real('pa', -180., 180.)
    q = t.real('q', 0.25, 1.)
    g = K.galaxy(t, repo, ny=ny, m0=m0, delt_PA=pa, q=q, q0=0.2)
    if generate:
        g.generate_model = True
        g.spec2D.shape = (ny, 3)
        g.spec2D.flux = None
    ins = K.instrument(repo, PSF_FWHM=fwhm, pixscale=pix, slit_width=slit)
    seen = {}

    class Spy(repo.kc.IntensityProfileFiducial):
        def int(self, r, z):
            seen['r'], seen['z'] = r, z
            return 0. * r + 1.

    class Grid(repo.am.AperModel2D):
        def do_model_calcs(self):
            pass

    Grid(galaxy=g, instrument=ins, theta=np.array([100., .4, 60.] + ([7., 3.] if more else []) + [sh, 0.]), kinProfile=repo.kc.KinProfileFiducial(),
         intensityProfile=Spy(g), nSubpixels=nsub, pad_factor=pad, xc=xc)
    dy, dx, nx, px, py = layout(ny, nsub, pix, slit, fwhm, pad)
    r, z = seen['r'], seen['z']
    t.check(r.shape == (ny * nsub, ny * nsub + 2 * py, nx + 2 * px), 'cells_cover_slit_and_padding')
    si = repo.kf.sin_i(q, q0=0.2)
    inc = np.arcsin(si)
    ci = np.cos(inc)
    xs = [v - xc for v in K.grid1(nx + 2 * px, dx)]
    # centre of cell j of row R sits at R + (subcell - (nsub-1)/2)/nsub rows
    ys = [((j - py) / nsub + 0.5 / nsub - 0.5 - m0 - sh) * pix for j in range(ny * nsub + 2 * py)]
    zs = K.grid1(ny * nsub, dy)
    for k in sorted(set([0, ny * nsub - 1])):
        for j in sorted(set([0, py, len(ys) - 1])):
            for i in sorted(set([0, nx - 1, len(xs) - 1])):
                a, b, c = K.ref_rotate(t, xs[i], ys[j], zs[k], pa, si, ci)
                t.eq(r[k, j, i] ** 2, a * a + b * b, 'radius_in_the_disk')
                t.eq(z[k, j, i], c, 'height_above_the_disk')


def steps(t, repo, ny, nsub, pix, slit, fwhm, pad):
    """all neighbouring cells are one cell apart, seen from outside: face-on, unrotated galaxy"""
    np = t.np
    m0 = t.real('m0', -1., 4.)
    g = K.galaxy(t, repo, ny=ny, m0=m0, delt_PA=0., q=1., q0=0.2)
    ins = K.instrument(repo, PSF_FWHM=fwhm, pixscale=pix, slit_width=slit)
    seen = {}

    class Spy(repo.kc.IntensityProfileFiducial):
        def int(self, r, z):
            seen['r'], seen['z'] = r, z
            return 0. * r + 1.

    class Grid(repo.am.AperModel2D):
        def do_model_calcs(self):
            pass

    Grid(galaxy=g, instrument=ins, theta=np.array([100., .4, 60., 0., 0.]), kinProfile=repo.kc.KinProfileFiducial(),
         intensityProfile=Spy(g), nSubpixels=nsub, pad_factor=pad)
    dy, dx, nx, px, py = layout(ny, nsub, pix, slit, fwhm, pad)
    r, z = seen['r'], seen['z']
    X = K.grid1(nx + 2 * px, dx)
    Z = K.grid1(ny * nsub, dy)
    for j in range(ny * nsub + 2 * py):
        y = ((j - py) / nsub + 0.5 / nsub - 0.5 - m0) * pix
        for i in range(len(X)):
            t.eq(r[0, j, i] ** 2, X[i] ** 2 + y * y, 'cell_centres')
    for k in range(len(Z)):
        t.eq(z[k], np.zeros(z[k].shape) + Z[k], 'depth_cells')
    # light falling on every row and slit cell is symmetric about the slit axis
    t.eq(r, r[:, :, ::-1], 'slit_symmetric')


G = [dict(ny=2, nsub=1, pix=0.2, slit=0.4, fwhm=0., pad=.5), dict(ny=3, nsub=2, pix=0.18, slit=0.7, fwhm=0.6, pad=.5),
     dict(ny=2, nsub=3, pix=0.25, slit=0.5, fwhm=0.5, pad=1.)]
GX = [dict(ny=n, nsub=s, pix=p, slit=l, fwhm=f, pad=d) for n in (2, 5) for s in (1, 2, 3, 4) for p in (0.18, 0.25)
      for l in (0.7, 1.0) for f, d in ((0., .5), (0.6, 0.5), (0.8, 1.))]
HARNESSES = [
    dict(name='cells', fn=cells, configs=G + [dict(ny=2, nsub=2, pix=0.2, slit=0.4, fwhm=0., pad=.5, generate=True),
                                              dict(ny=3, nsub=1, pix=0.2, slit=0.6, fwhm=0., pad=.5, more=True),
                                              dict(ny=13, nsub=2, pix=0.18, slit=0.7, fwhm=0.6, pad=.5)], thorough=GX),
    dict(name='steps', fn=steps, configs=G, thorough=GX[::5]),
]
