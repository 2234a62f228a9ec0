"""C08 the spectral cube: every cell emits its lines at its own velocity and dispersion."""
import math
from . import common as K

FUNCTIONS = ['kin_functions.add_sigma_collapse_z', 'kin_functions.I_simple_collapse',
             'aper_model.AperModel2D.calculate_spectral_cube', 'aper_model.AperModel2D.setup_model_grid']
BOUNDS = ('every cube of 2 channels, up to 2x1x2 cells and two lines: intensities in [0,5], velocities in [-600,600] km/s, '
          'dispersions in [5,300] km/s, redshift in [0,3], line ratios in [0,3]; models of 1-2 rows x 2 slit cells with '
          'every velocity, turnover, dispersion, position angle, centre and slit offset')
OUTSIDE = 'larger grids (each cell is computed alike); floating point rounding'
ASSUMPTIONS = ['exp, arctan, sine and cosine are uninterpreted apart from functional-equation, monotonicity and '
               'unit-circle facts']


def cube(t, repo, spec_type, nlines, nW=2, nZ=2, nY=1, nX=2):
    np = t.np
    I = t.reals('I', (nZ, nY, nX), 0., 5.)
    V = t.reals('V', (nZ, nY, nX), -600., 600.)
    S = t.reals('S', (nZ, nY, nX), 5., 300.)
    z = t.real('z', 0., 3.)
    dz = t.real('dz', 0.05, 1.)
    rest = [5000. + 20. * i for i in range(nlines)]
    ratio = t.reals('ratio', nlines, 0., 3.)
    wave = t.reals('wave', nW, 4900., 20200.) if spec_type == 'wave' else t.reals('wave', nW, -900., 900.)
    Im = np.tile(I, (nW, 1, 1, 1))
    W = np.repeat(wave, nZ * nY * nX).reshape((nW, nZ, nY, nX))
    out = repo.kf.add_sigma_collapse_z(I, V, S, wave, z, np.array(rest), ratio, nW, nZ, nY, nX, dz, 2., Im, W,
                                       spec_type=spec_type)
    t.check(out.shape == (nW, nY, nX), 'shape')
    for w in range(nW):
        for j in range(nY):
            for i in range(nX):
                ref = 0.
                for k in range(nZ):
                    if spec_type == 'wave':
                        for n in range(nlines):
                            lam = rest[n] * (1. + z)
                            ref = ref + ratio[n] * I[k, j, i] * K.ref_gauss(
                                t, wave[w], lam * (1. + V[k, j, i] / K.C_KMS), S[k, j, i] / K.C_KMS * lam)
                    else:
                        ref = ref + I[k, j, i] * K.ref_gauss(t, wave[w], V[k, j, i], S[k, j, i])
                t.eq(out[w, j, i], ref * dz, 'sum_of_gaussian_lines')


def zero_dispersion(t, repo, spec_type, nW):
    """all of the light of a cell falls in the channel nearest to its line"""
    np = t.np
    nZ, nY, nX = 2, 1, 1
    I = t.reals('I', (nZ, nY, nX), 0.1, 5.)
    V = t.reals('V', (nZ, nY, nX), -600., 600.)
    S = np.zeros((nZ, nY, nX))
    z, lam0 = 0.5, 6000.
    wave = np.array([8980. + 14. * i for i in range(nW)] if spec_type == 'wave' else
                    [-500. + 450. * i for i in range(nW)])
    Im = np.tile(I, (nW, 1, 1, 1))
    W = np.repeat(wave, nZ * nY * nX).reshape((nW, nZ, nY, nX))
    dz = t.real('dz', 0.05, 1.)
    out = repo.kf.add_sigma_collapse_z(I, V, S, wave, z, np.array([lam0]), np.array([1.]), nW, nZ, nY, nX, dz, 14., Im, W,
                                       spec_type=spec_type)
    t.eq(np.sum(out), (I[0, 0, 0] + I[1, 0, 0]) * dz, 'no_light_lost')
    for w in range(nW):
        exp = 0.
        for k in range(nZ):
            pos = lam0 * (1. + z) * (1. + V[k, 0, 0] / K.C_KMS) if spec_type == 'wave' else V[k, 0, 0]
            lo = wave[w] - 0.5 * (wave[1] - wave[0]) if w else -1e9
            hi = wave[w] + 0.5 * (wave[1] - wave[0]) if w < nW - 1 else 1e9
            # ties excluded
            for e in (lo, hi):
                t.assume(abs(pos - e) >= 1e-3)
            exp = exp + t.ite(pos > lo, t.ite(pos < hi, I[k, 0, 0], 0.), 0.)
        t.eq(out[w, 0, 0], exp * dz, 'nearest_channel')


def model_cube(t, repo, ny, nsub, spec_type, rest, pa=None, q=None):
    """end to end: the cube of the model is the disk's light, rotating as V(r) cos(phi) sin(i)"""
    np = t.np
    va, rt, s0 = t.real('va', -400., 400.), t.real('rt', 0.05, 2.), t.real('s0', 10., 200.)
    m0, sh = t.real('m0', -0.4, 2.), t.real('shift', -0.3, 0.3)
    xc = t.real('xc', -0.05, 0.04)
    pa = t.real('pa', -180., 180.) if pa is None else pa
    q = t.real('q', 0.25, 0.95) if q is None else q
    z = t.real('z', 0., 2.)
    n, re, q0 = 1., 0.6, 0.2
    wave = (6500., 6570.) if spec_type == 'wave' else (-100., 60.)
    ratio = (1., 0.4)[:len(rest)]
    g = K.galaxy(t, repo, ny=ny, wave=wave, rest=rest, ratio=ratio, m0=m0, delt_PA=pa, q=q, q0=q0, n=n, re_arcsec=re,
                 spec_type=spec_type)
    pix = 0.2
    ins = K.instrument(repo, pixscale=pix, slit_width=0.2)
    th = np.array([va, rt, s0, sh, z])
    dy = pix / nsub
    si = repo.kf.sin_i(q, q0=q0)
    inc = np.arcsin(si)
    ci = np.cos(inc)
    xs = [v - xc for v in K.grid1(nsub, dy)]
    ys = [(j / nsub + 0.5 / nsub - 0.5 - m0 - sh) * pix for j in range(ny * nsub)]
    zs = K.grid1(ny * nsub, dy)
    cell = {}
    for k in range(ny * nsub):
        for j in range(ny * nsub):
            for i in range(nsub):
                a, b, c = K.ref_rotate(t, xs[i], ys[j], zs[k], pa, si, ci)
                t.assume_ge(a * a + b * b, 1e-4)
                cell[k, j, i] = np.sqrt(a * a + b * b), b, c
    A = K.grid2d(t, repo, g, ins, th, nSubpixels=nsub, xc=xc, spec_type=spec_type)
    A.kinProfile.update_theta(th)
    A.calculate_spectral_cube()
    out = A.spectra_cube
    t.check(out.shape == (2, ny * nsub, nsub), 'shape')
    for j in range(ny * nsub):
        for i in range(nsub):
            for w in range(2):
                ref = 0.
                for k in range(ny * nsub):
                    r, b, c = cell[k, j, i]
                    I = K.ref_sersic(t, r, n, re) * np.exp(-np.abs(c) / (q0 * re))
                    v = 2. / math.pi * va * np.arctan(r / rt) * (b / r) * si
                    if spec_type == 'wave':
                        for m in range(len(rest)):
                            lam = rest[m] * (1. + z)
                            ref = ref + ratio[m] * I * K.ref_gauss(t, wave[w], lam * (1. + v / K.C_KMS),
                                                                   s0 / K.C_KMS * lam)
                    else:
                        ref = ref + I * K.ref_gauss(t, wave[w], v, s0)
                t.eq(out[w, j, i], ref * dy, 'rotating_disk')


def centre_cell(t, repo, more=False):
    """the cell on the rotation axis is at the systemic velocity"""
    np = t.np
    va, rt, s0 = t.real('va', -400., 400.), t.real('rt', 0.05, 2.), t.real('s0', 30., 200.)
    pa = t.real('pa', -180., 180.)
    g = K.galaxy(t, repo, ny=1, wave=(6500., 6570.), rest=(6564.,), m0=0., delt_PA=pa)
    ins = K.instrument(repo, pixscale=0.2, slit_width=0.2)
    z = t.real('z', 0., .01) if more else 0.
    # a profile of more parameters: centre shift and redshift are the last two
    th = np.array([va, rt, s0] + ([.3, .4] if more else []) + [0., z])
    A = K.grid2d(t, repo, g, ins, th)
    A.kinProfile.update_theta(th)
    A.calculate_spectral_cube()
    l0 = 6564. * (1. + z)
    for w, lam in enumerate((6500., 6570.)):
        ref = math.exp(1.676) * K.ref_gauss(t, lam, l0, s0 / K.C_KMS * l0) * 0.2
        t.eq(A.spectra_cube[w, 0, 0], ref, 'systemic_velocity_at_the_centre')


HARNESSES = [
    dict(name='cube', fn=cube, configs=[dict(spec_type='wave', nlines=1), dict(spec_type='wave', nlines=2),
                                        dict(spec_type='velocity', nlines=1)],
         thorough=[dict(spec_type='wave', nlines=3, nW=3, nZ=3, nY=2, nX=2),
                   dict(spec_type='velocity', nlines=1, nW=3, nZ=3, nY=2, nX=2)]),
    dict(name='zero_dispersion', fn=zero_dispersion, configs=[dict(spec_type='wave', nW=3), dict(spec_type='velocity', nW=3)]),
    dict(name='model_cube', fn=model_cube, configs=[
        dict(ny=1, nsub=1, spec_type='wave', rest=(6564.6,)), dict(ny=2, nsub=1, spec_type='wave', rest=(6564.6, 6585.2)),
        dict(ny=1, nsub=2, spec_type='velocity', rest=(1.,), pa=25., q=0.5),
        dict(ny=2, nsub=1, spec_type='velocity', rest=(1.,))],
         thorough=[dict(ny=3, nsub=1, spec_type='wave', rest=(6564.6,), pa=p, q=0.4) for p in (-70., 0., 90., 150.)]),
    dict(name='centre_cell', fn=centre_cell, configs=[dict(), dict(more=True)]),
]
