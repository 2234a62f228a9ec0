"""C27 the dispersion a single aperture measures: spheroids and rotating disks, relative to the stated radius."""
import math
from . import common as K
from lib import quadstub

FUNCTIONS = ['aper_model.AperModel1DDisp.*', 'aper_model.AperModel1DDispMisalign.*', 'aper_model.AperModel1DRot.*',
             'kin_functions.sigma_aper_dispersion', 'kin_functions.sigma_aper_dispersion_misalign', 'kin_functions.sigma_e_dispersion',
             'kin_functions.disp_square', 'kin_functions.sigma_profile', 'kin_functions.I_sersic', 'kin_functions.Igal',
             'kin_functions.r_int_ellip', 'kin_functions.PSF_convolve_flat']
BOUNDS = ('every effective radius of light and mass, velocity, turnover radius, ratio V/sigma and axis ratio of the mass; grids of 3x3 '
          'aperture pixels (7x7 with padding) for spheroids and 1-3 x 2-4 (x 2-4 along the line of sight) for disks; the listed Sersic '
          'indices, angles, seeing, offsets and slit widths')
OUTSIDE = 'the accuracy of the grid and of SciPy\'s quadrature (stands for a rule of three points); finer grids'
ASSUMPTIONS = ['exp, arctan, powers are uninterpreted apart from functional-equation and monotonicity facts']
setup_lifted = setup_real = quadstub.install

RAD = math.pi / 180.
F2S = 1. / (2. * math.sqrt(2. * math.log(2.)))


def seeing(kind, fwhm, x, y, beta=2.5, dither=None):
    def s(x, y):
        if kind == 'Gaussian':
            return math.exp(-(x * x + y * y) / (2. * (fwhm * F2S) ** 2))
        a = fwhm / (2. * math.sqrt(2. ** (1. / beta) - 1.))
        return (beta - 1.) / (math.pi * a * a) * (1. + (x * x + y * y) / (a * a)) ** -beta
    v = s(x, y)
    if dither:
        v -= .5 * (s(x, y + dither) + s(x, y - dither))
    return v


def convolve(a, nx, ny, k, hx, hy):
    """a[j][i] convolved with k(dx, dy) for offsets up to hx, hy pixels, on the same grid"""
    out = []
    for j in range(ny):
        row = []
        for i in range(nx):
            s = 0.
            for dj in range(-hy, hy + 1):
                for di in range(-hx, hx + 1):
                    if 0 <= j - dj < ny and 0 <= i - di < nx:
                        s = s + k[dj, di] * a[j - dj][i - di]
            row.append(s)
        out.append(row)
    return out


def rows(n, method, fwhm):
    if method == 'boxcar':
        return [1.] * n
    g = [math.exp(-(j - .5 * (n - 1)) ** 2 / (2. * (fwhm * F2S) ** 2)) for j in range(n)]
    return [v / sum(g) for v in g]


def sersic(t, r, re, n, core):
    b = 2. * n - .324
    return t.np.exp(-b * (t.np.power(r / re + core, 1. / n) - 1.))


def power(t, r, re, d, core):
    return t.np.power(r / re + core, d) / t.np.power(1. + core, d)


def spheroid(t, repo, mis=False, nP=1, n=1., fwhm=0., kind='Gaussian', method='optimal', xc=0., yc=0., q=.49, qm=None, pa=0., ew=1.2,
             slit=.6, radius=None, d=None, core=None, other=False, re=None, rm=None, dither=None):
    """the light-weighted dispersion in the aperture over that within the radius"""
    np = t.np
    if re is None:
        re = t.real('re', .3, 2.)
    if rm is None:
        rm = t.real('rm', .3, 2.)
    g = repo.gal.Galaxy(z=.5, n=n, re_arcsec=re, re_mass_arcsec=rm, q=q, q_mass=qm or q, q0=.2)
    g.delt_PA = pa
    kw = dict(PSF_beta=2.5) if kind == 'Moffat' else {}
    if dither:
        kw['yspace_dither_arc'] = dither
    ins = K.instrument(repo, PSF_type=kind, PSF_FWHM=fwhm, slit_width=slit, **kw)
    cls = repo.am.AperModel1DDispMisalign if mis else repo.am.AperModel1DDisp
    o = dict(nPixels=nP, extraction_method=method, xc=xc, yc=yc)
    if ew is not None:
        o['extraction_width'] = ew
    if radius is not None:
        o['disp_aper_radius_arcsec'] = t.real('R', .2, 3.) if radius == 'any' else radius
    if d is not None:
        o['d'] = d
    if core is not None:
        o['r_core'] = core
    m = cls(galaxy=g, instrument=ins, **o)
    first = m.disp_aper_ratio
    if other:
        # the same instrument is used for something else in between
        cls(galaxy=g, instrument=ins, **dict(o, extraction_width=2.))
        m.calc_aper_correction()
        t.eq(m.disp_aper_ratio, first, 'own_seeing_kept')
    d = -.089 if d is None else d
    core = 1. / 300. if core is None else core
    rc, rmc = re * math.sqrt(q), rm * math.sqrt(qm or q)
    if ew is None:
        # four times the half width of the seen light along the slit
        if mis:
            a = .5 * math.sqrt(4. * re * re + fwhm * fwhm)
            b = .5 * math.sqrt(4. * q * q * re * re + fwhm * fwhm)
            ew = 4. * max(b, a * abs(math.cos(pa * RAD)))
        else:
            ew = 4. * .5 * math.sqrt(4. * rc * rc + fwhm * fwhm)
        t.eq(m.extraction_width, ew, 'default_width')
    eff = nP * 2 if (not t.symbolic or not hasattr(rc, 'p')) and float(re if mis else rc) <= .1 else nP
    N = 4 * eff + 3
    dx, dy = slit / (2 * eff + 1), ew / (2 * eff + 1)
    x = [(i - (N - 1) // 2) * dx - xc for i in range(N)]
    y = [(j - (N - 1) // 2) * dy - yc for j in range(N)]
    Q, P = (q, pa * RAD) if mis else (1., 0.)
    I, S = [], []
    for j in range(N):
        I.append([]), S.append([])
        for i in range(N):
            yp = math.sin(P) * x[i] + math.cos(P) * y[j]
            xp = math.cos(P) * x[i] - math.sin(P) * y[j]
            r = math.sqrt(Q * yp * yp + xp * xp / Q)
            I[j].append(sersic(t, r, rc, n, core))
            S[j].append(I[j][i] * power(t, r, rmc, d, core) ** 2)
    if fwhm > 0.:
        h = (N - 1) // 2
        k = {(b, a): seeing(kind, fwhm, a * dx, b * dy, dither=dither) for a in range(-h, h + 1) for b in range(-h, h + 1)}
        I, S = (convolve(v, N, N, k, h, h) for v in (I, S))
    w = rows(2 * eff + 1, method, .5 * (2 * eff + 1))
    lo = eff + 1
    num = den = 0.
    for j in range(2 * eff + 1):
        for i in range(2 * eff + 1):
            num = num + w[j] * S[lo + j][lo + i]
            den = den + w[j] * I[lo + j][lo + i]
    R = rc if radius is None else m.disp_aper_radius_arcsec
    t.eq(m.sigma_ap ** 2 * den, num, 'dispersion_in_the_aperture')
    top = quadstub.quad(lambda r: sersic(t, r, rc, n, core) * power(t, r, rmc, d, core) ** 2 * r, 0., R)[0]
    bot = quadstub.quad(lambda r: sersic(t, r, rc, n, core) * r, 0., R)[0]
    t.eq(m.sigma_e ** 2 * bot, top, 'dispersion_within_the_radius')
    t.eq(m.disp_aper_ratio * m.sigma_e, m.sigma_ap, 'ratio_of_the_two')
    t.check(m.sigma_ap >= 0., 'positive')
    t.check(m.sigma_e >= 0., 'positive')


def disk(t, repo, n=3, fwhm=0., kind='Gaussian', method='optimal', xc=0., yc=0., q=.6, q0=.2, pa=0., ew=1.2, slit=.6, radius=None,
         vs='any', rt=None, sign=1., re=None, sersic_n=1., hist=None, other=False, dither=None, pad=.5):
    """the light-weighted mean square velocity of a rotating disk in the aperture, over that on the major axis at the radius"""
    np = t.np
    symbolic_re = re == 'any'
    re = t.real('re', .3, 2.) if symbolic_re else re or .5
    va = sign * t.real('va', 5., 400.)
    rt = t.real('rt', .05, 2.) if rt is None else rt
    v2s = t.real('vs', .2, 9.) if vs == 'any' else vs
    R = re if radius is None else t.real('R', .2, 3.) if radius == 'any' else radius
    g = K.galaxy(t, repo, ny=1, n=sersic_n, re_arcsec=re, q=q, delt_PA=pa)
    g.q0 = q0
    kw = dict(PSF_beta=2.5) if kind == 'Moffat' else {}
    if dither:
        kw['yspace_dither_arc'] = dither
    ins = K.instrument(repo, PSF_type=kind, PSF_FWHM=fwhm, slit_width=slit, **kw)
    kp, ip = K.profiles(t, repo, g)
    o = dict(nPixels=n, extraction_method=method, xc=xc, yc=yc, pad_factor=pad)
    if ew is not None:
        o['extraction_width'] = ew
    if radius is not None:
        o['disp_aper_radius_arcsec'] = R
    first = t.arr([v2s, va, rt]) if vs is not None else [None, va, rt]
    if hist:
        first = np.array(hist) if hist[0] is not None else hist
    m = repo.am.AperModel1DRot(galaxy=g, instrument=ins, theta=first, kinProfile=kp, intensityProfile=ip, **o)
    if other:
        repo.am.AperModel1DRot(galaxy=g, instrument=ins, theta=np.array([1., 90., .3]), kinProfile=kp, intensityProfile=ip,
                               **dict(o, extraction_width=3.))
    if hist or other:
        m.theta = t.arr([v2s, va, rt]) if vs is not None else [None, va, rt]
        m.calc_aper_correction()
    if ew is None:
        a = .5 * math.sqrt(4. * re * re + fwhm * fwhm)
        b = .5 * math.sqrt(4. * q * q * re * re + fwhm * fwhm)
        ew = 4. * max(b, a * abs(math.cos(pa * RAD)))
        t.eq(m.extraction_width, ew, 'default_width')
    dy = ew / n
    mx = int(math.ceil(round(slit / dy, 9)))
    dx = slit / mx
    px, py = int(round(fwhm * pad / dx)), int(round(fwhm * pad / dy))
    nx, ny = mx + 2 * px, n + 2 * py
    sini = math.sqrt((1. - q * q) / (1. - q0 * q0)) if q >= q0 else 1.
    cosi = math.sqrt(1. - sini ** 2)

    def vel(r):
        return 2. / math.pi * va * np.arctan(r / rt)
    vR = vel(R)
    if vs is None:
        sg = 0.
    elif vs == 0.:
        sg = va
    else:
        sg = vR / v2s
    I, S = [], []
    b_n = 2. * sersic_n - 1. / 3. + .009876 / sersic_n
    for j in range(ny):
        I.append([]), S.append([])
        for i in range(nx):
            a = b = 0.
            for k in range(n):
                x, y, z = (i - .5 * (nx - 1)) * dx - xc, (j - .5 * (ny - 1)) * dy - yc, (k - .5 * (n - 1)) * dy
                X, Y, Z = K.ref_rotate(t, x, y, z, pa, sini, cosi)
                r = math.sqrt(X * X + Y * Y)
                light = ip.int(np.array([r]), np.array([Z]))[0]
                v = 0. if vs == 0. or r < 1e-12 else vel(r) * Y / r * sini
                a = a + light
                b = b + light * (v ** 2 + sg ** 2)
            I[j].append(a)
            S[j].append(b)
    if fwhm > 0.:
        hx, hy = int(math.floor(round(fwhm / dx, 9))), int(math.floor(round(fwhm / dy, 9)))
        hx, hy = min(hx, (nx - 1) // 2), min(hy, (ny - 1) // 2)
        k = {(b, a): seeing(kind, fwhm, a * dx, b * dy, dither=dither) for a in range(-hx, hx + 1) for b in range(-hy, hy + 1)}
        I, S = (convolve(v, nx, ny, k, hx, hy) for v in (I, S))
    w = rows(n, method, .5 * n)
    num = den = 0.
    for j in range(n):
        for i in range(mx):
            num = num + w[j] * S[py + j][px + i]
            den = den + w[j] * I[py + j][px + i]
    t.eq(m.sigma_aper ** 2 * den, num, 'mean_square_velocity_in_the_aperture')
    rms = sg ** 2 if vs == 0. else vR ** 2 + sg ** 2
    t.eq(m.V_RMS_aper ** 2, rms, 'mean_square_velocity_at_the_radius')
    t.eq(m.disp_aper_ratio * m.V_RMS_aper, m.sigma_aper, 'ratio_of_the_two')
    t.check(m.sigma_aper >= 0., 'positive')
    t.check(m.V_RMS_aper >= 0., 'positive')


def mirror(t, repo, n=3, slit=1.1, fwhm=.5, q=.6, yc=.2, xc=0., kind='Gaussian', method='optimal'):
    """a disk along the slit is seen the same above and below the middle of it"""
    va, rt, v2s = t.real('va', 5., 400.), t.real('rt', .05, 2.), t.real('vs', .2, 9.)
    g = K.galaxy(t, repo, ny=1, n=1., re_arcsec=.5, q=q, delt_PA=0.)
    m = []
    for s in (1., -1.):
        ins = K.instrument(repo, PSF_type=kind, PSF_FWHM=fwhm, slit_width=slit, **(dict(PSF_beta=2.5) if kind == 'Moffat' else {}))
        kp, ip = K.profiles(t, repo, g)
        m.append(repo.am.AperModel1DRot(galaxy=g, instrument=ins, theta=t.arr([v2s, va, rt]), kinProfile=kp, intensityProfile=ip, nPixels=n,
                                        extraction_width=1.2, extraction_method=method, yc=s * yc, xc=s * xc))
    t.eq(m[0].sigma_aper ** 2, m[1].sigma_aper ** 2, 'same_on_either_side')
    t.eq(m[0].disp_aper_ratio, m[1].disp_aper_ratio, 'same_on_either_side')


def refused(t, repo):
    """extraction methods that don't exist"""
    np = t.np
    g = K.galaxy(t, repo, ny=1, n=1., re_arcsec=.5, q=.5, delt_PA=0.)
    g.re_mass_arcsec, g.q_mass = t.real('rm', .3, 2.), .5
    ins = K.instrument(repo, slit_width=.6)
    kp, ip = K.profiles(t, repo, g)
    o = dict(galaxy=g, instrument=ins, nPixels=2, extraction_width=1.2, extraction_method='median')
    t.raises(ValueError, lambda: repo.am.AperModel1DDisp(**o), 'unknown_extraction_refused')
    t.raises(ValueError, lambda: repo.am.AperModel1DDispMisalign(**o), 'unknown_extraction_refused')
    t.raises(ValueError, lambda: repo.am.AperModel1DRot(theta=np.array([1., 90., .3]), kinProfile=kp, intensityProfile=ip, **o), 'unknown_extraction_refused')


HARNESSES = [
    dict(name='spheroid', fn=spheroid, configs=[
        dict(), dict(n=4., method='boxcar', xc=.1, yc=-.2, radius='any'), dict(d=-.3, core=.02),
        dict(mis=True, pa=60., d=.1), dict(mis=True, pa=-35., n=2., xc=.15, yc=.1, qm=.81, radius='any', method='boxcar'),
        dict(fwhm=.5, other=True, re=.7), dict(mis=True, fwhm=.6, kind='Moffat', pa=30., other=True), dict(fwhm=.5, kind='Moffat', dither=.4, re=.5),
        dict(ew=None, re=.6, fwhm=.5), dict(mis=True, ew=None, re=.6, fwhm=.5, pa=20.), dict(mis=True, ew=None, re=.6, fwhm=.5, pa=100., q=.8),
        dict(re=.1, q=.81), dict(mis=True, re=.09, method='boxcar')],
         must_reach=['dispersion_in_the_aperture', 'dispersion_within_the_radius']),
    dict(name='disk', fn=disk, configs=[
        dict(), dict(pa=40., n=2, radius='any', method='boxcar', sign=-1.), dict(vs=None, pa=-60., xc=.1, yc=.2), dict(vs=0., sign=-1.),
        dict(q=.1, n=2, pa=20.), dict(hist=[2., 90., .4], n=2, pa=30.), dict(re='any', rt=.4, n=2),
        dict(fwhm=.5, slit=1.1, pa=70.), dict(fwhm=.5, slit=.35, kind='Moffat', pa=-20., other=True), dict(fwhm=.6, slit=1.1, dither=1., sersic_n=2., method='boxcar', pad=1.),
        dict(ew=None, fwhm=.6, slit=.35, pa=20., n=1), dict(ew=None, fwhm=0., pa=80., q=.8, n=2), dict(hist=[0., 50., .4], n=2, pa=30., vs=None),
        dict(hist=[2., 90., .4], n=2, pa=30., vs=0.), dict(n=2, pa=30., xc=.1, yc=.25), dict(n=4, pa=-50., yc=-.3, vs=None, rt=.4)],
         must_reach=['mean_square_velocity_in_the_aperture']),
    dict(name='mirror', fn=mirror, configs=[dict(), dict(xc=.1, kind='Moffat', method='boxcar'), dict(n=2)], must_reach=['same_on_either_side']),
    dict(name='refused', fn=refused),
]
