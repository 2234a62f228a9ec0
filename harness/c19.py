"""C19 spatial trimming and position: rows about the fitted (or else the expected) row, the offset kept."""
import math
from . import common as K
from lib import lmstub

FUNCTIONS = ['galaxy_utils.vert_position', 'galaxy_utils.trim_spectrum_2D_spatial', 'galaxy_utils.get_m0_lam0_pos_2D',
             'galaxy.ObsSpectrum2D.trim_spectrum_spatial', 'galaxy.ObsSpectrum2D.get_m0_lam0_pos', 'general_utils.gaus_residual',
             'general_utils.gaus_residual_mask', 'general_utils.vert_triple_gaus_residual', 'general_utils.gaus_profile',
             'general_utils.gaus_simple']
BOUNDS = ('every fitted row, nod distance and wavelength of spectra of 16-30 rows x 2-5 channels, expected row listed or within a row of it, '
          'every flux in the listed rows, with and without nods, pixel scales 0.18 and 0.1; arrays with a different value in every pixel')
OUTSIDE = 'that lmfit finds the minimum of the sum it is given; refits of an already trimmed spectrum; larger spectra; whether the last row is kept'
ASSUMPTIONS = ['lmfit.minimize returns some value of each free parameter within its bounds']

setup_lifted = setup_real = lmstub.install


def gauss(x, A, mu, s):
    return A * math.exp(-(x - mu) ** 2 / (2. * s * s)) / math.sqrt(2. * math.pi) / s


def rnd(t, v):
    return int(t.np.round(v))


class Fits(object):
    """what the position fits return, and a record of what they were asked"""

    def __init__(self, t, ny, dither, ypos, trimval=5):
        self.t, self.ny, self.dither, self.ypos, self.calls = t, ny, dither, ypos, []
        self.mu = t.real('mu', 0., ny - 1.)
        self.mu2 = t.real('mu2', 0., ny - 2. * trimval - 1.) if ypos is None else None
        self.d = [t.real('d%d' % i, 1., (ny - 1.) if i < 2 else (ny - 2. * trimval - 1.) / 2.) for i in range(3)] if dither else None

    def __call__(self, fn, p, args):
        k = len(self.calls)
        self.calls.append((fn, p))
        free = p.free()
        r = dict(A=1., C=0., sigma=1.)
        if 'mu' in free:
            r['mu'] = self.mu if k == 0 else self.mu2
        if self.dither:
            r['deltl'] = self.d[2] if k and self.small(p) else self.d[min(k, 1)]
        return {a: r[a] for a in free}

    def small(self, p):
        return not bool(p['deltl'].max == self.ny - 1)


def reference(t, ny, f, pix):
    """row, offset, half height from the record of the fits; S/N row"""
    ypos = f.ypos
    def half(pos, d):
        m0 = rnd(t, pos)
        if not f.dither:
            return m0, int(math.ceil(1.5 / pix / 2.))
        a, b = rnd(t, pos - d), rnd(t, pos + d)
        diff = (abs(m0 - a) + abs(m0 - b)) / 2.
        return m0, int(math.ceil(diff / 2.))
    pos, want = f.mu, ['first']
    m0, cut = half(pos, f.d[0] if f.dither else None)
    if ypos is not None:
        if bool(abs(ypos - m0) > 2.):
            pos = ypos
            m0, cut = half(pos, f.d[1] if f.dither else None)
            want.append('expected')
        if 2 * cut * pix > 4. or 2 * cut < 5:
            pos = ypos
            m0, cut = half(pos - 5, f.d[2] if f.dither else None)
            m0 += 5
            want.append('trimmed')
    elif 2 * cut > ny - 5 or 2 * cut < 5:
        m0, cut = half(f.mu2, f.d[2] if f.dither else None)
        pos = f.mu2 + 5
        m0 += 5
        want.append('trimmed free')
    return pos, m0, cut, want


def check_fits(t, f, want, sp, er, label='what_the_position_fit_minimises'):
    t.check(len(f.calls) == len(want), 'fits_made')
    for (fn, p), kind in zip(f.calls, want):
        off = 0 if kind in ('first', 'expected') else 5
        n = len(sp) - 2 * off
        free = ['A', 'C', 'sigma'] + (['deltl'] if f.dither else []) + (['mu'] if kind in ('first', 'trimmed free') else [])
        t.check(p.free() == sorted(free), 'parameters_of_the_position_fit')
        t.check(p['sigma'].min == 0., 'parameters_of_the_position_fit')
        if kind not in ('first', 'trimmed free'):
            t.eq(p['mu'].value, f.ypos - off, 'expected_row_held')
        else:
            t.check(p['mu'].min == 0 and p['mu'].max == n - 1, 'parameters_of_the_position_fit')
        at = dict(A=1.7, C=.3, sigma=1., mu=n * .4)
        if f.dither:
            at['deltl'] = n * .25
        r = fn(p.at(**at))
        got = t.np.sum(r * r)
        tot = 0.
        for i in range(n):
            m = gauss(i, 1.7, n * .4, 1.) + .3
            if f.dither:
                m = m - gauss(i, 1.7, n * .15, 1.) - gauss(i, 1.7, n * .65, 1.)
            if er[i + off] != 0.:
                tot = tot + ((m - sp[i + off]) / er[i + off]) ** 2
        t.eq(got, tot, label, tol=1e-5)


def data(t, np, ny, nx, sym, peak, zero=()):
    f = [[.2 + .1 * ((3 * j + 2 * i) % 7) for i in range(nx)] for j in range(ny)]
    for i in range(nx):
        f[peak][i] = 9.
    if peak in sym:
        raise ValueError
    e = [[.5 + .05 * ((2 * j + i) % 5) for i in range(nx)] for j in range(ny)]
    v = t.reals('f', len(sym), -3., 3.)
    for k, j in enumerate(sym):
        f[j][0] = v[k]
    for j in zero:
        for i in range(nx):
            f[j][i] = e[j][i] = 0.
    return f, e


def collapse(f, e, peak):
    sp = [sum(r) for r in f]
    er = [sum(x * x for x in r) ** .5 for r in e]
    sn = [abs(a / b) if b else 0. for a, b in zip(sp, er)]
    if peak in (0, len(f) - 1):
        sp[peak] = 0.
    return sp, er, sn


def limit(t, ft, near, nods):
    if near is not None:
        t.assume(abs(ft.mu - near[0]) <= near[1])
    if nods is not None and ft.d:
        for d, (c, h) in zip(ft.d, nods):
            t.assume(abs(d - c) <= h)
        if ft.mu2 is not None:
            t.assume(abs(ft.mu2 - nods[2][0]) <= 1.2)


def position(t, repo, ny=26, nx=2, ypos=12., dither=True, pix=.1799, sym=(6, 15), peak=12, symy=False, zero=(), near=None, nods=None):
    np = t.np
    f, e = data(t, np, ny, nx, sym, peak, zero)
    if symy:
        ypos = t.real('ypos', ypos - .8, ypos + .8)
    ft = Fits(t, ny, dither, ypos)
    limit(t, ft, near, nods)
    repo.lm.hook = ft
    F, E, W = t.arr(f), np.array(e), np.arange(nx) + 100.
    r = repo.gu.vert_position(flux=F, err=E, obswave=W, obswave_val=100.6, band='H', ypos=ypos, refit=False, wh_sky=[],
                              spatial_pixscale=pix, dither=dither)
    m0, shift, snr, lo, hi = r
    pos, want, cut, kinds = reference(t, ny, ft, pix)
    sp, er, sn = collapse(f, e, peak)
    check_fits(t, ft, kinds, sp, er)
    t.check(m0 == want, 'row_of_the_object')
    t.eq(m0 + shift, pos, 'row_and_offset_make_the_position')
    t.le(abs(shift), .5 + 1e-6, 'offset_within_half_a_row')
    t.check(lo == want - cut and hi == want + cut, 'rows_to_keep')
    k = min(max(want, 0), ny - 1) if kinds[-1] in ('first', 'expected') else min(max(want, 5), ny - 6)
    t.eq(snr, sn[k], 'signal_to_noise_of_the_row')
    t.eq(F, f, 'data_kept')


def trim(t, repo, ny=18, nx=2, ypos=8., dither=True, pix=.1799, near=None, nods=None, extraction=True, method=False, sky=(), dead=()):
    np = t.np
    names = ('flux', 'flux_err', 'flux_incl_cont', 'cont_model', 'spec_weight', 'spec_mask', 'mask_qual', 'mask_sky', 'mask_low_snr')
    A = {}
    for k, a in enumerate(names):
        A[a] = [[100. * k + j + .01 * i for i in range(nx)] for j in range(ny)]
    A['flux_err'] = [[.5 + .01 * j for i in range(nx)] for j in range(ny)]
    A['flux'] = [[(9. if j in (7, 8, 9) else .05) + .01 * j for i in range(nx)] for j in range(ny)]
    A['mask_sky'] = [[0. if i in sky else 1. for i in range(nx)] for j in range(ny)]
    A['mask_qual'] = [[0. if j in dead else 1. for i in range(nx)] for j in range(ny)]
    g = repo.gal.Galaxy(z=0.)
    g.dither = dither
    s = repo.gal.ObsSpectrum2D(wave=np.arange(nx) * 1. + 100.)
    for a in names:
        setattr(s, a, np.array(A[a]))
    s.restwave_arr, s.ypos, s.row_snr_cut, s.wh_sky, s.band = np.array([100.]), ypos, 2., [], 'H'
    s.m0_shift_fit = None
    g.set_spectrum_2D(s)
    s1 = repo.gal.ObsSpectrum1D(wave=np.arange(nx) * 1. + 100., flux=np.ones(nx), flux_err=np.ones(nx))
    g.set_spectrum_1D(s1)
    if extraction:
        s1.extraction_spatial_profile = np.arange(ny) * 3.
    ft = Fits(t, ny, dither, ypos)
    limit(t, ft, near, nods)
    repo.lm.hook = ft
    ins = K.instrument(repo, pixscale=pix)
    if method:
        s.trim_spectrum_spatial(g, ins)
    else:
        repo.gu.trim_spectrum_2D_spatial(s, g, ins)
    pos, m0, cut, kinds = reference(t, ny, ft, pix)
    # sky channels do not count
    sp = [sum(A['flux'][j][i] * A['mask_sky'][j][i] for i in range(nx)) for j in range(ny)]
    er = [sum((A['flux_err'][j][i] * A['mask_sky'][j][i]) ** 2 for i in range(nx)) ** .5 for j in range(ny)]
    check_fits(t, ft, kinds, sp, er)
    lo = max(0, m0 - cut) if dither else 0
    his = (min(ny - 1, m0 + cut), min(ny, m0 + cut + 1)) if dither else (ny - 1, ny)
    n = np.shape(s.flux)[0]
    t.check(lo + n in his or (n == 0 and min(his) <= lo), 'rows_kept')
    hi = lo + n
    for a in names:
        x = getattr(s, a)
        t.check(np.shape(x) == (n, nx), 'all_arrays_cut_alike')
        t.eq(x, np.array(A[a][lo:hi]).reshape(n, nx), 'all_arrays_cut_alike')
    t.check(s.n_spatial == n, 'rows_counted')
    t.check(s.full_m0 == m0 and s.full_l_ind == lo, 'place_in_the_untrimmed_spectrum')
    t.check(s.m0 == m0 - lo, 'row_moves_with_the_rows')
    t.eq(s.m0 + s.m0_shift_fit, pos - lo, 'position_moves_with_the_rows')
    t.eq(s.ypos, ypos - lo, 'expected_row_moves_with_the_rows')
    t.check(list(s.m_lims) == [0, n], 'limits_of_the_rows')
    if extraction:
        t.eq(s1.extraction_spatial_profile, [3. * j for j in range(lo, hi)], 'extraction_profile_cut_alike')
    else:
        t.check(s1.extraction_spatial_profile is None, 'no_extraction_profile')
    k = min(max(m0, 0), ny - 1) if kinds[-1] in ('first', 'expected') else min(max(m0, 5), ny - 6)
    t.eq(s.m0_peak_snr, abs(sp[k] / er[k]) if er[k] else 0., 'signal_to_noise_of_the_row')
    if n > 2:
        want = repo.gu.mask_low_snr_rows_2D(flux=np.array(A['flux'][lo:hi]), err=np.array(A['flux_err'][lo:hi]),
                                            mask=np.array(A['mask_qual'][lo:hi]), mask_calc=np.array(A['mask_sky'][lo:hi]), snr_cut=2.)[1]
        t.check([int(v) for v in s.low_snr_row_inds] == [int(v) for v in want], 'low_rows_found_again')


def centre(t, repo, ny=5, nx=5, ypos=2.2, m0=2, fit=.1, snr=5., low=(0,), nosky=(1, 2, 3, 4), fail=None, method=False):
    """fixed centre and wavelength of a 2D fit"""
    np = t.np
    f = t.reals('f', (ny, nx), -3., 3.) if nx * ny <= 25 else None
    e = [[.5 + .05 * ((2 * j + i) % 5) for i in range(nx)] for j in range(ny)]
    s = repo.gal.ObsSpectrum2D(wave=100. + 2. * np.arange(nx))
    s.flux, s.flux_err = f.copy(), np.array(e)
    s.mask_sky = np.array([[1. if i in nosky else 0. for i in range(nx)] for j in range(ny)])
    s.mask_low_snr = np.array([[0. if j in low else 1. for i in range(nx)] for j in range(ny)])
    s.low_snr_row_inds, s.wh_nosky = np.array(list(low), dtype=int), np.array(list(nosky), dtype=int)
    s.m0, s.ypos, s.m0_shift_fit, s.m0_peak_snr = m0, ypos, fit, snr
    s.m_lims = np.array([0, ny])
    w0, w1 = 100., 100. + 2. * (nx - 1)
    lam0 = t.real('lam0', w0 - 4., w1 + 4.)
    s.lam0 = lam0
    s.restwave_arr = np.array([104.])
    g = repo.gal.Galaxy(z=0.)
    g.set_spectrum_2D(s)
    q = (w1 - w0) / 4.
    y, w = t.real('y', 0., ny - 1.), t.real('w', w0 + q, w1 - q)
    t.assume(abs(abs(y - ypos) - 2.) >= 1e-6)
    t.assume(abs(abs(y - m0) - 2.) >= 1e-6)
    t.assume(abs(abs(w - lam0) - q) >= 1e-6)
    calls = []

    def hook(fn, p, args):
        calls.append((fn, p))
        if fail is not None and len(calls) - 1 == fail:
            raise ValueError('no fit')
        return dict(mu=y if len(calls) == 1 else w, A=1., sigma=1.)
    repo.lm.hook = hook
    if method:
        s.get_m0_lam0_pos(g)
    else:
        repo.gu.get_m0_lam0_pos_2D(s, g)
    rows = [j for j in range(ny) if j not in low]
    if not rows or not nosky:
        t.check(len(calls) == 0, 'no_fit_without_data')
        t.eq(s.m0_shift, 0., 'no_shift_without_data')
        t.eq(s.lam0, lam0, 'wavelength_kept_without_data')
        return
    t.check(len(calls) == 2, 'two_fits')
    for k, (fn, p) in enumerate(calls):
        t.check(p.free() == ['A', 'mu', 'sigma'] and p['sigma'].min == 0., 'parameters_of_the_fit')
        at = dict(A=1.7, sigma=1., mu=1.3 if k == 0 else 103.)
        r = fn(p.at(**at))
        got = np.sum(r * r)
        tot = 0.
        if k == 0:
            t.check(bool(p['mu'].min == 0.) and bool(p['mu'].max == ny - 1.), 'parameters_of_the_fit')
            for j in rows:
                d = sum(f[j, i] for i in nosky)
                er = sum(e[j][i] ** 2 for i in nosky) ** .5
                tot = tot + ((gauss(j, 1.7, 1.3, 1.) - d) / er) ** 2
        else:
            t.eq(p['mu'].min, w0 + q, 'parameters_of_the_fit')
            t.eq(p['mu'].max, w1 - q, 'parameters_of_the_fit')
            for i in nosky:
                d = sum(f[j, i] for j in rows)
                er = sum(e[j][i] ** 2 for j in rows) ** .5
                tot = tot + ((gauss(100. + 2. * i, 1.7, 103., 1.) - d) / er) ** 2
        t.eq(got, tot, 'what_the_centre_fit_minimises' if k == 0 else 'what_the_wavelength_fit_minimises', tol=1e-5)
    use = False
    if fail != 0:
        if bool(abs(y - ypos) <= 2.):
            use = True
        elif bool(abs(y - m0) <= 2.) and abs(fit) <= 1. and snr >= 3.:
            use = True
    t.eq(s.m0 + s.m0_shift, y if use else m0, 'centre_is_the_fitted_row')
    use = fail != 1 and bool(abs(w - lam0) <= q)
    t.eq(s.lam0, w if use else lam0, 'wavelength_is_the_fitted_one')
    t.eq(s.flux, f, 'data_kept')


N = [[10., 1.5], [11., 1.5], [6., 1.]]
M = [[10., .5], [11., .5], [6., .3]]
HARNESSES = [
    dict(name='position', fn=position, configs=[
        dict(near=[12., 3.], nods=N), dict(near=[12., 1.], nods=[[24., 1.], [20., 1.], [4., .5]]), dict(near=[12., 1.], nods=[[3., 1.], [2., 1.], [4., .5]]),
        dict(near=[23., 1.], nods=N), dict(near=[2., 2.], nods=[[3., .5], [3., 1.5], [4., .5]]),
        dict(ypos=None, nods=[[23., 1.5], [9., 1.], [4., .4]], near=[12., .4]), dict(ypos=None, nods=[[3., 1.], [9., 1.], [4., .4]], near=[12., .4]),
        dict(ypos=None, nods=M), dict(dither=False), dict(dither=False, pix=.1, near=[12., 3.]),
        dict(symy=True, near=[12., 1.5], nods=M), dict(symy=True, near=[6., .4], nods=M),
        dict(peak=0, near=[10., 1.], nods=M), dict(peak=25, near=[14., 1.], nods=M), dict(zero=[3, 20], near=[12., 3.], nods=M),
        dict(ny=20, ypos=18., near=[18., 1.], peak=10, nods=[[6., 1.], [6., 1.], [4., .5]]),
        dict(ny=20, ypos=18., near=[18., 1.], peak=10, nods=[[3., 1.], [6., 1.], [4., .5]])],
        thorough=[dict(ypos=None, nods=[[13., 12.]] * 3, near=[12., .4]), dict(symy=True, near=[12., 3.], nods=N), dict(peak=25, near=[14., 2.], nods=N),
                  dict(ny=30, ypos=3., near=[4., 2.], nods=N)]),
    dict(name='trim', fn=trim, configs=[
        dict(near=[8., 3.], nods=[[6., 1.5], [7., 1.], [3., .5]]), dict(dither=False, near=[8., 3.]),
        dict(ypos=2.3, extraction=False, near=[2., 2.], nods=[[8., 1.5], [7., 1.], [3., .5]]),
        dict(ypos=15.5, near=[15., 2.], method=True, nods=[[8., 1.5], [7., 1.], [3., .5]]),
        dict(sky=[0], dead=[4], near=[8., 2.], nods=[[8., 1.], [7., 1.], [3., .5]]),
        dict(near=[8., 1.], nods=[[2., 1.], [7., 1.], [3., .5]])],
        thorough=[dict(ny=30, ypos=14., nods=N), dict(ny=30, ypos=25., nods=N)]),
    dict(name='centre', fn=centre, configs=[
        dict(), dict(method=True, low=[]), dict(fit=1.2), dict(snr=2.9, ypos=4.), dict(ypos=4., m0=1), dict(ypos=4., m0=1, fit=-1.4, snr=9.),
        dict(fail=0), dict(fail=1), dict(low=[0, 1, 2, 3, 4]), dict(nosky=[]), dict(nosky=[0, 2], low=[1, 4])]),
]
