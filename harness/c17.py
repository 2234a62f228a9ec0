"""C17 masks: exactly the pixels that are missing, at an edge, under a skyline or in a row of too low signal."""
from . import common as K

FUNCTIONS = ['galaxy_utils.mask_edges_1D', 'galaxy_utils.spec_mask_missing', 'galaxy_utils.mask_spec2D_from_1D',
             'galaxy_utils.spec_nan_masking', 'galaxy_utils.wh_skylines_1D', 'galaxy_utils.mask_skylines_2D',
             'galaxy_utils.mask_low_snr_rows_2D', 'galaxy_utils.get_skyline_mask_2D', 'galaxy_utils.get_low_snr_mask_2D',
             'general_utils.wh_continuous', 'galaxy.ObsSpectrum1D.mask_edges', 'galaxy.ObsSpectrum2D.get_skyline_mask',
             'galaxy.ObsSpectrum2D.get_low_snr_mask']
BOUNDS = ('every mask of 6-8 pixels and edge widths 0-9; every finite or missing flux and error and zero or other weight of 3 pixels; '
          'every error, mask and threshold of 2 rows x 3 channels; every row signal of 5-8 rows; all index sets within 6')
OUTSIDE = 'longer spectra; signal ratios within 1e-6 of the threshold; floating point rounding'
ASSUMPTIONS = []


def edges(t, repo, n, num, method=False):
    """the num pixels next to an edge of the data inside of the range are masked, nothing else"""
    np = t.np
    on = [bool(t.flag('on%d' % i)) for i in range(n)]
    m = np.array([1. if v else 0. for v in on])
    fl = t.reals('f', n, -1., 1.)
    if method:
        s = repo.gal.ObsSpectrum1D(wave=np.arange(n) * 1., flux=fl.copy(), flux_err=np.ones(n), spec_mask=m.copy())
        s.num_mask_edge = num
        s.mask_edges()
        r = s.spec_mask
    else:
        r = repo.gu.mask_edges_1D(spec=fl.copy(), spec_err=np.ones(n), spec_mask=m.copy(), num_edge=num)
    good = [i for i in range(n) if on[i]]
    want = [1. if v else 0. for v in on]
    if good:
        a, b = good[0], good[-1]
        for i in range(n):
            if (a > 0 and i - a < num) or (b < n - 1 and b - i < num):
                want[i] = 0.
    t.check(len(r) == n, 'one_value_per_pixel')
    for i in range(n):
        t.check(bool(r[i] == want[i]), 'edge_mask')


def missing(t, repo, given, weight, nonfinite_only, two_d=False, unit=1.):
    np = t.np
    n = 2 if two_d else 3
    sh = (n, 1) if two_d else n
    f = t.arr([t.nanreal('f%d' % i, -5. * unit, 5. * unit) for i in range(n)])
    ez = [bool(t.flag('errzero%d' % i)) for i in range(n)]
    e = t.arr([0. if ez[i] else t.nanreal('e%d' % i, .1 * unit, 5. * unit) for i in range(n)])
    w = m = None
    if weight:
        wz = [bool(t.flag('wzero%d' % i)) for i in range(n)]
        w = t.arr([0. if wz[i] else t.real('w%d' % i, .1, 2.) for i in range(n)])
    if given:
        m = t.reals('m', n, .5, 1.)
    bad_e = [t.isnan(v) for v in e]
    bad_f = [t.isnan(v) for v in f]
    bad_e = [bool(v) for v in bad_e]
    bad_f = [bool(v) for v in bad_f]
    args = [x if x is None else x.copy() for x in (f, e, w, m)]
    if two_d:
        args = [x if x is None else x.reshape(sh) for x in args]
    r = repo.gu.spec_mask_missing(spec=args[0], spec_err=args[1], spec_weight=args[2], spec_mask=args[3], nonfinite_only=nonfinite_only)
    r = r.reshape(-1)
    some = any(not ez[i] and not bad_e[i] for i in range(n))
    # a maximum over missing errors isn't a number: whether zero errors count then is not settled
    unsure = any(bad_e)
    for i in range(n):
        out = bad_f[i] or bad_e[i] or bool(weight and wz[i])
        if ez[i] and not nonfinite_only and not out:
            if unsure:
                continue
            out = some
        if out:
            t.check(bool(r[i] == 0.), 'missing_masked')
        else:
            t.eq(r[i], m[i] if given else 1., 'others_kept')
    for i in range(n):
        if not bad_f[i]:
            t.eq(args[0].reshape(-1)[i], f[i], 'data_untouched')


def infinite(t, repo, nonfinite_only, err):
    """infinite values are no data either, and give way to the filling value"""
    np = t.np
    n, inf = 3, float('inf')
    kind = [0. if not t.flag('i%d' % k) else inf if t.flag('s%d' % k) or err else -inf for k in range(n)]
    f = [t.real('f%d' % k, -5., 5.) for k in range(n)]
    e = [t.real('e%d' % k, .1, 5.) for k in range(n)]
    bad = [k for k in range(n) if kind[k]]
    for k in bad:
        if err:
            e[k] = kind[k]
        else:
            f[k] = kind[k]
    F, E = t.arr(f), t.arr(e)
    m = repo.gu.spec_mask_missing(spec=F, spec_err=E, spec_weight=None, spec_mask=None, nonfinite_only=nonfinite_only)
    t.eq(m, [0. if k in bad else 1. for k in range(n)], 'missing_masked')
    X = repo.gu.spec_nan_masking(flux=(E if err else F).copy(), spec_mask=m, fill_value=-99.)
    for k in range(n):
        t.eq(X[k], -99. if k in bad else (e if err else f)[k], 'filled')


def columns(t, repo, n=4, ny=2):
    """columns masked in the 1D spectrum are masked in each row, others stay"""
    np = t.np
    on = [bool(t.flag('on%d' % i)) for i in range(n)]
    m2 = t.reals('m', (ny, n), 0., 1.)
    r = repo.gu.mask_spec2D_from_1D(mask2D=m2.copy(), mask1D=np.array([1. if v else 0. for v in on]))
    for j in range(ny):
        for i in range(n):
            t.eq(r[j, i], m2[j, i] if on[i] else 0., 'masked_columns')


def fill(t, repo, zero, every):
    """masked pixels that are not numbers get the filling value"""
    np = t.np
    n = 3
    on = [bool(t.flag('on%d' % i)) for i in range(n)]
    ze = [bool(t.flag('zero%d' % i)) for i in range(n)]
    f = t.arr([0. if ze[i] else t.nanreal('f%d' % i, .5, 5.) for i in range(n)])
    nan = [bool(t.isnan(v)) for v in f]
    r = repo.gu.spec_nan_masking(flux=f.copy(), spec_mask=np.array([1. if v else 0. for v in on]), fill_value=-99., mask_zero=zero,
                                 mask_all_masked=every)
    for i in range(n):
        if on[i]:
            if nan[i]:
                t.check(bool(t.isnan(r[i])), 'unmasked_kept')
            else:
                t.eq(r[i], f[i], 'unmasked_kept')
        elif every or nan[i] or (zero and ze[i]):
            t.eq(r[i], -99., 'filled')
        else:
            t.eq(r[i], f[i], 'masked_numbers_kept')


def continuous(t, repo, n=6):
    """runs of consecutive indices"""
    np = t.np
    on = [bool(t.flag('on%d' % i)) for i in range(n)]
    idx = [i for i in range(n) if on[i]]
    r = repo.utils.wh_continuous(np.array(idx))
    t.check([int(v) for g in r for v in g] == idx, 'all_indices_in_order')
    for g in r:
        g = [int(v) for v in g]
        t.check(g == list(range(g[0], g[-1] + 1)), 'runs_are_consecutive')
        t.check(g[0] - 1 not in idx and g[-1] + 1 not in idx, 'runs_are_as_long_as_possible')


def sky1d(t, repo, full, n=4):
    np = t.np
    e = t.reals('e', n, 0., 5.)
    c, med = t.real('c', 1., 4.), t.real('med', .5, 1.5)
    thr = c * med
    for v in e:
        t.assume(abs(v - thr) >= 1e-6)
    a, b = repo.gu.wh_skylines_1D(e.copy(), cutoff=c, median_err=med, full=full)
    sky = [i for i in range(n) if bool(e[i] > thr)]
    if not full:
        for g in list(a) + list(b):
            t.check([int(v) for v in g] == list(range(int(g[0]), int(g[0]) + len(g))), 'runs_are_consecutive')
        a, b = [v for g in a for v in g], [v for g in b for v in g]
    t.check([int(v) for v in b] == sky, 'sky_channels')
    t.check([int(v) for v in a] == [i for i in range(n) if i not in sky], 'other_channels')
    t.raises(ValueError, lambda: repo.gu.wh_skylines_1D(e, cutoff=c, median_err=None, full=full), 'needs_a_median')


def sky2d(t, repo, method=False, exact=False, given=True):
    np = t.np
    ny, n = 2, 3
    e = t.reals('e', (ny, n), .1, 5.)
    m = np.array([[1., 1., 1. if bool(t.flag('m%d' % j)) else 0.] for j in range(ny)])
    c, med = (2., 1.5) if exact else (t.real('c', 1., 4.), t.real('med', .5, 1.5))
    w = []
    for i in range(n):
        s2 = 0.
        for j in range(ny):
            s2 = s2 + e[j, i] ** 2 * float(m[j, i])
        w.append(s2)
    thr2 = (c * med) ** 2
    for v in w:
        if isinstance(v, float):
            continue
        t.assume(abs(v - thr2) >= 1e-5)
    sky = [bool(v > thr2) for v in w]
    if method:
        s = repo.gal.ObsSpectrum2D(wave=np.arange(n) * 1.)
        s.flux, s.flux_err, s.spec_weight = np.ones((ny, n)), e.copy(), np.ones((ny, n))
        s.spec_mask = m.copy()
        s.band_cutoff, s.median_flux_error = c, med
        s.get_skyline_mask(full=True)
        r, a, b = s.mask_sky, s.wh_sky, s.wh_nosky
        t.eq(s.spec_mask, m, 'quality_mask_kept')
        t.eq(s.mask_qual, m, 'quality_mask_kept')
    else:
        m0 = m.copy()
        r, a, b = repo.gu.mask_skylines_2D(flux=np.ones((ny, n)), err=e.copy(), weight=None, mask=m0, band_cutoff=c,
                                           median_err=med, full=True)
        t.eq(m0, m, 'quality_mask_kept')
        t.raises(ValueError, lambda: repo.gu.mask_skylines_2D(flux=np.ones((ny, n)), err=e, mask=m, band_cutoff=c, median_err=med,
                                                              band_cutoff_units='other'), 'other_units_refused')
    t.check([int(v) for v in a] == [i for i in range(n) if sky[i]], 'sky_channels')
    t.check([int(v) for v in b] == [i for i in range(n) if not sky[i]], 'other_channels')
    for j in range(ny):
        for i in range(n):
            t.eq(r[j, i], 0. if sky[i] else m[j, i], 'sky_mask')


def expected_rows(high):
    n = len(high)
    idx = [i for i in range(n) if high[i]]
    groups = []
    for i in idx:
        if groups and groups[-1][-1] == i - 1:
            groups[-1].append(i)
        else:
            groups.append([i])
    if len(groups) > 1:
        idx = [i for g in groups if len(g) >= 3 for i in g]
    low = [i for i in range(n) if i not in idx]
    out = set(low)
    if low and idx:
        # rows beyond the outermost low row are cut off too, on either side of the centre
        if low[0] < n / 2. and idx[0] < low[0]:
            out.update(range(low[0]))
        if low[-1] > n / 2. and idx[-1] > low[-1]:
            out.update(range(low[-1], n))
    return sorted(out)


def rows(t, repo, ny, nw=1, empty=None, method=False):
    np = t.np
    cut = 2.
    f = t.reals('f', (ny, nw), -50., 50.)
    e = .5 + .25 * np.arange(ny * nw).reshape(ny, nw)
    calc = np.ones((ny, nw))
    if nw > 1:
        calc[:, 1] = 0.
        calc[0, 1] = 1.
    if empty is not None:
        calc[empty, :] = 0.
    m = np.array([[.5 if (i + j) % 3 == 0 else 1. for i in range(nw)] for j in range(ny)])
    high = []
    for j in range(ny):
        if j == empty:
            high.append(False)
            continue
        s, v = 0., 0.
        for i in range(nw):
            if float(calc[j, i]):
                s, v = s + f[j, i], v + float(e[j, i]) ** 2
        t.assume(abs(abs(s) - cut * v ** .5) >= 1e-5)
        high.append(bool(abs(s) > cut * v ** .5))
    if method:
        s = repo.gal.ObsSpectrum2D(wave=np.arange(nw) * 1.)
        s.flux, s.flux_err, s.spec_mask, s.mask_sky = f.copy(), e.copy(), m.copy(), calc.copy()
        s.row_snr_cut = cut
        s.get_low_snr_mask()
        r, low = s.mask_low_snr, s.low_snr_row_inds
        t.eq(s.spec_mask, m, 'mask_kept')
        t.eq(s.mask_sky, calc, 'mask_kept')
    else:
        m0 = m.copy()
        r, low = repo.gu.mask_low_snr_rows_2D(flux=f.copy(), err=e.copy(), mask=m0, mask_calc=calc.copy(), snr_cut=cut)
        t.eq(m0, m, 'mask_kept')
    want = expected_rows(high)
    t.check(sorted(set(int(v) for v in low)) == want, 'low_rows')
    for j in range(ny):
        t.eq(r[j], [0.] * nw if j in want else m[j], 'low_rows_masked')


HARNESSES = [
    dict(name='edges', fn=edges, configs=[dict(n=7, num=2), dict(n=6, num=10), dict(n=6, num=1, method=True), dict(n=6, num=0), dict(n=7, num=4)],
         thorough=[dict(n=9, num=3)]),
    dict(name='missing', fn=missing, configs=[dict(given=True, weight=False, nonfinite_only=False), dict(given=False, weight=False, nonfinite_only=False),
                                              dict(given=True, weight=True, nonfinite_only=True), dict(given=False, weight=False, nonfinite_only=True), dict(given=False, weight=False, nonfinite_only=False, unit=1e-22),
                                              dict(given=True, weight=True, nonfinite_only=False, two_d=True)]),
    dict(name='infinite', fn=infinite, configs=[dict(nonfinite_only=True, err=False), dict(nonfinite_only=True, err=True),
                                                dict(nonfinite_only=False, err=False), dict(nonfinite_only=False, err=True)], must_reach=['missing_masked', 'filled']),
    dict(name='columns', fn=columns),
    dict(name='fill', fn=fill, configs=[dict(zero=False, every=False), dict(zero=True, every=False), dict(zero=True, every=True), dict(zero=False, every=True)]),
    dict(name='continuous', fn=continuous, configs=[dict(n=7)]),
    dict(name='sky1d', fn=sky1d, configs=[dict(full=True), dict(full=False)]),
    dict(name='sky2d', fn=sky2d, configs=[dict(), dict(method=True), dict(exact=True)]),
    dict(name='rows', fn=rows, configs=[dict(ny=7), dict(ny=8), dict(ny=5, nw=2), dict(ny=6, empty=2, method=True)],
         thorough=[dict(ny=9)]),
]
