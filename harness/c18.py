"""C18 continuum subtraction: one slope from the 1D spectrum, one level per row, lines masked."""
import os
import tempfile
from . import common as K
from lib import lmstub

FUNCTIONS = ['galaxy_utils.subtract_continuum_2D', 'galaxy.ObsSpectrum2D.subtract_continuum', 'galaxy_utils.spec_mask_missing',
             'galaxy_utils.mask_edges_1D', 'galaxy_utils.mask_spec2D_from_1D', 'galaxy_utils.spec_nan_masking',
             'galaxy_utils.wh_skylines_1D', 'general_utils.weighted_linear_residual', 'general_utils.linear_fit']
BOUNDS = ('every 1D and 2D flux and error of 1-2 rows x 7-9 channels (errors listed), every fitted slope and level, every choice of '
          'missing pixels and zero weights listed, fit ranges within, beyond and on one side of the line; '
          'sum of squared residuals compared for every slope and level')
OUTSIDE = 'that lmfit finds the minimum of the sum it is given; longer spectra; errors that put a channel within 1e-6 of the sky threshold'
ASSUMPTIONS = ['lmfit.minimize returns some value of each free parameter and keeps the fixed ones']

setup_lifted = setup_real = lmstub.install

NAMES = ('full', 'mask', 'line')


def chisq(t, fn, p, **kw):
    r = fn(p.at(**kw))
    return t.np.sum(r * r)


def subtract(t, repo, n=9, ny=2, z=0., full=(100.5, 107.5), lines=(103., 105.), missing1=(), missing2=(), zero_w=(), zero_e1=(),
             sky=(), err1=None, sky2=(), no_cont=False, dead=(), cutoff=3., nanf=(), direct=False, whole=False):
    np = t.np
    wave = [100. + k for k in range(n)]
    e2 = [[.5 + .05 * ((3 * i + 2 * j) % 5) for i in range(n)] for j in range(ny)]
    e1 = [.4 + .03 * ((2 * i) % 5) for i in range(n)]
    for i in sky:
        e1[i] = 9.
    for i in sky2:
        for j in range(ny):
            e2[j][i] = 9.
    for i in zero_e1:
        e1[i] = 0.
    f2, f1 = t.reals('f', (ny, n), -5., 5.), t.reals('g', n, -5., 5.)
    if whole:
        # fluxes that are whole numbers, in arrays of whole numbers
        f2 = np.array([[(3 * i + 7 * j) % 11 - 4 for i in range(n)] for j in range(ny)])
        f1 = np.array([(5 * i) % 7 - 2 for i in range(n)])
    nan = float('nan')
    for (j, i) in missing2:
        e2[j][i] = nan
    for (j, i) in nanf:
        f2[j, i] = nan
    for i in missing1:
        e1[i] = nan
    w = [[0. if [j, i] in [list(x) for x in zero_w] else 1. for i in range(n)] for j in range(ny)]
    given = [[0. if i in dead else 1. for i in range(n)] for j in range(ny)]
    g = repo.gal.Galaxy(z=z)
    s = repo.gal.ObsSpectrum2D(wave=np.array([v * (1. + z) for v in wave]))
    s.flux, s.flux_err = f2.copy(), np.array(e2)
    s.spec_mask, s.spec_weight = np.array(given), np.array(w)
    s.linenames_arr, s.restwave_arr = ['HA6565'], np.array([104.])
    s.wave_full_range_rest = np.array(list(full))
    s.mask_lines_wave_range_rest = np.array(list(lines))
    s.wave_line_range_rest = np.array([103.5, 104.5])
    s.band_cutoff = cutoff
    s1 = repo.gal.ObsSpectrum1D(wave=np.array([v * (1. + z) for v in wave]), flux=f1.copy(), flux_err=np.array(e1))
    g.set_spectrum_1D(s1)
    g.set_spectrum_2D(s)
    # ---- what is expected
    fin = lambda v: isinstance(v, float) and v == v or not isinstance(v, float)
    m1 = [1. if fin(e1[i]) and not (e1[i] == 0. and not missing1) else 0. for i in range(n)]
    on = [i for i in range(n) if m1[i] == 1.]
    if on and on[0] > 0:
        for i in range(on[0], min(n, on[0] + 10)):
            m1[i] = 0.
    if on and on[-1] < n - 1:
        for i in range(max(0, on[-1] - 9), on[-1] + 1):
            m1[i] = 0.
    if no_cont:
        m1 = [1.] * n
    m2 = [[given[j][i] * w[j][i] * m1[i] * (1. if e2[j][i] == e2[j][i] and [j, i] not in [list(x) for x in nanf] else 0.)
           for i in range(n)] for j in range(ny)]
    E2 = [[e2[j][i] if e2[j][i] == e2[j][i] else -99. for i in range(n)] for j in range(ny)]
    cols = sorted(sum((E2[j][i] * m2[j][i]) ** 2 for j in range(ny)) ** .5 for i in range(n))
    med = .5 * (cols[(n - 1) // 2] + cols[n // 2])
    left = [i for i in range(n) if full[0] <= wave[i] < lines[0]]
    right = [i for i in range(n) if lines[1] < wave[i] <= full[1]]
    inside = [i for i in range(n) if full[0] <= wave[i] <= full[1]]
    use1 = [i for i in left + right if m1[i] and not abs(e1[i]) >= cutoff * med]
    both = any(i in use1 for i in left) and any(i in use1 for i in right)
    rows = [[i for i in left + right if m2[j][i]] for j in range(ny)]
    calls = []
    slope, lev1, lev = t.real('slope', -2., 2.), t.real('lev1', -9., 9.), t.reals('lev', ny, -9., 9.)
    A, B = t.real('A', -3., 3.), t.real('B', -9., 9.)
    ob = [v * (1. + z) for v in wave]

    def hook(fn, p, args):
        k = len(calls)
        calls.append(p)
        if k == 0:
            t.check(p.free() == (['a', 'b'] if both else ['b']), 'slope_free_when_both_sides_are_seen')
            if not both:
                t.eq(p['a'].value, 0., 'no_slope_from_one_side')
            got = chisq(t, fn, p, a=A, b=B)
            want = sum(((A * ob[i] + B - f1[i]) / e1[i]) ** 2 for i in use1) + 0.
            t.eq(got, want, 'what_the_1D_fit_minimises', tol=1e-5)
            return dict(a=slope, b=lev1) if both else dict(b=lev1)
        t.check(k <= ny, 'one_fit_per_row')
        t.check(p.free() == ['b'], 'only_the_level_is_free_in_a_row')
        t.eq(p['a'].value, slope if both else 0., 'slope_of_the_1D_fit')
        got = chisq(t, fn, p, b=B)
        a = slope if both else 0.
        want = sum(((a * ob[i] + B - f2[k - 1, i]) / E2[k - 1][i]) ** 2 for i in rows[k - 1]) + 0.
        t.eq(got, want, 'what_the_row_fit_minimises', tol=1e-5)
        return dict(b=lev[k - 1])
    repo.lm.hook = hook
    if direct:
        s.subtract_continuum(g, no_cont_subtraction=no_cont)
    else:
        r = repo.gu.subtract_continuum_2D(s, g, no_cont_subtraction=no_cont)
        t.check(r is s, 'same_spectrum')
    t.check(len(calls) == (0 if no_cont else ny + 1), 'one_fit_per_row')
    t.eq(s.median_flux_error, med, 'median_error')
    t.eq(s.wave, [ob[i] for i in inside], 'trimmed_to_the_range')
    t.eq(s.obswave, [ob[i] for i in inside], 'trimmed_to_the_range')
    t.eq(s.restwave, [wave[i] for i in inside], 'trimmed_to_the_range')
    t.check(all(np.shape(x) == (ny, len(inside)) for x in (s.flux, s.flux_err, s.spec_mask, s.spec_weight, s.flux_incl_cont, s.cont_model)),
            'trimmed_to_the_range')
    for j in range(ny):
        for k, i in enumerate(inside):
            c = 0. if no_cont else (slope if both else 0.) * ob[i] + lev[j]
            t.eq(s.cont_model[j, k], c, 'continuum_of_the_row', tol=1e-5)
            t.eq(s.spec_mask[j, k], m2[j][i], 'mask_of_the_row')
            t.eq(s.spec_weight[j, k], w[j][i], 'weights_kept')
            if m2[j][i]:
                t.eq(s.flux_err[j, k], e2[j][i], 'errors_kept')
                t.eq(s.flux_incl_cont[j, k], f2[j, i], 'flux_with_continuum_kept')
                t.eq(s.flux[j, k], f2[j, i] - c, 'continuum_subtracted', tol=1e-5)
            else:
                t.check(not bool(t.isnan(s.flux[j, k])) and not bool(t.isnan(s.flux_err[j, k])), 'masked_pixels_are_numbers')
    if no_cont:
        t.eq(s1.flux, f1, 'spectrum_1D_kept')
        t.check(len(s1.wave) == n, 'spectrum_1D_kept')
    else:
        t.eq(s1.wave, [ob[i] for i in inside], 'spectrum_1D_trimmed_alike')
        t.eq(s1.flux, [f1[i] for i in inside], 'spectrum_1D_trimmed_alike')
        t.eq(s1.spec_mask, [m1[i] for i in inside], 'spectrum_1D_trimmed_alike')
        t.eq(s1.restwave, [wave[i] for i in inside], 'spectrum_1D_trimmed_alike')


RANGE = {'wave_full_range_rest': (4880.24, 5118.24), 'wave_line_range_rest': (5002.29, 5015.24), 'mask_lines_wave_range_rest': (4928.24, 5038.24)}


def ranges(t, repo, given=(), files=(), no_cont=False):
    """ranges that are not given are those of the first line in the parameter files"""
    np = t.np
    n, ny = 9, 1
    wave = [4850. + 37. * k for k in range(n)]
    f2, f1 = t.reals('f', (ny, n), -5., 5.), t.reals('g', n, -5., 5.)
    g = repo.gal.Galaxy(z=0.)
    s = repo.gal.ObsSpectrum2D(wave=np.array(wave), linenames_arr=['OIII5008', 'HB4863'], restwave_arr=np.array([5008.24, 4862.71]), band_cutoff=3.)
    s.flux, s.flux_err, s.spec_mask, s.spec_weight = f2.copy(), np.ones((ny, n)), np.ones((ny, n)), np.ones((ny, n))
    g.set_spectrum_1D(repo.gal.ObsSpectrum1D(wave=np.array(wave), flux=f1.copy(), flux_err=np.ones(n)))
    g.set_spectrum_2D(s)
    want, made = dict(RANGE), []
    for k, a in enumerate(RANGE):
        if a in given:
            want[a] = (4890. + 5. * k, 5110. - 5. * k)
            setattr(s, a, np.array(want[a]))
        if a in files:
            f = tempfile.NamedTemporaryFile('w', suffix='.param', delete=False)
            f.write('# linename  wave_l   wave_u\nHB4863 1. 2.\nOIII5008 %r %r\n' % (4900. + 5. * k, 5100. - 5. * k))
            f.close()
            made.append(f.name)
            setattr(s, a + '_param_filename', f.name)
            if a not in given:
                want[a] = (4900. + 5. * k, 5100. - 5. * k)
    sub = t.real('sub', -1., 1.)
    repo.lm.hook = lambda fn, p, args: {k: sub for k in p.free()}
    try:
        s.subtract_continuum(g, no_cont_subtraction=no_cont)
    finally:
        for f in made:
            os.unlink(f)
    for a in RANGE:
        t.eq(getattr(s, a), list(want[a]), 'range_of_the_first_line')


HARNESSES = [
    dict(name='ranges', fn=ranges, configs=[dict(), dict(given=['wave_full_range_rest']), dict(given=['mask_lines_wave_range_rest', 'wave_line_range_rest']),
                                            dict(files=['wave_full_range_rest', 'wave_line_range_rest']),
                                            dict(files=['mask_lines_wave_range_rest'], given=['wave_line_range_rest'])], must_reach=['range_of_the_first_line']),
    dict(name='subtract', fn=subtract, configs=[
        dict(), dict(z=1.5, ny=1), dict(full=(102.5, 107.5), ny=1), dict(full=(102.5, 107.5), lines=(103.5, 104.5)),
        dict(missing2=[[0, 1], [1, 6]], zero_w=[[0, 7], [1, 2]]), dict(nanf=[[1, 2]], dead=[7], direct=True),
        dict(sky=[2], ny=1), dict(whole=True), dict(whole=True, z=.5, missing2=[[0, 1]], direct=True), dict(sky=[1, 2], ny=2), dict(sky2=[6]), dict(zero_e1=[2]), dict(missing1=[4, 6]),
        dict(missing1=[0], ny=1), dict(zero_e1=[8], ny=1), dict(no_cont=True, missing2=[[0, 3]]), dict(no_cont=True, direct=True, z=.5),
        dict(full=(102., 107.), lines=(103., 105.), direct=True), dict(n=32, full=(108., 124.), lines=(114., 117.), missing1=[0, 31], ny=1)],
        thorough=[dict(n=14, ny=3, full=(101., 112.), lines=(105., 107.), sky=[3], missing2=[[0, 2], [2, 9]])]),
]
