"""C16 trimming in wavelength keeps exactly the channels in the range."""
import os
import tempfile
from . import common as K

FUNCTIONS = ['galaxy_utils.trim_spectrum_1D', 'galaxy_utils.trim_spectrum_2D_wavelength', 'galaxy.ObsSpectrum1D.trim_spectrum_wavelength',
             'galaxy.ObsSpectrum2D.trim_spectrum_wavelength', 'galaxy.ObsSpectrum.calculate_restwave', 'io.read_wave_range']
BOUNDS = ('every range with ends within or around a 5 channel axis (edges included) in increasing, decreasing and no order, every redshift in [0,4] and every flux, error, mask '
          'and weight of 1-2 rows; ranges observed, rest-frame and from a parameter file')
OUTSIDE = 'longer axes; floating point rounding of range ends that coincide with a channel'
ASSUMPTIONS = []

W = (100., 101., 102.5, 103., 104.)
ORDERS = {'up': W, 'down': W[::-1], 'mixed': (103., 100., 104., 102.5, 101.)}


def want(t, lo, hi, wave=W):
    return [k for k in range(len(wave)) if bool((wave[k] >= lo)) and bool(wave[k] <= hi)]


def clear(t, lo, hi, wave=W):
    """range ends coincide with a channel exactly or not at all"""
    for w in wave:
        for e in (lo, hi):
            t.assume(abs(e - w) >= 1e-6)


def bounds(t, exact, W=W):
    if exact is not None:
        return W[exact[0]], W[exact[1]]
    lo, hi = t.real('lo', 98., 106.), t.real('hi', 98., 106.)
    t.assume(lo <= hi)
    clear(t, lo, hi)
    return lo, hi


def param_file(lines):
    f = tempfile.NamedTemporaryFile('w', suffix='.param', delete=False)
    f.write('# linename  wave_l   wave_u\n# a comment\n' + ''.join('%s %r %r\n' % x for x in lines))
    f.close()
    return f.name


def call(obj, g, frame, lo, hi, z, **kw):
    if frame == 'obs':
        return obj.trim_spectrum_wavelength(g, trim_obswave_range=[lo, hi], **kw)
    return obj.trim_spectrum_wavelength(g, trim_restwave_range=[lo / (1. + z), hi / (1. + z)], **kw)


def one(t, repo, frame='obs', exact=None, order='up'):
    np = t.np
    W = ORDERS[order]
    lo, hi = bounds(t, exact)
    n = len(W)
    z = t.real('z', 0., 4.) if frame == 'obs' else 0.25
    g = repo.gal.Galaxy(z=z)
    fl, er, mk = t.reals('f', n, -9., 9.), t.reals('e', n, .1, 2.), t.reals('m', n, 0., 1.)
    s = repo.gal.ObsSpectrum1D(wave=np.array(list(W)), flux=fl.copy(), flux_err=er.copy(), spec_mask=mk.copy())
    g.set_spectrum_1D(s)
    if exact is not None and frame == 'rest':
        lo, hi = lo - 1e-4, hi + 1e-4
    r = call(s, g, frame, lo, hi, z)
    k = want(t, lo, hi, W)
    check1(t, s, fl, er, mk, z, r, k, W)


def check1(t, s, fl, er, mk, z, r, k, W=W):
    np = t.np
    t.eq(s.flux, fl, 'original_kept')
    t.eq(s.flux_err, er, 'original_kept')
    t.eq(s.spec_mask, mk, 'original_kept')
    t.eq(s.wave, list(W), 'original_kept')
    if not k:
        t.check(r.wave is None and r.flux is None and r.flux_err is None and r.spec_mask is None, 'nothing_in_range')
        return
    for a in (r.wave, r.flux, r.flux_err, r.spec_mask, r.obswave, r.restwave):
        t.check(np.shape(a) == (len(k),), 'number_of_channels')
    t.eq(r.wave, [W[i] for i in k], 'wavelengths_kept')
    t.eq(r.obswave, [W[i] for i in k], 'observed_wavelengths')
    t.eq(r.restwave, [W[i] / (1. + z) for i in k], 'rest_wavelengths')
    t.eq(r.flux, [fl[i] for i in k], 'flux_kept')
    t.eq(r.flux_err, [er[i] for i in k], 'errors_kept')
    t.eq(r.spec_mask, [mk[i] for i in k], 'mask_kept')
    r.flux[0] = fl[k[0]] + 1.
    t.eq(s.flux, fl, 'original_kept_when_the_trimmed_one_changes')


def one_file(t, repo):
    np = t.np
    n = len(W)
    lo, hi = 101.3, 103.2
    z = t.real('z', .2, .3)
    g = repo.gal.Galaxy(z=z)
    fl, er, mk = t.reals('f', n, -9., 9.), t.reals('e', n, .1, 2.), t.reals('m', n, 0., 1.)
    s = repo.gal.ObsSpectrum1D(wave=np.array(list(W)), flux=fl.copy(), flux_err=er.copy(), spec_mask=mk.copy())
    g.set_spectrum_1D(s)
    r0, r1 = 81.5, 82.5
    name = param_file([('OTHER', 1., 2.), ('LINE', r0, r1), ('LAST', 3., 4.)])
    try:
        clear(t, r0 * (1. + z), r1 * (1. + z))
        r = s.trim_spectrum_wavelength(g, param_restwave_filename=name, linename='LINE')
        check1(t, s, fl, er, mk, z, r, want(t, r0 * (1. + z), r1 * (1. + z)))
        t.raises(ValueError, lambda: s.trim_spectrum_wavelength(g, param_restwave_filename=name, linename='NONE'), 'unknown_line_refused')
    finally:
        os.unlink(name)


def packaged(t, repo, two=False, inplace=False):
    """without a range or a file the ranges that come with the package are used"""
    np = t.np
    W = [9700., 9722., 9760., 9830., 9834., 9850., 9859., 9862., 9970., 9990.]
    n, z = len(W), t.real('z', .499, .501)
    lo, hi = (6555.6, 6573.6) if two else (6480., 6650.)
    g = repo.gal.Galaxy(z=z)
    if two:
        v = {nm: t.reals('v%d' % k, (1, n), -9., 9.) for k, nm in enumerate(NAMES[:4])}
        s = repo.gal.ObsSpectrum2D(wave=np.array(W))
        for nm in v:
            setattr(s, nm, v[nm].copy())
        g.set_spectrum_2D(s)
    else:
        fl, er, mk = t.reals('f', n, -9., 9.), t.reals('e', n, .1, 2.), t.reals('m', n, 0., 1.)
        s = repo.gal.ObsSpectrum1D(wave=np.array(W), flux=fl.copy(), flux_err=er.copy(), spec_mask=mk.copy())
        g.set_spectrum_1D(s)
    clear(t, lo * (1. + z), hi * (1. + z), W)
    kw = dict(inplace=inplace) if two else {}
    r = s.trim_spectrum_wavelength(g, linename='HA6565', **kw)
    k = want(t, lo * (1. + z), hi * (1. + z), W)
    t.check(len(k) > 0, 'range_of_the_line')
    if two:
        t.check((r is s) == inplace, 'in_place_or_copy')
        t.eq(r.wave, [W[i] for i in k], 'range_of_the_line')
        for nm in v:
            t.eq(getattr(r, nm), [[v[nm][0, i] for i in k]], 'range_of_the_line')
    else:
        check1(t, s, fl, er, mk, z, r, k, W)
    t.raises(ValueError, lambda: s.trim_spectrum_wavelength(g, linename='NONE', **kw), 'unknown_line_refused')


NAMES = ('flux', 'flux_err', 'spec_mask', 'spec_weight', 'flux_incl_cont', 'cont_model')


def two(t, repo, frame='obs', exact=None, inplace=False, cont=True, ny=2, z=None, file=False, order='up'):
    np = t.np
    W = ORDERS[order]
    n = len(W)
    if z is None:
        z = t.real('z', .2, .3) if file else t.real('z', 0., 4.)
    v = {}
    for k, nm in enumerate(NAMES):
        v[nm] = t.reals('v%d' % k, (ny, n), -9., 9.)
    g = repo.gal.Galaxy(z=z)
    s = repo.gal.ObsSpectrum2D(wave=np.array(list(W)))
    for nm in NAMES[:6 if cont else 4]:
        setattr(s, nm, v[nm].copy())
    g.set_spectrum_2D(s)
    if file:
        name = param_file([('OTHER', 1., 2.), ('LINE', 81.5, 82.5)])
        lo, hi = 81.5 * (1. + z), 82.5 * (1. + z)
        clear(t, lo, hi)
        try:
            r = s.trim_spectrum_wavelength(g, param_restwave_filename=name, linename='LINE', inplace=inplace)
        finally:
            os.unlink(name)
    else:
        lo, hi = bounds(t, exact)
        if exact is not None and frame == 'rest':
            lo, hi = lo - 1e-4, hi + 1e-4
        r = call(s, g, frame, lo, hi, z, inplace=inplace)
    k = want(t, lo, hi, W)
    if inplace:
        t.check(r is s, 'in_place_returns_the_spectrum')
    else:
        t.check(r is not s, 'copy_returned')
        for nm in NAMES[:6 if cont else 4]:
            t.eq(getattr(s, nm), v[nm], 'original_kept')
        t.eq(s.wave, list(W), 'original_kept')
    if not k:
        t.check(all(getattr(r, a) is None for a in ('wave',) + NAMES[:4]), 'nothing_in_range')
        return
    t.eq(r.wave, [W[i] for i in k], 'wavelengths_kept')
    t.eq(r.obswave, [W[i] for i in k], 'observed_wavelengths')
    t.eq(r.restwave, [W[i] / (1. + z) for i in k], 'rest_wavelengths')
    t.eq(r.trim_obswave_range, [lo, hi], 'range_recorded')
    t.eq(np.array(r.trim_restwave_range) * (1. + z), [lo, hi], 'range_recorded')
    for nm in NAMES[:6 if cont else 4]:
        a = getattr(r, nm)
        t.check(np.shape(a) == (ny, len(k)), 'number_of_channels')
        t.eq(a, [[v[nm][j, i] for i in k] for j in range(ny)], 'values_kept_' + nm)
    if not inplace:
        for nm in NAMES[:4]:
            getattr(r, nm)[0, 0] = 77.
            t.eq(getattr(s, nm), v[nm], 'original_kept_when_the_trimmed_one_changes')


def twice(t, repo, inplace, order='up'):
    """trimming again trims the trimmed spectrum"""
    np = t.np
    W = ORDERS[order]
    n = len(W)
    z = t.real('z', 0., 4.)
    v = t.reals('v', (1, n), -9., 9.)
    g = repo.gal.Galaxy(z=z)
    s = repo.gal.ObsSpectrum2D(wave=np.array(list(W)))
    for nm in NAMES[:4]:
        setattr(s, nm, v.copy())
    g.set_spectrum_2D(s)
    lo, hi = bounds(t, None)
    r = s.trim_spectrum_wavelength(g, trim_obswave_range=[100.5, 103.5], inplace=inplace)
    r = r.trim_spectrum_wavelength(g, trim_obswave_range=[lo, hi], inplace=inplace)
    k = [i for i in range(n) if 100.5 <= W[i] <= 103.5 and bool(W[i] >= lo) and bool(W[i] <= hi)]
    if not k:
        t.check(r.wave is None and r.flux is None, 'nothing_in_range')
        return
    t.eq(r.flux, [[v[0, i] for i in k]], 'values_kept_twice')
    t.eq(r.wave, [W[i] for i in k], 'wavelengths_kept_twice')
    t.eq(r.obswave, [W[i] for i in k], 'wavelengths_kept_twice')
    t.eq(r.restwave, [W[i] / (1. + z) for i in k], 'wavelengths_kept_twice')


def refused(t, repo):
    """without a range, or with both, nothing is trimmed"""
    np = t.np
    z = t.real('z', 0., 4.)
    g = repo.gal.Galaxy(z=z)
    s = repo.gal.ObsSpectrum2D(wave=np.array(list(W)))
    s.flux = s.flux_err = s.spec_mask = s.spec_weight = np.ones((1, len(W)))
    g.set_spectrum_2D(s)
    for ip in (False, True):
        t.raises(ValueError, lambda: s.trim_spectrum_wavelength(g, inplace=ip), 'no_range_refused')
        t.raises(ValueError, lambda: s.trim_spectrum_wavelength(g, trim_obswave_range=[1., 2.], trim_restwave_range=[1., 2.], inplace=ip),
                 'both_ranges_refused')
    t.check(s.flux.shape == (1, len(W)) and len(s.wave) == len(W), 'spectrum_kept')
    s1 = repo.gal.ObsSpectrum1D(wave=np.array(list(W)), flux=np.ones(5), flux_err=np.ones(5))
    h = repo.gal.Galaxy()
    h.set_spectrum_1D(s1)
    t.check(s1.trim_spectrum_wavelength(h, trim_restwave_range=[1., 2.]) is None, 'no_redshift')


HARNESSES = [
    dict(name='one', fn=one, configs=[dict(), dict(frame='rest'), dict(exact=[1, 3]), dict(exact=[0, 4]), dict(exact=[2, 2]),
                                      dict(frame='rest', exact=[1, 2]), dict(order='down'), dict(order='mixed', frame='rest')], must_reach=['number_of_channels']),
    dict(name='one_file', fn=one_file),
    dict(name='packaged', fn=packaged, configs=[dict(), dict(two=True), dict(two=True, inplace=True)], must_reach=['unknown_line_refused']),
    dict(name='two', fn=two, configs=[
        dict(), dict(inplace=True), dict(frame='rest'), dict(frame='rest', inplace=True), dict(cont=False), dict(cont=False, inplace=True),
        dict(exact=[1, 3]), dict(exact=[0, 4], inplace=True), dict(exact=[3, 3], ny=1), dict(file=True), dict(file=True, inplace=True), dict(order='down'),
        dict(order='down', inplace=True), dict(order='mixed', inplace=True, frame='rest', ny=1), dict(order='mixed', ny=1)],
        must_reach=['number_of_channels']),
    dict(name='twice', fn=twice, configs=[dict(inplace=False), dict(inplace=True), dict(inplace=True, order='mixed'), dict(inplace=False, order='down')], must_reach=['values_kept_twice']),
    dict(name='refused', fn=refused),
]
