"""C29 lines, ranges and thresholds come from the tables by name, and given values are kept."""
from . import common as K

FUNCTIONS = ['io.read_line_names', 'io.read_restwave', 'io.read_line_ratio', 'io.read_wave_range', 'io.read_skyline_band_cutoff',
             'galaxy.ObsSpectrum2D.initialize_lineset', 'galaxy.ObsSpectrum2D.initialize_skylevels', 'galaxy.ObsSpectrum2D.initialize_derived_variables',
             'emission_lines_model.EmissionLines1DModel.setAttr', 'emission_lines_model.EmissionLines1DModel.make1DProfile',
             'fit2D.FitEmissionLines2D.setup', 'fit1D.FitEmissionLines1D.setup']
BOUNDS = ('every wavelength, strength, range and threshold in tables of 4-6 rows in any of the listed orders, with and without a name listed twice; groups '
          'of 1-3 lines; every combination of given and missing names, wavelengths and strengths; the shipped tables')
OUTSIDE = 'the parser of astropy (a stand-in returns the columns of the file); other table formats'
ASSUMPTIONS = ['astropy.io.ascii.read returns the columns of a commented-header table in file order']



def setup_lifted(repo):
    repo.io_ascii = repo.io._ascii


setup_real = setup_lifted

LIB = {
    'line_names_cat.dat': [('Halpha', 'HA6565'), ('Hbeta', 'HB4863'), ('OIII', 'OIII5008,OIII4960'), ('NII', 'NII6550,NII6585'),
                           ('SII', 'SII6733,SII6718'), ('OII', 'OII3727,OII3730')],
    'line_wavelengths_ratios.dat': [('HA6565', 6564.60, 1.), ('HB4863', 4862.71, 1.), ('OIII5008', 5008.24, 1.), ('OIII4960', 4960.295, .333333),
                                    ('NII6550', 6549.86, .333333), ('NII6585', 6585.27, 1.), ('SII6718', 6718.294, .261111),
                                    ('SII6733', 6732.673, 1.), ('OII3727', 3727.10, 1.), ('OII3730', 3729.86, .233333)]}


class Table(dict):
    def __init__(self, np, **cols):
        dict.__init__(self, cols)
        self.colnames = list(cols)


class Tables(object):
    """files whose numbers may be anything"""

    def __init__(self, t, repo, order=0, twice=False):
        self.t, self.read_files = t, []
        np = t.np
        names = ['NII1', 'HA', 'OA', 'OB', 'NII2']
        names = names[order:] + names[:order]
        if twice:
            names = names + [names[1], names[0]]
        self.names = names
        n = len(names)
        self.w, self.s = t.reals('w', n, 3000., 9000.), t.reals('s', n, .1, 1.)
        self.lo, self.hi = t.reals('lo', n, 3000., 6000.), t.reals('hi', n, 6000., 9000.)
        self.groups = [('Halpha', 'HA'), ('NII', 'NII1,NII2'), ('OIII', 'OA,OB'), ('all', 'NII2,HA,NII1'), ('odd', 'HA,MISSING')]
        self.groups = self.groups[order:] + self.groups[:order]
        self.bands = ['K', 'H', 'J'][order % 3:] + ['K', 'H', 'J'][:order % 3]
        self.cut = t.reals('cut', 3, .5, 5.)
        self.units = ['u' + b for b in self.bands]
        repo.io._ascii = self

    def read(self, filename, *a, **kw):
        self.t.check(kw.get('format', a[0] if a else None) == 'commented_header', 'table_format')
        f = str(filename)
        self.read_files.append(f)
        np = self.t.np
        if 'names' in f:
            return Table(np, name=np.array([g[0] for g in self.groups]), lineset=np.array([g[1] for g in self.groups]))
        if 'ratio' in f:
            return Table(np, linename=np.array(self.names), restwave=self.w, strength=self.s)
        if 'band' in f:
            return Table(np, band=np.array(self.bands), sn_cutoff=self.cut, units=np.array(self.units))
        return Table(np, linename=np.array(self.names), wave_l=self.lo, wave_u=self.hi)

    def at(self, name):
        return self.names.index(name)

    def group(self, name):
        return dict(self.groups)[name].split(',')


def tables(t, repo, order=0, twice=False):
    """the row of that name: the first one; no such name is an error"""
    T = Tables(t, repo, order, twice)
    io = repo.io
    for n in sorted(set(T.names)):
        k = T.at(n)
        t.eq(io.read_restwave('ratio.dat', linename=n), T.w[k], 'wavelength_of_that_line', tol=1e-9)
        t.eq(io.read_line_ratio('ratio.dat', linename=n), T.s[k], 'strength_of_that_line', tol=1e-9)
        r = io.read_wave_range('range.param', linename=n)
        t.check(len(r) == 2, 'range_of_that_line')
        t.eq(r[0], T.lo[k], 'range_of_that_line', tol=1e-9)
        t.eq(r[1], T.hi[k], 'range_of_that_line', tol=1e-9)
    for n, _ in T.groups:
        t.check([str(x) for x in io.read_line_names('names.dat', name=n)] == T.group(n), 'lines_of_the_group')
    for k, b in enumerate(T.bands):
        c, u = io.read_skyline_band_cutoff('band.dat', band=b)
        t.eq(c, T.cut[k], 'threshold_of_the_band', tol=1e-9)
        t.check(str(u) == T.units[k], 'threshold_of_the_band')
    for bad in ('ha', 'HA2', '', None, 'NII'):
        for fn, f, kw in ((io.read_restwave, 'ratio.dat', 'linename'), (io.read_line_ratio, 'ratio.dat', 'linename'),
                          (io.read_wave_range, 'range.param', 'linename'), (io.read_skyline_band_cutoff, 'band.dat', 'band')):
            t.raises(ValueError, lambda: fn(f, **{kw: bad}), 'unknown_name_refused')
    for bad in ('halpha', 'HA', '', None):
        t.raises(ValueError, lambda: io.read_line_names('names.dat', name=bad), 'unknown_name_refused')


def expected(t, T, names, wave, ratio):
    return ([T.w[T.at(n)] for n in names] if wave is None else wave), ([T.s[T.at(n)] for n in names] if ratio is None else ratio)


def compare(t, o, names, wave, ratio, label):
    t.check([str(x) for x in o.linenames_arr] == list(names), label + 'names')
    t.check(len(o.restwave_arr) == len(names) and len(o.flux_ratio_arr) == len(names), label + 'shape')
    for k in range(len(names)):
        t.eq(o.restwave_arr[k], wave[k], label + 'wavelengths', tol=1e-9)
        t.eq(o.flux_ratio_arr[k], ratio[k], label + 'strengths', tol=1e-9)


def choose(t, group, names, wave, ratio, T, tag=''):
    kw, real = {}, (names or T.group(group))
    w = r = None
    if names:
        kw['linenames_arr'] = list(names)
    if wave:
        w = t.reals(tag + 'gw', len(real), 3000., 9000.)
        kw['restwave_arr'] = w.copy()
    if ratio:
        r = t.reals(tag + 'gr', len(real), .1, 1.)
        kw['flux_ratio_arr'] = r.copy()
    w, r = expected(t, T, real, w, r)
    return kw, real, w, r


def spectrum(t, repo, group='NII', names=None, wave=False, ratio=False, own=False, order=0, band=None):
    """2D spectrum: what is not given is looked up"""
    np = t.np
    T = Tables(t, repo, order)
    kw, real, w, r = choose(t, group, names, wave, ratio, T)
    if not names:
        kw['linegroup_name'] = group
    if own:
        kw.update(linenames_param_filename='mynames', restwave_param_filename='myratio', band_cutoff_param_filename='myband')
    z = t.real('z', 0., 4.)
    sh = t.real('d', .5, 3.)
    W = [9000. + sh * k for k in range(4)]
    s = repo.gal.ObsSpectrum2D(wave=t.arr(W), flux=np.ones((2, 4)), flux_err=np.ones((2, 4)), band='J', **kw)
    if band is not None:
        cut = t.real('mycut', .5, 5.)
        s.band_cutoff, s.band_cutoff_units = cut, 'mine'
    g = repo.gal.Galaxy(z=z)
    for _ in range(2):
        s.initialize_lineset()
        s.initialize_skylevels()
        compare(t, s, real, w, r, '')
        s.initialize_derived_variables(g)
        t.eq(s.lam0, w[0] * (1. + z), 'centre_of_the_first_line', tol=1e-7)
        t.eq(s.dlam, sh, 'channel_width', tol=1e-7)
        if band is None:
            t.eq(s.band_cutoff, T.cut[T.bands.index('J')], 'threshold_of_the_band', tol=1e-9)
            t.check(str(s.band_cutoff_units) == 'uJ', 'threshold_of_the_band')
        else:
            t.eq(s.band_cutoff, cut, 'threshold_of_the_band', tol=1e-9)
            t.check(s.band_cutoff_units == 'mine', 'threshold_of_the_band')
    if own:
        t.check(set(T.read_files) <= {'mynames', 'myratio', 'myband'}, 'tables_of_the_user')
    k = t.real('lam', 5000., 9000.)
    s = repo.gal.ObsSpectrum2D(wave=t.arr(W), flux=np.ones((2, 4)), flux_err=np.ones((2, 4)), band='J', lam0=k, **kw)
    s.initialize_lineset()
    s.initialize_derived_variables(g)
    t.eq(s.lam0, k, 'given_centre_kept', tol=1e-9)


def model(t, repo, group='NII', names=None, wave=False, ratio=False, order=0):
    """1D line model: likewise, and the profile uses them"""
    np = t.np
    T = Tables(t, repo, order)
    kw, real, w, r = choose(t, group, names, wave, ratio, T)
    if not names:
        kw['name'] = group
    m = repo.el.EmissionLines1DModel(profile_function=lambda x, mu, sig, flux: flux * (x - mu) + sig, **kw)
    compare(t, m, real, w, r, '')
    v, f, z = t.real('v', 1., 300.), t.real('f', -5., 5.), .5
    x = [5000., 6000.]
    m.make1DProfile(np.array(x), z, v, f)
    for k in range(2):
        t.eq(m.profile[k], sum(f * r[i] * (x[k] - w[i] * 1.5) + v for i in range(len(real))), 'profile_of_these_lines', tol=1e-5)
    m.setAttr(vel_disp=1.)
    compare(t, m, real, w, r, '')


def fit(t, repo, group='NII', names=None, wave=False, ratio=False, spec=None, order=0):
    """2D fit: the lines of the fit are the lines of its spectrum"""
    np = t.np
    T = Tables(t, repo, order)
    kw, real, w, r = choose(t, group, names, wave, ratio, T)
    g = K.galaxy(t, repo, ny=2, wave=(1., 2.))
    s = g.spec2D
    s.linenames_arr = s.restwave_arr = s.flux_ratio_arr = s.linegroup_name = None
    if spec == 'all':
        real = ['X', 'Y']
        w, r = t.reals('xw', 2, 3000., 9000.), t.reals('xr', 2, .1, 1.)
        s.linenames_arr, s.restwave_arr, s.flux_ratio_arr = real, w.copy(), r.copy()
        kw = {}
    elif spec == 'names':
        real = ['OB', 'HA', 'OA']
        s.linenames_arr = list(real)
        w, r = expected(t, T, real, None, None)
        kw = {}
    F = repo.f2.FitEmissionLines2D(galaxy=g, instrument=K.instrument(repo), linegroup_name=group, skip_fit_prep_calcs=True, **kw)
    compare(t, F, real, w, r, 'fit_')
    compare(t, F.galaxy.spec2D, real, w, r, 'spectrum_')


def fit1(t, repo, names=('NII', 'Halpha'), order=0):
    """1D fit: for each of its groups"""
    np = t.np
    T = Tables(t, repo, order)
    n = 12
    W = [9000. + k for k in range(n)]
    g = repo.gal.Galaxy(z=.5)
    g.set_spectrum_1D(repo.gal.ObsSpectrum1D(wave=np.array(W), flux=np.ones(n), flux_err=np.ones(n)))
    T.lo = t.arr([9000.5 / 1.5] * len(T.names))
    T.hi = t.arr([9010.5 / 1.5] * len(T.names))
    F = repo.f1.FitEmissionLines1D(galaxy=g, names_arr=list(names), instrument_resolution=40., trim_restwave_range=[5900., 6100.])
    t.check([[str(x) for x in a] for a in F.linenames_arr] == [T.group(a) for a in names], 'lines_of_each_group')
    for j, a in enumerate(names):
        for k, l in enumerate(T.group(a)):
            t.eq(F.restwave_arr[j][k], T.w[T.at(l)], 'wavelengths_of_each_group', tol=1e-9)
    F2 = repo.f1.FitEmissionLines1D(galaxy=g, names_arr=list(names), instrument_resolution=40., trim_restwave_range=[5900., 6100.],
                                    restwave_arr=[[1.], [2.]])
    t.check([[str(x) for x in a] for a in F2.linenames_arr] == [T.group(a) for a in names], 'lines_of_each_group')
    t.check([list(x) for x in F2.restwave_arr] == [[1.], [2.]], 'given_wavelengths_kept')


def library(t, repo):
    """the shipped tables"""
    io = repo.io
    io._ascii = repo.io_ascii
    for n, ls in LIB['line_names_cat.dat']:
        t.check([str(x) for x in io.read_line_names(io.get_param_filename('line_names_cat.dat'), name=n)] == ls.split(','), 'shipped_groups')
    f = io.get_param_filename('line_wavelengths_ratios.dat')
    u = t.real('u', .5, 2.)
    for n, w, s in LIB['line_wavelengths_ratios.dat']:
        t.eq(io.read_restwave(f, linename=n) * u, w * u, 'shipped_wavelengths', tol=1e-6)
        t.eq(io.read_line_ratio(f, linename=n) * u, s * u, 'shipped_strengths', tol=1e-6)
    for g, ls in LIB['line_names_cat.dat']:
        m = repo.el.EmissionLines1DModel(name=g)
        d = {n: (w, s) for n, w, s in LIB['line_wavelengths_ratios.dat']}
        compare(t, m, ls.split(','), [d[l][0] for l in ls.split(',')], [d[l][1] for l in ls.split(',')], 'shipped_')


GIVEN = [dict(), dict(group='Halpha', order=1), dict(group='all', order=2), dict(names=('OB', 'OA')), dict(names=('HA', 'OB'), wave=True, order=3),
         dict(names=('HA', 'OB'), ratio=True), dict(names=('L1', 'L2'), wave=True, ratio=True), dict(group='NII', wave=True, order=2),
         dict(group='NII', ratio=True)]
HARNESSES = [
    dict(name='tables', fn=tables, configs=[dict(), dict(order=1), dict(order=2, twice=True), dict(order=4, twice=True)],
         must_reach=['wavelength_of_that_line', 'unknown_name_refused']),
    dict(name='spectrum', fn=spectrum, configs=GIVEN + [dict(own=True), dict(group='OIII', band='given')], must_reach=['wavelengths', 'strengths']),
    dict(name='model', fn=model, configs=GIVEN, must_reach=['profile_of_these_lines']),
    dict(name='fit', fn=fit, configs=[dict(), dict(group='all', order=1), dict(spec='all'), dict(spec='names', order=2), dict(names=('OB', 'OA')),
                                      dict(names=('HA', 'OB'), wave=True), dict(names=('HA', 'OB'), ratio=True), dict(names=('L1', 'L2'), wave=True, ratio=True)],
         must_reach=['spectrum_wavelengths']),
    dict(name='fit1', fn=fit1, configs=[dict(), dict(names=('Halpha',), order=2)][:1], must_reach=['wavelengths_of_each_group']),
    dict(name='library', fn=library, configs=[dict()], must_reach=['shipped_wavelengths']),
]
