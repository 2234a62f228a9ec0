"""Set-up of small observations for the harnesses, through the public classes."""
import math

C_KMS = 299792.458
LN2 = math.log(2.)
F2S = 2. * math.sqrt(2. * LN2)


def instrument(repo, **kw):
    d = dict(PSF_type='Gaussian', PSF_FWHM=0., pixscale=0.2, slit_width=0.4, slit_length=10.,
             instrument_resolution=0.)
    d.update(kw)
    beta = d.pop('PSF_beta', None)
    if d['PSF_type'] == 'Moffat' and beta is not None:
        d['PSF_beta'] = beta
    return repo.ins.Spectrograph(**d)


def galaxy(t, repo, ny=2, wave=(6560., 6563., 6566.), rest=(6564.,), ratio=(1.,), m0=0., flux=None,
           err=None, mask=None, weight=None, wh_nosky=None, spec_type='wave', **kw):
    """Galaxy with an already prepared 2D spectrum"""
    np = t.np
    d = dict(z=0., n=1., re_arcsec=0.5, q=0.6, q0=0.2, delt_PA=20., re_mass_arcsec=0.4, q_mass=0.7)
    d.update(kw)
    g = repo.gal.Galaxy(**d)
    w = np.array(list(wave))
    shape = (ny, len(wave))
    s = repo.gal.ObsSpectrum2D(wave=w, spec_type=spec_type)
    s.flux = np.ones(shape) if flux is None else flux
    s.flux_err = np.ones(shape) if err is None else err
    s.spec_mask = np.ones(shape) if mask is None else mask
    s.fitting_weight_matrix = np.ones(shape) if weight is None else weight
    s.restwave_arr = np.array(list(rest))
    s.flux_ratio_arr = np.array(list(ratio))
    s.m0 = m0
    s.wh_nosky = np.arange(len(wave)) if wh_nosky is None else wh_nosky
    g.spec2D = s
    return g


def profiles(t, repo, g):
    return repo.kc.KinProfileFiducial(), repo.kc.IntensityProfileFiducial(g)


def aper2d(t, repo, g, ins, theta, **kw):
    """AperModel2D for the five standard parameters"""
    kp, ip = profiles(t, repo, g)
    d = dict(galaxy=g, instrument=ins, theta=theta, kinProfile=kp, intensityProfile=ip, nSubpixels=1,
             adaptive_upsample_wave=False, sigma_floor=False)
    d.update(kw)
    return repo.am.AperModel2D(**d)


def grid2d(t, repo, g, ins, theta, **kw):
    """AperModel2D set up (grid, PSF kernel) without calculating the cube"""
    class Grid(repo.am.AperModel2D):
        def do_model_calcs(self):
            pass
    kp, ip = profiles(t, repo, g)
    d = dict(galaxy=g, instrument=ins, theta=theta, kinProfile=kp, intensityProfile=ip, nSubpixels=1,
             adaptive_upsample_wave=False, sigma_floor=False)
    d.update(kw)
    return Grid(**d)


# ---------------------------------------------------------------- independent reference
def ref_rotate(t, x, y, z, pa_deg, sini, cosi):
    """sky offsets -> galaxy frame: position angle counter-clockwise from up, then inclination"""
    np = t.np
    a = pa_deg * (math.pi / 180.)
    minor = np.cos(a) * x + np.sin(a) * y
    major = np.cos(a) * y - np.sin(a) * x
    return cosi * minor + sini * z, major, cosi * z - sini * minor


def ref_sersic(t, r, n, re):
    return t.np.exp(-(2. * n - 0.324) * ((r / re) ** (1. / n) - 1.))


def grid1(n, d):
    """centres of n cells of size d, symmetric about zero"""
    return [(i - 0.5 * (n - 1)) * d for i in range(n)]


def ref_gauss(t, x, mu, sig):
    return t.np.exp(-(x - mu) ** 2 / (2. * sig * sig)) / (sig * math.sqrt(2. * math.pi))
