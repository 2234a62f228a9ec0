"""Stand-in for scipy.integrate.quad, in the symbolic and in the real runs alike: a quadrature rule of three points, which is linear in
the integrand as the integral is.  The integrals of the reference are taken with the same rule."""
import types

X = (-.7745966692414834, 0., .7745966692414834)
W = (.5555555555555556, .8888888888888888, .5555555555555556)


def quad(f, a, b, args=(), **k):
    h = .5 * (b - a)
    s = 0.
    for x, w in zip(X, W):
        s = s + w * f(a + h * (1. + x), *args)
    return s * h, 0.


def install(repo):
    import scipy.integrate

    class Shim(types.ModuleType):
        def __getattr__(self, k):
            return getattr(scipy.integrate, k)
    shim = Shim('scipy.integrate')
    shim.quad = quad
    for m in repo.mods.values():
        for k, v in list(m.__dict__.items()):
            if v is scipy.integrate:
                m.__dict__[k] = shim
            elif v is scipy.integrate.quad:
                m.__dict__[k] = quad
