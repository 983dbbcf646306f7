"""Access to the code under test, and common test equipment."""
import sys
import warnings
sys.path.insert(0, '/repo')
warnings.simplefilter('ignore')
import numpy as np                                       # noqa: E402
import empymod                                           # noqa: E402
from empymod import (filters, io, kernel, model, transform,  # noqa: E402
                     utils)
assert empymod.__file__.startswith('/repo/'), empymod.__file__

MU0 = 4e-7*np.pi
C0 = 299792458
EPS0 = 1./(MU0*C0*C0)


def tiny_hankel(n=4, name='tinyh', seed=0):
    """A small, inaccurate Hankel filter (for linear-algebraic identities).

    Identities between linear combinations of fields at the same offsets hold
    exactly for any filter; using few abscissae makes replays cheap.
    """
    r = np.random.RandomState(seed+n)
    f = filters.DigitalFilter(name, filter_coeff=['j0', 'j1'])
    f.base = np.exp(np.linspace(-1.2, 1.4, n))
    f.factor = np.around([f.base[1]/f.base[0]], 15)
    f.j0 = r.uniform(.3, 1.2, n)
    f.j1 = r.uniform(.3, 1.2, n)
    return f


def tiny_fourier(n=4, name='tinyf', seed=0):
    r = np.random.RandomState(seed+100+n)
    f = filters.DigitalFilter(name, filter_coeff=['sin', 'cos'])
    f.base = np.exp(np.linspace(-1.2, 1.4, n))
    f.factor = np.around([f.base[1]/f.base[0]], 15)
    f.sin = r.uniform(.3, 1.2, n)
    f.cos = r.uniform(.3, 1.2, n)
    return f


TH = tiny_hankel()
TF = tiny_fourier()
HT = {'dlf': TH, 'pts_per_dec': 0}
FT = {'dlf': TF, 'pts_per_dec': 0}
TINY = dict(ht='dlf', htarg=HT, ft='dlf', ftarg=FT)


def quiet(fn, *a, **k):
    """Call with verb=0 unless given."""
    k.setdefault('verb', 0)
    return fn(*a, **k)


def restore_minimum():
    utils.set_minimum(min_freq=1e-20, min_time=1e-20, min_off=1e-3,
                      min_res=1e-20, min_angle=1e-10)


# Layered models, with contrasts in every parameter.
def stack(n, rng=None, var=0):
    """A model of n layers: dict(depth, res, aniso, epermH, ...)."""
    base = dict(
        res=[3., 1., 20., .5, 7., 100., 2.],
        aniso=[1., 1.7, 1.3, 2.1, .8, 1.1, 1.5],
        epermH=[1., 8e3, 3e4, 50., 1e4, 1., 400.],
        epermV=[1., 3e3, 9e4, 80., 2e4, 5., 10.],
        mpermH=[1., 1.5, 1.1, 3., 1.2, 2., 1.],
        mpermV=[1., 1.2, 2.1, 2., 1.6, 1., 3.],
    )
    k = var % 7
    d = {p: np.array((v[k:]+v[:k])[:n]) for p, v in base.items()}
    dep = np.cumsum([0., 40., 75., 20., 110., 65.])[:n-1] + 13.*(var % 3)
    d['depth'] = dep
    return d
