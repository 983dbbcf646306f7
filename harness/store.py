"""Values for the descriptors of spec/Store.tla."""
import struct


def bits(np, a):
    """Bit patterns, all NaN the same."""
    a = np.asarray(a)
    if np.iscomplexobj(a):
        return [bits(np, a.real), bits(np, a.imag)]
    a = np.where(np.isnan(a), np.nan, a).astype(float)
    a = np.where(np.isnan(a), np.abs(np.float64('nan')), a)
    return [struct.pack('<d', x) if x == x else b'nan' for x in a.ravel()]


def number(rng, cl):
    u = rng.uniform
    return {'zero': lambda: 0., 'negzero': lambda: -0.,
            'int': lambda: float(rng.randrange(-9, 10) or 3),
            'rand': lambda: u(-1, 1)*10**u(-20, 3),
            'tiny': lambda: u(-1, 1)*10**u(-307, -290),
            'subnormal': lambda: rng.choice([-1, 1])*5e-324 *
            rng.randrange(1, 10**6),
            'huge': lambda: u(-1, 1)*1.797e308,
            'inf': lambda: rng.choice([-1, 1])*float('inf'),
            'nan': lambda: float('nan')}[cl]()


def data(np, rng, d):
    n = int(np.prod(d['shape']))

    def part(cl):
        return np.array([number(rng, cl[i % 2]) for i in range(n)])
    a = part(d['re'])
    if d['cplx']:
        z = np.empty(n, dtype=complex)
        z.real, z.imag = a, part(d['im'])
        a = z
    return a.reshape(d['shape'])
