"""C01: equivalent descriptions of a layered model give the same field."""
import vlib

INF = 1000


def run(chk):
    hs = [chk.tlc_start('LayerModel', consts=dict(MaxN=4, Fam=f'"{f}"'))
          for f in 'em']
    import emp
    from emp import np, empymod
    cases = []
    for h in hs:
        cases += chk.tlc_wait(h)['cases']
    chk.extra['descriptions_in_model'] = len(cases)
    chk.rng.shuffle(cases)
    if not chk.thorough:
        # All directions/infinities/numbers of layers at least several times.
        cases = cases[:3500]
    # Concrete numbers for the abstract values.
    r = np.random.RandomState(chk.seed)
    val = dict(depth={i: 25.*i/10 + 13*(i > 15) for i in range(10, 100, 10)})
    val['depth'].update({INF: np.inf, -INF: -np.inf})
    for p, (lo, hi, off) in dict(res=(.5, 60, 1), aniso=(.5, 2.5, 10),
                                 e=(10, 5e4, 20), m=(1.1, 3, 20),
                                 extra=(.5, 2, 60)).items():
        val[p] = {1: 1.} if p != 'res' else {}
        for k in list(range(off+1, off+6)) + list(range(off+21, off+26)):
            val[p][k] = float(np.exp(r.uniform(np.log(lo), np.log(hi))))

    def conv(p, s, rng, n):
        v = [val[p][i] for i in s]
        form = rng.randrange(4)
        if n == 1 and p != 'depth' and form == 0:
            return v[0]
        if form == 1:
            return v
        if form == 2:
            return tuple(v)
        return np.array(v)

    def args(x, fam, rng):
        n = len(x['res'])
        a = {}
        a['depth'] = conv('depth', x['depth'], rng, n)
        if not x['depth']:
            a['depth'] = rng.choice([None, [], np.array([])])
        a['res'] = conv('res', x['res'], rng, n)
        for k, p in (('aniso', 'aniso'), ('pH', fam), ('pV', fam)):
            name = 'aniso' if k == 'aniso' else fam+'perm'+k[1]
            if x[k]:
                a[name] = conv(p, x[k], rng, n)
            elif rng.random() < .3:
                a[name] = None
        if x['dict']:
            a['res'] = dict(res=a['res'], cond=conv('extra', x['extra'], rng,
                                                    n), func_eta=hook)
        return a

    def hook(inp, p):
        f = inp['cond'][None, :]
        return p['etaH']*f, p['etaV']*f

    def canonical(b, dct, fam):
        a = dict(depth=np.array([val['depth'][i] for i in b['depth']]),
                 res=np.array([val['res'][i] for i in b['res']]),
                 aniso=np.array([val['aniso'][i] for i in b['aniso']]))
        a[fam+'permH'] = np.array([val[fam][i] for i in b['pH']])
        a[fam+'permV'] = np.array([val[fam][i] for i in b['pV']])
        if dct:
            a['res'] = dict(res=a['res'], cond=np.array(
                [val['extra'][i] for i in b['extra']]), func_eta=hook)
        return a

    cache = {}
    lam = np.array([[.002, .013, .04]])

    def routines(n):
        """(name, function) of the routines for n layers."""
        zs, zr = (37., 61.) if n > 2 else (28., 47.)
        for ab in (11, 13, 33, 46, 55, 62, 16):
            yield f'dipole{ab}', lambda a, ab=ab: empymod.dipole(
                [0, 0, zs], [60., 35, zr], freqtime=[.5, 90], ab=ab, verb=0,
                xdirect=False, **a, **emp.TINY)
        yield 'dipole0', lambda a: empymod.dipole(
            [0, 0, -5], [60., 35, 2000], freqtime=[.5, 9], ab=12, verb=0,
            **a, **emp.TINY)
        yield 'bipole', lambda a: empymod.bipole(
            [0, 30, 10, 20, 15, zs], [60., 35, zr, 33, 44], freqtime=.7,
            srcpts=3, mrec='b', verb=0, **a, **emp.TINY)
        yield 'bipolej', lambda a: empymod.bipole(
            [0, 30, zs, 11, 40], [60., 35, zr, 33, 44], freqtime=.1,
            signal=0, msrc=True, mrec='j', verb=0, **a, **emp.TINY)
        yield 'loop', lambda a: empymod.loop(
            [0, 30, zs, 11, 40], [60., 35, zr, 33, 44], freqtime=[2, 3.],
            mrec=True, verb=0, **a, **emp.TINY)
        yield 'dipole_k', lambda a: np.array(empymod.dipole_k(
            [0, 0, zs], [60., 35, zr], freq=[.5, 9], ab=12, verb=0,
            wavenumber=lam, **a))
        yield 'gpr', lambda a: empymod.gpr(
            [0, 0, zs], [5., 1, zr], freqtime=np.array([2e-8, 5e-8]),
            cf=2.5e7, ab=11, verb=0, **a,
            ht='dlf', htarg=emp.HT, ft='fft',
            ftarg=dict(dfreq=1e6, nfreq=32))

    def one(c):
        x, b, fam = c['d'], c['base'], c['fam']
        rng = chk.rng
        n = b['n']
        names = [q for q in routines(n)]
        # dipole + two others per description; all of them in thorough mode
        pick = names if chk.thorough else (
            rng.sample(names[:7], 2) + rng.sample(names[7:], 2))
        for name, fn in pick:
            if name == 'gpr' and x['dict']:
                continue
            key = (str(b), x['dict'], fam, name)
            if key not in cache:
                o = vlib.call(fn, canonical(b, x['dict'], fam))
                if not o.ok:
                    chk.violation(f'{name} fails for a valid model',
                                  dict(model=b, outcome=repr(o)))
                    return
                cache[key] = o.value
            a = args(x, fam, rng)
            o = vlib.call(fn, a)
            info = dict(routine=name, description=a, canonical=canonical(
                b, x['dict'], fam))
            if not chk.check(o.ok, f'{name} fails for an equivalent '
                             'description', dict(info, outcome=repr(o))):
                return
            chk.case((x, fam, name), info)
            chk.check(vlib.close(o.value, cache[key], rtol=1e-9),
                      f'{name}: equivalent descriptions give other fields',
                      dict(info, relerr=vlib.relerr(o.value, cache[key]),
                           got=o.value, want=cache[key]))

    chk.extra['descriptions_replayed'] = chk.parallel(
        one, cases, budget=60 if not chk.thorough else 800)


if __name__ == '__main__':
    vlib.main('C01', run)
