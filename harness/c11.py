"""C11: execution options change cost, never results."""
import os
import pickle
import subprocess
import sys

import vlib


def consts(thorough):
    return dict(Routines='{"bipole", "dipole"}',
                Hts='{"dlf0", "lagged", "spline", "qwe", "quad"}',
                Doms='{"freq", "lap", "time"}')


def kernel_cases(emp, np, n, seed):
    """Inputs for the four compiled kernel functions and whole routines."""
    r = np.random.RandomState(seed)
    out = []
    for i in range(n):
        nl = 1 + i % 5
        m = emp.stack(nl, var=i % 7)
        freq = [r.uniform(.1, 50), r.uniform(100, 1e4)][:1+i % 2]
        if i % 3 == 0:
            freq = [-f for f in freq]
        out.append(dict(
            m, freqtime=freq, ab=[11, 12, 13, 23, 33, 14, 15, 16, 24, 26, 34,
                                  35, 44, 45, 46, 55, 66, 65, 61, 62, 31, 42,
                                  51, 22][i % 24],
            src=[0, 0, r.uniform(-30, 150)],
            rec=[r.uniform(-90, 90, 3), r.uniform(10, 90, 3),
                 r.uniform(-30, 150)], xdirect=[False, True, None][i % 3]))
    return out


def compute(emp, np, cases):
    res = []
    lam = np.array([[.001, .02, .3], [.005, .01, .7]])
    for c in cases:
        c = dict(c)
        a = emp.empymod.dipole(**c, verb=0, ht='dlf', htarg=emp.HT)
        res.append(np.array(a))
        c.pop('xdirect')
        c['freq'] = c.pop('freqtime')
        c['rec'] = [c['rec'][0][:1], c['rec'][1][:1], c['rec'][2]]
        res.append(np.array(emp.empymod.dipole_k(**c, wavenumber=lam[0],
                                                 verb=0)))
    return res


def run(chk):
    h = chk.tlc_start('Options', workers=4, consts=consts(chk.thorough))
    nk = 120 if not chk.thorough else 2000
    # The same computations with compiled kernels, in another process.
    fn = os.path.join(chk.scratch, 'jit.pkl')
    env = dict(os.environ)
    env.pop('NUMBA_DISABLE_JIT', None)
    p = subprocess.Popen(
        [sys.executable, os.path.abspath(__file__), 'jit', fn, str(nk),
         str(chk.seed)], env=env, stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, text=True)
    import emp
    from emp import np, empymod
    cases = chk.tlc_wait(h)['cases']
    chk.extra['option_combinations_in_model'] = len(cases)
    chk.rng.shuffle(cases)
    # Group by request; the options of one request must agree.
    groups = {}
    for c in cases:
        o = c['o']
        groups.setdefault((o['rout'], o['ht'], o['dom'], o['nf'], o['no']),
                          []).append((o, c['single']))
    th3 = emp.tiny_hankel(12, 'tinyh12')
    HTS = dict(dlf0=('dlf', emp.HT),
               lagged=('dlf', dict(dlf=th3, pts_per_dec=-1)),
               spline=('dlf', dict(dlf=th3, pts_per_dec=8)),
               qwe=('qwe', dict(rtol=1e-6, nquad=21, maxint=30,
                                pts_per_dec=20, diff_quad=1e9)),
               quad=('quad', dict(rtol=1e-6, limit=80, a=1e-5, b=.4,
                                  pts_per_dec=10)))

    def request(key):
        rout, ht, dom, nf, no = key
        rng = chk.rng
        m = emp.stack(rng.choice([1, 2, 3]), var=rng.randrange(7))
        ft = np.array([.8, 5., 60.])[:nf]
        sig = None
        if dom == 'lap':
            ft = -ft
        elif dom == 'time':
            ft, sig = np.array([.01, .3, 2.])[:nf], rng.choice([-1, 0, 1])
        x = np.array([60., 90., 91., 300.])[:no]
        y = np.array([35., -20., 0., 10.])[:no]
        zs, zr = rng.choice([(-8., 12.), (33., 41.), (20., 120.)])
        hta, hka = HTS[ht]
        kw = dict(ht=hta, htarg=hka, ft='dlf', ftarg=emp.FT, squeeze=False,
                  xdirect=rng.choice([True, False]))
        mod = [m[k] for k in ('aniso', 'epermH', 'epermV', 'mpermH',
                              'mpermV')]
        if rout == 'dipole':
            src, rec = [0, 0, zs], [x, y, zr]
            extra = [rng.choice([11, 12, 23, 34, 45, 66, 61, 33])]
            names = ['ab', 'aniso', 'epermH', 'epermV', 'mpermH', 'mpermV']
            extra = extra + mod
        else:
            src = [[0, 5.], 0, zs, 25., 10.]
            if no > 1 and ht == 'dlf0':
                zr = np.full(no, zr)
                zr[-1] += 13.
            rec = [x, y, zr, -40., 30.]
            names = ['aniso', 'epermH', 'epermV', 'mpermH', 'mpermV', 'msrc',
                     'srcpts', 'mrec', 'recpts', 'strength']
            extra = mod + [rng.choice([False, True, 'b']), 1,
                           rng.choice([False, True, 'j']), 1, 2.5]
        fn = getattr(empymod, rout)

        def do(o, src=src, rec=rec, ft=ft):
            k = dict(kw, verb=o['verb'],
                     loop=None if o['loop'] == 'none' else o['loop'])
            if o['pos']:
                return vlib.call(fn, src, rec, m['depth'], m['res'], ft, sig,
                                 *extra, **k)
            k.update(zip(names, extra))
            return vlib.call(fn, src=src, rec=rec, depth=m['depth'],
                             res=m['res'], freqtime=ft, signal=sig, **k)
        base = do(dict(verb=0, loop='none', pos=False))
        info = dict(rout=rout, ht=ht, dom=dom, model=m, src=src, rec=rec,
                    freqtime=ft, signal=sig, extra=extra)
        if not chk.check(base.ok, 'request failed', dict(info, got=base)):
            return
        sc = np.max(abs(base.value))
        todo = groups[key]
        if ht in ('qwe', 'quad'):
            todo = chk.rng.sample(todo, 5)
        for o, single in todo:
            got = do(o)
            chk.check(got.ok and vlib.close(got.value, base.value, 1e-11,
                                            scale=np.maximum(
                                                abs(base.value), 1e-6*sc)),
                      'execution options change the result',
                      dict(info, options=o, got=got, want=base.value))
            chk.case((o,), dict(options=o))
        if ht != 'dlf0':
            return
        # One by one: frequencies/times, offsets.
        one = [do(dict(verb=0, loop='none', pos=False), ft=ft[i:i+1])
               for i in range(nf)]
        chk.check(all(o.ok for o in one) and vlib.close(
            np.concatenate([o.value for o in one], 0), base.value, 1e-11,
            scale=np.maximum(abs(base.value), 1e-6*sc)),
            'frequencies/times one by one', dict(info, got=one,
                                                 want=base.value))
        one = []
        for i in range(no):
            r = list(rec)
            for j in (0, 1, 2):
                if np.ndim(r[j]):
                    r[j] = r[j][i:i+1] if rout != 'dipole' or j < 2 else r[j]
            one.append(do(dict(verb=0, loop='none', pos=False), rec=r))
        chk.check(all(o.ok for o in one) and vlib.close(
            np.concatenate([o.value for o in one], 1), base.value, 1e-11,
            scale=np.maximum(abs(base.value), 1e-6*sc)),
            'offsets one by one', dict(info, got=one, want=base.value))
        chk.case(('single', key, str(info['src'])))

    # Many offsets at once (the loop over offsets, and none).
    def many(i):
        rng = chk.rng
        m = emp.stack(1 + i % 4, var=i % 7)
        n = rng.choice([50, 127, 300])
        x = np.array([rng.uniform(10, 900) for _ in range(n)])
        y = np.array([rng.uniform(-900, 900) for _ in range(n)])
        f = np.array(sorted(rng.uniform(.01, 100) for _ in range(7)))
        kw = dict(m, ab=rng.choice([11, 12, 33, 46, 51, 66]), verb=0,
                  squeeze=False, ht='dlf', htarg=emp.HT)
        s, z = [0, 0, 5.], rng.choice([5.5, 30., 130.])
        a = [np.array(empymod.dipole(s, [x, y, z], freqtime=f, loop=k, **kw))
             for k in (None, 'off', 'freq')]
        sc = np.maximum(abs(a[0]), 1e-9*np.max(abs(a[0])))
        k, j = rng.randrange(n), rng.randrange(7)
        b = empymod.dipole(s, [x[k], y[k], z], freqtime=f[j], **kw)
        chk.check(vlib.close(a[0], a[1], 1e-10, scale=sc) and
                  vlib.close(a[0], a[2], 1e-10, scale=sc) and
                  vlib.close(a[0][j, k, 0], b[0, 0, 0], 1e-10,
                             scale=sc[j, k, 0]),
                  'many offsets: loops or single call differ',
                  dict(i=i, n=n, kw=kw, at=(j, k)))
        chk.case(('many', i))

    keys = list(groups)*(1 if not chk.thorough else 12)
    cheap = [k for k in keys if k[1] not in ('qwe', 'quad')]
    exp = [k for k in keys if k[1] in ('qwe', 'quad') and k[2] != 'time']
    b = 45 if not chk.thorough else 700
    n = chk.parallel(request, exp + cheap, budget=b, nproc=6)
    n += chk.parallel(many, range(14 if not chk.thorough else 300),
                      budget=b+10, nproc=6)
    chk.extra['requests_replayed'] = n
    # Compiled against interpreted kernels.
    kc = kernel_cases(emp, np, nk, chk.seed)
    ref = compute(emp, np, kc)
    out, _ = p.communicate(timeout=600)
    if p.returncode != 0:
        if '/repo/empymod' in out:
            chk.violation('compiled kernels fail', out[-3000:])
        else:
            raise vlib.Machinery(out)
    else:
        with open(fn, 'rb') as f:
            got = pickle.load(f)
        for i, (a, b) in enumerate(zip(got, ref)):
            sc = np.maximum(abs(b), 1e-6*np.max(abs(b)))
            chk.check(vlib.close(a, b, 1e-9, scale=sc, atol=1e-30),
                      'compiled and interpreted kernels differ',
                      dict(case=kc[i//2], compiled=a, interpreted=b))
            chk.case(('jit', i))


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == 'jit':
        import emp
        from emp import np
        r = compute(emp, np, kernel_cases(emp, np, int(sys.argv[3]),
                                          int(sys.argv[4])))
        with open(sys.argv[2], 'wb') as f:
            pickle.dump(r, f)
        sys.exit(0)
    vlib.main('C11', run)
