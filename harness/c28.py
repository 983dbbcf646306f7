"""C28: the filter design returns the best filter, and is repeatable."""
import copy
import os
import pickle

import vlib

INF = 100000000


def run(chk):
    hx = chk.tlc_start('Design', workers=3, consts=dict(
        NSs='{1, 2}', NHs='{1}', NPs='{1}', NR=3))
    hs = chk.tlc_start('Design', workers=4, depth=45, consts=dict(
        NSs='{1, 2, 3}', NHs='{1, 2, 3}', NPs='{1, 2}', NR=9),
        simulate=8000 if chk.thorough else 700)
    import emp
    from emp import np, empymod, filters
    from empymod.scripts import fdesign as fd
    import scipy as sp
    big = chk.thorough

    # 1. The search, replayed with pairs of which the result is prescribed.
    def design(c):
        rng = chk.rng
        d = c['dim']
        NR = 3 if len(c['tab']) and max([0]+[
            i for e in c['tab'] for i in e['bad']]) <= 3 and c['small'] else 9
        ns, nh, npair = d['ns'], d['nh'], d['np']
        n = rng.choice([2, 3, 4, 5])
        spac = np.linspace(.5, .9, ns) if ns > 1 else np.array([.5])
        shif = np.linspace(-.4, .3, nh) if nh > 1 else np.array([-.4])
        if rng.random() < .3:           # the other way round
            spac, shif = spac[::-1], shif[::-1]
        r = 2.**np.arange(NR)
        names = rng.sample(['j0', 'j1', 'sin', 'cos'], npair)

        def amp(kind, i):               # i from 1
            return {'fall': 3*2.**(NR-i), 'rise': 2.**(i-1),
                    'max': 5*2.**(NR-i if 2*i > NR else i)}[kind]

        def fI(name):
            # The inversion gives a filter of ones.
            def lhs(k):
                m = np.zeros(k.shape)
                m[np.arange(k.shape[0]), np.arange(k.shape[0]) % n] = 1
                return m
            return fd.Ghosh(name, lhs, lambda b: 1/b)

        calls = []

        def fC(p):
            kind = d['kinds'][p]
            sign = rng.choice([1, -1])*np.array(
                [rng.choice([1, -1]) for _ in range(NR)])
            true = sign*np.array([amp(kind, i+1) for i in range(NR)])
            if p and rng.random() < .5:
                true = true*np.exp(.3j)

            def lhs(k):
                if k.shape != (NR, n):
                    raise Mismatch
                sp_ = np.log(k[0, -1]/k[0, 0])/(n-1)
                shi = np.log(k[0, n//2]*r[0])
                a = int(np.argmin(abs(spac-sp_)))
                b = int(np.argmin(abs(shif-shi)))
                if abs(spac[a]-sp_) + abs(shif[b]-shi) > 1e-9:
                    raise Mismatch
                e = c['tab'][(a*nh+b)*npair+p]
                calls.append((a, b, p))
                v = np.array(true)
                if e['zero']:
                    v = v*(0. if zero else np.nan)
                for i in ([] if e['zero'] else e['bad']):
                    v[i-1] *= 3.
                m = np.zeros(k.shape, dtype=v.dtype)
                m[:, 0] = v*r
                return m
            return fd.Ghosh(names[p], lhs, lambda b: np.array(true))
        zero = rng.random() < .5
        I = [fI(x) for x in names]
        C = [fC(p) for p in range(npair)]
        if npair == 1 and rng.random() < .5:
            I, C = I[0], C[0]
        elif rng.random() < .3:
            I, C = tuple(I), tuple(C)
        cl = [C] if npair == 1 and not isinstance(C, (list, tuple)) else C
        before = [dict(vars(x)) for x in cl]

        def arg(v):
            if len(v) == 1:
                return rng.choice([v[0], (v[0], v[0], 5), (v[0], v[0], 1),
                                   [v[0]], (v[0], v[0]+1, 1)])
            return rng.choice([tuple, list, np.array])([v[0], v[-1], len(v)])
        kw = dict(n=n, spacing=arg(spac), shift=arg(shif), fI=I, fC=C, r=r,
                  r_def=rng.choice([(1, 1, 2), (0, 0, 3), (1, 2, 1)]),
                  cvar=d['cvar'], error=rng.choice([.01, .5, 1e-6]),
                  verb=rng.choice([0, 0, 1, 2]), plot=0, save=False,
                  full_output=True, name=rng.choice([None, 'abc', 'a.gz']))
        keep = pickle.dumps({k: kw[k] for k in ('spacing', 'shift', 'r',
                                                'r_def')})
        det = dict(c=c, kw=repr(kw))
        o = vlib.call(fd.design, **kw)
        if not chk.check(o.ok, 'design failed', dict(det, got=o)):
            return
        dlf, full = o.value
        val = np.array(c['vals'], float)
        if d['cvar'] == 'r':
            val = np.where(val < INF, val/2.**(NR-1), val)
        val = np.where(val < INF, val, np.inf).reshape(ns, nh)
        got = np.array(full[3], float)
        if not chk.check(got.shape == val.shape, 'grid of the search',
                         dict(det, got=got, want=val)):
            return
        chk.check(np.allclose(got, val, rtol=1e-12), 'criterion over the '
                  'grid', dict(det, got=got, want=val))
        chk.check(np.allclose(full[2][0], spac[:, None]*np.ones(val.shape)) and
                  np.allclose(full[2][1], shif[None, :]*np.ones(val.shape)),
                  'grid coordinates', dict(det, got=full[2]))
        w = c['best']-1
        a, b = w//nh, w % nh
        chk.check(np.isclose(full[1], val[a, b]) or val[a, b] == full[1],
                  'best value', dict(det, got=full[1], want=val[a, b]))
        # Any point with the best value is fine.
        ok = [(x, y) for x in range(ns) for y in range(nh)
              if val[x, y] == val[a, b] or np.isclose(val[x, y], val[a, b])]
        chk.check(any(abs(full[0][0]-spac[x]) < 1e-12 and
                      abs(full[0][1]-shif[y]) < 1e-12 for x, y in ok),
                  'chosen pair is not the best one of the grid',
                  dict(det, got=full[0], values=got))
        chk.check(full[4] == (1 if d['cvar'] == 'r' else 0), 'criterion flag',
                  det)
        base = np.exp(full[0][0]*(np.arange(n)-n//2)+full[0][1])
        chk.check(len(dlf.base) == n and np.allclose(dlf.base, base, 1e-13),
                  'base of the filter', dict(det, base=dlf.base))
        chk.check(all(np.allclose(getattr(dlf, x), 1., 1e-10)
                      for x in names) and set(dlf.filter_coeff) ==
                  set(names), 'coefficients', det)
        chk.check(np.isclose(dlf.factor, np.exp(full[0][0]), 1e-12),
                  'factor', dict(det, got=dlf.factor))
        chk.check(dlf.name == ('dlf_%d' % n if kw['name'] is None else
                               kw['name'].split('.')[0]), 'name',
                  dict(det, got=dlf.name))
        chk.check(len({x for x in calls}) == ns*nh*npair,
                  'not the whole grid was searched', det)
        chk.check(all(unchanged(x, y) for x, y in zip(cl, before)) and
                  pickle.dumps({k: kw[k] for k in (
                      'spacing', 'shift', 'r', 'r_def')}) == keep,
                  'arguments modified', det)
        if rng.random() < .4:           # again, and without full output
            kw['full_output'] = False
            o = vlib.call(fd.design, **kw)
            chk.check(o.ok and same(o.value, dlf), 'designing again gives '
                      'another filter', dict(det, got=o))
        chk.case(repr(c), c)
        chk.traces += 1

    def unchanged(x, y):
        return set(vars(x)) == set(y) and all(vars(x)[k] is y[k] for k in y)

    def same(a, b):
        return (hasattr(a, 'base') and np.array_equal(a.base, b.base) and
                set(a.filter_coeff) >= set(b.filter_coeff) and all(np.array_equal(
                    getattr(a, k), getattr(b, k)) for k in b.filter_coeff))

    small = chk.tlc_wait(hx)['cases']
    cases = chk.tlc_wait(hs)['cases']
    chk.extra['searches_in_model'] = len(small)+len(cases)
    for c in small:
        c['small'] = True
    for c in cases:
        c['small'] = False
    chk.rng.shuffle(small)
    chk.parallel(design, cases, budget=chk.elapsed()+(200 if big else 12))
    chk.parallel(design, small, budget=chk.elapsed()+(100 if big else 5))

    # 2. Real pairs: the relation of each of them.
    lin = np.linspace

    def transform(kind, f, r):
        """Transform by quadrature, without any filter."""
        out, size = [], []
        for x in np.atleast_1d(r):
            fn = {'j0': lambda k: sp.special.j0(k*x),
                  'j1': lambda k: sp.special.j1(k*x),
                  'sin': lambda k: np.sin(k*x), 'cos': lambda k: np.cos(k*x)
                  }[kind]
            # Between the zeros of the oscillation, averaged partial sums.
            z = {'j0': sp.special.jn_zeros(0, 120),
                 'j1': sp.special.jn_zeros(1, 120),
                 'sin': np.pi*np.arange(1, 121),
                 'cos': np.pi*(np.arange(120)+.5)}[kind]/x
            z = np.r_[0, z]
            g, w = np.polynomial.legendre.leggauss(40)
            # (finer at the beginning)
            e = np.r_[z[0], z[1]*np.array([1e-4, 1e-3, .01, .05, .2, .6]),
                      z[1:]]
            e = np.unique(np.concatenate([lin(a, b, 4) for a, b in
                                          zip(e[:-1], e[1:])]))
            m, hw = (e[1:]+e[:-1])/2, (e[1:]-e[:-1])/2
            k = m[:, None]+hw[:, None]*g
            v = f(k)*fn(k)*w
            p = np.cumsum(np.sum(v, 1)*hw)
            size.append(np.sum(np.abs(v), 1) @ hw)
            s = p[np.searchsorted(e[1:], z[1:]*(1-1e-12))]
            # Euler transform of the alternating series.
            s = s[20:]
            while s.size > 1:
                s = (s[1:]+s[:-1])/2
            out.append(s[0])
        return np.array(out), np.array(size)

    PAIRS = [(getattr(fd, n), n.split('_')[0], n) for n in fd.__all__
             if n.split('_')[0] in ('j0', 'j1', 'sin', 'cos')]

    def pair(it):
        fn, kind, name = it
        rng = chk.rng
        for _ in range(3 if not big else 40):
            if name[-1] in '45':
                kw = dict(f=10**rng.uniform(-2, 3), rho=10**rng.uniform(-1, 3),
                          z=10**rng.uniform(.5, 2.5)*rng.choice([1, -1]))
                r = abs(kw['z'])*np.array([rng.uniform(.2, 4.)])
            else:
                kw = dict(a=10**rng.uniform(-1, 1))
                sc = {'1': np.sqrt(kw['a']) if kind[0] == 'j' else kw['a'],
                      '2': kw['a'], '3': kw['a']}[name[-1]]
                if name in ('sin_3', 'cos_3'):
                    sc = 1/kw['a']
                r = sc*np.array([rng.uniform(.1, 3.)])
            p = vlib.call(fn, **kw)
            if not chk.check(p.ok and hasattr(p.value, 'lhs'), 'pair',
                             dict(name=name, kw=kw, got=p)):
                continue
            p = p.value
            chk.check(p.name == kind, 'name of the pair', dict(name=name))
            a = p.rhs(r)
            b, size = transform(kind, p.lhs, r)
            chk.check(np.all(
                abs(a-b) <= 1e-7*abs(b)+1e-11*size),
                      f'pair {name} does not satisfy its relation',
                      dict(kw=kw, r=r, rhs=a, transform=b))
            if kind in ('sin', 'cos'):
                q = fn(inverse=True, **kw)
                x = np.array([.3, 1., 4.])
                chk.check(np.allclose(q.lhs(x), p.rhs(x)) and
                          np.allclose(q.rhs(x), p.lhs(x)) and
                          q.name == kind, f'inverse of {name}', dict(kw=kw))
                if True:
                    r2 = np.array([rng.uniform(.4, 2.)])/r
                    a = p.lhs(r2)
                    b, size = transform(kind, p.rhs, r2)
                    b = 2/np.pi*b
                    chk.check(np.all(abs(a-b) <= 1e-6*abs(b)+1e-10*size), 'inverse relation of '
                              f'{name}', dict(kw=kw, r=r2, lhs=a, got=b))
            # defaults
            d = fn()
            e = fn(**(dict(f=1, rho=.3, z=50) if name[-1] in '45' else
                      dict(a=1)))
            x = np.array([.01, .1, 1., 10.])
            chk.check(np.allclose(d.lhs(x), e.lhs(x)) and np.allclose(
                d.rhs(x), e.rhs(x)), 'defaults of the pair', dict(name=name))
            chk.case(('pair', name, repr(kw)), dict(name=name, kw=kw))
    chk.parallel(pair, PAIRS, budget=chk.elapsed()+(100 if big else 20))

    # 3. Designs with real pairs.
    real = [[fd.j0_1(2.)], [fd.j0_1(), fd.j1_1()], [fd.j1_3(.7)],
            [fd.sin_1()], [fd.sin_2(), fd.cos_2()], [fd.cos_1(2.)],
            [fd.j0_3(), fd.j1_3()], [fd.j0_4(z=10), fd.j1_4(z=10)],
            [fd.sin_1(inverse=True)]]
    # (The same object must be usable for several designs.)

    def criterion(dlf, pairs, r, error, cvar):
        v = 0.
        for p in pairs:
            true = p.rhs(r)
            rhs = p.lhs(dlf.base/r[:, None]) @ getattr(dlf, p.name)/r
            bad = np.where(~(abs((rhs-true)/true) <= error))[0]
            e = (len(r)-1 if not len(bad) else
                 max(0, bad[4]-5) if len(bad) > 4 else max(0, bad[0]-1))
            if e == 0 or np.all(rhs == 0):
                return np.inf
            v = max(v, abs(rhs[e]) if cvar == 'amp' else 1/r[e])
        return v

    def solve(pairs, n, spacing, shift, r_def, reim):
        class F:
            pass
        f = F()
        f.base = np.exp(spacing*(np.arange(n)-n//2)+shift)
        r = 10**lin(np.log10(1/f.base.max())-r_def[0],
                    np.log10(1/f.base.min())+r_def[1], int(r_def[2]*n))
        res = []
        for p in pairs:
            A, y = reim(p.lhs(f.base/r[:, None])), reim(p.rhs(r)*r)
            x = np.linalg.lstsq(A, y, rcond=None)[0]
            setattr(f, p.name, x)
            res.append((p.name, A, y))
        return f, res

    def real_design(i):
        rng = chk.rng
        I = real[i % len(real)]
        C = I if rng.random() < .6 else None
        n = rng.choice([5, 8, 11, 14])
        ns, nh = rng.choice([(1, 1), (3, 1), (1, 4), (3, 4), (2, 2)])
        s0, s1 = sorted(rng.uniform(.3, 1.2) for _ in range(2))
        h0, h1 = sorted(rng.uniform(-1.5, .5) for _ in range(2))
        r_def = rng.choice([(1, 1, 2), (0, 1, 3), (1, 1, 1)])
        r = np.logspace(rng.uniform(-2, -1), rng.uniform(.3, 1.5), 80)
        reim = rng.choice([None, np.real, np.imag]) if i % len(real) == 7 \
            else None
        error = rng.choice([.01, .1, .001])
        cvar = rng.choice(['amp', 'r'])
        where = os.path.join(chk.scratch, f'fd-{os.getpid()}')
        kw = dict(n=n, spacing=(s0, s1, ns), shift=(h0, h1, nh), fI=I,
                  r=r, r_def=r_def, reim=reim, cvar=cvar, error=error,
                  verb=0, plot=0, full_output=True, path=where,
                  save=rng.random() < .5, name=f'x{i}')
        if C is not None:
            kw['fC'] = C
        det = dict(pairs=i % len(real), kw=repr(kw))
        before = [dict(vars(x)) for x in I]
        o = vlib.call(fd.design, **kw)
        if not chk.check(all(unchanged(x, y) for x, y in zip(I, before)),
                         'arguments modified', det):
            for x, y in zip(I, before):
                vars(x).update(y)
            return
        if not chk.check(o.ok, 'design failed', dict(det, got=o)):
            return
        dlf, full = o.value
        C = C or I
        sp_ = lin(s0, s1, ns) if ns > 1 else [s0]
        sh = lin(h0, h1, nh) if nh > 1 else [h0]
        got = np.array(full[3])
        chk.check(got.shape == (ns, nh), 'shape of the grid', det)
        chk.check(full[1] == np.min(got), 'not the minimum', det)
        chk.check(any(np.isclose(full[0][0], x) for x in sp_) and
                  any(np.isclose(full[0][1], x) for x in sh),
                  'not a point of the grid', dict(det, got=full[0]))
        rr = np.real if reim is None else reim
        # The filter solves the overdetermined system (as well as possible).
        f, sys_ = solve(I, n, full[0][0], full[0][1], r_def, rr)
        chk.check(np.allclose(dlf.base, f.base, 1e-12), 'base', det)
        for name, A, y in sys_:
            x = getattr(dlf, name)
            s = np.linalg.svd(A, compute_uv=False)
            if not np.any(x) or s[-1] < 1e-9*s[0]:
                continue
            r1, r2 = (np.linalg.norm(A@v-y) for v in (x, getattr(f, name)))
            chk.check(r1 <= r2*(1+1e-6)+1e-9*np.linalg.norm(y),
                      'not the least-squares solution',
                      dict(det, name=name, r1=r1, r2=r2))
        # The value belongs to the filter.
        v = criterion(dlf, C, r, error, cvar)
        near = False
        for p in C:
            true = p.rhs(r)
            rhs = p.lhs(dlf.base/r[:, None]) @ getattr(dlf, p.name)/r
            e = abs((rhs-true)/true)
            near |= bool(np.any(abs(e-error) < 1e-9))
        if not near:
            chk.check(v == full[1] or np.isclose(v, full[1], rtol=1e-9),
                      'value is not the one of the filter',
                      dict(det, got=full[1], want=v))
        # ... and the best one; by own filters, where these are determined.
        for a, x in enumerate(sp_):
            for b, y in enumerate(sh):
                g, gs = solve(I, n, x, y, r_def, rr)
                if any((lambda s: s[-1] < 1e-7*s[0])(np.linalg.svd(
                        A, compute_uv=False)) for _, A, _ in gs):
                    continue
                w = criterion(g, C, r, error, cvar)
                w2 = [criterion(g, C, r, error*t, cvar)
                      for t in (1-1e-4, 1+1e-4)]
                if w2[0] != w2[1]:
                    continue
                chk.check(w == got[a, b] or np.isclose(w, got[a, b], 1e-5),
                          'criterion of a grid point',
                          dict(det, point=(x, y), got=got[a, b], want=w))
        # Again.
        o2 = vlib.call(fd.design, **kw)
        chk.check(o2.ok and same(o2.value[0], dlf) and all(
            np.array_equal(p, q) for p, q in zip(full, o2.value[1])),
            'designing again gives another filter', det)
        if kw['save']:
            o = vlib.call(fd.load_filter, kw['name'], True, where,
                          list(dlf.filter_coeff))
            chk.check(o.ok and isinstance(o.value, tuple) and same(
                o.value[0], dlf) and np.allclose(o.value[1][3], got) and
                np.allclose(o.value[1][0], full[0]), 'saved filter',
                dict(det, got=o))
        else:
            chk.check(not os.path.exists(where) or not any(
                x.startswith(f'x{i}_') for x in os.listdir(where)),
                'filter saved', det)
        # What is printed about it.
        for full_ in (None, full):
            o = vlib.call(fd.print_result, dlf, full_)
            t = {x.split(':')[0].strip(' >'): x.split(':')[1]
                 for x in o.text.split('\n') if ':' in x}
            chk.check(o.ok and int(t['Filter length']) == n and
                      np.isclose(float(t['Spacing']), full[0][0], 1e-6) and
                      np.isclose(float(t['Shift']), full[0][1], 1e-6, 1e-8),
                      'printed result', dict(det, got=o.text))
        chk.case(('real', i, n, ns, nh), dict(pairs=i % len(real), n=n))

    chk.parallel(real_design, range(3000 if big else 180),
                 budget=chk.elapsed()+(200 if big else 12))

    # 4. Optimisation beyond the grid does not make it worse.
    for fin in (True, sp.optimize.fmin_powell, sp.optimize.fmin):
        kw = dict(n=9, spacing=(.5, .9, 3), shift=(-1., 0., 3), fI=fd.j0_1(),
                  r=np.logspace(-1, 1, 50), verb=0, plot=0, save=False,
                  full_output=True)
        a = vlib.call(fd.design, **kw)
        b = vlib.call(fd.design, finish=fin, **kw)
        chk.check(a.ok and b.ok and b.value[1][1] <= a.value[1][1],
                  'finish makes it worse', dict(a=a, b=b))
        chk.case(('finish', str(fin)))
    # What is not given has its documented value.
    full_ = dict(r=np.logspace(0, 5, 1000), r_def=(1, 1, 2), cvar='amp',
                 error=.01, reim=np.real, finish=False)
    for i in range(3):
        x = fd.j0_1(), fd.j0_4(f=1., rho=1., z=5.), fd.sin_1()
        kw = dict(n=5+2*i, spacing=(.5, .9, 2), shift=(-1., 0., 2), fI=x[i],
                  verb=0, plot=0, save=False, full_output=True)
        keys = list(full_)
        chk.rng.shuffle(keys)
        for ks in ([], keys[:3]):
            a = vlib.call(fd.design, **kw, **{k: full_[k] for k in ks})
            b = vlib.call(fd.design, **kw, fC=x[i], **full_)
            chk.check(a.ok and b.ok and np.array_equal(
                a.value[1][3], b.value[1][3]) and np.array_equal(
                a.value[0].base, b.value[0].base), 'default values of the '
                'design', dict(given=ks, a=a, b=b, kw=repr(kw)))
            chk.case(('defaults', i, len(ks)))
    # 5. The modeller as pair.
    F = filters.Hankel().key_401_2009
    for i in range(12 if not big else 60):
        rng = chk.rng
        m = emp.stack(rng.choice([1, 1, 2, 3]), var=i % 7)
        m.pop('depth')
        nl = len(m['res'])
        dep = [[], None][i % 2] if nl == 1 else [50., 90.][:nl-1]
        zs, zr = 10., rng.choice([30., 120.])
        t = ['j0', 'j1', 'j2'][i % 3]
        p = vlib.call(fd.empy_hankel, t, zs, zr, depth=dep, freqtime=1., **m)
        det = dict(t=t, model=m, depth=dep, zr=zr, got=p)
        if not chk.check(p.ok, 'empy_hankel', det):
            continue
        p = p.value
        r = np.array([40., 150.])
        b = p.rhs(r)
        k = F.base/r[:, None]
        lh = [p.lhs(x) for x in k]
        if t == 'j2':
            a = np.array([x[0]@F.j0/y+x[1]@F.j1/y**2 for x, y in zip(lh, r)])
        else:
            a = np.array([x@getattr(F, t)/y for x, y in zip(lh, r)])
        chk.check(p.name == t and vlib.close(a, b, 1e-5), 'numerical pair '
                  'does not satisfy its relation', dict(det, rhs=b, lhs=a))
        chk.case(('empy', t, i))
    ps = fd.empy_hankel(['j0', 'j1'], 0, 10, 2., 1.)
    chk.check([p.name for p in ps] == ['j0', 'j1'], 'list of pairs')
    # 6. What is refused.
    kw = dict(n=5, spacing=.5, shift=0., fI=fd.j0_1(), verb=0, plot=0,
              save=False, r=np.array([.1, 1.]))
    for k in (dict(fI=fd.Ghosh('j2', 1, 1)), dict(spacing=(.1, .2)),
              dict(shift=(0, 1)), dict(shift=(1, 2, 3, 4)),
              dict(fI=[fd.Ghosh('j2', 1, 1)], fC=fd.j0_1())):
        o = vlib.call(fd.design, **{**kw, **k})
        chk.check(not o.ok and isinstance(o.exc, ValueError), 'not refused',
                  dict(k=repr(k), got=o))
        chk.case(('refused', repr(list(k))))
    copy.deepcopy(kw)


class Mismatch(Exception):
    """The filter was applied at other wavenumbers."""


if __name__ == '__main__':
    vlib.main('C28', run, 'model_checking')
