"""C32: Laplace domain, and scaling laws."""
import random

import vlib


def run(chk):
    t = chk.thorough
    hx = chk.tlc_start('Scaling', workers=5, consts=dict(
        MaxE=3 if t else 2, MaxF=4 if t else 3))
    hs = chk.tlc_start('Scaling', workers=2, depth=14,
                       simulate=6000 if t else 1200,
                       consts=dict(MaxE=5, MaxF=5))
    import emp
    from emp import np, empymod, utils, EPS0, MU0
    TH, TF = emp.tiny_hankel(5, 'sc', 4), emp.tiny_fourier(3, 'scf', 4)
    HT = dict(ht='dlf', htarg={'dlf': TH, 'pts_per_dec': 0})
    FT = dict(ft='dlf', ftarg={'dlf': TF, 'pts_per_dec': 0})
    ABS = [10*i+j for i in range(1, 7) for j in range(1, 7)]
    DEP = [0., 40., 75.]
    LAY = dict(res=[30., 3., .8, 9.], aniso=[1.4, 1., 2., 1.2],
               epermH=[1e5, 3e5, 1e4, 7e5], epermV=[2e5, 1e5, 6e5, 3e4],
               mpermH=[1., 2., 1.3, 4.], mpermV=[1.2, 1., 3., 2.])
    MIN = .5

    def layers(n):
        d = dict(depth=DEP[:n-1])
        d.update({k: v[:n] for k, v in LAY.items()})
        return d

    # -- (1) Signs ---------------------------------------------------------
    def field(r, f, var, ht='dlf'):
        """The routine, as list of (nf, ...) arrays."""
        rec = [[50., 80.], [20., -35.], 48.]
        if r in ('fs', 'dfs', 'dhs', 'dsplit'):
            m = {} if r != 'fs' else {k: v[1] for k, v in LAY.items()
                                      if k not in ('res', 'aniso')}
            o = vlib.call(empymod.analytical, [0, 0, 12.], rec, 3., f,
                          solution=r, ab=var['ab'], aniso=1.5, verb=0,
                          squeeze=False, **m)
            if o.ok:
                o.value = o.value if r == 'dsplit' else [o.value]
        elif r == 'dipole_k':
            o = vlib.call(empymod.model.dipole_k, [0, 0, 12.], rec,
                          freq=f, wavenumber=np.array([.01, .05]), ab=var['ab'],
                          verb=0, **layers(3))
            if o.ok:
                n = np.size(f)
                o.value = [np.reshape(x, (n, -1)) for x in o.value]
        else:
            kw = dict(layers(3), freqtime=f, verb=0, squeeze=False,
                      xdirect=var['x'])
            kw.update(HT)
            if ht != 'dlf':
                kw['ht'] = ht
                kw['htarg'] = dict(
                    quad={'rtol': 1e-6, 'limit': 100, 'a': 1e-3, 'b': 1,
                          'pts_per_dec': 8},
                    qwe={'nquad': 15, 'maxint': 20, 'pts_per_dec': 8,
                         'diff_quad': 1e99, 'limit': 60})[ht]
            if r == 'dipole':
                o = vlib.call(empymod.dipole, [0, 0, 12.], rec, ab=var['ab'],
                              **kw)
            else:
                kw['mrec'] = var['mrec']
                rec = [[50., 80.], [20., -35.], 48., 40., 20.]
                if r == 'loop':
                    o = vlib.call(empymod.loop, [0., 0., 12., 30., 70.], rec,
                                  **kw)
                else:
                    o = vlib.call(empymod.bipole, [0., 0., 12., 30., 20.],
                                  rec, msrc=var['msrc'], **kw)
            if o.ok:
                o.value = [o.value]
        if o.ok:
            o.value = [np.asarray(v) for v in o.value]
        return o

    def sign(c, rng):
        r, ht = c['opt']['r'], c['opt']['ht']
        var = dict(ab=rng.choice(ABS if r in ('dipole', 'fs', 'dipole_k')
                                 else [11, 12, 13, 31, 33, 22]),
                   x=rng.choice([True, False, None]),
                   mrec=rng.choice([True, 'b', 'j', False]),
                   msrc=rng.choice([True, 'b', False]))
        if ht != 'dlf':
            var['x'] = rng.choice([True, None])
        size = [3., 40., .9, 8., 200.]
        f, single = [], []
        for i, (x, m) in enumerate(zip(c['fr'], c['meaning'])):
            v = {'neg': -size[i], 'small neg': -.1, 'zero': 0.,
                 'small pos': .2, 'pos': size[i]}[x]
            f.append(v)
            v = size[i] if m['value'] == 'size' else MIN
            single.append(v if m['domain'] == 'f' else -v)
        utils.set_minimum(min_freq=MIN)
        try:
            o = field(r, f, var, ht)
            s = [field(r, [v], var, ht) for v in single]
        finally:
            emp.restore_minimum()
        det = dict(routine=r, frequencies=f, options=var, ht=ht)
        chk.case(f'sign {det}', None)
        if not o.ok or not all(v.ok for v in s):
            chk.violation(f'{r}: frequencies {f}: raised '
                          f'{[v.exc for v in [o]+s]}', det,
                          key=f'sign:{r}:raised')
            return
        for i, v in enumerate(o.value):
            w = np.concatenate([np.reshape(y.value[i], (1,)+v.shape[1:])
                                for y in s])
            if single[0] < 0 and np.any(np.imag(v) != 0):
                chk.violation(f'{r}: Laplace-domain field is complex', det,
                              key=f'sign:{r}:complex')
            if not np.allclose(v, w, rtol=1e-9, atol=1e-12*np.abs(w).max()):
                chk.violation(f'{r}: frequencies {f} stand for {single}: '
                              f'{v.ravel()[:3]} is not {w.ravel()[:3]}', det,
                              key=f'sign:{r}:{c["fr"]}')

    # -- (2) Scaling -------------------------------------------------------
    def scale(c, rng):
        o, x, ex = c['opt'], c['sc'], c['ex']
        r, d = o['r'], o['d']
        B = rng.choice([2., 2., 1.7])
        ll, a, cc, m = (B**x[k] for k in 'lacm')
        eps = B**ex['eps']
        n = rng.choice([1, 2, 3, 4] if r not in ('fs', 'dhs') else [2])
        ab = rng.choice(ABS if r not in ('dhs',) else [11, 12, 13, 31, 33])
        if n == 1 and o['x'] == 'none':
            n = 3
        zs, zr = rng.choice([(12., 48.), (60., 20.), (30., 31.), (90., -6.)])
        xd = dict(yes=True, no=False, none=None)[o['x']]
        msrc, mrec = rng.choice([(False, False), (True, True), (False, True),
                                 (True, False), ('b', 'b'), (False, 'j'),
                                 ('b', 'j'), (True, 'b')])
        if r == 'loop':
            msrc = 'b'
            mrec = rng.choice([True, False, 'b', 'j'])

        def compute(ll, a, cc, m, eps):
            """Everything scaled."""
            ft = [60., 7.]
            sig = None
            if d == 's':
                ft = [-f for f in ft]
            elif d in ('impulse', 'on', 'off'):
                ft = [.004, .0011]
                sig = dict(impulse=0, on=1, off=-1)[d]
            ft = [f*cc if sig is None else f/cc for f in ft]
            L = layers(n)
            L['depth'] = [z*ll for z in L['depth']]
            L['res'] = [v/a for v in L['res']]
            L['epermH'] = [v*eps for v in L['epermH']]
            L['epermV'] = [v*eps for v in L['epermV']]
            L['mpermH'] = [v*m for v in L['mpermH']]
            L['mpermV'] = [v*m for v in L['mpermV']]
            if r in ('fs', 'dhs'):
                s = [0, 0, abs(zs)*ll]
                q = [[50.*ll, 80.*ll], [20.*ll, -35.*ll], abs(zr)*ll]
                p = {k: v[1] for k, v in L.items() if k not in (
                    'depth', 'res', 'aniso') and r == 'fs'}
                return vlib.call(empymod.analytical, s, q, L['res'][1], ft,
                                 solution=r, signal=sig, ab=ab, aniso=1.4,
                                 squeeze=False, verb=0, **p)
            kw = dict(L, freqtime=ft, signal=sig, xdirect=xd, verb=0,
                      squeeze=False, **FT)
            h = o['h']
            kw['ht'] = 'dlf'
            kw['htarg'] = {'dlf': TH, 'pts_per_dec': dict(
                standard=0, lagged=-1, spline=6).get(h, 0)}
            if h == 'quad':
                kw.update(ht='quad', htarg={
                    'rtol': 1e-8, 'atol': 1e-40, 'limit': 200,
                    'a': 1e-3/ll, 'b': .3/ll, 'pts_per_dec': 10})
            elif h == 'qwe':
                kw.update(ht='qwe', htarg={
                    'nquad': 11, 'maxint': 12, 'pts_per_dec': 0,
                    'rtol': 1e-30, 'atol': 0., 'diff_quad': 1e99,
                    'limit': 60})
            src = [[0., 5.*ll], [0., 9.*ll], zs*ll]
            rec = [[50.*ll, 80.*ll], [20.*ll, -35.*ll], zr*ll]
            if r == 'dipole':
                return vlib.call(empymod.dipole, src, rec, ab=ab, **kw)
            kw['mrec'] = mrec
            rec = [rec[0], [60.*ll, 77.*ll], rec[1], [22.*ll, -30*ll],
                   zr*ll, (zr+3)*ll]
            if r == 'loop':
                return vlib.call(empymod.loop, [0., 0., zs*ll, 30., 70.],
                                 [50.*ll, 20.*ll, zr*ll, 40., 20.], **kw)
            if r == 'moment':
                kw['strength'] = 3.
            return vlib.call(empymod.bipole, [0., 8.*ll, 0., 5.*ll, zs*ll,
                                              (zs+2)*ll], rec, msrc=msrc,
                             srcpts=2, recpts=2, **kw)

        utils.set_minimum(min_off=1e-10)
        try:
            p, q = compute(1., 1., 1., 1., 1.), compute(ll, a, cc, m, eps)
        finally:
            emp.restore_minimum()
        det = dict(option=o, exponents=x, base=B, layers=n, ab=ab,
                   depths=(zs, zr), msrc=msrc, mrec=mrec)
        chk.case(f'scale {det}', None)
        key = f"scale:{r}:{d}:{o['h']}"
        if not p.ok or not q.ok:
            chk.violation(f'{r} raised {p.exc!r} {q.exc!r}', det, key=key)
            return
        if r in ('dipole', 'fs', 'dhs'):
            kind = ('e' if ab < 40 else 'm')+('e' if ab % 10 < 4 else 'm')
            e = ex[kind]
        else:
            kind = ('m' if mrec in (True, 'b') else 'e') + (
                'm' if msrc else 'e')
            e = ex[kind]
            # Current densities and fluxes: times eta, times zeta.
            e += x['a'] if mrec == 'j' else 0
            e += (x['c']+x['m'])*((mrec == 'b')+(msrc == 'b'))
            if r == 'moment':
                e += ex['mom']
        e += ex['time']
        v, w = np.asarray(p.value)*B**e, np.asarray(q.value)
        # (Lagged convolution interpolates; rounding decides where.)
        rt = 1e-9 if o['h'] == 'standard' else 1e-6
        if o['h'] == 'quad':
            rt = 1e-4
        if v.shape != w.shape or not np.all(
                np.abs(v-w) <= rt*np.abs(v).max()):
            chk.violation(f'{r}: {w.ravel()[:3]} is not {v.ravel()[:3]}',
                          det, key=key)

    # -- (3) From frequencies to Laplace values ----------------------------
    def path(c, rng):
        o = c['opt']
        r, n = o['r'], o['n']
        ab = rng.choice(ABS)
        xd = dict(yes=True, no=False, none=None)[o['x']]
        zs, zr = rng.choice([(12., 48.), (60., 20.), (30., 31.), (90., -6.)])
        msrc, mrec = rng.choice([(False, False), (True, True), (False, True),
                                 (True, False), ('b', 'b'), (False, 'j')])
        s0 = 2*np.pi*rng.choice([2., 30., 700.])
        L = layers(n)
        # (No shortcut to the full-space solution.)
        if n == 1 and r != 'fs':
            L = {k: [v[0]]*2 for k, v in L.items() if k != 'depth'}
            L['depth'] = [300.]
            L['res'][0] *= 1+1e-13

        def fun(ft, hook=None):
            """Field at ft, or at the complex values of the hook."""
            res = L['res']
            if hook is not None:
                hook = np.asarray(hook, complex)
                res = dict(res=res)

                def feta(inp, p):
                    q = {k: np.array(v) for k, v in L.items()}
                    H = 1/q['res']+np.outer(hook, q['epermH'])*EPS0
                    V = (1/(q['res']*q['aniso']**2) +
                         np.outer(hook, q['epermV'])*EPS0)
                    return H[:, :k], V[:, :k]

                def fzeta(inp, p):
                    return (np.outer(hook, L['mpermH'][:k])*MU0,
                            np.outer(hook, L['mpermV'][:k])*MU0)
                k = 1 if r == 'fs' else len(L['res'])
                res.update(func_eta=feta, func_zeta=fzeta)
            kw = dict(freqtime=ft, verb=0, squeeze=False)
            rec = [[50., 80.], [20., -35.], zr]
            if r == 'fs':
                p = {k: v[0] for k, v in L.items() if k not in (
                    'depth', 'res')}
                if hook is None:
                    res = res[0]
                else:
                    res['res'] = L['res'][0]
                out = vlib.call(empymod.analytical, [0, 0, zs], rec, res,
                                ab=ab, **kw, **p)
            else:
                kw.update(HT, xdirect=xd, **{k: v for k, v in L.items()
                                             if k != 'res'})
                kw['res'] = res
                if r == 'dipole':
                    out = vlib.call(empymod.dipole, [0, 0, zs], rec, ab=ab,
                                    **kw)
                else:
                    out = vlib.call(empymod.bipole, [0, 0, zs, 30., 20.],
                                    rec+[40., 50.], msrc=msrc, mrec=mrec,
                                    **kw)
            if not out.ok:
                raise LookupError(f'raised {out.exc!r}')
            return np.asarray(out.value)

        det = dict(option=o, ab=ab, depths=(zs, zr), s=s0, msrc=msrc,
                   mrec=mrec)
        chk.case(f'path {det}', None)
        key = f"path:{r}:{o['x']}"

        def same(a, b, what, rt=1e-8):
            if a.shape != b.shape or not np.all(
                    np.abs(a-b) <= rt*np.abs(b).max()):
                chk.violation(f'{r}: {what}: {a.ravel()[:2]} is not '
                              f'{b.ravel()[:2]}', det, key=key+what)

        try:
            for phi in c['path']:
                s = s0*np.exp(1j*np.deg2rad(phi))
                v = fun([1.], [s])
                if phi == 90:      # The frequency domain.
                    same(fun([s0/(2*np.pi)]), v, 'frequency domain')
                elif phi == 0:     # The Laplace domain.
                    w = fun([-s0])
                    if np.any(np.imag(w) != 0):
                        chk.violation(f'{r}: Laplace-domain field is complex',
                                      det, key=key+'complex')
                    same(w, v.real, 'Laplace domain')
                # Analytic: the value is the mean over a circle.
                rho, N = (.15, 10) if phi > 50 else (.4, 22)
                z = s+rho*s0*np.exp(2j*np.pi*np.arange(N)/N)
                same(fun([1.]*N, z).mean(0, keepdims=True), v,
                     f'analytic at {phi} degrees', 1e-6)
        except LookupError as e:
            chk.violation(f'{r}: {e}', det, key=key+'raised')

    def work(it):
        c, seed = it
        rng = random.Random(seed)
        dict(sign=sign, scale=scale, path=path)[c['kind']](c, rng)

    xs = chk.tlc_wait(hx, 600)['cases']
    sm = chk.tlc_wait(hs, 600)['cases']
    items = []
    k = 10 if t else 1
    for kind, a, b in (('sign', 120, 60), ('scale', 350, 250),
                       ('path', 40, 0)):
        x = [c for c in xs if c['kind'] == kind]
        y = [c for c in sm if c['kind'] == kind]
        chk.rng.shuffle(x)
        if kind == 'path':
            x = x*(4 if not t else 30)
            a = len(x)
        elif kind == 'sign':
            # (Quadrature and QWE are slow.)
            slow = [c for c in x if c['opt']['ht'] != 'dlf']
            x = [c for c in x if c['opt']['ht'] == 'dlf']
            items += slow[:8*k]
            y = [c for c in y if c['opt']['ht'] == 'dlf']
        else:
            slow = [c for c in x if c['opt']['h'] in ('quad', 'qwe')]
            x = [c for c in x if c['opt']['h'] not in ('quad', 'qwe')]
            items += slow[:12*k]
            y = [c for c in y if c['opt']['h'] not in ('quad', 'qwe')]
        items += x[:a*k]+y[:b*k]
    items = [(c, chk.rng.randrange(2**30)) for c in items]
    chk.rng.shuffle(items)
    chk.traces += len(items)
    chk.parallel(work, items, budget=chk.elapsed()+(600 if t else 45))


if __name__ == '__main__':
    vlib.main('C32', run, 'model_checking')
