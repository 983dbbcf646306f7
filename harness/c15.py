"""C15: digital filtering evaluates every requested point correctly."""
import vlib

DBL = [11, 12, 21, 22, 14, 24, 15, 25]
# Kernels used per component: PJ0, PJ1, PJ0b.
USED = {11: (1, 1, 1), 12: (0, 1, 1), 22: (1, 1, 1), 24: (1, 1, 1),
        25: (0, 1, 1), 13: (0, 1, 0), 31: (0, 1, 0), 26: (0, 1, 0),
        33: (1, 0, 0)}


def run(chk):
    big = chk.thorough
    h = chk.tlc_start('Dlf', workers=4, consts=dict(
        Outs='{0, 1, 6, 8, 17, 40}' if not big else
        '{0, 1, 6, 8, 12, 17, 24, 40, 91}', MaxOut=3,
        Lens='{2, 3, 7}' if not big else '{2, 3, 5, 11}',
        Starts='{70, 97}', Spacings='{1, 3, 7, 13}', Step=6))
    import emp
    from emp import np, empymod, transform, filters
    cases = chk.tlc_wait(h, timeout=900)['cases']
    chk.extra['filterings_in_model'] = len(cases)
    chk.rng.shuffle(cases)

    def poly(rng, deg):
        return [rng.uniform(-1, 1)/(3**k)*(1+1j*rng.uniform(-1, 1))
                for k in range(deg+1)]

    def ev(p, x):
        return sum(c*x**k for k, c in enumerate(p))

    def replay(c):
        rng = chk.rng
        unit = rng.choice([.013, .05, .11])
        step = 6*unit
        n = c['n']
        filt = filters.DigitalFilter('spec', filter_coeff=[
            'j0', 'j1', 'sin', 'cos'])
        shift = rng.uniform(-3, 3)
        filt.base = np.exp(unit*c['b0'] + step*np.arange(n) + shift)
        filt.factor = np.around([filt.base[1]/filt.base[0]], 15)
        for k in ('j0', 'j1', 'sin', 'cos'):
            setattr(filt, k, np.array([rng.uniform(-1, 1)
                                       for _ in range(n)]))
        out = np.exp(unit*np.array(c['o'], float))
        ppd = {'std': 0, 'lag': -rng.choice([1, 10.]),
               'spl': np.log(10)/(c['sp']*unit)}[c['mode']]
        info = dict(case=c, unit=unit)
        pts, ints = transform.get_dlf_points(filt, out.copy(), ppd)
        tol = 1e-9
        if c['mode'] == 'std':
            chk.check(pts.shape == (out.size, n) and
                      vlib.close(pts, filt.base/out[:, None], 1e-12),
                      'points of the standard filter', info)
        else:
            chk.check(pts.min() <= np.exp(unit*c['lo']+shift)*(1+tol) and
                      pts.max() >= np.exp(unit*c['hi']+shift)*(1-tol),
                      'computed points do not cover the needed range',
                      dict(info, points=pts, lo=np.exp(unit*c['lo']+shift),
                           hi=np.exp(unit*c['hi']+shift)))
        if c['mode'] == 'lag':
            chk.check(np.min(ints) <= out.min()*(1+tol) and
                      np.max(ints) >= out.max()*(1-tol),
                      'intermediate outputs do not cover the outputs',
                      dict(info, ints=ints, out=out))
        exact = np.array(c['ex'])
        # A cubic in log(x) is interpolated exactly, anything at the nodes.
        deg = 3 if not exact.all() else 7
        lag = c['mode'] == 'lag'

        # Fourier transform.
        p = poly(rng, deg)
        kind = rng.choice(['sin', 'cos'])
        got = transform.dlf(
            ev(p, np.log(pts)) if c['mode'] == 'std' else
            ev(p, np.log(pts))[0, :], pts if c['mode'] == 'std'
            else np.squeeze(pts), out.copy(), filt, ppd, kind=kind)
        f = ev(p, np.log(filt.base/out[:, None]))
        f = -f.imag if kind == 'sin' else f.real
        want = f @ getattr(filt, kind)/out
        mag = np.abs(f) @ abs(getattr(filt, kind))/out
        chk.check(np.shape(got) == out.shape and np.all(
            abs(got-want) <= 1e-7*np.max(mag*out)/out),
            'Fourier filter sum', dict(info, kind=kind, got=got, want=want,
                                       degree=deg))
        chk.case(('f', str(c['o']), c['n'], c['b0'], c['mode'], c['sp']),
                 dict(case=c))

        # Hankel transform.
        ab = rng.choice(list(USED))
        cls = [rng.choice([1., rng.uniform(-1, 1)]), rng.uniform(-1, 1)]
        ang = np.array([cls[a-1] for a in c['ang']])
        if ab == 33:
            ang = np.ones(out.size)
        nf = rng.choice([1, 2]) if c['mode'] == 'std' else 1
        ps = [[poly(rng, deg) for _ in range(nf)] for _ in range(3)]
        real = rng.random() < .3
        if real:
            ps = [[[q.real for q in p] for p in pp] for pp in ps]
        sig = []
        for u, pp in zip(USED[ab], ps):
            sig.append(np.array([ev(p, np.log(pts)) for p in pp])
                       if u else None)
        got = transform.dlf(tuple(sig), pts, out.copy(), filt, ppd,
                            ang_fact=ang.copy(), ab=ab,
                            int_pts=ints if rng.random() < .7 else None)
        x = np.log(filt.base/out[:, None])
        want = np.zeros((nf, out.size), complex)
        mag = np.zeros((nf, out.size))
        for i in range(nf):
            e = [ev(pp[i], x)*u for pp, u in zip(ps, USED[ab])]
            d = 1/out if ab in DBL else 1.
            for t, co, w in ((e[0], filt.j0, 1.), (e[1], filt.j1, ang*d),
                             (e[2], filt.j0, ang)):
                want[i] += t @ co*w/out
                mag[i] += abs(t) @ abs(co)*abs(w)/out
        ok = np.ones(out.size, bool)
        if lag and ab in DBL:
            ok = exact          # 1/r is interpolated as well
        sc = np.max(mag*out)/out
        if lag and ab in DBL:
            sc = sc*20
        good = np.size(got) == want.size and np.all(
            abs(np.reshape(got, want.shape)-want)[:, ok] <=
            (1e-7*sc*np.ones(want.shape))[:, ok])
        chk.check(good, 'Hankel filter sum', dict(
            info, ab=ab, ang=ang, got=got, want=want, exact=c['ex'],
            degree=deg))
        chk.case(('h', str(c['o']), c['n'], c['b0'], c['mode'], c['sp'], ab))

    n = chk.parallel(replay, cases, budget=30 if not big else 600)
    chk.extra['filterings_replayed'] = n

    # The modelling routine: outputs on the grid of the filter.
    full = filters.Hankel().key_101_2009
    four = filters.Fourier().key_101_2012
    lags = [c for c in cases if c['mode'] == 'lag' and len(c['o']) > 1]

    def routine(c):
        rng = chk.rng
        off = 300*np.exp(np.log(full.factor[0])*np.array(c['o'], float)/6)
        cls = [rng.uniform(0, 6), rng.uniform(0, 6)]
        az = np.array([cls[a-1] for a in c['ang']])
        ab = rng.choice([11, 12, 13, 16, 21, 22, 23, 26, 31, 32, 33, 45, 66,
                         62, 41, 53, 15, 24, 35, 61])
        kw = dict(src=[0, 0, 10.], rec=[off*np.cos(az), off*np.sin(az), 70.],
                  depth=[0., 50., 120.], res=[1e3, 1., 5., 20.], ab=ab,
                  freqtime=[.5, 4.], verb=0, squeeze=False)
        r = [empymod.dipole(**kw, htarg=dict(dlf=full, pts_per_dec=p))[:, :, 0]
             for p in (0, -1, 50)]
        ex = np.array(c['ex'])
        # Every receiver as if it were alone.
        a = np.hstack([empymod.dipole(
            **{**kw, 'rec': [x[i] if np.size(x) > 1 else x for x in
                             kw['rec']]},
            htarg=dict(dlf=full, pts_per_dec=0))[:, :, 0]
            for i in range(off.size)])
        chk.check(np.all(abs(a-r[0]) <= 1e-9*np.maximum(
            abs(a), 1e-3*abs(a).max(axis=1)[:, None])), 'standard filter: '
            'the receivers do not have the responses they have alone',
            dict(case=c, ab=ab, az=az, joint=r[0], alone=a))
        d = 1e-6*np.maximum(abs(r[0]), 1e-3*abs(r[0]).max(axis=1)[:, None])
        chk.check(np.all((abs(r[1]-r[0]) <= d)[:, ex]), 'lagged convolution '
                  'differs from the standard filter where they coincide',
                  dict(case=c, ab=ab, std=r[0], lag=r[1], az=az))
        # Everywhere: interpolation error only.
        for k, t in ((1, 2e-2), (2, 2e-2)):
            d = t*np.maximum(abs(r[0]), .1*abs(r[0]).max(axis=1)[:, None])
            chk.check(np.all(abs(r[k]-r[0]) <= d), 'lagged or splined filter '
                      'far from the standard filter',
                      dict(case=c, ab=ab, std=r[0], other=r[k], which=k))
        chk.case(('dipole', str(c['o']), ab))
        # Time domain.
        t = np.exp(np.log(four.factor[0])*np.array(c['o'], float)/6)
        s = rng.choice([-1, 0, 1])
        kw.update(freqtime=t, signal=s, ht='dlf', htarg=emp.HT, ab=11,
                  rec=[400., 100., 70.])
        r = [empymod.dipole(**kw, ftarg=dict(dlf=four, pts_per_dec=p)).ravel()
             for p in (0, -1)]
        # Late times are small differences of large terms.
        sc = abs(empymod.dipole(**{**kw, 'freqtime': 1/t, 'signal': None}))
        sc = np.max(sc.ravel() if s else sc.ravel()/t)
        d = 1e-6*np.max(abs(r[0])) + 1e-9*sc
        chk.check(np.all(abs(r[1]-r[0])[ex] <= d), 'lagged convolution '
                  'differs from the standard filter where they coincide',
                  dict(case=c, signal=s, std=r[0], lag=r[1], time=t))
        chk.case(('time', str(c['o']), s))

    n = chk.parallel(routine, lags, budget=45 if not big else 850)
    chk.extra['routine_replayed'] = n


if __name__ == '__main__':
    vlib.main('C15', run)
