"""C07: finite-length bipoles are the Gauss-Legendre average of dipoles."""
import vlib


def run(chk):
    h = chk.tlc_start('Quadrature', workers=1, consts=dict(
        MaxPts=4 if not chk.thorough else 6, MaxSteps=1))
    import emp
    from emp import np, empymod
    cases = chk.tlc_wait(h, timeout=900)['cases']
    chk.extra['bipole_pairs_in_model'] = len(cases)
    # Coordinates of finite bipoles are rounded to the minimum offset.
    empymod.set_minimum(min_off=1e-10)
    chk.rng.shuffle(cases)
    # Prefer the combinations with integration on both sides less, as they
    # are expensive.
    cases.sort(key=lambda c: (c['ns']*c['nr'])//7)
    # About a third of them in company.
    alone = [c for c in cases if not (c['smate']['v']['l'] or
                                      c['rmate']['v']['l'])]
    comp = [c for c in cases if c['smate']['v']['l'] or c['rmate']['v']['l']]
    cases = [x for i in range(len(cases)) for x in (
        alone[2*i:2*i+2] + comp[i:i+1])]

    def direction(v):
        """Azimuth and dip in degrees of a vector (x, y, z down)."""
        x, y, z = v['x'], v['y'], v['z']
        return (float(np.degrees(np.arctan2(y, x))),
                float(np.degrees(np.arctan2(z, np.hypot(x, y)))))

    def points(e, n, pos):
        """Positions and weights along the bipole."""
        v = np.array([e['v'][k] for k in 'xyz'], float)
        if n == 1:
            return [(pos+(v/2 if e['fin'] else 0), 1.)]
        g, w = np.polynomial.legendre.leggauss(n)
        return [(pos + v/2*(1+gi), wi/2) for gi, wi in zip(g, w)]

    def replay(c):
        rng = chk.rng
        var = rng.randrange(7)
        m = emp.stack(rng.choice([1, 2, 3]), var=var)
        ps = np.array([rng.uniform(-9, 9), rng.uniform(-9, 9),
                       rng.choice([-20., -1.5, 5., 11.5, 38.])])
        pr = np.array([rng.uniform(30, 60), rng.uniform(-50, 50),
                       rng.choice([-15., -2.5, 6., 37.5, 60.])])
        stype = rng.choice([False, False, True, 'b'])
        rtype = rng.choice([False, False, True, 'b', 'j'])
        if chk.rng.random() < .3:
            m['xdirect'] = True
        kw = dict(m, verb=0, squeeze=False, msrc=stype, mrec=rtype,
                  **emp.TINY)
        dom = rng.choice(['freq', 'freq', 'lap', 'time'])
        kw['freqtime'] = dict(freq=[.9, 31.], lap=[-.9, -31.],
                              time=[.02, 1.])[dom]
        if dom == 'time':
            kw['signal'] = rng.choice([-1, 0, 1])
        (da, db), (ea, eb) = direction(c['src']['v']), direction(c['rec']['v'])

        def end(e, p, a, b):
            if e['fin']:
                q = p + np.array([e['v'][k] for k in 'xyz'])
                return [p[0], q[0], p[1], q[1], p[2], q[2]]
            return [p[0], p[1], p[2], a, b]
        args = [end(c['src'], ps, da, db), end(c['rec'], pr, ea, eb)]
        own = [0, 0]
        for i, (k, p) in enumerate((('smate', ps), ('rmate', pr))):
            if not c[k]['v']['l']:
                continue
            # A further bipole in the same call; at the same depth, if both
            # are horizontal.
            mate = end(dict(fin=True, v=c[k]['v']), p+np.array(
                [rng.uniform(-9, 9), rng.uniform(-9, 9),
                 rng.choice([0, 0, .3])]), 0, 0)
            both = [mate, args[i]] if c[k]['first'] else [args[i], mate]
            own[i] = int(c[k]['first'])
            args[i] = [list(v) for v in zip(*both)]
        got = np.array(empymod.bipole(
            *args, srcpts=c['spts'], recpts=c['rpts'], strength=c['str'],
            **kw))[:, own[1]:own[1]+1, own[0]:own[0]+1]
        want, tot = 0., 0.
        for p, w in points(c['src'], c['ns'], ps):
            for q, v in points(c['rec'], c['nr'], pr):
                f = np.array(empymod.bipole([*p, da, db], [*q, ea, eb], **kw))
                want = want + w*v*f
                tot = tot + abs(w*v*f)
        want = want*c['scale']
        tot = tot*abs(c['scale'])
        # Absolute scale of the component set (the field itself may vanish).
        ref = abs(np.array(empymod.bipole(
            [*ps, 33., 28.], [*pr, -51., 17.], **kw)))*abs(c['scale'])
        chk.check(vlib.close(got, want, 1e-7, scale=np.maximum(tot, ref)),
                  'finite bipole is not the weighted average times scale',
                  dict(case=c, args=args, var=var, kw=kw, got=got, want=want))
        chk.case((c, stype, rtype), dict(case=c, types=[stype, rtype]))

    b = 35 if not chk.thorough else 850
    n = chk.parallel(replay, cases, budget=b)
    chk.extra['bipole_pairs_replayed'] = n
    # An actual finite field: wires along the axes with an accurate filter,
    # end points swapped.
    emp.restore_minimum()
    chk.parallel(lambda i: swap(chk, emp, np, empymod, i), range(60),
                 budget=b+10)


def swap(chk, emp, np, empymod, i):
    rng = chk.rng
    m = emp.stack(3, var=i % 7)
    a = [rng.uniform(-50, 0), rng.uniform(10, 60), rng.uniform(-40, 0),
         rng.uniform(0, 40), rng.uniform(-10, 50), rng.uniform(-10, 50)]
    r = [rng.uniform(150, 190), rng.uniform(200, 260), rng.uniform(-40, 0),
         rng.uniform(0, 40), rng.uniform(-10, 50), rng.uniform(-10, 50)]
    n, k, s = rng.choice([1, 3, 5, 13]), rng.choice([1, 3, 11]), rng.choice(
        [-2.5, 1., 0, 30.])
    kw = dict(m, freqtime=[.5, 20.], srcpts=n, recpts=k, strength=s, verb=0,
              **emp.TINY, msrc=rng.random() < .4, mrec=rng.random() < .4)
    f = empymod.bipole(a, r, **kw)
    for x, y in ((sw(a), r), (a, sw(r))):
        g = empymod.bipole(x, y, **kw)
        chk.check(vlib.close(g, -f, 1e-5, scale=np.max(abs(f))),
                  'swapping the end points does not change the sign',
                  dict(src=x, rec=y, kw=kw, got=g, before=f))
    chk.case(('swap', i))


def sw(a):
    return [a[1], a[0], a[3], a[2], a[5], a[4]]


if __name__ == '__main__':
    vlib.main('C07', run)
