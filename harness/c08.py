"""C08: types b, j and loop scale with the medium parameter of the layer."""
import vlib

TY = dict(e=False, m=True, b='b', j='j')


def run(chk):
    h = chk.tlc_start('Types', workers=1, consts=dict(
        NL=3, MaxE=2 if not chk.thorough else 3))
    import emp
    from emp import np, empymod
    empymod.set_minimum(min_off=1e-10)
    cases = chk.tlc_wait(h)['cases']
    chk.extra['type_configurations_in_model'] = len(cases)
    plain = [c for c in cases if c['st'] != 'b' and c['rt'] in 'em']
    other = [c for c in cases if not (c['st'] != 'b' and c['rt'] in 'em')]
    chk.rng.shuffle(plain)
    chk.rng.shuffle(other)
    gl = np.polynomial.legendre.leggauss(3)
    IF = [10., 40.]           # interfaces
    RANGE = [(-20, 9), (11, 39), (41, 70)]

    def depths(e, rng):
        """Depths (and end points in z) for the layers of an end."""
        lay = e['lay']
        if e['form'] == 'elements':
            z = [round(rng.uniform(*RANGE[k]), 2) for k in lay]
            # Occasionally exactly on the lower interface of the layer.
            if rng.random() < .15 and lay[0] < 2:
                z[0] = IF[lay[0]]
            return z, None
        for _ in range(100000):
            a, b = rng.uniform(-60, 110), rng.uniform(-60, 110)
            z = (a+b)/2 + gl[0]*(b-a)/2
            if [int(np.sum(zz > np.array(IF))) for zz in z] == lay and \
                    np.min(abs(z[:, None]-np.array(IF))) > .1:
                return z, (a, b)
        raise vlib.Machinery(f'no depths for {lay}')

    def replay(c):
        rng = chk.rng
        var = rng.randrange(7)
        m = emp.stack(3, var=var)
        iso = rng.random() < .8
        m.update(depth=IF)
        if iso:
            m.update(aniso=None, epermV=None, mpermV=None)
        if rng.random() < .2:    # reversed description
            m = {k: (None if v is None else np.array(v)[::-1])
                 for k, v in m.items()}
        f = np.array([.6, 44., 3e4])[:rng.choice([1, 2, 3])]
        lap = rng.random() < .3
        s = f if lap else 2j*np.pi*f
        std = emp.stack(3, var=var)
        par = dict(eta=[1/std['res'][k] + s*emp.EPS0*std['epermH'][k]
                        for k in range(3)],
                   zeta=[s*emp.MU0*std['mpermH'][k] for k in range(3)])
        zs, es = depths(c['src'], rng)
        zr, er = depths(c['rec'], rng)
        A, B = (rng.uniform(-170, 170), rng.uniform(-80, 80)), (
            rng.uniform(-170, 170), rng.uniform(-80, 80))

        def end(e, z, ez, pos, ang):
            """Full end, and list of ends of its points with weights."""
            k = len(z)
            if e['form'] == 'elements':
                x = [pos[0]+7*i for i in range(k)]
                full = [x, pos[1], z if k > 1 else z[0], *ang]
                return full, [([x[i], pos[1], z[i], *ang], 1.)
                              for i in range(k)]
            # A finite bipole with given depths at the integration points.
            a, b = ez
            h = abs(b-a)*.4
            full = [pos[0]-h/2, pos[0]+h/2, pos[1], pos[1]+h/3, a, b]
            d = np.array([h, h/3, b-a])
            an = (np.degrees(np.arctan2(d[1], d[0])),
                  np.degrees(np.arctan2(d[2], np.hypot(d[0], d[1]))))
            mid = np.array([pos[0], pos[1]+h/6, (a+b)/2])
            return full, [([*(mid+d/2*g), *an], w/2) for g, w in zip(*gl)]
        src, sp = end(c['src'], zs, es, (0., 3.), A)
        rec, rp = end(c['rec'], zr, er, (75., -31.), B)
        kw = dict(m, freqtime=-f if lap else f, verb=0, squeeze=False,
                  ht='dlf', htarg=emp.HT,
                  xdirect=rng.choice([False, False, True, None]))
        strength = rng.choice([0, 0, 3.])
        ns = len(sp) if c['src']['form'] == 'elements' else 1
        nr = len(rp) if c['rec']['form'] == 'elements' else 1
        got = np.array(empymod.bipole(
            src, rec, msrc=TY[c['st']], mrec=TY[c['rt']], srcpts=3, recpts=3,
            strength=strength, **kw))
        want = np.zeros((f.size, nr, ns), dtype=got.dtype)
        ref = np.zeros((f.size, nr, ns))
        for j, (sj, wj) in enumerate(sp):
            for i, (ri, wi) in enumerate(rp):
                p = np.array(empymod.bipole(
                    sj, ri, msrc=TY[c['sb']], mrec=TY[c['rb']], **kw))[:, 0, 0]
                q = np.array(empymod.bipole(
                    [*sj[:3], 33., 28.], [*ri[:3], -51., 17.],
                    msrc=TY[c['sb']], mrec=TY[c['rb']], **kw))[:, 0, 0]
                fac = np.ones(f.size)*wi*wj
                for name, lay in c['f'][i][j]:
                    fac = fac*par[name][lay]
                a, b = min(i, nr-1), min(j, ns-1)
                want[:, a, b] += fac*p
                ref[:, a, b] += abs(fac*p) + abs(fac*q)
        if strength:
            for e, ez, pos in ((c['src'], es, 0), (c['rec'], er, 0)):
                if ez:
                    h = abs(ez[1]-ez[0])*.4
                    sc = np.sqrt(h**2+(h/3)**2+(ez[1]-ez[0])**2)
                    want, ref = want*sc, ref*sc
            want, ref = want*strength, ref*strength
        chk.check(vlib.close(got, want, 1e-7, scale=ref),
                  'type is not the base type times the medium parameter of '
                  'the layer', dict(case=c, src=src, rec=rec, var=var, kw=kw,
                                    got=got, want=want))
        chk.case((c['src'], c['rec'], c['st'], c['rt'], lap), dict(case=c))
        # loop(...) is bipole(..., msrc='b', srcpts=1)
        if c['st'] == 'b' and rng.random() < .5:
            rt = TY[c['rt']]
            extra = dict(recpts=3, strength=strength)
            lk = dict(kw)
            if rt is True and rng.random() < .5:
                out = vlib.call(empymod.loop, src, rec, **lk, **extra)
            else:
                if rt == 'b' and rng.random() < .5:
                    rt = 'loop'
                out = vlib.call(empymod.loop, src, rec, mrec=rt, **lk,
                                **extra)
            ref = empymod.bipole(src, rec, msrc='b', srcpts=1,
                                 mrec=TY[c['rt']], **kw, **extra)
            chk.check(out.ok and vlib.close(out.value, ref, 1e-14),
                      'loop differs from bipole with a flux source',
                      dict(case=c, got=repr(out), want=ref))

    b = 40 if not chk.thorough else 850
    n = chk.parallel(replay, other, budget=b*.8)
    n += chk.parallel(replay, plain, budget=b)
    chk.extra['type_configurations_replayed'] = n
    # Types which do not exist are rejected.
    s, r = [0, 0, 5, 0, 0], [50, 0, 20, 0, 0]
    for kw in (dict(msrc='j'), dict(msrc='x'), dict(mrec='x'),
               dict(mrec='e')):
        o = vlib.call(empymod.bipole, s, r, IF, [1, 2, 3], 1, verb=0, **kw)
        chk.check(not o.ok, 'unknown type accepted', dict(kw=kw, got=o))


if __name__ == '__main__':
    vlib.main('C08', run)
