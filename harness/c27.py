"""C27: TM/TE separation is complete and consistent with the total field."""
from fractions import Fraction

import vlib

CL = ('uu', 'ud', 'du', 'dd')


def num(s):
    a, b, c = (int(x) for x in s.split())
    return complex(float(Fraction(a, c)), float(Fraction(b, c)))


def run(chk):
    big = chk.thorough
    sh = sorted(chk.rng.sample(range(7), 3 if big else 1))
    h = chk.tlc_start('TmTem', rat=True, workers=6, mem='6g', consts=dict(
        Ifaces='{2, 5, 6, 9}' if big else '{2, 5, 8}',
        Sources='{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}' if big else
        '{1, 2, 3, 4, 5, 6, 7, 8, 9}',
        Lo=0, Hi=1, Laws='TRUE', MaxRefl=6 if big else 4,
        Shifts='{' + ', '.join(map(str, sh)) + '}'))
    import emp
    from emp import np, empymod, filters
    from empymod.scripts import tmtemod
    cases = chk.tlc_wait(h, timeout=900)['cases']
    chk.extra['configurations_in_model'] = len(cases)
    filt = filters.Hankel().key_201_2012

    def pool(p, k):
        """Materials of the specification (as in Waves.tla)."""
        q = dict(
            re=[(1, .5, .2, .4), (2.5, .4, 1/3, .5), (.5, 1/3, 1/7, .5),
                (3.5, 2/3, 1, .6), (4/3, .25, .5, 2/7), (9, .5, .75, .5),
                (2/3, 3/7, 1/9, 1/3)],
            cx=[(1+1j, .3-.4j, .2+.2j, (2-1j)/6), ((2+1j)/3, .4-.2j, 1j/3,
                .5-1j/6), (1.25-.25j, (1-1j)/3, (1+2j)/9, .5-.5j),
                (1.5+1j, .5-.2j, .25+.75j, .5-.25j), (.25+.5j, .2-.4j,
                (2+1j)/6, (2-3j)/9), (4+1j, (4-1j)/7, .5+.5j, (3-2j)/8),
                (.4-.2j, .2-.2j, (1+4j)/9, 1/3+0j)])[p]
        return q[k % 7]

    # 1. The wavenumber domain, with the exact values (if it is available).
    def green(c):
        rng = chk.rng
        lam, u = rng.choice([1., .37, 2.1]), rng.choice([1., 20., .3])
        lam /= u
        n = len(c['d'])+1
        med = np.zeros((4, n), complex)
        for k in range(n):
            zm, em, ze, ee = pool(c['p'], k+c['sh'])
            gm, ge = -np.log(em)/u, -np.log(ee)/u
            eH, zH = gm/zm, ge*ze
            med[:, k] = (eH, lam**2*eH/(gm**2-eH*zH), zH,
                         lam**2*zH/(ge**2-eH*zH))
        if c['p'] == 're':
            med = med.real
        eH, eV, zH, zV = (m[None, :].copy() for m in med)
        lay = c['l']-1
        o = vlib.call(tmtemod.greenfct, c['zs']*u, c['z']*u, lay, lay,
                      np.r_[-np.inf, np.array(c['d'], float)*u], eH, eV, zH,
                      zV, np.array([[lam]]))
        if not o.ok and isinstance(o.exc, (TypeError, AttributeError)):
            return                     # other internals
        det = dict(case=c, lam=lam, u=u, got=o)
        if not chk.check(o.ok, 'wavenumber domain failed', det):
            return
        for te, P in enumerate(o.value):
            z = pool(c['p'], lay+c['sh'])[2*te]
            e = pool(c['p'], lay+c['sh'])[2*te+1]
            s = -2 if te == 0 else 2
            want = [num(c['paths'][k]['te' if te else 'tm']) for k in CL]
            want.append(z/2*e**abs(c['zs']-c['z']))
            for k, g, w in zip(CL+('direct',), P, want):
                g = np.ravel(g)[0]
                chk.check(abs(g-s*w) <= 1e-9*abs(w) + 1e-12*abs(z),
                          f'{"TE" if te else "TM"} contribution {k} in the '
                          'wavenumber domain', dict(det, got=g, want=s*w))
        chk.case(('green', repr(c)), c)
        chk.extra['wavenumber'] = chk.extra.get('wavenumber', 0)+1

    # 2. The routine: contributions from the paths of the specification.
    def medium(m, f, td):
        w = 2j*np.pi*f if f > 0 else -f+0j
        n = len(m['res'])
        one = np.ones(n)
        ani = m.get('aniso', one)
        ep, mp = m.get('eperm', one), m.get('mperm', one)
        eH = 1/m['res'] + w*ep*emp.EPS0
        eV = 1/(m['res']*ani**2) + w*ep*emp.EPS0
        z = w*mp*emp.MU0
        return eH, eV, z

    def lines(m, f, lam):
        """Impedance and propagation of both modes, (layer, lambda)."""
        eH, eV, z = (x[:, None] for x in medium(m, f, 0))
        gm = np.sqrt(eH/eV*lam**2+eH*z)
        ge = np.sqrt(lam**2+eH*z)
        return (gm/eH, gm), (z/ge, ge)

    def reflect(Z, G, d, lay):
        """Reflection at bottom and top of the layer."""
        th = [np.tanh(G[k]*(d[k]-d[k-1])) if 0 < k < len(d) else None
              for k in range(len(Z))]
        zz = Z[-1]
        for k in range(len(Z)-2, lay, -1):
            zz = Z[k]*(zz+Z[k]*th[k])/(Z[k]+zz*th[k])
        rp = (zz-Z[lay])/(zz+Z[lay]) if lay < len(Z)-1 else 0*Z[0]
        zz = Z[0]
        for k in range(1, lay):
            zz = Z[k]*(zz+Z[k]*th[k])/(Z[k]+zz*th[k])
        rm = (zz-Z[lay])/(zz+Z[lay]) if lay > 0 else 0*Z[0]
        return rp, rm

    def parts(c, m, d, f, lay, zs, zr, lam):
        out = []
        for Z, G in lines(m, f, lam):
            rp, rm = reflect(Z, G, d, lay)
            has = [lay < len(d), lay > 0]
            bot, top = (d[lay] if has[0] else 0.), (d[lay-1] if has[1] else 0.)
            g = G[lay]
            q = rp*rm*np.exp(-2*g*(bot-top)) if all(has) else 0.
            o = []
            for k in CL:
                p = c['paths'][k]
                if not p['exists']:
                    o.append(0*g)
                    continue
                p = p['path']
                ln = np.dot(p['len'], [bot, top, zs, zr])
                o.append(Z[lay]/2*np.exp(-g*ln)*rp**p['p'] *
                         rm**p['m']/(1-q))
            o.append(Z[lay]/2*np.exp(-g*abs(zs-zr)))
            out.append(o)
        return out

    def field(V, V0, lam, r, th, te):
        """Space domain; V0 (lambda=0) is what the waves of both modes share.

        Both contain a part which is no decaying wave, V0/r^2 cos(2 theta);
        it cancels in the sum of the modes.
        """
        c2 = np.cos(2*th)
        s = -1 if te else 1
        j0, j1 = filt.j0 @ (lam*V)/r, filt.j1 @ V/r
        E = -1/(4*np.pi)*((1+s*c2)*j0 - s*c2*2/r*(j1-V0/r))
        size = (np.abs(filt.j0 @ np.abs(lam*V))/r +
                2/r*np.abs(filt.j1) @ np.abs(V)/r+abs(V0)/r**2*2)/(4*np.pi)
        return E, size

    def experiment(c):
        rng = chk.rng
        n = len(c['d'])+1
        if n == 1:
            return
        base = emp.stack(min(n, 6), var=rng.randrange(7))
        m = dict(res=base['res'])
        if rng.random() < .6:
            m['aniso'] = base['aniso']
        if rng.random() < .6:
            m['eperm'] = base['epermH']
        if rng.random() < .6:
            m['mperm'] = base['mpermH']
        u = rng.choice([20., 5.])
        f = rng.choice([1., .1, 40., -3.])
        lay = c['l']-1
        d = np.array(c['d'], float)*u
        zs, zr = c['zs']*u, c['z']*u
        src = [rng.uniform(-9, 9), rng.uniform(-9, 9), zs]
        nr = rng.choice([1, 2])
        off = [rng.uniform(60, 150) for _ in range(nr)]
        ang = [rng.uniform(-3, 3) for _ in range(nr)]
        rec = [[src[0]+o*np.cos(a) for o, a in zip(off, ang)],
               [src[1]+o*np.sin(a) for o, a in zip(off, ang)], zr]
        if nr == 1 and rng.random() < .5:
            rec = [rec[0][0], rec[1][0], zr]
        dd = d.tolist() if rng.random() < .5 else d
        verb = rng.choice([0, 0, 0, 1, 2, 3, 4])
        o = vlib.call(tmtemod.dipole, src, rec, dd, verb=verb, freqtime=f,
                      **m)
        det = dict(case=c, model=m, f=f, src=src, rec=rec, depth=d, got=o)
        if not chk.check(o.ok, 'routine failed', det):
            return
        TM, TE = (np.array([np.atleast_1d(x) for x in P]) for P in o.value)
        if not chk.check(TM.shape == TE.shape == (5, nr), 'shape', det):
            return
        scs = np.zeros(nr)
        for i in range(nr):
            lam = filt.base/off[i]
            P = parts(c, m, d, f, lay, zs, zr, lam)
            P0 = parts(c, m, d, f, lay, zs, zr, np.array([0.]))
            for te, G in enumerate((TM, TE)):
                for k in range(5):
                    E, size = field(P[te][k], P0[te][k][0] if k < 4 else 0.,
                                    lam, off[i], ang[i], te)
                    scs[i] = max(scs[i], size)
                    chk.check(abs(G[k, i]-E) <= 1e-9*size,
                              f'{"TE" if te else "TM"} contribution '
                              f'{(CL+("direct",))[k]}',
                              dict(det, want=E, have=G[k, i]))
        kw = dict(freqtime=f, verb=0, htarg={'dlf': filt}, depth=d,
                  res=m['res'], aniso=m.get('aniso'),
                  epermH=m.get('eperm'), epermV=m.get('eperm'),
                  mpermH=m.get('mperm'), mpermV=m.get('mperm'))
        for xd, w in ((False, TM.sum(0)+TE.sum(0)),
                      (None, TM[:4].sum(0)+TE[:4].sum(0))):
            E = np.atleast_1d(empymod.dipole(src, rec, xdirect=xd, **kw))
            chk.check(vlib.close(w, E, 1e-9, scale=scs),
                      'sum of the contributions is not the field'
                      if xd is False else 'sum of the contributions without '
                      'the direct part is not the secondary field',
                      dict(det, want=E, have=w))
        # Shifts, in any direction.
        t = rng.choice([137.25, -911.5, -zs, u])
        o = vlib.call(tmtemod.dipole, [src[0], src[1], zs+t],
                      [rec[0], rec[1], zr+t], d+t, verb=0, freqtime=f, **m)
        laws(o, TM, TE, CL, scs, f'shift by {t}', det)
        # Upside down: directions exchanged.
        if not np.isin([zs, zr], d).any():
            o = vlib.call(tmtemod.dipole, [src[0], src[1], -zs],
                          [rec[0], rec[1], -zr], -d[::-1], verb=0, freqtime=f,
                          **{k: v[::-1] for k, v in m.items()})
            laws(o, TM, TE, ('dd', 'du', 'ud', 'uu'), scs, 'upside down', det)
        # Source and receiver exchanged.
        if nr == 1:
            o = vlib.call(tmtemod.dipole, np.ravel(rec[:2]).tolist()+[zr],
                          src, d, verb=0, freqtime=f, **m)
            laws(o, TM, TE, ('dd', 'ud', 'du', 'uu'), scs, 'exchanged', det)
        # An interface without contrast.
        x = rng.uniform(-2, 12)*u
        lo, hi = min(zs, zr), max(zs, zr)
        if not lo <= x <= hi and np.abs(x-d).min() > .1:
            k = int(np.searchsorted(d, x))
            o = vlib.call(tmtemod.dipole, src, rec, np.insert(d, k, x),
                          verb=0, freqtime=f,
                          **{a: np.insert(v, k, v[k]) for a, v in m.items()})
            laws(o, TM, TE, CL, scs, 'interface without contrast', det)
        # Two sources.
        o = vlib.call(tmtemod.dipole, [[src[0], src[0]+31.], [src[1], 5.],
                                       zs], rec, d, verb=0, freqtime=f, **m)
        if chk.check(o.ok, 'two sources failed', dict(det, got=o)):
            a = [np.array([np.reshape(np.asarray(x), (nr, 2), order='C')[:, 0]
                           for x in P]) for P in o.value]
            chk.check(vlib.close(a[0], TM, 1e-11, scale=scs) and
                      vlib.close(a[1], TE, 1e-11, scale=scs),
                      'two sources', dict(det, got=o))
        chk.case(('experiment', repr(c), f, tuple(m)), c)
        chk.traces += 1

    def laws(o, TM, TE, order, scs, what, det):
        if not chk.check(o.ok, what+' failed', dict(det, got=o)):
            return
        k = [CL.index(x) for x in order]+[4]
        for a, b in zip(o.value, (TM, TE)):
            a = np.array([np.atleast_1d(x) for x in a])[k]
            chk.check(a.shape == b.shape and
                      vlib.close(a, b, 1e-8, scale=scs),
                      f'contributions are not invariant: {what}',
                      dict(det, want=b, have=a))

    chk.rng.shuffle(cases)
    chk.parallel(green, cases, budget=chk.elapsed()+(100 if big else 8))
    chk.parallel(experiment, cases*(20 if big else 1),
                 budget=chk.elapsed()+(300 if big else 20))

    # 3. What is not supported.
    M = dict(depth=[0, 50.], res=[2., 1., 3.], freqtime=1., verb=0)
    S, R = [0, 0, 10.], [50., 20., 20.]
    for what, k in (
            ('other layer', dict(rec=[50., 20., 60.])),
            ('other layer', dict(src=[0, 0, -1.])),
            ('other layer', dict(src=[0, 0, 0.])),
            ('other layer', dict(src=[0, 0, 50.], rec=[50, 20., 50.001])),
            ('several frequencies', dict(freqtime=[1., 2.])),
            ('several frequencies', dict(freqtime=[1., 1.])),
            ('several frequencies', dict(freqtime=np.ones((1, 3)))),
            ('full-space', dict(depth=[], res=[1.])),
            ('full-space', dict(depth=[], res=1.)),
            ('not as many values', dict(res=[1., 2.])),
            ('not as many values', dict(aniso=[1., 2.])),
            ('not as many values', dict(eperm=[1., 2., 3., 4.])),
            ('not as many values', dict(mperm=[1., 2.])),
            ('coordinates', dict(src=[0, 0, [10., 11.]])),
            ('coordinates', dict(rec=[[1., 2.], [1., 2., 3.], 20.])),
            ('coordinates', dict(rec=[1., 20.]))):
        o = vlib.call(tmtemod.dipole, **{**dict(src=S, rec=R), **M, **k})
        chk.check(not o.ok and isinstance(o.exc, ValueError),
                  f'not rejected: {what}', dict(k=k, got=o))
        chk.case(('rejected', repr(k)))
    for k in (dict(src=[0, 0, 50.], rec=[50., 20., 1e-3]),
              dict(freqtime=[1.]), dict(freqtime=np.array(1.)),
              dict(depth=[50.], res=[1., 2.])):
        o = vlib.call(tmtemod.dipole, **{**dict(src=S, rec=R), **M, **k})
        chk.check(o.ok, 'supported configuration rejected',
                  dict(k=k, got=o))
        chk.case(('accepted', repr(k)))
    # Equal values of all parameters: no contributions but the direct ones.
    o = vlib.call(tmtemod.dipole, S, R, **dict(M, res=[2., 2., 2.]))
    chk.check(o.ok and all(np.all(np.abs(x) < 1e-20) for P in o.value
                           for x in P[:4]), 'homogeneous', dict(got=o))


if __name__ == '__main__':
    vlib.main('C27', run, 'model_checking')
