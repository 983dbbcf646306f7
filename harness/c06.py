"""C06: arbitrary orientation is the direction-cosine combination."""
import math

import vlib

STATIC = '''
SPECIFICATION Spec
INVARIANTS Unit Reversal RuleIsSafe NineSum Export
CHECK_DEADLOCK FALSE
'''


def run(chk):
    h1 = chk.tlc_start('Orientation', cfg=STATIC, workers=1,
                       consts=dict(N=1, Which='"all"'))
    h2 = chk.tlc_start('Orientation', workers=7,
                       consts=dict(N=2, Which='"classes"' if chk.thorough
                                   else '"few"'))
    import emp
    from emp import np, empymod
    one = chk.tlc_wait(h1)['cases']
    two = chk.tlc_wait(h2, timeout=900)['cases']
    two = [c for c in two if len(c['src'])+len(c['rec']) > 2]
    chk.extra['orientations_in_model'] = len(one)+len(two)
    chk.rng.shuffle(one)
    chk.rng.shuffle(two)
    xs, ys, xr, yr = [0., 13.], [5., -20.], [70., -40.], [-35., 90.]

    tabs = {}

    def table(var, dom):
        """Principal components of a model: [ab][f, rec, src]."""
        if (var, dom) in tabs:
            return tabs[var, dom]
        m = emp.stack(3, var=var)
        zs, zr = [(20., 44.), (60., -10.), (-12., -5.), (150., 30.),
                  (31., 31.), (-8., 120.), (44., 20.)][var]
        kw = dict(m, verb=0, squeeze=False, **emp.TINY)
        if dom == 'freq':
            kw['freqtime'] = [.4, 25.]
        elif dom == 'lap':
            kw['freqtime'] = [-.4, -25.]
        else:
            kw.update(freqtime=[.01, 2.], signal=var % 3 - 1)
        f = {}
        for i in range(1, 7):
            for j in range(1, 7):
                f[i*10+j] = np.array(empymod.dipole(
                    [xs, ys, zs], [xr, yr, zr], ab=i*10+j, **kw))
        tabs[var, dom] = (f, zs, zr, kw)
        return tabs[var, dom]

    def deg(a, delta):
        if a['d'] == 1:
            v = {(1, 0): 0., (0, 1): 90., (-1, 0): 180.,
                 (0, -1): -90.}[a['c'], a['s']]
        else:
            v = math.degrees(math.atan2(a['s'], a['c']))
        if a['n']:
            return v + math.degrees(a['n']*delta)
        return v + 360*chk.rng.choice([0, 0, 0, 1, -1, 2])

    def vec(a, b, delta):
        """Direction cosines, exact also next to the axes."""
        def cs(t):
            c, s = t['c']/t['d'], t['s']/t['d']
            x, y = math.cos(t['n']*delta), math.sin(t['n']*delta)
            return c*x-s*y, s*x+c*y
        (ca, sa), (cb, sb) = cs(a), cs(b)
        return ca*cb, sa*cb, sb

    def ang(e, delta):
        """Angles; a single number for all if they are equal."""
        out = []
        for k in 'ab':
            v = [deg(x[k], delta) for x in e]
            if len(e) > 1 and all(x[k] == e[0][k] for x in e) and \
                    chk.rng.random() < .5:
                v = v[0]
            out.append(v)
        return out

    def replay(c):
        var = chk.rng.randrange(7)
        f, zs, zr, kw = table(var, chk.rng.choice(
            ['freq', 'freq', 'lap', 'time']))
        ns, nr = len(c['src']), len(c['rec'])
        delta = 10.**chk.rng.uniform(-7.5, -2)
        sa, ra = ang(c['src'], delta), ang(c['rec'], delta)
        kw = dict(kw, msrc=c['msrc'], mrec=c['mrec'])
        # Direction cosines below the minimum angle may be taken as zero.
        low = chk.rng.choice([1e-20, None])
        emp.restore_minimum()
        if low:
            empymod.set_minimum(min_angle=low)
        got = empymod.bipole([xs[:ns], ys[:ns], zs, *sa],
                             [xr[:nr], yr[:nr], zr, *ra], **kw)
        want = np.zeros_like(f[11][:, :nr, :ns])
        tot = np.zeros_like(abs(want))
        use = np.zeros_like(tot)
        for i, r in enumerate(c['rec']):
            for j, s in enumerate(c['src']):
                for p in range(3):
                    for q in range(3):
                        ab = (p+1+3*c['mrec'])*10 + q+1+3*c['msrc']
                        k = (vec(r['a'], r['b'], delta)[p] *
                             vec(s['a'], s['b'], delta)[q])
                        want[:, i, j] += k*f[ab][:, i, j]
                        tot[:, i, j] += abs(f[ab][:, i, j])
                        use[:, i, j] += abs(k*f[ab][:, i, j])
        chk.check(vlib.close(got, want, 1e-8, atol=0 if low else 3e-10*tot,
                            scale=np.maximum(use, 1e-6*tot)),
            'orientation is not the direction-cosine combination',
            dict(case=c, src_angles=sa, rec_angles=ra, var=var, z=(zs, zr),
                 got=got, want=want,
                 domain=kw['freqtime'], signal=kw.get('signal')))
        chk.case((c['src'], c['rec'], c['msrc'], c['mrec']), dict(case=c))
        # As electric current density, magnetic flux, the combination of the
        # components is the same up to a common factor (isotropic layer).
        if ns == nr == 1 and chk.rng.random() < .2:
            back = empymod.bipole(
                [xs[0], ys[0], zs, np.atleast_1d(sa[0])[0]+180,
                 -np.atleast_1d(sa[1])[0]], [xr[0], yr[0], zr,
                                             *[np.atleast_1d(a)[0]
                                               for a in ra]], **kw)
            chk.check(vlib.close(back, -got, 1e-9, scale=np.maximum(
                abs(got), 1e-2*tot)), 'reversed source direction does not '
                'reverse the field', dict(case=c, got=got, back=back))
            back = empymod.bipole(
                [xs[0], ys[0], zs, *[np.atleast_1d(a)[0] for a in sa]],
                [xr[0], yr[0], zr, np.atleast_1d(ra[0])[0]+180,
                 -np.atleast_1d(ra[1])[0]], **kw)
            chk.check(vlib.close(back, -got, 1e-9, scale=np.maximum(
                abs(got), 1e-2*tot)), 'reversed receiver direction does not '
                'reverse the field', dict(case=c, got=got, back=back))

    b = 35 if not chk.thorough else 800
    n = chk.parallel(replay, one, budget=b*.7)
    n += chk.parallel(replay, two, budget=b)
    chk.extra['orientations_replayed'] = n


if __name__ == '__main__':
    vlib.main('C06', run)
