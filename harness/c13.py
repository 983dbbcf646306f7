"""C13: the wavenumber kernel solves the layered boundary-value problem."""
import math
from collections import defaultdict
from fractions import Fraction

import vlib


def num(s):
    a, b, c = (int(x) for x in s.split())
    return complex(float(Fraction(a, c)), float(Fraction(b, c)))


def run(chk):
    sh = sorted(chk.rng.sample(range(7), 4 if chk.thorough else 2))
    big = chk.thorough
    h = chk.tlc_start('Waves', rat=True, workers=4, mem='8g', consts=dict(
        Ifaces='{1, 2, 4, 5, 7, 8}' if big else '{1, 2, 4, 5, 7}',
        Sources='{0, 1, 2, 3, 4, 5, 6, 7, 8}',
        Lo=0, Hi=9, Laws='FALSE',
        Shifts='{' + ', '.join(map(str, sh)) + '}'))
    hl = chk.tlc_start('Waves', rat=True, workers=2, consts=dict(
        Ifaces='{1, 2, 4}' if big else '{2, 3}',
        Sources='{0, 1, 2, 3, 4, 5}' if big else '{1, 2, 3, 4}',
        Lo=0, Hi=5, Shifts='{0, 2}' if big else '{0}', Laws='TRUE'))
    import emp
    from emp import np, empymod, kernel, utils
    from scipy.special import jv
    cases = chk.tlc_wait(h, timeout=900)['cases']
    chk.tlc_wait(hl, timeout=900)
    table = next(c for c in cases if 'table' in c)
    cases = [c for c in cases if 'table' not in c]
    chk.extra['fields_in_model'] = len(cases)
    pool = {p: [{k: num(v) for k, v in m.items()} for m in table[p]]
            for p in ('re', 'cx')}
    table = table['table']

    groups = defaultdict(list)
    for c in cases:
        c['tot'] = [[num(x) for x in w] for w in c['tot']]
        c['sec'] = [[num(x) for x in w] for w in c['sec']]
        groups[(tuple(c['d']), c['p'], c['zs'], c['z'])].append(c)
    items = [sorted(g, key=lambda c: c['sh']) for g in groups.values()]
    chk.rng.shuffle(items)

    def medium(c, lam, u):
        """eta/zeta such that lambda=lam has the specified waves."""
        n = len(c['d'])+1
        ms = [pool[c['p']][(k+c['sh']) % 7] for k in range(n)]
        out = np.zeros((4, n), complex)
        for k, m in enumerate(ms):
            gm, ge = -np.log(m['em'])/u, -np.log(m['ee'])/u
            eH, zH = gm/m['zm'], ge*m['ze']
            eV = lam**2*eH/(gm**2-eH*zH)
            zV = lam**2*zH/(ge**2-eH*zH)
            out[:, k] = eH, eV, zH, zV
        return out.real if c['p'] == 're' else out

    TRIG = {'1': lambda t: 1., 'c1': np.cos, 's1': np.sin,
            'c2': lambda t: np.cos(2*t), 's2': lambda t: np.sin(2*t)}

    def expected(c, med, lam, r, th, b, a, field):
        """Integrand of component (receiver b, source a) at lam."""
        tot, mag = 0., 0.
        for t in table[b-1][a-1]:
            v = field[t['q']-1][t['port']-1]
            v *= t['k']/t['den']*TRIG[t['h']](th)*jv(t['m'], lam*r)
            for w, lay in ((t['ws'], c['ls']), (t['wr'], c['lr'])):
                if w:
                    v *= lam/med[1 if w == 'e' else 3, lay-1]
            tot += v
            mag += abs(v)
        return tot*lam/(2*math.pi), mag*lam/(2*math.pi)

    AB = [(b, a) for b in range(1, 7) for a in range(1, 7)]
    DBL = [11, 12, 21, 22, 14, 24, 15, 25]

    def replay(item):
        rng = chk.rng
        c0 = item[0]
        lam0 = rng.choice([1., .37, 2.1])
        u = rng.choice([1., 20., .3, 700., 3e4])
        lam = lam0/u
        med = [medium(c, lam, u) for c in item]
        eH, eV, zH, zV = (np.array([m[k] for m in med]) for k in range(4))
        depth = np.r_[-np.inf, np.array(c0['d'], float)*u]
        zs, zr = c0['zs']*u, c0['z']*u
        # The specified wavenumber among others, two offsets.
        nl, pos = rng.choice([(1, 0), (3, 0), (3, 2), (2, 1)])
        l1 = lam*np.exp(np.array([rng.uniform(-1, 1) for _ in range(nl)]))
        l2 = l1*1.1
        l1[pos] = lam
        l2[pos] = lam
        lambd = np.array([l1, l2])
        r = np.array([rng.uniform(.5, 3.), rng.uniform(.5, 3.)])/lam
        th = np.array([rng.uniform(-3, 3), rng.uniform(-3, 3)])
        lsrc, ls_z = utils.get_layer_nr([0., 0., zs], depth)
        lrec, _ = utils.get_layer_nr([0., 0., zr], depth)
        chk.check((lsrc, lrec) == (c0['ls']-1, c0['lr']-1), 'layer number',
                  dict(case=c0['d'], zs=c0['zs'], z=c0['z'],
                       got=(lsrc, lrec)))
        for b, a in AB if big else rng.sample(AB, 20):
            ab = 10*b+a
            calc, msrc, mrec = utils.check_ab(ab, 0)
            xd = rng.choice([False, False, True]) if c0['same'] else \
                rng.choice([False, True])
            if calc == 36:
                chk.check(not table[b-1][a-1], 'component is zero', ab)
                continue
            if xd and len(depth) == 1:
                continue
            J0, J1, J0b = kernel.wavenumber(
                zs, zr, lsrc, lrec, depth, eH.copy(), eV.copy(), zH.copy(),
                zV.copy(), lambd, calc, xd, msrc, mrec)
            ang = kernel.angle_factor(th, calc, msrc, mrec)
            for i, c in enumerate(item):
                fld = c['sec'] if xd and c['same'] else c['tot']
                for j in range(2):
                    exp, mag = expected(c, med[i], lam, r[j], th[j], b, a,
                                        fld)
                    got = 0.
                    x = lam*r[j]
                    if J0 is not None:
                        got += J0[i, j, pos]*jv(0, x)
                    if J1 is not None:
                        f = 1/r[j] if calc in DBL else 1.
                        got += ang[j]*f*J1[i, j, pos]*jv(1, x)
                    if J0b is not None:
                        got += ang[j]*J0b[i, j, pos]*jv(0, x)
                    chk.check(abs(got-exp) <= 1e-8*mag + 1e-290,
                              'wavenumber-domain response is not the solution '
                              'of the boundary-value problem',
                              dict(ab=ab, depth=c['d'], pool=c['p'],
                                   shift=c['sh'], zs=c['zs'], zr=c['z'],
                                   xdirect=xd, offset=j, got=got,
                                   expected=exp, scale=mag))
            chk.case((c0['d'], c0['p'], c0['zs'], c0['z'], ab, xd),
                     dict(d=c0['d'], pool=c0['p'], zs=c0['zs'], zr=c0['z'],
                          ab=ab))
        if c0['p'] == 're':
            routine(item, lam, u, med)

    def routine(item, lam, u, med):
        """The same through the user routine dipole_k (Laplace domain)."""
        rng = chk.rng
        c = item[0]
        m = med[0]
        s = rng.choice([1., .1, 30.])/emp.MU0
        # Share of the displacement currents.
        p = np.array([rng.choice([0., .3, .7]) for _ in range(m.shape[1])])
        q = np.array([rng.choice([0., .3, .7]) for _ in range(m.shape[1])])
        res = 1/((1-p)*m[0])
        rv = 1/((1-q)*m[1])
        d = np.array(c['d'], float)*u
        kw = dict(depth=d, res=res, aniso=np.sqrt(rv/res),
                  epermH=p*m[0]/s/emp.EPS0, epermV=q*m[1]/s/emp.EPS0,
                  mpermH=m[2]/s/emp.MU0, mpermV=m[3]/s/emp.MU0)
        if rng.random() < .4:
            kw = {k: np.r_[v[::-1]] for k, v in kw.items()}
            if d.size == 1:   # a single interface has no direction
                kw['depth'] = np.r_[np.inf, d]
        r = np.array([rng.uniform(.5, 3.), rng.uniform(.5, 3.)])/lam
        th = np.array([rng.uniform(-3, 3), rng.uniform(-3, 3)])
        x0 = rng.uniform(-5, 5)
        src = [x0, 1., c['zs']*u]
        rec = [x0+r*np.cos(th), 1+r*np.sin(th), c['z']*u]
        wn = lam*np.exp(np.array([rng.uniform(-1, 1) for _ in range(3)]))
        pos = rng.randrange(3)
        wn[pos] = lam
        off = np.sqrt((rec[0]-x0)**2 + (rec[1]-1)**2)
        angle = np.arctan2(rec[1]-1, rec[0]-x0)
        for b, a in AB if big else rng.sample(AB, 5):
            J0, J1 = empymod.dipole_k(src, rec, freq=-s, ab=10*b+a,
                                      wavenumber=wn, verb=0, **kw)
            for j in range(2):
                exp, mag = expected(c, m, lam, off[j], angle[j], b, a,
                                    c['tot'])
                x = lam*off[j]
                got = J0[j, pos]*jv(0, x) + J1[j, pos]*jv(1, x)
                chk.check(abs(got-exp) <= 1e-8*mag + 1e-290,
                          'dipole_k is not the solution of the boundary-value '
                          'problem', dict(ab=10*b+a, depth=c['d'],
                                          shift=c['sh'], zs=c['zs'],
                                          zr=c['z'], model=kw, got=got,
                                          expected=exp, scale=mag))
            chk.case(('k', c['d'], c['zs'], c['z'], 10*b+a))

    n = chk.parallel(replay, items, budget=600 if big else 45)
    chk.extra['geometries_replayed'] = n
    chk.extra['geometries'] = len(items)


if __name__ == '__main__':
    vlib.main('C13', run)
