"""C16: adaptive transforms never claim convergence they did not reach."""
from fractions import Fraction

import vlib

WH = 'Hankel-quadrature did not converge'
WF = 'Fourier-quadrature did not converge'


def num(s):
    a, b, c = (int(x) for x in s.split())
    assert b == 0
    return Fraction(a, c)


def run(chk):
    K = ('{"alt1", "alt2", "mix", "slow", "grow", "noise", "fast", "late", '
         '"zero", "const", "geo", "stop"}')
    h = [chk.tlc_start('Adaptive', rat=True, workers=4, consts=dict(
        NOff=2, Kinds=K, MaxInts='{2, 3, 4, 5, 8}',
        Tols='{1, 2, 3, 4, 5, 7}' if chk.thorough else '{1, 3, 5}'))]
    h.append(chk.tlc_start(
        'Adaptive', rat=True, workers=4, mem='6g', consts=dict(
            NOff=3, Kinds=K if chk.thorough else
            '{"alt1", "zero", "noise", "late", "stop"}',
            MaxInts='{2, 3, 5, 7, 9}' if chk.thorough else '{2, 4, 6}',
            Tols='{2, 4}')))
    with open(vlib.SPEC + '/Adaptive.cfg') as f:
        cfg = f.read().replace('Export', 'Textbook')
    hl = [chk.tlc_start('Adaptive', cfg=cfg, rat=True, workers=2, consts=dict(
        NOff=1, Kinds=K, MaxInts='{8}', Tols='{5, 9}'))]
    hp = chk.tlc_start('Parts', workers=1)
    hl.append(chk.tlc_start('Report', workers=2, consts=dict(
        NElem=2, NFreq=1 if not chk.thorough else 2, NOff=2, NTime=2,
        Verbs='{0, 1}')))
    ha = chk.tlc_start('Agreement', workers=2,
                       consts=dict(Depth=3) if chk.thorough else {})
    import emp
    from emp import np, empymod, transform, utils
    cases = []
    for x in h:
        cases += chk.tlc_wait(x, timeout=900)['cases']
    parts = chk.tlc_wait(hp)['cases']
    agree = chk.tlc_wait(ha)['cases']
    agree = list({repr(c): c for c in agree}.values())
    chk.rng.shuffle(agree)
    parts = list({repr(c): c for c in parts}.values())
    for x in hl:
        chk.tlc_wait(x, timeout=900)
    chk.rng.shuffle(cases)
    chk.extra['qwe_behaviours_in_model'] = len(cases)

    # 1. QWE itself: replay the behaviours of the specification.
    def qwe(c):
        n = len(c['kinds'])
        ext = [[num(x) for x in e] for e in c['ext']]
        rtol = Fraction(1, 10**c['tol'])
        atol = Fraction(1, 10**c['atol']) if c['atol'] else Fraction(0)
        for e in ext:           # decisions that rounding could turn
            for a, b in zip(e, e[1:]):
                lhs, rhs = abs(b-a), rtol*abs(b)+atol
                if abs(lhs-rhs) < rhs*Fraction(1, 10**5):
                    return
                if b == 0:
                    return
        rot = chk.rng.choice([1., -1., 1j, np.exp(.7j)])
        exact = set(c['kinds']) & {'zero', 'const', 'geo', 'stop'}
        if exact:
            rot = chk.rng.choice([1., -1., 1j])
        off = np.array([chk.rng.choice([1., 2., .5, 4. if exact else 40.])
                        for _ in range(n)])
        xint = np.cumsum([chk.rng.choice([1., 2., .25])
                          for _ in range(c['maxint']+1)])
        inter = xint/off[:, None]
        w = np.diff(inter, axis=1)/2
        terms = np.array([[float(num(x)) for x in t] for t in c['terms']])
        inp = terms*rot/w
        if rot in (1., -1.):
            inp = inp.real
        lambd = np.arange(n*7.).reshape(n, 7)
        ang = np.arange(n)+.5
        calls = []

        def fn(i, lam, o, a):
            idx = [int(x[0]//7) for x in lam]
            calls.append((i, [k+1 for k in idx]))
            chk.check(np.array_equal(o, off[idx]) and
                      np.array_equal(a, ang[idx]),
                      'qwe: arguments of the kernel call', dict(case=c))
            return inp[idx, i].copy()

        for mode in ('array', 'function'):
            if mode == 'array':
                out = transform.qwe(float(rtol), float(atol), c['maxint'],
                                    inp.copy(), inter)
            else:
                out = transform.qwe(float(rtol), float(atol), c['maxint'], fn,
                                    inter, lambd, off, ang)
                want = [[int(i), list(o)] for i, o in
                        zip(range(len(c['calls'])), c['calls'])]
                chk.check([[i, o] for i, o in calls] == want,
                          'qwe: integrals evaluated per interval',
                          dict(case=c, got=calls, want=want))
                chk.check(out[1] == len(c['calls']), 'qwe: kernel count',
                          dict(case=c, got=out[1]))
            val = np.array([float(e[-1]) for e in ext])*rot
            conv = bool(out[2])
            det = dict(kinds=c['kinds'], maxint=c['maxint'], rtol=c['tol'],
                       atol=c['atol'], mode=mode, conv=conv, want=c['flag'],
                       got=out[0], value=val)
            if conv and not c['flag']:
                chk.violation('qwe claims convergence that was not reached',
                              det)
            elif c['flag'] and not conv:
                chk.violation('qwe reports missing convergence although all '
                              'integrals converged', det)
            chk.check(vlib.close(out[0], val, 1e-6,
                                 scale=np.abs(val)+np.abs(terms).max()*1e-3),
                      'qwe: extrapolated values', det)
        chk.case(('qwe', c['kinds'], c['maxint'], c['tol'], c['atol']),
                 dict(kinds=c['kinds'], maxint=c['maxint'], rtol=c['tol'],
                      flag=c['flag']))

    # 2. QUAD: which of the six parts misses its tolerance.
    def good(x):
        return np.exp(-np.exp(x))+1.

    def bad(x):
        return np.cos(2000*np.exp(x))*np.exp(2*x)

    def one(c, ab, off, limit):
        f = {}
        for k, s in c['st'].items():
            f[k] = (None, None) if s == 'absent' else (
                bad if s in ('re', 'both') else good,
                bad if s in ('im', 'both') else good)
        inp = dict(a=1e-3, b=3.+chk.rng.random(), epsabs=1e-12, epsrel=1e-7,
                   limit=limit)
        ang = chk.rng.choice([.3, -.8])
        v, conv = transform.quad(*f['J0'], *f['J1'], *f['J0b'], ab, off, ang,
                                 inp)
        missed = [(k, p) for k, s in c['st'].items() for p in ('re', 'im')
                  if s in (p, 'both')]
        det = dict(case=c, ab=ab, off=off, conv=bool(conv))
        if c['flag']:
            chk.check(conv, 'quad reports missing convergence although all '
                      'parts converged', det)
            # Value by Gauss-Legendre quadrature.
            x, w = np.polynomial.legendre.leggauss(200)
            x = (x+1)/2*(inp['b']-inp['a'])+inp['a']
            w = w/2*(inp['b']-inp['a'])
            from scipy.special import j0, j1
            g = good(np.log(x))
            ref = 0.
            if c['st']['J0'] != 'absent':
                ref += np.sum(w*g*j0(x*off))
            if c['st']['J1'] != 'absent':
                d = off if ab in (11, 12, 21, 22, 14, 24, 15, 25) else 1.
                ref += ang/d*np.sum(w*g*j1(x*off))
            if c['st']['J0b'] != 'absent':
                ref += ang*np.sum(w*g*j0(x*off))
            chk.check(abs(v-ref*(1+1j)) < 1e-6*(abs(ref)+1), 'quad: value',
                      dict(**det, got=v, want=ref*(1+1j)))
        elif conv:
            # Only imaginary parts missed: one finding per kernel.
            if all(p == 'im' for _, p in missed):
                for k, _ in missed:
                    chk.violation('quad claims convergence although the '
                                  f'imaginary part of {k} did not converge',
                                  det, key=f'quad:imag:{k}')
            else:
                chk.violation('quad claims convergence that was not reached',
                              det)
        chk.case(('quad', c['st'], ab))

    def quad(c):
        if all(s == 'absent' for s in c['st'].values()):
            return
        for ab in (11, 13, 24, 33):
            one(c, ab, chk.rng.choice([1., 3.5]), 30)

    # 3. Public calls: reported iff any of the integrals is.
    offs = [2., 20., 100., 700., 4000.]

    def text(fn, *a, **k):
        o = vlib.call(fn, *a, **k)
        if o.exc is not None:
            raise o.exc
        return o.value, WH in o.text, WF in o.text

    def joint(seed):
        rng = chk.rng
        no = rng.sample(offs, rng.choice([2, 3]))
        fr = rng.sample([.05, 1., 30.], rng.choice([1, 2]))
        model = dict(depth=[0., 60.], res=[1e3, 1., 20.])
        meth = rng.choice(['qwe', 'qwe', 'qwe-spline', 'quad'])
        if meth == 'qwe':
            ht, ha = 'qwe', dict(rtol=10.**-rng.choice([4, 6, 8]), atol=1e-30,
                                 nquad=51, maxint=rng.choice([4, 6, 9, 14]))
        elif meth == 'qwe-spline':
            ht, ha = 'qwe', dict(rtol=10.**-rng.choice([3, 5]), atol=1e-30,
                                 nquad=15, maxint=rng.choice([5, 9]),
                                 pts_per_dec=10,
                                 diff_quad=rng.choice([2., 30., 1e6]),
                                 limit=rng.choice([3, 100]))
        else:
            ht, ha = 'quad', dict(rtol=10.**-rng.choice([3, 6]), atol=1e-30,
                                  limit=rng.choice([2, 6, 12, 200]), a=1e-4,
                                  b=.5, pts_per_dec=8)
        ab = rng.choice([11, 13, 33, 24, 62, 26])
        kw = dict(ab=ab, ht=ht, htarg=ha, xdirect=rng.choice([False, True]),
                  verb=1, **model)
        zs, zr = 20., rng.choice([45., 80.])
        xy = [(o*np.cos(.4+i), o*np.sin(.4+i)) for i, o in enumerate(no)]
        single = {}
        for j, (x, y) in enumerate(xy):
            for f in fr:
                # The spline range depends on the offsets: keep it equal by
                # evaluating each offset twice when splines are used.
                _, w, _ = text(empymod.dipole, [0, 0, zs], [x, y, zr],
                               freqtime=f, **kw)
                single[j, f] = w
        rec = [np.array([p[0] for p in xy]), np.array([p[1] for p in xy]), zr]
        _, w, _ = text(empymod.dipole, [0, 0, zs], rec, freqtime=fr,
                       loop=rng.choice([None, 'off', 'freq']), **kw)
        want = any(single.values())
        det = dict(ab=ab, offs=no, freqs=fr, ht=ht, htarg=ha, rec=rec,
                   single={str(k): v for k, v in single.items()}, joint=w)
        if meth != 'qwe-spline':
            chk.check(w == want, 'convergence of a joint call is not that of '
                      'its single integrals', det)
        if len(set(single.values())) == 2:
            chk.extra['mixed_outcomes'] = chk.extra.get('mixed_outcomes', 0)+1
        kw0 = {**kw, 'verb': 0}
        o = vlib.call(empymod.dipole, [0, 0, zs], rec, freqtime=fr, **kw0)
        chk.check(o.text == '', 'a silenced call prints', dict(text=o.text))
        # Not reported: the value agrees with another transform.
        if not w and meth == 'qwe':
            a = o.value
            ref = {}
            for q in (ab, 11, 33, 24, 62, 26):
                if (q//10 > 3) == (ab//10 > 3) and (q % 10 > 3) == \
                        (ab % 10 > 3):
                    ref[q] = empymod.dipole(
                        [0, 0, zs], rec, freqtime=fr, ht='dlf', verb=0,
                        htarg=dict(dlf='wer_201_2018', pts_per_dec=0),
                        ab=q, xdirect=kw['xdirect'], **model)
            sc = np.maximum(abs(ref[ab]), 1e-2*np.max(
                [abs(v) for v in ref.values()], axis=0))
            tol = max(2e-2, 300*ha['rtol'])
            chk.check(vlib.close(a, ref[ab], tol, scale=sc),
                      'no missing convergence reported, but the value differs '
                      'from that of other transforms',
                      dict(**det, got=a, dlf=ref[ab]))
            chk.extra['agree_with_dlf'] = chk.extra.get('agree_with_dlf', 0)+1
        chk.case(('joint', meth, ab, str(no), str(fr), str(ha)), det)

    def methods(c):
        """Several methods for one component; none reports -> all agree."""
        rng = chk.rng
        tight = dict(rtol=1e-6, atol=1e-30)
        par = dict(
            dlf=('dlf', dict(dlf='wer_201_2018')),
            qwe=('qwe', dict(nquad=51, maxint=60, **tight)),
            quad=('quad', dict(limit=500, a=1e-6, b=.6, pts_per_dec=60,
                               **tight)))
        par['qwe-spline'] = ('qwe', dict(par['qwe'][1], pts_per_dec=60))
        par['qwe-quad'] = ('qwe', dict(par['qwe'][1], pts_per_dec=60, limit=500,
                                       a=1e-6, b=.6,
                                       diff_quad=rng.choice([.1, 3., 10.])))
        x = [80., -130.][:c['noff']]
        y = [50., 20.][:c['noff']]
        kw = dict(src=[0, 0, 20.], rec=[x, y, rng.choice([45., 70.])],
                  freqtime=rng.choice([[1.], [.3, 3.]]), ab=c['ab'], verb=1,
                  depth=[0., 60.], res=[1e3, 1., 20.], aniso=[1., 1.5, 1.],
                  xdirect=False if c['direct'] else rng.choice([None, True]),
                  loop=rng.choice([None, 'off', 'freq']))
        out = {}
        for m in c['walk']:
            v, w, _ = text(empymod.dipole, ht=par[m][0], htarg=par[m][1], **kw)
            chk.check(m != 'dlf' or not w, 'digital filtering reports missing '
                      'convergence', dict(case=c))
            if not w:
                out[m] = v
            k = 'not_converged' if w else 'converged'
            chk.extra[k] = chk.extra.get(k, 0)+1
        for m in out:
            a, b = out[m], next(iter(out.values()))
            chk.check(vlib.close(a, b, 2e-3, scale=np.maximum(
                abs(b), 1e-2*np.max(abs(b)))),
                      'no missing convergence reported, but the methods '
                      f'disagree: {m} and {next(iter(out))}',
                      dict(case=c, kw=kw, got=out))
        chk.case(('methods', c['ab'], c['direct'], c['noff'], c['walk']), c)

    def forced(_):
        """Tolerances that cannot be met have to be reported, at each level"""
        rng = chk.rng
        model = dict(depth=[0., 60.], res=[1e3, 1., 20.])
        okh = dict(ht='dlf', htarg=dict(dlf='key_101_2009'))
        badh = rng.choice([
            dict(ht='qwe', htarg=dict(rtol=1e-12, atol=0., nquad=5,
                                      maxint=2)),
            dict(ht='qwe', htarg=dict(rtol=1e-13, atol=0., nquad=5,
                                      maxint=4)),
            dict(ht='qwe', htarg=dict(rtol=1e-13, atol=0., nquad=5, maxint=4,
                                      pts_per_dec=10, diff_quad=10**9)),
            dict(ht='quad', htarg=dict(rtol=1e-13, atol=0., limit=1, a=1e-5,
                                       b=1., pts_per_dec=8)),
            dict(ht='qwe', htarg=dict(rtol=1e-13, atol=0., nquad=5, maxint=5,
                                      pts_per_dec=10, diff_quad=1e-30,
                                      limit=1, a=1e-4, b=1.))])
        badf = rng.choice([
            dict(ft='qwe', ftarg=dict(rtol=1e-13, atol=0., maxint=3,
                                      nquad=5, diff_quad=10**9)),
            dict(ft='qwe', ftarg=dict(rtol=1e-13, atol=0., maxint=4,
                                      nquad=5, diff_quad=0, limit=1))])
        okf = rng.choice([
            dict(ft='dlf', ftarg=dict(dlf='key_81_2009')),
            dict(ft='fftlog'),
            dict(ft='qwe', ftarg=dict(rtol=1e-4, atol=1e-12, maxint=200,
                                      pts_per_dec=20))])
        src, rec = [0, 0, 20.], [[90., 200.], [30., -80.], 45.]
        fn = rng.choice(['dipole', 'bipole', 'loop'])
        for hb in (False, True):
            for fb in (None, False, True):
                for verb in (0, 1, 2):
                    kw = dict(badh if hb else okh, verb=verb, **model)
                    if fb is None:
                        kw['freqtime'] = [.5, 3.]
                    else:
                        kw.update(freqtime=[1., 2.], signal=rng.choice(
                            [0, -1, 1]), **(badf if fb else okf))
                    if fn == 'dipole':
                        _, w, v = text(empymod.dipole, src, rec, **kw)
                    elif fn == 'bipole':
                        _, w, v = text(empymod.bipole, [*src, 0, 0],
                                       [*rec, 0, 0], **kw)
                    else:
                        _, w, v = text(empymod.loop, [*src, 0, 90],
                                       [*rec, 0, 0], **kw)
                    det = dict(fn=fn, kw=kw, warned=(w, v))
                    chk.check(w == (hb and verb > 0),
                              'report of the Hankel transform', det)
                    chk.check(v == (bool(fb) and verb > 0),
                              'report of the Fourier transform', det)
                    chk.case(('forced', fn, hb, fb, verb, str(kw)), det)

    # 4. Fourier QWE: flag of all times = conjunction of the single ones.
    def fourier(_):
        rng = chk.rng
        time = 10**np.sort([rng.uniform(-3, 3) for _ in range(6)])
        kind = rng.choice(['sin', 'cos'])
        ftarg = dict(rtol=10.**-rng.choice([2, 3, 5, 8]), atol=1e-20,
                     nquad=rng.choice([9, 21]), maxint=rng.choice([4, 6, 12,
                                                                   40]),
                     pts_per_dec=20, diff_quad=rng.choice([1.5, 50., 50.,
                                                           1e5, 1e5]),
                     a=None, b=None, limit=rng.choice([1, 2, None, 100]))
        ftarg['sincos'] = getattr(np, kind)
        freq = np.logspace(-6, 4, 200)
        s = 2j*np.pi*freq
        fEM = rng.choice([1/(1+s), np.exp(-np.sqrt(s)), 1/(1+s)**2,
                          np.exp(-np.sqrt(s))/(1+.1*s)])
        flags, vals = [], []
        for t in time:
            a, c = transform.fourier_qwe(fEM.copy(), np.array([t]), freq,
                                         dict(ftarg))
            flags.append(bool(c))
            vals.append(a[0])
        # All times, and pairs, preferably of different outcome.
        sets = [list(range(6))]
        pairs = [[i, j] for i in range(6) for j in range(6) if i != j]
        rng.shuffle(pairs)
        pairs.sort(key=lambda p: flags[p[0]] == flags[p[1]])
        for ii in sets+pairs[:8]:
            v, conv = transform.fourier_qwe(fEM.copy(), time[ii], freq,
                                            dict(ftarg))
            fl = [flags[i] for i in ii]
            va = np.array([vals[i] for i in ii])
            det = dict(time=time[ii], ftarg=str(ftarg), flags=fl,
                       conv=bool(conv))
            chk.check(bool(conv) == all(fl), 'convergence of several times is '
                      'not that of the single ones', det)
            chk.check(vlib.close(v, va, 1e-6, scale=np.abs(va)+1e-12),
                      'times are not independent of each other',
                      dict(**det, got=v, single=va))
            if len(set(fl)) == 2:
                chk.extra['mixed_outcomes'] = chk.extra.get(
                    'mixed_outcomes', 0)+1
        chk.case(('fourier', str(ftarg), str(time)))

    # 5. The same for several receivers in the time domain.
    def receivers(_):
        rng = chk.rng
        ftarg = dict(rtol=10.**-rng.choice([2, 3, 4, 6]), atol=1e-30,
                     nquad=11, maxint=rng.choice([6, 12, 30]), pts_per_dec=10,
                     diff_quad=rng.choice([50., 1e5]),
                     limit=rng.choice([1, 2, 100]))
        kw = dict(depth=[0., 60.], res=[1e3, 1., 20.], ht='dlf',
                  htarg=dict(dlf='key_51_2012'), ft='qwe', ftarg=ftarg,
                  ab=rng.choice([11, 33, 13, 62]), verb=1,
                  signal=rng.choice([-1, 0, 1]), xdirect=rng.choice(
                      [False, True]),
                  freqtime=[10.**rng.uniform(-3, 1)
                            for _ in range(rng.choice([1, 2]))])
        xs = rng.sample(offs, 3)
        fn = rng.choice(['dipole', 'bipole'])

        def warned(x):
            r = [np.array(x), .3*np.array(x), 80.]
            if fn == 'dipole':
                return text(empymod.dipole, [0, 0, 20.], r, **kw)[2]
            k = {i: j for i, j in kw.items() if i != 'ab'}
            return text(empymod.bipole, [0, 0, 20., 10, 20],
                        [*r, 30, 5], **k)[2]

        single = [warned([x]) for x in xs]
        for ii in ([0, 1, 2], [2, 1, 0], [1, 2, 0], [1, 0], [2, 1], [0, 2]):
            w = warned([xs[i] for i in ii])
            want = any(single[i] for i in ii)
            chk.check(w == want, 'convergence of a joint call is not that of '
                      'its single receivers',
                      dict(fn=fn, kw=kw, offsets=[xs[i] for i in ii],
                           single=[single[i] for i in ii], joint=w))
        if len(set(single)) == 2:
            chk.extra['mixed_receivers'] = chk.extra.get(
                'mixed_receivers', 0)+1
        chk.case(('receivers', fn, str(kw), str(xs)))

    quick = not chk.thorough
    n = 0
    for fn, items, q, th in ((quad, parts, 4, 60),
                             (qwe, cases, 7, 200),
                             (forced, range(300), 7, 120),
                             (fourier, range(4000), 4, 120),
                             (receivers, range(4000), 5, 120),
                             (methods, agree, 8, 100),
                             (joint, range(9000), 8, 200)):
        n += chk.parallel(fn, items, budget=chk.elapsed()+(q if quick else th))
    chk.extra['cases_replayed'] = n
    del utils, emp


if __name__ == '__main__':
    vlib.main('C16', run, 'model_checking')
