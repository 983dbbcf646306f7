"""C17: time-domain signals, consistent among each other and with DC."""
import math

import vlib
import os
DEBUG = os.environ.get('DEBUG17')

L = math.log(2.)

# name: (ft, options given time unit and signal, largest permitted error for
#        impulse, on, off); about four times the largest error seen.
METH = {
    'dlf0': ('dlf', lambda u, s: {'pts_per_dec': 0}, [1e-12, 1e-6, 1e-12]),
    'dlfL': ('dlf', lambda u, s: {}, [8e-5]*3),
    'dlfS': ('dlf', lambda u, s: {'pts_per_dec': 20}, [4e-6]*3),
    'dlfcos': ('dlf', lambda u, s: {'pts_per_dec': 0, 'kind': 'cos'},
               [1e-12, 1e-6, 1e-12]),
    'sin81': ('dlf', lambda u, s: {'pts_per_dec': 0, 'dlf': 'key_81_2009'},
              [1e-8, 3e-4, 1e-8]),
    'qwe': ('qwe', lambda u, s: {}, [2e-3, 1e-2, 8e-3]),
    'qwe40': ('qwe', lambda u, s: {'pts_per_dec': 40, 'diff_quad': 10**9,
                                   'maxint': 100}, [2e-4, 1e-2, 8e-3]),
    'fftlog': ('fftlog', lambda u, s: {'pts_per_dec': 20, 'add_dec': [-4, 3]},
               [3e-6, 5e-3, 6e-4]),
    'fftlogq': ('fftlog', lambda u, s: {'pts_per_dec': 15, 'add_dec': [-4, 3],
                                        'q': [.3, -.3, .3][s]},
                [8e-6, 2e-4, 2e-4]),
    'fft': ('fft', lambda u, s: {'dfreq': 1e-3/u, 'nfreq': 2**14},
            [4e-3]*3),
    'fftint': ('fft', lambda u, s: {'dfreq': 1e-3/u, 'nfreq': 2**14,
                                    'pts_per_dec': 40, 'ntot': 2**15},
               [4e-3]*3),
}


def val(sig, t):
    """Value of a symbolic signal of Relax.tla at t (in units)."""
    e = sum(c*2.**(-n*t)*(n*L*t)**j/math.factorial(j) for n, j, c in sig['e'])
    return (sig['k']+e)*L**sig['l']


def run(chk):
    meths = '{' + ', '.join(f'"{m}"' for m in METH) + '}'
    full = dict(Rates='{1, 2, 3}', Orders='{1, 2, 3}', NMode=2,
                Stat='{0, 3}', Times='{1, 2, 3, 5}', Signals='{0, 1, 2}')
    NEG = ['MODULE MCRelax', 'EXTENDS Relax']
    NEG = '---- ' + NEG[0] + ' ----\n' + NEG[1] + '\nCoefsV == {-2, 1, 4}\n====\n'
    with open(vlib.SPEC + '/Relax.cfg') as f:
        base = f.read()
    sim = chk.tlc_start('MCRelax', cfg=base+'CONSTANT Coefs <- CoefsV\n',
                        files={'MCRelax.tla': NEG},
                        simulate=4000 if chk.thorough else 300, depth=14,
                        workers=4, consts=dict(full, NTime=4, Methods=meths))
    ex = chk.tlc_start('MCRelax', cfg=base.replace('Export', '') +
                       'CONSTANT Coefs <- CoefsV\n',
                       files={'MCRelax.tla': NEG}, workers=3,
                       consts=dict(full, NTime=1, Methods='{"x"}',
                                   Times='{1}', Signals='{0}'))
    import emp
    from emp import np, empymod, utils, model, transform
    cases = chk.tlc_wait(sim)['cases']
    chk.tlc_wait(ex)
    chk.extra['behaviours'] = len(cases)
    # Simulation repeats the final state of each trace only once; unique.
    cases = list({repr(c): c for c in cases}.values())
    chk.rng.shuffle(cases)

    def field(modes, c0, u):
        def F(f):
            s = 2j*np.pi*f*u/L
            return c0 + sum(m['c']/(1+s/m['n'])**m['m'] for m in modes)
        return F

    def call(meth, u, times, sig, fields, kind=None):
        ft, opt = METH[meth][:2]
        signal = {0: 0, 1: 1, 2: -1}[sig]
        time, freq, ft, targ, wf = utils.check_time(
            np.array(times)*u, signal, ft, opt(u, sig), 0, True)
        fEM = np.array([F(freq.ravel()) for F in fields]).T
        cpy = fEM.copy()
        out, conv = model.tem(fEM, np.ones(len(fields)), freq, time, wf, ft,
                              targ)
        chk.check(np.array_equal(fEM, cpy), 'tem: field modified', meth)
        return out

    # 1. Exact signals against the transforms.
    worst = {}

    def exact(c):
        meth, sig = c['meth'], c['sig']
        ms = list(c['modes']) + list(c['modes2'])
        if meth in ('fft', 'fftint') and sig != 0:
            return
        c0 = c['c0']
        if sig == 0 and meth in ('dlfcos', 'fft', 'fftint'):
            c0 = 0       # the impulse at time zero
        u = 10.**chk.rng.uniform(-6, 4)
        F = [field(c['modes'], c0, u)]
        if c['modes2']:
            F.append(field(c['modes2'], 0, u))
            F.append(lambda f: -2*F[0](f)+F[1](f))
        out = call(meth, u, c['want'], sig, F)
        ref = np.array([[val(c['val'], t), val(c['val2'], t)]
                        for t in c['want']])
        ref = np.c_[ref, ref @ [-2, 1]][:, :len(F)]
        su = 1/u if sig == 0 else 1.
        sc = sum(abs(m['c'])*(m['n'] if sig == 0 else 1.) for m in ms)*3+3
        err = np.abs(out/su-ref).max()/sc
        tol = METH[meth][2][sig]
        det = dict(case=c, unit=u, err=float(err), got=out/su, want=ref)
        chk.check(err < tol, f'{meth}: signal {sig} disagrees with the exact '
                  'response', det)
        key = (meth, sig, min(m['m'] for m in ms) == 1)
        worst[key] = max(worst.get(key, 0), float(err))
        if meth in ('qwe', 'qwe40') and err > 6e-4:
            chk.violation('qwe: frequencies do not reach low enough',
                          det, key='qwe:freq')
        if meth == 'fft' and err > 3e-4 and min(m['m'] for m in ms) > 1:
            chk.violation('fft: positive frequencies are misplaced',
                          det, key='fft:place')
        chk.case((meth, sig, c['want'], len(F)),
                 dict(meth=meth, sig=sig, want=c['want'], err=float(err)))

    if not DEBUG:
        chk.parallel(exact, cases, budget=chk.elapsed() +
                     (300 if chk.thorough else 10))
    if DEBUG:
        chk.check = lambda *a, **k: None
        chk.violation = lambda *a, **k: None
        for c in cases[:1500]:
            exact(c)
        for k in sorted(worst):
            print(k, '%.1e' % worst[k])

    # 2. FFTLog by its definition: discrete Fourier series in log(frequency),
    #    each harmonic multiplied by U_mu(q + 2 pi i m/(n dlnr)).
    from scipy.special import loggamma

    def definition(a, mu, q, dlnr, kr, rk):
        n = a.size
        jc = (n-1)/2
        k = np.arange(n)
        c = np.array([np.sum(a*np.exp(-(q-.5)*(k-jc)*dlnr) *
                             np.exp(-2j*np.pi*m*(k-jc)/n))/n
                      for m in range(-(n//2), n//2+1)])
        m = np.arange(-(n//2), n//2+1)
        x = 2j*np.pi*m/(n*dlnr)
        u = np.exp(x*np.log(2/kr)+q*np.log(2.)+loggamma((mu+1+q+x)/2) -
                   loggamma((mu+1-q-x)/2))
        w = np.ones(m.size)
        if n % 2 == 0:
            w[0] = w[-1] = .5
        o = np.array([np.sum(w*c*u*np.exp(-2j*np.pi*m*(kk-jc)/n)).real
                      for kk in k])
        return o*np.exp(-((q+.5)*(k-jc)*dlnr+q*np.log(kr)-np.log(rk)/2))

    def fftlog(it):
        q, ppd, dec, signal, times, seed = it
        r = np.random.RandomState(seed)
        time, freq, _, ta, _ = utils.check_time(
            times, signal, 'fftlog', {'q': q, 'pts_per_dec': ppd,
                                      'add_dec': dec}, 0, True)
        span = np.log10(times.max()/times.min())+dec[1]-dec[0]
        chk.check(abs(freq.size-span*ppd) <= 1, 'fftlog: points per decade',
                  dict(case=it, n=freq.size))
        f = r.standard_normal(freq.size) + 1j*r.standard_normal(freq.size)
        g = np.exp(-np.abs(np.log(freq*times.mean())))
        t, _ = transform.fourier_fftlog(f*g, ta['tcalc'], freq, ta)
        ref = definition((f*g).real if signal < 0 else -(f*g).imag,
                         ta['mu'], q, ta['dlnr'], ta['kr'], ta['rk'])
        tt = ta['tcalc']**1.
        sc = np.maximum.accumulate(np.abs(ref*tt))[-1]/tt
        chk.check(vlib.close(t, ref, 1e-7, scale=sc),
                  'fftlog differs from its definition',
                  dict(case=it, n=freq.size,
                       err=float(np.abs((t-ref)/sc).max())))
        chk.case(('fftlog', q, freq.size % 4, signal), dict(q=q, n=freq.size))

    items = []
    for q in (0, .4, -.6, 1e-7, .9):
        for ppd in (4, 5, 7, 10):
            for signal in (-1, 0, 1):
                n = chk.rng.choice([1, 2, 4])
                t = 10.**np.array([chk.rng.uniform(-5, 2)
                                   for _ in range(n)])
                dec = [-chk.rng.choice([1, 1.3, 2]), chk.rng.choice([1, .7, 2])]
                items.append((q, ppd, dec, signal, t,
                              chk.rng.randrange(10**6)))
    chk.parallel(fftlog, items)

    # 3. The layered computation: on + off = DC, derivatives, independence.
    def layered(it):
        var, n, ab, ft, seed = it
        r = np.random.RandomState(seed)
        st = emp.stack(n, var=var)
        for k in ('epermH', 'epermV'):      # diffusive
            st[k] = np.zeros(n)
        if n > 1 and var % 2:
            st['res'] = np.r_[1e12, st['res'][1:]]
        src = [0., 0., r.uniform(5, 150)]
        rec = [[r.uniform(300, 500)], [r.uniform(-200, 200)], r.uniform(5, 150)]
        t = 10.**np.sort(r.uniform(-3, 0, 2))
        if ft == 'qwe':     # its lowest frequency follows the latest time
            t[-1] = 3.
        r.shuffle(t)
        opt = METH[ft][1](float(np.median(t)), 1)
        inp = dict(src=src, rec=rec, ab=ab, verb=0, ht='dlf',
                   htarg={'dlf': 'key_101_2012', 'pts_per_dec': 0}, **st)
        tin = dict(inp, ft=METH[ft][0])
        o = {s: empymod.dipole(freqtime=t, signal=s, **dict(
                tin, ftarg=METH[ft][1](1., {1: 1, 0: 0, -1: 2}[s])))
             for s in (1, 0, -1)}
        dc = empymod.dipole(freqtime=1e-12, **inp).real.reshape(-1)
        o = {s: v.reshape(t.size, -1) for s, v in o.items()}
        # Largest field in the frequencies involved.
        sc = np.abs(empymod.dipole(freqtime=np.logspace(
            -3, 3, 13)/t.max(), **inp)).max(axis=0).reshape(-1)
        det = dict(case=it, t=t, on=o[1], off=o[-1], dc=dc)
        tol = {'dlf0': 1e-4, 'dlfL': 4e-4, 'qwe': 1e-1, 'fftlog': 1e-1,
               'fftlogq': 1e-1, 'dlfS': 2e-4}[ft]
        chk.check(vlib.close(o[1]+o[-1], np.broadcast_to(dc, o[1].shape),
                             tol, scale=sc), f'{ft}: on + off is not DC', det)
        # Derivatives (in log time).
        if ft == 'dlf0':
            h = .02
            grid = np.concatenate([t*np.exp(k*h) for k in (-2, -1, 1, 2)])
            for s in (chk.rng.choice((1, -1)), ):
                g = empymod.dipole(freqtime=grid, signal=s, **dict(
                    tin, ftarg=opt)).reshape(4, t.size, -1)
                d = (g[0]-8*g[1]+8*g[2]-g[3])/(12*h)/t[:, None]
                i0 = np.abs(o[0])+sc/t[:, None]
                chk.check(vlib.close(d, s*o[0], 2e-4, scale=i0),
                          f'{ft}: derivative of signal {s} is not the impulse '
                          'response', dict(det, d=d, imp=o[0]))
        # Sine and cosine transforms of the impulse response agree.
        if ft == 'dlf0':
            c = empymod.dipole(freqtime=t, signal=0, **dict(
                tin, ftarg={'pts_per_dec': 0, 'kind': 'cos'})).reshape(
                    t.size, -1)
            chk.check(vlib.close(c, o[0], 1e-4,
                                 scale=np.abs(o[0])+sc/t[:, None]),
                      'sine and cosine transform differ (causality)',
                      dict(det, c=c, imp=o[0]))
        # Other times requested at the same time do not matter.
        for s in (1, 0, -1)[:2 if ft == 'qwe' else 3]:
            one = np.array([empymod.dipole(freqtime=x, signal=s, **dict(
                tin, ftarg=METH[ft][1](1., {1: 1, 0: 0, -1: 2}[s])))
                for x in t]).reshape(t.size, -1)
            sc2 = sc if s else np.abs(o[0])+sc/t[:, None]
            chk.check(vlib.close(one, o[s], {'dlf0': 1e-12}.get(ft, tol),
                                 scale=sc2),
                      f'{ft}: signal {s} depends on other times',
                      dict(det, one=one, many=o[s]))
        chk.case(('layered', ab, ft, n), dict(ab=ab, ft=ft, n=n))

    # Not magnetic to magnetic: empymod's magnetic sources are of the form
    # i omega mu I A, for which the field is not finite at zero frequency.
    abs_ = [11, 22, 33, 13, 31, 12, 51, 42, 62, 15, 61, 34, 26, 53, 35]
    items = []
    for k in range(400 if chk.thorough else 14):
        items.append((chk.rng.randrange(7), chk.rng.choice([1, 2, 3, 4]),
                      abs_[k % len(abs_)],
                      chk.rng.choice(['dlf0', 'dlf0', 'dlfL', 'dlfS', 'qwe',
                                      'fftlog', 'fftlogq']),
                      chk.rng.randrange(10**6)))
    chk.parallel(layered, items, budget=chk.elapsed() +
                 (400 if chk.thorough else 15))

    # 4. Against the analytical diffusive half-space in the time domain.
    def half(it):
        ab, ft, s, seed = it
        r = np.random.RandomState(seed)
        res = 10**r.uniform(-1, 2)
        zs, zr, off = r.uniform(50, 300, 2).tolist()+[r.uniform(200, 2000)]
        t0 = 4e-7*np.pi*off**2/res
        t = t0*10.**r.uniform(-.7, .7, 3)
        rec = [off*np.cos(.7), off*np.sin(.7), zr]
        a = empymod.analytical([0, 0, zs], rec, res, t, 'dhs', signal=s,
                               ab=ab, verb=0)
        b = empymod.dipole([0, 0, zs], rec, 0, [2e14, res], t, signal=s,
                           ab=ab, ft=METH[ft][0], ftarg=METH[ft][1](
                               t0, {1: 1, 0: 0, -1: 2}[s]), verb=0,
                           epermH=[0, 0], epermV=[0, 0], ht='dlf',
                           htarg={'pts_per_dec': 0})
        dc = np.abs(empymod.analytical([0, 0, zs], rec, res, np.logspace(
            -3, 3, 13)/t0, 'dhs', ab=ab, verb=0)).max()
        sc = dc if s else np.abs(a)+dc/t
        tol = {'dlf0': 2e-4, 'dlfL': 4e-4, 'qwe': 1e-1, 'fftlog': 1e-1,
               'fftlogq': 1e-1, 'dlfS': 2e-4, 'sin81': 5e-3}[ft]
        chk.check(vlib.close(b, a, tol, scale=sc),
                  f'{ft}: half-space, signal {s}, ab {ab}',
                  dict(case=it, t=t, got=b, want=a, dc=dc,
                       err=float(np.abs((b-a)/sc).max())))
        chk.case(('half', ab, ft, s), dict(ab=ab, ft=ft, s=s))

    items = [(ab, ft, s, chk.rng.randrange(10**6))
             for ab in (11, 12, 21, 22, 13, 31, 23, 32, 33)
             for ft in ('dlf0', 'dlfL', 'dlfS', 'sin81', 'qwe', 'fftlog',
                        'fftlogq') for s in (-1, 0, 1)]
    chk.rng.shuffle(items)
    chk.parallel(half, items, budget=chk.elapsed() +
                 (200 if chk.thorough else 8))


if __name__ == '__main__':
    vlib.main('C17', run, 'model_checking')
