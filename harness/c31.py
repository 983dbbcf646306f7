"""C31: user functions replace exactly what they return."""
import vlib


def run(chk):
    t = chk.thorough
    hx = chk.tlc_start('Hooks', workers=6)
    import copy
    import emp
    from emp import np, empymod, EPS0, MU0
    TH, TF = emp.tiny_hankel(4, 'hk', 1), emp.tiny_fourier(3, 'hk', 1)
    OPT = dict(ht='dlf', htarg={'dlf': TH, 'pts_per_dec': 0}, ft='dlf',
               ftarg={'dlf': TF, 'pts_per_dec': 0})
    F0 = 50.

    # Values of the user's layers 1, 2, ..., and extra values.
    base = dict(res=[3., 20., .8, 9.], aniso=[1.4, 1., 2., 1.2],
                epermH=[1e5, 3e5, 1e4, 7e5], epermV=[2e5, 1e5, 6e5, 3e4],
                mpermH=[1., 2., 1.3, 4.], mpermV=[1.2, 1., 3., 2.])
    same = dict(res=3., aniso=1.4, epermH=1e5, epermV=2e5, mpermH=1.5,
                mpermV=1.2)
    extra = dict(m=[1.7, .6, 2.5, 3.1], n=[2.2, 1.3, .4, 5.])
    DEP = [0., 40., 75.]

    def layers(q):
        n = q['n']
        if q['homogeneous']:
            b = {k: [v]*n for k, v in same.items()}
        else:
            b = {k: v[:n] for k, v in base.items()}
        if q['r'] == 'analytical dhs':
            for k in ('mpermH', 'mpermV', 'epermH', 'epermV'):
                del b[k]
        d = DEP[:n-1]
        up = q['lay'].startswith('up')
        if up:
            d = d[::-1]
        if q['lay'] == 'down, bounded':
            d = [-np.inf]+d if n % 2 else d+[np.inf]
        elif q['lay'] == 'up, bounded':
            d = [np.inf]+d if n % 2 else d+[-np.inf]
        return b, d

    def DEF(q, k):
        # Diffusive solutions ignore electric permittivities.
        return float(q['r'] != 'analytical dhs' or not k.startswith('eperm'))

    def times(q):
        if q['dom'] == 't':
            return [.004, .0011]
        f = [60., 7.]
        return [-x for x in f] if q['dom'] == 's' else f

    def call(q, var, depth, ft, med, signal, bandpass):
        """The routine; med are the layer parameters, incl. res."""
        kw = dict(med, freqtime=ft, verb=0, squeeze=False)
        if signal is not None or q['dom'] == 't':
            kw['signal'] = signal
        if q['r'].startswith('ana'):
            kw.update(src=[0, 0, 12.], rec=[[50., 80.], [20., -35.], 30.],
                      ab=var['ab'], solution=q['r'][-3:].strip())
            return vlib.call(empymod.analytical, **kw)
        kw['depth'] = depth
        if q['r'] == 'gpr':
            kw.pop('squeeze')
            kw.pop('signal', None)
            kw.update(src=[0, 0, 12.], rec=[[50., 80.], [20., -35.], 48.],
                      ab=var['ab'], cf=900., ht='dlf', htarg=OPT['htarg'],
                      ftarg=dict(dfreq=90., nfreq=5, ntot=16))
            return vlib.call(empymod.gpr, **kw)
        kw.update(OPT)
        if bandpass is not None:
            kw['bandpass'] = bandpass
        if q['r'] == 'dipole':
            kw.update(src=[[0, 5.], [0, 9.], 12.],
                      rec=[[50., 80.], [20., -35.], 48.], ab=var['ab'],
                      xdirect=var['xdirect'])
            return vlib.call(empymod.dipole, **kw)
        kw['mrec'] = var['mrec']
        kw['xdirect'] = var['xdirect']
        rec = [[50., 80.], [20., -35.], [48., 90.], 40., 20.]
        if q['r'] == 'loop':
            return vlib.call(empymod.loop, src=[0., 0., 12., 30., 70.],
                             rec=rec, **kw)
        return vlib.call(empymod.bipole, src=[0., 0., [12., 55.], 30., 20.],
                         rec=rec, msrc=var['msrc'], **kw)

    def shift(kind, x, s):
        """Factor of a function with extra value x."""
        if kind in ('scale', 'inplace'):
            return x
        return 1+x*s/F0     # frequency dependent

    def medium(q, c, s, ft):
        """Layer parameters (top to bottom) without any function.

        s is i f or the (positive) Laplace value; for one frequency.
        """
        b, _ = layers(q)
        m = {k: [] for k in ('res', 'aniso', 'epermH', 'epermV', 'mpermH',
                             'mpermV')}
        for e, z in zip(c['eta'], c['zeta']):
            i = e['base']-1
            v = {k: b[k][i] if k in b else 1. for k in m}
            if q['dom'] == 't':
                # Real factors only.
                fh = fv = 1.
                if e['by']:
                    fh = extra['m'][e['by']-1]
                    fv = extra['n'][e['by']-1]
                w = dict(v, res=v['res']/fh, aniso=v['aniso']*(fh/fv)**.5,
                         epermH=v['epermH']*fh, epermV=v['epermV']*fv)
            else:
                om = (2*np.pi if q['dom'] == 'f' else 1)*s
                hh = 1/v['res']+om*EPS0*v['epermH']
                hv = 1/(v['res']*v['aniso']**2)+om*EPS0*v['epermV']
                if e['by']:
                    hh = hh*shift(q['eta'], extra['m'][e['by']-1], s)
                    hv = hv*shift(q['eta'], extra['n'][e['by']-1], s)
                w = dict(v)
                if q['dom'] == 'f':
                    w['res'] = 1/hh.real
                    w['aniso'] = (hh.real/hv.real)**.5
                    w['epermH'] = hh.imag/(abs(om)*EPS0)
                    w['epermV'] = hv.imag/(abs(om)*EPS0)
                else:
                    w['res'], w['aniso'] = 1/hh, (hh/hv)**.5
                    w['epermH'] = w['epermV'] = 0.
            if z['by']:
                # Real factors only.
                w['mpermH'] *= shift(q['zeta'], extra['n'][z['by']-1], abs(s))
                w['mpermV'] *= shift(q['zeta'], extra['m'][z['by']-1], abs(s))
            for k in m:
                m[k].append(float(w[k]))
        return m

    def arrays(q, terms, freq, which):
        """etaH, etaV or zetaH, zetaV of symbolic terms."""
        b, _ = layers(q)
        s = freq if q['dom'] == 's' else 1j*freq
        om = s if q['dom'] == 's' else 2*np.pi*s
        H = np.zeros((len(freq), q['n']), dtype=om.dtype)
        V = H.copy()
        for k, term in enumerate(terms):
            i = term['base']-1
            g = {p: b[p][i] if p in b else DEF(q, p) for p in base}
            if which == 'eta':
                h = 1/g['res']+om*EPS0*g['epermH']
                v = 1/(g['res']*g['aniso']**2)+om*EPS0*g['epermV']
                x, y, ss = 'm', 'n', s
            else:
                h, v = om*MU0*g['mpermH'], om*MU0*g['mpermV']
                x, y, ss = 'n', 'm', abs(s)
            if term['by']:
                h = h*shift(q[which], extra[x][term['by']-1], ss)
                v = v*shift(q[which], extra[y][term['by']-1], ss)
            H[:, k], V[:, k] = h, v
        return H, V

    def near(a, b, rtol=1e-9):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.all(
            np.abs(a-b) <= rtol*np.abs(b).max(initial=0)))

    def one(c, var):
        q, errs, seen = c['req'], [], []
        b, depth = layers(q)
        ft = times(q)
        signal = var['signal'] if q['dom'] == 't' else None
        log = {x['f']: x for x in c['log']}

        def see(name, inp, p):
            """What a function is given."""
            e = log.get(name)
            seen.append(name)
            if e is None:
                errs.append(f'{name}: called, but not given')
                return
            if q['dict'] and name != 'band':
                for k, v in dict(res=b['res'], m=extra['m'],
                                 n=extra['n']).items():
                    w = [v[i-1] for i in e['inp']]
                    if k not in inp or not near(inp[k], w):
                        errs.append(f'{name}: sees {k} {inp.get(k)}, not {w}')
                if inp.get('own') is not None:
                    errs.append(f'{name}: unexpected entry')
            f = p.get('freq')
            if f is None:
                errs.append(f'{name}: frequencies missing')
                return
            for w in ('eta', 'zeta'):
                # (Diffusive solutions know no magnetic permeability; in the
                # time domain their <freq> is of no relevance.)
                if q['r'] == 'analytical dhs' and q['dom'] == 't':
                    continue
                H, V = arrays(q, e[w], np.ravel(f), w)
                for k, v in ((w+'H', H), (w+'V', V)):
                    if k not in p or not near(p[k], v):
                        errs.append(f'{name}: sees {k} {p.get(k)}, not {v}')

        def medfunc(name, x, y):
            def func(inp, p):
                H, V = p[name+'H'], p[name+'V']
                see(name, inp, p)
                kind = q[name]
                if kind == 'same':
                    return H, V
                if kind == 'inplace':
                    H *= np.asarray(inp[x])
                    V *= np.asarray(inp[y])
                    return H, V
                if kind == 'scale':
                    return H*inp[x], V*inp[y]
                s = np.ravel(p['freq'])[:, None]
                if q['dom'] == 'f' and name == 'eta':
                    s = 1j*s
                return (H*(1+np.asarray(inp[x])*s/F0),
                        V*(1+np.asarray(inp[y])*s/F0))
            return func

        keep = {}

        def band(inp, p):
            see('band', inp, p)
            if inp.get('own') != 'mine':
                errs.append('band: the dictionary is another one')
            EM = p.get('EM')
            if EM is None:
                errs.append('band: EM missing')
                return
            keep['EM'], keep['freq'] = EM.copy(), np.ravel(p['freq']).copy()
            if q['band'] == 'scale':
                EM *= 2.5
            elif q['band'] == 'first':
                # Frequencies of the first time only (see below).
                f = np.ravel(p['freq']).copy()
                use = np.zeros(f.size)
                for x in TF.base/(2*np.pi*ft[0]):
                    use[np.argmin(np.abs(f-x))] = 1
                EM *= use[:, None]

        med = {k: v for k, v in b.items()}
        if q['dict']:
            med['res'] = dict(res=b['res'], m=extra['m'][:q['n']],
                              n=extra['n'][:q['n']])
            if q['eta'] != 'none':
                med['res']['func_eta'] = medfunc('eta', 'm', 'n')
            if q['zeta'] != 'none':
                med['res']['func_zeta'] = medfunc('zeta', 'n', 'm')
        if q['r'].startswith('ana'):
            # One layer.
            med = {k: v if k == 'res' else v[0] for k, v in med.items()}
        bp = None
        if q['band'] != 'none':
            bp = {'func': band, 'own': 'mine'}
        before = copy.deepcopy((med, {k: v for k, v in (bp or {}).items()}))
        o = call(q, var, depth, ft, med, signal, bp)
        if not o.ok:
            return [f'raised {o.exc!r}']
        if repr(before[0]) != repr(med) or repr(before[1]) != repr(bp or {}):
            errs.append(f'the model of the user changed to {med}')
        # Which functions have been called, in which order.
        want = [x['f'] for x in c['log']]
        if list(dict.fromkeys(seen)) != want:
            errs.append(f'functions called: {seen}, not {want}')
        if seen.count('band') > 1:
            errs.append('filter function called more than once')
        # The field of the replaced medium.
        dd = sorted(x for x in depth if np.isfinite(x))

        def single(ft, signal, s):
            m = medium(q, c, s, ft)
            d = dd
            if q['r'].startswith('ana'):
                m = {k: v[0] for k, v in m.items()}
            elif q['dict']:
                # Models with functions are never treated as full-spaces.
                if q['n'] == 1:
                    d, m = [300.], {k: [v[0], v[0]] for k, v in m.items()}
                m['res'][0] *= 1+1e-13
            return call(q, var, d, ft, m, signal, None)

        if q['dom'] == 't':
            w = single(ft, signal, 1)
            if not w.ok:
                return errs+[f'without functions: {w.exc!r}']
            w = np.array(w.value)
        else:
            ws = [single([f], None, 1j*f if f > 0 else -f) for f in ft]
            if not all(w.ok for w in ws):
                return errs+[f'without functions: {[w.exc for w in ws]}']
            w = np.concatenate([np.array(w.value) for w in ws])
        if 'EM' in keep:
            # What the filter function saw is the frequency-domain field.
            f = keep['freq']
            if q['dom'] != 't':
                e = w
            else:
                e = single(list(f), None, 1)
                e = np.array(e.value) if e.ok else np.zeros(0)
            if keep['EM'].shape != (f.size, e.size//f.size) or not near(
                    keep['EM'], e.reshape((f.size, -1), order='F'), 1e-8):
                errs.append('the filter function does not see the '
                            'frequency-domain field')
            if q['band'] == 'scale':
                w = w*2.5
            elif q['band'] == 'first':
                w[1:] = 0.
        g = np.asarray(o.value)
        if g.shape != w.shape:
            errs.append(f'shape {g.shape} is not {w.shape}')
        elif not np.all(np.abs(g-w) <= 1e-7*np.abs(w).max()):
            errs.append(f'{g.ravel()[:4]} is not {w.ravel()[:4]}')
        return errs

    def work(it):
        c, var = it
        chk.case(str(sorted(c['req'].items()))+str(sorted(var.items())), None)
        for e in one(c, var):
            chk.violation(f"{c['req']['r']} {e}"[:500],
                          dict(request=c['req'], options=var),
                          key=f"{c['req']['r']}:{e[:16]}")

    cases = chk.tlc_wait(hx, 600)['cases']
    rng = chk.rng
    rng.shuffle(cases)
    # Time-domain responses of homogeneous analytical models are slow.
    per = dict(dipole=130, bipole=90, loop=60, gpr=50)
    per.update({'analytical fs': 40, 'analytical dhs': 40})
    items = []
    for r, n in per.items():
        for c in [c for c in cases if c['req']['r'] == r][:n*(12 if t else 1)]:
            ab = rng.choice([11, 12, 13, 31, 33, 22])
            if r in ('dipole', 'gpr', 'analytical fs'):
                ab = rng.choice([11, 13, 32, 33, 14, 24, 26, 42, 51, 35, 44,
                                 46, 55, 66, 62])
            few = c['req']['n'] == 1 or c['req']['homogeneous']
            # (There is no secondary field in homogeneous models.)
            items.append((c, dict(
                ab=ab, xdirect=rng.choice([True, False, True if few else None]),
                mrec=rng.choice([True, 'b', 'b', 'j', False]),
                msrc=rng.choice([True, False, 'b']),
                signal=rng.choice([0, 1, -1]))))
    rng.shuffle(items)
    chk.traces += len(items)
    chk.parallel(work, items, budget=chk.elapsed()+(600 if t else 50))


if __name__ == '__main__':
    vlib.main('C31', run, 'model_checking')
