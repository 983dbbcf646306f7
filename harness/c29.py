"""C29: in-phase/quadrature and GPR helpers follow their definition."""
import vlib


def run(chk):
    t = chk.thorough
    hx = chk.tlc_start('Helpers', workers=3, consts=dict(
        Params='{"aniso", "mpermH"}' if t else '{}'))
    hs = chk.tlc_start('Helpers', workers=2, depth=12,
                       simulate=30000 if t else 2500, consts=dict(
                           Rout='{"ipq"}'))
    hg = chk.tlc_start('Helpers', workers=2, depth=12,
                       simulate=20000 if t else 1500, consts=dict(
                           Rout='{"gpr"}'))
    import emp
    from emp import np, empymod, transform
    TH = emp.tiny_hankel(6, 'helpers', 2)
    gains = dict(none=None, zero=0, half=.5, one=1, neg=-.7)
    ftarg = dict(dfreq=1e4, nfreq=12, ntot=64)
    dt = 1/(2*64*1e4)

    def model(q):
        """Layers, survey and options of a request."""
        n = q['n']
        m = dict(depth=[0., 60., 95.][:n-1], res=[20., 3., 50.][:n])
        vals = dict(aniso=[1.6, 1., 2.], epermH=[4e2, 2e2, 9e2],
                    epermV=[3e2, 8e2, 1e2], mpermH=[1.7, 1., 2.],
                    mpermV=[1.2, 2., 3.])
        for k, f in q['forms'].items() if q['forms'] else ():
            if f == 'list':
                m[k] = vals[k][:n]
        m['src'] = [[0., 4.][:q['nsrc']], [0., 7.][:q['nsrc']], 5.]
        m['rec'] = [[30., 45.][:q['nrec']], [20., -25.][:q['nrec']], 8.]
        if n == 1:
            m['rec'][2] = 5.5
        return m

    def ipq(q, ask, out):
        m = model(q)
        frq = [900., 4000.][:q['nf']]
        if q['dom'] == 's':
            frq = [-f for f in frq]
        kw = dict(m, freqtime=frq, ht='dlf', verb=0,
                  htarg={'dlf': TH, 'pts_per_dec': 0})
        if q['ab']:
            kw['ab'] = str(q['ab']) if q['str'] else q['ab']
        if q['signal'] != 'none':
            kw['signal'] = dict(zero=0, on=1, off=-1)[q['signal']]
        scale = 1e3
        if q['scale'] == 'oth':
            scale = kw['scale'] = -2.5
        o = vlib.call(empymod.model.ip_and_q, **kw)
        if out == 'refused':
            return [] if isinstance(o.exc, ValueError) else [
                f'not refused: {o.exc!r}']
        if not o.ok:
            return [f'raised {o.exc!r}']
        # Requested fields.
        s, p = ask
        kw = {k: v for k, v in kw.items() if k != 'scale'}
        Hs = empymod.dipole(**{**kw, 'ab': s['ab'], 'xdirect': None,
                               'squeeze': False})
        first = {k: kw[k][0] for k in vals_keys if k in kw}
        Hp = empymod.analytical(m['src'], m['rec'], kw['res'][0], frq,
                                ab=p['ab'], verb=0, squeeze=False, **first)
        w = np.squeeze(scale*np.asarray(Hs)/np.asarray(Hp))
        errs = []
        if not isinstance(o.value, tuple) or len(o.value) != 2:
            return ['not two values']
        for name, g, e in (('in-phase', o.value[0], w.real),
                           ('quadrature', o.value[1], w.imag)):
            g = np.asarray(g)
            if g.shape != e.shape:
                errs.append(f'{name}: shape {g.shape} is not {e.shape}')
            elif np.iscomplexobj(g):
                errs.append(f'{name}: complex')
            elif not np.all(np.abs(g-e) <= 1e-9*np.abs(w)+1e-300):
                errs.append(f'{name}: {g.ravel()} is not {e.ravel()}')
        return errs

    vals_keys = ['aniso', 'epermH', 'epermV', 'mpermH', 'mpermV']

    def gpr(q, ask, ops, out):
        m = model(q)
        # Times, on and off the grid of the transform.
        times = np.array([7, 20.3][:q['nt']])*dt
        fa = dict(ftarg)
        if q['sparse']:
            fa['pts_per_dec'] = 12
        kw = dict(m, freqtime=times, cf=6e4, ab=q['ab'], ht='dlf', verb=0,
                  htarg={'dlf': TH, 'pts_per_dec': 0}, ftarg=fa)
        if q['ft'] != 'def':
            kw['ft'] = q['ft']
        if q['gain'] != 'none':
            kw['gain'] = gains[q['gain']]
        x = dict(yes=True, none=None, **{'def': False})[q['xdirect']]
        if q['xdirect'] != 'def':
            kw['xdirect'] = x
        o = vlib.call(empymod.gpr, **kw)
        if not o.ok:
            return [f'raised {o.exc!r}']
        # The field is asked for at the frequencies of the transform.
        if q['sparse']:
            lo, hi = np.log10(fa['dfreq']), np.log10(12*fa['dfreq'])
            nr = int((hi-lo)*12+1)
            frq = np.logspace(lo, hi, nr)
        else:
            frq = np.arange(1, 13)*fa['dfreq']
        E = np.asarray(empymod.dipole(
            m['src'], m['rec'], m['depth'], m['res'], frq, ab=ask[0]['ab'],
            xdirect=x, ht='dlf', htarg=kw['htarg'], verb=0, squeeze=False,
            **{k: m[k] for k in vals_keys if k in m}))
        res = np.zeros((times.size, q['nrec'], q['nsrc']))
        for op in ops:
            if op == 'wavelet':
                c = -(np.r_[0, frq[:-1]]/6e4)**2
                E = E*(c*np.exp(c))[:, None, None]
            elif op == 'transform':
                a = dict(dfreq=1e4, nfreq=12, ntot=64,
                         pts_per_dec=12 if q['sparse'] else None)
                for i in range(q['nrec']):
                    for j in range(q['nsrc']):
                        res[:, i, j] = transform.fourier_fft(
                            E[:, i, j], times, frq, a)[0]*2/np.pi
            else:
                g = gains[q['gain']]
                res = res*(1+np.abs((times*1e9)**g))[:, None, None]
        g = np.asarray(o.value)
        w = np.squeeze(res)
        if g.shape != w.shape:
            return [f'shape {g.shape} is not {w.shape}']
        if np.iscomplexobj(g):
            return ['complex']
        # Floor: the strongest time of the transform, without gain.
        if not np.all(np.abs(g-w) <= 1e-8*np.abs(w)+1e-10*np.abs(w).max()):
            return [f'{g.ravel()} is not {w.ravel()}']
        return []

    def one(c):
        q = c['req']
        q = dict(q, forms=q['forms'] if isinstance(q['forms'], dict) else {})
        key = ','.join(f'{k}={v}' for k, v in sorted(q.items())
                       if k != 'forms')
        key += ' ' + ','.join(k for k, v in sorted(q['forms'].items())
                              if v == 'list')
        if q['r'] == 'ipq':
            errs = ipq(q, c['ask'], c['out'])
        else:
            errs = gpr(q, c['ask'], c['ops'], c['out'])
        chk.case(key, None)
        for e in errs:
            chk.violation(f"{q['r']}: {e}"[:400], {'request': c['req'],
                          'fields': c['ask'], 'operations': c['ops']},
                          key=f"{q['r']}:{e[:12]}")

    items = []
    xs = chk.tlc_wait(hx, 600)['cases']
    bs = [chk.tlc_wait(h, 600)['cases'] for h in (hs, hg)]
    ni, ng = (4000, 1500) if t else (330, 170)
    n = {}
    pools = [[c for c in xs if c['req']['r'] == r] for r in ('ipq', 'gpr')]
    for b, x, r, lim in ((bs[0], pools[0], 'ipq', ni),
                         (bs[1], pools[1], 'gpr', ng)):
        chk.rng.shuffle(x)
        # Refusals are cheap, values are not.
        a = [c for c in b+x if c['out'] == 'refused'][:3*lim]
        v = [c for c in b if c['out'] != 'refused']
        y = [c for c in x if c['out'] != 'refused']
        a += v[:lim*2//3]+y[:lim//2]
        items += a
        n[r] = len(a)
    chk.extra['requests'] = n
    chk.rng.shuffle(items)
    chk.traces += len(items)
    chk.parallel(one, items, budget=chk.elapsed()+(500 if t else 45))


if __name__ == '__main__':
    vlib.main('C29', run, 'model_checking')
