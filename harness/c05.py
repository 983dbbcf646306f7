"""C05: a multi source/receiver call is the assembly of single calls."""
import vlib


def end(rng, np, e, which, fast, simple=False):
    """Concrete coordinates for an abstract end of Survey.tla."""
    n = e['n']
    u = rng.uniform
    sgn = 1 if which == 'rec' else -1

    def vec(lo, hi):
        return np.array([round(u(lo, hi), 3) for _ in range(n)])
    x, y = sgn*vec(100, 900), vec(-500, 500)
    if e['shared']:
        z = np.array([round(u(-30, 160), 3)]*n)
        if rng.random() < .5 or n == 1 or simple:
            z = z[0]
    else:
        z = np.array([round(u(-30, 160), 3) for _ in range(n)])
        if n > 2 and rng.random() < .5:        # some, but not all, shared
            i, j = rng.sample(range(n), 2)
            z[i] = z[j]
        if rng.random() < .3:                  # on an interface
            z[rng.randrange(n)] = 0.0
        if np.all(z == z[0]):
            z[0] += 17.
    if e['form'] == 'point':
        if fast:
            azm = np.array([rng.choice([0, 90, 30.]) for _ in range(n)])
            dip = np.array([rng.choice([0, 0, 90]) for _ in range(n)])
        else:
            azm, dip = vec(-180, 180), vec(-90, 90)
        out = [x, y, z, azm, dip]
        if e['scal'] == 'xy':
            # Single value for x or y; for both of them if another entry
            # still tells the number of elements.
            i = rng.choice([0, 1, 2] if not simple else [0, 1])
            if i != 1:
                out[0] = float(x[0])
            if i != 0:
                out[1] = float(y[0])
        elif e['scal'] == 'ang':
            i = rng.choice([0, 1, 2])
            if i != 1:
                out[3] = float(azm[0])
            if i != 0:
                out[4] = float(dip[0])
    else:
        dx, dy = vec(5, 60), vec(-60, -5)
        z = np.asarray(z, float)
        if e['shared']:
            dz = round(u(-20, 20), 3) if rng.random() < .5 else 0.
            z0, z1 = z, z+dz
        else:
            k = rng.choice(['both', 'z1', 'z0', 'same'])
            if k == 'both':
                z0, z1 = z, z + vec(-20, 20)
            elif k == 'z1':
                z0, z1 = np.array([31.5]*n), z
            elif k == 'z0':
                z0, z1 = z, np.array([31.5]*n)
            else:
                z0, z1 = z, z
        out = [x, x+dx, y, y+dy, z0, z1]
        if e['scal'] == 'xy':
            i = rng.choice([0, 2])
            out[i] = float(np.atleast_1d(out[i])[0])
    return out


def pick(np, inp, i):
    """Element i of an end."""
    return [float(np.atleast_1d(a)[i if np.size(a) > 1 else 0]) for a in inp]


def run(chk):
    h = chk.tlc_start('Survey', consts=dict(
        MaxS=3, MaxR=3, MaxPts=3,
        Kinds='{"bipole", "loop", "dipole", "analytical"}'))
    import emp
    from emp import np, empymod
    rng = chk.rng
    cases = chk.tlc_wait(h)['cases']
    chk.extra['configurations_in_model'] = len(cases)
    small = [c for c in cases if c['kind'] in ('dipole', 'analytical')]
    big = [c for c in cases if c['kind'] not in ('dipole', 'analytical')]
    rng.shuffle(big)
    order = small + big
    if not chk.thorough:
        order = order[:1600]
    else:
        order = order*6
    done = chk.parallel(lambda c: one(chk, emp, np, empymod, chk.rng, c),
                        order, budget=60 if not chk.thorough else 800)
    # Larger surveys than the enumerated ones (same rule, sampled).
    for n, m in [(1, 40), (40, 1), (7, 11)]:
        for shared in (True, False):
            c = big_config(n, m, shared)
            one(chk, emp, np, empymod, rng, c, cheap=True)
            c = dict(c, kind='dipole',
                     src=dict(c['src'], shared=True),
                     rec=dict(c['rec'], shared=True))
            one(chk, emp, np, empymod, rng, c, cheap=True)
    chk.extra['configurations_replayed'] = done


def big_config(n, m, shared):
    e = dict(shared=shared, form='point', scal='none', pts=1)
    pairs = [[s+1, r+1] for s in range(n) for r in range(m)]
    return dict(kind='bipole', src=dict(e, n=n), rec=dict(e, n=m),
                pairs=pairs, shape=[[f, m, n] for f in (1, 2, 3)],
                squeezed=[[d for d in (f, m, n) if d != 1]
                          for f in (1, 2, 3)])


def one(chk, emp, np, empymod, rng, c, cheap=False):
    kind = c['kind']
    npts = (c['src']['pts'] if c['src']['form'] == 'finite' else 1) * \
        (c['rec']['pts'] if c['rec']['form'] == 'finite' else 1)
    work = len(c['pairs'])*npts
    fast = work > 9 or cheap
    simple = kind in ('dipole', 'analytical')
    src = end(rng, np, c['src'], 'src', fast, simple)
    rec = end(rng, np, c['rec'], 'rec', fast, simple)
    dom = rng.choice(['freq', 'freq', 'lap', 'time'])
    nf = rng.choice([1, 2, 3])
    ft = np.array([.8, 3.1, 11.])[:nf]*rng.choice([1, 7.])
    kw = dict(verb=0)
    if dom == 'lap':
        ft = -ft
    if kind == 'analytical':
        kw.update(res=3., aniso=1.4, epermH=50., mpermH=1.3,
                  solution=rng.choice(['fs', 'dfs', 'dhs']))
        if dom == 'time':
            kw['solution'] = rng.choice(['dfs', 'dhs'])
            kw['signal'] = rng.choice([-1, 0, 1])
        if kw['solution'] == 'dhs':
            src[2], rec[2] = 20., 45.
        kw['ab'] = rng.choice([11, 12, 13, 23, 31, 33]) \
            if kw['solution'] != 'fs' else rng.choice([11, 22, 34, 51, 46, 66])
        fn = empymod.analytical
    else:
        nl = rng.choice([1, 2, 3]) if not fast else rng.choice([1, 2])
        m = emp.stack(nl, var=rng.randrange(7))
        kw.update(m, **emp.TINY)
        if fast and nl == 1:
            kw['xdirect'] = True
        if dom == 'time':
            kw['signal'] = rng.choice([-1, 0, 1])
        if kind == 'dipole':
            kw['ab'] = rng.choice([11, 12, 13, 16, 23, 33, 36, 42, 44, 54, 61,
                                   66, 25, 31])
            fn = empymod.dipole
        else:
            kw.update(recpts=c['rec']['pts'], strength=rng.choice([0, 1.7]),
                      mrec=rng.choice([False, True, 'b', 'j']))
            if kind == 'bipole':
                kw.update(srcpts=c['src']['pts'],
                          msrc=rng.choice([False, True, 'b']))
                fn = empymod.bipole
            else:
                fn = empymod.loop
    if kind in ('dipole', 'analytical'):
        src, rec = src[:3], rec[:3]
    squeeze = rng.random() < .5
    info = dict(config={k: c[k] for k in ('kind', 'src', 'rec')}, src=src,
                rec=rec, freqtime=ft,
                kw={k: v for k, v in kw.items()
                    if k not in ('ht', 'htarg', 'ft', 'ftarg')},
                squeeze=squeeze)
    out = vlib.call(fn, src, rec, freqtime=ft, squeeze=squeeze, **kw)
    if not chk.check(out.ok, 'multi source/receiver call failed',
                     dict(info, outcome=repr(out))):
        return
    want = tuple((c['squeezed'] if squeeze else c['shape'])[nf-1])
    v = out.value
    if not chk.check(np.shape(v) == want, 'wrong shape of the result',
                     dict(info, got=np.shape(v), want=want)):
        return
    v = np.asarray(v).reshape(c['shape'][nf-1])
    key = (kind, str(c['src']), str(c['rec']), dom)
    chk.case(key, dict(config=info['config'], shape=want, domain=dom))
    pairs = c['pairs']
    if len(pairs) > 20:
        pairs = rng.sample(pairs, 12)
    scale = np.max(np.abs(v))
    if kind == 'analytical' and dom == 'time' and kw['signal'] == -1:
        # The switch-off field is a difference of (nearly) static fields.
        dc = vlib.call(fn, src, rec, freqtime=1e3, **dict(kw, signal=1))
        scale = max(scale, 10*np.max(np.abs(dc.value)))
    rtol, atol = 1e-8, 1e-13*scale
    if (kind == 'analytical' and kw['solution'] == 'dhs' and dom == 'time' and
            kw['signal'] != 0):
        # The step response of the airwave uses Gaver-Stehfest, which is
        # very sensitive to rounding of its input.
        rtol, atol = 1e-5, 1e-6*scale
    elif kind == 'analytical' and kw['solution'] == 'dhs' and dom == 'time':
        rtol, atol = 1e-6, 1e-10*scale     # differences of large terms
    for s, r in pairs:
        k = rng.randrange(nf)
        single = vlib.call(fn, pick(np, src, s-1), pick(np, rec, r-1),
                           freqtime=[ft[k]], squeeze=False, **kw)
        if not chk.check(single.ok, 'single call failed',
                         dict(info, outcome=repr(single))):
            return
        w = single.value.ravel()
        got = v[k, r-1, s-1]
        ok = w.size == 1 and vlib.close(got, w[0], rtol=rtol, atol=atol)
        chk.evals += 1
        if not ok:
            chk.violation(
                'entry of the multi-call differs from the single call',
                dict(info, entry=[k, r-1, s-1], multi=complex(got),
                     single=[complex(q) for q in w]))
            return


if __name__ == '__main__':
    vlib.main('C05', run)
