"""C35: extremes - always finite, nothing through walls, nothing from behind."""
import vlib


def run(chk):
    with open(vlib.SPEC + '/Extremes.cfg') as f:
        cfg = f.read()
    noex = cfg.replace(' Export', '')
    hs = [chk.tlc_start('Extremes', cfg=noex, workers=3, consts=dict(
        MaxLayers=3 if not chk.thorough else 4, Step=9))]
    num = 400 if not chk.thorough else 3000
    # (Mostly thick layers, for walls; and any.)
    hs += [chk.tlc_start('Extremes', workers=1, simulate=num, depth=14,
                         consts=co) for co in (
        dict(), dict(ThickFrom=22, FreqFrom=20), dict(MaxLayers=3, Step=2))]
    import emp
    from emp import np, empymod
    cases = []
    for h in hs:
        cases += chk.tlc_wait(h)['cases']
    cases = list({repr(c): c for c in cases}.values())
    chk.rng.shuffle(cases)
    chk.extra['models_in_simulation'] = len(cases)

    def geometry(m, src, rec, side):
        """Depths of the interfaces and of source and receiver."""
        t = [10.**x['t'] for x in m[1:-1]]
        depth = [0.][:len(m)-1]
        for x in t:
            depth.append(depth[-1]+x)

        def z(i, s):
            if len(m) == 1:
                return [-1., 0., 30.][s]
            if i == 1:
                return [-1e4, -2., 0.][s]
            if i == len(m):
                return depth[-1]+[1e-3, 7., 1e4][s]
            return depth[i-2]+t[i-2]*[1e-2, .5, 1.][s]
        return depth, z(src, side[0]), z(rec, side[1])

    def one(c):
        rng = chk.rng
        m, src, rec = c['m'], c['src'], c['rec']
        depth, zs, zr = geometry(m, src, rec, c['side'])
        if len(m) > 1 and (np.searchsorted(depth, zs) != src-1 or
                           np.searchsorted(depth, zr) != rec-1):
            return      # (More digits needed than there are.)
        kind = rng.choice(['dipole', 'dipole', 'laplace', 'time', 'bipole',
                           'dipole_k'])
        x, y = rng.choice([(0., 0.), (1e-3, 0.), (10., 3.), (0., 2e3),
                           (1e5, -1e4), (1e7, 0.)])
        an = [rng.choice([1., 1., .1, 10.]) for _ in m]
        ep = [rng.choice([1., 1., 0., 80.]) for _ in m]
        kw = dict(depth=depth, res=[10.**v['r'] for v in m], aniso=an,
                  epermH=ep, epermV=ep, verb=0)
        if rng.random() < .3:
            kw['mpermH'] = [rng.choice([1., 100.]) for _ in m]
            kw['mpermV'] = kw['mpermH']
        f = 10.**c['f']*(-1 if kind == 'laplace' else 1)
        ab = rng.choice([10*i+j for i in range(1, 7) for j in range(1, 7)])
        if kind == 'dipole_k':
            call = empymod.dipole_k
            kw.update(src=[0, 0, zs], rec=[x, y, zr], ab=ab, freq=f,
                      wavenumber=10.**np.arange(-12, 13, 2.))
        else:
            call = empymod.dipole
            kw.update(src=[0, 0, zs], rec=[[x, 5.], [y, 1e2], zr], ab=ab,
                      freqtime=[f, f],
                      xdirect=rng.choice([True, False, None]))
            if rng.random() < .7:
                kw['htarg'] = dict(emp.HT, pts_per_dec=rng.choice([0, 0, 10]))
            elif rng.random() < .8:
                kw.update(ht='dlf', htarg=dict(pts_per_dec=rng.choice(
                    [0, 0, -1, 7])))
            else:
                kw.update(ht='qwe', htarg=dict(maxint=7, nquad=9,
                                               diff_quad=1e30))
            if kind == 'bipole':
                call = empymod.bipole
                kw.pop('ab')
                kw['rec'] = [*kw['rec'], rng.choice([0., 30.]),
                             rng.choice([0., -20., 90.])]
                kw['src'] = rng.choice([
                    [0, 0, zs, 20., 70.], [-1., 1., 0., 1e3, zs, zs]])
                kw.update(srcpts=rng.choice([1, 3]),
                          msrc=rng.choice([True, False, 'b', 'loop']),
                          mrec=rng.choice([True, False, 'b', 'j']))
            if kind == 'time':
                kw.update(signal=rng.choice([-1, 0, 1]),
                          ftarg=dict(emp.FT, pts_per_dec=0))
                kw['freqtime'] = [10.**-c['f'], 10.**(2-c['f'])]
        o = vlib.call(call, **kw)
        det = dict(kind=kind, case=c, kw={
            k: v for k, v in kw.items() if k not in ('htarg', 'ftarg')},
            out=repr(o.value)[:600])
        if not chk.check(o.ok, f'{kind}: raises {o.exc!r}', det):
            return
        val = np.array(o.value)
        chk.case(repr(c)+kind, dict(case=c, kind=kind))
        if not chk.check(np.isfinite(val).all(), f'{kind}: not finite', det):
            return
        if kind == 'time':
            return
        if c['silent']:
            chk.extra['silent'] = chk.extra.get('silent', 0)+1
            chk.check(np.abs(val).max() < 1e-200,
                      f'{kind}: received through a wall', det)
            return
        if not c['hidden'] and not c['walls']:
            return
        # What is hidden has no influence, nor has the thickness of a wall.
        new = [dict(v) for v in m]
        for i in c['hidden']:
            for p in ('aniso', 'epermH'):
                if p in kw:
                    kw[p] = list(kw[p])
                    kw[p][i-1] = rng.choice([1., 2., 5.])
            new[i-1]['r'] = rng.choice([-4, -1, 2, 3, 7, 14])
            if max(src, rec) < i < len(m):
                new[i-1]['t'] = rng.choice([-3, 0, 2, 5])
        for i in c['walls']:
            if max(src, rec) < i:
                new[i-1]['t'] += 1
        kw['epermV'] = kw['epermH']
        kw['res'] = [10.**v['r'] for v in new]
        kw['depth'] = geometry(new, src, rec, c['side'])[0]
        if (np.diff(kw['depth']) <= 0).any():
            return
        p = vlib.call(call, **kw)
        det['changed'] = new
        det['second'] = repr(p.value)[:600]
        if not chk.check(p.ok, f'{kind}: raises {p.exc!r}', det):
            return
        chk.extra['hidden'] = chk.extra.get('hidden', 0)+1
        chk.check(vlib.close(np.array(p.value), val, 1e-9,
                             1e-12*np.abs(val).max()),
                  f'{kind}: what is behind a wall has an influence', det)

    n = chk.parallel(one, cases, budget=chk.elapsed()+(
        20 if not chk.thorough else 400))
    chk.extra['models_replayed'] = n


if __name__ == '__main__':
    vlib.main('C35', run, 'model_checking')
