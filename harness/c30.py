"""C30: analytical solutions agree with the layers and with their parts."""
import vlib


def run(chk):
    t = chk.thorough
    hx = chk.tlc_start('Analytic', workers=3, consts=dict(
        MaxReq=3 if t else 2))
    hs = chk.tlc_start('Analytic', workers=3, depth=10,
                       simulate=8000 if t else 1500,
                       consts=dict(MaxReq=6, Free='TRUE'))
    import emp
    from emp import np, empymod
    sig = dict(none=None, off=-1, impulse=0, on=1)
    zz = dict(below=(40., 130.), above=(120., 55.), level=(60., 60.),
              shallow=(5., 25.))
    lam = dict(iso=1., more=1.8, less=.7)
    # Units of length and of resistivity.
    units = dict(field=(1., 12.), lab=(1/64, 3.), crust=(256., .5))
    ABE = [10*i+j for i in (1, 2, 3) for j in (1, 2, 3)]
    DLF = dict(ht='dlf', htarg={'dlf': 'wer_201_2018', 'pts_per_dec': 0})
    parts = ['dTE', 'dTM', 'rTE', 'rTM', 'air']

    def unit(x):
        """Units of length, resistivity, and time (1 for the field)."""
        u, r = units[x['unit']]
        return u, r, u*u*units['field'][1]/r

    def survey(x):
        u, _, T = unit(x)
        zs, zr = zz[x['geo']]
        src = [[0., 35.][:x['nsrc']], [0., -60.][:x['nsrc']], zs]
        rec = [[310., 180.][:x['nrec']], [140., -420.][:x['nrec']], zr]
        src, rec = ([np.array(y)*u for y in p] for p in (src, rec))
        if x['signal'] == 'none':
            ft = np.array([3., .4, 25.])[:x['nft']]/T
            if x['dom'] == 's':
                ft = -ft
        else:
            ft = np.array([.01, .002, .07])[:x['nft']]*T
        return src, rec, ft

    def ana(x, sol, ab=None, ft=None, signal=None, med=None, **kw):
        """Returns (list of parts), each (nft, nrec, nsrc)."""
        src, rec, f0 = survey(x)
        o = vlib.call(empymod.analytical, src, rec, unit(x)[1],
                      f0 if ft is None else ft, solution=sol,
                      signal=sig[x['signal'] if signal is None else signal],
                      ab=x['ab'] if ab is None else ab,
                      aniso=lam[x['med'] if med is None else med],
                      squeeze=False, verb=0, **kw)
        if o.ok:
            v = o.value
            if sol in ('dsplit', 'dtetm'):
                o.parts = [np.asarray(p) for p in v]
            else:
                o.parts = [np.asarray(v)]
        return o

    def size(x, sol, ft=None, signal=None):
        """Size of the electric field (strongest component)."""
        s = 0
        for ab in ABE:
            o = ana(x, sol, ab=ab, ft=ft, signal=signal)
            s = np.maximum(s, sum(np.abs(p) for p in o.parts))
        return s

    def fine(a, b, size, rtol):
        if a.shape != b.shape:
            return f'shape {a.shape} is not {b.shape}'
        bad = ~(np.abs(a-b) <= rtol*size)
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            return f'{a[i]} is not {b[i]} (size {np.broadcast_to(size, a.shape)[i]:.3g})'

    other = dict(epermH=2e8, epermV=3e7, mpermH=3., mpermV=5.)

    def layers(x, what):
        """The layered computation."""
        src, rec, ft = survey(x)
        n = dict(signal=None, ab=x['ab'], squeeze=False, verb=0,
                 xdirect=False, **DLF)
        la = lam[x['med']]
        u, RES, _ = unit(x)
        if what == 'layers:fullspace':
            d = [20.*u, 90.*u]
            m = dict(depth=d, res=[RES]*3, aniso=[la]*3)
        elif what == 'layers:diffusive fullspace':
            m = dict(depth=[75.*u], res=[RES]*2, aniso=[la]*2, epermH=[0, 0])
        else:
            m = dict(depth=[0.], res=[2e14, RES], aniso=[1., la],
                     epermH=[0, 0])
        return np.asarray(empymod.dipole(src, rec, freqtime=ft, **m, **n))

    # Times for the transform to the Laplace domain.
    tt = np.logspace(-7.5, 3.2, 700)

    def laplace(x, atom):
        """Transform of the time domain against the Laplace domain."""
        i = parts.index(atom)
        T = unit(x)[2]
        s = np.array([2., 30., 150.])/T
        t = tt*T
        g = ana(x, 'dtetm', ft=t).parts[i]
        d = ana(x, 'dtetm', ft=-s, signal='none')
        w = d.parts[i].real
        sz = size(x, 'dtetm', ft=-s, signal='none')
        e = np.exp(-s[:, None]*t)[:, :, None, None]
        if x['signal'] == 'off':
            # Switch-off is DC minus switch-on.
            dc = g[0][None]
            g = dc-g
        h = np.log(t[1]/t[0])
        y = g[None]*e*t[None, :, None, None]*h
        v = y.sum(1)-.5*(y[:, 0]+y[:, -1])
        if x['signal'] != 'impulse':
            v = v*s[:, None, None]
        return fine(v, w, sz, 2e-3)

    def static(x, atom):
        """On plus off is the static field."""
        i = parts.index(atom)
        g = sum(ana(x, 'dtetm', signal=k).parts[i] for k in ('on', 'off'))
        s = -np.array([1e-9])/unit(x)[2]
        d = ana(x, 'dtetm', ft=s, signal='none').parts[i]
        return fine(g, d.real+0*g, size(x, 'dtetm', ft=s, signal='none'), 1e-4)

    def one(c):
        x, errs, got = c['ex'], [], {}
        for h in c['hist']:
            o = ana(x, h['sol'])
            if h['out'] == 'refused':
                if not isinstance(o.exc, ValueError):
                    errs.append(f"{h['sol']} not refused: {o.exc!r}")
                continue
            if not o.ok:
                errs.append(f"{h['sol']} raised {o.exc!r}")
                continue
            if len(o.parts) != len(h['parts']):
                errs.append(f"{h['sol']} has {len(o.parts)} parts")
                continue
            got[h['sol']] = o.parts, h['parts']
            # Parameters it does and does not depend on.
            for k, v in other.items():
                p = ana(x, h['sol'], **{k: v})
                if not p.ok:
                    errs.append(f"{h['sol']} with {k} raised {p.exc!r}")
                elif k not in h['sees'] and not all(
                        np.array_equal(y, z) for y, z in
                        zip(o.parts, p.parts)):
                    errs.append(f"{h['sol']} depends on {k}: {p.parts[0].ravel()[:2]}"
                                f" is not {o.parts[0].ravel()[:2]}")
        if errs:
            return errs
        # Atoms, and their size.
        elec = x['ab'] in ABE
        at = {}
        if elec:
            d = ana(x, 'dtetm')
            if not d.ok:
                return [f'dtetm raised {d.exc!r}']
            at = dict(zip(parts, d.parts))
            sz = size(x, 'dtetm')
            for a in c['absent']:
                if np.any(at[a] != 0):
                    errs.append(f'{a} is not zero')
            # No vertical currents in the TE mode, nor in the air-wave.
            m = dict(iso='more', more='less', less='iso')[x['med']]
            o = dict(zip(parts, ana(x, 'dtetm', med=m).parts))
            for a in c['blind']:
                e = fine(o[a], at[a], sz, 1e-12)
                if e:
                    errs.append(f'{a} depends on anisotropy: {e}')
        if x['signal'] == 'none':
            f = ana(x, 'fs')
            if not f.ok:
                return errs+[f'fs raised {f.exc!r}']
            at['full'] = f.parts[0]
        for sol, (p, sets) in got.items():
            for v, st in zip(p, sets):
                w = sum(at[a] for a in st)
                big = sum(np.abs(at[a]) for a in st)
                e = fine(v, w, big+(1e-6*sz if elec else 0), 1e-9)
                if e:
                    errs.append(f"{sol}: {'+'.join(sorted(st))}: {e}")
        # The same in the units of the field.
        if elec and x['unit'] != 'field':
            d = c['dim']
            u, r, T = unit(x)
            fact = u**d['length']*(r/units['field'][1])**d['res']*T**d['time']
            y = ana({**x, 'unit': 'field'}, 'dtetm')
            for a, v in zip(parts, y.parts):
                e = fine(at[a], v*fact, sz, 1e-5)
                if e:
                    errs.append(f"{a} in other units ({x['unit']}): {e}")
        # Anchors.
        for a in c['anchors']:
            if a['a'].startswith('layers'):
                w = sum(at[y] for y in a['is'])
                v = layers(x, a['a'])
                s = np.abs(w)
                if elec:
                    k = 'fs' if 'full' in a['is'] else 'dtetm'
                    s = size(x, k)
                else:
                    for ab in range(11, 67):
                        if (ab//10 > 3) == (x['ab']//10 > 3) and \
                                (ab % 10 > 3) == (x['ab'] % 10 > 3) and \
                                0 < ab % 10 < 7:
                            s = np.maximum(s, np.abs(
                                ana(x, 'fs', ab=ab).parts[0]))
                e = fine(w, v, s, 1e-3)
            elif a['a'].startswith('static'):
                e = static(x, a['is'][0])
            else:
                e = laplace(x, a['is'][0])
            if e:
                errs.append(f"{'+'.join(sorted(a['is']))}, {a['a']}: {e}")
        return errs

    def work(c):
        x = c['ex']
        key = ' '.join(f'{k}={v}' for k, v in sorted(x.items()))
        key += ' '+'>'.join(h['sol'] for h in c['hist'])
        chk.case(key, None)
        for e in one(c):
            chk.violation(f"ab={x['ab']} signal={x['signal']} {e}"[:500],
                          dict(experiment=x, requests=c['hist']),
                          key=f"{x['ab']}:{x['signal']}:{e[:14]}")

    xs = chk.tlc_wait(hx, 600)['cases']
    sm = chk.tlc_wait(hs, 600)['cases']
    chk.rng.shuffle(xs)
    elec = [c for c in sm if c['ex']['ab'] in ABE]
    oth = [c for c in sm if c['ex']['ab'] not in ABE]
    items = elec[:4000 if t else 260]+oth[:1500 if t else 60]
    items += xs[:4000 if t else 250]
    chk.rng.shuffle(items)
    chk.traces += len(items)
    chk.parallel(work, items, budget=chk.elapsed()+(600 if t else 40))


if __name__ == '__main__':
    vlib.main('C30', run, 'model_checking')
