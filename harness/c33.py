"""C33: low-level interfaces agree with the public modelling routines."""
import copy
import random

import vlib


def run(chk):
    t = chk.thorough
    hx = chk.tlc_start('LowLevel', workers=4, consts=dict(
        MaxCalls=3 if t else 2))
    hs = chk.tlc_start('LowLevel', workers=3, depth=20,
                       simulate=6000 if t else 700,
                       consts=dict(MaxCalls=5, Free='TRUE', Kinds='{"core"}'))
    import emp
    from emp import np, empymod, model, utils
    TH, TF = emp.tiny_hankel(5, 'll', 6), emp.tiny_fourier(3, 'llf', 6)
    ABS = [10*i+j for i in range(1, 7) for j in range(1, 7)]
    LAY = dict(res=[30., 3., .8], aniso=[1.4, 1., 2.],
               epermH=[1e5, 3e5, 1e4], epermV=[2e5, 1e5, 6e5],
               mpermH=[1., 2., 1.3], mpermV=[1.2, 1., 3.])

    def layers(n, rng):
        d = dict(depth=[0., 40.][:n-1])
        d.update({k: v[:n] for k, v in LAY.items()})
        if n > 1 and rng.random() < .25:
            # The same everywhere.
            for k in LAY:
                d[k] = [LAY[k][0]]*n
        return d

    def options(q, rng):
        ht = rng.choice(['dlf']*5+['quad', 'qwe'])
        o = dict(ht=ht)
        o['htarg'] = dict(
            dlf={'dlf': TH, 'pts_per_dec': rng.choice([0, 0, -1, 7])},
            quad={'rtol': 1e-4, 'limit': 20, 'a': 1e-2, 'b': .3,
                  'pts_per_dec': 5},
            qwe={'nquad': 5, 'maxint': 6, 'pts_per_dec': rng.choice([0, 5]),
                 'diff_quad': 1e99})[ht]
        ft = rng.choice(['dlf']*4+['fftlog', 'fft', 'qwe'])
        if ht != 'dlf':
            ft = 'dlf'
        o['ft'] = ft
        o['ftarg'] = dict(
            dlf={'dlf': TF, 'pts_per_dec': rng.choice([0, -1, 5])},
            fftlog={'pts_per_dec': 3, 'add_dec': [-1, 1], 'q': 0},
            fft={'dfreq': 20., 'nfreq': 8, 'ntot': 16},
            qwe={'nquad': 5, 'maxint': 4, 'pts_per_dec': 4,
                 'diff_quad': 10**9})[ft]
        return o

    def equal(a, b):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.all(
            (np.abs(a-b) <= 1e-12*np.abs(b).max(initial=0)) |
            (np.isnan(a) & np.isnan(b))))

    def core(c, rng):
        q = c['req']
        n = q['n']
        ab = rng.choice(ABS)
        L = layers(n, rng)
        opt = options(q, rng)
        xd = dict(yes=True, no=False, none=None)[q['x']]
        zs, zr = rng.choice([(12., 48.), (60., 20.), (30., 31.), (90., -6.)])
        src = [[0., 5.][:q['nsrc']], [0., 9.][:q['nsrc']], zs]
        rec = [[50., 80.][:q['nrec']], [20., -35.][:q['nrec']], zr]
        sig = dict(none=None, off=-1, impulse=0, on=1)[q['signal']]
        loop = None if q['loop'] == 'none' else q['loop']
        if sig is None:
            ft = rng.choice([[60., 7.], [-60., -7.], [3.]])
        else:
            ft = rng.choice([[.004, .0011], [.02], [.001, .003, .009]])
        det = dict(request=q, ab=ab, options={
            k: str(v)[:150] for k, v in opt.items()}, depths=(zs, zr),
            freqtime=ft, steps=c['done'], calls=c['calls'],
            homogeneous=len(set(L['res'])) == 1)
        chk.case(str(det), None)
        key = f"core:{opt['ht']}:{opt['ft']}:{q['signal']}"

        def bad(what):
            chk.violation(f'{what} (ab={ab}, n={n})', det,
                          key=key+what[:12])

        full = vlib.call(empymod.dipole, src, rec, **L, freqtime=ft,
                         signal=sig, ab=ab, xdirect=xd, loop=loop, verb=0,
                         squeeze=False, **copy.deepcopy(opt))
        if not full.ok:
            bad(f'dipole raised {full.exc!r}')
            return
        full = np.asarray(full.value)
        noff = q['nrec']*q['nsrc']
        full = full.reshape((full.shape[0], noff), order='F')
        v = {}
        m = L

        def step(s):
            if s == 'time':
                if sig is None:
                    v['freq'] = ft
                    return
                (v['time'], v['freq'], v['ft'], v['ftarg'],
                 v['signal']) = utils.check_time(
                     ft, sig, opt['ft'], copy.deepcopy(opt['ftarg']), 0,
                     True)
            elif s == 'model':
                v['layers'] = utils.check_model(
                    m['depth'], m['res'], m['aniso'], m['epermH'],
                    m['epermV'], m['mpermH'], m['mpermV'], xd, 0)
            elif s == 'freq':
                y = v['layers']
                (v['freq'], v['etaH'], v['etaV'], v['zetaH'],
                 v['zetaV']) = utils.check_frequency(v['freq'], *y[1:7], 0)
            elif s == 'hankel':
                v['ht'], v['htarg'] = utils.check_hankel(
                    opt['ht'], copy.deepcopy(opt['htarg']), 0)
            elif s == 'loop':
                v['lf'], v['lo'] = utils.check_loop(loop, v['ht'],
                                                    v['htarg'], 0)
            elif s == 'ab':
                v['ab'], v['msrc'], v['mrec'] = utils.check_ab(ab, 0)
            elif s == 'src':
                v['src'], v['nsrc'] = utils.check_dipole(src, 'src', 0)
            elif s == 'rec':
                v['rec'], v['nrec'] = utils.check_dipole(rec, 'rec', 0)
            elif s == 'off':
                v['off'], v['angle'] = utils.get_off_ang(
                    v['src'], v['rec'], v['nsrc'], v['nrec'], 0)
            elif s == 'lsrc':
                v['lsrc'], v['zsrc'] = utils.get_layer_nr(
                    v['src'], v['layers'][0])
            elif s == 'lrec':
                v['lrec'], v['zrec'] = utils.get_layer_nr(
                    v['rec'], v['layers'][0])

        for s in c['done']:
            o = vlib.call(step, s)
            if not o.ok:
                bad(f'check {s} raised {o.exc!r}')
                return
        pick = dict(all=slice(None), first=slice(0, 1), last=slice(-1, None))
        # Spline and lagged variants are interpolations, which see all
        # offsets or all frequencies at once (a part is another computation).
        whole = opt['ht'] != 'dlf' or opt['htarg']['pts_per_dec'] != 0
        FEM = None
        for i, cl in enumerate(c['calls']):
            os = pick['all' if whole else cl['offs']]
            if cl['c'] == 'fem':
                fs = pick[cl['freqs']]
                e = [np.ascontiguousarray(v[k][fs]) for k in (
                    'etaH', 'etaV', 'zetaH', 'zetaV')]
                arg = (v['ab'], v['off'][os], v['angle'][os], v['zsrc'],
                       v['zrec'], v['lsrc'], v['lrec'], v['layers'][0],
                       np.ravel(v['freq'])[fs], *e, xd, v['layers'][7],
                       v['ht'], v['htarg'], v['msrc'], v['mrec'], v['lf'],
                       v['lo'])
                old = copy.deepcopy(arg)
                o = vlib.call(model.fem, *arg, cl['conv'])
                name = f'call {i+1}, fem'
            else:
                os = pick[cl['offs']]
                arg = (FEM[:, os], v['off'][os], v['freq'], v['time'],
                       v['signal'], v['ft'], v['ftarg'])
                old = copy.deepcopy(arg)
                o = vlib.call(model.tem, *arg, cl['conv'])
                name = f'call {i+1}, tem'
            if not o.ok:
                bad(f'{name} raised {o.exc!r}')
                return
            for x, y in zip(arg, old):
                if isinstance(x, np.ndarray) and not np.array_equal(
                        x, y, equal_nan=True):
                    bad(f'{name} changed its input')
            g = np.asarray(o.value[0])
            conv = o.value[-1]
            if not cl['conv'] and conv:
                bad(f'{name} forgot that a previous one did not converge')
            if cl['c'] == 'fem':
                if sig is None:
                    w = full[fs][:, os]
                elif cl['freqs'] == 'all':
                    # As seen by any transform: the one of frequencies.
                    if FEM is None and (whole or cl['offs'] == 'all'):
                        FEM = g
                        continue
                    if FEM is None:
                        continue
                    w = FEM[:, os]
                else:
                    if FEM is None:
                        continue
                    w = FEM[fs][:, os]
                if not equal(g, w):
                    bad(f'{name}: {g.ravel()[:3]} is not {w.ravel()[:3]}')
            else:
                w = full[:, os]
                if not equal(g, w):
                    bad(f'{name}: {g.ravel()[:3]} is not {w.ravel()[:3]}')

    def wave(c, rng):
        q = c['req']
        ab, n = q['ab'], q['n']
        L = layers(n, rng)
        zs, zr = rng.choice([(12., 48.), (60., 20.), (30., 31.), (90., -6.)])
        frq = [60., 7., 900.][:q['nf']]
        if rng.random() < .3:
            frq = [-f for f in frq]
        rec = [[50., 80., -20.][:q['no']], [20., -35., 66.][:q['no']], zr]
        src = [0., 0., zs]
        if rng.random() < .3:
            # Several sources, one receiver.
            src, rec = [rec[0], rec[1], zs], [0., 0., zr]
        kw = dict(L, ab=ab, verb=0)
        det = dict(request=q, depths=(zs, zr), freq=frq,
                   homogeneous=len(set(L['res'])) == 1)
        chk.case(str(det), None)

        def bad(what):
            chk.violation(f'dipole_k: {what} (ab={ab}, n={n})', det,
                          key='wave:'+what[:12]+str(ab))

        def fun(w, f):
            return vlib.call(empymod.model.dipole_k, src, rec, freq=f,
                             wavenumber=w, **kw)

        # Shape, and values of another shape.
        w = np.array([.01, .05, .003, .2, .11, .02])[:int(np.prod(q['w']))]
        o = fun(w.reshape(q['w']), frq)
        if not o.ok:
            bad(f'raised {o.exc!r}')
            return
        P = [np.asarray(x) for x in o.value]
        if any(x.shape != tuple(q['shape']) for x in P):
            bad(f"shapes {[x.shape for x in P]} are not {q['shape']}")
            return
        nf, no = q['nf'], q['no']
        P = [x.reshape(nf, no, -1) for x in P]
        for i in range(nf):
            j = rng.randrange(w.size)
            s = fun(w[j:j+1], [frq[i]])
            if not s.ok:
                bad(f'raised {s.exc!r}')
                return
            for k in (0, 1):
                x = np.asarray(s.value[k]).reshape(-1)
                y = P[k][i, :, j]
                if not np.all(np.abs(x-y) <= 1e-12*np.abs(y).max()):
                    bad(f'PJ{k}: {y} is not {x} (single wavenumber)')
        # The filter weights give the field.
        off = np.hypot(50. if no == 1 else np.array([50., 80., -20.][:no]),
                       20. if no == 1 else np.array([20., -35., 66.][:no]))
        off = np.atleast_1d(off)
        lam = (TH.base/off[:, None]).ravel()
        o = fun(lam, frq)
        e = vlib.call(empymod.dipole, src, rec, freqtime=frq, ht='dlf',
                      htarg={'dlf': TH, 'pts_per_dec': 0}, xdirect=False,
                      squeeze=False, **kw)
        if not o.ok or not e.ok:
            bad(f'raised {o.exc!r} {e.exc!r}')
            return
        e = np.asarray(e.value).reshape(nf, no)
        P = [np.asarray(x).reshape(nf, no, no, -1) for x in o.value]
        g, s = np.zeros((2, nf, no), e.dtype)
        for i in range(no):
            a = P[0][:, i, i]*TH.j0/off[i], P[1][:, i, i]*TH.j1/off[i]
            g[:, i] = a[0].sum(-1)+a[1].sum(-1)
            s[:, i] = np.abs(a[0]).sum(-1)+np.abs(a[1]).sum(-1)
        if not np.all(np.abs(g-e) <= 1e-9*np.abs(s)):
            bad(f'transformed: {g.ravel()[:3]} is not the field '
                f'{e.ravel()[:3]}')

    def work(it):
        c, seed = it
        dict(core=core, wavenumber=wave)[c['req']['k']](
            c, random.Random(seed))

    xs = chk.tlc_wait(hx, 600)['cases']
    sm = chk.tlc_wait(hs, 600)['cases']
    k = 12 if t else 1
    a = [c for c in xs if c['req']['k'] == 'core']
    b = [c for c in xs if c['req']['k'] == 'wavenumber']
    for z in (a, b):
        chk.rng.shuffle(z)
    items = a[:220*k]+b[:450*k]+sm[:350*k]
    items = [(c, chk.rng.randrange(2**30)) for c in items]
    chk.rng.shuffle(items)
    chk.traces += len(items)
    chk.parallel(work, items, budget=chk.elapsed()+(600 if t else 50))


if __name__ == '__main__':
    vlib.main('C33', run, 'model_checking')
