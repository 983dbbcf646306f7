"""C26: unknown keywords are refused, foreign ones only warned about."""
import vlib


def run(chk):
    hx = chk.tlc_start('Keywords', workers=3, consts=dict(
        MaxKeys=2 if chk.thorough else 1, Foreigns=2))
    hs = chk.tlc_start('Keywords', workers=4, depth=9,
                       simulate=20000 if chk.thorough else 1500,
                       consts=dict(MaxKeys=6, Foreigns=3))
    import emp
    from emp import np, empymod, utils
    T2 = emp.tiny_hankel(5, 'other', 3)
    F2 = emp.tiny_fourier(5, 'other', 3)
    z = dict(depth=[0., 80.], res=[2., 10., 1.], src=[0, 0, 20.],
             rec=[[60., 90.], [20., -35.], 30.])
    bip = dict(src=[0, 40., 0, 20., 20., 25.],
               rec=[[60., 190.], [90., 150.], [20., -35.], [0., 10.], 30.,
                    40.])
    med = dict(aniso=[1.5, 2., 1.2], epermH=[1e5, 3e5, 1e5],
               epermV=[2e5, 1e5, 7e5], mpermH=[1., 2., 1.5],
               mpermV=[1.2, 2., 3.])
    medk = dict.fromkeys(med)

    def band(inp, p):
        p['EM'] *= 3.

    #             default, other
    val = dict(
        signal=dict(def_=0, oth=1), ab=dict(def_=11, oth=12),
        squeeze=dict(def_=True, oth=False),
        bandpass=dict(def_=None, oth={'func': band}),
        msrc=dict(def_=False, oth=True), mrec=dict(def_=False, oth=True),
        srcpts=dict(def_=1, oth=3), recpts=dict(def_=1, oth=3),
        strength=dict(def_=0, oth=2.5), ht=dict(def_='dlf', oth='quad'),
        htarg=dict(def_={}, oth={'dlf': T2}),
        ft=dict(def_='dlf', oth='fftlog'),
        ftarg=dict(def_={}, oth={'dlf': F2}),
        xdirect=dict(def_=False, oth=None), loop=dict(def_=None, oth='off'),
        solution=dict(def_='fs', oth='dfs'), gain=dict(def_=None, oth=.6),
        scale=dict(def_=1e3, oth=1e6),
        **{k: dict(def_=None, oth=v) for k, v in med.items()})

    def base(r, e):
        """Arguments of the experiment, and its values of the keywords."""
        a = dict(z, freqtime=100.)
        v = {k: dict(x) for k, x in val.items()}
        if r in ('bipole', 'loop'):
            a.update(bip)
        if r == 'loop':
            a['src'] = [0, 0, 20., 30., 40.]
            v['mrec'] = dict(def_=True, oth=False)
        if r == 'analytical':
            del a['depth']
            a['res'] = 3.
            for k in med:
                v[k]['oth'] = med[k][1]
        if r == 'dipole_k':
            del a['freqtime']
            a.update(freq=[100., 1.], wavenumber=[.001, .01, .1])
        if r == 'ip_and_q':
            a['ab'] = 44
            v['ab'] = dict(def_=44, oth=55)
            # (The documented default of ab is not possible here.)
        if e == 't':
            a['freqtime'] = [1e-5, 1e-4]
            if r == 'analytical':
                a.update(signal=0, solution='dhs')
            elif r == 'gpr':
                a.update(cf=1e5, ht='dlf', htarg=emp.HT, freqtime=[3e-6, 1e-5],
                         ftarg={'dfreq': 1e4, 'nfreq': 16})
                v['ftarg'] = dict(def_=a['ftarg'],
                                  oth={'dfreq': 2e4, 'nfreq': 16})
                v['htarg']['def_'] = emp.HT
            else:
                a.update(signal=0, htarg=emp.HT, ftarg=emp.FT)
                v['htarg']['def_'], v['ftarg']['def_'] = emp.HT, emp.FT
                v['ftarg']['oth'] = {'dlf': F2, 'pts_per_dec': 0}
        return a, v

    def anything(r, k, rng):
        """Some value for a keyword without influence."""
        own = {'ht': ['quad', 'qwe', 'dlf', 'nonsense'], 'depth': [[0, 10.]],
               'ft': ['fftlog', 'qwe', 7], 'ab': [12, 33, 'x'],
               'xdirect': [True, None, False],
               'loop': ['freq', 'off'], 'signal': [0, 1, None],
               'freq': [3.], 'freqtime': [3.], 'wavenumber': [.1],
               'solution': ['dhs', 'dsplit'], 'squeeze': [False],
               'bandpass': [{'func': band}], 'msrc': [True, 'b'],
               'mrec': [True, 'loop'], 'strength': [10., -3],
               'srcpts': [5], 'recpts': [7], 'cf': [1.], 'gain': [2.],
               'htarg': [{'dlf': T2}, {'pts_per_dec': -1}],
               'ftarg': [{'dlf': F2}, {'q': .1}]}.get(k, [])
        if r in ('ip_and_q', 'loop') and k in ('xdirect', 'msrc', 'srcpts'):
            return rng.choice(own)
        return rng.choice(own+[None, 0, -1, 'abc', [], {}, {'a': 1},
                               np.ones(3), 1e300, float('nan'), True, len])

    ref = {}

    def reference(r, e, eff):
        key = (r, e, tuple(sorted(eff)))
        if key not in ref:
            a, v = base(r, e)
            for k in eff:
                a[k] = v[k]['oth']
            o = vlib.call(getattr(empymod.model, r), verb=0, **a)
            ref[key] = np.array(o.value) if o.ok else o
        return ref[key]

    def replay(c):
        r, e, rng = c['r'], c['e'], chk.rng
        a, v = base(r, e)
        given = list(c['given'])
        for g in given:
            k = g['k']
            a[k] = (v[k]['def_'] if g['v'] == 'def' else v[k]['oth']
                    if g['v'] == 'oth' else anything(r, k, rng))
        if not any(g['k'] == 'signal' for g in given) and e == 'f' and \
                r in ('bipole', 'dipole', 'analytical', 'ip_and_q') and \
                rng.random() < .2:
            a['signal'] = None
        items = list(a.items())
        rng.shuffle(items)
        verb = rng.choice([None, 0, 0, 1, 2, 3])
        if verb is not None:
            items.insert(rng.randrange(len(items)+1), ('verb', verb))
        o = vlib.call(getattr(empymod.model, r), **dict(items))
        det = dict(c=c, args=repr(a)[:600], verb=verb, got=o)
        chk.case(repr((c, verb)), c)
        if c['out']['k'] == 'refused':
            chk.check(not o.ok and isinstance(o.exc, TypeError),
                      'unknown keyword not refused', det)
            return
        want = reference(r, e, c['out']['eff'])
        if isinstance(want, vlib.Out):
            chk.check(not o.ok and type(o.exc) is type(want.exc),
                      'other outcome than without the keywords', det)
            return
        if not chk.check(o.ok, 'known keyword refused', det):
            return
        got = np.array(o.value)
        if chk.check(got.shape == want.shape and got.dtype == want.dtype,
                     'keyword without influence changes the shape',
                     dict(det, want=want.shape, have=got.shape)):
            chk.check(vlib.close(got, want, 1e-12, 0,
                                 np.abs(want).max() or 1),
                      'result depends on a keyword without influence '
                      '(or on giving a default)', dict(det, want=want))
        if verb == 0:
            chk.check(o.text.strip() == '', 'output with verb=0', det)
        else:
            un = [t for t in o.text.split('\n') if 'WARNING' in t and
                  'kwargs' in t]
            w = c['out']['warn']
            chk.check(bool(un) == bool(w), 'warning about unused keywords',
                      det)
            for k in w:
                chk.check(any(repr(k) in t for t in un) or
                          repr(k) in o.text, f'no warning about {k}', det)
        if len(given) == 1 and given[0]['v'] == 'oth':
            b = reference(r, e, [])
            same = b.shape == got.shape and vlib.close(
                got, b, 1e-9, 0, np.abs(b).max())
            if c['out']['eff']:
                chk.check(not same, 'keyword has no effect', det)

    cx = chk.tlc_wait(hx)['cases']
    cs = chk.tlc_wait(hs)['cases']
    chk.extra['requests_in_model'] = len(cx)+len(cs)
    chk.rng.shuffle(cx)
    n = chk.parallel(replay, cx, budget=chk.elapsed() +
                     (300 if chk.thorough else 40))
    chk.extra['exhaustive_requests'] = len(cx)
    chk.extra['exhaustive_replayed'] = n
    chk.rng.shuffle(cs)
    chk.parallel(replay, cs, budget=chk.elapsed() +
                 (300 if chk.thorough else 15))

    # get_kwargs itself: values in the order of the names.
    r = chk.rng
    for _ in range(300):
        names = r.sample(['ht', 'verb', 'loop', 'squeeze', 'ab', 'own'], 4)
        d = [object() for _ in names]
        kw = {k: object() for k in names if r.random() < .5}
        if 'verb' in names:
            d[names.index('verb')] = r.choice([0, 2])
        if 'verb' in kw:
            kw['verb'] = r.choice([0, 1])
        for k in ('cf', 'recpts'):
            if r.random() < .3:
                kw[k] = 1
        bad = r.random() < .2
        if bad:
            kw['owN'] = 1
        o = vlib.call(utils.get_kwargs, list(names), list(d), dict(kw))
        det = dict(names=names, kw=list(kw), got=o)
        chk.case(('get_kwargs', tuple(names), tuple(kw)))
        if bad:
            chk.check(not o.ok and isinstance(o.exc, TypeError),
                      'get_kwargs: not refused', det)
            continue
        chk.check(o.ok and len(o.value) == 4 and all(
            x is kw.get(k, y) for x, k, y in zip(o.value, names, d)),
            'get_kwargs: values', det)
    # Routines with fixed signature.
    for fn, a in ((empymod.scripts.tmtemod.dipole,
                   dict(src=[0, 0, 1], rec=[9, 9, 9], depth=[0, 100],
                        res=[2., 1, 2], freqtime=1.)),
                  (empymod.scripts.fdesign.design, dict(
                   n=3, spacing=.5, shift=0., fI=None))):
        for k in ('foo', 'ht', 'xdirect'):
            o = vlib.call(fn, verb=0, **{**a, k: 1})
            chk.check(not o.ok and isinstance(o.exc, TypeError),
                      'unknown keyword not refused',
                      dict(fn=fn.__name__, k=k, got=o))
            chk.case((fn.__name__, k))


if __name__ == '__main__':
    vlib.main('C26', run, 'model_checking')
