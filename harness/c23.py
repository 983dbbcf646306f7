"""C23: digital filters survive storing and loading."""
import os
import shutil

import vlib


def run(chk):
    h = chk.tlc_start('Filters', workers=4, depth=60, consts=dict(
        Dirs='{1, 2}', Names='{"s1", "s2"}', MaxLen=14,
        Coeffs='{"j0", "j1", "sin", "cos", "extra"}'),
        simulate=5000 if chk.thorough else 350)
    hx = chk.tlc_start('Filters', workers=4, consts=dict(
        Dirs='{1}', Names='{"s1"}', Coeffs='{"j0", "extra"}',
        MaxLen=4 if not chk.thorough else 5))
    import emp
    from emp import np, filters
    from empymod.scripts import fdesign

    NAMES = ['flt', 'my-filter_1', 'a b', 'ünit', 'j0', 'x_base', '1']

    def vals(v, n, r):
        """Coefficients of value v."""
        s = np.random.RandomState(v*7+r)
        a = s.uniform(-1, 1, n)*10.**s.randint(-300, 300, n)
        a[s.randint(n)] = s.choice([0., -0., 1., 5e-324, 1.7e308, -1/3.])
        return a

    def fullout(v, r):
        s = np.random.RandomState(v*11+r)
        ns, nh = s.randint(1, 4), s.randint(1, 4)
        m = s.uniform(-1, 1, (ns, nh))*10.**s.randint(-30, 30, (ns, nh))
        if s.rand() < .3:
            m.ravel()[0] = np.inf
        return (s.uniform(-2, 2, 2), s.choice([1e-12, 3.3, 1e5]),
                s.uniform(-1, 1, (2, ns, nh)), m, int(s.randint(2)))

    def history(it):
        i, c = it
        rng = chk.rng
        d0 = os.path.join(chk.scratch, f'h{i}')
        os.makedirs(d0)
        os.chdir(d0)
        r = rng.randrange(1000)
        nm = dict(zip(['s1', 's2'], rng.sample(NAMES, 2)))
        dirs = {1: os.path.join(d0, 'filters'), 2: os.path.join(
            d0, rng.choice(['x/y', 'out put', 'filters2']))}
        via = rng.random() < .4      # names with dots: only DigitalFilter

        def path(d):
            if d == 1 and rng.random() < .3:
                return {}
            return {'path': rng.choice([
                dirs[d], os.path.relpath(dirs[d]), dirs[d]+'/'])}
        objs = {}
        dotted = not via and all(e['e'] not in ('save', 'load')
                                 for e in c['log'])
        if dotted:
            nm = {k: v+rng.choice(['.v1', '.0.5', '.gz']) for k, v in
                  nm.items()}
        size = {}

        def expect(o, v, what, det):
            """Is filter o what the specification says?"""
            t = v['val']
            n = size.get(t['base'])
            ok = o.name == o.mine if hasattr(o, 'mine') else True
            for p, k in t.items():
                if not k:
                    ok &= not hasattr(o, p)
                else:
                    a = getattr(o, p, None)
                    w = base(k) if p == 'base' else vals(
                        k*10+len(p)+ord(p[0])+ord(p[-1]), size[k], r)
                    ok &= (isinstance(a, np.ndarray) and a.dtype == float and
                           a.shape == w.shape and
                           a.tobytes() == w.tobytes())
            if t['base'] and what != 'memory':
                fa = np.asarray(o.factor).ravel()
                ok &= fa.size == 1 and abs(
                    fa[0]-factor(t['base'])) <= 2e-15*fa[0]
            chk.check(ok, f'{what}: not the filter that was stored',
                      dict(det, want=v, n=n, got={
                          p: repr(getattr(o, p, None)) for p in t}))

        def base(v):
            s = np.random.RandomState(v+r)
            n = size[v]
            return 10.**np.linspace(-s.uniform(1, 8), s.uniform(1, 5), n)

        def factor(v):
            b = base(v)
            return np.around(b[1]/b[0], 15)

        for e in c['log']:
            det = dict(log=c['log'], event=e, r=r, names=nm)
            o = objs.get(e['o'])
            name = nm[e['s']]
            if e['e'] == 'new':
                kw = {}
                if e['v']['extra']:
                    kw['filter_coeff'] = ['extra']
                # The name of the files can differ from that of the filter.
                if rng.random() < .3 and not any(
                        x['e'] in ('save', 'load') for x in c['log']):
                    kw['savename'] = name
                    o = filters.DigitalFilter('other', **kw)
                    o.mine = 'other'
                else:
                    o = filters.DigitalFilter(name, **kw)
                    o.mine = name
                v = e['v']['val']['base']
                size[v] = rng.choice([2, 3, 7, 31])
                for p, k in e['v']['val'].items():
                    if k:
                        setattr(o, p, base(k) if p == 'base' else vals(
                            k*10+len(p)+ord(p[0])+ord(p[-1]), size[k], r))
                o.factor = np.array([factor(v)])
                objs[e['o']] = o
                expect(o, e['v'], 'memory', det)
            elif e['e'] == 'tofile':
                x = vlib.call(o.tofile, **path(e['d']))
                chk.check(x.ok, 'filter not stored', dict(det, got=x))
            elif e['e'] in ('fromfile', 'error'):
                x = vlib.call(o.fromfile, **path(e['d']))
                if e['e'] == 'error':
                    chk.check(isinstance(x.exc, OSError), 'nothing to read',
                              dict(det, got=x))
                else:
                    chk.check(x.ok, 'filter not read', dict(det, got=x))
                    expect(o, e['v'], 'fromfile', det)
            elif e['e'] == 'save':
                z = e['z']
                full = None if z == 'none' else fullout(e['v']['full'], r)
                x = vlib.call(fdesign.save_filter,
                              name+('' if z == 'none' else z), o, full,
                              **path(e['d']))
                chk.check(x.ok, 'filter not saved', dict(det, got=x))
            elif e['e'] == 'load':
                z = e['z']
                kw = path(e['d'])
                if e['v']['f']['extra']:
                    kw['filter_coeff'] = ['extra']
                x = vlib.call(fdesign.load_filter,
                              name+('' if z == 'none' else z),
                              z != 'none', **kw)
                if not chk.check(x.ok, 'filter not loaded', dict(det, got=x)):
                    break
                if e['v']['full']:
                    w = fullout(e['v']['full'], r)
                    ok = isinstance(x.value, tuple) and len(x.value) == 2
                    if ok:
                        g = x.value[1]
                        ok = len(g) == 5 and all(
                            np.shape(a) == np.shape(b) and
                            np.array_equal(a, b) for a, b in zip(g, w))
                    chk.check(ok, 'inversion output differs',
                              dict(det, got=repr(x.value), want=repr(w)))
                    o = x.value[0] if isinstance(x.value, tuple) else x.value
                else:
                    o = x.value
                    if not chk.check(isinstance(o, filters.DigitalFilter),
                                     'not a filter', dict(det, got=x)):
                        break
                o.mine = name
                objs[e['o']] = o
                expect(o, e['v']['f'], 'load_filter', det)
        os.chdir(chk.scratch)
        shutil.rmtree(d0)
        chk.case(repr(c['log']), c)
        chk.traces += 1

    cases = chk.tlc_wait(h)['cases']
    small = chk.tlc_wait(hx)['cases']
    chk.rng.shuffle(small)
    chk.extra['histories_in_model'] = len(cases)+len(small)
    chk.parallel(history, list(enumerate(cases)), budget=chk.elapsed() +
                 (200 if chk.thorough else 15))
    chk.parallel(history, list(enumerate(small, 10**6)), budget=chk.elapsed() +
                 (200 if chk.thorough else 8))

    # Filters of the library and designed ones; they are untouched.
    d = os.path.join(chk.scratch, 'lib')
    for col in (filters.Hankel(), filters.Fourier()):
        for nm in col.available:
            f = getattr(col, nm)
            cp = {k: np.array(v) for k, v in vars(f).items()
                  if isinstance(v, np.ndarray)}
            f.tofile(d)
            g = filters.DigitalFilter(nm)
            g.fromfile(d)
            gd = {k: v for k, v in vars(g).items()
                  if isinstance(v, np.ndarray)}
            chk.check(set(gd) == set(cp) and all(
                np.array_equal(gd[k], cp[k]) for k in cp if k != 'factor')
                and abs(gd['factor']/cp['factor']-1) < 1e-13,
                'library filter', dict(name=nm))
            chk.check(all(np.array_equal(getattr(f, k), v)
                          for k, v in cp.items()), 'filter modified',
                      dict(name=nm))
            chk.case(('lib', nm))
            # (The same name is in both collections.)
            shutil.rmtree(d)
    for sp, sh, fin, name in ((.6, (-1, 0, 3), None, 'd1'),
                              ((.5, .7, 2), -1., None, 'd2.gz'),
                              ((.5, .7, 2), (-1., 0., 2), True, 'd3'),
                              (.5, -.5, None, 'd4.gz')):
        kw = dict(r=np.logspace(-1, 2, 20), r_def=(1, 1, 1), verb=0, plot=0,
                  save=True, full_output=True, path=d, name=name, finish=fin)
        f, full = fdesign.design(11, sp, sh, fdesign.j0_1(), **kw)
        o = vlib.call(fdesign.load_filter, name, True, d)
        ok = o.ok and isinstance(o.value, tuple)
        if ok:
            g, gf = o.value
            ok = (np.array_equal(f.base, g.base) and f.name == g.name and
                  np.array_equal(f.j0, g.j0) and not hasattr(g, 'j1') and
                  abs(f.factor/g.factor-1).max() < 1e-13 and all(
                      np.shape(a) == np.shape(b) and np.array_equal(a, b)
                      for a, b in zip(full, gf)))
        chk.check(ok, 'designed filter', dict(name=name, got=o))
        chk.case(('design', name))


if __name__ == '__main__':
    vlib.main('C23', run, 'model_checking')
