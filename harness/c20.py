"""C20: filter collections, their cache, and the filters in them."""
import os
import sys
import threading
import warnings

import vlib

OLD = {(1, 'kong_61_2007b'): 'kong_61_2007',
       (2, 'key_81_2009'): 'key_81_CosSin_2009',
       (2, 'key_241_2009'): 'key_241_CosSin_2009',
       (2, 'key_601_2009'): 'key_601_CosSin_2009',
       (2, 'key_101_2012'): 'key_101_CosSin_2012',
       (2, 'key_201_2012'): 'key_201_CosSin_2012',
       **{(1, n): n for n in (
           'kong_241_2007', 'key_101_2009', 'key_201_2009', 'key_401_2009',
           'anderson_801_1982', 'key_51_2012', 'key_101_2012',
           'key_201_2012', 'wer_201_2018')}}


def run(chk):
    cs = dict(Threads='{1, 2, 3}', NName=4, Parts=3, MaxLen=20)
    h = chk.tlc_start('Collections', workers=4, consts=cs, depth=80,
                      simulate=4000 if chk.thorough else 1200)
    # The protocol itself, exhaustively (histories not distinguished).
    hx = chk.tlc_start('Collections', workers=1, cfg=(
        'SPECIFICATION Spec\nINVARIANT Complete\nPROPERTY Grows Served\n'
        'VIEW View\nCHECK_DEADLOCK FALSE\n'),
        consts=dict(Threads='{1, 2}', NName=2, Parts=3, MaxLen=60))
    import emp
    from emp import np, filters
    import libdlf
    lib = {1: libdlf.hankel, 2: libdlf.fourier}
    cls = {1: filters.Hankel, 2: filters.Fourier}
    names = {k: list(lib[k].__all__) for k in lib}
    truth = {}
    for k in lib:
        for nm in names[k]:
            f = getattr(lib[k], nm)
            truth[k, nm] = dict(zip(['base']+list(f.values),
                                    [np.array(x) for x in f()]))

    def intact(k, nm, f):
        t = truth[k, nm]
        bad = [] if type(f) is filters.DigitalFilter else ['type']
        if f.name != nm:
            bad.append('name')
        for p in ('base', 'j0', 'j1', 'sin', 'cos'):
            if hasattr(f, p) != (p in t):
                bad.append(p)
            elif p in t and not np.array_equal(getattr(f, p), t[p]):
                bad.append(p)
        if np.shape(getattr(f, 'factor', 0)) != (1,) or not np.allclose(
                f.factor, t['base'][1]/t['base'][0], rtol=1e-13, atol=0):
            bad.append('factor')
        return bad

    # Every filter by itself.
    for k in cls:
        col = cls[k]()
        chk.check(sorted(col.available) == sorted(names[k]),
                  'available filters', dict(k=k, got=col.available))
        chk.check(set(names[k]) <= set(dir(col)), 'filters listed by dir()',
                  dict(k=k))
        for nm in names[k]:
            o = vlib.call(getattr, col, nm)
            chk.case(('static', k, nm), dict(collection=k, filter=nm))
            if not chk.check(o.ok, 'filter cannot be loaded',
                             dict(k=k, name=nm, got=o)):
                continue
            f = o.value
            bad = intact(k, nm, f)
            chk.check(not bad, 'filter differs from the library',
                      dict(k=k, name=nm, bad=bad))
            cf = [p for p in ('j0', 'j1', 'sin', 'cos') if hasattr(f, p)]
            want = {1: {'j0', 'j1'}, 2: {'sin', 'cos'}}[k]
            b = f.base
            lb = np.diff(np.log(b))
            chk.check(cf and set(cf) <= want and all(
                getattr(f, p).shape == b.shape == (b.size,) and
                np.all(np.isfinite(getattr(f, p))) for p in cf),
                'coefficients', dict(k=k, name=nm))
            chk.check(np.all(b > 0) and np.all(lb > 0) and
                      np.allclose(lb, lb[0], rtol=2e-3) and
                      abs(np.exp(np.log(b[-1]/b[0])/(b.size-1)) /
                          f.factor[0]-1) < 1e-3, 'base',
                      dict(k=k, name=nm))

    cases = chk.tlc_wait(h)['cases']
    chk.tlc_wait(hx)
    chk.rng.shuffle(cases)
    chk.extra['histories_in_model'] = len(cases)

    # Histories, each in a process that has loaded nothing, with the reading
    # of the library halted and resumed as the behaviour says.
    class Gate:
        def __init__(self, f):
            self.f, self.values = f, f.values

        def __call__(self):
            me = threading.current_thread()
            if hasattr(me, 'go'):
                me.halted.set()
                me.go.acquire()
            return self.f()

    out = os.path.join(chk.scratch, 'bad')

    def history(it):
        i, c = it
        for d in filters.FILTERS.values():
            for n in d:
                d[n] = None
        pick = {k: chk.rng.sample(names[k], 4) for k in names}
        if chk.rng.random() < .5:
            pick[1][0] = pick[2][0] = 'wer_201_2018'
        if chk.rng.random() < .5:
            # only one coefficient set
            pick[1][1], pick[2][1] = 'gupt_47_1997', 'grayver_50_2021'
        for k in pick:
            for nm in pick[k]:
                f = getattr(lib[k], nm)
                if not isinstance(f, Gate):
                    setattr(lib[k], nm, Gate(f))
        live, col, seen = {}, {1: [cls[1]()], 2: [cls[2]()]}, {}

        def judge(k, nm, o, how):
            det = dict(log=c['log'], pick=pick, k=k, name=nm, how=how)
            if not chk.check(o.ok, f'{how}: filter not obtained',
                             dict(det, got=o)):
                return
            bad = intact(k, nm, o.value)
            chk.check(not bad, f'{how}: not the requested filter',
                      dict(det, bad=bad))
            seen.setdefault((k, nm), []).append(o.value)

        def work(th, k, nm):
            try:
                th.out = vlib.Out(getattr(chk_col(k), nm))
            except Exception as e:
                th.out = vlib.Out(None, e)
            th.halted.set()

        def chk_col(k):
            return chk.rng.choice(col[k])

        def settle(t):
            th = live[t][0]
            th.halted.wait(1)   # (it may wait for others)
            th.halted.clear()
            if hasattr(th, 'out'):
                th.join()
                judge(*live.pop(t)[1:], th.out, 'get')

        for e in c['log']:
            t, k = e['t'], e['k']
            if e['e'] == 'get':
                if t in live:
                    live[t][0].go.release()
                    settle(t)
                nm = pick[k][e['name']-1]
                th = threading.Thread()
                th.halted, th.go = threading.Event(), threading.Semaphore(0)
                th.run = lambda th=th, k=k, nm=nm: work(th, k, nm)
                live[t] = th, k, nm
                th.start()
                settle(t)
            elif e['e'] == 'read' and t in live:
                live[t][0].go.release()
                settle(t)
            elif e['e'] == 'unknown':
                nm = chk.rng.choice(['nofilter', 'j0', 'hankel', pick[3-k][0]
                                     + '_x', 'key_201_CosSin_2009'])
                o = vlib.call(getattr, chk_col(k), nm)
                chk.check(isinstance(o.exc, AttributeError),
                          'unknown filter', dict(k=k, name=nm, got=o))
            elif e['e'] == 'new':
                col[k].append(cls[k]())
            elif e['e'] == 'old':
                nm = pick[k][e['name']-1]
                if (k, nm) in OLD:
                    with warnings.catch_warnings(record=True) as w:
                        warnings.simplefilter('always')
                        o = vlib.Out(value=getattr(filters, OLD[k, nm])())
                    judge(k, nm, o, 'old')
                    chk.check(any(issubclass(x.category, DeprecationWarning)
                                  for x in w), 'deprecation', dict(name=nm))
        for t in list(live):
            while t in live:
                live[t][0].go.release()
                settle(t)
        # Everything obtained is still intact, and what the cache has too.
        for (k, nm), fs in seen.items():
            for f in fs+[getattr(cls[k](), nm)]:
                bad = intact(k, nm, f)
                chk.check(not bad, 'filter changed later on',
                          dict(log=c['log'], name=nm, bad=bad))
            chk.check(getattr(cls[k](), nm) is getattr(cls[k](), nm),
                      'not cached', dict(k=k, name=nm))
        chk.case(tuple((e['e'], e['t'], e['k'], e['name'])
                       for e in c['log']), c)
        chk.traces += 1

    chk.parallel(history, list(enumerate(cases)), budget=chk.elapsed() +
                 (300 if chk.thorough else 15))

    # Selection by name in the transforms.
    from emp import utils
    for k, fn, key in ((1, utils.check_hankel, 'dlf'),
                       (2, None, 'dlf')):
        for nm in names[k]:
            if k == 1:
                o = vlib.call(fn, 'dlf', {'dlf': nm}, 0)
                f = o.value[1]['dlf'] if o.ok else None
            else:
                o = vlib.call(utils.check_time, np.array([1.]), 0, 'dlf',
                              {'dlf': nm, 'kind': 'sin'}, 0, True)
                f = o.value[3]['dlf'] if o.ok else None
            if k == 1 and len(truth[k, nm]) == 2:
                ok = isinstance(o.exc, AttributeError)  # incomplete: refused
            else:
                ok = o.ok and not intact(k, nm, f)
            chk.check(ok, 'filter by name', dict(name=nm, k=k, got=o))


if __name__ == '__main__':
    vlib.main('C20', run, 'model_checking')
