"""C22: saved inputs come back, and reproduce the same computation."""
import math
import os
import shutil

import vlib

LEAVES = ['int', 'float', 'bool', 'none', 'str', 'nan', 'inf', 'npint',
          'npfloat', 'npbool', 'complex', 'filter']
ARRAYS = ['arr0', 'arr1', 'arrint', 'arrbool', 'arrempty', 'arr2', 'arrc',
          'emarr']


def run(chk):
    sets = dict(Leaves='{'+', '.join(f'"{x}"' for x in LEAVES)+'}',
                Arrays='{'+', '.join(f'"{x}"' for x in ARRAYS)+'}',
                Dims='{1}', Classes='{"zero"}', Mode='"input"')
    h = chk.tlc_start('Store', workers=4, depth=150, consts=dict(
        sets, Files='{1, 3, 5}', Depth=12, StackMax=4, MaxLen=12),
        simulate=4000 if chk.thorough else 600)
    hx = chk.tlc_start('Store', workers=4, consts=dict(
        sets, Files='{1}', Depth=1, StackMax=2, MaxLen=1,
        **({} if chk.thorough else dict(
            Leaves='{"int", "nan", "none", "str", "complex"}',
            Arrays='{"arr1", "arrempty", "arrc"}'))))
    import emp
    from emp import np, io, utils, empymod, filters
    from pathlib import Path

    def leaf(k, r):
        """(value, what comes back)"""
        if k in ('int', 'npint'):
            v = r.choice([0, 1, -7, 2**40, r.randrange(-99, 99)])
            return (v if k == 'int' else r.choice([np.int64, np.int_])(v)), v
        if k in ('float', 'npfloat'):
            v = r.choice([0., -0., 1e-300, 1.7e308, 5e-324, .1,
                          r.uniform(-1, 1)*10**r.uniform(-20, 20)])
            return (v if k == 'float' else np.float64(v)), v
        if k in ('bool', 'npbool'):
            v = r.random() < .5
            return (v if k == 'bool' else np.bool_(v)), v
        if k == 'none':
            return None, None
        if k == 'str':
            v = r.choice(['', 'dlf', 'a, b,', '{"x": 1}', '"', '\\', 'é∂', '}',
                          ',', '\n', 'NaN', "'"])
            return v, v
        if k == 'nan':
            return float('nan'), float('nan')
        if k == 'inf':
            v = r.choice([-1, 1])*float('inf')
            return v, v
        if k == 'complex':
            v = complex(r.uniform(-9, 9), r.choice([-0., 0., 1e-7, 3.]))
            return (v if r.random() < .5 else np.complex128(v)), [v.real,
                                                                  v.imag]
        if k == 'filter':
            f = emp.tiny_hankel(name=r.choice(['a', 'key_51_2012']))
            return f, f.name
        u = np.array([r.uniform(-9, 9), 10.**r.uniform(-300, 300)])
        w = np.array([r.uniform(-9, 9), float('inf')])
        a, b = {'arr0': lambda: (np.array(u[0]), float(u[0])),
                'arr1': lambda: (u, u.tolist()),
                'arrint': lambda: (np.array([3, -4]), [3, -4]),
                'arrbool': lambda: (np.array([True, False]), [True, False]),
                'arrempty': lambda: (np.array([]), []),
                'arr2': lambda: (np.array([u, w]).T.copy().T,
                                 [u.tolist(), w.tolist()]),
                'arrc': lambda: (u-1j*w[::-1][:1].clip(-8, 8),
                                 [u.tolist(), [-8., -8.]]),
                'emarr': lambda: (utils.EMArray(u+2j), [u.tolist(), [2., 2.]]),
                }[k]()
        return a, b

    KEYS = ['a', 'b', 'c', 'src', 'func eta', 'ä"', ',', '']

    def build(t, r):
        if t['k'] in ('list', 'tuple'):
            p = [build(c, r) for c in t['c']]
            v = [x[0] for x in p]
            return (v if t['k'] == 'list' else tuple(v)), [x[1] for x in p]
        if t['k'] == 'dict':
            p = [build(c, r) for c in t['c']]
            keys = r.sample(KEYS, len(p))
            return (dict(zip(keys, [x[0] for x in p])),
                    dict(zip(keys, [x[1] for x in p])))
        return leaf(t['k'], r)

    def shape(v):
        """The tree of a value, for comparison with the specification."""
        if isinstance(v, (list, dict)):
            k = 'list' if isinstance(v, list) else 'dict'
            return {'k': k, 'c': [shape(x) for x in (
                v.values() if k == 'dict' else v)]}
        k = ('none' if v is None else 'bool' if type(v) is bool else
             'int' if type(v) is int else 'str' if type(v) is str else
             'float' if type(v) is float else '?')
        if k == 'float' and math.isnan(v):
            k = 'nan'
        return {'k': k, 'c': []}

    def alike(t, s):
        if t['k'] in ('float', 'inf'):
            return s['k'] == 'float'
        return t['k'] == s['k'] and len(t['c']) == len(s['c']) and all(
            alike(a, b) for a, b in zip(t['c'], s['c']))

    def same(a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, dict):
            return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
        if isinstance(a, list):
            return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        if isinstance(a, float):
            return (math.isnan(a) and math.isnan(b)) or (
                a == b and math.copysign(1, a) == math.copysign(1, b))
        return a == b

    def history(it):
        i, c = it
        d = os.path.join(chk.scratch, f'h{i}')
        os.makedirs(d)
        os.chdir(d)
        held = {}

        def name(f):
            n = f'in.{f}.json'
            return chk.rng.choice([n, os.path.join(d, n), './'+n, Path(n)])

        def read(f):
            if f not in held:
                return None
            with open(f'{d}/in.{f}.json', 'rb') as fh:
                return fh.read()

        for e in c['log']:
            f, x = e['f'], e['x']
            det = dict(log=c['log'], event=e)
            if e['e'] == 'save':
                v, w = build(x['tree'], chk.rng)
                before = repr(v)
                o = vlib.call(io.save_input, name(f), v)
                chk.check(o.ok, 'input not saved', dict(det, got=o, v=repr(v)))
                chk.check(repr(v) == before, 'input modified', det)
                held[f] = w, repr(v)
            elif e['e'] == 'refused':
                before = read(f)
                ls = set(os.listdir(d))
                if x['what'] == 'suffix':
                    o = vlib.call(io.save_input, f'{d}/in.{f}.'+chk.rng.choice(
                        ['txt', 'jso', 'json.x']), {'a': 1})
                    ok = isinstance(o.exc, ValueError)
                    o2 = vlib.call(io.load_input, f'{d}/in.{f}.txt')
                    ok &= isinstance(o2.exc, ValueError)
                else:
                    o = vlib.call(io.save_input, name(f),
                                  {'a': 1, 'res': {'func_eta': lambda x: x}})
                    ok = isinstance(o.exc, TypeError)
                chk.check(ok, 'impossible input accepted', dict(det, got=o))
                chk.check(set(os.listdir(d)) == ls and before == read(f),
                          'refused save left a trace', det)
            elif e['e'] == 'load':
                o = vlib.call(io.load_input, name(f))
                if x['what'] == 'nothing':
                    chk.check(isinstance(o.exc, OSError), 'no file',
                              dict(det, got=o))
                else:
                    chk.check(o.ok and same(held[f][0], o.value) and
                              alike(x['tree'], shape(o.value)),
                              'loaded input differs from the saved input',
                              dict(det, got=o, saved=held[f][1]))
            elif e['e'] == 'copy':
                o = vlib.call(io.load_input, name(f))
                if chk.check(o.ok, 'cannot load', dict(det, got=o)):
                    o = vlib.call(io.save_input, name(x['to']), o.value)
                    chk.check(o.ok, 'cannot save', dict(det, got=o))
                held[x['to']] = held[f]
        for f in held:
            o = vlib.call(io.load_input, name(f))
            chk.check(o.ok and same(held[f][0], o.value),
                      'loaded input differs from the saved input',
                      dict(log=c['log'], file=f, got=o, saved=held[f][1]))
        os.chdir(chk.scratch)
        shutil.rmtree(d)
        chk.case(repr(c['log']), c)
        chk.traces += 1

    cases = chk.tlc_wait(h)['cases']
    once = [c for c in chk.tlc_wait(hx)['cases']
            if c['log'][0]['e'] == 'save']
    chk.rng.shuffle(once)
    chk.extra['histories_in_model'] = len(cases)
    chk.extra['inputs_in_model'] = len(once)
    chk.parallel(history, list(enumerate(cases)), budget=chk.elapsed() +
                 (200 if chk.thorough else 12))
    chk.parallel(history, [(10**6+i, c) for i, c in enumerate(once)],
                 budget=chk.elapsed() + (200 if chk.thorough else 12))

    # The loaded input gives the same result.
    def compute(i):
        r = chk.rng
        n = r.choice([1, 2, 3])
        st = emp.stack(n, var=i % 7)
        st['depth'] = list(st['depth'])
        form = r.choice([list, np.array, tuple])
        inp = {k: form(v) if r.random() < .7 else v for k, v in st.items()}
        if n == 1:
            inp['depth'] = []
        fn = r.choice(['dipole', 'bipole', 'loop', 'analytical'])
        if fn == 'dipole':
            inp.update(src=r.choice([[0, 0, 10], np.array([0., 0, 10])]),
                       rec=[form([30., 50.]), form([0, 7]), 20],
                       ab=int(r.choice([11, 45, 26, 53])))
        elif fn == 'bipole':
            inp.update(src=[0, np.float64(9), 0, 0, 10, 10],
                       rec=[form([30., 50.]), form([0, 7]), 20, 30, 4],
                       srcpts=np.int64(r.choice([1, 3])),
                       strength=r.choice([0, 7., np.float64(.3)]),
                       msrc=r.choice([True, False]))
        elif fn == 'loop':
            inp.update(src=[0, 0, 10, 0, 90], rec=[form([30., 50.]), 0., 20,
                                                   30, 4])
        else:
            inp = dict(src=[0, 0, 10], rec=[form([30., 50.]), form([0, 7]),
                                            20], res=3., aniso=1.4,
                       solution=r.choice(['fs', 'dfs', 'dsplit', 'dtetm']))
        if r.random() < .4:
            inp['freqtime'] = form([1e-3, .1])
            inp['signal'] = int(r.choice([-1, 0, 1]))
            if fn == 'analytical':
                inp['solution'] = r.choice(['dfs', 'dsplit', 'dtetm'])
            else:
                inp.update(ft='dlf', ftarg={
                    'dlf': r.choice(['key_81_2009',
                                     filters.Fourier().key_81_2009]),
                    'pts_per_dec': -1})
                if r.random() < .2:
                    inp['signal'] = {'nodes': form([-1., -.5]),
                                     'amplitudes': form([1, 0])}
        else:
            inp['freqtime'] = form([.1, 3.])
        if fn != 'analytical':
            inp.update(ht='dlf', htarg={
                'dlf': r.choice(['key_51_2012',
                                 filters.Hankel().key_51_2012]),
                'pts_per_dec': r.choice([0, -1])},
                xdirect=r.choice([None, True, False]))
        inp['verb'] = 0
        p = os.path.join(chk.scratch, f'c{os.getpid()}.json')
        io.save_input(p, inp)
        back = io.load_input(p)
        a = vlib.call(getattr(empymod, fn), **inp)
        b = vlib.call(getattr(empymod, fn), **back)
        chk.check(a.ok and b.ok and np.array_equal(a.value, b.value,
                                                   equal_nan=True),
                  'loaded input gives another result',
                  dict(fn=fn, inp=repr(inp), back=repr(back), a=a, b=b))
        chk.case(('compute', i))

    chk.parallel(compute, range(2000 if chk.thorough else 120),
                 budget=chk.elapsed() + (200 if chk.thorough else 15))


if __name__ == '__main__':
    vlib.main('C22', run, 'model_checking')
