"""C21: saved data are read back exactly."""
import os
import shutil
import subprocess
import sys

import vlib

INFO = {'none': None, 'plain': 'Some info', 'colon': 'a: b: (c, d)',
        'datum': 'about the data', 'hash': '# shape: (1, 2) #',
        'accent': 'Übertragung ∂B/∂t'}

# Reads what others wrote, on a system with another language and encoding.
FOREIGN = """
import sys, os, locale
sys.path.insert(0, sys.argv[1])
import numpy as np
from empymod import io
d = sys.argv[2]
for f in sorted(os.listdir(d)):
    if f.endswith(('.txt', '.json')):
        p = os.path.join(d, f)
        try:
            np.save(p+'.got.npy', np.asarray(io.load_data(p)))
        except Exception as e:
            with open(p+'.exc', 'w') as g:
                g.write(ascii(e))
print(locale.getpreferredencoding(False))
"""


def run(chk):
    cl = ('{"zero", "negzero", "int", "rand", "tiny", "subnormal", "huge", '
          '"inf", "nan"}')
    base = dict(Leaves='{"int"}', Arrays='{}', Depth=0, StackMax=0)
    h = chk.tlc_start('Store', workers=4, depth=150, consts=dict(
        base, Mode='"data"', Files='{1, 2, 3, 4}', Dims='{1, 2, 5}',
        Classes=cl, MaxLen=14),
        simulate=2000 if chk.thorough else 150)
    # Every descriptor of a smaller set, saved once.
    hx = chk.tlc_start('Store', workers=4, consts=dict(
        base, Mode='"data"', Files='{1}', Dims='{1, 3}',
        Classes='{"zero", "inf", "tiny"}', MaxLen=1))
    import emp
    from emp import np, io, utils
    import store
    from pathlib import Path
    allcl = [c.strip(' "') for c in cl[1:-1].split(',')]

    def same(a, b):
        return (isinstance(b, utils.EMArray) and a.shape == b.shape and
                np.iscomplexobj(a) == np.iscomplexobj(b) and
                store.bits(np, a) == store.bits(np, b))

    away = os.path.join(chk.scratch, 'away')
    os.makedirs(away)

    def send(path, want):
        """Let it be read elsewhere."""
        n = f'{os.getpid()}-{len(os.listdir(away))}'
        np.save(os.path.join(away, n+'.want.npy'), want)
        shutil.copy(path, os.path.join(
            away, n+'.'+path.rsplit('.', 1)[1]))

    def read(p):
        with open(p, 'rb') as f:
            return f.read()

    def history(it):
        i, c = it
        d = os.path.join(chk.scratch, f'h{i}')
        os.makedirs(d)
        os.chdir(d)
        held, objs = {}, {}

        def name(f):
            n = f'file.{f}.' + ('txt' if f % 2 == 0 else 'json')
            return chk.rng.choice([n, os.path.join(d, n), './'+n,
                                   Path(n)])

        def full(f):
            return os.path.join(d, f'file.{f}.' +
                                ('txt' if f % 2 == 0 else 'json'))

        for e in c['log']:
            f, x = e['f'], e['x']
            det = dict(log=c['log'], event=e)
            if e['e'] == 'save':
                a = store.data(np, chk.rng, x)
                if chk.rng.random() < .3:
                    a = utils.EMArray(a)
                elif chk.rng.random() < .3:
                    a = np.asfortranarray(a)
                cpy = np.array(a)
                kw = {} if INFO[x['info']] is None else {
                    'info': INFO[x['info']]}
                o = vlib.call(io.save_data, name(f), a, **kw)
                chk.check(o.ok, 'data not saved', dict(det, got=o))
                chk.check(store.bits(np, a) == store.bits(np, cpy),
                          'data modified', det)
                held[f] = cpy
            elif e['e'] == 'refused':
                before = read(full(f)) if f in held else None
                w = x['what']
                n = {'dim2': 2, 'dim4': 4, 'dim0': 0, 'suffix': 3}[w]
                nm = full(f)
                if w == 'suffix':
                    nm = nm.rsplit('.', 1)[0]+chk.rng.choice(
                        ['.csv', '', '.jsn', '.json.bak', 'txt'])
                ls = set(os.listdir(d))
                o = vlib.call(io.save_data, nm, np.ones((2,)*n))
                chk.check(isinstance(o.exc, ValueError),
                          'bad data or format accepted', dict(det, got=o))
                chk.check(set(os.listdir(d)) == ls and
                          before == (read(full(f)) if f in held else None),
                          'refused save left a trace', det)
            elif e['e'] == 'load':
                if e['by'] == 'foreign' and x['what'] != 'nothing':
                    send(full(f), held[f])
                    continue
                o = vlib.call(io.load_data, name(f))
                if x['what'] == 'nothing':
                    chk.check(isinstance(o.exc, OSError), 'no file',
                              dict(det, got=o))
                else:
                    chk.check(o.ok and same(held[f], o.value),
                              'loaded data differ from the saved data',
                              dict(det, got=o, want=repr(held[f])))
            elif e['e'] == 'copy':
                o = vlib.call(io.load_data, name(f))
                if chk.check(o.ok, 'cannot load', dict(det, got=o)):
                    o = vlib.call(io.save_data, name(x['to']), o.value)
                    chk.check(o.ok, 'cannot save', dict(det, got=o))
                held[x['to']] = held[f]
        for f in held:
            o = vlib.call(io.load_data, name(f))
            chk.check(o.ok and same(held[f], o.value),
                      'loaded data differ from the saved data',
                      dict(log=c['log'], file=f, got=o,
                           want=repr(held[f])))
        os.chdir(chk.scratch)
        shutil.rmtree(d)
        chk.case(repr(c['log']), c)
        chk.traces += 1

    cases = chk.tlc_wait(h)['cases']
    once = [c for c in chk.tlc_wait(hx)['cases']
            if c['log'][0]['e'] == 'save']
    chk.rng.shuffle(once)
    chk.extra['histories_in_model'] = len(cases)
    chk.extra['descriptors_in_model'] = len(once)
    chk.parallel(history, list(enumerate(cases)), budget=chk.elapsed() +
                 (200 if chk.thorough else 12))

    # All descriptors, both formats; classes replaced by the full set.
    def single(it):
        i, c = it
        x = dict(c['log'][0]['x'])
        if i % 2:
            x['re'] = [chk.rng.choice(allcl) for _ in range(2)]
            x['im'] = [chk.rng.choice(allcl) for _ in range(2)]
        a = store.data(np, chk.rng, x)
        for ext in ('txt', 'json'):
            p = os.path.join(chk.scratch, f's{os.getpid()}.{ext}')
            kw = {} if INFO[x['info']] is None else {'info': INFO[x['info']]}
            o = vlib.call(io.save_data, p, a, **kw)
            if o.ok:
                o = vlib.call(io.load_data, p)
            chk.check(o.ok and same(a, o.value),
                      f'{ext}: loaded data differ from the saved data',
                      dict(x=x, got=o, want=repr(a)))
            if o.ok and i % 20 == 0:
                send(p, a)
            chk.case((ext, repr(x)), x)

    chk.parallel(single, list(enumerate(once)), budget=chk.elapsed() +
                 (100 if chk.thorough else 10))

    # The foreign reader.
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(('LC_', 'LANG', 'PYTHON'))}
    env.update(LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0',
               NUMBA_DISABLE_JIT='1', PYTHONDONTWRITEBYTECODE='1')
    prog = os.path.join(chk.scratch, 'foreign.py')
    with open(prog, 'w') as f:
        f.write(FOREIGN)
    o = subprocess.run(
        [sys.executable, '-W', 'ignore', prog, os.path.dirname(
            os.path.dirname(os.path.abspath(emp.empymod.__file__))), away],
        env=env, capture_output=True, text=True, timeout=600)
    chk.check(o.returncode == 0, 'foreign reader failed',
              dict(err=o.stderr[-2000:]))
    chk.extra['foreign_encoding'] = o.stdout.strip()
    n = 0
    for f in sorted(os.listdir(away)):
        if not f.endswith(('.txt', '.json')):
            continue
        p = os.path.join(away, f)
        want = np.load(p.rsplit('.', 1)[0]+'.want.npy')
        if os.path.isfile(p+'.got.npy'):
            got = np.load(p+'.got.npy')
            ok = got.shape == want.shape and store.bits(
                np, got) == store.bits(np, want)
        else:
            got, ok = read(p+'.exc'), False
        n += 1
        if not chk.check(ok, 'elsewhere: loaded data differ from the saved '
                         'data', dict(got=repr(got), want=repr(want),
                                      file=read(p)[:400])):
            break
    chk.extra['foreign_reads'] = n

    # What the modelling routines return.
    st = emp.stack(3)
    for fn, args in (('dipole', ([0, 0, 10], [[30., 50], [0, 0], 20])),
                     ('bipole', ([0, 9, 0, 0, 10, 10], [50., 2, 20, 0, 0]))):
        for kw in (dict(freqtime=[1., 3]), dict(freqtime=1., signal=0),
                   dict(freqtime=[-1., -2]), dict(freqtime=2., ab=36)
                   if fn == 'dipole' else dict(freqtime=2.)):
            a = getattr(emp.empymod, fn)(*args, squeeze=False, verb=0,
                                         **emp.TINY, **st, **kw)
            for ext in ('txt', 'json'):
                p = os.path.join(chk.scratch, 'r.'+ext)
                io.save_data(p, a)
                b = io.load_data(p)
                chk.check(same(np.asarray(a), b), 'field', dict(kw=kw))


if __name__ == '__main__':
    vlib.main('C21', run, 'model_checking')
