"""C19: calls are functions of their arguments (and of the minimum values)."""
import hashlib
import json
import os
import sys
import threading

import vlib


def feed(h, o, depth=0):
    import numpy as np
    if depth > 8:
        return
    if isinstance(o, np.ndarray):
        h.update(f'A{o.dtype}{o.shape}'.encode())
        if o.dtype == object:
            for x in o.ravel():
                feed(h, x, depth+1)
        else:
            h.update(np.ascontiguousarray(o).tobytes())
    elif isinstance(o, (list, tuple)):
        h.update(f'{type(o).__name__}{len(o)}'.encode())
        for x in o:
            feed(h, x, depth+1)
    elif isinstance(o, dict):
        h.update(f'D{len(o)}'.encode())
        for k in o:
            h.update(repr(k).encode())
            feed(h, o[k], depth+1)
    elif callable(o):
        h.update(getattr(o, '__name__', '?').encode())
    elif hasattr(o, '__dict__') and not isinstance(o, type):
        h.update(type(o).__name__.encode())
        feed(h, o.__dict__, depth+1)
    elif isinstance(o, (np.generic, complex, float)):
        feed(h, np.asarray(o), depth+1)
    else:
        h.update(repr(o).encode())


def digest(o):
    h = hashlib.sha1()
    feed(h, o)
    return h.hexdigest()[:12]


MINS = [dict(), dict(min_off=60.), dict(min_freq=2.), dict(min_res=5.),
        dict(min_time=.5), dict(min_angle=.5)]


def run(chk):
    import emp
    from emp import np, empymod, utils, model, transform, kernel, filters
    from empymod.scripts import tmtemod, fdesign
    import contextlib
    import io

    def eta(inp, p):
        return p['etaH']*inp['m'][:, None].T, p['etaV']

    def ffilt(inp, p):
        return p

    def make(var=0):
        """Mutable objects that calls get (new ones at each call of make).

        The variants have the same shapes, names and options, and other
        numbers: everywhere (1), in the abscissae of the filters (2), at the
        end of the arrays and lists (3).
        """
        r = np.random.RandomState(3+(var == 1))
        p = objects(r)
        for k in p:
            p[k] = {0: lambda o: o, 1: vary, 2: stretch, 3: last}[var](p[k])
        return p

    def stretch(o):
        if isinstance(o, filters.DigitalFilter):
            o.base = o.base*1.25
        elif isinstance(o, dict):
            o = {k: stretch(v) for k, v in o.items()}
        return o

    def last(o):
        if isinstance(o, np.ndarray):
            o = o.copy()
            o.ravel()[-1] *= 1.25       # (a view)
        elif isinstance(o, float):
            o = o*1.25
        elif isinstance(o, list):
            o = o[:-1] + [last(o[-1])]
        elif isinstance(o, dict):
            o = dict(o)
            for k in ('m', 'nodes', 'rtol', 'limit', 'dfreq'):
                if k in o:
                    o[k] = last(o[k])
        elif isinstance(o, filters.DigitalFilter):
            for k in ('j0', 'j1', 'sin', 'cos'):
                if k in vars(o):
                    setattr(o, k, last(getattr(o, k)))
        return o

    def vary(o):
        if isinstance(o, np.ndarray):
            return o*1.25
        if isinstance(o, float):
            return o*1.25
        if isinstance(o, list):
            return [vary(x) for x in o]
        if isinstance(o, dict):
            keep = ('pts_per_dec', 'amplitudes', 'q', 'add_dec')
            return {k: v if k in keep else vary(v) for k, v in o.items()}
        if isinstance(o, filters.DigitalFilter):
            for k in ('j0', 'j1', 'sin', 'cos'):   # same name and base
                if k in vars(o):
                    setattr(o, k, getattr(o, k)[::-1].copy())
        return o

    def objects(r):
        return dict(
            src=[0., 0., 20.], rec=[[30., 90., 200.], [0., 10., -60.], 35.],
            msrc=[[0., 10.], [0., 5.], [1., 2.], [3., 4.], [20., 25.],
                  [21., 22.]],
            mrec=[np.array([100., 200.]), np.array([10., -20.]), 35., 10., 5.],
            depth=[0., 40., 90.], up=[0, -40., -90.], ddep=np.array([90., 40., 0.]),
            res=np.array([1e6, 3., .1, 20.]), resl=[1e6, 3, 1, 20],
            aniso=[1., 1.5, 1., 2.], ep=np.array([1., 5., 1., 80.]),
            mp=[1., 1.2, 2., 1.], f=np.array([.1, 1., 7.]), f1=[1., 10.],
            t=np.array([.3, .01, 1.]), lap=[-1., -3.],
            hook={'res': [1e6, 3., .1, 20.], 'm': np.array([1., 2., 3., 1.]),
                  'func_eta': eta},
            wave={'nodes': np.array([-1., -.5, 0, .2]),
                  'amplitudes': [0, 1., 1., 0], 'signal': 0},
            ht={'dlf': emp.tiny_hankel(), 'pts_per_dec': 0},
            hl={'dlf': emp.tiny_hankel(9), 'pts_per_dec': -1},
            hs={'dlf': emp.tiny_hankel(9), 'pts_per_dec': 7},
            ft={'dlf': emp.tiny_fourier(), 'pts_per_dec': 0},
            fl={'dlf': emp.tiny_fourier(9), 'pts_per_dec': -1},
            hq={'rtol': 1e-3, 'nquad': 9, 'maxint': 8, 'pts_per_dec': 3,
                'diff_quad': 10},
            hqu={'limit': 30, 'rtol': 1e-2, 'a': 1e-4, 'b': .2,
                 'pts_per_dec': 8},
            fq={'maxint': 8, 'nquad': 5, 'pts_per_dec': 4},
            flog={'pts_per_dec': 5, 'add_dec': [-1, 1], 'q': .2},
            fft={'dfreq': .05, 'nfreq': 16, 'ntot': 64},
            ff={'dfreq': .05, 'nfreq': 16, 'pts_per_dec': 4},
            k=np.array([[.01, .1], [.2, 1.]]), x=r.uniform(1, 2, (3, 1, 4)),
            e=r.uniform(1, 2, (3, 4))+1j*r.uniform(0, 1, (3, 4)),
            resdict={'r': [1, 2]}, sigs=[1, -1],
        )

    D, B = empymod.dipole, empymod.bipole
    m = dict(verb=0)

    def M(p):
        return dict(depth=p['depth'], res=p['res'], aniso=p['aniso'],
                    epermH=p['ep'], mpermV=p['mp'], verb=0)

    C = []

    def c(f):
        C.append(f)

    c(lambda p: (D, (p['src'], p['rec']), dict(M(p), freqtime=p['f'], ht='dlf', htarg=p['ht'])))
    c(lambda p: (D, (p['src'], p['rec']), dict(M(p), freqtime=p['f'], ht='dlf', htarg=p['hl'], ab=33)))
    c(lambda p: (D, (p['src'], p['rec']), dict(M(p), freqtime=p['f'], ht='dlf', htarg=p['hs'], ab=24, loop='off')))
    c(lambda p: (D, (p['src'], p['rec']), dict(M(p), freqtime=p['f'], ht='dlf', htarg=p['ht'], ab=42, loop='freq', xdirect=True)))
    c(lambda p: (D, (p['src'], p['rec']), dict(M(p), freqtime=1., ht='qwe', htarg=p['hq'])))
    c(lambda p: (D, (p['src'], p['rec']), dict(M(p), freqtime=1., ht='quad', htarg=p['hqu'], ab=13)))
    c(lambda p: (D, (p['src'], p['rec']), dict(M(p), freqtime=p['t'], signal=1, ht='dlf', htarg=p['ht'], ft='dlf', ftarg=p['ft'])))
    c(lambda p: (D, (p['src'], p['rec']), dict(M(p), freqtime=p['t'], signal=-1, ht='dlf', htarg=p['ht'], ft='dlf', ftarg=p['fl'])))
    c(lambda p: (D, (p['src'], p['rec']), dict(M(p), freqtime=p['t'], signal=0, ht='dlf', htarg=p['ht'], ft='qwe', ftarg=p['fq'])))
    c(lambda p: (D, (p['src'], p['rec']), dict(M(p), freqtime=p['t'], signal=-1, ht='dlf', htarg=p['ht'], ft='fftlog', ftarg=p['flog'])))
    c(lambda p: (D, (p['src'], p['rec']), dict(M(p), freqtime=p['t'], signal=0, ht='dlf', htarg=p['ht'], ft='fft', ftarg=p['fft'])))
    c(lambda p: (D, (p['src'], p['rec']), dict(M(p), freqtime=p['t'], signal=0, ht='dlf', htarg=p['ht'], ft='fft', ftarg=p['ff'])))
    c(lambda p: (D, (p['src'], p['rec']), dict(M(p), freqtime=p['t'], signal=p['wave'], ht='dlf', htarg=p['ht'], ft='dlf', ftarg=p['ft'])))
    c(lambda p: (D, (p['src'], p['rec']), dict(M(p), freqtime=p['lap'], ht='dlf', htarg=p['ht'], ab=21)))
    c(lambda p: (D, (p['src'], p['rec']), dict(depth=p['up'], res=p['resl'], freqtime=p['f1'], ht='dlf', htarg=p['ht'], verb=0)))
    c(lambda p: (D, (p['src'], p['rec']), dict(depth=p['ddep'], res=p['res'], freqtime=p['f1'], ht='dlf', htarg=p['ht'], verb=0)))
    c(lambda p: (D, (p['src'], p['rec']), dict(depth=p['depth'], res=p['hook'], freqtime=p['f1'], ht='dlf', htarg=p['ht'], verb=0)))
    c(lambda p: (D, (p['src'], p['rec']), dict(depth=[], res=[2.], freqtime=p['f1'], ht='dlf', htarg=p['ht'], verb=0, xdirect=None)))
    c(lambda p: (B, (p['msrc'], p['mrec']), dict(M(p), freqtime=p['f'], ht='dlf', htarg=p['ht'], srcpts=3, strength=7.)))
    c(lambda p: (B, (p['msrc'], p['mrec']), dict(M(p), freqtime=p['t'], signal=1, ht='dlf', htarg=p['ht'], ft='dlf', ftarg=p['ft'], mrec='loop')))
    c(lambda p: (B, (p['mrec'], p['mrec']), dict(M(p), freqtime=p['f1'], ht='dlf', htarg=p['hl'], msrc=True, mrec=True)))
    c(lambda p: (empymod.loop, (p['mrec'], p['mrec']), dict(M(p), freqtime=p['f1'], ht='dlf', htarg=p['ht'])))
    c(lambda p: (empymod.analytical, (p['src'], p['rec']), dict(res=2., freqtime=p['f1'], aniso=1.5, ab=12, verb=0)))
    c(lambda p: (empymod.analytical, (p['src'], p['rec']), dict(res=2., freqtime=p['t'], solution='dhs', signal=1, verb=0)))
    c(lambda p: (empymod.analytical, (p['src'], p['rec']), dict(res=2., freqtime=p['f1'], solution='dsplit', verb=0)))
    c(lambda p: (empymod.gpr, (p['src'], p['rec']), dict(M(p), freqtime=p['t'], cf=3., ht='dlf', htarg=p['ht'], ft='fft', ftarg=p['fft'], gain=1.)))
    c(lambda p: (empymod.dipole_k, (p['src'], p['rec']), dict(M(p), freq=p['f1'], wavenumber=np.array([.01, .1, 1.]), ab=12)))
    c(lambda p: (model.ip_and_q, (), dict(src=p['src'], rec=p['rec'], depth=p['depth'], res=p['res'], freqtime=p['f1'], ab=66, ht='dlf', htarg=p['ht'], verb=0)))
    c(lambda p: (tmtemod.dipole, ([0., 0., 15.], [30., 40., 20.], p['depth'], p['resl'], 1.), dict(aniso=p['aniso'], eperm=p['ep'], mperm=p['mp'], verb=0)))
    c(lambda p: (kernel.fullspace, (np.array([10., 100.]), np.array([0., 1.]), 1., 5., np.full((2, 1), .3+0j), np.full((2, 1), .2+0j), np.full((2, 1), 1e-5j), np.full((2, 1), 1e-5j), 11, False, False), {}))
    c(lambda p: (kernel.wavenumber, (5., 35., 1, 1, np.array([-1e100, 0., 40, 90]), p['e'], p['e']*2, p['e']*1e-5, p['e']*2e-5, p['k'], 11, False, False, False), {}))
    c(lambda p: (transform.qwe, (1e-5, 1e-10, 6, p['x'][:, 0, :].repeat(2, 1), np.cumsum(np.ones((3, 9)), 1)), {}))
    c(lambda p: (transform.get_dlf_points, (p['ht']['dlf'], np.array([1., 5.]), -1), {}))
    c(lambda p: ((lambda n: getattr(filters.Hankel(), n)), ('kong_61_2007b',), {}))
    c(lambda p: ((lambda n: getattr(filters.Fourier(), n)), ('key_81_2009',), {}))
    c(lambda p: (utils.check_time, (p['t'], 1, 'fftlog', p['flog'], 0, True), {}))
    c(lambda p: (utils.check_hankel, ('qwe', p['hq'], 0), {}))
    c(lambda p: (utils.check_model, (p['depth'], p['res'], p['aniso'], p['ep'], None, None, p['mp'], False, 0), {}))
    c(lambda p: (fdesign.design, (11, (.5, .7, 2), (-1., 0., 2), fdesign.j0_1()), dict(r=np.logspace(-1, 2, 20), r_def=(1, 1, 1), verb=0, plot=0, save=False)))
    # Erroneous calls leave no state behind either.
    c(lambda p: (D, (p['src'], p['rec']), dict(M(p), freqtime=p['f'], ht='dlf', htarg=p['ht'], ab=66, unknown=3)))
    c(lambda p: (D, (p['src'], p['rec']), dict(depth=p['depth'], res=[1, 2], freqtime=1, verb=0)))
    n = len(C)
    nvar = 4
    nc = nvar*n    # each with variants of the objects
    chk.extra['kinds_of_calls'] = n

    h = chk.tlc_start('Session', workers=4,
                      simulate=900 if chk.thorough else 60, depth=80,
                      consts=dict(Threads='{1, 2, 3}', NCall=nc,
                                  Mins='{' + ', '.join(
                                      str(i) for i in range(len(MINS)))+'}',
                                  MaxLen=26))
    h1 = chk.tlc_start('Session', workers=2,
                       simulate=600 if chk.thorough else 40, depth=80,
                       consts=dict(Threads='{1}', NCall=nc, Mins='{0, 1}',
                                   MaxLen=30))

    # All on the variants of one call.
    h2 = chk.tlc_start('Session', workers=1,
                       simulate=900 if chk.thorough else 150, depth=40,
                       consts=dict(Threads='{1}', NCall=nvar, Mins='{0}',
                                   MaxLen=12))

    # Outcomes: value (digest) or exception (type and text).
    def execute(k, p):
        fn, a, kw = C[(k-1) % n](p)
        try:
            v = fn(*a, **kw)
        except Exception as e:
            if (k-1) % n < n-2:
                return None, f'E:{type(e).__name__}:{str(e)[:60]}'
            return None, f'E:{type(e).__name__}'
        return v, digest(v)

    def setmin(i):
        emp.restore_minimum()
        if MINS[i]:
            utils.set_minimum(**MINS[i])

    # Results of each call in a process that has done nothing else.
    out = os.path.join(chk.scratch, 'fresh')
    os.makedirs(out)

    def alone(it):
        k, i = it
        pid = os.fork()
        if pid == 0:
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    setmin(i)
                    r = execute(k, make((k-1)//n))[1]
                with open(f'{out}/{k}-{i}', 'w') as f:
                    json.dump(dict(c=k, m=i, r=r), f)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)

    pairs = [(k, i) for k in range(1, n+1) for i in range(len(MINS))]
    pairs += [(k, 0) for k in range(n+1, nc+1)]
    chk.parallel(alone, pairs)
    fresh = []
    for k, i in pairs:
        with open(f'{out}/{k}-{i}') as f:
            fresh.append(json.load(f))
    # (A large min_freq can merge the frequencies of FFT and QWE.)
    bad = [f for f in fresh if f['r'].startswith('E:') and (f['c']-1) % n < n-2
           and f['m'] == 0]
    if bad:
        raise vlib.Machinery(f'templates fail: {bad[:5]}')
    dep = {f['c'] for f in fresh if f['r'] != next(
        g['r'] for g in fresh if g['c'] == f['c'] and g['m'] == 0)}
    chk.extra['calls_depending_on_minima'] = len(dep)

    cases = chk.tlc_wait(h)['cases'] + chk.tlc_wait(h1)['cases']
    for i, c in enumerate(chk.tlc_wait(h2)['cases']):
        # The calls of the model are the variants of the i-th call.
        cases.append(dict(log=[
            dict(e, c=(e['c']-1)*n+i % n+1) if e['k'] in ('start', 'finish')
            else e for e in c['log']]))
    chk.rng.shuffle(cases)
    chk.extra['sessions_in_model'] = len(cases)
    shared = [make(v) for v in range(nvar)]
    same = {f['r'] for f in fresh if f['c'] <= n and f['m'] == 0} & {
        f['r'] for f in fresh if f['c'] > n}
    chk.extra['variants_with_equal_results'] = len(same)
    tdir = os.path.join(chk.scratch, 'traces')
    os.makedirs(tdir)

    def spoil(v, depth=0):
        if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype != object:
            try:
                v[...] = 77
            except (ValueError, TypeError):
                pass
        elif isinstance(v, (list, tuple)) and depth < 4:
            for x in v:
                spoil(x, depth+1)
            if isinstance(v, list):
                v.clear()
        elif isinstance(v, dict) and depth < 4:
            for x in list(v.values()):
                if not hasattr(x, 'base') or isinstance(x, np.ndarray):
                    spoil(x, depth+1)

    def session(c):
        sys.setswitchinterval(1e-5)
        emp.restore_minimum()
        ev = []
        live = {}
        values = []

        def work(box, k, p):
            box['v'], box['r'] = execute(k, p)

        with contextlib.redirect_stdout(io.StringIO()):
            for e in c['log']:
                if e['k'] == 'setmin':
                    setmin(e['c'])
                    ev.append(dict(k='setmin', t=0, c=e['c'], r='', i=''))
                elif e['k'] == 'spoil':
                    for p, v in values:
                        spoil(v)
                    values.clear()
                    ev.append(dict(k='spoil', t=0, c=0, r='', i=''))
                elif e['k'] == 'end':
                    emp.restore_minimum()
                    ev.append(dict(k='end', t=0, c=0, r='', i=''))
                elif e['k'] == 'start':
                    v = (e['c']-1)//n
                    p = shared[v] if e['s'] else make(v)
                    box = {}
                    args = C[(e['c']-1) % n](p)[1:]
                    ev.append(dict(k='start', t=e['t'], c=e['c'], r='',
                                   i=digest([p, args])))
                    th = threading.Thread(target=work, args=(box, e['c'], p))
                    live[e['t']] = (th, box, p, e['c'])
                    th.start()
                elif e['k'] == 'finish':
                    th, box, p, k = live.pop(e['t'])
                    th.join()
                    args = C[(k-1) % n](p)[1:]
                    ev.append(dict(k='finish', t=e['t'], c=k, r=box['r'],
                                   i=digest([p, args])))
                    # Not what the filter collections share on purpose.
                    if getattr(box['v'], 'base', None) is None or \
                            isinstance(box['v'], np.ndarray):
                        values.append((p, box['v']))
        with open(f'{tdir}/{os.getpid()}.json', 'a') as f:
            f.write(json.dumps(ev)+'\n')
        chk.case(tuple((e['k'], e['t'], e['c']) for e in c['log']),
                 dict(log=c['log']))
        chk.traces += 1

    chk.parallel(session, cases, budget=chk.elapsed() +
                 (500 if chk.thorough else 18))

    traces = []
    for f in sorted(os.listdir(tdir)):
        with open(f'{tdir}/{f}') as fh:
            for line in fh:
                traces += json.loads(line)

    def validate(tr, fr):
        hh = chk.tlc_start('SessionTrace', workers=1, mem='4g', files={
            'trace.json': json.dumps(tr), 'fresh.json': json.dumps(fr)})
        return hh

    # The validation must notice corrupted traces.
    part = traces[:400]
    fin = [i for i, e in enumerate(part) if e['k'] == 'finish']
    w1 = [dict(e) for e in part]
    known = [i for i in fin if part[i]['c'] <= n]
    res = known[len(known)//2]
    w1[res]['r'] = 'tampered'
    w1[fin[len(fin)//3]]['i'] = 'tampered'
    ht, hw = validate(traces, fresh), validate(w1, fresh)
    got = chk.tlc_wait(hw)['cases']
    want = [[fin[len(fin)//3]+1, 'input'], [res+1, 'result']]
    if not all(x in got[-1]['bad'] for x in want):
        raise vlib.Machinery(f'corrupted trace accepted: {got}')
    got = chk.tlc_wait(ht)['cases']
    if not got or got[-1]['n'] != len(traces):
        raise vlib.Machinery('trace not read to its end')
    chk.extra['events_validated'] = len(traces)
    first = {f['c']: f['r'] for f in fresh if f['m'] == 0}
    for i, what in got[-1]['bad']:
        e = traces[i-1]
        lo = max([j for j in range(i-1) if traces[j]['k'] == 'end'],
                 default=-1)
        fn, a, kw = C[(e['c']-1) % n](make((e['c']-1)//n))
        chk.violation(
            f'{getattr(fn, "__name__", fn)}: ' +
            ('result differs from the same call elsewhere'
             if what == 'result' else 'input objects were modified'),
            dict(event=e, alone=first[e['c']], history=traces[lo+1:i],
                 call=repr((fn, a, kw))[:1500]))


if __name__ == '__main__':
    vlib.main('C19', run, 'model_checking')
