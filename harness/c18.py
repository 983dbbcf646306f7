"""C18: arbitrary waveforms are the superposition of their segments."""
import vlib

MC = """---- MODULE MCWaveform ----
EXTENDS Waveform
StartV == {-5, -2, 0, 1, 3}
AmpsV  == {-1, 0, 1, 2}
PolysV == {<<1>>, <<0, 1>>, <<3, -2>>, <<1, 0, -1>>, <<2, -1, 1, 1>>,
           <<1, 1, 0, 0, 1>>, <<-1, 2, 0, 1, 0, 1>>}
PolysW == {<<2, 1>>}
====
"""


def run(chk):
    with open(vlib.SPEC+'/Waveform.cfg') as f:
        base = f.read()
    cfg = (base + 'CONSTANTS Start <- StartV\n Amps <- AmpsV\n'
           ' Polys <- PolysV\n')
    files = {'MCWaveform.tla': MC}
    sim = chk.tlc_start('MCWaveform', cfg=cfg, files=files, workers=4,
                        simulate=8000 if chk.thorough else 500, depth=16,
                        consts=dict(Gaps='{1, 2, 3, 4}', NSeg=4, NTime=4,
                                    Times='{1, 2, 3, 4, 5, 6, 8}',
                                    Quads='{1, 2, 3, 4, 5}',
                                    Shifts='{1, 2, 4}'))
    # All waveforms of two segments, all positions of one time.
    cfg2 = cfg.replace('Start <- StartV', 'Start = {0, 1}').replace(
        'Amps <- AmpsV', 'Amps = {0, 1, 3}').replace(
            'Polys <- PolysV', 'Polys <- PolysW')
    exh = chk.tlc_start('MCWaveform', cfg=cfg2, files=files, workers=4,
                        consts=dict(Gaps='{1, 2}', NSeg=2, NTime=1,
                                    Times='{1, 2, 3, 4}', Quads='{1}',
                                    Shifts='{2}'))
    import emp
    from emp import np, empymod, utils
    cases = chk.tlc_wait(sim)['cases'] + chk.tlc_wait(exh)['cases']
    cases = list({repr(c): c for c in cases}.values())
    chk.rng.shuffle(cases)
    chk.extra['cases_in_model'] = len(cases)

    def form(x):
        return chk.rng.choice([list, tuple, np.array])(x)

    def replay(c):
        u = 10.**chk.rng.uniform(-6, 1) if chk.rng.random() < .7 else 1.
        want = np.array(c['want'])*u
        ma = chk.rng.choice([1., 1., 2.**-40, 1e-12, 1e7])  # unit of current
        sig = {'nodes': form(np.array(c['nodes'])*u),
               'amplitudes': form(np.array(c['amps'])*ma)}
        if c['quad'] != 3 or chk.rng.random() < .5:
            sig['nquad'] = c['quad']
        inner = chk.rng.choice([None, -1, 0, 1])
        if inner is not None:
            sig['signal'] = inner
        before = {k: np.array(v).copy() for k, v in sig.items()}
        live = [i for i in range(len(c['amps'])-1)
                if c['amps'][i] != c['amps'][i+1] and
                c['nodes'][i] < max(c['want'])]
        o = vlib.call(utils.check_time_only, want, sig, 0, True)
        chk.case((tuple(c['nodes']), tuple(c['amps']), tuple(c['want']),
                  c['quad']), dict(c, u=u))
        det = dict(case=c, u=u, ma=ma, sig=sig)
        if not live:
            if o.ok:      # nothing to compute: either refused or zero
                t, s = o.value
                r = s['apply_waveform'](np.ones((t.size, 1)))
                chk.check(np.all(r == 0), 'waveform without change', det)
            else:
                chk.check(isinstance(o.exc, ValueError),
                          'waveform without change', dict(det, got=o))
            return
        chk.check(o.ok, 'waveform refused', dict(det, got=o))
        if not o.ok:
            return
        t, s = o.value
        chk.check(all(np.array_equal(before[k], np.array(v))
                      for k, v in sig.items()), 'waveform modified', det)
        chk.check(s['signal'] == (inner or 0), 'signal of waveform', det)
        chk.check(np.all(t > 0) and np.all(np.diff(t) > 0),
                  'times to compute', dict(det, t=t))
        x = t/u
        p = sum(k*x**i for i, k in enumerate(c['poly']))
        resp = np.c_[p, -3*p, np.zeros(p.size)]
        cpy = resp.copy()
        got = s['apply_waveform'](resp)
        ref = np.array(c['answer'])/c['den']*ma
        chk.check(np.array_equal(resp, cpy), 'response modified', det)
        sc = (np.abs(np.diff(c['amps'])).sum() * ma *
              sum(abs(k)*(max(c['want'])-min(c['nodes']))**i
                  for i, k in enumerate(c['poly'])))
        ok = got.shape == (len(c['want']), 3) and vlib.close(
            got, np.c_[ref, -3*ref, 0*ref], 1e-11, scale=3*sc)
        chk.check(ok, 'response to the waveform', dict(det, got=got,
                                                       want=ref))
        chk.traces += 1

    chk.parallel(replay, cases, budget=chk.elapsed() +
                 (300 if chk.thorough else 12))

    # In the modelling routines: the same superposition of step responses.
    def field(c):
        r = chk.rng
        n = r.choice([1, 2, 3])
        st = emp.stack(n, var=r.randrange(7))
        u = 10.**r.uniform(-4, -1)
        inner = r.choice([-1, 0, 1])
        fn = r.choice(['dipole', 'bipole', 'loop'])
        src, rec = {'dipole': ([0, 0, 10], [[50., 80], [10., -30], 30]),
                    'bipole': ([0, 20, 0, 5, 10, 12],
                               [[50., 80], [10., -30], 30, 20, 10]),
                    'loop': ([0, 0, 10, 0, 90], [[50., 80], [10., -30], 30,
                                                 0, 90])}[fn]
        kw = dict(emp.TINY, verb=0, **st)
        want = np.array(c['want'])*u
        ma = r.choice([1., 1e-12, 1e5])
        sig = {'nodes': form(np.array(c['nodes'])*u),
               'amplitudes': form(np.array(c['amps'])*ma),
               'nquad': c['quad'], 'signal': inner}
        live = [i for i in range(len(c['amps'])-1)
                if c['amps'][i] != c['amps'][i+1] and
                c['nodes'][i] < max(c['want'])]
        if not live:
            return
        out = getattr(empymod, fn)(src, rec, freqtime=want, signal=sig, **kw)
        gx, gw = np.polynomial.legendre.leggauss(c['quad'])
        ref = np.zeros((want.size, 2))
        scale = 0
        for i in live:
            a, b = c['nodes'][i]*u, c['nodes'][i+1]*u
            slope = ma*(c['amps'][i+1]-c['amps'][i])/(b-a)
            for k, t in enumerate(want):
                hi, lo = t-a, max(0., t-b)
                if hi <= 1e-9*u:
                    continue
                tt = (hi+lo)/2+gx*(hi-lo)/2
                v = getattr(empymod, fn)(src, rec, freqtime=tt, signal=inner,
                                         **kw).reshape(tt.size, -1)
                ref[k] -= slope*(hi-lo)/2*(gw @ v)
                scale = np.maximum(scale, np.abs(slope)*(hi-lo) *
                                   np.abs(v).max())
        chk.check(vlib.close(out.reshape(want.size, -1), ref, 1e-7,
                             scale=scale),
                  f'{fn}: field of a waveform is not the superposition',
                  dict(case=c, inner=inner, u=u, ma=ma, got=out, want=ref))
        chk.case((fn, inner, c['quad'], len(live)), dict(c, fn=fn))

    chk.parallel(field, cases, budget=chk.elapsed() +
                 (200 if chk.thorough else 8))

    # Refused: times before the waveform, wrong inner signals.
    for sig, t in (({'nodes': [2, 3], 'amplitudes': [0, 1]}, [1., 2.]),
                   ({'nodes': [0, 1], 'amplitudes': [0, 1], 'signal': 2},
                    [1.]),
                   ({'nodes': [0, 1], 'amplitudes': [0, 1],
                     'signal': .5}, [1.]),
                   ({'nodes': [0, 1], 'amplitudes': [0, 1], 'sgnal': 0},
                    [1.]),
                   ({'nodes': [0, 1]}, [1.])):
        o = vlib.call(utils.check_time_only, np.array(t), sig, 0, True)
        chk.check(isinstance(o.exc, (ValueError, TypeError)),
                  'invalid waveform accepted', dict(sig=repr(sig), got=o))


if __name__ == '__main__':
    vlib.main('C18', run, 'model_checking')
