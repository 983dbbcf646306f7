"""C03: minimum values are an explicit state machine; clipping below them."""
import vlib

SMALL = '''
SPECIFICATION Spec
INVARIANTS NeverLowered WarnIffReplaced
PROPERTIES OnlyGiven
CHECK_DEADLOCK FALSE
'''
NAMES = dict(freq='min_freq', time='min_time', off='min_off', res='min_res',
             angle='min_angle')


def run(chk):
    num = 400 if not chk.thorough else 4000
    # Exhaustive: every operation from every state, on two levels.
    h1 = chk.tlc_start('Minimum', cfg=SMALL, consts=dict(L=1, N=1), workers=4)
    # Simulated long histories for the replay.
    h2 = chk.tlc_start('Minimum', consts=dict(L=3, N=14), simulate=num,
                       depth=16, workers=1)
    import emp
    from emp import np, empymod
    hist = chk.tlc_wait(h2)['cases']
    chk.tlc_wait(h1)
    val = dict(freq=[.01, .3, 1., 4.], time=[2e-6, 3e-5, 4e-4, 5e-3],
               off=[2., 15., 60., 200.], res=[.05, .6, 4., 70.],
               angle=[1e-12, 1e-10, 1e-9, 1e-8])
    dflt = empymod.get_minimum()
    chk.check(dflt == dict(min_freq=1e-20, min_time=1e-20, min_off=1e-3,
                           min_res=1e-20, min_angle=1e-10),
              'default minima', dflt)
    base = {NAMES[q]: v[0]/1e5 for q, v in val.items()}

    def compute(op, lev, verb, k, wave=False):
        ab = [11, 22, 33, 15, 24, 42, 51, 66, 44][k % 9]
        r, dom = op['routine'], op['dom']
        q = 'time' if dom in ('time', 'wave') else 'freq'
        ft = np.array([val[q][i] for i in lev['ft']])
        off = [val['off'][i] for i in lev['off']]
        rh = np.array([val['res'][i] for i in lev['rh']])
        rv = np.array([val['res'][i] for i in lev['rv']])
        kw = dict(res=rh, verb=verb)
        if lev['rh'] != lev['rv']:
            # Slightly more, as the vertical resistivity is computed.
            rv = np.where(rv == rh, rv, rv*(1+1e-12))
            kw['aniso'] = np.where(rv == rh, 1., np.sqrt(rv/rh))
        if dom == 'lap':
            ft = -ft
        # Along x and y and on a 3-4-5 triangle the offset is exact.
        rx, ry = np.array([off[0], 0.]), np.array([0., -off[1]])
        src = [0., 0., 12.]
        rec = [rx, ry, 31.]
        if r in ('bipole', 'loop'):
            src, rec = src + [30., 20.], rec + [25., -10.]
        sig = None
        if dom == 'time':
            sig = 0
        if dom == 'wave':
            # A step; or a ramp which is (nearly) a step, before all times.
            sig = [0, 1][k % 2]
            if wave:
                w = 5e-6*min(ft)
                sig = dict(nodes=[0, .01-w, .01+w, 9], signal=sig,
                           amplitudes=[1, 1, 0, 0])
                ft = ft+.01
        if r != 'analytical':
            kw['depth'] = [20.]
        if r == 'dipole':
            kw.update(ab=ab, **emp.TINY)
        elif r == 'bipole':
            kw.update(msrc=True, **emp.TINY)
        elif r == 'loop':
            kw.update(emp.TINY)
        elif r == 'dipole_k':
            kw.update(freq=ft, wavenumber=np.array([.01, .03]), ab=ab)
            return lambda: np.array(empymod.dipole_k(src, rec, **kw))
        elif r == 'analytical':
            kw.update(ab=ab if dom != 'time' else [11, 22, 33][k % 3],
                      solution='dhs' if dom == 'time' else 'fs')
        return lambda: getattr(empymod, r)(src, rec, freqtime=ft, signal=sig,
                                           **kw)

    def tol(op, v):
        if op['dom'] != 'wave':
            return dict(rtol=1e-9)
        return dict(rtol=.01, atol=1e-3*np.max(abs(v)))

    def states(log, val):
        """Setting and reading only, with other values (including zero)."""
        empymod.set_minimum(**{NAMES[q]: v[0] for q, v in val.items()})
        cur = {q: 0 for q in val}
        for k, op in enumerate(log):
            if op['op'] == 'set':
                g = {q: v for q, v in op['given'].items() if v >= 0}
                cur.update(g)
                args = {NAMES[q]: val[q][v] for q, v in g.items()}
                o = vlib.call(empymod.set_minimum, **args)
                chk.check(o.ok, 'set_minimum failed', dict(args=args))
            o = vlib.call(empymod.get_minimum)
            want = {NAMES[q]: val[q][v] for q, v in cur.items()}
            if not chk.check(o.ok and o.value == want,
                             'reading the minima does not give the values '
                             'last set', dict(history=log[:k+1], want=want,
                                              got=repr(o))):
                return

    def one(log):
        states(log, {q: [0, 1e-3, 0.0, 7] if q != 'off' else [1e-3, 0, 2, .1]
                     for q in val})
        states(log, {q: [1, 0., True, False] for q in val})
        # Start from the lowest level.
        empymod.set_minimum(**{NAMES[q]: v[0] for q, v in val.items()})
        cur = {q: 0 for q in val}
        for k, op in enumerate(log):
            info = dict(minima_now=dict(cur), step=k,
                        history=[o for o in log[:k+1] if o['op'] == 'set'])
            if op['op'] == 'set':
                g = {q: v for q, v in op['given'].items() if v >= 0}
                cur.update(g)
                args = {NAMES[q]: val[q][v] for q, v in g.items()}
                o = vlib.call(empymod.set_minimum, **args)
                chk.check(o.ok, 'set_minimum failed', info)
                continue
            want = {NAMES[q]: val[q][v] for q, v in cur.items()}
            if op['op'] == 'get':
                o = vlib.call(empymod.get_minimum)
                if not chk.check(o.ok and o.value == want,
                                 'reading the minima does not give the values '
                                 'last set', dict(info, got=repr(o))):
                    return
                chk.case('get'+str(cur))
                # A returned dictionary is a copy.
                o.value['min_off'] = 1e9
                continue
            o = vlib.call(compute(op, op['given'], op['verb'], k, True))
            empymod.set_minimum(**base)
            ref = vlib.call(compute(op, op['eff'], 0, k))
            empymod.set_minimum(**want)
            info.update(op=op, got=repr(o)[:400], want=repr(ref)[:400],
                        text=o.text)
            if not chk.check(ref.ok and o.ok, 'computation failed', info):
                return
            if not chk.check(vlib.close(
                    o.value, ref.value, **tol(op, ref.value)),
                             'computation does not use max(value, minimum)',
                             info):
                return
            if not chk.check(('WARNING' in o.text) == op['warn'],
                             'warning iff something is replaced', info):
                return
            chk.case((op['routine'], op['dom'], op['verb'], op['given'],
                      op['eff']), dict(op=op))
        chk.traces += 1

    n = chk.parallel(one, hist, budget=60 if not chk.thorough else 800)
    chk.extra['histories_replayed'] = n


if __name__ == '__main__':
    vlib.main('C03', run)
