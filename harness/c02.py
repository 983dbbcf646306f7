"""C02: malformed input is rejected, well-formed input accepted."""
import vlib

ROUT = ['bipole', 'loop', 'dipole', 'analytical', 'dipole_k', 'gpr',
        'ip_and_q']
SIG = {'none': None, '-1': -1, '0': 0, '1': 1, '2': 2, '-2': -2, '1.7': 1.7,
       '0.5': .5, 'wave': dict(nodes=[-1e-3, 0.], amplitudes=[0., 1.],
                               nquad=1),
       'wave2': dict(nodes=[-1e-3, 0.], amplitudes=[0., 1.], nquad=1,
                     signal=2), 'str': 'on'}


def run(chk):
    rs = '{' + ', '.join(f'"{r}"' for r in ROUT) + '}'
    h = chk.tlc_start('Inputs', consts=dict(Routines=rs, MaxEdits=2),
                      workers=1)
    import emp
    from emp import np, empymod
    cases = chk.tlc_wait(h)['cases']
    chk.extra['calls_in_model'] = len(cases)
    chk.extra['accepted_in_model'] = sum(c['accept'] for c in cases)
    rng = chk.rng
    single = [c for c in cases if c['edits'] < 2]
    double = [c for c in cases if c['edits'] == 2]
    rng.shuffle(single)
    rng.shuffle(double)
    # (The orders of the interfaces with several values.)
    single += [c for c in single if c['call']['order'] != 'down'
               for _ in range(4)]
    if not chk.thorough:
        acc = [c for c in double if c['accept']][:6000]
        rej = [c for c in double if not c['accept']][:9000]
        double = acc + rej

    def vec(lo, hi, n):
        v = np.round(np.linspace(lo, hi, n) if n > 1 else
                     np.array([lo+(hi-lo)*.4]), 2)
        k = rng.randrange(3)
        if n == 1 and k == 0:
            return float(v[0])
        return [float(x) for x in v] if k == 1 else v

    def end(r, ar, sz, length, off):
        lim = [(0, 90), (10, 60), (20, 20), (5, 80), (3, 70), (1, 2), (1, 2)]
        if r in ('bipole', 'loop'):
            lim = [(0, 90), (10, 60), (20, 35), (5, 80), (3, 70), (1, 2),
                   (1, 2)]
        v = [vec(a+off, b+off, n) for (a, b), n in zip(lim[:ar], sz)]
        if ar == 6 and r in ('bipole', 'loop'):
            v = [vec(0+off, 90+off, sz[0]), vec(0+off, 90+off, sz[1]),
                 vec(10, 60, sz[2]), vec(10, 60, sz[3]),
                 vec(20, 35, sz[4]), vec(20, 35, sz[5])]
            if length:      # differ everywhere, in one coordinate only
                i = rng.choice([1, 3, 5])
                v[i] = np.asarray(v[i]) + 77.7
            else:           # (at least) one of them has length zero
                for i in (1, 3, 5):
                    if np.size(v[i]) == np.size(v[i-1]):
                        v[i] = np.array(v[i-1])*1.
                    elif np.size(v[i]) == 1:
                        v[i] = float(np.atleast_1d(v[i-1])[0])
                    else:
                        v[i-1] = float(np.atleast_1d(v[i])[0])
        if rng.random() < .2:
            return tuple(v)
        return v

    def one(c):
        r, k = c['routine'], c['call']
        src = end(r, k['sar'], k['ssz'], k['slen'], 0)
        rec = end(r, k['rar'], k['rsz'], k['rlen'], 200)
        a = dict(src=src, rec=rec, verb=0)
        dep = [np.array([]), [50.], [0., 50.], [0., 50., 80.]][k['k']]
        if k['order'] == 'up':
            dep = list(dep)[::-1]
        elif k['order'] == 'zigzag':
            dep = rng.choice([[0., 50., 30.], [50., 0., 80.], [0., 50., 20.],
                              [30., 50., 0.], [80., 0., 50.]])[:k['k']]
        elif k['order'] == 'inf':       # (explicit ends of the space)
            dep = [[-np.inf, *dep], [*dep, np.inf], [-np.inf, *dep, np.inf]
                   ][rng.randrange(3)]
        if r != 'analytical':
            a['depth'] = dep
        res = vec(1, 20, k['nres'])
        if k['extra'] != -1:
            res = dict(res=res, foo=vec(1, 2, k['extra']))
        a['res'] = res
        for p, n in k['par'].items():
            if n != -1:
                a[p] = vec(1.1, 2.2, n)
        if r in ('dipole', 'analytical', 'dipole_k', 'gpr', 'ip_and_q'):
            a['ab'] = k['ab']
            if rng.random() < .1:
                a['ab'] = str(k['ab'])
        sig = SIG[k['signal']]
        if r in ('bipole', 'loop', 'dipole', 'analytical'):
            a['signal'] = sig
        if r == 'dipole_k':
            a['freq'], a['wavenumber'] = [1., 2], np.array([.01, .02])
        elif r == 'gpr':
            a['freqtime'], a['cf'] = np.array([2e-8, 3e-8]), 1e8
        else:
            a['freqtime'] = rng.choice([[1.], [1., 2.], 3.])
        if r in ('bipole', 'loop', 'dipole', 'gpr', 'ip_and_q'):
            a['ht'], a['htarg'] = k['ht'], emp.HT
        if r in ('bipole', 'loop', 'dipole', 'gpr'):
            a['ft'], a['ftarg'] = k['ft'], emp.FT
        if r == 'gpr':      # (only implemented for FFT)
            a['ft'] = {'dlf': 'fft', 'DLF': 'FFT'}.get(k['ft'], k['ft'])
            a['ftarg'] = dict(dfreq=1e6, nfreq=8)
        if r == 'analytical':
            a['solution'] = k['sol']
        o = vlib.call(getattr(empymod, r), **a)
        info = dict(routine=r, abstract=k, outcome=repr(o)[:300], args={
            x: y for x, y in a.items() if x not in ('htarg', 'ftarg')})
        chk.case((r, k), dict(routine=r, abstract=k, accept=c['accept']))
        if c['accept']:
            chk.check(o.ok, f'{r}: well-formed call raises an error', info)
        else:
            chk.check(not o.ok, f'{r}: malformed call is not rejected', info)

    n = chk.parallel(one, single + double,
                     budget=60 if not chk.thorough else 800)
    chk.extra['calls_replayed'] = n


if __name__ == '__main__':
    vlib.main('C02', run)
