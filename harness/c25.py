"""C25: amplitude and phase obey their definitions."""
import pickle

import vlib

MC = """---- MODULE MCPhase ----
EXTENDS Phase
PhasesV == -12..12
PhasesX == {-2, -1, 0, 1, 2}
====
"""


def run(chk):
    with open(vlib.SPEC+'/Phase.cfg') as f:
        base = f.read()
    files = {'MCPhase.tla': MC}
    h = chk.tlc_start('MCPhase', cfg=base+'CONSTANT Phases <- PhasesV\n',
                      files=files, workers=4, depth=60,
                      simulate=8000 if chk.thorough else 700,
                      consts=dict(H=12, Amps='{0, 1, 3}', NRow=3, NCol=6,
                                  MaxLen=8))
    hx = chk.tlc_start('MCPhase', cfg=base+'CONSTANT Phases <- PhasesX\n',
                       files=files, workers=3,
                       consts=dict(H=2, Amps='{1}', NRow=1, MaxLen=2,
                                   NCol=5 if not chk.thorough else 6))
    import emp
    from emp import np, utils, empymod
    EM = utils.EMArray

    def cells(m, H, u):
        """Complex numbers; exact on the axes."""
        out = np.zeros((len(m), len(m[0])), dtype=complex)
        for i, row in enumerate(m):
            for j, c in enumerate(row):
                p = c['p']
                x, y = np.cos(np.pi*p/H), np.sin(np.pi*p/H)
                if abs(p) == H:
                    x, y = -1., (0. if p > 0 else -0.)
                elif 2*abs(p) == H:
                    x, y = 0., np.sign(p)*1.
                elif p == 0:
                    x, y = 1., 0.
                out.real[i, j] = x*c['a']*u
                out.imag[i, j] = y*c['a']*u
        return out

    def history(it):
        c, H = it
        r = chk.rng
        u = 10.**r.uniform(-250, 250) if r.random() < .5 else 1.
        a = None
        for e in c['log']:
            det = dict(log=c['log'], event=e, u=u)
            op = e['op']
            if op == 'new':
                z = cells(e['m'], H, u)
                a = EM(z if r.random() < .8 else z.tolist())
            elif op == 'copy':
                a = r.choice([lambda x: x.copy(), lambda x: x*1.,
                              lambda x: pickle.loads(pickle.dumps(x)),
                              lambda x: x[:], lambda x: EM(x),
                              lambda x: np.asfortranarray(x).view(EM),
                              lambda x: x.T.T])(a)
            elif op == 'conj':
                a = np.conj(a)
            elif op == 'double':
                a = r.choice([lambda x: 2*x, lambda x: x*2.,
                              lambda x: x+x])(a)
            elif op == 'turn':
                # (times i, without losing signed zeros)
                z = np.empty(a.shape, dtype=complex)
                z.real, z.imag = 0.-a.imag, a.real
                a = z.view(EM) if r.random() < .5 else EM(z)
            elif op == 'rows':
                a = a[:-1]
            elif op == 'cols':
                a = a[:, 1:]
            elif op == 'reverse':
                a = a[:, ::-1]
            if not chk.check(isinstance(a, EM), f'{op}: not an EMArray', det):
                return
            if op != 'pha':
                continue
            z = np.array(a)
            if z.size == 0 and e['unwrap'] is None:
                continue
            tight = r.random() < .2 and z.shape[0] == 1
            obj = a[0] if tight else a         # also one-dimensional
            args = {}
            for k, d in (('deg', False), ('unwrap', True), ('lag', True)):
                if e[k] != d or r.random() < .5:
                    args[k] = e[k]
            o = vlib.call(obj.pha, **args)
            if not chk.check(o.ok, 'phase failed', dict(det, got=o)):
                return
            got = np.asarray(o.value)
            turn = 360. if e['deg'] else 2*np.pi
            ok = got.shape == obj.shape and got.dtype == float
            if not chk.check(ok, 'shape of the phase', dict(det, got=o)):
                return
            got = got.reshape(z.shape)
            amp = np.asarray(obj.amp()).reshape(z.shape)
            # (Zeros, and tiny numbers, have the phase they have.)
            live = np.abs(z) > 0
            p = np.array([[x['p'] for x in row] for row in e['m']],
                         dtype=float).reshape(z.shape)*turn/(2*H)
            lead = p if e['lag'] else -p
            w = (got-lead)/turn
            chk.check(np.allclose((w-np.round(w))[live], 0, atol=1e-12),
                      'phase is not the angle of the data',
                      dict(det, got=got))
            chk.check(np.allclose((amp*np.exp(
                (1 if e['lag'] else -1)*2j*np.pi*got/turn)/u)[live],
                (z/u)[live], atol=1e-11),
                'amplitude and phase do not give the data', dict(det, got=o))
            chk.check(np.allclose(amp/u, np.array(
                [[x['a'] for x in row] for row in e['m']]).reshape(z.shape),
                rtol=1e-14), 'amplitude', dict(det, got=amp/u))
            if e['unwrap']:
                chk.check(np.all(np.abs(np.diff(got, axis=-1)) <=
                                 turn/2*(1+1e-14)),
                          'unwrapped phase jumps', dict(det, got=got))
            elif z.size:
                chk.check(np.all(np.abs(got) <= turn/2*(1+1e-14)),
                          'phase beyond half a turn', dict(det, got=got))
            if not e['tie'] and live.all():
                want = np.array(e['want'], dtype=float).reshape(z.shape)
                chk.check(np.allclose(got, want*turn/(2*H), rtol=1e-12,
                                      atol=1e-12),
                          'phase', dict(det, got=got))
            chk.check(z.tobytes() == np.array(a).tobytes(),
                      'data modified', det)
            chk.check(not np.shares_memory(got, np.asarray(a)),
                      'phase shares memory with the data', det)
        chk.case(repr(c['log']), c)
        chk.traces += 1

    cases = chk.tlc_wait(h)['cases']
    small = chk.tlc_wait(hx)['cases']
    chk.extra['histories_in_model'] = len(cases)+len(small)
    chk.rng.shuffle(small)
    chk.parallel(history, [(c, 12) for c in cases], budget=chk.elapsed() +
                 (200 if chk.thorough else 12))
    chk.parallel(history, [(c, 2) for c in small], budget=chk.elapsed() +
                 (200 if chk.thorough else 12))

    # Scalars, empty arrays, more dimensions, special values.
    for z in (3-4j, np.array(1j), np.array([]), np.zeros((0, 3), complex),
              np.array([[[1+1j]]])):
        for deg in (0, 1):
            for un in (0, 1):
                o = vlib.call(EM(z).pha, deg=deg, unwrap=un)
                w = np.angle(np.asarray(z), deg=bool(deg))
                chk.check(o.ok and np.shape(o.value) == np.shape(z) and
                          np.allclose(o.value, w), 'special shape',
                          dict(z=repr(z), got=o))
                o = vlib.call(EM(z).amp)
                chk.check(o.ok and np.shape(o.value) == np.shape(z) and
                          np.allclose(o.value, np.abs(z)), 'special shape',
                          dict(z=repr(z), got=o))
                chk.case((repr(z), deg, un))
    r = np.random.RandomState(chk.seed)
    z = r.normal(size=(3, 4, 50))+1j*r.normal(size=(3, 4, 50))
    z = np.cumprod(z/abs(z), -1)
    for lag in (True, False):
        p = EM(z).pha(lag=lag)
        chk.check(np.allclose(np.exp((1 if lag else -1)*1j*p), z) and
                  np.abs(np.diff(p, axis=-1)).max() <= np.pi*(1+1e-14),
                  'three dimensions', dict(lag=lag))
        chk.check(np.allclose(EM(z).pha(lag=not lag), -p), 'lead', {})
    with np.errstate(all='ignore'):
        z = np.array([np.nan+1j, np.inf+0j, -np.inf-0j, 1j*np.inf, 0j, -0.])
        o = vlib.call(EM(z).pha, unwrap=False)
        chk.check(o.ok and np.array_equal(o.value, np.angle(z),
                                          equal_nan=True), 'special values',
                  dict(got=o))
    # Results of the modelling routines have these abilities.
    st = emp.stack(2)
    for fn, a in (('dipole', ([0, 0, 10], [[30., 50], [0, 0], 20])),
                  ('bipole', ([0, 9, 0, 0, 10, 10], [50., 2, 20, 0, 0]))):
        e = getattr(empymod, fn)(*a, freqtime=[.1, 1, 10], verb=0, **emp.TINY,
                                 **st)
        chk.check(isinstance(e, EM) and np.allclose(
            e.amp()*np.exp(1j*e.pha()), e) and isinstance(e.pha(), EM),
            'field without amplitude and phase', dict(fn=fn))


if __name__ == '__main__':
    vlib.main('C25', run, 'model_checking')
