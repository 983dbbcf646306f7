"""Replay of Symmetry.tla (used by C09 and C10)."""
import json

import vlib


LAWS = '''
SPECIFICATION Spec
VIEW View
INVARIANTS Involutions Turn4 HalfTurn Commute WellFormed MediaKept
CHECK_DEADLOCK FALSE
'''


def laws(chk):
    """Start TLC on the group laws of the generators."""
    return chk.tlc_start('Symmetry', cfg=LAWS, workers=2, consts=dict(
        Gens='{"swap", "shiftH", "shiftV", "rot", "mirX", "mirY", "mirZ"}',
        MinIf=1, MaxIf=1, Hor='"few"', Depth=1))


def setup(chk):
    import emp
    from emp import np, empymod

    def coords(scale):
        h, v = scale
        return (lambda p: [h*p['x'], h*p['y'], v*p['z']])

    def args(e, scale, var):
        """dipole-arguments of an experiment."""
        m = emp.stack(5, var=var)
        i = np.array(e['m'])-1
        out = {k: v[i] for k, v in m.items() if k != 'depth'}
        out['depth'] = np.array(e['d'], float)*scale[1]
        f = coords(scale)
        return dict(src=f(e['s']), rec=f(e['r']), ab=e['rc']*10+e['sc'], **out)

    cache = {}

    def typescale(a, kw):
        """Magnitude of the nine components of the source/receiver type."""
        ab = a['ab']
        t = ((ab//10-1)//3, (ab % 10-1)//3)
        key = json.dumps([t, a['src'], a['rec'], list(a['depth']),
                          list(a['res']), str(kw)], default=str)
        if key not in cache:
            f = 0
            for i in (1, 2, 3):
                for j in (1, 2, 3):
                    b = dict(a, ab=(i+3*t[0])*10+j+3*t[1])
                    f = np.maximum(f, abs(np.array(empymod.dipole(**b, **kw))))
            cache.clear()
            cache[key] = f
        return cache[key]

    def orbit(item):
        """All experiments of one orbit against the original one."""
        org, members = item
        rng = chk.rng
        var = rng.randrange(7)
        scale = (rng.choice([7., 11.3]), rng.choice([3., 5.7]))
        dom = rng.choice(['freq', 'freq', 'lap', 'time'])
        kw = dict(verb=0, freqtime=dict(freq=[.7, 60.], lap=[-.7, -60.],
                                        time=[.01, .8])[dom], **emp.TINY)
        if dom == 'time':
            kw['signal'] = rng.choice([-1, 0, 1])
        kw['xdirect'] = rng.choice([False, False, True, None])
        a = args(org, scale, var)
        f0 = np.array(empymod.dipole(**a, **kw))
        ts = typescale(a, kw)
        sc = np.maximum(abs(f0), 1e-4*ts)
        for cur, sign in members:
            b = args(cur, scale, var)
            f1 = np.array(empymod.dipole(**b, **kw))
            chk.check(vlib.close(f1, sign*f0, 1e-8, scale=sc),
                      'symmetry broken', dict(original=a, image=b, sign=sign,
                                              kw=kw, original_field=f0,
                                              image_field=f1))
            chk.case((org, cur), dict(original=org, image=cur, sign=sign))
        # Vertical em-pairs vanish.
        if a['ab'] in (36, 63):
            chk.check(np.all(f0 == 0), 'vertical em-pair is not zero',
                      dict(a=a, field=f0))
    return orbit


def group(cases):
    d = {}
    for c in cases:
        d.setdefault(json.dumps(c['o'], sort_keys=True), []).append(
            (c['c'], c['g']))
    return [(json.loads(k), v) for k, v in d.items()]
