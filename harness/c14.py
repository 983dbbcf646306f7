"""C14: transform options -- defaults, unknown ones, names, purity."""
import ast
import copy

import vlib

# Admissible values (user), below the minimum (low), and the minimum (min).
VALS = {
 'h-dlf': {'pts_per_dec': dict(neg=[-1, -3.5], pos=[10, 7.5], bad=['no']),
           'dlf': dict(name=['key_101_2009', 'kong_61_2007b',
                             'wer_201_2018'])},
 'h-qwe': dict(rtol=dict(user=[1e-3]), atol=dict(user=[1e-10]),
               nquad=dict(user=[9, 15.]), maxint=dict(user=[5]),
               pts_per_dec=dict(user=[15], low=[-3], min=0),
               diff_quad=dict(user=[1.5]), a=dict(user=[1e-3]),
               b=dict(user=[.05]), limit=dict(user=[40], bad=['no'])),
 'h-quad': dict(rtol=dict(user=[1e-3], bad=['no']),
                atol=dict(user=[1e-9]), limit=dict(user=[60]),
                a=dict(user=[1e-3]), b=dict(user=[.02]),
                pts_per_dec=dict(user=[13], low=[0, -4], min=1)),
 'f-dlf': {'pts_per_dec': dict(neg=[-1, -2.], pos=[10, 7.5], bad=['no']),
           'kind': dict(sin=['sin'], cos=['cos'], bad=['tan', 'Sin']),
           'dlf': dict(name=['key_81_2009', 'key_101_2012',
                             'key_241_2009'])},
 'f-qwe': dict(rtol=dict(user=[1e-2]), atol=dict(user=[1e-4]),
               nquad=dict(user=[9, 15.]), maxint=dict(user=[7]),
               pts_per_dec=dict(user=[11], low=[0, -3], min=1),
               diff_quad=dict(user=[2]), a=dict(user=[.5]),
               b=dict(user=[300.]), limit=dict(user=[40])),
 'f-fftlog': dict(pts_per_dec=dict(user=[6, 15], low=[0, -1], min=1),
                  add_dec=dict(user=[[-1, 2.], (-3, 1)],
                               bad=[[1, 2, 3]]),
                  q=dict(user=[-.4, .6], big=[1.7, -3])),
 'f-fft': dict(dfreq=dict(user=[.03]), nfreq=dict(user=[1000, 128]),
               ntot=dict(user=[4096], odd=[3000], small=[40]),
               pts_per_dec=dict(user=[8], low=[0, -2], min=1)),
}
FOREIGN = ['Rtol', 'filter', 'npts', 'xyz', 'kind_', 'order']
# Options whose value shows in the result (with the settings used here).
SHOWS = {'h-dlf': ['dlf', 'pts_per_dec'],
         'h-qwe': ['nquad', 'maxint', 'pts_per_dec', 'rtol'],
         'h-quad': ['a', 'b', 'pts_per_dec'],
         'f-dlf': ['dlf', 'pts_per_dec', 'kind'],
         'f-qwe': ['nquad', 'maxint', 'pts_per_dec', 'rtol'],
         'f-fftlog': ['pts_per_dec', 'add_dec', 'q'],
         'f-fft': ['dfreq', 'nfreq', 'ntot', 'pts_per_dec']}


def run(chk):
    h = chk.tlc_start('Args', workers=6)
    h2 = chk.tlc_start('Effects', consts=dict(
        Stops=4 if chk.thorough else 3), workers=1)
    import emp
    from emp import np, empymod, utils, filters
    cases = chk.tlc_wait(h)['cases']
    walks = chk.tlc_wait(h2)['cases']
    chk.extra['configurations_in_model'] = len(cases)
    rng = chk.rng

    def same(a, b):
        if isinstance(a, filters.DigitalFilter):
            return isinstance(b, filters.DigitalFilter) and \
                same(vars(a), vars(b))
        if isinstance(a, dict):
            return isinstance(b, dict) and list(a) == list(b) and \
                all(same(a[k], b[k]) for k in a)
        if a is None or b is None:
            return a is b
        return np.array_equal(np.asarray(a), np.asarray(b))

    def getfilter(m, name):
        coll = filters.Hankel() if m[0] == 'h' else filters.Fourier()
        return getattr(coll, name)

    def build(c):
        """What the user gives, and the effective values."""
        m = c['m']
        given, eff = {}, {}
        for n, d, g, e in zip(c['names'], c['defs'], c['given'],
                              c['given'] if c['err'] else c['eff']):
            v = VALS[m].get(n, {})
            # The value given.
            if g == '-':
                val = None
            elif n == 'dlf':
                val = chk.rng.choice(v['name'])
                name = val
                if g == 'inst':
                    val = getfilter(m, val)
                elif g == 'bad':
                    fake = filters.DigitalFilter('x')
                    fake.base = np.array([.1, 1, 2])
                    val = chk.rng.choice(
                        ['no_such_filter', fake, getfilter(
                            'f' if m[0] == 'h' else 'h', 'key_101_2012')])
            else:
                val = chk.rng.choice(v[g])
            if g != '-':
                given[n] = val
            # The effective value.
            if n == 'dlf':
                if e == 'default':
                    eff[n] = getfilter(m, d)
                elif e in ('name', 'inst'):
                    eff[n] = getfilter(m, name)
            elif e == 'default':
                eff[n] = ast.literal_eval(d) if n != 'kind' else d
            elif e == 'min':
                eff[n] = v['min']
            elif e == 'unit':
                eff[n] = np.sign(val)
            elif e == 'pow2':
                nf = eff['nfreq']
                eff[n] = 1
                while eff[n] < nf:
                    eff[n] *= 2
            elif n == 'kind':
                eff[n] = e
            else:
                eff[n] = val
        names = list(given)
        chk.rng.shuffle(names)
        given = {n: given[n] for n in names}
        ext = chk.rng.sample(FOREIGN, c['extra'])
        for x in ext:
            given[x] = chk.rng.choice([1, 'a', None, [1, 2]])
        return given, eff, ext

    def case(name, shout):
        if not shout:
            return name
        return chk.rng.choice([name.upper(), name.capitalize(),
                               name[:-1]+name[-1].upper()])

    SIG = {0: 0, 1: 1, 2: -1}
    time = np.array([.3, 1., 4.])

    def settings(c):
        given, eff, ext = build(c)
        m = c['m'][2:]
        nm = case(m, c['shout'])
        before = copy.deepcopy(given)
        info = dict(method=c['m'], name=nm, given=repr(given),
                    signal=SIG[c['sig']], verb=c['verb'])
        if c['m'][0] == 'h':
            o = vlib.call(utils.check_hankel, nm, given, c['verb'])
            got = o.value and o.value[0:2]
        else:
            o = vlib.call(utils.check_time, time, SIG[c['sig']], nm, given,
                          c['verb'], True)
            got = o.value and o.value[2:4]
        chk.case((c['m'], str(c['given']), c['extra'], c['sig'], c['verb'],
                  c['shout']), dict(method=c['m'], given=c['given'],
                                    effective=c['eff']))
        chk.check(same(given, before), 'options of the user were modified',
                  dict(info, after=repr(given)))
        if c['err']:
            chk.check(not o.ok, 'inadmissible option accepted',
                      dict(info, got=repr(o)))
            return
        if not chk.check(o.ok, 'admissible options rejected',
                         dict(info, got=repr(o))):
            return
        chk.check(got[0] == m, 'name of the method', dict(info, got=got[0]))
        for n, v in eff.items():
            if not chk.check(n in got[1] and same(got[1][n], v),
                             f'effective value of option {n}',
                             dict(info, want=v, got=got[1].get(n))):
                return
        warned = 'WARNING' in o.text
        chk.check(warned == c['warn'], 'warning about options',
                  dict(info, want=c['warn'], text=o.text))
        if c['verb'] > 0:
            chk.check(all(x in o.text for x in ext), 'unknown option not '
                      'reported', dict(info, text=o.text))

    model = dict(depth=[0., 100.], res=[50., 1., 10.], src=[0, 0, 30.])
    rec = [[300., 500.], [40., 10.], 120.]

    def compute(c, name, args, verb=0, filt=None):
        sig = SIG[c['sig']]
        if c['m'][0] == 'h':
            return vlib.call(
                empymod.dipole, rec=rec, freqtime=[1., 3.], ht=name,
                htarg=args, verb=verb, **model)
        return vlib.call(
            empymod.dipole, rec=rec, freqtime=time, signal=sig, ht='dlf',
            htarg={'dlf': emp.TH}, ft=name, ftarg=args, verb=verb,
            **model)

    def fields(c):
        given, eff, ext = build(c)
        m = c['m'][2:]
        info = dict(method=c['m'], given=repr(given), signal=SIG[c['sig']])
        before = copy.deepcopy(given)
        a = compute(c, case(m, c['shout']), given, c['verb'])
        b = compute(c, m, eff)
        chk.check(same(given, before), 'options of the user were modified by '
                  'the modelling routine', info)
        if not chk.check(a.ok == b.ok, 'modelling failed',
                         dict(info, a=repr(a), b=repr(b))):
            return
        if not a.ok:    # too few points for the spline: nothing to compare
            chk.check('low' in c['given'], 'modelling failed',
                      dict(info, a=repr(a)))
            return
        chk.check(np.array_equal(a.value, b.value), 'field differs from the '
                  'one of the effective options', dict(
                      info, effective=repr(eff), got=a.value, want=b.value))
        chk.case(('field', c['m'], str(c['given']), c['sig']))
        one = [n for n, g in zip(c['names'], c['given']) if g != '-']
        if len(one) == 1 and one[0] in SHOWS[c['m']]:
            i = c['names'].index(one[0])
            # (Lagged and sine are the defaults of the Fourier DLF.)
            if c['given'][i] == c['eff'][i] and not (
                    one[0] == 'kind' and (c['given'][i] == 'sin' or c['sig'])
                    or c['m'] == 'f-dlf' and c['given'][i] == 'neg'):
                d = compute(c, m, {})
                chk.check(not np.array_equal(a.value, d.value), f'option '
                          f'{one[0]} has no effect', info)
                chk.case(('effect', c['m'], one[0]))

    def walk(c):
        out = []
        for p in c['path']:
            args = ast.literal_eval('{' + c['ctx'] + f"'{c['o']}': " +
                                    p['v'] + '}')
            o = compute(dict(m=c['m'], sig=0), c['m'][2:], args)
            if not chk.check(o.ok, 'modelling failed',
                             dict(walk=c, got=repr(o))):
                return
            out.append(o.value)
        for i, p in enumerate(c['path']):
            for j, q in enumerate(c['path'][:i]):
                if p['r'] == q['r']:
                    chk.check(np.array_equal(out[i], out[j]), f'option '
                              f'{c["o"]}: same value, another field',
                              dict(walk=c, stops=[i, j], got=out))
                else:
                    chk.check(not np.allclose(out[i], out[j], 1e-14, 0),
                              f'option {c["o"]} has no effect',
                              dict(walk=c, stops=[i, j], got=out))
        chk.case(('walk', c['m'], c['o'], c['ctx'], str(c['path'])),
                 dict(walk=c))

    rng.shuffle(walks)
    # One walk along every ladder first.
    seen = set()
    walks.sort(key=lambda c: (c['m'], c['o'], c['ctx']) in seen or
               seen.add((c['m'], c['o'], c['ctx'])) or False)
    chk.extra['walks_in_model'] = len(walks)
    chk.extra['walks_replayed'] = chk.parallel(
        walk, walks, budget=chk.elapsed()+(12 if not chk.thorough else 200))

    t = 12 if not chk.thorough else 120
    todo = list(cases)
    rng.shuffle(todo)
    n = chk.parallel(settings, todo if chk.thorough else [
        c for c in todo if 'qwe' not in c['m'] or rng.random() < .35],
        budget=t+100)
    chk.extra['settings_replayed'] = n
    # Fields: all with a single option first, then a sample.
    good = [c for c in todo if not c['err']]
    seen, first, rest = set(), [], []
    for c in good:
        k = (c['m'], str(c['given']), c['sig'])
        one = sum(g != '-' for g in c['given']) <= 1
        if one and k not in seen:
            seen.add(k)
            first.append(c)
        elif chk.thorough or c['m'] not in ('h-qwe', 'f-qwe') \
                or chk.rng.random() < .1:
            rest.append(c)
    chk.extra['fields_replayed'] = chk.parallel(
        fields, first, budget=120 if not chk.thorough else 300)
    chk.extra['fields_replayed'] += chk.parallel(
        fields, rest, budget=45 if not chk.thorough else 700)


if __name__ == '__main__':
    vlib.main('C14', run)
