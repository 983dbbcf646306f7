"""C34: messages - silence, warnings exactly when warranted, true summaries."""
import re

import vlib

HEAD = {
    'freq': 'Frequencies <', 'time': 'Times <', 'off': 'Offsets <',
    'res': 'Resistivities <', 'aniso': 'Parameter aniso <',
    'eperm': 'Parameter epermH <', 'htarg': 'Unknown htarg',
    'ftarg': 'Unknown ftarg', 'unused': 'Unused **kwargs',
    'hconv': 'Hankel-quadrature did not converge',
    'fconv': 'Fourier-quadrature did not converge',
    'current': '`etaH != etaV` at receiver',
    'srcflux': '`zetaH != zetaV` at source',
    'recflux': '`zetaH != zetaV` at receiver',
    'depths': 'This function is experimental',
}
RE = r'\* WARNING :: '


def run(chk):
    num = 700 if not chk.thorough else 8000
    with open(vlib.SPEC + '/Messages.cfg') as f:
        cfg = f.read()
    few = cfg.replace(' Export', '')+(
        'CONSTANT Froms <- FewFroms\nCONSTANT Ats <- FewAts\n')
    hs = [chk.tlc_start('Messages', cfg=few, workers=3, consts=dict(
        MaxReasons=0 if not chk.thorough else 1, Verbs='{1}'))]
    hs += [chk.tlc_start('Messages', workers=1, simulate=num, depth=18,
                         consts=dict(MaxReasons=m)) for m in (0, 1, 3)]
    import emp
    from emp import np, empymod
    cases = []
    for h in hs:
        cases += chk.tlc_wait(h)['cases']
    cases = list({repr(c): c for c in cases}.values())
    chk.rng.shuffle(cases)
    chk.extra['calls_in_model'] = len(cases)

    def numbers(text):
        return np.array([float(x) for x in text.split()])

    def reported(lines, label):
        """Values of the (first) line with this label."""
        for i, ln in enumerate(lines):
            if ln.strip().startswith(label):
                # (the colon after the label and its unit)
                t = ln[ln.index(':')+1:].replace('(as dipole)', '').strip()
                m = re.match(r'(\S+) - (\S+) : (\d+)', t)
                if m:
                    full = None
                    if i+1 < len(lines) and re.match(r'\s+:  ', lines[i+1]):
                        full = numbers(lines[i+1].split(':')[1])
                    return (float(m[1]), float(m[2]), int(m[3])), full
                return None, numbers(t)
        return None, None

    def one(c):
        k = c['call']
        rng = chk.rng
        why, r = set(k['reasons']), k['routine']
        freqs = [1., .3, 4., 2.][:k['nf']]
        if k['high']:
            freqs[k['high']-1] = 1e6
        low = {'freq': .01, 'time': 1e-5}
        for q in ('freq', 'time'):
            if q in why:
                freqs.insert(rng.randrange(len(freqs)+1), low[q])
        zs = [[20., 60., 130.][i-1] for i in k['from']]
        dz = 0. if r == 'ip_and_q' else .2
        zr = [[20., 60., 130.][i-1]+dz for i in k['at']]
        xs, ys = [20., 30., -15., 18.][:len(zr)], [10., 12., 9., -14.]
        ys = ys[:len(zr)]
        sx, sy = [0., 4.][:len(zs)], [0., -3.][:len(zs)]
        if 'off' in why:
            i = rng.randrange(len(xs))
            xs[i], ys[i] = .002, .003
        if len(set(zr)) == 1 and (r != 'bipole' or rng.random() < .5):
            zr = zr[0]
            if len(xs) == 1 and rng.random() < .5:
                xs, ys = xs[0], ys[0]
        if len(set(zs)) == 1 and r != 'bipole':
            zs = zs[0]
        res, aniso = [1., 10., 3.], [1., 1., 1.]
        if 'res' in why:
            res[0] = .1
        if 'aniso' in why:
            aniso[0] = .1
        if k['el']:
            aniso[k['el']-1] = 2.
        epH = [-1. if 'eperm' in why else 1., 5., 1.]
        mpV = [1., 1., 1.]
        if k['ml']:
            mpV[k['ml']-1] = 3.
        med = dict(res=res)
        if 'aniso' in why or k['el'] or rng.random() < .3:
            med['aniso'] = aniso
        if 'eperm' in why or rng.random() < .3:
            med['epermH'] = epH
        if k['ml'] or rng.random() < .3:
            med['mpermV'] = mpV
        used = dict(res=[max(x, .5) for x in res], aniso=aniso,
                    epermH=[max(x, 0.) for x in epH] if 'epermH' in med else
                    [1., 1., 1.], mpermH=[1., 1., 1.],
                    mpermV=mpV if 'mpermV' in med else [1., 1., 1.])
        if 'aniso' in why:
            used['aniso'] = [np.sqrt(.5), *aniso[1:]]
        used['epermV'] = used['epermH']
        depth = [50., 100.]
        if r == 'analytical':
            med = {p: v[0] for p, v in med.items()}
            used = {p: v[:1] for p, v in used.items()}
            depth = []
        kw = dict(verb=k['verb'])
        if r != 'analytical':
            o = [i-1 for i in c['given']]
            med = {p: [v[i] for i in o] for p, v in med.items()}
            kw['depth'] = depth if k['order'] == 'down' else depth[::-1]
        kw.update(med)
        kw['freq' if r == 'dipole_k' else 'freqtime'] = freqs
        if r in ('dipole', 'dipole_k', 'analytical'):
            kw['ab'] = rng.choice([11, 33, 44, 55] if k['quad'] != 'no' else [
                11, 42, 33, 51])
        if r == 'analytical' and k['domain'] == 'time':
            kw.update(solution='dhs', ab=rng.choice([11, 33, 21]))
        if r == 'ip_and_q':
            kw['ab'] = rng.choice([44, 55, 66])
        if k['domain'] == 'time':
            kw['signal'] = rng.choice([-1, 0, 1])
            if k['fquad'] == 'hard':
                kw.update(ft='qwe', ftarg=dict(rtol=1e-12, atol=0., maxint=3,
                                               nquad=5))
            elif k['fquad'] == 'easy':
                kw.update(ft='qwe', ftarg=dict(rtol=.5, atol=1e3, maxint=9,
                                               nquad=9, pts_per_dec=3,
                                               diff_quad=10**9))
            elif r != 'analytical':
                kw['ftarg'] = dict(emp.FT, pts_per_dec=0)
            if 'ftarg' in why:
                kw['ftarg'] = dict(kw['ftarg'], foo=1)
        if r in ('bipole', 'dipole', 'ip_and_q'):
            if k['quad'] != 'no':
                kw.update(ht='qwe', htarg=dict(
                    rtol=1e-8, atol=1e-18, nquad=31,
                    maxint={'few': 9, 'more': 13}[k['quad']]))
            else:
                kw['htarg'] = dict(emp.HT, pts_per_dec=0)
            if 'htarg' in why:
                kw['htarg'] = dict(kw['htarg'], foo=1)
            if k['loop'] != 'none':
                kw['loop'] = k['loop']
        if 'unused' in why:
            kw[rng.choice({
                'bipole': ['cf', 'wavenumber'], 'dipole': ['srcpts', 'mrec'],
                'analytical': ['loop', 'msrc'], 'dipole_k': ['gain', 'ht'],
                'ip_and_q': ['strength', 'cf']}[r])] = 1
        if r == 'bipole':
            ty = dict(e=False, m=True, b='b', j='j')
            kw.update(msrc=ty[k['stype']], mrec=ty[k['rtype']],
                      srcpts=k['pts'])
            src = [[x-2. for x in sx], [x+2. for x in sx], sy, sy, zs, zs]
            if len(sx) == 1:
                src = [v[0] for v in src]
            if k['stype'] == 'b' and rng.random() < .3:
                kw['msrc'] = 'loop'
            angles = rng.choice([(0., 0.), (90., 0.), (0., 90.)])
            rec = [xs, ys, zr, *angles]
            if k['pts'] == 1 and rng.random() < .5:
                src = [sx, sy, zs, 0., 0.]
        else:
            src, rec = [sx, sy, zs], [xs, ys, zr]
            if r == 'dipole_k':
                kw['wavenumber'] = np.array([.01, .02])
        parts = []
        try:
            empymod.set_minimum(min_freq=.1 if k['domain'] == 'freq' else 1e-20,
                                min_time=1e-3, min_off=.01, min_res=.5)
            if c['byparts'] and kw['verb'] > 0 and rng.random() < .5:
                for i in range(k['nf']):
                    for j in range(len(c['call']['at'])):
                        q = dict(kw, verb=1, freqtime=freqs[i:i+1])
                        p = [v[j:j+1] if np.ndim(v) else [v] for v in rec[:3]]
                        o = vlib.call(getattr(empymod, r), src=src,
                                      rec=[*p[:2], p[2] if r == 'bipole' else
                                           p[2][0], *rec[3:]], **q)
                        if HEAD['hconv'] in o.text:
                            parts.append((i, j))
                if parts:
                    c['warned'].append('hconv')
                chk.extra['by_parts'] = chk.extra.get('by_parts', 0)+1
                if 0 < len(parts) < k['nf']*len(c['call']['at']):
                    chk.extra['mixed'] = chk.extra.get('mixed', 0)+1
            elif c['byparts']:
                return
            o = vlib.call(getattr(empymod, r), src=src, rec=rec, **kw)
        finally:
            emp.restore_minimum()
        text, v = o.text, k['verb']
        det = dict(routine=r, src=src, rec=rec, kw={
            a: b for a, b in kw.items() if a not in ('htarg', 'ftarg')},
            call=k, parts=parts, text=text[-3000:], want=c['warned'])
        if not chk.check(o.ok, f'{r}: raises {o.exc!r}', det):
            return
        chk.case(repr((r, k)), dict(call=k, warned=c['warned']))
        if v == 0:
            chk.check(text == '', f'{r}: prints although verb=0', det)
            return
        # Warnings.
        heads = re.findall(RE + r'(.*)', text)
        got = set()
        for h in heads:
            n = [w for w, s in HEAD.items() if h.startswith(s)]
            chk.check(len(n) == 1, f'{r}: unexpected warning {h[:60]}', det)
            got |= set(n)
        chk.check(got == set(c['warned']), f'{r}: warnings {sorted(got)}, '
                  f'expected {sorted(c["warned"])}', det)
        # What else is printed.
        lines = text.split('\n')
        if v == 1:
            rest = [ln for ln in lines if ln.strip() and not
                    ln.startswith('* WARNING') and not
                    ln.startswith('             ')]
            chk.check(not rest, f'{r}: prints more than warnings at verb=1',
                      dict(**det, rest=rest))
        chk.check(('empymod END; runtime' in text) == ('end' in c['lines']),
                  f'{r}: run time at verb={v}', det)
        chk.check(('empymod START' in text) == ('start' in c['lines']),
                  f'{r}: start at verb={v}', det)
        # Number of kernel calls.
        m = re.search(r'runtime = .* :: *(?:(\d+) kernel call)?', text)
        freqdom = k['domain'] == 'freq'
        if v >= 2 and r != 'analytical' and c['kernels'] and (
                freqdom or k['loop'] != 'freq'):
            chk.check(m is not None and int(m[1] or 0) == c['kernels'],
                      f'{r}: number of kernel calls, expected {c["kernels"]}',
                      det)
        # Summary.
        sm = [('depth', depth)]+[(p, used[p]) for p in (
            'res', 'aniso', 'epermH', 'epermV', 'mpermH', 'mpermV')]
        first = ['freq', 'time'][not freqdom]
        sm.append(({'freq': 'frequency', 'time': 'time'}[first],
                   [max(x, {'freq': .1, 'time': 1e-3}[first])
                    for x in freqs]))
        chk.check(('res     [Ohm.m]' in text) == ('summary' in c['lines']),
                  f'{r}: summary at verb={v}', det)
        if v < 3:
            return
        for label, want in sm:
            mm, full = reported(lines, label)
            want = np.array(want, float)
            d = dict(**det, label=label, reported=(mm, full), used=want)
            if mm is not None:
                chk.check(vlib.close(np.array(mm), np.array(
                    [want.min(), want.max(), want.size]), 1e-5),
                    f'{r}: range reported for {label}', d)
                chk.check((full is not None) == ('all' in c['lines']),
                          f'{r}: all values of {label} at verb={v}', d)
            else:
                chk.check(full is not None, f'{r}: {label} is not reported', d)
            if full is not None:
                chk.check(full.shape == want.shape and vlib.close(
                    full, want, 1e-5), f'{r}: {label} reported', d)
        # Sources and receivers.
        n = [i for i, ln in enumerate(lines) if re.match(
            r'   (Source|Receiver)\(s\) ', ln)]
        names = ['src' if lines[i].startswith('   S') else 'rec' for i in n]
        if r == 'ip_and_q':     # (Which is the difference of two.)
            n, names = n[:2], names[:2]
        if not chk.check(names == [b[0] for b in c['blocks']], f'{r}: sources '
                         'and receivers which are reported', det):
            return
        wing = r == 'bipole' and len(src) == 6
        for i, (name, who) in zip(n, c['blocks']):
            sub = lines[i:]
            chk.check(f': {len(who)} dipole(s)' in
                      re.sub(' +', ' ', sub[0]), f'{r}: number of {name}',
                      dict(**det, line=sub[0]))
            xyz = (sx, sy, zs) if name == 'src' else (xs, ys, zr)
            what = [('> '+'xyz'[q], np.ravel(np.array(p, float)))
                    for q, p in enumerate(xyz)]
            what = [(q, p if p.size == 1 else p[[w-1 for w in who]])
                    for q, p in what]
            if r == 'bipole':
                a, b = (0., 0.) if name == 'src' else angles
                what += [('> azimuth', np.full(len(who), a)),
                         ('> dip', np.full(len(who), b))]
                if name == 'src' and wing:
                    what += [('> length', np.full(len(who), 4.)),
                             ('> intpts', np.array([float(k['pts'])]))]
            for q, want in what:
                mm, full = reported(sub, q)
                d = dict(**det, label=q, reported=(mm, full), used=want)
                if mm is not None:
                    chk.check(vlib.close(np.array(mm), np.array(
                        [want.min(), want.max(), want.size]), 1e-5, 1e-9),
                        f'{r}: range of {name}', d)
                elif chk.check(full is not None, f'{r}: {q} of {name}', d):
                    # (One value, if all are the same.)
                    chk.check(full.shape == want.shape and vlib.close(
                        full, want, 1e-5, 1e-9) or full.size == 1 and
                        vlib.close(full[0]+0*want, want, 1e-5, 1e-9),
                        f'{r}: {q} of {name} reported', d)

    n = chk.parallel(one, cases, budget=chk.elapsed()+(
        18 if not chk.thorough else 400))
    chk.extra['calls_replayed'] = n


if __name__ == '__main__':
    vlib.main('C34', run, 'model_checking')
