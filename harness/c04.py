"""C04: layer membership is half-open; cutting a layer changes nothing."""
import vlib

AB = [i*10+j for i in range(1, 7) for j in range(1, 7)]


def run(chk):
    pts = '{1, 3, 5, 7, 9, 11, 13, 15, 17}'
    hs = [chk.tlc_start('Layers', workers=1, consts=dict(
        Ifaces='{3, 7, 11, 15}', Points=pts,
        Cuts='{0, 1, 2, 5, 7, 8, 9, 11, 13, 14, 16, 17, 18}', MaxCuts=1))]
    if chk.thorough:
        hs.append(chk.tlc_start('Layers', workers=1, consts=dict(
            Ifaces='{3, 7, 11, 15}', Points='{1, 3, 5, 7, 9, 11, 15, 17}',
            Cuts='{1, 4, 7, 9, 10, 14, 17}', MaxCuts=3)))
    import emp
    from emp import np, empymod, utils
    cases = []
    for h in hs:
        cases += chk.tlc_wait(h, timeout=900)['cases']
    plain = [c for c in cases if c['depth'] == c['cut']]
    cut = [c for c in cases if c['depth'] != c['cut']]
    chk.extra['stacks_in_model'] = len(plain)
    chk.extra['cut_stacks_in_model'] = len(cut)
    chk.rng.shuffle(cut)
    chk.rng.shuffle(plain)
    big = [c for c in cut if len(c['depth']) >= 3]
    small = [c for c in cut if len(c['depth']) < 3]
    mix = [c for p in zip(big, small) for c in p] + big[len(small):] + \
        small[len(big):]

    def Z(i):
        return 7.5*(i-3) + 3.

    def model(mats, var):
        m = emp.stack(5, var=var)
        # Largest contrasts, but moderate magnitudes for the accuracy.
        return {k: v[np.array(mats)-1] for k, v in m.items() if k != 'depth'}

    off = [60., -35.]

    # 1. Membership, as seen by the layer function and in the field.
    def member(c):
        # The specification is ordinal: any increasing map of positions.
        for _ in range(3):
            gap = [chk.rng.choice([1e-9, 1e-6, 3e-4, .02, 1., 37., 900.])
                   for _ in range(20)]
            pos = np.cumsum(gap)-chk.rng.choice([0., 10., 700.])
            pos += 0.0
            if np.any(np.diff(pos) <= 0):
                continue
            lay, zz = utils.get_layer_nr(
                [0, 0, np.array([pos[c['zr']], pos[c['zs']]])],
                np.r_[-np.inf, [pos[i] for i in c['cut']]])
            chk.check(np.array_equal(lay, [c['lrec2'], c['lsrc2']]),
                      'layer numbers (other scale)', dict(
                          case=c, got=lay, pos=pos))
        depth = np.r_[-np.inf, [Z(i) for i in c['cut']]]
        for zz in (Z(c['zr']), np.array([Z(c['zr'])]*3)):
            lay, _ = utils.get_layer_nr([0, 0, zz], depth)
            chk.check(np.all(np.atleast_1d(lay) == c['lrec2']),
                      'layer number', dict(case=c, got=lay))
        zz = np.array([Z(c['zr']), Z(c['zs'])])
        lay, _ = utils.get_layer_nr([0, 0, zz], depth)
        chk.check(np.array_equal(lay, [c['lrec2'], c['lsrc2']]),
                  'layer numbers', dict(case=c, got=lay))
        zs, zr = Z(c['zs']), Z(c['zr'])
        ons, onr = c['zs'] in c['cut'], c['zr'] in c['cut']
        if not (ons or onr) or zs == zr:
            return
        var = chk.rng.randrange(7)
        m = dict(model(c['mat'], var), depth=depth[1:], freqtime=[.7, 90.],
                 xdirect=chk.rng.choice([False, None]), **emp.TINY)
        m.pop('ft'), m.pop('ftarg')
        e = 1e-7
        for ab in chk.rng.sample(AB, 6 if not chk.thorough else 18):
            a = empymod.dipole([0, 0, zs], [*off, zr], ab=ab, verb=0, **m)
            b = empymod.dipole([0, 0, zs-e*ons], [*off, zr-e*onr], ab=ab,
                               verb=0, **m)
            sc = np.max(np.abs(a))
            chk.check(vlib.close(a, b, 1e-4, scale=np.maximum(abs(a), 1e-3*sc)),
                      'on an interface belongs to the layer above',
                      dict(case=c, ab=ab, var=var, got=a, above=b,
                           xdirect=m['xdirect']))
            # Immediately below it is the layer below: continuous from there.
            a = empymod.dipole([0, 0, zs+e*ons], [*off, zr+e*onr], ab=ab,
                               verb=0, **m)
            b = empymod.dipole([0, 0, zs+7e-4*ons], [*off, zr+7e-4*onr], ab=ab,
                               verb=0, **m)
            chk.check(vlib.close(a, b, 5e-2, scale=np.maximum(
                abs(a), .3*abs(a).max())),
                      'immediately below an interface is the layer below',
                      dict(case=c, ab=ab, var=var, got=a, below=b,
                           xdirect=m['xdirect']))
            chk.case(('on', c['cut'], c['zs'], c['zr'], ab),
                     dict(case=c, ab=ab))
        # Bipole path (its own layer determination per element).
        o = off
        src = [0, 0, np.array([zs, zs+1.]), 17., 25.]
        rec = [np.r_[o[0], 70.], o[1], np.array([zr, zr+1.3]), -40., 12.]
        src2 = [0, 0, np.array([zs-e*ons, zs+1.]), 17., 25.]
        rec2 = [rec[0], o[1], np.array([zr-e*onr, zr+1.3]), -40., 12.]
        kw = dict(msrc=chk.rng.choice([False, True]),
                  mrec=chk.rng.choice([False, True]), verb=0)
        a = empymod.bipole(src, rec, **kw, **m)
        b = empymod.bipole(src2, rec2, **kw, **m)
        chk.check(vlib.close(a, b, 1e-4, scale=np.maximum(
            abs(a), 1e-3*abs(a).max())), 'bipole: on an interface belongs to '
            'the layer above', dict(case=c, var=var, got=a, above=b, kw=kw))

    # 2. Cutting a layer.
    def cutting(c):
        var = chk.rng.randrange(7)
        n = len(c['depth'])+1
        d0 = dict(model(range(1, n+1), var),
                  depth=[Z(i) for i in c['depth']])
        d1 = dict(model(c['mat'], var), depth=[Z(i) for i in c['cut']])
        zs, zr = Z(c['zs']), Z(c['zr'])
        up = chk.rng.random() < .3
        if up:       # Positive upwards (the same stack, listed downwards).
            pass
        freq = chk.rng.choice([[.3, 40.], [-.3, -40.]])
        # A random pairing of source and receiver type, all its components.
        me = chk.rng.choice([(0, 0), (0, 3), (3, 0), (3, 3)])
        abs_ = [(i+me[0])*10+j+me[1] for i in (1, 2, 3) for j in (1, 2, 3)]
        kw = dict(freqtime=freq, verb=0, xdirect=False, ht='dlf',
                  htarg=emp.HT)
        old = {ab: empymod.dipole([0, 0, zs], [*off, zr], ab=ab, **d0, **kw)
               for ab in abs_}
        tot = np.max([abs(a) for a in old.values()], axis=0)
        for ab, a in old.items():
            b = empymod.dipole([0, 0, zs], [*off, zr], ab=ab, **d1, **kw)
            # Homogeneous: the sum of the direct parts only.
            sc = np.maximum(abs(a), 1e-6*tot)
            chk.check(vlib.close(a, b, 1e-7, scale=sc),
                      'cutting a layer changes the field',
                      dict(case=c, ab=ab, var=var, freq=freq, before=a,
                           after=b))
            chk.case(('cut', c['depth'], c['cut'], c['zs'], c['zr'], ab),
                     dict(case=c, ab=ab))
        if chk.rng.random() < .35:
            # Same with other direct fields, with an accurate filter.
            ab = chk.rng.choice(AB)
            x0, x1 = chk.rng.choice([(True, True), (True, False),
                                     (False, True)])
            kw = dict(ab=ab, freqtime=freq, verb=0, ht='dlf', htarg=dict(
                dlf='wer_201_2018', pts_per_dec=0))
            a = empymod.dipole([0, 0, zs], [*off, zr], xdirect=x0, **d0, **kw)
            b = empymod.dipole([0, 0, zs], [*off, zr], xdirect=x1, **d1, **kw)
            if zs == zr and False in (x0, x1):
                return   # no decay of the direct field in wavenumber domain
            # Components may vanish: scale of all of the same e/m type.
            k9 = dict(kw)
            j = [3*((i-1)//3) for i in divmod(ab, 10)]
            s9 = []
            for p in (1, 2, 3):
                for q in (1, 2, 3):
                    k9['ab'] = (p+j[0])*10 + q+j[1]
                    s9.append(abs(empymod.dipole(
                        [0, 0, zs], [*off, zr], xdirect=True, **d0, **k9)))
            sc = np.maximum(abs(a), 1e-3*np.max(s9, axis=0))
            chk.check(vlib.close(a, b, 2e-4, scale=sc),
                      'cutting a layer changes the field (direct field '
                      f'{x0}/{x1})', dict(case=c, ab=ab, var=var, freq=freq,
                                          before=a, after=b))
            chk.case(('cutx', x0, x1, c['depth'], c['cut'], ab))

    b = 30 if not chk.thorough else 500
    n = chk.parallel(member, plain, budget=b*.4)
    n += chk.parallel(cutting, mix, budget=b if not chk.thorough else 850)
    chk.extra['cases_replayed'] = n


if __name__ == '__main__':
    vlib.main('C04', run)
