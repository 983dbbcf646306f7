"""C12: the direct field is additive: total = direct + secondary."""
import vlib


def run(chk):
    h = chk.tlc_start('Direct', workers=4, consts=dict(
        Ifaces='{4, 8, 14, 20}' if chk.thorough else '{4, 8, 14}',
        Points='{1, 2, 5, 7, 8, 10, 13, 16, 18, 23}' if chk.thorough else
        '{1, 2, 5, 7, 8, 10, 16, 18}', NMat=4 if chk.thorough else 3))
    import emp
    from emp import np, empymod
    cases = chk.tlc_wait(h, timeout=900)['cases']
    chk.extra['experiments_in_model'] = len(cases)
    chk.rng.shuffle(cases)
    # First those where something can go wrong.
    cases.sort(key=lambda c: chk.rng.random()*(1 if c['hom'] or c['same']
                                               else 3))
    long = dict(dlf='wer_201_2018', pts_per_dec=0)

    def model(c, idx, var):
        m = emp.stack(5, var=var)
        i = np.array(idx)-1
        if c['by'] != 'all':     # only one parameter differs
            for k in m:
                if k not in ('depth', c['by']):
                    m[k] = np.repeat(m[k][:1], 5)
            step = 5e3 if c['by'].startswith('eperm') else .45*m[c['by']][0]
            m[c['by']] = m[c['by']][0] + step*np.arange(5)
        return {k: v[i] for k, v in m.items() if k != 'depth'}

    def weak(c, var, src, rec, abs_, me):
        """The secondary field of weak contrasts is linear in the contrast."""
        out = {}
        steps = (1e-3, 1e-4, 1e-7)
        for w in steps:
            lay = model(c, c['m'], var)
            ref = lay[c['by']][0]
            first = model(c, [1], var)[c['by']][0]
            lay[c['by']] = first + w*(lay[c['by']]-first)
            lay['depth'] = np.array(c['d'], float)*6.
            out[w] = np.array([empymod.dipole(
                src, rec, ab=ab, xdirect=None, verb=0, squeeze=False,
                freqtime=[.8, 45.], **lay, **emp.TINY) for ab in abs_])/w
        a = out[1e-4]
        sc = np.maximum(abs(a), 1e-2*np.max(abs(a), axis=(0, 2, 3),
                                            keepdims=True))
        for w in steps:
            chk.check(np.any(out[w] != 0) and vlib.close(
                out[w], a, 3e-2, scale=sc), 'the secondary field of a weak '
                'contrast is not linear in it', dict(
                    case=c, var=var, src=src, rec=rec, contrast=w, ref=ref,
                    got=out[w], other=a))
        chk.case(('weak', c, me))

    def experiment(c):
        rng = chk.rng
        var = rng.randrange(7)
        lay = model(c, c['m'], var)
        lay['depth'] = np.array(c['d'], float)*6.
        own = {k: v[:1] for k, v in model(c, [c['own']], var).items()}
        zs, zr = 6.*c['zs'], 6.*c['zr']
        if zs == zr:
            zr += 1.3 if 6*c['zr'] not in lay['depth'] else -1.3
            if not (c['same'] or c['hom']):
                return
        src, rec = [3., -4., zs], [[70., -31.], [25., 40.], zr]
        me = rng.choice([(0, 0), (0, 3), (3, 0), (3, 3)])
        abs_ = [(i+me[0])*10+j+me[1] for i in (1, 2, 3) for j in (1, 2, 3)]
        dom = rng.choice(['freq', 'freq', 'lap', 'time'])
        kw = dict(verb=0, squeeze=False, freqtime=dict(
            freq=[.8, 45.], lap=[-.8, -45.], time=[.02, .7])[dom], **emp.TINY)
        if dom == 'time':
            kw['signal'] = rng.choice([-1, 0, 1])
        out = {}
        for ab in abs_:
            out[ab] = [np.array(empymod.dipole(src, rec, ab=ab, xdirect=x,
                                               **lay, **kw))
                       for x in (None, True, False)]
        for ab in abs_:
            none, true, false = out[ab]
            sc = np.max([np.maximum(abs(out[b][1]), abs(out[b][2]))
                         for b in abs_], axis=0)
            sc = np.maximum(np.maximum(abs(true), abs(false)), 1e-4*sc)
            info = dict(case=c, ab=ab, var=var, dom=dom, src=src, rec=rec,
                        none=none, true=true, false=false,
                        signal=kw.get('signal'))
            chk.case((c, ab, dom), dict(case=c, ab=ab))
            if not (c['same'] or c['hom']):
                chk.check(vlib.close(none, true, 1e-12, scale=sc) and
                          vlib.close(none, false, 1e-12, scale=sc),
                          'different layers: the options differ', info)
                continue
            if c['hom']:
                chk.check(np.all(none == 0), 'secondary field of a '
                          'homogeneous full-space is not zero', info)
            # The direct field of the layer, without any other layer.
            dw = np.array(empymod.dipole(src, rec, depth=[], ab=ab,
                                         xdirect=False, **own, **kw))
            if dom != 'time':
                da = np.array(empymod.analytical(
                    src, rec, freqtime=kw['freqtime'], ab=ab, verb=0,
                    squeeze=False, **own))
            else:
                da = np.array(empymod.dipole(src, rec, depth=[], ab=ab,
                                             xdirect=True, **own, **kw))
            chk.check(vlib.close(true-none, da, 1e-9, scale=sc),
                      'total (analytical direct) is not secondary plus '
                      'full-space field', dict(info, direct=da))
            chk.check(vlib.close(false-none, dw, 1e-9, scale=sc),
                      'total (wavenumber direct) is not secondary plus '
                      'direct field', dict(info, direct=dw))
        if c['by'] == 'res' and c['same'] and not c['hom'] and \
                rng.random() < .5:
            weak(c, var, src, rec, abs_, me)
        if rng.random() < .4 and abs(zs-zr) > 4 and (c['same'] or c['hom']):
            # Analytical and wavenumber direct fields agree.
            ab = rng.choice(abs_)
            k2 = dict(kw, ht='dlf', htarg=long,
                      freqtime=[.8, 45.] if dom != 'lap' else [-.8, -45.])
            k2.pop('signal', None)
            x = emp.stack(5, var=var)
            a = np.array(empymod.dipole(src, rec, ab=ab, xdirect=True,
                                        **lay, **k2))
            b = np.array(empymod.dipole(src, rec, ab=ab, xdirect=False,
                                        **lay, **k2))
            d = np.array(empymod.analytical(
                src, rec, freqtime=k2['freqtime'], ab=ab, verb=0,
                squeeze=False, **own))
            sc = np.max([abs(np.array(empymod.analytical(
                src, rec, freqtime=k2['freqtime'], ab=i, verb=0,
                squeeze=False, **own))) for i in abs_], axis=0)
            chk.check(vlib.close(a, b, 2e-4, scale=np.maximum(
                abs(d), .02*sc)), 'analytical and wavenumber direct field '
                'disagree', dict(case=c, ab=ab, var=var, src=src, rec=rec,
                                 true=a, false=b, direct=d, x=x['res']))
            chk.case(('accurate', c, ab))
        if rng.random() < .3:
            bip(c, lay, zs, zr, kw)

    def bip(c, lay, zs, zr, kw):
        """Several elements of one call in different layers."""
        rng = chk.rng
        zz = np.array([zr, zs+.7, 140., -20., zr])
        src = [[0, 2.], 0, [zs, 17.], 20., 35.]
        rec = [70. + 3*np.arange(5.), 25., zz, -60., 12.]
        k = dict(lay, msrc=rng.random() < .5, mrec=rng.choice(
            [False, True, 'j', 'b']), **kw)
        out = [np.array(empymod.bipole(src, rec, xdirect=x, **k))
               for x in (None, True, False)]
        d = [0*a for a in out]
        m = {p: lay[p] for p in lay if p != 'depth'}
        for i in range(5):
            for j in range(2):
                s = [src[0][j], 0, src[2][j], 20., 35.]
                r = [rec[0][i], 25., zz[i], -60., 12.]
                ls = int(np.sum(lay['depth'] < s[2]))
                lr = int(np.sum(lay['depth'] < r[2]))
                if not (ls == lr or c['hom']):
                    continue
                one = {p: v[lr:lr+1] for p, v in m.items()}
                for n, x in ((1, True), (2, False)):
                    d[n][:, i, j] = np.array(empymod.bipole(
                        s, r, xdirect=x, **dict(k, depth=[], **one)))[:, 0, 0]
        for n in (1, 2):
            sc = np.maximum(abs(out[n]), abs(d[n]))
            sc = np.maximum(sc, 1e-5*np.max(sc, axis=(1, 2), keepdims=True))
            chk.check(vlib.close(out[n]-out[0], d[n], 1e-8, scale=sc),
                      'bipole: total is not secondary plus direct',
                      dict(case=c, src=src, rec=rec, kw=k, n=n, got=out[n],
                           secondary=out[0], direct=d[n]))

    b = 40 if not chk.thorough else 850
    n = chk.parallel(experiment, cases, budget=b)
    chk.extra['experiments_replayed'] = n


if __name__ == '__main__':
    vlib.main('C12', run)
