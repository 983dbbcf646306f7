"""C09: source-receiver reciprocity holds for every field component."""
import sym
import vlib


def run(chk):
    h0 = sym.laws(chk)
    h = chk.tlc_start('Symmetry', workers=4, consts=dict(
        Gens='{"swap"}', MinIf=0, MaxIf=3 if not chk.thorough else 5,
        Hor='"few"' if not chk.thorough else '"many"', Depth=1))
    orbit = sym.setup(chk)
    import emp
    from emp import np, empymod
    orbits = sym.group(chk.tlc_wait(h, timeout=1500)['cases'])
    chk.tlc_wait(h0)
    chk.extra['experiments_in_model'] = len(orbits)
    chk.rng.shuffle(orbits)
    b = 40 if not chk.thorough else 800
    n = chk.parallel(orbit, orbits, budget=b)
    chk.extra['orbits_replayed'] = n

    def bip(i):
        """Reciprocity of finite bipoles with several elements."""
        rng = chk.rng
        m = emp.stack(rng.choice([1, 2, 3, 4]), var=i % 7)

        def end(x0):
            n = rng.choice([1, 2])
            u = rng.uniform
            if rng.random() < .5:
                return [[x0+u(0, 20) for _ in range(n)], u(-30, 30),
                        [u(-30, 90) for _ in range(n)], u(-170, 170),
                        u(-80, 80)]
            return [[x0+u(0, 20) for _ in range(n)], [x0+u(25, 40)]*n,
                    u(-30, 0), u(3, 40), u(-30, 90), u(-30, 90)]
        s, r = end(0.), end(100.)
        tm, tr = rng.random() < .5, rng.random() < .5
        kw = dict(m, freqtime=[.7, 60.] if i % 3 else [-.7, -4.], verb=0,
                  squeeze=False, strength=rng.choice([0, 3.]), **emp.TINY,
                  xdirect=rng.choice([False, True]))
        empymod.set_minimum(min_off=1e-10)
        k, l = rng.choice([1, 3, 4]), rng.choice([1, 3])
        a = empymod.bipole(s, r, msrc=tm, mrec=tr, srcpts=k, recpts=l, **kw)
        b = empymod.bipole(r, s, msrc=tr, mrec=tm, srcpts=l, recpts=k, **kw)
        sg = 1 if tm == tr else -1
        chk.check(vlib.close(np.swapaxes(a, 1, 2), sg*b, 1e-6,
                             scale=np.max(abs(a))),
                  'reciprocity of bipoles', dict(src=s, rec=r, msrc=tm,
                                                 mrec=tr, kw=kw, a=a, b=b))
        chk.case(('bipole', i))
        emp.restore_minimum()
    chk.parallel(bip, range(200 if not chk.thorough else 5000),
                 budget=b+12)


if __name__ == '__main__':
    vlib.main('C09', run)
