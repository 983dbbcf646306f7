"""C10: the field respects the symmetries of a layered earth."""
import sym
import vlib


def run(chk):
    g = '{"shiftH", "shiftV", "rot", "mirX", "mirY", "mirZ"}'
    h0 = sym.laws(chk)
    h1 = chk.tlc_start('Symmetry', workers=3, mem='6g', consts=dict(
        Gens=g, MinIf=0, MaxIf=2 if not chk.thorough else 4, Hor='"few"',
        Depth=1))
    # Longer products of generators, from a smaller set of experiments.
    h2 = chk.tlc_start('Symmetry', workers=3, mem='6g', consts=dict(
        Gens=g, MinIf=0, MaxIf=0, Hor='"few"',
        Depth=3 if not chk.thorough else 4))
    orbit = sym.setup(chk)
    import emp
    from emp import np, empymod
    orbits = sym.group(chk.tlc_wait(h1, timeout=2000)['cases'])
    deep = sym.group(chk.tlc_wait(h2, timeout=1000)['cases'])
    chk.tlc_wait(h0)
    chk.extra['experiments_in_model'] = len(orbits)
    chk.extra['images_in_model'] = sum(len(o[1]) for o in orbits+deep)
    chk.rng.shuffle(orbits)
    chk.rng.shuffle(deep)
    b = 45 if not chk.thorough else 800
    # Random images of the deep orbits.
    deep = [(o, chk.rng.sample(v, min(6, len(v)))) for o, v in deep]
    n = chk.parallel(orbit, deep[:400 if not chk.thorough else 4000],
                     budget=b)
    n += chk.parallel(orbit, orbits, budget=b)
    chk.extra['orbits_replayed'] = n

    def rotate(i):
        """Arbitrary rotations, translations, mirrors of bipole surveys."""
        rng = chk.rng
        u = rng.uniform
        n = rng.choice([1, 2, 3, 4])
        m = emp.stack(n, var=i % 7)
        ms, mr = rng.random() < .5, rng.random() < .5
        kw = dict(m, freqtime=[.7, 60.], msrc=ms, mrec=mr, verb=0, **emp.TINY,
                  xdirect=rng.choice([False, True, None]))
        s = [u(-40, 0), u(-40, 40), u(-60, 120), u(-180, 180), u(-90, 90)]
        r = [u(30, 90), u(-40, 40), u(-60, 120), u(-180, 180), u(-90, 90)]
        if rng.random() < .4:
            # Close to (but not on) the axes, with axis-parallel dipoles.
            ax = rng.choice([0, 90, 180, -90])*np.pi/180
            ax += rng.choice([-1, 1])*10**u(-9, -2)
            off = u(30, 90)
            r[0], r[1] = s[0]+off*np.cos(ax), s[1]+off*np.sin(ax)
            s[3], r[3] = rng.choice([0, 90, 180]), rng.choice([0, 90, -90])
            s[4], r[4] = rng.choice([0, 90]), rng.choice([0, 0, -90])
        a = empymod.bipole(s, r, **kw)
        th, t = u(-180, 180), (u(-1e3, 1e3), u(-1e3, 1e3), u(-500, 500))
        c, d = np.cos(np.deg2rad(th)), np.sin(np.deg2rad(th))

        def mv(p):
            return [c*p[0]-d*p[1]+t[0], d*p[0]+c*p[1]+t[1], p[2]+t[2],
                    p[3]+th, p[4]]
        b = empymod.bipole(mv(s), mv(r), **dict(kw, depth=m['depth']+t[2]))
        tot = abs(np.array(empymod.bipole(
            [*s[:3], 33., 28.], [*r[:3], -51., 17.], **kw)))
        sc = np.maximum(abs(a), tot)
        chk.check(vlib.close(a, b, 1e-9, scale=sc), 'rotated/shifted survey',
                  dict(src=s, rec=r, th=th, t=t, kw=kw, got=b, before=a))
        # Mirror in a horizontal plane: positive up, listed as it is.
        sg = (1 if not ms else -1)*(1 if not mr else -1)
        # polar: z flips = dip flips; axial: x, y flip = -(dip flips).
        # (With one interface, infinity tells the direction.)
        updep = -m['depth']
        if n == 2 or rng.random() < .3:
            updep = np.r_[np.inf, updep]
        b = empymod.bipole([s[0], s[1], -s[2], s[3], -s[4]],
                           [r[0], r[1], -r[2], r[3], -r[4]],
                           **dict(kw, depth=updep))
        chk.check(vlib.close(sg*np.array(a), b, 1e-9, scale=sc),
                  'positive-up survey', dict(src=s, rec=r, kw=kw, got=b,
                                             before=a))
        chk.case(('rot', i))
    chk.parallel(rotate, range(600 if not chk.thorough else 20000),
                 budget=b+10)


if __name__ == '__main__':
    vlib.main('C10', run)
