"""C24: the command line computes what the Python functions compute."""
import contextlib
import io as sio
import os
import shutil
import subprocess
import sys

import vlib


def run(chk):
    hx = chk.tlc_start('Cli', workers=4, consts=dict(
        Outputs='{"o.txt", "o.json"}', MaxLen=1))
    h = chk.tlc_start('Cli', workers=3, depth=10, consts=dict(
        Outputs='{"o.txt", "o.json", "p.json"}', MaxLen=6),
        simulate=2000 if chk.thorough else 30)
    import emp
    from emp import np, empymod, io, model
    from empymod import __main__ as cli

    def content(kind, routine, r):
        """Input of this kind: dict, or text."""
        n = r.choice([1, 2, 3])
        st = {k: np.array(v).tolist() for k, v in
              emp.stack(n, var=r.randrange(7)).items()}
        rec = {'dipole': [[30., 50.], [0., 7.], 20.],
               'bipole': [[30., 50.], [0., 7.], 20., 30, 4],
               'loop': [[30., 50.], [0., 7.], 20., 30, 4],
               'analytical': [[30., 50.], [0., 7.], 20.]}[routine]
        src = {'dipole': [0, 0, 10], 'bipole': [0, 9, 0, 0, 10, 10],
               'loop': [0, 0, 10, 0, 90], 'analytical': [0, 0, 10]}[routine]
        d = dict(src=src, rec=rec, freqtime=[.1, 3.], verb=0)
        if routine == 'analytical':
            d.update(res=3., aniso=1.3)
        else:
            d.update(st, htarg={'dlf': 'key_51_2012',
                                'pts_per_dec': r.choice([0, -1])})
        if kind == 'time':
            d.update(freqtime=[.01, .5], signal=r.choice([-1, 0, 1]))
            if routine == 'analytical':
                d['solution'] = 'dfs'
            else:
                d['ftarg'] = {'dlf': 'key_81_2009', 'pts_per_dec': -1}
        elif kind == 'many':
            if r.random() < .5:
                d['freqtime'] = [10.**r.uniform(-3, 3) for _ in range(4)]
            else:
                d['rec'] = [60., 10., 20.] + rec[3:]
                d['freqtime'] = 1.5
            if routine == 'dipole':
                d['src'] = [[0, 1.], [0, 2.], 10]
                d['ab'] = r.choice([11, 34, 62])
        elif kind == 'squeeze':
            d.update(squeeze=True, freqtime=1., rec=[60., 10., 20.]+rec[3:])
        elif kind == 'foreign':
            d[{'dipole': 'srcpts', 'bipole': 'ab', 'loop': 'ab',
               'analytical': 'htarg'}[routine]] = 11
        elif kind == 'verbose':
            d['verb'] = r.choice([2, 3, 4])
            if routine == 'analytical':
                d['verb'] = 3
        elif kind == 'tuple' and routine == 'analytical':
            d['solution'] = r.choice(['dsplit', 'dtetm'])
        elif kind == 'broken':
            return r.choice(['{"src": [0, 0, 0', '{"a": }', '{} {}'])
        elif kind == 'emptyfile':
            return ''
        elif kind == 'list':
            return r.choice(['[1, 2]', '3', '"dipole"'])
        elif kind == 'missing':
            d.pop(r.choice(['src', 'rec', 'res', 'freqtime']))
        elif kind == 'unknown':
            d[r.choice(['frequency', 'Ab', 'htart'])] = 1
        elif kind == 'value':
            k, v = r.choice([('src', [0, 0]), ('res', [1, 2, 3, 4, 5, 6]),
                             ('freqtime', -0.) if False else ('rec', [1])])
            d[k] = v
        elif kind == 'number':
            d['signal'] = r.choice([7, -2, .5])
        elif kind == 'nested':
            d = {'model': d}
        return d

    def command(c, d, r, main):
        """Run command c in directory d and compare with the outcome."""
        cmd, o = c['cmd'], c['o']
        args, inp, data = [], None, None
        if cmd['n'] >= 1:
            args.append(cmd['routine'])
        inname = 'in.json'
        if cmd['n'] >= 2:
            if os.path.exists(inname):
                os.remove(inname)
            if cmd['input'] == 'absent':
                pass
            elif cmd['input'] == 'suffix':
                inname = r.choice(['in.txt', 'in', 'in.JSN'])
                with open(inname, 'w') as f:
                    f.write('{}')
            else:
                rt = cmd['routine'] if cmd['routine'] != 'gpr' else 'dipole'
                data = content(cmd['input'], rt, r)
                if isinstance(data, str):
                    with open(inname, 'w') as f:
                        f.write(data)
                else:
                    io.save_input(inname, data)
            args.append(r.choice([inname, os.path.join(d, inname)]))
        out = None
        if cmd['n'] >= 3:
            out = {'badsuffix': r.choice(['o.csv', 'o']),
                   'baddir': 'nodir/o.txt'}.get(cmd['out'], cmd['out'])
            args.append(r.choice([out, os.path.join(d, out)]))
        fl = {'none': [], 'version': ['--version'], 'report': ['--report'],
              'both': ['--report', '--version'], 'help': [
                  r.choice(['-h', '--help'])],
              'wrongflag': ['--what']}[cmd['flag']]
        k = r.choice([0, len(args)])
        args = args[:k]+fl+args[k:]

        def snapshot():
            s = {}
            for f in sorted(os.listdir(d)):
                if f not in (inname,):
                    with open(os.path.join(d, f), 'rb') as fh:
                        s[f] = fh.read()
            return s
        before = snapshot()
        with open(inname, 'rb') if os.path.exists(inname) else \
                contextlib.nullcontext(sio.BytesIO()) as f:
            inb = f.read()
        code, text, err = main(args)
        after = snapshot()
        det = dict(cmd=cmd, args=args, data=repr(data), code=code,
                   out=text[-600:], err=err[-600:])
        want = {'ok': code == 0, 'usage': code not in (0, None),
                'error': code not in (0, None),
                'ok or usage': True}[o['exit']]
        chk.check(want, 'exit status', det)
        ch = sorted(k for k in set(before) | set(after)
                    if before.get(k) != after.get(k))
        if not o['writes']:
            chk.check(not ch, 'files changed by a command that writes none',
                      dict(det, changed=ch))
        else:
            chk.check(set(ch) <= {out} and out in after,
                      'other files than the output changed',
                      dict(det, changed=ch))
        if os.path.exists(inname):
            with open(inname, 'rb') as f:
                chk.check(f.read() == inb, 'input file changed', det)
        # The result.
        if o['writes'] or o['prints'] == 'result':
            fn = getattr(empymod, cmd['routine'])
            ref = vlib.call(fn, **{**io.load_input(inname),
                                   'squeeze': False})
            if not ref.ok:
                raise vlib.Machinery(f'{data}: {ref}')
            ref = ref.value
        if o['writes']:
            got = vlib.call(io.load_data, out)
            chk.check(got.ok and got.value.shape == ref.shape and
                      np.array_equal(got.value, ref) and
                      np.iscomplexobj(got.value) == np.iscomplexobj(ref),
                      'output file differs from the Python result',
                      dict(det, got=got, want=repr(ref)))
            if cmd['input'] != 'verbose':
                chk.check('[[' not in text, 'result printed too', det)
        elif o['prints'] == 'result':
            chk.check(text.rstrip().endswith(str(ref).rstrip()),
                      'printed result differs from the Python result',
                      dict(det, want=str(ref)))
            chk.check(ref.ndim == (4 if cmd['input'] == 'tuple' and
                                   cmd['routine'] == 'analytical' else 3),
                      'dimensions', det)
        p = o['prints']
        v = f'empymod v{empymod.__version__}'
        if p == 'version':
            chk.check(text.strip() == v, 'version', det)
        elif p == 'report':
            chk.check('empymod' in text and 'numpy' in text and
                      empymod.__version__ in text, 'report', det)
        elif p == 'info':
            chk.check(v in text and '--help' in text, 'information', det)
        elif p == 'usage':
            chk.check('usage' in (text+err), 'help', det)
        if o['exit'] == 'error':
            chk.check(err.strip() != '', 'error without a message', det)
            chk.check('[[' not in text, 'result of an erroneous call', det)

    def inprocess(args):
        so, se = sio.StringIO(), sio.StringIO()
        with contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
            try:
                r = cli.main(list(args))
            except SystemExit as e:
                r = e.code
            except BaseException as e:
                r = 1
                se.write(repr(e))
        if r is None:
            r = 0
        elif not isinstance(r, int):
            se.write(f'{type(r).__name__}: {r}')
            r = 1
        return r, so.getvalue(), se.getvalue()

    # (Also as a program.)
    def program(args):
        env = dict(os.environ, PYTHONPATH='/repo')
        how = chk.rng.choice([['-m', 'empymod'], [
            '-c', 'import sys; from empymod.__main__ import main; '
            'sys.exit(main())']])
        p = subprocess.run([sys.executable, *how, *args], env=env,
                           capture_output=True, text=True, timeout=300)
        return p.returncode, p.stdout, p.stderr

    def history(it):
        i, c, main = it
        d = os.path.join(chk.scratch, f'h{i}')
        os.makedirs(d)
        os.chdir(d)
        for f, v in c['log'][0]['before'].items():
            if v == -1:
                with open(f, 'w') as fh:
                    fh.write(chk.rng.choice(['', 'something else\n'*300]))
        for e in c['log']:
            command(e, d, chk.rng, main)
        os.chdir(chk.scratch)
        shutil.rmtree(d)
        chk.case((main.__name__, repr(c['log'])), c)
        chk.traces += 1

    single = chk.tlc_wait(hx)['cases']
    cases = chk.tlc_wait(h)['cases']
    chk.extra['commands_in_model'] = len(single)
    chk.rng.shuffle(single)
    chk.rng.shuffle(cases)
    # As a program: one command of each kind of outcome, and some more.
    seen, prog = set(), []
    for c in single:
        k = (c['log'][0]['cmd']['input'], repr(c['log'][0]['o']),
             c['log'][0]['cmd']['flag'])
        if k not in seen:
            seen.add(k)
            prog.append(c)
    q = chk.elapsed()
    chk.parallel(history, [(10**6+i, c, program) for i, c in enumerate(prog)],
                 budget=q+(200 if chk.thorough else 22))
    chk.parallel(history, [(i, c, inprocess) for i, c in enumerate(cases)],
                 budget=chk.elapsed()+(200 if chk.thorough else 8))
    chk.parallel(history, [(2*10**6+i, c, inprocess)
                           for i, c in enumerate(single)],
                 budget=chk.elapsed()+(200 if chk.thorough else 12))


if __name__ == '__main__':
    vlib.main('C24', run, 'model_checking')
