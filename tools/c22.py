"""C22: other word sizes and byte orders, and undefined behaviour."""
from tools.play import *

UB = '-Zmiri-disable-isolation -Zmiri-symbolic-alignment-check'
FAST = '-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation'


def miri(R, arch):
    t = arch + '-unknown-linux-gnu'
    b = Build(R, 'miri-' + arch, 'player', ['cargo', '+nightly', 'miri', 'run', '--offline', '--release', '--target', t, '--', 'ops'], '-')
    b.env['XDG_CACHE_HOME'] = os.path.join(b.dir, 'sysroot')
    b.env['MIRIFLAGS'] = FAST
    b.env.pop('MIRI_SYSROOT', None)
    return b


def mjob(b, label, flags, rec, secs):
    return Job(label, b.cmd[:-1] + ['run', rec, f'secs={secs}'], env=dict(b.env, MIRIFLAGS=flags), cwd=b.cwd)


def run(R, prop, t0):
    fails = []
    quick = R.TIER == 'quick'
    be, le = miri(R, 's390x'), miri(R, 'x86_64')
    r32, c32 = bare(R, 'bare32', 'i686', True, 'release'), bare(R, 'bare32-checked', 'i686', True, 'checked')
    bs = [be, le, r32, c32]
    f = build_all(R, bs)
    refuse(R, fails, r32, 'the crate does not build for a 32-bit target')
    refuse(R, fails, c32, 'the crate does not build for a 32-bit target (debug assertions on)')
    refuse(R, fails, be, 'the crate does not build for a big-endian target')
    refuse(R, fails, le, 'the crate does not build under the interpreter')
    native = False
    if r32.ok and c32.ok:
        try:
            native = b'bits=32' in subprocess.run([r32.bin], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE).stdout
        except OSError:
            pass
    extra = []
    if not native and not fails:
        # this kernel runs no 32-bit programs: interpret them
        extra = [miri(R, 'i686')]
        build_all(R, extra)
        refuse(R, fails, extra[0], 'the crate does not build for a 32-bit target')
    cov = dict(evaluations=0, distinct_nontrivial=0, rule='a recorded decode with distinct operation, arguments and data', observed={}, samples=[], native_32bit=native)

    def take(jobs):
        for j in jobs:
            d = judge(R, fails, j)
            if d:
                o = cov['observed'].setdefault(j.label, dict(decodes=0, operations=0))
                o['decodes'] += d['plays']
                o['operations'] = max(o['operations'], d.get('ops', 0))
                cov['evaluations'] += d['plays']
    with Scratch() as tmp:
        if native:
            for k in range(2 if quick else 10):
                cs = corpora(R, f, tmp, 8, 20000, 'mid' if k % 2 else 'small', 8 * k)
                cov['distinct_nontrivial'] += sum(s['distinct'] for _, s in cs)
                take(run_jobs([Job('32-bit checked' if b is c32 else '32-bit', [b.bin], stdin=p) for p, _ in cs for b in (r32, c32)]))
                for p, _ in cs:
                    os.unlink(p)
        secs = 130 if quick else 560
        ms = []
        if be.ok:
            ms += [('big-endian (s390x, interpreted)', be, FAST)] * (5 if native or not extra else 3)
        if le.ok:
            ms += [('undefined-behaviour interpreter (x86-64)', le, UB)] * 3
        for b in extra:
            ms += [('32-bit (i686, interpreted)', b, FAST)] * 2
        cs = corpora(R, f, tmp, len(ms), 6200 if quick else 24800, 'tiny', 500)
        cov['miri_recorded'] = sum(s['distinct'] for _, s in cs)
        take(run_jobs([mjob(b, l, fl, p, secs) for (l, b, fl), (p, _) in zip(ms, cs)], timeout=secs + 120))
    cov['distinct_nontrivial'] = max(cov['distinct_nontrivial'], sum(o['decodes'] for l, o in cov['observed'].items() if 'interpre' in l))
    if not fails and len(cov['observed']) < 3:
        R.die('the run observed nothing')
    cov['samples'] = [f'{o}: {v}' for o, v in cov['observed'].items()]
    R.finish(prop, cov, fails, t0, assumptions=['the reference is the recording of the 64-bit little-endian release build; what it decodes is judged by the other checks',
                                               'interpreted decodes are small images; s390x stands for big-endian targets, i686 for 32-bit ones'])
