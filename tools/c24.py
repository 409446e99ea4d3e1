"""C24: the same decode in other histories, threads and builds."""
from tools.play import *


def run(R, prop, t0):
    fails = []
    quick = R.TIER == 'quick'
    rel = player(R, 'pl-alloc', ['build', '--offline', '--release'], 'release/player')
    chk = player(R, 'pl-checked', ['build', '--offline', '--profile', 'checked'], 'checked/player')
    dev = player(R, 'pl-dev', ['build', '--offline'], 'debug/player')
    small = player(R, 'pl-small', ['build', '--offline', '--profile', 'small'], 'small/player')
    tsan = player(R, 'pl-tsan', ['+nightly', 'build', '--offline', '--release', '-Zbuild-std', '--target', HOST], f'{HOST}/release/player',
                  {'RUSTFLAGS': '-Zsanitizer=thread'})
    bs = [rel, chk, dev, small, tsan]
    f = build_all(R, bs)
    for b in bs:
        if not b.ok:
            print(b.log[-3000:])
            R.die(f'{b.name} does not build')
    tenv = dict(os.environ, TSAN_OPTIONS='halt_on_error=0 exitcode=66 report_signal_unsafe=0')
    cov = dict(evaluations=0, distinct_nontrivial=0, rule='a recorded decode with distinct operation, arguments and data', observed={}, samples=[])
    with Scratch() as tmp:
        for k in range(3 if quick else 16):
            if time.time() - t0 > (300 if quick else 650):
                cov['stopped_by_time_budget'] = True
                break
            mid = corpora(R, f, tmp, 8, 6000, 'mid', 100 + 8 * k)
            sm = corpora(R, f, tmp, 8, 2500, 'small', 200 + 8 * k)
            jobs = []
            for p, st in mid:
                cov['distinct_nontrivial'] += st['distinct']
                for b in (chk, dev, small):
                    jobs.append(Job('build ' + b.name, [b.bin, 'run', p]))
            if k == 0 or not quick and k == 8:
                n = 70000 if k == 0 else 140000
                jobs += [Job('each operation often', [(chk if k else rel).bin, 'long', sm[i][0], f'seed={R.SEED * 100 + i}', f'plays={n}', 'step=8', f'first={i}']) for i in range(8)]
            # alone on the machine: the threads need the cores
            multi = []
            for i, (p, st) in enumerate(sm):
                cov['distinct_nontrivial'] += st['distinct']
                s = f'seed={R.SEED * 100 + k * 8 + i}'
                jobs.append(Job('histories', [(chk if i % 2 else rel).bin, 'history', p, s, 'rounds=6']))
                multi.append(Job('threads', [(chk if i % 2 else rel).bin, 'threads', p, s, 'rounds=400', f'threads={[8, 16, 32, 3][i % 4]}', 'burst=16']))
                multi.append(Job('threads, ThreadSanitizer', [tsan.bin, 'threads', p, s, 'rounds=120', f'threads={[8, 4, 12, 2][i % 4]}', 'burst=8'], env=tenv))
            for j in run_jobs(jobs) + run_jobs(multi, par=2):
                m = re.search(r'WARNING: ThreadSanitizer: (.*?) \(pid[^\n]*\n(?:.*\n){0,14}', j.err)
                if m:
                    where = re.search(r'/repo/src/\S+?:\d+', m[0])
                    add(fails, f"{j.label}:{m[1]}", f'{j.label}: {m[0][:1500]} {where[0] if where else ""}', j)
                d = judge(R, fails, j)
                if d:
                    o = cov['observed'].setdefault(j.label, dict(decodes=0, runs=0))
                    o['decodes'] += d['plays']
                    o['runs'] += 1
                    for x in ('op_pairs', 'overlapping_op_pairs', 'calls_per_op'):
                        if x in d:
                            o[x] = max(o.get(x, 0), d[x])
                    if 'same_op_overlaps' in d:
                        o['same_op_overlaps'] = o.get('same_op_overlaps', 0) + d['same_op_overlaps']
                    cov['evaluations'] += d['plays']
            for p, _ in mid + sm:
                os.unlink(p)
    if not fails and not all(cov['observed'].get(l, {}).get('decodes') for l in ('histories', 'threads', 'threads, ThreadSanitizer')):
        R.die('the run observed nothing')
    cov['samples'] = [f'{o}: {v}' for o, v in cov['observed'].items()]
    R.finish(prop, cov, fails, t0, assumptions=['the reference is the recording of a sequential release build; what it decodes is judged by the other checks',
                                               'only the interleavings the scheduler produced were observed'])
