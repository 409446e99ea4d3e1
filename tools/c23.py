"""C23: the no-alloc build, replayed against recordings of the default build; counting allocator."""
from tools.play import *


def run(R, prop, t0):
    fails = []
    rel = player(R, 'pl-noalloc', ['build', '--offline', '--release', '--no-default-features'], 'release/player')
    chk = player(R, 'pl-noalloc-checked', ['build', '--offline', '--profile', 'checked', '--no-default-features'], 'checked/player')
    dfl = player(R, 'pl-alloc', ['build', '--offline', '--release'], 'release/player')
    nostd = bare(R, 'bare-noalloc', 'x86_64', False, 'checked')
    f = build_all(R, [rel, chk, dfl, nostd])
    if not dfl.ok:
        print(dfl.log[-3000:])
        R.die('the default build does not build')
    refuse(R, fails, rel, 'the crate does not build without the alloc feature')
    refuse(R, fails, chk, 'the crate does not build without the alloc feature (debug assertions on)')
    refuse(R, fails, nostd, 'a program without std and heap cannot be built on the crate without the alloc feature')
    rounds, n = (3, 16000) if R.TIER == 'quick' else (24, 20000)
    cov = dict(evaluations=0, distinct_nontrivial=0, rule='a recorded decode with distinct operation, arguments and data', recorded_ok=0, observed={}, samples=[])
    with Scratch() as tmp:
        for k in range(rounds):
            if time.time() - t0 > (300 if R.TIER == 'quick' else 700):
                cov['stopped_by_time_budget'] = True
                break
            cs = corpora(R, f, tmp, 8, n, 'mid' if k % 3 else 'small', 8 * k)
            jobs = []
            for p, st in cs:
                cov['distinct_nontrivial'] += st['distinct']
                cov['recorded_ok'] += st['ok']
                if rel.ok:
                    jobs.append(Job('no-alloc', [rel.bin, 'run', p]))
                if chk.ok:
                    jobs.append(Job('no-alloc checked', [chk.bin, 'run', p]))
                jobs.append(Job('default', [dfl.bin, 'run', p]))
                if nostd.ok:
                    jobs.append(Job('no-std no-alloc', [nostd.bin], stdin=p))
            for j in run_jobs(jobs):
                d = judge(R, fails, j)
                if d:
                    o = cov['observed'].setdefault(j.label, dict(decodes=0, operations=d.get('ops'), heap_allocations=0))
                    o['decodes'] += d['plays']
                    o['heap_allocations'] += d.get('allocs', 0)
                    cov['evaluations'] += d['plays']
            for p, _ in cs:
                os.unlink(p)
    if rel.ok and cov['observed'].get('no-alloc', {}).get('decodes', 0) == 0 and not fails:
        R.die('the run observed nothing')
    cov['samples'] = [f'{o}: {v}' for o, v in cov['observed'].items()]
    R.finish(prop, cov, fails, t0, assumptions=['what the default build decodes is judged by the other checks; this one compares builds',
                                               'heap use is observed by a counting global allocator around every call; PVRTC may allocate in the default build, crunch always'])
