"""C25: the Python extension against recordings of the Rust decoders."""
from tools.play import *

PY = '/opt/vp/venv/bin/python'


def ext(R, name, flags, prof):
    py = PY if os.path.exists(PY) else sys.executable
    b = Build(R, name, '/repo/bindings/python', ['cargo', 'build', '--offline'] + flags, f'{prof}/libtexture2ddecoder_rs.so',
              dict(PYO3_PYTHON=py, RUSTUP_TOOLCHAIN='stable', CARGO_PROFILE_DEV_OPT_LEVEL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only',
                   CARGO_PROFILE_RELEASE_DEBUG='line-tables-only'))
    b.py = py
    return b


def run(R, prop, t0):
    fails = []
    quick = R.TIER == 'quick'
    rel, dev = ext(R, 'py-rel', ['--release'], 'release'), ext(R, 'py-dev', [], 'debug')
    f = build_all(R, [rel, dev])
    for b in (rel, dev):
        refuse(R, fails, b, 'the Python extension does not build')
    if fails:
        R.die('the Python extension does not build against the current tree')
    cov = dict(evaluations=0, distinct_nontrivial=0, rule='a recorded call with distinct function, arguments and data', observed={}, samples=[])
    with Scratch() as tmp:
        for b in (rel, dev):
            os.mkdir(os.path.join(tmp, b.name))
            shutil.copy(b.bin, os.path.join(tmp, b.name, 'texture2ddecoder_rs.so'))
        ops = os.path.join(tmp, 'ops.txt')
        open(ops, 'wb').write(subprocess.run([f.bin, 'ops'], stdout=subprocess.PIPE, env=f.run_env()).stdout)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        env.pop('PYTHONPATH', None)
        drive = os.path.join(V, 'tools', 'pydrive.py')
        for k in range(2 if quick else 20):
            if time.time() - t0 > (300 if quick else 600):
                cov['stopped_by_time_budget'] = True
                break
            cs = corpora(R, f, tmp, 8, 4000, 'mid' if k % 2 else 'small', 700 + 8 * k, py=True)
            jobs = []
            for i, (p, st) in enumerate(cs):
                cov['distinct_nontrivial'] += st['distinct']
                b = dev if i % 2 else rel
                # Python's debug allocator puts guard bytes around every object
                e = dict(env, PYTHONMALLOC='debug') if i % 4 >= 2 else env
                jobs.append(Job(b.name + (' guarded heap' if e is not env else ''), [b.py, drive, os.path.join(tmp, b.name), p, ops, str(i), 'call'], env=e, cwd=tmp))
            if k == 0 or not quick and k % 4 == 0:
                vs = corpora(R, f, tmp, 3, 160 if quick else 1500, 'tiny', 900 + 8 * k, py=True)
                for i, (p, st) in enumerate(vs):
                    b = dev if i % 2 else rel
                    jobs.insert(0, Job('valgrind', ['valgrind', '-q', '--error-limit=no', '--log-file=' + p + '.vg', b.py, drive, os.path.join(tmp, b.name), p, ops, str(i), 'valgrind'],
                                       env=dict(env, PYTHONMALLOC='malloc'), cwd=tmp))
                    jobs[0].vg = p + '.vg'
            for j in run_jobs(jobs, timeout=420):
                if 'bad trailing pad byte' in j.err or 'bad leading pad byte' in j.err or 'bad ID' in j.err:
                    add(fails, j.label + ':heap', f'{j.label}: a write outside a Python object: {j.err[-800:]}', j)
                    continue
                if hasattr(j, 'vg') and os.path.exists(j.vg):
                    log = open(j.vg, errors='replace').read()
                    for blk in re.split(r'\n==\d+== \n', log):
                        if 'texture2ddecoder' in blk and re.search(r'Invalid (read|write)|uninitialised|overlap', blk):
                            h = re.search(r'(Invalid \w+ of size \d+|.*uninitialised.*|.*overlap.*)', blk)[1]
                            w = re.search(r'\(([\w.]+\.rs:\d+)\)', blk)
                            add(fails, 'valgrind:' + re.sub(r'^==\d+==\s*', '', h)[:60], f'{j.label}: {blk[:1200]}', j)
                d = judge(R, fails, j)
                if d:
                    o = cov['observed'].setdefault(j.label, dict(calls=0, returned=0, raised=0, functions=0))
                    o['calls'] += d['plays']
                    o['returned'] += d['returned']
                    o['raised'] += d['raised']
                    o['functions'] = max(o['functions'], d['ops'])
                    cov['evaluations'] += d['plays']
                    n = [l for l in j.out.splitlines() if l.startswith('NOTE')]
                    if n and len(cov['samples']) < 4:
                        cov['samples'].append(j.label + ': ' + n[0][5:])
            for p, _ in cs:
                os.unlink(p)
    if not fails and not cov['observed']:
        R.die('the run observed nothing')
    R.finish(prop, cov, fails, t0, assumptions=['the reference is what the Rust decoders return for the same arguments; what they decode is judged by the other checks',
                                               'image sizes between the address-space limit of the run (3 GB) and 2^63 bytes are only observed as MemoryError'])
