"""Shared by the checks that replay recorded decodes in other builds, targets and languages."""
import os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOST = 'x86_64-unknown-linux-gnu'


class Build:
    def __init__(self, R, name, cwd, cmd, out, env=None, sub=None):
        self.name, self.cwd, self.cmd = name, os.path.join(V, cwd), cmd
        self.dir = os.path.join(R.TARGET, sub or name)
        self.env = dict(R.ENV, CARGO_TARGET_DIR=self.dir, **(env or {}))
        self.bin = os.path.join(self.dir, out)
        self.ok, self.log = None, ''


def build_all(R, bs):
    """Builds in parallel. The harness itself (Flavor release) must build, or there is nothing to compare with."""
    f = R.Flavor('release')
    ps = [(b, tempfile.TemporaryFile('w+')) for b in bs]
    run = [(b, l, subprocess.Popen(b.cmd, cwd=b.cwd, env=b.env, stdout=l, stderr=subprocess.STDOUT)) for b, l in ps]
    R.build([f])
    for b, l, p in run:
        b.ok = p.wait() == 0
        l.seek(0)
        b.log = l.read()
    return f


def refuse(R, fails, b, what):
    """A build of the unchanged sources that fails is the library's fault only if the compiler or linker says so."""
    if b.ok:
        return False
    if re.search(r'^error(\[E\d+\])?: (?!failed to (download|get|load|run)|no matching)', b.log, re.M) and 'could not compile `' in b.log:
        errs = re.findall(r'^error.*(?:\n.*){0,4}', b.log, re.M)
        fails.append(dict(sig='build:' + b.name, count=1, detail=what + ': ' + ' | '.join(errs)[:1500], replay={'cmd': 'cd ' + b.cwd + ' && ' + ' '.join(b.cmd)}))
        return True
    print(b.log[-3000:])
    R.die(f'cannot build {b.name}')


PLAYER = 'player'


def player(R, name, flags, out, env=None):
    return Build(R, name, PLAYER, ['cargo'] + flags, out, env)


def bare(R, name, arch, alloc, profile):
    t = arch + '-unknown-linux-gnu'
    cmd = ['cargo', '+nightly', 'build', '--offline', '--profile', profile, '-Zbuild-std=core' + (',alloc' if alloc else ''),
           '-Zbuild-std-features=compiler-builtins-mem', '--target', t] + ([] if alloc else ['--no-default-features'])
    return Build(R, name, 'bare', cmd, f'{t}/{profile}/bare',
                 {'RUSTFLAGS': '-Crelocation-model=static -Clink-arg=-nostartfiles -Clink-arg=-nostdlib -Clink-arg=-static'})


def corpora(R, f, tmp, n, records, size, base, py=False):
    """n recordings in parallel; returns [(path, stats)]"""
    import json
    ps = []
    for i in range(n):
        p = os.path.join(tmp, f'{size}{base + i}.rec')
        ps.append((p, subprocess.Popen([f.bin, 'corpus', p, str(R.SEED * 1000 + base + i), str(records), size] + (['python'] if py else []),
                                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=f.run_env())))
    out = []
    for p, q in ps:
        o, _ = q.communicate()
        if q.returncode:
            R.die('the recording failed')
        out.append((p, json.loads(o)))
    return out


class Job:
    def __init__(self, label, cmd, env=None, stdin=None, cwd=None, pre=None):
        self.label, self.cmd, self.env, self.stdin, self.cwd, self.pre = label, cmd, env, stdin, cwd, pre
        self.out = self.err = ''
        self.rc = None


def run_jobs(jobs, par=8, timeout=800):
    """Runs jobs `par` at a time; out/err captured in files."""
    todo, live = list(jobs), []
    while todo or live:
        while todo and len(live) < par:
            j = todo.pop(0)
            j.fo, j.fe = tempfile.TemporaryFile('w+', errors='replace'), tempfile.TemporaryFile('w+', errors='replace')
            fi = open(j.stdin, 'rb') if j.stdin else subprocess.DEVNULL
            j.t0 = time.time()
            try:
                j.p = subprocess.Popen(j.cmd, env=j.env, stdin=fi, stdout=j.fo, stderr=j.fe, cwd=j.cwd, preexec_fn=j.pre)
            except OSError as e:
                j.rc, j.err = 126, str(e)
                continue
            live.append(j)
        time.sleep(0.03)
        for j in list(live):
            if j.p.poll() is None and time.time() - j.t0 > timeout:
                j.p.kill()
                j.p.wait()
                j.timeout = True
            if j.p.poll() is not None:
                live.remove(j)
                j.rc, j.wall = j.p.returncode, round(time.time() - j.t0, 1)
                for k, f in (('out', j.fo), ('err', j.fe)):
                    f.seek(0)
                    setattr(j, k, f.read())
                    f.close()
    return jobs


def kv(line):
    return {k: int(v) for k, v in re.findall(r'(\w+)=(\d+)', line)}


def judge(R, fails, j, crash_is_violation=True):
    """Turns a player's output into failures; returns the numbers of its DONE line (None if it had none)."""
    for l in j.out.splitlines():
        if l.startswith('BAD '):
            _, i, op, what = l.split(' ', 3)
            k = re.sub(r'[0-9a-f]{8}|\d+', '#', what.split(';')[0])[:60]
            add(fails, f'{j.label}:{op}:{k}', f'{j.label}: decode_{op} (record {i}) {what}', j)
    d = [l for l in j.out.splitlines() if l.startswith('DONE ')]
    if d:
        return kv(d[-1])
    if getattr(j, 'timeout', False):
        R.die(f'{j.label}: ran out of its time')
    m = re.search(r'error: Undefined Behavior: (.*)(?:\n.*){0,6}', j.err)
    if m:
        add(fails, f'{j.label}:ub:{m[1][:80]}', f'{j.label}: the interpreter reports undefined behaviour: {m[0]}', j)
        return None
    if 'BAD ' in j.out:
        return None
    if crash_is_violation and j.rc is not None and (j.rc < 0 or j.rc in (132, 134, 135, 136, 139)):
        add(fails, f'{j.label}:crash:{j.rc}', f'{j.label}: the process ended with {j.rc}: {j.err[-600:]}', j)
        return None
    print(j.out[-2000:], j.err[-3000:])
    R.die(f'{j.label}: no verdict (exit {j.rc})')


def add(fails, sig, detail, j):
    for f in fails:
        if f['sig'] == sig:
            f['count'] += 1
            return
    fails.append(dict(sig=sig, count=1, detail=detail, replay={'cmd': ' '.join(j.cmd) + (' < ' + j.stdin if j.stdin else '')}))


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='t2d-play-')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)
