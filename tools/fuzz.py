"""Coverage-guided phase: libFuzzer + AddressSanitizer + overflow checks on the real decoders, with the same monitors."""
import os, re, resource, shutil, signal, subprocess, sys, tempfile, time
from tools.play import Build

HOST = 'x86_64-unknown-linux-gnu'
SANCOV = ('--cfg fuzzing -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters '
          '-Cllvm-args=-sanitizer-coverage-pc-table -Cllvm-args=-sanitizer-coverage-trace-compares -Zsanitizer=address -Ccodegen-units=1')
ONE_CPU = 120  # CPU seconds one input may take when it runs alone


def run(R, prop, target, secs, names='', max_len=4096, seeds=800, value_profile=False):
    """8 fuzzers for `secs` seconds each; returns (coverage dict, fails)"""
    b = Build(R, 'fuzz', 'fuzz', ['cargo', '+nightly', 'build', '--offline', '--release', '--target', HOST, '--bin', target],
              f'{HOST}/release/{target}', dict(RUSTFLAGS=SANCOV))
    log = tempfile.TemporaryFile('w+')
    p = subprocess.Popen(b.cmd, cwd=b.cwd, env=b.env, stdout=log, stderr=subprocess.STDOUT)
    f = R.Flavor('release')
    R.build([f])
    if p.wait():
        log.seek(0)
        print(log.read()[-4000:])
        R.die('the fuzzer does not build against the current tree')
    d = tempfile.mkdtemp(prefix='t2d-fuzz-')
    names, _, kind = names.partition(':')
    env = dict(os.environ, T2D_FUZZ=names, T2D_ASTC=kind, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=1:symbolize=0')
    fails, cov = [], dict(fuzzers=8, executions=0, edges_at_start=0, edges_at_end=0, corpus=0, units_that_failed_alone=0)

    def limit():
        resource.setrlimit(resource.RLIMIT_CPU, (ONE_CPU, ONE_CPU + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        ps = []
        for i in range(8):
            w, s = os.path.join(d, f'c{i}'), os.path.join(d, f's{i}')
            os.mkdir(w)
            os.mkdir(s)
            subprocess.run([f.bin, 'seeds', target, s, str(seeds), str(R.SEED * 100 + i)], check=True, env=f.run_env())
            cmd = [b.bin, f'-max_total_time={secs}', '-timeout=100', f'-max_len={max_len}', f'-seed={R.SEED * 8 + i + 1}', '-rss_limit_mb=0', '-malloc_limit_mb=0',
                   '-print_final_stats=1', '-verbosity=1', f'-use_value_profile={int(value_profile and i % 2)}', f'-artifact_prefix={d}/a{i}-', w, s]
            l = open(os.path.join(d, f'l{i}'), 'w+', errors='replace')
            ps.append((i, l, subprocess.Popen(cmd, env=env, stdout=l, stderr=subprocess.STDOUT, cwd=d,
                                              preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))))
        end = time.time() + secs + 120
        for i, l, q in ps:
            try:
                q.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                q.kill()
                q.wait()
            l.seek(0)
            t = l.read()
            m = re.findall(r'#(\d+)\s+(\w+)\s+cov: (\d+) ft: \d+ corp: (\d+)', t)
            if m:
                ini = [x for x in m if x[1] == 'INITED']
                cov['executions'] += int(m[-1][0])
                cov['edges_at_start'] = max([cov['edges_at_start']] + [int(x[2]) for x in ini])
                cov['edges_at_end'] = max(cov['edges_at_end'], int(m[-1][2]))
                cov['corpus'] += int(m[-1][3])
            else:
                x = re.findall(r'stat::number_of_executed_units: (\d+)', t)
                cov['executions'] += int(x[-1]) if x else 0
        for a in sorted(x for x in os.listdir(d) if re.match(r'a\d-', x)):
            path = os.path.join(d, a)
            if re.match(r'a\d-slow-unit', a):
                continue
            r = subprocess.run([b.bin, path], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=limit, timeout=900)
            t = r.stdout.decode('utf8', 'replace')
            if r.returncode == 0:
                continue  # only slow, or a victim of the machine
            cov['units_that_failed_alone'] += 1
            m = re.search(r"panicked at ([^\n]*):\d+:\d+:\n([^\n]*(?:\n[^\n]*)?)", t)
            z = re.search(r'ERROR: AddressSanitizer: (\S+)', t)
            if m:
                sig = 'fuzz:panic:' + os.path.basename(m[1]) + ':' + re.sub(r'\b[0-9a-f]{6,}\b|\d+', '#', m[2].split('\n')[0])[:60]
            elif z:
                sig = 'fuzz:asan:' + z[1]
            elif r.returncode in (-signal.SIGXCPU, -signal.SIGKILL):
                sig = 'fuzz:hang'
            else:
                sig = f'fuzz:exit:{r.returncode}'
            data = open(path, 'rb').read()
            detail = (m[2] if m else t[-600:]) + f'; input ({target}) {data[:1500].hex()}'
            o = next((x for x in fails if x['sig'] == sig), None)
            if o:
                o['count'] += 1
                continue
            keep = os.path.join(R.VERIF, 'evidence', 'replay')
            os.makedirs(keep, exist_ok=True)
            kp = os.path.join(keep, f'{prop}-fuzz-{len(fails)}')
            shutil.copy(path, kp)
            fails.append(dict(sig=sig, count=1, detail=detail, replay={'cmd': f'T2D_FUZZ={names} T2D_ASTC={kind} {b.bin} {kp}'}))
        if cov['executions'] == 0:
            print(t[-2000:])
            R.die('the fuzzers observed nothing')
        return cov, fails
    finally:
        shutil.rmtree(d, ignore_errors=True)
