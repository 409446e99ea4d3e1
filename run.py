#!/usr/bin/env python3
"""run.py <property id>

Builds the monitor (harness/) against /repo's current working tree, runs the property's
workload in 8 worker processes, merges what the monitors observed into
evidence/<id>.json and turns it into a verdict:
  exit 0                      held on everything explored
  exit 1 + VIOLATION line     a monitor observed a violation (replay file written)
  exit 2                      inconclusive / error of the check itself
VERIF_SEED and VERIF_TIER (quick|thorough) are read from the environment.
"""
import json, os, re, resource, signal, subprocess, sys, tempfile, time, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
REPO = '/repo'
TARGET = os.environ.get('T2D_TARGET', os.path.join(VERIF, 'target'))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
TRIPLE = 'x86_64-unknown-linux-gnu'
HARNESS = os.path.join(VERIF, 'harness')
NW = 8

ENV = dict(os.environ)
ENV.pop('RUSTFLAGS', None)
ENV['CARGO_TARGET_DIR'] = TARGET
ENV['CARGO_NET_OFFLINE'] = 'true'
ENV['CARGO_TERM_COLOR'] = 'never'


def die(msg):
    print('INCONCLUSIVE: ' + msg)
    sys.exit(2)


class Flavor:
    def __init__(self, name):
        self.name = name
        self.case_cpu = CASE_CPU
        if name == 'asan':
            self.cmd = ['cargo', '+nightly', 'build', '--offline', '--release', '--target', TRIPLE]
            self.env = dict(ENV, RUSTFLAGS='-Zsanitizer=address', CARGO_TARGET_DIR=os.path.join(TARGET, 'asan'))
            self.bin = os.path.join(TARGET, 'asan', TRIPLE, 'release', 't2dmon')
        elif name == 'checked':
            self.cmd = ['cargo', 'build', '--offline', '--profile', 'checked']
            self.env = dict(ENV, CARGO_TARGET_DIR=os.path.join(TARGET, 'checked'))
            self.bin = os.path.join(TARGET, 'checked', 'checked', 't2dmon')
        else:
            self.cmd = ['cargo', 'build', '--offline', '--release']
            self.env = dict(ENV, CARGO_TARGET_DIR=os.path.join(TARGET, 'rel'))
            self.bin = os.path.join(TARGET, 'rel', 'release', 't2dmon')

    def args(self, tag):
        if self.name == 'callgrind':
            # the workload itself switches counting on and off around each call (harness/src/cost.rs)
            self.case_cpu = 3 * CASE_CPU
            return ['valgrind', '-q', '--tool=callgrind', '--instr-atstart=no', f'--callgrind-out-file={self.dumps(tag)}', self.bin]
        return [self.bin]

    def dumps(self, tag):
        return tag + '.cg'

    def run_env(self, tag=''):
        e = dict(os.environ)
        if self.name == 'callgrind':
            e['CG_OUT'] = self.dumps(tag)
        if self.name == 'asan':
            e['ASAN_OPTIONS'] = 'halt_on_error=1:abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=16384'
        return e


def build(flavors, manifest_dir=HARNESS):
    ps = []
    for f in flavors:
        log = tempfile.TemporaryFile('w+')
        ps.append((f, log, subprocess.Popen(f.cmd, cwd=manifest_dir, env=f.env, stdout=log, stderr=subprocess.STDOUT)))
    for f, log, p in ps:
        if p.wait() != 0:
            log.seek(0)
            print(log.read()[-6000:])
            for _, _, q in ps:
                if q.poll() is None:
                    q.kill()
            die(f'the monitor does not build ({f.name}) against the current tree')


def cpu_of(pid):
    try:
        with open(f'/proc/{pid}/stat') as f:
            x = f.read().rsplit(')', 1)[1].split()
        return (int(x[11]) + int(x[12])) / os.sysconf('SC_CLK_TCK')
    except OSError:
        return None


CASE_CPU = 60  # CPU seconds one case may take before it is replayed alone


class Worker:
    def __init__(self, prop, fl, shard, tmp, secs, skip=()):
        self.fl, self.shard, self.tmp = fl, shard, tmp
        b = os.path.join(tmp, f'w{shard}')
        self.out, self.status, self.hash, self.log = b + '.json', b + '.st', b + '.hash', b + '.log'
        open(self.status, 'wb').write(b'\xff' * 8)
        self.args = fl.args(b) + ['work', prop, f'seed={SEED}', f'tier={TIER}', f'shard={shard}/{NW}', f'secs={secs}',
                     f'out={self.out}', f'status={self.status}', f'hash={self.hash}']
        if skip:
            self.args.append('skip=' + ','.join(map(str, skip)))
        self.lf = open(self.log, 'w')
        self.p = subprocess.Popen(self.args, env=fl.run_env(b), stdout=self.lf, stderr=subprocess.STDOUT)
        self.case, self.case_cpu, self.hung = None, 0.0, False

    def cur(self):
        b = open(self.status, 'rb').read(8)
        v = int.from_bytes(b, 'little') if len(b) == 8 else 2**64 - 1
        return None if v == 2**64 - 1 else v

    def poll(self):
        if self.p.poll() is not None:
            return True
        c, t = self.cur(), cpu_of(self.p.pid)
        if c != self.case:
            self.case, self.case_cpu = c, t or 0.0
        elif t is not None and c is not None and t - self.case_cpu > self.fl.case_cpu:
            self.hung = True
            self.p.kill()
            self.p.wait()
            return True
        return False


def isolated(fl, prop, case):
    """Re-run one case alone; returns (verdict, text). verdict None = finished normally."""
    iso = tempfile.mkdtemp(prefix='t2d-iso-')
    args = fl.args(os.path.join(iso, 'x')) + ['work', prop, f'seed={SEED}', f'tier={TIER}', f'case={case}']
    cpu = fl.case_cpu * 2

    def lim():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if fl.name != 'asan' and prop not in ('C03', 'C04'):  # these two map images larger than that
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    try:
        r = subprocess.run(args, env=fl.run_env(os.path.join(iso, 'x')), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=lim, timeout=600)
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    finally:
        shutil.rmtree(iso, ignore_errors=True)
    txt = r.stdout.decode('utf8', 'replace')[-300000:]
    if r.returncode < 0:
        return signal.Signals(-r.returncode).name, txt
    if r.returncode == 3:
        return 'harness', txt
    return None, txt


def alone_fails(txt):
    """what the monitors reported in the output of one case that ran alone"""
    for l in reversed(txt.splitlines()):
        i = l.find('"fails":')
        if i >= 0:
            try:
                return json.JSONDecoder().raw_decode(l[i + 8:])[0]
            except ValueError:
                break
    return []


def known():
    k = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) sig=(\S+) (.*)', l.strip())
            if m:
                k[(m[1], m[2])] = m[3]
    return k


def sig_id(s):
    return re.sub(r'\s+', '_', s)


def finish(prop, cov, fails, t0, level='exploration', assumptions=None):
    """fails: list of dict(sig, count, detail, replay(dict)). Writes evidence, prints verdict, exits."""
    kf = known()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    new, seen = [], []
    for f in fails:
        (seen if (prop, sig_id(f['sig'])) in kf else new).append(f)
    cov = dict(cov)
    cov['known_findings_seen'] = [f['sig'] for f in seen]
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': cov,
          'assumptions': assumptions or [], 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    for f in seen:
        print(f"KNOWN-FINDING: property={prop} {sig_id(f['sig'])} {kf[(prop, sig_id(f['sig']))]}")
    if new:
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{prop}.json')
        with open(path, 'w') as fh:
            json.dump({'property': prop, 'seed': SEED, 'tier': TIER, 'violations': new[:200]}, fh, indent=1)
        for f in new[:20]:
            print(f"  {f['sig']} (x{f['count']}): {f['detail'][:600]}")
        print(f'VIOLATION property={prop} replay={path}')
        sys.exit(1)
    print(f"held: {prop} {TIER} seed={SEED}: {cov.get('evaluations')} evaluations, {cov.get('distinct_nontrivial')} distinct, {ev['wall_s']} s")
    sys.exit(0)


def workers(prop, flavors, secs, t0):
    """flavors: list of NW flavor names."""
    fl = {n: Flavor(n) for n in dict.fromkeys(flavors)}
    for f in fl.values():
        if prop == 'C04':
            f.case_cpu *= 5 if TIER == 'thorough' else 2  # images of more than 2^32 pixels
    build(list(fl.values()))
    tb = time.time() - t0
    tmp = tempfile.mkdtemp(prefix='t2d-')
    fails = {}

    def add(sig, count, detail, replay):
        if sig in fails:
            fails[sig]['count'] += count
        else:
            fails[sig] = {'sig': sig, 'count': count, 'detail': detail, 'replay': replay}
    outs = []
    try:
        ws = [Worker(prop, fl[flavors[i]], i, tmp, secs) for i in range(NW)]
        restarts = 0
        skips = {i: [] for i in range(NW)}
        while ws:
            time.sleep(0.05)
            for w in list(ws):
                if not w.poll():
                    continue
                ws.remove(w)
                rc = w.p.returncode
                if rc == 0 and not w.hung:
                    outs.append((w.fl.name, json.load(open(w.out)), w.hash))
                    continue
                log = open(w.log, errors='replace').read()[-3000:]
                if rc == 3:
                    print(log)
                    die('the monitor itself failed')
                case = w.cur()
                if case is None or (rc > 0):
                    print(log)
                    die(f'worker {w.shard} ended with {rc} outside a case')
                v, txt = isolated(w.fl, prop, case)
                if v == 'harness':
                    print(txt)
                    die('the monitor itself failed')
                if v is None and w.hung and len(skips[w.shard]) < 2:
                    # slow beside seven others, alone within its time: judged by what it found alone
                    for f in alone_fails(txt):
                        add(f['sig'], f['count'], f['detail'], {'cmd': ' '.join([w.fl.bin, 'work', prop, f'seed={SEED}', f'tier={TIER}', f'case={case}']), 'build': w.fl.name})
                    skips[w.shard].append(case)
                    ws.append(Worker(prop, w.fl, w.shard, tmp, secs, skips[w.shard]))
                    continue
                if v == 'timeout' or (v is None):
                    die(f'worker {w.shard} died ({rc}, hung={w.hung}) in case {case}, but the case alone does not: {log[-500:]}')
                if v == 'SIGKILL':
                    v = 'SIGXCPU'
                kind = 'does not finish within %d CPU seconds' % (2 * w.fl.case_cpu) if v == 'SIGXCPU' else f'the process is ended by {v}'
                m = re.search(r'ERROR: AddressSanitizer: (\S+)', txt)
                s = 'crash:' + v + (':' + m[1] if m else '')
                add(s, 1, f'case {case} ({w.fl.name} build): {kind}. {txt[-1200:]}',
                    {'cmd': ' '.join([w.fl.bin, 'work', prop, f'seed={SEED}', f'tier={TIER}', f'case={case}'])})
                skips[w.shard].append(case)
                restarts += 1
                if restarts <= 2:
                    ws.append(Worker(prop, w.fl, w.shard, tmp, secs, skips[w.shard]))
        cov = {'evaluations': 0, 'cases': 0, 'cases_planned': 0, 'build_s': round(tb, 1), 'builds_used': sorted(set(flavors)), 'samples': [], 'observed': {}}
        obs = {}
        trunc = False
        for name, o, _ in outs:
            cov['evaluations'] += o['evals']
            cov['cases'] += o['cases']
            cov['cases_planned'] = o['planned']
            trunc |= o['truncated']
            cov['samples'] += o['samples'][:1] if len(cov['samples']) < 6 else []
            for k, d in o['cover'].items():
                e = obs.setdefault(k, {})
                for i, c in d.items():
                    e[int(i)] = e.get(int(i), 0) + c
            for f in o['fails']:
                add(f['sig'], f['count'], f['detail'],
                    {'cmd': ' '.join([fl[name].bin, 'work', prop, f'seed={SEED}', f'tier={TIER}', f"case={f['case']}"]), 'build': name})
        cov['stopped_by_time_budget'] = trunc
        for k, e in sorted(obs.items()):
            it = sorted(e.items())
            cov['observed'][k] = {'distinct': len(e), 'total': sum(e.values())}
            if len(it) <= 70:
                cov['observed'][k]['counts'] = {str(i): c for i, c in it}
        hs = [h for _, _, h in outs if os.path.exists(h)]
        if hs:
            r = subprocess.run([fl[flavors[0]].bin, 'merge'] + hs, stdout=subprocess.PIPE, env=fl[flavors[0]].run_env())
            cov['distinct_nontrivial'] = int(r.stdout or 0)
        else:
            cov['distinct_nontrivial'] = 0
        r = subprocess.run([fl[flavors[0]].bin, 'props'], stdout=subprocess.PIPE, env=fl[flavors[0]].run_env())
        for l in r.stdout.decode().splitlines():
            x = l.split('\t')
            if x[0] == prop:
                cov['rule'] = x[3]
        return cov, list(fails.values())
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


REL = ['release'] * 4 + ['checked'] * 4
ASAN = ['release'] * 2 + ['checked'] * 3 + ['asan'] * 3
FLAVORS = {'C27': ['callgrind'] * NW, 'C01': ASAN, 'C02': ASAN, 'C03': ASAN, 'C21': ASAN}
ASSUME = ['the reference decoders in harness/src/refs follow the published format specifications',
          'only executions produced by this run were judged; inputs are generated from VERIF_SEED']


# a coverage-guided phase after the generated cases: (target, formats to compare, longest input, seconds quick / thorough)
FUZZ = {
    'C01': ('blocks', '', 80, 0, 150), 'C21': ('crunch', '', 4096, 25, 300),
    'C05': ('blocks', 'bc1,bc2,bc3', 20, 0, 60), 'C06': ('blocks', 'bc4,bc5', 20, 0, 60), 'C07': ('blocks', 'bc6', 20, 0, 90),
    'C08': ('blocks', 'bc7', 20, 0, 90), 'C09': ('blocks', 'atc', 20, 0, 60), 'C10': ('blocks', 'etc1,etc2_rgb!,etc2_rgba1', 20, 0, 60),
    'C11': ('blocks', 'etc2_rgba8,eac', 20, 0, 60), 'C12': ('blocks', 'astc:ldr', 20, 0, 120), 'C13': ('blocks', 'astc:hdr', 20, 0, 120),
    'C14': ('blocks', 'astc:illegal', 20, 0, 120), 'C15': ('blocks', 'pvrtc_4', 68, 0, 60), 'C16': ('blocks', 'pvrtc_2', 68, 0, 60),
}


def main():
    prop = sys.argv[1]
    t0 = time.time()
    ext = os.path.join(VERIF, 'tools', prop.lower() + '.py')
    if os.path.exists(ext):
        import importlib
        return importlib.import_module('tools.' + prop.lower()).run(sys.modules[__name__], prop, t0)
    secs = 240 if TIER == 'quick' else 720 - (FUZZ[prop][4] + 30 if prop in FUZZ else 0)
    cov, fails = workers(prop, FLAVORS.get(prop, REL), secs, t0)
    fz = FUZZ.get(prop)
    fsecs = fz[4 if TIER == 'thorough' else 3] if fz else 0
    if fsecs and not fails:
        from tools import fuzz
        fc, ff = fuzz.run(sys.modules[__name__], prop, fz[0], fsecs, fz[1], fz[2])
        cov['coverage_guided'] = fc
        cov['evaluations'] += fc['executions']
        fails += ff
    if not fails and (cov['evaluations'] == 0 or cov['distinct_nontrivial'] == 0):
        die('the run observed nothing')
    finish(prop, cov, fails, t0, assumptions=ASSUME)


if __name__ == '__main__':
    main()
