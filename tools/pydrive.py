"""Runs under the extension's Python: pydrive.py MODULE_DIR RECORDING OPS SEED MODE
Calls the bound functions and compares with the recording. Prints BAD and DONE lines like the player."""
import gc, os, random, resource, struct, sys, threading

mdir, path, opsfile, seed, mode = sys.argv[1:6]
soft = 3 << 30
if mode != 'valgrind':
    resource.setrlimit(resource.RLIMIT_AS, (soft, soft))  # an impossible image must fail to allocate, not fill the machine
sys.path.insert(0, mdir)
import texture2ddecoder_rs as m

OPS = {}
for l in open(opsfile):
    i, name, kind = l.split()
    OPS[int(i)] = name
blob = open(path, 'rb').read()
recs, k = [], 0
while k < len(blob):
    op, bw, bh, ok, w, h, d, o = struct.unpack_from('<BBBBQQII', blob, k)
    p = k + 28
    recs.append((op, bw, bh, ok, w, h, blob[p:p + d], blob[p + d:p + d + o]))
    k = p + d + o
n_bad, n_ok, n_err, kinds, exc = 0, 0, 0, set(), {}
lock = threading.Lock()


def bad(i, name, what):
    global n_bad
    with lock:
        n_bad += 1
        if n_bad <= 20:
            r = recs[i] if i >= 0 else (0, 0, 0, 0, 0, 0, b'', b'')
            print(f'BAD {i} {name} {what}; {r[4]}x{r[5]} bw {r[1]} bh {r[2]} data {r[6][:300].hex()}', flush=True)


def call(i, r, kw):
    op, bw, bh, ok, w, h, data, want = r
    name = OPS[op]
    f = getattr(m, 'decode_' + name, None)
    if f is None:
        bad(i, name, 'the module has no such function')
        return None
    try:
        if kw:
            a = dict(data=data, width=w, height=h)
            if name == 'astc':
                a.update(block_width=bw, block_height=bh)
            got = f(**a)
        else:
            got = f(data, w, h, bw, bh) if name == 'astc' else f(data, w, h)
    except Exception as e:
        # without the frames, which hold on to the arguments
        return e.with_traceback(None)
    except BaseException as e:
        bad(i, name, f'raised {type(e).__name__}, which is no ordinary exception: {str(e)[:120]}')
        return None
    return got


def check(i, r, kw=False):
    global n_ok, n_err
    op, bw, bh, ok, w, h, data, want = r
    got = call(i, r, kw)
    if got is None:
        return None
    kinds.add(op)
    name = OPS[op]
    if isinstance(got, Exception):
        n_err += 1
        exc[type(got).__name__] = exc.get(type(got).__name__, 0) + 1
        if ok:
            bad(i, name, f'raised {type(got).__name__}({str(got)[:80]}) instead of returning the image')
        elif isinstance(got, ValueError) and not str(got):
            bad(i, name, 'raised a ValueError without a message')
        return None
    n_ok += 1
    if type(got) is not bytes:
        bad(i, name, f'returned a {type(got).__name__}')
    elif not ok:
        bad(i, name, f'returned {len(got)} bytes, the decoder says Err')
    elif len(got) != w * h * 4:
        bad(i, name, f'returned {len(got)} bytes')
    elif got != want:
        q = next(x for x in range(len(got)) if got[x] != want[x]) // 4
        bad(i, name, f'pixel {q} is {got[4 * q:4 * q + 4].hex()}, the decoder gives {want[4 * q:4 * q + 4].hex()}')
    return got


def rss():
    return int(open('/proc/self/statm').read().split()[1]) * 4096


rng = random.Random(int(seed))
plays = 0
if mode == 'valgrind':
    for i, r in enumerate(recs):
        # (no address-space limit here: leave the huge images to the other mode)
        if r[4] * r[5] >= 1 << 24:
            continue
        check(i, r, i % 2 == 1)
        plays += 1
else:
    kept = []
    for i, r in enumerate(recs):
        data = r[6]
        if i % 16 == 0:
            copy = bytearray(data)
            gc.collect()
            before = sys.getrefcount(data)
        got = check(i, r, rng.random() < .5)
        plays += 1
        if i % 16 == 0:
            if sys.getrefcount(data) != before:
                bad(i, OPS[r[0]], f'changes the reference count of its argument by {sys.getrefcount(data) - before}')
            if copy != data:
                bad(i, OPS[r[0]], 'changes its argument')
        if got is not None:
            # one reference here, one for the call
            if len(got) > 1 and sys.getrefcount(got) != 2:
                bad(i, OPS[r[0]], f'keeps {sys.getrefcount(got) - 2} references to its result')
            kept.append((i, got))
            if len(kept) > 40:
                # results stay what they were, whatever was decoded since
                j, g = kept.pop(rng.randrange(len(kept)))
                if recs[j][3] and g != recs[j][7]:
                    bad(j, OPS[recs[j][0]], 'an image returned earlier changed')
        if i % 8 == 0:
            # arguments of the wrong shape
            f = getattr(m, 'decode_' + OPS[rng.choice(list(OPS))], None)
            if f is None:
                continue
            tail = [4, 4] if f.__name__ == 'decode_astc' else []
            for a in rng.sample([('x' * 16, 4, 4), (None, 4, 4), (b'\0' * 64, -1, 4), (b'\0' * 64, 4, -4), (b'\0' * 64, 2 ** 64, 4), (b'\0' * 64, 4, 2 ** 70),
                                 (b'\0' * 64, 4.5, 4), (b'\0' * 64, '4', 4), (b'\0' * 64, 4), (b'\0' * 64,), (), (b'\0' * 64, 4, 4, 4, 4, 4), (12, 4, 4), (b'\0' * 64, None, None)], 3):
                try:
                    f(*(list(a) + (tail if len(a) == 3 else [])))
                    bad(-1, OPS[r[0]], f'{f.__name__}{a!r:.60} is accepted')
                except Exception as e:
                    exc[type(e).__name__] = exc.get(type(e).__name__, 0) + 1
                except BaseException as e:
                    bad(-1, f.__name__[7:], f'{a!r:.60} raises {type(e).__name__}')
                plays += 1
    for j, g in kept:
        if recs[j][3] and g != recs[j][7]:
            bad(j, OPS[recs[j][0]], 'an image returned earlier changed')
    kept.clear()
    # the same from several threads of the interpreter
    def work(t):
        g = random.Random(t)
        for _ in range(300):
            i = g.randrange(len(recs))
            check(i, recs[i], g.random() < .5)
    ts = [threading.Thread(target=work, args=(t,)) for t in range(6)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    plays += 1800
    # no memory stays behind, neither after an image nor after an error
    data = b'\0' * 32768 * 2
    # (64 MB of pixels per kind; also with too little data)
    grown = 0
    for name, a in [('bc1', ()), ('pvrtc_4bpp', ()), ('astc', (4, 4)), ('crunch', ()), ('bc3', ())]:
        f = getattr(m, 'decode_' + name, None)
        if f is None:
            continue
        for d in (data, b''):
            gc.collect()
            r0 = 0
            for k in range(260):
                if k == 20:
                    r0 = rss()
                try:
                    f(d, 256, 256, *a)
                except Exception:
                    pass
                plays += 1
            g = rss() - r0
            grown = max(grown, g)
            if g > 24 << 20:
                bad(-1, name, f'240 images of 256 KB leave {g >> 20} MB behind')
    print(f'NOTE largest growth {grown >> 10} KB; exceptions {exc}')
print(f'DONE plays={plays} returned={n_ok} raised={n_err} ops={len(kinds)} bad={n_bad}', flush=True)
