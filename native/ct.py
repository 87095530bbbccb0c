"""Traces of executed instructions and accessed addresses of two calls that differ in secret data only (replay for C11)."""
import os, random, re, struct, subprocess, sys, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import impls, native
HERE = os.path.dirname(os.path.abspath(__file__))
CAP = 1 << 15


def build(im, work):
    exe = os.path.join(work, 'ct_' + im.name.replace('/', '_').replace(':', '_'))
    if not os.path.exists(exe):
        cc, _ = native.CC[im.kind]
        if im.kind == 'avx':
            return None            # valgrind does not execute AVX-512
        p = impls.run(cc + ['-O1', '-g1', '-static', '-w', '-DNDEBUG', '-fno-inline'] + im.flags + (['-DHAS_HASH'] if im.has_hash else []) +
                      [os.path.join(HERE, 'ct_main.c')] + im.csrc + im.ssrc + ['-o', exe])
        if p.returncode:
            return None
    return exe


def trace(im, exe, c, work, tag, timeout=100):
    """iterator over trace lines"""
    req = os.path.join(work, f'ct_{os.getpid()}_{threading.get_ident()}_{tag}')
    with open(req, 'wb') as f:
        f.write(struct.pack('<2IQQ16s16s', c['op'], 0, len(c['ad']), len(c['x']), c['k'], c['n']) + c['ad'] + c['x'])
    if im.kind in ('arm6', 'thumb2'):
        cmd = ['qemu-arm', '-singlestep', '-d', 'exec,nochain', exe]
    else:
        cmd = ['setarch', '-R', 'valgrind', '--tool=lackey', '--trace-mem=yes', '--basic-counts=no', exe]
    p = subprocess.Popen(cmd, stdin=open(req), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env={'PATH': os.environ['PATH']})
    t = threading.Timer(timeout, p.kill)
    t.start()
    try:
        arm = im.kind in ('arm6', 'thumb2')
        for l in p.stderr:
            if arm:
                m = re.search(rb'\[[0-9a-f]+/([0-9a-f]+)/', l)
                if m:
                    yield b'I ' + m.group(1)
            elif l[:3] in (b'I  ', b' S ', b' L ', b' M '):
                yield l.strip()
    finally:
        t.cancel()
        p.kill()
        p.stderr.close()
        p.wait()
        os.unlink(req)


def diff(im, exe, c1, c2, work):
    """first difference of the traces of two calls -> text or None"""
    a, b = trace(im, exe, c1, work, 'a'), trace(im, exe, c2, work, 'b')
    pc, n = b'', 0
    try:
        for x in a:
            y = next(b, None)
            n += 1
            if x != y:
                where = ''
                if pc:
                    t = 'arm-linux-gnueabi-addr2line' if im.kind in ('arm6', 'thumb2') else 'addr2line'
                    q = subprocess.run([t, '-f', '-e', exe, pc.decode()], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
                    where = ' '.join(q.stdout.decode().split())
                return f'traces differ after {n} events at {where or "the start"}: {x.decode()} / {y.decode() if y else "end"}'
            if x.startswith(b'I'):
                pc = x[1:].split(b',')[0].strip()
    finally:
        a.close()
        b.close()
    return None


def pair(orc, im, rnd, op, la, lm, fixed=None, bad=False):
    """two calls with the same lengths and decision and different secrets"""
    out = []
    for i in range(2):
        g = (fixed or {}) if i == 0 else {}
        k, n = native.fillbytes(rnd, 16, g.get('k')), native.fillbytes(rnd, 16, g.get('n'))
        ad, m = native.fillbytes(rnd, la, g.get('ad')), native.fillbytes(rnd, lm, g.get('m'))
        c = dict(k=k, n=n, ad=ad, op=op)
        if op == 1:
            x = bytearray(orc.encrypt(im.alg, k, n, ad, m))
            if bad:
                # different positions of the first wrong byte
                p = lm + (0 if i == 0 else 15)
                x[p] ^= 1 << rnd.randrange(8)
            c['x'] = bytes(x)
        else:
            c['x'] = m
        out.append(c)
    return out


def replay(check, im, f):
    exe = build(im, check.work)
    if exe is None:
        return None
    L = {k: v for k, v in (f.get('lens') or {}).items() if isinstance(v, int)}
    la = L.get('ad', 5)
    lm = L.get('c', L.get('m', 11))
    la, lm = [v if 0 <= v <= CAP else 11 for v in (la, lm)]
    rnd = random.Random(f'{im.name}/{la}/{lm}')
    unit = f.get('unit', '')
    if 'hash' in unit:
        todo = [(2, False)]
    elif 'decrypt' in unit:
        todo = [(1, True), (1, False)]
    else:
        todo = [(0, False)]
    for op, bad in todo:
        for k in range(2):
            c1, c2 = pair(check.orc, im, rnd, op, la, lm, f.get('inputs') if k == 0 else None, bad)
            d = diff(im, exe, c1, c2, check.work)
            if d:
                c = dict(c1, at=0, fill=0, other={kk: v.hex() if isinstance(v, bytes) else v for kk, v in c2.items()}, text=d)
                return c
    return None


if __name__ == '__main__':
    import sys, tempfile, time
    with tempfile.TemporaryDirectory() as w:
        o = native.Oracle(w)
        for im in impls.discover():
            if not any(a in im.name for a in sys.argv[1:]):
                continue
            exe = build(im, w)
            if not exe:
                print(im.name, 'no')
                continue
            for op, bad in ((0, False), (1, False), (1, True)) + (((2, False),) if im.has_hash else ()):
                t = time.time()
                a, b = pair(o, im, random.Random(3), op, 9, 21, None, bad)
                print(im.name, op, bad, diff(im, exe, a, b, w), round(time.time() - t, 1))
