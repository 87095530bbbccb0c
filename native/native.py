"""Native executions of the real code against the oracle (replay of counterexamples, bounded cross-check)."""
import ctypes, hashlib, json, os, random, struct, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'engine'))
import impls

ALGI = {a: i for i, a in enumerate(impls.ALGS)}
CC = {'x86': (['gcc'], []), 'avx': (['gcc', '-march=x86-64-v4'], []),
      'arm6': (['arm-linux-gnueabi-gcc', '-march=armv6', '-marm'], ['qemu-arm']),
      'thumb2': (['arm-linux-gnueabi-gcc', '-march=armv7-a', '-mthumb'], ['qemu-arm'])}


class Oracle:
    def __init__(self, work):
        so = os.path.join(work, 'oracle.so')
        if not os.path.exists(so):
            tmp = so + f'.{os.getpid()}'
            subprocess.run(['gcc', '-O2', '-shared', '-fPIC', os.path.join(HERE, 'oracle.c'), '-o', tmp], check=True)
            os.rename(tmp, so)
        self.l = ctypes.CDLL(so)

    def encrypt(self, alg, k, n, ad, m):
        c = ctypes.create_string_buffer(len(m) + 16)
        self.l.oracle_encrypt(ALGI[alg], k, n, ad, ctypes.c_uint64(len(ad)), m, ctypes.c_uint64(len(m)), c)
        return c.raw

    def keystream(self, alg, k, n, m):
        c = ctypes.create_string_buffer(max(1, len(m)))
        self.l.oracle_keystream(ALGI[alg], k, n, m, ctypes.c_uint64(len(m)), c)
        return c.raw[:len(m)]

    def tag(self, alg, k, n, ad, c):
        t = ctypes.create_string_buffer(16)
        self.l.oracle_tag(ALGI[alg], k, n, ad, ctypes.c_uint64(len(ad)), c, ctypes.c_uint64(len(c)), t)
        return t.raw

    def hash(self, m):
        o = ctypes.create_string_buffer(32)
        self.l.oracle_hash(m, ctypes.c_uint64(len(m)), o)
        return o.raw


def avx_ok():
    try:
        return 'avx512vl' in open('/proc/cpuinfo').read()
    except OSError:
        return False


class Runner:
    """the compiled implementation"""
    def __init__(self, im, work, opt=None):
        self.im = im
        opt = opt or ('-O3' if im.kind in ('arm6', 'thumb2') else '-O1')
        self.exe = os.path.join(work, 'run_' + im.name.replace('/', '_').replace(':', '_') + opt)
        self.err = None
        cc, self.pre = CC[im.kind]
        if im.kind == 'avx' and not avx_ok():
            self.err = 'host has no AVX-512'
            return
        flags = list(im.flags) + (['-DHAS_HASH'] if im.has_hash else [])
        p = impls.run(cc + [opt, '-g0', '-static'] + (['-DALIGN=8'] if im.kind in ('arm6', 'thumb2') else []) + [ '-w', '-DNDEBUG'] + flags +
                      [os.path.join(HERE, 'runner.c')] + im.csrc + im.ssrc + ['-o', self.exe])
        if p.returncode:
            self.err = p.stderr.decode()[-800:]

    def run(self, cases, timeout=600):
        """cases: dicts op,k,n,ad,x[,at,fill]; -> list of result dicts (None when the process ended early)"""
        buf = bytearray()
        for c in cases:
            buf += struct.pack('<4I16s16sQQ', c['op'], c.get('at', 0), c.get('fill', 0xa5), c.get('timeout', 20),
                               c['k'], c['n'], len(c['ad']), len(c['x'])) + c['ad'] + c['x']
        try:
            p = subprocess.run(self.pre + [self.exe], input=bytes(buf), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            out = p.stdout
            rc = p.returncode
        except subprocess.TimeoutExpired as e:
            out, rc = e.stdout or b'', 'timeout'
        res, pos = [], 0
        for c in cases:
            L = len(c['x'])
            on = L + 16 if c['op'] == 0 else max(0, L - 16) if c['op'] == 1 else 32
            if pos + 40 + on > len(out):
                res.append({'sig': rc if rc else 'eof', 'lost': True})
                res += [None] * (len(cases) - len(res))
                break
            sig, ret, olen, fo, fb, stat, outside, _ = struct.unpack('<IiQQIIII', out[pos:pos + 40])
            pos += 40
            res.append({'sig': sig, 'ret': ret, 'outlen': olen, 'fault_off': fo, 'fault_buf': fb, 'stat': stat,
                        'outside': outside, 'out': out[pos:pos + on]})
            pos += on
        return res


SIG = {11: 'SIGSEGV', 7: 'SIGBUS', 14: 'did not terminate', 4: 'SIGILL', 8: 'SIGFPE', 6: 'SIGABRT', 5: 'SIGTRAP'}
BUF = ['key', 'nonce', 'AD', 'input', 'output', 'output length']


def ser(c):
    return {k: (v.hex() if isinstance(v, bytes) else v) for k, v in c.items()}


def unser(c):
    return {k: (bytes.fromhex(v) if k in ("k", "n", "ad", "x", "m") else v) for k, v in c.items()}


def judge(orc, im, c, r):
    """-> list of (kind, text) of differences between one execution and the specification"""
    v = []
    alg = im.alg
    nm = ('crypto_aead_encrypt', 'crypto_aead_decrypt', 'crypto_hash')[c['op']]
    if r is None:
        return v
    if r['sig'] == 7 and not r.get('lost') and im.kind in ('arm6', 'thumb2'):
        return v          # alignment trap: outside the assumptions (see DESIGN.md)
    if r.get('lost') and r['sig'] in ('timeout', -9) or r['sig'] == 14 and len(c['ad']) + len(c['x']) > 4096:
        return v          # ran out of time: no verdict
    if r.get('lost') or r['sig']:
        s = r['sig']
        t = SIG.get(s, str(s)) if not r.get('lost') else f'process died ({s})'
        if not r.get('lost') and r['fault_buf'] < 6:
            t += f' at offset {struct.unpack("<q", struct.pack("<Q", r["fault_off"]))[0]} of the {BUF[r["fault_buf"]]} buffer'
        v.append(('memory', f'{nm}: {t}'))
        auth = c['op'] != 1 or (len(c['x']) >= 16 and c['x'][-16:] == orc.tag(alg, c['k'], c['n'], c['ad'], c['x'][:-16]))
        if auth and not r.get('lost'):
            v.append(('crash', f'no result: {t}'))
        return v
    if r['stat']:
        v.append(('static', f'{nm}: {r["stat"]} bytes of static storage changed'))
    if r['outside']:
        v.append(('memory', f'{nm}: {r["outside"]} bytes outside the output buffer overwritten'))
    L = len(c['x'])
    if c['op'] == 0:
        e = orc.encrypt(alg, c['k'], c['n'], c['ad'], c['x'])
        if r['ret'] != 0:
            v.append(('enc-ret', f'encrypt returned {r["ret"]}'))
        if r['outlen'] != L + 16:
            v.append(('enc-len', f'clen = {r["outlen"]} for mlen = {L}'))
        o = r['out']
        if o[:L] != e[:L]:
            v.append(('keystream', 'ciphertext differs from the specification'))
        if o[L:] != (e[L:] if o[:L] == e[:L] else orc.tag(alg, c['k'], c['n'], c['ad'], o[:L])):
            v.append(('tag', 'tag differs from the specification'))
    elif c['op'] == 1:
        e = orc.tag(alg, c['k'], c['n'], c['ad'], c['x'][:L - 16]) if L >= 16 else None
        auth = L >= 16 and c['x'][L - 16:] == e
        if auth:
            if r['ret'] != 0:
                v.append(('reject-authentic', f'authentic ciphertext rejected ({r["ret"]})'))
            else:
                if r['outlen'] != L - 16:
                    v.append(('dec-len', f'mlen = {r["outlen"]} for clen = {L}'))
                if r['out'] != orc.keystream(alg, c['k'], c['n'], c['x'][:L - 16]):
                    v.append(('plaintext', 'plaintext differs from the specification'))
        else:
            if r['ret'] == 0:
                v.append(('accept-forgery', 'ciphertext with a wrong tag accepted'))
            elif r['ret'] > 0:
                v.append(('reject-sign', f'rejection returned {r["ret"]}'))
        if r['ret'] != 0 and r['out'] != bytes([c.get('fill', 0xa5)]) * max(0, L - 16):
            v.append(('release', f'plaintext buffer modified although decryption returned {r["ret"]}'))
    else:
        if r['ret'] != 0:
            v.append(('hash-ret', f'hash returned {r["ret"]}'))
        if r['out'] != orc.hash(c['x']):
            v.append(('hash', 'digest differs from the specification'))
    return v


def fillbytes(rnd, n, given=None):
    b = bytearray(rnd.randbytes(n))
    for o, x in (given or {}).items():
        o = int(o)
        if 0 <= o < n:
            b[o] = x
    return bytes(b)


def tamper(rnd, c, mode, L):
    c = bytearray(c)
    t = len(c) - 16
    if mode < 128:
        c[t + mode // 8] ^= 1 << (mode % 8)
    elif mode == 128:
        i, j = rnd.sample(range(16), 2)
        b = 1 << rnd.randrange(8)
        c[t + i] ^= b
        c[t + j] ^= b
    elif mode == 129:
        for i in range(8, 16):
            c[t + i] ^= rnd.randrange(1, 256)
    elif mode == 130:
        for i in range(8):
            c[t + i] ^= rnd.randrange(1, 256)
    elif mode == 131:
        for i in range(16):
            c[t + i] = 0
    elif mode == 132:
        for i in range(16):
            c[t + i] ^= 0xff
    elif mode == 133:
        for i in range(15):
            c[t + i] ^= rnd.randrange(1, 256)
    elif mode == 134:
        for i in range(1, 16):
            c[t + i] ^= rnd.randrange(1, 256)
    elif mode == 135 and t:
        c[rnd.randrange(t)] ^= 1 << rnd.randrange(8)
    elif mode == 136:
        for i in range(16):
            c[t + i] ^= 0x80
    elif mode == 137:
        h = 1 << rnd.randrange(8)
        for i in range(16):
            c[t + i] ^= h
    elif mode == 138:
        d = rnd.randrange(1, 256)
        i, j = rnd.sample(range(16), 2)
        c[t + i] = (c[t + i] + d) & 255
        c[t + j] = (c[t + j] - d) & 255
    else:
        c[t + rnd.randrange(16)] ^= rnd.randrange(1, 256)
    return bytes(c)


def cases(orc, im, rnd, n=60, which=('enc', 'dec', 'bad', 'hash'), lens=None):
    out = []
    rate = 18 if im.alg.startswith('isapk') else 8
    pool = [0, 1, 7, 8, 9, 15, 16, 17, 18, 19, 23, 24, 25, 31, 32, 33, 35, 36, 37, 53, 54, 55, 63, 64, 65, 72, 90, 127, 128, 129]
    for i in range(n):
        if lens:
            la, lm = lens[i % len(lens)]
        elif i < len(pool):
            la, lm = pool[i], pool[-1 - i]
        else:
            la, lm = [rnd.choice(pool) if rnd.random() < .6 else rnd.randrange(0, 700) for _ in 'ab']
        style = rnd.random()
        k, nn = rnd.randbytes(16), rnd.randbytes(16)
        ad, m = rnd.randbytes(la), rnd.randbytes(lm)
        if style < .1:
            k, nn = bytes(16), b'\xff' * 16
        elif style < .2:
            ad, m = b'\xff' * la, bytes(lm)
        elif style < .3:
            nn = bytes([rnd.choice((0, 0x80, 0x7f, 0xff))] * 16)
        base = dict(k=k, n=nn, ad=ad, at=i % 2, fill=(0xa5, 0, 0xff, 0x5a)[i % 4])
        if 'enc' in which:
            out.append(dict(base, op=0, x=m))
        if 'dec' in which or 'bad' in which:
            c = orc.encrypt(im.alg, k, nn, ad, m)
            if 'dec' in which:
                out.append(dict(base, op=1, x=c))
            if 'bad' in which:
                out.append(dict(base, op=1, x=tamper(rnd, c, rnd.randrange(140) if i % 3 else 128 + i % 12, lm)))
                if i % 8 == 0:
                    out.append(dict(base, op=1, x=rnd.randbytes(rnd.randrange(0, 16))))
        if 'hash' in which and im.has_hash:
            out.append(dict(base, op=2, x=m))
    return out


def from_failure(orc, im, rnd, f, n=12, cap=1 << 22):
    """cases suggested by a failed obligation (path lengths, input bits, differing tag bits)"""
    L = {k: v for k, v in (f.get('lens') or {}).items() if isinstance(v, int)}
    la, lc = L.get('ad', 0), L.get('c', L.get('m', 0))
    if 'm' in L and 'c' not in L:
        lc = L['m']
    if la > cap or lc > cap:
        return []
    inp = f.get('inputs') or {}
    out = []
    for i in range(n if la + lc < 20000 else 3):
        k, nn = fillbytes(rnd, 16, inp.get('k')), fillbytes(rnd, 16, inp.get('n'))
        ad = fillbytes(rnd, la, inp.get('ad'))
        base = dict(k=k, n=nn, ad=ad, at=i % 2, fill=(0xa5, 0, 0xff, 0x5a)[i % 4])
        short = 'clen' in L and L['clen'] < 16
        if short:
            out.append(dict(base, op=1, x=fillbytes(rnd, max(0, L['clen']), inp.get('c'))))
            continue
        if lc < 0:
            continue
        m = fillbytes(rnd, lc, inp.get('m'))
        unit = f.get('unit', '')
        if 'hash' in unit or f.get('fn') == 'crypto_hash':
            if im.has_hash:
                out.append(dict(base, op=2, x=m))
            continue
        out.append(dict(base, op=0, x=m))
        c = fillbytes(rnd, lc, inp.get('c'))
        if inp.get('c'):
            # plaintext whose ciphertext has the required bytes
            out.append(dict(base, op=0, x=orc.keystream(im.alg, k, nn, c)))
        body = c if inp.get('c') else orc.keystream(im.alg, k, nn, m)
        tag = bytearray(orc.tag(im.alg, k, nn, ad, body))
        out.append(dict(base, op=1, x=body + bytes(tag)))
        mod = f.get('model') or {}
        bits = mod.get('differing_bits')
        if bits:
            t = bytearray(tag)
            for j in bits:
                if j < 128:
                    t[j // 8] ^= 1 << (j % 8)
            out.append(dict(base, op=1, x=body + bytes(t)))
        g = inp.get('c') or {}
        if any(int(o) >= lc for o in g):
            t = bytearray(tag)
            for o, x in g.items():
                if lc <= int(o) < lc + 16:
                    t[int(o) - lc] = x
            out.append(dict(base, op=1, x=body + bytes(t)))
        out.append(dict(base, op=1, x=tamper(rnd, body + bytes(tag), rnd.randrange(140), lc)))
    return out


class PermRunner:
    """the compiled permutation entry points (engine/wrap.py)"""
    MAIN = """
#include <stdio.h>
#include <string.h>
int main(void) {
    static unsigned char in[64] __attribute__((aligned(64)));
    unsigned i;
    while (fread(&i, 4, 1, stdin) == 1 && fread(in, 1, 64, stdin) == 64) {
        (*fns[i])((void *)in);
        if (fwrite(in, 1, 64, stdout) != 64) return 1;
    }
    return 0;
}
"""

    def __init__(self, im, work):
        import wrap
        self.im = im
        self.w = wrap.Wrap(im)
        self.names = [e[0] for e in self.w.entries]
        self.err = None if self.names else 'no entry points'
        if self.err:
            return
        cc, self.pre = CC[im.kind]
        if im.kind == 'avx' and not avx_ok():
            self.err = 'host has no AVX-512'
            return
        base = os.path.join(work, 'perm_' + im.name.replace('/', '_').replace(':', '_'))
        with open(base + '.c', 'w') as f:
            f.write(self.w.text(self.w.entries) + '\nstatic void (*fns[])() = {' + ', '.join(f'(void (*)()){n}' for n in self.names) +
                    '};\n' + self.MAIN)
        self.exe = base
        opt = '-O3' if im.kind in ('arm6', 'thumb2') else '-O1'
        p = impls.run(cc + [opt, '-g0', '-static', '-w', '-DNDEBUG'] + im.flags + [base + '.c'] + self.w.csrc() + im.ssrc + ['-o', base])
        if p.returncode:
            self.err = p.stderr.decode()[-500:]

    def run(self, name, states):
        i = self.names.index(name)
        buf = b''.join(struct.pack('<I', i) + s.ljust(64, b'\0') for s in states)
        try:
            p = subprocess.run(self.pre + [self.exe], input=buf, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        except subprocess.TimeoutExpired:
            return []
        o = p.stdout
        return [o[64 * k:64 * k + 64] for k in range(len(o) // 64)]

    def check(self, orc, name, R, states):
        """-> None or (text, state, layout) when no layout of the state fits all executions"""
        import contracts, spec
        alg = spec.ALGS[self.im.alg]
        n = alg.perm.nbytes
        lays = contracts.asc_layouts() if alg.perm.name == 'ascon' else contracts.kec_layouts()
        res = self.run(name, states)
        if len(res) < len(states):
            return None
        best = None
        for ln, lay in lays:
            mp = [lay(b, i) for b in range(n) for i in range(8)]
            pos = {}
            for b in range(n):
                for i in range(8):
                    pos[alg.perm.bytepos(b, i)] = (b, i)
            bad = []
            for s, r in zip(states, res):
                x = bytearray(n)
                for k, j in enumerate(mp):
                    if s[k // 8] >> (k % 8) & 1:
                        b, i = pos[j]
                        x[b] |= 1 << i
                y = ctypes.create_string_buffer(bytes(x), 64)
                orc.l.oracle_perm(ALGI[self.im.alg], y, R)
                y = y.raw
                e = bytearray(n)
                for k, j in enumerate(mp):
                    b, i = pos[j]
                    e[k // 8] |= (y[b] >> i & 1) << (k % 8)
                if bytes(e) != r[:n]:
                    bad.append((s, ln, bytes(e), r[:n]))
            if not bad:
                return None
            if best is None or len(bad) < len(best):
                best = bad
        s, ln, e, g = best[0]
        return (f'{name}: {len(best)} of {len(states)} states map to a wrong image, e.g. {s[:n].hex()} -> {g.hex()}, expected {e.hex()} ({ln})',
                s[:n], ln)


if __name__ == '__main__':
    import tempfile, time
    with tempfile.TemporaryDirectory() as w:
        o = Oracle(w)
        tot = 0
        for im in impls.discover():
            if len(sys.argv) > 1 and not any(a in im.name for a in sys.argv[1:]):
                continue
            t = time.time()
            r = Runner(im, w)
            if r.err:
                print(im.name, r.err[:200])
                continue
            t1 = time.time()
            cs = cases(o, im, random.Random(1))
            rs = r.run(cs)
            bad = [(ser(c)['op'], j) for c, x in zip(cs, rs) for j in judge(o, im, c, x)]
            print(im.name, len(cs), 'build', round(t1 - t, 2), 'run', round(time.time() - t1, 2), bad[:3], len(bad))
