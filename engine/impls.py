"""Discovers every implementation in /repo and compiles its real sources to LLVM IR."""
import glob, os, subprocess, hashlib, tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
X86 = ['clang', '--target=x86_64-linux-gnu']
AVX = X86 + ['-march=x86-64-v4', '-include', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'include', 'clang_ror.h')]
ARM6 = ['clang', '--target=arm-linux-gnueabi', '-march=armv6', '-marm', '-mfloat-abi=soft',
        '-isystem', '/usr/arm-linux-gnueabi/include']
THUMB2 = ['clang', '--target=arm-linux-gnueabi', '-march=armv7-a', '-mthumb', '-mfloat-abi=soft',
          '-isystem', '/usr/arm-linux-gnueabi/include']
XREF = 'crypto_aead/isapxv20/ref'
ALGS = ('isapa128av20', 'isapa128v20', 'isapk128av20', 'isapk128v20')


class Impl:
    def __init__(self, name, alg, d, kind, flags, csrc, ssrc, has_hash=False):
        self.name = name          # e.g. crypto_aead/isapa128av20/opt_64
        self.alg = alg
        self.dir = d
        self.kind = kind          # x86 | avx | arm6 | thumb2
        self.flags = flags
        self.csrc = csrc
        self.ssrc = ssrc
        self.has_hash = has_hash

    @property
    def cc(self):
        return {'x86': X86, 'avx': AVX, 'arm6': ARM6, 'thumb2': THUMB2}[self.kind]

    @property
    def ptr_bits(self):
        return 64 if self.kind in ('x86', 'avx') else 32

    @property
    def stp(self):
        return self.name.endswith('_stp')


def discover():
    out = []
    cwd = os.getcwd()
    os.chdir(REPO)
    try:
        for d in sorted(glob.glob('crypto_aead*/*/*/')):
            d = d.rstrip('/')
            if d == XREF:
                continue
            alg, impl = d.split('/')[1], os.path.basename(d)
            if alg not in ALGS:
                continue
            csrc = sorted(glob.glob(d + '/*.c'))
            ssrc = sorted(glob.glob(d + '/*.s'))
            kind = ('avx' if 'avx' in impl else 'arm6' if impl.endswith('_armv6')
                    else 'thumb2' if 'arm' in impl else 'x86')
            hh = d.startswith('crypto_aead_hash/')
            flags = ['-I' + d, '-Itests', '-DCRYPTO_AEAD'] + ['-DCRYPTO_HASH'] * hh
            out.append(Impl(d, alg, d, kind, flags, csrc, ssrc, hh))
        xs = [f for f in sorted(glob.glob(XREF + '/*.c') + glob.glob(XREF + '/lib/*/*.c'))
              if not f.endswith('genkat_aead.c')]
        for size, perm, alg in (('ISAP128A', 'ASCON', 'isapa128av20'), ('ISAP128', 'ASCON', 'isapa128v20'),
                                ('ISAP128A', 'KECCAKP400', 'isapk128av20'), ('ISAP128', 'KECCAKP400', 'isapk128v20')):
            if os.path.isdir(XREF):
                out.append(Impl(f'{XREF}:{alg}', alg, XREF, 'x86', ['-D' + size, '-D' + perm, '-DDEBUG=0'], xs, []))
    finally:
        os.chdir(cwd)
    return out


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=REPO, **kw)


class BuildError(Exception):
    pass


def ir(impl, workdir):
    """-> list of (source file, IR text) for the real C sources of impl"""
    res = []
    for i, src in enumerate(impl.csrc):
        cmd = impl.cc + ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-strict-aliasing', '-fno-discard-value-names',
                         '-gline-tables-only', '-w', '-DNDEBUG'] + impl.flags + ['-S', '-emit-llvm', src, '-o', '-']
        p = run(cmd)
        if p.returncode:
            raise BuildError(f'{src}: clang: ' + p.stderr.decode()[:2000])
        q = subprocess.run(['opt', '-S', '-passes=function(sroa)', '-o', '-'], input=p.stdout,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if q.returncode:
            raise BuildError(f'{src}: opt: ' + q.stderr.decode()[:2000])
        res.append((src, q.stdout.decode()))
    return res


def key(impl, irs):
    h = hashlib.sha256()
    h.update(repr((impl.alg, impl.kind, impl.stp)).encode())
    for s, t in irs:
        body = '\n'.join(l for l in t.splitlines() if not l.startswith(('; ModuleID', 'source_filename', '!')))
        h.update(body.encode())
    for s in impl.ssrc:
        h.update(open(os.path.join(REPO, s), 'rb').read())
    return h.hexdigest()


if __name__ == '__main__':
    import sys, re, collections
    os.makedirs('/tmp/w/ir', exist_ok=True)
    ops = collections.Counter(); ks = {}
    for im in discover():
        try:
            r = ir(im, None)
        except BuildError as e:
            print('FAIL', im.name, str(e)[:600]); continue
        k = key(im, r)
        print(im.name, im.kind, len(r), k[:8], 'dup' if k in ks else '')
        ks[k] = im
        for s, t in r:
            open('/tmp/w/ir/' + im.name.replace('/', '__') + '__' + os.path.basename(s) + '.ll', 'w').write(t)
            for l in t.splitlines():
                m = re.match(r'  (?:%\S+ = )?(?:tail )?(\w+)', l)
                if m: ops[m.group(1)] += 1
                m = re.search(r'call .*?@([\w.]+)\(', l)
                if m: ops['@' + m.group(1)] += 1
    print(ops)
