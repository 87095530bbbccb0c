"""Entry points for the permutation routines of an implementation (property C07).

Most permutation code of the package is a macro or an inline function. Every entry point below invokes one of them,
unchanged, from a translation unit that includes the implementation's real source. An entry point whose routine does not
exist (any more) does not compile and is left out."""
import concurrent.futures as cf, os, re, subprocess
import impls

T = 'static u64 vpt0; '
LOC = 'u64 x0=s[0],x1=s[1],x2=s[2],x3=s[3],x4=s[4],t0,t1,t2,t3,t4; t0=t1=t2=t3=t4=0; (void)t0;(void)t1;(void)t2;(void)t3;(void)t4; '
LOC2 = 'u32_2 x0=s[0],x1=s[1],x2=s[2],x3=s[3],x4=s[4]; '
END = 's[0]=x0;s[1]=x1;s[2]=x2;s[3]=x3;s[4]=x4; '


def vec(lane, body):
    """one 64-bit lane of the 128-bit vector code"""
    ld = 'u64 v[2]; ' + ''.join(f'__m128i x{i}a; ' for i in range(5))
    ld += '__m128i t0a, t1a, t2a, t3a, t4a, tmp0a, tmp1a; '
    for i in range(5):
        ld += f'v[{lane}]=s[{i}]; v[{1 - lane}]=0; x{i}a=_mm_loadu_si128((const __m128i *)v); '
    st = ''.join(f'_mm_storeu_si128((__m128i *)v, x{i}a); s[{i}]=v[{lane}]; ' for i in range(5))
    return ld + body + ' ' + st


def candidates(im, text):
    """[(name, rounds, code, includes isap.c)]"""
    out = []

    def has(w):
        return re.search(r'\b' + w + r'\b', text) is not None
    kec = im.alg.startswith('isapk')
    RS = (20, 16, 12, 8, 1) if kec else (12, 7, 6, 1)

    def add(nm, R, par, body, inc=True, pre=''):
        out.append((f'vp_{R}_{nm}', R, f'{pre}\nvoid vp_{R}_{nm}({par}) {{ {body} }}\n', inc))
    if not kec:
        for R in (12, 7, 6, 1):
            if has(f'P{R}ROUNDS'):
                add(f'P{R}ROUNDS', R, 'state_t *s', f'P{R}ROUNDS(s);')
            if re.search(rf'#define P{R} ', text):
                add(f'P{R}', R, 'u64 *s', LOC + f'P{R}; ' + END)
            if has('PX'):
                add('PX', R, 'u32_2 *s', LOC2 + f'PX({R},&x0,&x1,&x2,&x3,&x4); ' + END)
            if has(f'P_{R}'):
                add(f'P_{R}', R, 'u32_2 *s', LOC2 + f'P_{R}(); ' + END)
            if has('P_LOOP'):
                add('P_LOOP', R, 'u32_2 *s', LOC2 + f'P_LOOP({R}); ' + END)
            if has('PROUNDS') and (R != 7 or has('P_PVP')):     # seven rounds are only offered for the tag comparison
                add('PROUNDS', R, 'state_t *s', f'PROUNDS(s, {R});')
            if has('Ascon_Permute_Nrounds'):
                add('Ascon_Permute_Nrounds', R, 'void *s', f'Ascon_Permute_Nrounds(s, {R});', False,
                    'extern void Ascon_Permute_Nrounds(void *, unsigned int);')
        if has('P6_avx_first'):
            add('P6_avx_first', 6, 'u64 *s', vec(0, 'P6_avx_first;'))
            add('P6_avx_second_low', 6, 'u64 *s', vec(0, 'P6_avx_second;'))
            add('P6_avx_second_high', 6, 'u64 *s', vec(1, 'P6_avx_second;'))
            add('P12_avx', 12, 'u64 *s', vec(1, 'P6_avx_first; P6_avx_second;'))
    else:
        for R in (20, 16, 12, 8, 1):
            if has(f'rounds{R}X'):
                add(f'rounds{R}X', R, 'UINT8 *s', 'declareABCDEX __builtin_memset(&S, 0, sizeof S); '
                    f'__builtin_memcpy(S.l8, s, 50); rounds{R}X __builtin_memcpy(s, S.l8, 50);')
            if has('KeccakP400_Permute_Nrounds'):
                add('KeccakP400_Permute_Nrounds', R, 'void *s', f'KeccakP400_Permute_Nrounds(s, {R});', False,
                    'extern void KeccakP400_Permute_Nrounds(void *, unsigned int);')
        if has('KeccakP400_Permute_20rounds'):
            add('KeccakP400_Permute_20rounds', 20, 'void *s', 'KeccakP400_Permute_20rounds(s);', False,
                'extern void KeccakP400_Permute_20rounds(void *);')
    if has('Permutation_Permute_Nrounds'):
        for R in RS:
            add('Permutation_Permute_Nrounds', R, 'void *s', f'Permutation_Permute_Nrounds(s, {R});', False,
                'extern void Permutation_Permute_Nrounds(void *, unsigned long long);')
    return out


class Wrap:
    def __init__(self, im):
        self.im = im
        d = os.path.join(impls.REPO, im.dir)
        text = ''
        for r, _, fs in os.walk(d):
            for f in sorted(fs):
                if f.endswith(('.c', '.h', '.s', '.macros')):
                    text += open(os.path.join(r, f), errors='replace').read()
        cand = candidates(im, text)
        self.missing = []
        self.inc = any(c[3] for c in cand)
        self.entries = self.filter(cand)

    def text(self, cand):
        """the translation unit; None when there is nothing to include"""
        s = ''
        if self.inc:
            for c in self.im.csrc:
                s += f'#include "{os.path.join(impls.REPO, c)}"\n'
        return s + '\n'.join(c[2] for c in cand)

    def csrc(self):
        """sources of the implementation that are not part of the translation unit"""
        return [] if self.inc else self.im.csrc

    def compile(self, cand):
        cmd = self.im.cc + ['-O0', '-fno-strict-aliasing', '-w', '-Werror=implicit-function-declaration', '-DNDEBUG', '-fsyntax-only',
                            '-x', 'c', '-'] + self.im.flags
        p = subprocess.run(cmd, input=self.text(cand).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=impls.REPO)
        self.log = p.stderr.decode()[-400:]
        return p.returncode == 0

    def filter(self, cand):
        if not cand or self.compile(cand):
            return cand
        good = []
        with cf.ThreadPoolExecutor(4) as ex:
            for c, ok in zip(cand, ex.map(lambda c: self.compile([c]), cand)):
                if ok:
                    good.append(c)
                else:
                    self.missing.append(c[0])
        return good if good and self.compile(good) else []

    def ir(self):
        """[(name, IR text)] of the translation unit and the remaining sources"""
        if not self.entries:
            return []
        cmd = self.im.cc + ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-strict-aliasing', '-fno-discard-value-names',
                            '-gline-tables-only', '-w', '-DNDEBUG'] + self.im.flags + ['-S', '-emit-llvm', '-x', 'c', '-', '-o', '-']
        p = subprocess.run(cmd, input=self.text(self.entries).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=impls.REPO)
        if p.returncode:
            raise impls.BuildError(p.stderr.decode()[-800:])
        q = subprocess.run(['opt', '-S', '-passes=function(sroa)', '-o', '-'], input=p.stdout, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if q.returncode:
            raise impls.BuildError(q.stderr.decode()[-800:])
        rest = [] if self.inc else impls.ir(self.im, None)
        return [('permutation entry points', q.stdout.decode())] + rest


if __name__ == '__main__':
    import sys
    for im in impls.discover():
        if len(sys.argv) > 1 and sys.argv[1] not in im.name:
            continue
        w = Wrap(im)
        print(im.name, [e[0][3:] for e in w.entries], 'MISSING' if w.missing else '', w.missing, w.log[:300] if w.missing or not w.entries else '')
