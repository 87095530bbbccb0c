#!/usr/bin/env python3-vt
"""check.py PROPERTY - decides one property on /repo's current working tree (see DESIGN.md).

exit 0: every obligation discharged (or bounded stand-in without a violation), exit 1: VIOLATION lines on stdout."""
import collections, concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
for d in ('engine', 'native'):
    sys.path.insert(0, os.path.join(HERE, d))
import impls, native

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
HARD = 760 if TIER == 'quick' else 5400     # no further executions after that many seconds
BUDGET = float(os.environ.get('VERIF_BUDGET', '560' if TIER == 'quick' else '2400'))
JOBS = int(os.environ.get('VERIF_JOBS', str(min(8, os.cpu_count() or 1))))
MEM = 7.0
PY = shutil.which('python3-vt') or sys.executable

VALUE = {'perm', 'rk', 'tag', 'keystream', 'ciphertext', 'plaintext', 'hash', 'lr'}
# property -> jobs, obligation kinds, kinds of native differences, native operations, implementation filter
P = {
    'C01': dict(jobs=('mac', 'enc', 'encrypt'), kinds={'perm', 'rk', 'tag', 'keystream', 'ciphertext', 'ret', 'len'},
                nat={'keystream', 'tag', 'enc-ret', 'enc-len', 'crash'}, ops=('enc',)),
    'C02': dict(jobs=('mac', 'enc', 'decrypt'), kinds={'perm', 'rk', 'tag', 'keystream', 'plaintext', 'decision-reject', 'ret', 'len'},
                nat={'reject-authentic', 'dec-len', 'plaintext', 'crash'}, ops=('dec',)),
    'C03': dict(jobs=('mac', 'decrypt'), kinds={'perm', 'rk', 'tag', 'lr', 'decision', 'decision-reject', 'ret'},
                nat={'reject-authentic', 'accept-forgery', 'reject-sign'}, ops=('dec', 'bad')),
    'C04': dict(jobs=('decrypt',), kinds={'release'}, nat={'release'}, ops=('bad',)),
    'C05': dict(jobs=('mac', 'enc', 'encrypt', 'decrypt', 'hash'), kinds={'bounds', 'frame', 'term'}, nat={'memory'},
                ops=('enc', 'dec', 'bad', 'hash')),
    'C06': dict(jobs=('hash',), kinds={'perm', 'hash', 'ret'}, nat={'hash', 'hash-ret', 'crash'}, ops=('hash',), only=lambda i: i.has_hash),
    'C07': dict(jobs=('perm',), kinds={'perm'}, nat={'perm'}, ops=('perm',)),
    'C08': dict(jobs=('mac', 'enc'), kinds={'perm', 'rk'}, nat={'keystream', 'tag'}, ops=('enc',)),
    'C09': dict(jobs=('mac',), kinds={'perm', 'rk', 'tag'}, nat={'tag', 'accept-forgery', 'reject-authentic'}, ops=('enc', 'dec', 'bad')),
    'C10': dict(jobs=('mac', 'enc', 'encrypt', 'decrypt', 'hash'), kinds={'mutable', 'uninit'}, nat={'static', 'unstable'},
                ops=('enc', 'dec', 'bad', 'hash')),
    'C11': dict(jobs=('mac', 'enc', 'encrypt', 'decrypt', 'hash'), kinds={'secret-branch', 'secret-addr', 'vartime'}, nat={'trace'}, ops=()),
    'C12': dict(jobs=('mac', 'decrypt'), kinds={'lr', 'decision', 'decision-reject', 'perm'}, nat={'accept-forgery', 'reject-authentic'},
                ops=('dec', 'bad'), only=lambda i: i.stp),
}
TITLES = {}
# failures that end or bend a path: what follows them has not been examined for the other properties
ENDING = {'bounds', 'frame', 'term', 'mutable', 'uninit'}
TRUST = [
    'clang 18 front end and opt -passes=sroa (C to LLVM IR); GNU as/objdump for the .s and inline assembly text',
    'the verification engine in /verif/engine (IR and ARM semantics, path exploration, loop-invariant inference with inductive check, '
    'GF(2) normal form with specification rewriting, BDDs for the final decision)',
    'z3 for linear integer arithmetic over lengths and residual bit equalities',
    'the specification in engine/spec.py (validated against the KAT vectors through native/oracle.c)',
]
ASSUME = [
    'little-endian target; casts between byte and word pointers behave as on the supported compilers (-fno-strict-aliasing), unaligned word access allowed',
    'arguments are valid, output buffers do not overlap inputs, lengths at most 2^63-49 (64-bit targets) or 2^31-49 (32-bit targets)',
    'ARM implementations are verified as compiled for armv6 / Thumb-2 A-profile, AVX-512 ones for x86-64-v4',
    'constant time is decided on the IR and on the assembly text: later compiler stages and hardware are outside',
    'aarch/ARM inline assembly operands obey their constraints; memcpy/memset/memcmp behave as specified by C',
    'clang has no _mm_ror_epi64 with a variable count: engine/include/clang_ror.h maps it to _mm_rorv_epi64 for the proof build only',
]


ROOTS = {'mac': ('isap_mac',), 'enc': ('isap_enc',), 'encrypt': ('crypto_aead_encrypt',), 'decrypt': ('crypto_aead_decrypt',),
         'hash': ('crypto_hash',)}


def strip(l):
    return re.sub(r',? ?![\w.]+ ![0-9]+| #\d+', '', l).rstrip()


def symbols(irs):
    """name -> text of every function and global; other lines (types, attributes) go under ''"""
    d, other = {}, []
    for s, t in irs:
        cur = None
        for l in t.splitlines():
            if cur is not None:
                cur.append(strip(l))
                if l.startswith('}'):
                    cur = None
                continue
            if l.startswith(('; ModuleID', 'source_filename', '!', 'target ', ';')) or not l:
                continue
            m = re.match(r'(?:define\b.*?|)@([\w.$]+)', l)
            if m:
                d.setdefault(m.group(1), []).append(strip(l))
                if l.startswith('define'):
                    cur = d[m.group(1)]
            elif l.startswith('%'):
                other.append(l)
    return d, other


def job_key(im, syms, units):
    """the text that the obligations of this job are generated from (everything reachable from the functions it verifies)"""
    d, other = syms
    h = hashlib.sha256(repr((im.alg, im.kind, im.stp, units)).encode())
    names = set()
    if 'perm' in units:
        # macros leave no trace in the IR: the source text itself
        for r, _, fs in sorted(os.walk(os.path.join(impls.REPO, im.dir))):
            for f in sorted(fs):
                if f.endswith(('.c', '.h', '.s', '.macros')):
                    h.update(open(os.path.join(r, f), 'rb').read())
        h.update(im.name.split('/')[0].encode())
    else:
        names, todo = set(), [r for u in units for r in ROOTS[u]]
        while todo:
            n = todo.pop()
            if n in names or n not in d:
                continue
            names.add(n)
            for l in d[n]:
                todo += re.findall(r'@([\w.$]+)', l)
    types = {o.split(' ')[0]: o for o in other}
    todo = [l for n in names for l in d[n]]
    used = set()
    while todo:
        for t in re.findall(r'%(?:struct|union)\.[\w.]+', todo.pop()):
            if t in types and t not in used:
                used.add(t)
                todo.append(types[t])
    h.update(repr(sorted(types[t] for t in used)).encode())
    for n in sorted(names):
        h.update(('@' + n + '\n' + '\n'.join(d[n]) + '\n').encode())
    for s in im.ssrc:
        h.update(open(os.path.join(impls.REPO, s), 'rb').read())
    return h.hexdigest()


def cost(im, u):
    if u == 'perm':
        return 3
    if 'avx_512' in im.name:
        return {'encrypt': 500, 'mac': 40}.get(u, 10)
    heavy = im.alg != 'isapa128av20' and 'ref' not in im.name and 'armv6m' not in im.name and 'armv7m' not in im.name
    if u == 'mac':
        return (150 if heavy else 30 if 'isapk' in im.alg else 15 if im.alg == 'isapa128v20' else 4)
    if u == 'enc':
        return (48 if heavy and 'av20' not in im.alg else 7) if heavy else 2
    return 4


class Job:
    def __init__(self, im, units, c):
        self.im, self.units, self.cost = im, units, c
        self.members = [im]
        self.records, self.end, self.died, self.partial = [], None, None, None


class Check:
    def __init__(self, pid):
        self.pid, self.cfg = pid, P[pid]
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='verif_')
        self.procs = {}
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.viol = []            # (impl, failure record, case or None, text)
        self.bounded = []
        self.suspect = {}
        self.natcount = 0
        self.notes = []

    # ------------------------------------------------------------ setup
    def build(self):
        f = self.cfg.get('only')
        self.impls = [i for i in impls.discover() if f is None or f(i)]
        if self.cfg['jobs'] == ('hash',) or 'hash' in self.cfg['jobs']:
            pass
        self.irs, self.broken = {}, {}

        def one(i):
            try:
                return i, impls.ir(i, None), None
            except impls.BuildError as e:
                return i, None, str(e)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for i, r, e in ex.map(one, self.impls):
                if e:
                    self.broken[i.name] = e
                else:
                    self.irs[i.name] = r
        jobs = {}
        for im in self.impls:
            if im.name in self.broken:
                continue
            syms = symbols(self.irs[im.name])
            us = [u for u in self.cfg['jobs'] if u != 'hash' or im.has_hash]
            groups = []
            rest = []
            for u in us:
                if cost(im, u) >= 20:
                    groups.append((u,))
                else:
                    rest.append(u)
            if rest:
                groups.append(tuple(rest))
            for g in groups:
                k = job_key(im, syms, g)
                if k in jobs:
                    jobs[k].members.append(im)
                else:
                    jobs[k] = Job(im, g, sum(cost(im, u) for u in g))
        self.jobs = sorted(jobs.values(), key=lambda j: -j.cost)

    # ------------------------------------------------------------ proof
    def run_job(self, j):
        if self.stop.is_set():
            j.died = 'skipped'
            return j
        out = os.path.join(self.work, hashlib.md5(repr((j.im.name, j.units)).encode()).hexdigest())
        end = self.t0 + BUDGET
        left = end - time.time()
        if left < 5:
            j.died = 'no time left'
            return j
        cmd = [PY, os.path.join(HERE, 'engine', 'worker.py'), j.im.name, ','.join(j.units), out, str(end), str(MEM)]
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
        with self.lock:
            self.procs[p.pid] = p
        try:
            _, err = p.communicate(timeout=left + 15)
            if p.returncode:
                j.died = f'worker ended with {p.returncode}: ' + err.decode(errors='replace')[-300:]
        except subprocess.TimeoutExpired:
            j.died = 'time limit'
            self.kill(p)
            p.communicate()
        with self.lock:
            self.procs.pop(p.pid, None)
        try:
            for l in open(out):
                try:
                    r = json.loads(l)
                except ValueError:
                    continue
                if r.get('end'):
                    j.end = r
                elif r.get('partial'):
                    j.partial = r['error']
                elif 'error' in r:
                    j.died = r['error']
                else:
                    j.records.append(r)
        except OSError:
            pass
        return j

    def kill(self, p):
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass

    # ------------------------------------------------------------ native executions
    def runner(self, im):
        with self.lock:
            d = self.__dict__.setdefault('runners', {})
            l = self.__dict__.setdefault('rlocks', collections.defaultdict(threading.Lock))[im.name]
        with l:
            if im.name not in d:
                d[im.name] = native.Runner(im, self.work)
            return d[im.name]

    def execute(self, im, cases):
        """-> list of (kind, text, case) of this property"""
        left = HARD - (time.time() - self.t0)
        if not cases or left < 3:
            return []
        r = self.runner(im)
        if r.err:
            self.notes.append(f'{im.name}: not executed natively ({r.err[:120]})')
            return []
        out = []
        res = r.run(cases, timeout=min(200, left))
        with self.lock:
            self.natcount += len(cases)
        for c, x in zip(cases, res):
            for kind, text in native.judge(self.orc, im, c, x):
                if kind in self.cfg['nat']:
                    out.append((kind, text, c))
        if 'unstable' in self.cfg['nat']:
            # the same calls in another order, on other stack contents and prefilled buffers
            c2 = [dict(c, fill=(c.get('fill', 0) ^ 0xff) & 0xff) for c in cases]
            order = list(range(len(c2)))
            random.Random(SEED).shuffle(order)
            r2 = r.run([c2[i] for i in order], timeout=max(3, min(200, HARD - (time.time() - self.t0))))
            back = {i: x for i, x in zip(order, r2)}
            for i, c in enumerate(cases):
                a, b = res[i], back.get(i)
                if a and b and not a['sig'] and not b['sig'] and (a['ret'] != b['ret'] or (
                        a['ret'] == 0 and a['out'] != b['out'])):
                    out.append(('unstable', 'two executions of the same call differ (stack contents / call history)', c))
        return out

    def perm_states(self, im, entry, R, states):
        with self.lock:
            l = self.__dict__.setdefault('rlocks', collections.defaultdict(threading.Lock))[im.name]
            d = self.__dict__.setdefault('prunners', {})
        with l:
            if im.name not in d:
                d[im.name] = native.PermRunner(im, self.work)
        r = d[im.name]
        if r.err or entry not in r.names:
            return []
        with self.lock:
            self.natcount += len(states)
        x = r.check(self.orc, entry, R, states)
        return [('perm', x[0], {'entry': entry, 'rounds': R, 'state': x[1], 'layout': x[2]})] if x else []

    def sweep(self, im, n):
        if self.cfg['ops'] == ('perm',):
            import wrap
            rnd = random.Random(f'{SEED}/{im.name}')
            nb = 50 if im.alg.startswith('isapk') else 40
            st = [bytes(nb), b'\xff' * nb] + [rnd.randbytes(nb) for _ in range(max(6, n // 8))]
            st += [bytes(nb)[:i] + bytes([1 << rnd.randrange(8)]) + bytes(nb)[i + 1:] for i in range(0, nb, 5)]
            out = []
            for e in wrap.Wrap(im).entries:
                out += self.perm_states(im, e[0], e[1], st)
            return out
        if not self.cfg['ops']:
            return []
        rnd = random.Random(f'{SEED}/{im.name}')
        cs = native.cases(self.orc, im, rnd, n, self.cfg['ops'])
        return self.execute(im, cs)

    # ------------------------------------------------------------ judgement
    def relevant(self, r, f):
        k = f['kind']
        if k not in self.cfg['kinds']:
            return False
        if k in ('ret', 'len') and self.pid in ('C01', 'C02', 'C03'):
            return ('encrypt' if self.pid == 'C01' else 'decrypt') in f.get('unit', '')
        return True

    def judge_job(self, j):
        """failures and open obligations of one finished job"""
        for im in j.members:
            sus = self.suspect.get(im.name, [])
            fails, open_, hints = [], [], []
            for r in j.records:
                for f in r['failures']:
                    if f.get('refuted'):
                        continue
                    hints.append(f)
                    if not self.relevant(r, f):
                        if f['kind'] in ENDING or len(r['failures']) > 3:
                            open_.append(f"{r['unit']}: cut short by {f['kind']}: {f['msg']}")
                        continue
                    if f['definite']:
                        fails.append(f)
                    else:
                        open_.append(f"{r['unit']}: {f['kind']}: {f['msg']} ({f['why']})")
                if r['status'] == 'undecided':
                    if r['reason'].startswith('no isap_') or r['reason'].startswith('no function'):
                        continue
                    open_.append(f"{r['unit']}: {r['reason'].strip().splitlines()[-1] if r['reason'].strip() else ''}")
            if j.died and j.died != 'skipped':
                open_.append(f'{"+".join(j.units)}: {j.died}')
            if j.partial:
                open_.append(j.partial)
            if not fails and not open_:
                continue
            found = []
            if fails:
                rnd = random.Random(f'{SEED}/{im.name}/f')
                for f in fails[:6]:
                    if self.pid == 'C11':
                        import ct
                        c = ct.replay(self, im, f)
                        if c:
                            found.append((f, ('trace', c['text'], c)))
                            break
                        continue
                    if 'entry' in f:
                        nb = 50 if im.alg.startswith('isapk') else 40
                        st = [bytes.fromhex(f['state'])] if f.get('state') else []
                        ex = self.perm_states(im, f['entry'], f['rounds'], st + [rnd.randbytes(nb) for _ in range(32)])
                    else:
                        ex = self.execute(im, native.from_failure(self.orc, im, rnd, f))
                    if ex:
                        found.append((f, ex[0]))
                        break
                if not found and sus:
                    found.append((fails[0], sus[0]))
                if not found:
                    ex = self.hinted(im, hints) or self.sweep(im, 150) or self.deep(im)
                    if ex:
                        found.append((fails[0], ex[0]))
                if found:
                    self.violate(im, found[0][0], found[0][1])
                elif all(self.contradicted(im, f) for f in fails):
                    # the executions of exactly these lengths satisfy the specification: the template of a loop
                    # admitted states that no call reaches; nothing is proved and nothing is alleged
                    self.bounded.append({'implementation': im.name, 'open': [
                        f"{f['unit']}: {f['kind']}: {f['msg']} (not confirmed by executions)" for f in fails[:6]]})
                else:
                    self.violate(im, fails[0], None)
            elif open_:
                if self.pid == 'C11':
                    ex = self.ct_sweep(im)
                else:
                    ex = sus or self.hinted(im, hints) or self.sweep(im, 300) or self.deep(im)
                if ex:
                    self.violate(im, {'kind': 'open', 'unit': open_[0].split(':')[0], 'msg': 'not discharged: ' + '; '.join(open_[:3]),
                                      'definite': False}, ex[0])
                else:
                    self.bounded.append({'implementation': im.name, 'open': open_[:6]})

    def contradicted(self, im, f):
        """a failed functional obligation without data conditions whose lengths were executed and gave the specified result"""
        if f['kind'] not in ('tag', 'ciphertext', 'plaintext', 'hash', 'keystream') or f.get('conds') or not f.get('lens') or 'entry' in f:
            return False
        if self.runner(im).err:
            return False
        return bool(self.mine(native.from_failure(self.orc, im, random.Random(SEED), f, n=1)))

    def hinted(self, im, hints):
        """executions with the lengths and inputs of failed obligations, whatever their kind"""
        if self.pid in ('C07', 'C11'):
            return []
        rnd = random.Random(f'{SEED}/{im.name}/h')
        seen = set()
        for f in hints:
            k = repr(sorted((f.get('lens') or {}).items()))
            if 'entry' in f or k in seen or len(seen) > 8:
                continue
            seen.add(k)
            ex = self.execute(im, self.mine(native.from_failure(self.orc, im, rnd, f, n=6)))
            if ex:
                return ex
        return []

    def mine(self, cases):
        ops = {'enc': 0, 'dec': 1, 'bad': 1, 'hash': 2}
        on = {ops[o] for o in self.cfg['ops'] if o in ops}
        return [c for c in cases if c['op'] in on]

    def deep(self, im):
        """bounded search around the integer constants and truncation widths of the code"""
        if self.pid in ('C07', 'C11') or im.name not in self.irs:
            return []
        rate = 18 if im.alg.startswith('isapk') else 8
        vs, big = set(), set()
        for _, t in self.irs[im.name]:
            for l in t.splitlines():
                m = re.search(r' = (icmp|and|add|sub|udiv|urem|lshr|switch|trunc)\b(.*)', l)
                if not m:
                    continue
                if m.group(1) == 'trunc':
                    for w in re.findall(r' to i(8|16)\b', l):
                        big |= {1 << int(w), rate << int(w)}
                    continue
                for x in re.findall(r'(?<![\w%@.])-?\d+\b', m.group(2)):
                    x = abs(int(x))
                    if 24 < x <= 1 << 20:
                        vs.add(x)
                        if x < 512:
                            vs.add(x * rate)
        lens = []
        for v in sorted(big) + sorted(vs - big)[:60]:
            lens += [(3, v - 1), (0, v), (v, 5), (5, v + rate + 1)]
        rnd = random.Random(f'{SEED}/{im.name}/d')
        total, out, t0 = 0, [], time.time()
        for i in range(0, len(lens), 8):
            out = self.execute(im, native.cases(self.orc, im, rnd, len(lens[i:i + 8]), self.cfg['ops'], lens[i:i + 8]))
            if out or time.time() - t0 > 60:
                break
        return out

    def ct_sweep(self, im):
        """bounded stand-in for C11: traces of pairs of calls"""
        import ct
        for u, ln in (('encrypt', (9, 21)), ('decrypt', (9, 21)), ('decrypt', (0, 0)), ('encrypt', (40, 70))):
            c = ct.replay(self, im, {'unit': u, 'lens': {'ad': ln[0], 'c': ln[1]}})
            if c:
                return [('trace', c['text'], c)]
        if im.has_hash:
            c = ct.replay(self, im, {'unit': 'hash', 'lens': {'m': 21}})
            if c:
                return [('trace', c['text'], c)]
        return []

    def violate(self, im, f, ex):
        with self.lock:
            self.viol.append((im, f, ex))

    # ------------------------------------------------------------ main
    def run(self):
        self.build()
        self.orc = native.Oracle(self.work)
        if self.cfg['ops']:
            n = 40 if TIER == 'quick' else 400

            def sw(im):
                try:
                    return im, self.sweep(im, n)
                except Exception as e:       # a build or tool problem is never an alarm
                    self.notes.append(f'{im.name}: native sweep failed: {e}')
                    return im, []
            with cf.ThreadPoolExecutor(JOBS) as ex:
                for im, v in ex.map(sw, sorted(self.impls, key=lambda i: ('opt_64' not in i.name, i.name))):
                    if v:
                        self.suspect[im.name] = v
        self.natsecs = time.time() - self.t0
        jobs = self.jobs
        if self.suspect:
            jobs = sorted(jobs, key=lambda j: (not any(m.name in self.suspect for m in j.members), -j.cost))
        done = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            def both(j):
                self.run_job(j)
                if j.died != 'skipped' and not self.stop.is_set():
                    try:
                        self.judge_job(j)
                    except Exception as e:       # a tool problem is never an alarm
                        self.bounded.append({'implementation': j.im.name, 'open': [f'{"+".join(j.units)}: judgement failed: {e!r}'[:300]]})
                return j
            futs = {ex.submit(both, j): j for j in jobs}
            for f in cf.as_completed(futs):
                j = f.result()
                done.append(j)
                if not self.stop.is_set():
                    if any(v[2] for v in self.viol):
                        # confirmed on the real code: no need to finish the other proofs
                        self.stop.set()
                        with self.lock:
                            ps = list(self.procs.values())
                        for p in ps:
                            self.kill(p)
        # an execution that contradicts the specification although nothing failed
        if not any(v[2] for v in self.viol):
            for im in self.impls:
                for s in self.suspect.get(im.name, [])[:1]:
                    self.violate(im, {'kind': 'execution', 'unit': im.name, 'msg': 'execution contradicts the contract: ' + s[1],
                                      'definite': False}, s)
        return self.finish()

    def finish(self):
        known = load_known()
        out, rc = [], 0
        vs = self.viol
        if any(v[2] for v in vs):
            vs = [v for v in vs if v[2]]
        rd = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        nviol = 0
        for n, (im, f, ex) in enumerate(vs[:6]):
            ident = f"{im.name} {f.get('unit', '')} {f.get('kind', '')}"
            if any(k['property'] == self.pid and k['what'] in ident for k in known):
                out.append(f'KNOWN-FINDING: property={self.pid} {ident}')
                continue
            path = os.path.join(rd, f'{self.pid}-{n}.json')
            d = {'property': self.pid, 'implementation': im.name, 'obligation': f, 'seed': SEED}
            if ex:
                c = ex[2]
                d['observed'] = ex[1]
                d['case'] = native.ser(c)
                d['how'] = f'{os.path.join(HERE, "replay.py")} {path}'
            with open(path, 'w') as fh:
                json.dump(d, fh, indent=1, default=str)
            print(f"failed obligation: {im.name}: {f.get('unit')}: {f.get('kind')}: {f.get('msg')}" + (f' -- {ex[1]}' if ex else ''))
            print(f'VIOLATION property={self.pid} replay={path}' + ('' if ex else ' no-failing-input-found'))
            nviol += 1
            rc = 1
        for l in out:
            print(l)
        self.evidence(nviol)
        shutil.rmtree(self.work, ignore_errors=True)
        return rc

    def evidence(self, nviol):
        ob = collections.Counter()
        total = disch = 0
        fns, loops, z3q, z3t, cpu = [], 0, 0, 0.0, 0.0
        failing = 0
        undec = []
        for j in self.jobs:
            for r in j.records:
                n = sum(r['obl'].values())
                bad = sum(1 for f in r['failures'] if not f.get('refuted'))
                if r['status'] == 'undecided':
                    if r['reason'].startswith('no '):
                        continue
                    undec.append(f"{j.im.name}: {r['unit']}")
                    bad += 1
                for k, v in r['obl'].items():
                    ob[k] += v * len(j.members)
                total += (n + bad) * len(j.members)
                disch += n * len(j.members)
                for m in j.members:
                    fns.append(f"{m.name}: {r['unit']}: {r['status']}")
            if j.end:
                loops += j.end['loops']
                z3q += j.end['z3'][0]
                z3t += j.end['z3'][1]
                cpu += j.end['secs']
            elif j.died:
                undec.append(f'{j.im.name}: {"+".join(j.units)} ({j.died[:80]})')
                total += 1
        ev = {
            'property': self.pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': LEVEL.get(self.pid, 'proof'),
            'coverage': {
                'obligations': total, 'discharged': disch,
                'checker_cmd': f'python3-vt /verif/check.py {self.pid}',
                'trusted_base': TRUST,
                'by_kind': dict(ob),
                'functions_under_contract': sorted(fns),
                'functions': len(fns),
                'implementations': len(self.impls),
                'proof_runs': len(self.jobs),
                'slowest_proofs': [[j.im.name, '+'.join(j.units), round(j.end['secs'], 1)] for j in sorted((j for j in self.jobs if j.end), key=lambda j: -j.end['secs'])[:6]],
                'loop_invariants_checked': loops,
                'back_ends': {'gf2 normal form + BDD (engine)': disch - z3q if disch > z3q else disch, 'z3 queries (linear arithmetic over lengths)': z3q},
                'solver_seconds_z3': round(z3t, 1), 'prover_cpu_seconds': round(cpu, 1),
                'bounded_stand_ins': self.bounded, 'open': sorted(set(undec)),
                'not_compiled': self.broken,
                'evaluations': self.natcount,
                'rule': 'native executions of the real code against the oracle (cross-check and replay only, decides nothing by itself unless it finds a difference)',
                'samples': fns[:3],
                'notes': self.notes[:20],
            },
            'assumptions': ASSUME,
            'wall_s': round(time.time() - self.t0, 1),
            'violations': nviol,
        }
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        tmp = os.path.join(HERE, 'evidence', f'.{self.pid}.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(HERE, 'evidence', f'{self.pid}.json'))
        print(f'{self.pid}: {disch}/{total} obligations discharged in {len(fns)} functions of {len(self.impls)} implementations, '
              f'{len(self.bounded)} bounded stand-ins, {self.natcount} native executions, {ev["wall_s"]} s')
        for b in self.bounded:
            print('bounded:', b['implementation'], '|', '; '.join(b['open'])[:300])
        for k, v in self.broken.items():
            print('not compiled:', k, v[:200])


LEVEL = {}


def load_known():
    out = []
    try:
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            m = re.match(r'finding: property=(\S+) (.*)', l)
            if m:
                out.append({'property': m.group(1), 'what': m.group(2).strip()})
    except OSError:
        pass
    return out


if __name__ == '__main__':
    if len(sys.argv) != 2 or sys.argv[1] not in P:
        print('usage: check.py ' + '|'.join(P))
        sys.exit(2)
    sys.exit(Check(sys.argv[1]).run())
