#!/usr/bin/env python3-vt
"""replay.py FILE - executes the call recorded by a violation on the real code of /repo again.

exit 1: the difference shows up again, exit 0: it does not, exit 2: the file has no executable case."""
import json, os, random, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
for d in ('engine', 'native'):
    sys.path.insert(0, os.path.join(HERE, d))
import impls, native


def main():
    d = json.load(open(sys.argv[1]))
    o = d['obligation']
    print(f"property {d['property']}, {d['implementation']}, {o.get('unit')}: {o.get('kind')}: {o.get('msg')}")
    c = d.get('case')
    if c is None:
        print('no executable case: the failed obligation is', json.dumps(o, indent=1))
        return 2
    im = [i for i in impls.discover() if i.name == d['implementation']][0]
    with tempfile.TemporaryDirectory(prefix='verif_') as w:
        orc = native.Oracle(w)
        if 'entry' in c:
            r = native.PermRunner(im, w)
            rnd = random.Random(1)
            s = bytes.fromhex(c['state'])
            x = None if r.err else r.check(orc, c['entry'], c['rounds'], [s] + [rnd.randbytes(len(s)) for _ in range(15)])
            print(r.err or (x[0] if x else 'no difference'))
            return 1 if x else 0
        if 'other' in c:
            import ct
            c1, c2 = native.unser(c), native.unser(c['other'])
            exe = ct.build(im, w)
            t = exe and ct.diff(im, exe, c1, c2, w)
            print(t or 'no difference')
            return 1 if t else 0
        r = native.Runner(im, w)
        if r.err:
            print(r.err)
            return 2
        cc = native.unser(c)
        v = []
        for fill in (cc.get('fill', 0xa5), 0x00, 0xff, 0x5a):
            res = r.run([dict(cc, fill=fill)])[0]
            v += native.judge(orc, im, dict(cc, fill=fill), res)
            print('fill', fill, {k: (x.hex() if isinstance(x, bytes) else x) for k, x in (res or {}).items()})
        for x in v:
            print(x)
        return 1 if v else 0


sys.exit(main())
