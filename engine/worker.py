"""Verifies the requested units of one implementation and appends the outcome to a JSON-lines file.

usage: worker.py IMPL UNITS OUT DEADLINE(epoch seconds) MEM_GB"""
import json, os, resource, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)


def main():
    name, want, out, deadline, mem = sys.argv[1], sys.argv[2].split(','), sys.argv[3], float(sys.argv[4]), float(sys.argv[5])
    resource.setrlimit(resource.RLIMIT_AS, (int(mem * (1 << 30)),) * 2)
    f = open(out, 'a')

    def emit(d):
        f.write(json.dumps(d) + '\n')
        f.flush()
    t0 = time.time()
    import impls, llir, contracts, units, report, lin
    im = [i for i in impls.discover() if i.name == name]
    if not im:
        emit({'error': f'{name} not found', 'build': True})
        return
    im = im[0]
    try:
        if want == ['perm']:
            import wrap
            wr = wrap.Wrap(im)
            irs = wr.ir()
            if not irs:
                emit({'error': 'no permutation entry point compiles: ' + wr.log[-200:]})
                return
            if wr.missing:
                emit({'error': 'entry points that do not compile: ' + ', '.join(wr.missing), 'partial': True})
        else:
            irs = impls.ir(im, None)
        mods = [llir.Module(tx, s) for s, tx in irs]
        ctx = contracts.Ctx(im, mods, deadline)
    except impls.BuildError as e:
        emit({'error': str(e)[-1500:], 'build': True})
        return
    except Exception:
        emit({'error': 'engine: ' + traceback.format_exc()[-1500:]})
        return
    u = units.Units(ctx)
    done = 0
    for w in want:
        try:
            if w == 'perm' and want == ['perm']:
                u.perms([(e[0], e[1]) for e in wr.entries])
            else:
                u.one(w)
        except units.Missing as e:
            ctx.results.append(contracts.Result(w))
            ctx.results[-1].status, ctx.results[-1].reason = 'undecided', str(e)
        except MemoryError:
            ctx.results.append(contracts.Result(w))
            ctx.results[-1].status, ctx.results[-1].reason = 'undecided', 'memory limit'
        except Exception:
            ctx.results.append(contracts.Result(w))
            ctx.results[-1].status, ctx.results[-1].reason = 'undecided', 'engine: ' + traceback.format_exc()[-800:]
        for r in ctx.results[done:]:
            d = {'unit': r.unit, 'job': w, 'status': r.status, 'reason': r.reason, 'obl': r.obl, 'time': round(r.time, 2),
                 'info': {k: v for k, v in r.info.items() if isinstance(v, (int, str))}, 'failures': []}
            for fl in r.failures[:12]:
                try:
                    d['failures'].append(report.analyse(ctx, fl))
                except Exception:
                    d['failures'].append({'kind': fl.kind, 'fn': fl.fn, 'line': fl.line, 'msg': fl.msg, 'definite': False,
                                          'why': 'analysis failed: ' + traceback.format_exc()[-300:], 'lens': {}, 'inputs': {}})
            emit(d)
        done = len(ctx.results)
    loops = [str(x) for x in ctx.eng.loopinfo]
    emit({'end': True, 'secs': round(time.time() - t0, 2), 'used': {'/'.join(map(str, k)): v for k, v in ctx.used.items()},
          'z3': [lin.Stats.z3_queries, round(lin.Stats.z3_time, 2)], 'loops': len(loops),
          'maxrss': resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024})


main()
