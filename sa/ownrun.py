"""Whole-program run of the ownership analysis: bottom-up over the call graph,
each function once (recursive groups to a fixpoint)."""
import time
from .engine import Engine
from .own import Own, callgraph, sccs, has_loop

# always analysed in the context of its caller: hands part of an object's
# fields over and keeps others, depending on constant arguments
CONTEXT = {'cloog_loop_free_parts'}


DEBUG = None


class Result:
    def __init__(self):
        self.viol = []        # (function, kind, where, message)
        self.summ = {}
        self.cost = {}
        self.opaque = []
        self.analysed = 0
        self.paths = self.merged = self.steps = 0
        self.units = {}
        self.ref_obl = 0


def run(prog, isl, caps=((2, 15000), (1, 30000)), only=None, log=None):
    res = Result()
    g = callgraph(prog)
    comps = sccs(g)
    rec = set()
    for c in comps:
        if len(c) > 1 or c[0] in g[c[0]]:
            rec |= set(c)
    probe = Engine(prog, isl, Own(prog))
    called = set()
    for k, s in g.items():
        called |= s
    loops = {k: has_loop(probe, f) for k, f in prog.funcs.items()}
    refobl = {}
    relby = {}

    def inline(fn):
        if fn.name in CONTEXT:
            return True
        if fn.key in rec:
            return False
        p, s = res.cost.get(fn.key, (0, 0))
        return p <= 12 and s <= 500 and not loops[fn.key]

    for c in comps:
        last = {}
        for rnd in range(4):
            changed = False
            for k in sorted(c):
                if res.summ.get(k) == 'opaque':
                    continue
                fn = prog.funcs[k]
                t = time.time()
                for mi, cap in caps:
                    own = Own(prog, res.summ, inline)
                    own.relby = relby
                    eng = Engine(prog, isl, own, max_iter=mi, max_paths=3000, max_steps=cap)
                    outs = own.analyse(eng, fn)
                    if not eng.truncated:
                        break
                res.cost[k] = (eng.paths, eng.steps)
                if log and time.time() - t > 1:
                    log('%s %.1fs paths=%d merged=%d steps=%d %s' % (fn.name, time.time() - t, eng.paths, eng.merged, eng.steps, 'TRUNC' if eng.truncated else ''))
                if eng.truncated:
                    res.summ[k] = 'opaque'
                    last.pop(k, None)
                    changed = True
                    continue
                old = res.summ.get(k)
                if old is None or sorted(map(repr, old)) != sorted(map(repr, outs)):
                    changed = True
                res.summ[k] = outs
                relby[k] = own.released
                if DEBUG:
                    DEBUG(fn, own, eng)
                gaps = own.gaps()
                if not fn.internal and fn.name.endswith('_free') and fn.ret[0] == 'void' and len(fn.params) == 1 \
                        and any(o.params[0] == 'keep' for o in outs):
                    gaps.append('%s() has a path that neither releases its argument nor drops a reference' % fn.name)
                for m in gaps:
                    own.report(None, None, 'leak', m)
                last[k] = (own.viol, eng.paths, eng.merged, eng.steps)
                refobl[k] = own.ref_obl
            if not changed or (len(c) == 1 and c[0] not in rec):
                break
        for k in sorted(c):
            fn = prog.funcs[k]
            if k not in last:
                res.opaque.append(fn.name)
                continue
            res.analysed += 1
            v, p, m, s = last[k]
            res.paths += p
            res.merged += m
            res.steps += s
            if fn.internal and k in called and inline(fn):
                continue          # judged in its callers
            for key, (w, msg) in v.items():
                res.viol.append((fn.name, key[0], w, msg))
    res.ref_obl = sum(refobl.values())
    return res
