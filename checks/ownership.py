"""P01-P03: every object and integer is released exactly once on every path."""
import json
import os

from sa import ownrun, public
from sa.context import Result

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')

LIMITS = ['nodes of the loop tree and what hangs off them are exempt from the leak rule outside '
          'destructors: their owner is decided by list shape, which is not tracked',
          'loops are followed for a bounded number of abstract iterations, with joins at loop heads',
          'functions whose abstract state space exceeds the budget are treated as opaque (listed)']


def run(ctx):
    caps = ((2, 15000), (1, 40000)) if ctx.tier == 'quick' else ((2, 60000), (1, 100000))
    if getattr(ctx, '_own', None) is None:
        ctx._own = ownrun.run(ctx.prog, ctx.isl, caps=caps)
    return ctx._own


def decide(ctx, kinds, rule, expl, floor):
    r = run(ctx)
    res = Result(rule, expl, floor, assumptions=LIMITS)
    res.obligations = r.analysed
    res.extra = dict(functions_analysed=r.analysed, paths_ended=r.paths, states_joined=r.merged,
                     blocks_interpreted=r.steps, opaque_functions=r.opaque)
    for f, k, w, m in r.viol:
        if k in kinds:
            res.bad(w, k, 'in %s: %s' % (f, m))
    res.samples = ['%s: %s' % (k.split(':')[-1], v) for k, v in sorted(r.summ.items()) if v != 'opaque' and v][:12]
    res.samples = [str(s)[:300] for s in res.samples]
    return res


def p01(ctx):
    return decide(ctx, ('leak',), 'units of ownership balance at every return',
                  'path-sensitive ownership dataflow over LLVM IR of every function, bottom-up with summaries; '
                  'every allocation, isl __isl_give and copy creates a unit which must be released, returned or '
                  'stored in an owning field when the function returns', 300)


def p02(ctx):
    return decide(ctx, ('uaf', 'double', 'dangling', 'borrow', 'badfree'), 'no use or release after release',
                  'typestate of every heap and isl object along every path of every function (bottom-up summaries): '
                  'no dereference, use, second release or owning store after release, no release of borrowed or '
                  'non-heap storage', 300)


def p03(ctx):
    return decide(ctx, ('mpzleak', 'mpzuse'), 'init before use, one clear after last use',
                  'typestate of every GMP integer held in a local, structure field or heap cell along every path', 300)


def effects(ctx, r):
    """what each public function does with the ownership of its pointer
    arguments and results: name -> {'params': [[effects]], 'ret': [..], 'out': {i: [..]}}"""
    pub = public.functions(ctx.build)
    res = {}
    for k, outs in r.summ.items():
        fn = ctx.prog.funcs[k]
        if fn.internal or fn.name not in pub or outs == 'opaque':
            continue
        ptr = [p[0][0] == 'ptr' for p in fn.params]
        if not any(ptr) and fn.ret[0] != 'ptr':
            continue
        ps = [set() for _ in fn.params]
        ret, out = set(), {}
        for o in outs:
            for i, e in enumerate(o.params):
                if e in ('take', 'capture'):
                    ps[i].add('take')
                elif e == 'keep':
                    ps[i].add('keep')
            if o.ret[0] in ('give', 'maybe'):
                ret.add('give')
            elif o.ret[0] == 'param':
                if o.params[o.ret[1]] == 'null':
                    continue
                ret.add('param %d%s' % (o.ret[1], ' new reference' if len(o.ret) > 2 else ''))
            elif o.ret[0] == 'borrow':
                ret.add('borrow')
            for i, x in o.outs.items():
                out.setdefault(str(i), set()).add('give')
        res[fn.name] = dict(params=[sorted(x) for x in ps], ret=sorted(ret),
                            out={i: sorted(x) for i, x in out.items()})
    return res


def p04(ctx):
    r = run(ctx)
    res = Result('references counted exactly',
                 'typestate of the reference count along every path: a destructor drops one reference and releases '
                 'the object exactly when the facts of the path say it was the last; constructors start at one; '
                 'copies add one and return the same object', 10, assumptions=LIMITS)
    res.obligations = r.ref_obl
    res.extra = dict(functions_analysed=r.analysed, paths_ended=r.paths, refcount_obligations=r.ref_obl)
    for f, k, w, m in r.viol:
        if k == 'ref':
            res.bad(w, k, 'in %s: %s' % (f, m))
    counted = {'struct %s *' % n for n, fl in ctx.prog.structs.items() if any(x[0] == 'references' for x in fl)}
    eff = effects(ctx, r)
    spec = json.load(open(os.path.join(SPEC, 'contracts.json')))
    for n, e in sorted(eff.items()):
        fn = ctx.fn(n)
        if fn.ditype and n in spec and any(d in counted for d in fn.ditype):
            compare(res, fn, e, spec[n])
    return res


def compare(res, fn, e, s):
    res.ok('%s: %s' % (fn.name, e))
    w = '%s in %s' % (fn.file.split('/repo/')[-1], fn.name)
    if len(s['params']) != len(e['params']):
        return                      # another interface: nothing to compare
    for i, (a, b) in enumerate(zip(e['params'], s['params'])):
        extra = sorted(set(a) - set(b))
        if extra and b:
            res.bad(w, 'ownership contract', 'argument %d (%s): some path does %s, the contract is %s' % (
                i + 1, fn.params[i][1], ' and '.join(extra), ' or '.join(b) or 'nothing'))
    extra = sorted(set(e['ret']) - set(s['ret']))
    if extra:
        res.bad(w, 'ownership contract', 'the result is %s, the contract is %s' % (', '.join(extra), ' or '.join(s['ret']) or 'none'))
    for i in sorted(set(e['out']) - set(s['out'])):
        res.bad(w, 'ownership contract', 'hands an owned object out through argument %d, against the contract' % (int(i) + 1))


def p05(ctx):
    r = run(ctx)
    res = Result('inferred ownership effects match the documented contract',
                 'bottom-up inference of what every public function does with the ownership of each pointer argument, '
                 'result and out-argument, over all its paths, compared with the reviewed contract table spec/contracts.json',
                 100, assumptions=LIMITS)
    eff = effects(ctx, r)
    spec = json.load(open(os.path.join(SPEC, 'contracts.json')))
    for n, e in sorted(eff.items()):
        if n in spec:
            compare(res, ctx.fn(n), e, spec[n])
    res.extra = dict(functions_compared=res.obligations, functions_analysed=r.analysed, paths_ended=r.paths,
                     undecided=sorted(set(spec) - set(eff)))
    return res
