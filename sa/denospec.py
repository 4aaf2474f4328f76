"""Required outcome tables: reading, matching against the code."""
import gzip
import json
import os
import time
from . import deno

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'deno')


def find(prog, name, file=None):
    c = [f for f in prog.funcs.values() if f.name == name]
    if len(c) > 1 and file:
        c = [f for f in c if f.file.endswith(file)] or c
    return c[0] if c else None


def sig(f):
    return ' '.join(t or 'void' for t in f.ditype) if f.ditype else str(f.params)


def feasible(recs):
    return [r for r in recs if deno.merge_facts(r['facts'], r['facts']) is not None]


def preset(items):
    """[[path, value]]: path 'i->struct.field->...' of cells fixed before the
    analysis starts (#n for a plain offset); value an int, '@global' or '\"text'"""
    if not items:
        return None

    def go(eng, st, fn):
        from .terms import mk
        for path, val in items:
            steps = path.split('->')
            b = mk('S', fn.params[int(steps[0])][1])
            if len(steps) == 1:
                st.frames[-1].env[fn.params[int(steps[0])][1]] = val
                continue
            for n, s in enumerate(steps[1:]):
                if s.startswith('#'):
                    off = int(s[1:])
                else:
                    sn, fl = s.split('.')
                    off = eng.prog.offset(sn, fl)
                    idx = [i for i, x in enumerate(eng.prog.structs[sn]) if x[0] == fl][0]
                    eng.cellmeta[(b, off)] = (sn, idx)
                nb = None
                if n < len(steps) - 2 or isinstance(val, str) and val.startswith('"'):
                    nb = st.mem.get((b, off))
                    if nb is None:
                        nb = eng.lazy(st, b, off, ('ptr',))
                        st.mem[(b, off)] = nb
                if n < len(steps) - 2:
                    b = nb
                elif nb is not None:
                    st.mem[(nb, 'str')] = val[1:]
                    eng.assume(st, eng.cmp(st, 'ne', nb, 0, ('ptr',)), True)
                elif isinstance(val, str):
                    st.mem[(b, off)] = eng.globterm(fn, val[1:])
                else:
                    st.mem[(b, off)] = val
    return go


def summaries(prog, d):
    """effects of the opaque functions as recorded: {name: [mod, ref]} with
    classes 'mpz', '*' or 'struct.field', preceded by 'k:' when only what
    argument k points to is written"""
    out = {}

    def rooted(c):
        if ':' in c:
            k, c = c.split(':')
            c = cls(c)
            return None if c is None else (int(k), c)
        c = cls(c)
        return None if c is None else (None, c)

    def cls(c):
        if '.' not in c:
            return c
        sn, fl = c.rsplit('.', 1)
        for i, x in enumerate(prog.structs.get(sn, ())):
            if x[0] == fl:
                return (sn, i)
        return None
    for n, (m, r) in (d or {}).items():
        m, r = [rooted(c) for c in m], [rooted(c) for c in r]
        if None in m or None in r:
            continue
        out[n] = (frozenset(m), frozenset(r))
    return out


def summarise(prog, isl, used):
    if getattr(prog, '_modref', None) is None:
        prog._modref = deno.ModRef(prog, isl)
    mr = prog._modref

    def nm(c):
        return c if isinstance(c, str) else '%s.%s' % (c[0], prog.structs[c[0]][c[1]][0])

    def rn(w):
        return nm(w[1]) if w[0] is None else '%d:%s' % (w[0], nm(w[1]))
    return {n: [sorted(map(rn, mr.rmod.get(k, ()))), sorted(map(rn, mr.rref.get(k, ())))] for n, k in used}


def run(prog, isl, f, e, more=0, scale=1, used=None):
    recs, ok, eng = deno.outcomes(prog, isl, f, boundary=e.get('boundary', ()), max_iter=e['max_iter'] + more,
                                  max_paths=int(e.get('paths', 1500) * scale), max_steps=int(e.get('steps', 600000) * scale),
                                  presets=preset(e.get('presets')), slack=e.get('slack', 2), pin=e.get('pin'), summ=summaries(prog, e.get('summ')),
                                  inlimit=e.get('inlimit'))
    if used is not None:
        used |= eng.dom.opq
    return feasible(recs), ok


def relfile(file):
    for d in ('/source/', '/include/'):
        if d in file:
            return d[1:] + file.rsplit(d, 1)[1]
    return file


def gname(file):
    return file.replace('/', '_').replace('.c', '').replace('.h', '_h')


def groups():
    return sorted(x[:-8] for x in os.listdir(SPEC) if x.endswith('.json.gz')) if os.path.isdir(SPEC) else []


def rawload(group):
    with gzip.open(os.path.join(SPEC, group + '.json.gz'), 'rt') as fh:
        return json.load(fh)


def load(group):
    d = rawload(group)
    for e in d['entries']:
        for a in [e] + e['alts']:
            a['recs'] = feasible([deno.fromjson(r) for r in a['recs']])
    return d


def save(group, d):
    os.makedirs(SPEC, exist_ok=True)
    s = json.dumps(d, sort_keys=True)
    with open(os.path.join(SPEC, group + '.json.gz'), 'wb') as raw:
        with gzip.GzipFile(filename='', mode='wb', fileobj=raw, mtime=0) as fh:
            fh.write(s.encode())


def check_entry(prog, isl, e, flt=None):
    """(status, [(facts, difference)], outcomes, pairs, seconds); status ok /
    undecided:<why>.  The same function is required at several depths of
    entering its callees; a difference counts only if no depth shows the
    required behaviour."""
    st, bad, n, pairs, secs = check_config(prog, isl, e, e, flt)
    if st != 'ok' or bad:
        for a in e['alts']:
            st2, bad2, n2, p2, s2 = check_config(prog, isl, e, a, flt)
            secs += s2
            if st2 == 'ok':
                n, pairs = max(n, n2), max(pairs, p2)
                if not bad2 and not (st == 'ok' and a['max_iter'] < e['max_iter'] and late(prog, isl, e, a['max_iter'], flt)):
                    return 'ok', [], n, pairs, secs
                if st != 'ok':
                    st, bad = st2, bad2
    return st, bad, n, pairs, secs


def late(prog, isl, e, mi, flt):
    """does the difference show only after the iterations a table for mi
    iterations covers?"""
    f = find(prog, e['fn'], e['file'])
    code, ok = run(prog, isl, f, dict(e, max_iter=mi), scale=2)
    flt = flt or (lambda x: x)
    return ok and all(d == 'has no outcome' for _, d in deno.compare(flt(code), flt(e['recs']))[0])


def check_config(prog, isl, e, a, flt=None):
    flt = flt or (lambda x: x)
    t0 = time.time()
    f = find(prog, e['fn'], e['file'])
    if f is None:
        return 'undecided: no function of that name', [], 0, 0, 0
    if sig(f) != e['sig']:
        return 'undecided: signature changed', [], 0, 0, 0
    have = {g.name for g in prog.funcs.values()}
    gone = [b for b in a['needs'] if b not in have]
    if gone:
        return 'undecided: %s no longer exists' % gone[0], [], 0, 0, 0
    code, ok = run(prog, isl, f, a, scale=2)
    req = flt(a['recs'])
    if not ok:
        # a wrong outcome is wrong however many paths remain
        bad, pairs = deno.compare(flt(code), req, complete=False)
        return 'ok' if bad else 'undecided: too many paths', bad, len(code), pairs, time.time() - t0
    bad, pairs = deno.compare(flt(code), req)
    if any(d == 'has no outcome' for _, d in bad):
        # the loop bound may cut a path off that is written with one more iteration
        for more in (1, 2, 3):
            code2, ok2 = run(prog, isl, f, a, more=more, scale=4)
            bad2 = {x for x in deno.compare(flt(code2), req, complete=True)[0] if x[1] == 'has no outcome'} if ok2 else ()
            bad = [x for x in bad if x[1] != 'has no outcome' or x in bad2]
            if not ok2 or not bad2:
                break
    return 'ok', bad, len(code), pairs, time.time() - t0
