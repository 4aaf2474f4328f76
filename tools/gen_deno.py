"""gen_deno.py: derive the required outcome tables from /repo's tree (run by
hand, output committed and reviewed; no check runs this).
  gen_deno.py [name...]      all functions, or only the named ones (the other
                             tables are kept); writes spec/deno/*.json.gz"""
import json
import multiprocessing as mp
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import context, deno, denospec   # noqa: E402

LIGHT, MID = 4, 24
ctx = context.Context('quick')
prog, isl = ctx.prog, ctx.isl
HAVE = {g.name for g in prog.funcs.values()}

# functions whose shape is pinned: (case, presets, pins[, further options])
CASES = {
    'insert_modulo_guard_constraint': [
        ('2 iterators, level 2', [['1->clast_modulo_guard_data.level', 2],
         ['1->clast_modulo_guard_data.infos->clooginfos.names->cloognames.nb_parameters', 0],
         ['1->clast_modulo_guard_data.infos->clooginfos.stride_level', 1]], {'cloog_constraint_total_dimension': 2}),
        ('2 iterators, 1 parameter, level 1', [['1->clast_modulo_guard_data.level', 1],
         ['1->clast_modulo_guard_data.infos->clooginfos.names->cloognames.nb_parameters', 1],
         ['1->clast_modulo_guard_data.infos->clooginfos.stride_level', 0]], {'cloog_constraint_total_dimension': 3}),
    ],
    # (lines, last character looked at in a line) bound on what is read
    'cloog_names_read_strings': [(None, None, None), ('2 lines', None, None, dict(inlimit=[2, 1]))],
    'cloog_options_read': [
        (None, None, None),
        ('flag, file', [['1', 3], ['2->#16', '"in.cloog']], None, dict(paths=3000)),
        ('option, 7, file', [['1', 4], ['2->#16', '"7'], ['2->#24', '"in.cloog']], None, dict(paths=3000)),
        ('file, flag', [['1', 3], ['2->#8', '"in.cloog']], None, dict(paths=3000)),
        ('file, option, 7', [['1', 4], ['2->#8', '"in.cloog'], ['2->#24', '"7']], None, dict(paths=3000)),
        ('-f, 2, option, 7, file', [['1', 6], ['2->#8', '"-f'], ['2->#16', '"2'], ['2->#32', '"7'], ['2->#40', '"in.cloog']], None, dict(paths=3000)),
    ],
    'cloog_scattering_list_read': [(None, None, None), ('2 lines', None, None, dict(inlimit=[2, 1]))],
}
OPTS = {
    'cloog_loop_separate': dict(slack=1),
    'cloog_names_read_strings': dict(paths=6000), 'clast_filter': dict(paths=6000),
    'cloog_program_alloc': dict(paths=4000), 'pprint_for': dict(paths=4000),
}


def weigh(k):
    f = prog.funcs[k]
    try:
        recs, ok, eng = deno.outcomes(prog, isl, f, max_iter=2, max_paths=80, max_steps=30000)
        recs = denospec.feasible(recs)
        n = len(recs) if ok else 10 ** 6
        if ok and n <= MID and deno.compare(recs, recs)[0]:
            n = 10 ** 6
        if any('callobj' in repr(r['calls']) for r in recs):
            n = max(n, MID + 1)
        return f.name, n or 10 ** 6
    except Exception as ex:
        return f.name, 10 ** 6


def attempt(f, boundary, mi, presets=None, pin=None, paths=900, slack=2, big=50000000, maxt=15, inlimit=None):
    b = set(boundary) - {f.name}
    if pin:
        b |= set(pin)
    e = dict(boundary=sorted(b), max_iter=mi, presets=presets, pin=pin, paths=paths, slack=slack,
             steps=400000 * max(1, paths // 900))
    if inlimit:
        e['inlimit'] = inlimit
    used = set()
    t = time.time()
    try:
        recs, ok = denospec.run(prog, isl, f, e, used=used)
        if not ok:
            return None, 'explodes'
        if not recs:
            return None, 'empty'
        if len(repr(recs)) > big:
            return None, 'huge'
        if time.time() - t > maxt:
            return None, 'slow'
        # once more with only the functions that were met opaque
        e['boundary'] = sorted({n for n, k in used} - {f.name})
        e['summ'] = denospec.summarise(prog, isl, used)
        recs2, ok = denospec.run(prog, isl, f, e)
        bad, _ = deno.compare(recs2, recs)
        if bad or not ok:
            return None, 'selfdiff %d: %s' % (len(bad), str(bad[:1])[:1000])
    except Exception as ex:
        return None, 'exception %r' % ex
    if time.time() - t > 2.5 * maxt:
        return None, 'slow compare'
    e.update(needs=sorted(n for n, k in used if n in HAVE), recs=[deno.tojson(r) for r in recs],
             secs=round(time.time() - t, 1))
    return e, 'ok'


def one(a):
    k, heavy, mid, alln, case = a
    f = prog.funcs[k]
    log = []
    o = dict(OPTS.get(f.name, {}))
    cn, ps, pin = (case or (None, None, None))[:3]
    if case and len(case) > 3:
        o.update(case[3])
    out = None
    small = dict(paths=100, big=300000, maxt=1.5)
    fair = dict(paths=700, big=3000000, maxt=5)
    for b, mi, nm, lim in ((heavy, 5, 'heavy5', small), (heavy, 4, 'heavy4', small), (heavy, 3, 'heavy3', fair), (heavy, 2, 'heavy2', {}),
                           (alln, 3, 'all3', fair), (alln, 2, 'all2', {}), (heavy, 1, 'heavy1', {}), (alln, 1, 'all1', {})):
        e, why = attempt(f, b, mi, ps, pin, **dict(o, **lim))
        if e:
            out = e
            break
        log.append((nm, why))
    if not out:
        return f.name, None, None, log
    e['mode'] = nm
    alts = []
    seen = [tuple(e['needs'])]
    for b, nm2 in ((mid, 'mid'), ((), 'none')):
        if not nm.startswith('heavy') or nm == 'heavy1' or not e['needs']:
            break
        for mi in (4, 3, 2):
            a, why = attempt(f, b, mi, ps, pin, paths=400, big=2000000, maxt=6 if mi == 2 else 2) if mi <= e['max_iter'] else (None, '')
            if a:
                break
        if a and tuple(a['needs']) not in seen:
            seen.append(tuple(a['needs']))
            a['mode'] = nm2
            alts.append(a)
    e.update(fn=f.name, case=cn, file=denospec.relfile(f.file), sig=denospec.sig(f), internal=f.internal, alts=alts)
    return f.name, nm, e, log


if __name__ == '__main__':
    fs = sorted(prog.funcs.values(), key=lambda f: (f.file, f.line))
    ks = [f.key for f in fs]
    sel = sys.argv[1:]
    old = {}
    if sel:
        for g in denospec.groups():
            for e in denospec.rawload(g)['entries']:
                old[(e['file'], e['fn'], e['case'])] = e
    with mp.Pool(8, maxtasksperchild=20) as p:
        w = dict(p.map(weigh, ks))
        heavy = sorted(n for n, k in w.items() if k > LIGHT)
        mid = sorted(n for n, k in w.items() if k > MID)
        alln = sorted(w)
        print('light', len(w) - len(heavy), 'heavy', len(heavy), 'mid', len(mid))
        ent = {}
        jobs = [(f.key, heavy, mid, alln, c) for f in fs if not sel or f.name in sel for c in CASES.get(f.name, [None])]
        for nm, mode, e, log in p.imap(one, jobs, chunksize=1):
            print('%-42s %-7s %-5s %s %s' % (nm, mode, len(e['recs']) if e else '', ' '.join('%s:%d' % (a['mode'], len(a['recs'])) for a in e['alts']) if e else '',
                  '; '.join('%s %s' % l for l in log)[:700]), flush=True)
            if e:
                ent[(e['file'], e['fn'], e['case'])] = e
    old.update(ent)
    by = {}
    for (file, fn, c), e in sorted(old.items(), key=lambda x: (x[0][0], x[0][1], x[0][2] or '')):
        by.setdefault(denospec.gname(file), []).append(e)
    for g, es in by.items():
        denospec.save(g, dict(entries=es))
    ctx.close()
