"""Properties decided by comparing what the functions of a part of the system
compute (guarded outcomes, sa/deno.py) with the required outcome tables
(spec/deno)."""
import json
import multiprocessing as mp
import os
import re
import time
from sa import deno, denospec
from sa.context import Result

HERE = os.path.dirname(os.path.abspath(__file__))
GROUPS = os.path.join(HERE, 'groups.json')
RULE = ('every guarded outcome of the function agrees with every required outcome whose conditions can hold together with it, '
        'and every required outcome is produced by some path')
_G = {}


def select(g):
    """entries of the functions named by a group"""
    want = set(g['functions'])
    out = []
    files = {denospec.gname(w.split(':')[0]) for w in want if ':' in w}
    for n in denospec.groups():
        if n not in files:
            continue
        for e in denospec.rawload(n)['entries']:
            if e['file'] + ':' + e['fn'] in want:
                out.append(e)
    return out


def strip_counters(recs):
    """forget the leak counters: they have a property of their own"""
    pat = re.compile(r'cloogstate\.\w+_(allocated|freed|max)$')
    for r in recs:
        r['fx'] = [(k, v) for k, v in r['fx']
                   if not (isinstance(k, tuple) and isinstance(k[-1], str) and pat.match(k[-1]))]
    return recs


def only_counters(recs):
    pat = re.compile(r'cloogstate\.\w+_(allocated|freed|max)$')
    for r in recs:
        r['fx'] = [(k, v) for k, v in r['fx']
                   if isinstance(k, tuple) and isinstance(k[-1], str) and pat.match(k[-1])]
        r['ret'], r['out'], r['calls'], r['deps'] = None, [], (), None
    return recs


def work(i):
    e = _G['entries'][i]
    try:
        for a in [e] + e['alts']:
            a['recs'] = denospec.feasible([deno.fromjson(r) for r in a['recs']])
        f = denospec.find(_G['prog'], e['fn'], e['file'])
        line = f.line if f else 0
        return (i, line) + denospec.check_entry(_G['prog'], _G['isl'], e, _G['filter'])
    except Exception as ex:         # an internal failure is no verdict about the code
        return i, 0, 'undecided: %s %s' % (type(ex).__name__, ex), [], 0, 0, 0


def check(ctx):
    pid = ctx.pid
    if pid == 'ALL':        # everything, for development
        g = dict(functions=[e['file'] + ':' + e['fn'] for n in denospec.groups() for e in denospec.rawload(n)['entries']])
    else:
        g = json.load(open(GROUPS))[pid]
    es = select(g)
    prog, isl = ctx.prog, ctx.isl
    prog._modref = deno.ModRef(prog, isl)
    es.sort(key=lambda e: -e['secs'])
    flt = {'only': only_counters, 'strip': strip_counters, 'keep': list}[g.get('counters', 'strip')]
    _G.update(entries=es, prog=prog, isl=isl, filter=flt)
    res = Result(rule=RULE, floor=1,
                 explanation='Each function of this part is interpreted abstractly over all its paths (loops unfolded up to the '
                             'stated bound); values are terms in normal form over the function\'s inputs and the operations of '
                             'isl, GMP and the C library.  Each path gives a guarded outcome (result, changed cells, text '
                             'written, opaque calls); the outcomes are compared with the required table.',
                 assumptions=['loops are unfolded up to the stated bound', 'isl, GMP and libc calls behave as modelled in sa/deno.py',
                              'calls of functions listed as opaque are compared by name and arguments; they have tables of their own',
                              'allocation succeeds'])
    rows, und, npairs, nout = [], [], 0, 0
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 2)) as p:
        for i, line, st, bad, n, pairs, secs in p.imap_unordered(work, range(len(es)), chunksize=1):
            e = es[i]
            nm = e['fn'] + (' (%s)' % e['case'] if e['case'] else '')
            if st != 'ok':
                und.append('%s: %s' % (nm, st))
                continue
            res.ok('%s:%s: %d outcomes, %d compared pairs, loops <= %d' % (e['file'], nm, n, pairs, e['max_iter']))
            npairs += pairs
            nout += n
            rows.append((e['file'], nm, n, pairs))
            for facts, d in bad[:3]:
                res.bad('%s:%d: %s' % (e['file'], line, e['fn']), 'required outcome',
                        ('when %s: ' % facts[:600] if facts else '') + d[:900],
                        key='%s|%s|%s' % (e['fn'], facts[:80].replace(' ', '_'), d[:80].replace(' ', '_')))
    rows.sort()
    res.extra = dict(functions=['%s:%s (%d outcomes)' % r[:3] for r in rows], outcomes=nout, pairs=npairs, undecided=sorted(und))
    return res
