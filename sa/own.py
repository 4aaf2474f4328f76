"""Ownership (typestate) analysis: every allocated object and every isl object
carries a number of ownership units; units are created by allocation, copy and
`give`, spent by release, `take` and being stored in an owning field, and must
balance on every path."""
from .engine import PathEnd, Engine, is_bool, relpath, INF
from .models import Models
from .terms import Term, mk, add, split, mkptr, show
from . import ir

OWNING = {
    'cloogloop': ['domain', 'unsimplified', 'stride', 'block', 'inner', 'next'],
    'cloogblock': ['statement', 'scaldims'],
    'cloogstatement': ['name', 'next'],
    'cloogdomainlist': ['domain', 'next'],
    'cloogscatteringlist': ['scatt', 'next'],
    'cloogblocklist': ['block', 'next'],
    'clooginput': ['context', 'ud'],
    'cloogprogram': ['context', 'loop', 'names', 'scaldims', 'blocklist'],
    'cloognames': ['scalars', 'scattering', 'iterators', 'parameters'],
    'cloogstride': ['constraint'],
    'clooguniondomain': ['domain'],
    'cloognameddomainlist': ['domain', 'name', 'scattering', 'next'],
    'clast_term': ['var'],
    'clast_binary': ['LHS'],
    'clast_reduction': [],
    'clast_stmt': ['next'],
    'clast_root': ['names'],
    'clast_assignment': ['RHS'],
    'clast_block': ['body'],
    'clast_user_stmt': ['domain', 'substitutions'],
    'clast_for': ['domain', 'LB', 'UB', 'body', 'private_vars', 'reduction_vars', 'time_var_name'],
    'clast_equation': ['LHS', 'RHS'],
    'clast_guard': ['then'],
    'cloogequalities': ['constraints', 'types'],
    'cloogmatrix': ['p', 'p_Init'],
    'cloog_vec': ['p'],
    'cloogoptions': ['ls', 'fs'],
}

# elements of arrays that a destructor must release as well:
# structure -> (field, size of an element, offset inside the element, depth)
# depth 0: the array lies in the structure; 1: the field points to it;
# 2: the field is an array of pointers to arrays
ELEMENTS = {
    'clooguniondomain': [('name', 8, 0, 0), ('name', 8, 0, 2)],
    'cloognames': [(f, 8, 0, 1) for f in ('scalars', 'scattering', 'iterators', 'parameters')],
    'cloogequalities': [('constraints', 8, 0, 1)],
    'cloogmatrix': [('p_Init', 16, 0, 1)],
    'cloog_vec': [('p', 16, 0, 1)],
    'clast_reduction': [('elts', 8, 0, 0)],
    'clast_guard': [('eq', 24, 0, 0), ('eq', 24, 8, 0)],
    'cloogblock': [('scaldims', 16, 0, 1)],
}


class Aux:
    __slots__ = ('u', 'st', 'mpz', 'owncell', 'written', 'loaded', 'why', 'captured', 'refs')

    def __init__(self):
        self.u, self.st, self.mpz, self.owncell = {}, {}, {}, {}
        self.written, self.loaded, self.why, self.captured = set(), {}, {}, set()
        self.refs = {}

    def copy(self):
        a = Aux()
        a.u, a.st, a.mpz, a.owncell = dict(self.u), dict(self.st), dict(self.mpz), dict(self.owncell)
        a.written, a.loaded, a.why = set(self.written), dict(self.loaded), dict(self.why)
        a.captured = set(self.captured)
        a.refs = dict(self.refs)
        return a


class Outcome:
    __slots__ = ('params', 'ret', 'facts', 'written', 'key', 'retnull', 'outs')

    def __repr__(self):
        return '(%s -> %s w%s%s)' % (','.join(self.params), self.ret, sorted(self.written), ' out%s' % self.outs if self.outs else '')


def param_only(t):
    if not isinstance(t, Term):
        return True
    if t.op == 'S':
        return True
    if t.op in ('F', 'lin', 'ptr'):
        return False
    return False


class Own(Models):
    def __init__(self, prog, summaries=None, inline=None):
        self.prog = prog
        self.summ = summaries if summaries is not None else {}
        self.inline = inline or (lambda fn: True)
        self.viol = {}
        self.mode = 'infer'
        self.strict = False
        self.loopheld = set()
        self.missing = set()
        self.released = set()
        self.relby = {}

    def new_aux(self):
        return Aux()

    # ------------------------------------------------------------ merging
    def default_cell(self, st, k, v):
        a = st.aux
        if k in a.owncell:
            return a.u.get(v) == 1 and v not in a.st
        return True

    def aux_key(self, st, c, num):
        a = st.aux
        eng = self.eng
        out = []
        for t in set(a.u) | set(a.st):
            u, s = a.u.get(t), a.st.get(t)
            if t in self.rootset:
                continue
            if t not in num and not u:
                continue
            if t.op == 'F' and u == 1 and s is None and st.mem.get((t.args[0], t.args[1])) is t and (t.args[0], t.args[1]) in a.owncell:
                continue
            nl = eng.is_null(st, t) if u else None
            if nl == 1:
                if t not in num:
                    continue
            out.append((t.id if t.op not in ('H', 'R', 'A') else 0, t, u, s, nl))
        named = sorted(((repr(c(t)), u, s, nl) for _, t, u, s, nl in sorted(out, key=lambda x: x[1].id)), key=repr)
        mp = sorted(((repr(c(k[0])), repr(k[1]), v) for k, v in a.mpz.items() if k[0] in num or v == 'init'), key=repr)
        oc = sorted((repr(c(k[0])), repr(k[1])) for k in a.owncell if k[0] in num and not self.lazy_cell(st, k))
        ps = tuple((a.u.get(t), a.st.get(t), eng.is_null(st, t) if self.root.params[i][0][0] == 'ptr' else 0)
                   for i, t in enumerate(self.rootvals))
        return (tuple(named), tuple(mp), tuple(oc), ps)

    def forget_cell(self, st, k):
        f = self.eng.cellmeta.get(k)
        if not f:
            return False
        fl = self.prog.structs.get(f[0])
        if not fl or f[1] >= len(fl):
            return False
        return '*' not in fl[f[1]][2] and fl[f[1]][0] != 'references' and 'mpz' not in fl[f[1]][2]

    # objects reached only through memory and in good order are folded away
    def before_park(self, st):
        a = st.aux
        eng = self.eng
        held = set()
        for f in st.frames:
            for r in eng.live_regs(f):
                v = f.env.get(r)
                if isinstance(v, Term):
                    self.bases(v, held)
        idx, refs = {}, {}
        for k, v in st.mem.items():
            if len(k) != 2 or not isinstance(k[0], Term):
                continue
            idx.setdefault(k[0], []).append(k)
            if isinstance(v, Term):
                b, _ = split(v)
                refs[b] = refs.get(b, 0) + 1
                if k[0].op in ('A', 'G') or (k[0].op == 'S' and k not in a.owncell):
                    self.bases(v, held)
        for t in [t for t in a.u if t not in refs and eng.is_null(st, t) == 1]:
            del a.u[t]
        done = set()

        def packable(v, depth=0):
            if v in held or v.op not in ('H', 'R', 'F') or a.st.get(v) is not None:
                return False
            if a.u.get(v) != 1 or refs.get(v, 0) != 1 or depth > 6:
                return False
            if v in st.copies:
                return False
            ks = idx.get(v, ())
            if v.op == 'H' and v not in st.wild and v not in st.zero:
                have = {k[1] for k in ks}
                for sn in st.btype.get(v, ()):
                    for f in OWNING.get(sn, ()):
                        if self.prog.offset(sn, f) not in have:
                            return False
            for k, s in a.mpz.items():
                if k[0] is v and s != 'init':
                    return False
            for k in ks:
                x = st.mem.get(k, 0)
                if not isinstance(x, Term) or isinstance(k[1], str):
                    continue
                b, _ = split(x)
                if b.op in ('A',):
                    return False
                if eng.is_null(st, b) == 1:
                    continue
                if k in a.owncell:
                    if b.op == 'S':
                        if a.u.get(b) is None and a.st.get(b) is None:
                            continue
                        return False
                    if not packable(b, depth + 1):
                        return False
                elif a.u.get(b, 0) > 0 and b.op in ('H', 'R'):
                    if not packable(b, depth + 1):
                        return False
            return True

        dead = set()

        def pack(v, keep):
            for k in idx.get(v, ()):
                x = st.mem.pop(k, 0)
                own = a.owncell.pop(k, None)
                if not isinstance(x, Term) or isinstance(k[1], str):
                    continue
                b, _ = split(x)
                if b.op == 'S' and own:
                    if eng.is_null(st, b) != 1:
                        a.st[b] = 'moved'
                elif b.op in ('H', 'R', 'F') and b not in held and a.u.get(b) == 1 and eng.is_null(st, b) != 1 and refs.get(b) == 1:
                    a.u.pop(b)
                    dead.add(b)
                    pack(b, False)
            for k in [k for k in a.mpz if k[0] is v]:
                del a.mpz[k]
            for k in [k for k in st.mem if k[0] is v]:
                del st.mem[k]
            if v.op == 'H':
                st.wild.add(v)
                st.zero.discard(v)
            dead.add(('in', v))
            st.wild.discard(v) if not keep else None

        for k in list(a.owncell):
            v = st.mem.get(k)
            if not isinstance(v, Term) or k not in a.owncell:
                continue
            b, _ = split(v)
            if b in done or eng.is_null(st, b) == 1:
                continue
            done.add(b)
            if not idx.get(b):
                continue
            if all(self.lazy_cell(st, kk) for kk in idx[b]) and b.op != 'H':
                continue
            if packable(b):
                pack(b, True)
        # forget what was known about objects that are gone
        if dead:
            gone = {d for d in dead if isinstance(d, Term)}
            inside = {d[1] for d in dead if isinstance(d, tuple)} | gone
            def derived(t):
                while isinstance(t, Term) and t.op in ('F', 'V', 'ptr'):
                    t = t.args[0]
                    if t in inside:
                        return True
                return t in gone
            for t in [t for t in a.u if derived(t) and t not in held]:
                a.u.pop(t)
                a.st.pop(t, None)
            for t in [t for t in st.facts if derived(t) and t not in held]:
                st.facts.pop(t)

    def bases(self, v, out):
        while True:
            if v.op == 'ptr':
                v = v.args[0]
            elif v.op == 'F':
                out.add(v)
                v = v.args[0]
            elif v.op in ('lin', 'M', 'op', 'eq', 'le', 'not', 'peq', 'pcmp', 'bool', 'sel', 'V', 'sz', 'mcmp', 'strlen', 'mtest'):
                for x in v.args:
                    self.deepbases(x, out)
                return
            else:
                out.add(v)
                return

    def deepbases(self, x, out):
        if isinstance(x, Term):
            self.bases(x, out)
        elif isinstance(x, tuple):
            for y in x:
                self.deepbases(y, out)

    def lazy_cell(self, st, k):
        v = st.mem.get(k)
        return isinstance(v, Term) and v.op == 'F' and v.args[0] is k[0] and v.args[1] == k[1]

    def aux_merge(self, s1, s2):
        s1.aux.written |= s2.aux.written

    def on_return(self, st, fr, ins):
        if fr.allocas:
            al = set(fr.allocas)
            a = st.aux
            for k in [k for k in a.mpz if k[0] in al]:
                if a.mpz[k] == 'init':
                    self.report(st, ins, 'mpzleak', 'local integer is not cleared on this path')
                del a.mpz[k]

    # ------------------------------------------------------------ reports
    def loopish(self, st, t):
        """the object is a node of the loop tree or hangs off one: its owner is
        decided by the shape of linked lists, which is not tracked"""
        if t in self.loopheld:
            return True
        while isinstance(t, Term):
            if 'cloogloop' in st.btype.get(t, ()):
                return True
            if t.op == 'R' and self.ret_type(t) == 'struct cloogloop *':
                return True
            if t.op == 'F':
                f = self.eng.field_of(t.args[0], t.args[1])
                if f and f[0] == 'cloogloop':
                    return True
                if f is None and self.argtype(t.args[0]) == 'struct cloogloop * *':
                    return True
                t = t.args[0]
            elif t.op == 'S':
                return self.argtype(t) in ('struct cloogloop *', 'struct cloogloop * *')
            elif t.op == 'ptr':
                t = t.args[0]
            else:
                return False
        return False

    def argtype(self, t):
        for (ty, n), d, v in zip(self.root.params, self.root.ditype[1:] if self.root.ditype else (), self.rootvals):
            if v is t:
                return d
        return None

    def ret_type(self, t):
        f = self.byname().get(t.args[0])
        return f.ditype[0] if f and f.ditype else None

    _byname = None

    def byname(self):
        if self._byname is None:
            self._byname = {f.name: f for f in self.prog.funcs.values()}
        return self._byname

    def exempt(self, st, t, kind):
        if self.strict:
            return False
        if kind == 'leak' and t.op == 'F' and t.args[0] in self.rootset and self.destructor_of('cloogloop'):
            return False
        if self.loopish(st, t):
            return True
        # the number of entries of a scattering list is a run-time value
        if t.op == 'F':
            f = self.eng.field_of(t.args[0], t.args[1])
            if f and f[0] == 'cloogscatteringlist' and not self.destructor_of(f[0]):
                return True
        if t.op == 'R' and self.ret_type(t) == 'struct cloogscatteringlist *':
            return True
        return False

    def report(self, st, ins, kind, msg):
        w = self.eng.where(st, ins) if ins is not None else '%s in %s' % (relpath(self.root.file), self.root.name)
        k = (kind, w.split(' (via')[0], msg)
        if k not in self.viol:
            self.viol[k] = (w, msg)

    # ------------------------------------------------------------ units
    def give(self, st, ins, tok, name):
        a = st.aux
        a.u[tok] = a.u.get(tok, 0) + 1
        a.why[tok] = ('%s() at %s' % (name, self.eng.where(st, ins)), ins)

    def describe(self, st, tok):
        w = st.aux.why.get(tok)
        if w:
            return 'object from ' + w[0]
        if isinstance(tok, Term) and tok.op == 'F':
            f = self.eng.field_of(tok.args[0], tok.args[1])
            if f:
                return 'field %s.%s' % f
        return show(tok)

    def consume(self, st, ins, p, name, deep=True, how='freed'):
        if not isinstance(p, Term):
            return
        eng = self.eng
        if eng.is_null(st, p) == 1:
            return
        b, off = split(p)
        a = st.aux
        if b.op in ('A', 'G', 'fn'):
            self.report(st, ins, 'badfree', '%s() releases storage that is not on the heap' % name)
            return
        s = a.st.get(b)
        u = a.u.get(b)
        self.released.add(b)
        if s in ('freed', 'moved'):
            self.report(st, ins, 'double', '%s() releases %s, already %s' % (
                name, self.describe(st, b), 'released' if s == 'freed' else 'handed over'))
            return
        if s == 'borrowed' and not u:
            self.report(st, ins, 'borrow', '%s() releases %s, which is only borrowed' % (name, self.describe(st, b)))
            return
        if u is not None and u >= 2:
            a.u[b] = u - 1
            return
        a.u[b] = 0
        a.st[b] = how
        if deep:
            self.consume_contents(st, ins, b, name, how)
        if how == 'freed':
            for k in [k for k in st.mem if k[0] is b]:
                del st.mem[k]
                a.owncell.pop(k, None)

    def consume_contents(self, st, ins, b, name, how):
        a = st.aux
        for k in [k for k in st.mem if k[0] is b and k not in a.owncell and len(k) == 2]:
            v = st.mem[k]           # elements of pointer arrays
            if isinstance(v, Term) and v.op in ('H', 'R', 'F', 'ptr') and a.u.get(split(v)[0], 0) == 1 \
                    and self.element(st, k):
                self.consume(st, ins, split(v)[0], name, True, how)
        for k in [k for k in a.owncell if k[0] is b]:
            v = st.mem.get(k)
            del a.owncell[k]
            if isinstance(v, Term):
                vb, _ = split(v)
                if self.eng.is_null(st, vb) == 1 or vb.op in ('A', 'G', 'fn'):
                    continue
                if a.st.get(vb) == 'freed' and a.u.get(vb, 0) == 0:
                    self.report(st, ins, 'dangling', '%s() releases an object whose %s was already released' % (
                        name, self.fieldname(k)))
                    continue
                if a.st.get(vb) == 'moved' or a.u.get(vb) == 0:
                    continue
                self.consume(st, ins, vb, name, True, how)

    def element(self, st, k):
        """the cell lies in the pointer array of a structure (or in a plain array)"""
        if not isinstance(k[1], int):
            return True
        f = self.eng.field_of(*k)
        if f is None:
            return True
        for x in self.prog.structs.get(f[0], ()):
            if x[0] == f[1]:
                return '[' in x[2]
        return False

    def fieldname(self, k):
        f = self.eng.field_of(*k)
        return 'field %s.%s' % f if f else 'element'

    def use(self, st, ins, p, name):
        if isinstance(p, Term):
            b, _ = split(p)
            if st.aux.st.get(b) == 'freed':
                self.report(st, ins, 'uaf', '%s() uses %s after its release' % (name, self.describe(st, b)))

    def on_deref(self, st, ins, b, off, what):
        if st.aux.st.get(b) == 'freed':
            self.report(st, ins, 'uaf', '%s through %s after its release' % (what, self.describe(st, b)))

    def raw_free(self, st, ins, p):
        eng = self.eng
        if not isinstance(p, Term) or eng.is_null(st, p) == 1:
            return
        b, off = split(p)
        if not (isinstance(off, int) and off == 0):
            self.report(st, ins, 'badfree', 'free() of an interior pointer')
            return
        a = st.aux
        if a.u.get(b, 0) < 2 and a.st.get(b) not in ('freed', 'moved', 'borrowed'):
            self.release_contents(st, ins, b)
        self.consume(st, ins, p, 'free', deep=False)

    def structs_of(self, st, b):
        return st.btype.get(b, ())

    def release_contents(self, st, ins, b):
        """the container goes away: what its owning fields hold is now owned
        by the running activation"""
        a = st.aux
        eng = self.eng
        if b.op not in ('H',) or b in st.wild:
            for sn in self.structs_of(st, b):
                for f in OWNING.get(sn, ()) if self.destructor_of(sn) else ():
                    off = self.prog.offset(sn, f)
                    if off is None:
                        continue
                    k = (b, off)
                    if k not in st.mem:
                        v = mk('F', b, off, st.epoch.get(b, 0))
                        st.mem[k] = v
                        idx = [i for i, x in enumerate(self.prog.structs[sn]) if x[0] == f][0]
                        eng.cellmeta[k] = (sn, idx)
                        a.owncell[k] = True
                        if v not in a.u:
                            a.u[v] = 1
        # integers inside
        for sn in self.structs_of(st, b):
            for (f, off) in self.mpz_fields(sn):
                s = a.mpz.get((b, off))
                if s == 'init' or (s is None and (b.op != 'H' or b in st.wild)):
                    self.report(st, ins, 'mpzleak', 'free() of a %s whose integer field %s is not cleared' % (sn, f))
                a.mpz.pop((b, off), None)
        for k in [k for k in a.mpz if k[0] is b and a.mpz[k] == 'init']:
            self.report(st, ins, 'mpzleak', 'free() of storage that holds an integer which is not cleared')
            del a.mpz[k]
        for k in [k for k in a.owncell if k[0] is b]:
            del a.owncell[k]

    def destructor_of(self, sn):
        """the analysed function is a destructor of that type: it takes one
        object of the type and returns nothing"""
        r = self.root
        if not r.ditype or len(r.ditype) != 2 or r.ret[0] != 'void':
            return False
        if sn == 'clast_stmt' and r.key in self.slots():
            return False          # a destructor slot leaves the successor alone
        return r.ditype[1] == 'struct %s *' % sn

    _slots = None

    def slots(self):
        if self._slots is None:
            self._slots = self.prog.taken_in_globals()
        return self._slots

    _mpzf = None

    def mpz_fields(self, sn):
        if self._mpzf is None:
            self._mpzf = {}
        r = self._mpzf.get(sn)
        if r is None:
            r = [(f[0], f[1]) for f in self.prog.structs.get(sn, ()) if f[2] in ('cloog_int_t', 'mpz_t') or ('mpz' in f[2] and '*' not in f[2])]
            self._mpzf[sn] = r
        return r

    # ------------------------------------------------------------ integers
    def mpz_init(self, st, ins, p):
        b, off = split(p)
        if st.aux.mpz.get((b, off)) == 'init':
            self.report(st, ins, 'mpzleak', 'integer initialised twice without being cleared')
        st.aux.mpz[(b, off)] = 'init'

    def mpz_clear(self, st, ins, p):
        b, off = split(p)
        k = (b, off)
        s = st.aux.mpz.get(k)
        if s == 'clear':
            self.report(st, ins, 'mpzuse', 'integer cleared twice')
        elif s is None and self.fresh_store(st, b):
            self.report(st, ins, 'mpzuse', 'integer cleared before being initialised')
        st.aux.mpz[k] = 'clear'
        self.released.add(mk('F', b, off, 0))
        self.on_deref(st, ins, b, off, 'mpz_clear')

    def fresh_store(self, st, b):
        return isinstance(b, Term) and b.op in ('A', 'H') and b not in st.wild and b not in st.copies

    def mpz_use(self, st, ins, p):
        b, off = split(p)
        k = (b, off)
        s = st.aux.mpz.get(k)
        if s == 'clear':
            self.report(st, ins, 'mpzuse', 'integer used after being cleared')
        elif s is None and isinstance(off, int) and self.fresh_store(st, b):
            self.report(st, ins, 'mpzuse', 'integer used before being initialised')
        if isinstance(b, Term):
            self.on_deref(st, ins, b, off, 'integer access')

    # ------------------------------------------------------------ memory
    def owning(self, st, base, off):
        f = self.eng.field_of(base, off)
        return f is not None and f[1] in OWNING.get(f[0], ())

    def on_lazy(self, st, base, off, v, ty, ins):
        a = st.aux
        if ty[0] != 'ptr':
            return
        if self.owning(st, base, off) and not (isinstance(base, Term) and base.op == 'G'):
            a.owncell[(base, off)] = True
            if v not in a.u:
                a.u[v] = 1

    def on_store(self, st, ins, base, off, val, ty):
        a = st.aux
        f = self.eng.field_of(base, off) if isinstance(base, Term) else None
        if isinstance(base, Term) and base.op in ('S', 'F', 'R'):
            a.written.add((base, f or ('', '')))
        if f and f[1] == 'references' and isinstance(base, Term) and isinstance(val, Term):
            old = st.mem.get((base, off))
            if old is not None:
                a.refs.setdefault(base, old)
                d = add(val, -old if isinstance(old, int) else mk_neg(old))
                if d == 1:
                    a.u[base] = a.u.get(base, 0) + 1
                    if a.st.get(base) == 'borrowed':
                        pass
                elif d == -1:
                    self.consume(st, ins, base, 'reference drop', deep=False, how='dropped')
        if ty[0] == 'ptr' and self.owning(st, base, off):
            a.owncell[(base, off)] = True
            if f[0] == 'cloogloop' and isinstance(val, Term):
                self.loopheld.add(split(val)[0])
        elif (base, off) in a.owncell and not self.owning(st, base, off):
            del a.owncell[(base, off)]

    # ------------------------------------------------------------ internal calls
    def internal_call(self, st, ins, name, fn, args):
        c = self.special(fn)
        if c is not None:
            return c(st, ins, fn, args)
        if self.inline(fn) and not any(f.fn is fn for f in st.frames):
            return NotImplemented
        return self.apply(st, ins, fn, args)

    def special(self, fn):
        n = fn.name
        if n in ('cloog_die', ):
            return self.s_die
        return None

    def s_die(self, st, ins, fn, args):
        raise PathEnd('exit')

    def indirect_call(self, st, ins, target, args):
        # the only call through a pointer held in a structure: the destructor
        # slot of an AST node; it releases the node and what it owns, not its
        # successor
        f = None
        if isinstance(target, Term) and target.op == 'F':
            f = self.eng.field_of(target.args[0], target.args[1])
        if f and f[0] == 'clast_stmt_op' and args and isinstance(args[0], Term):
            b, _ = split(args[0])
            off = self.prog.offset('clast_stmt', 'next')
            st.aux.owncell.pop((b, off), None)
            self.consume(st, ins, args[0], 'destructor slot', True, 'freed')
            return None
        self.eng.setres(st, ins, self.eng.fresh(st, 'R', 'indirect', ins))
        return None

    def apply(self, st, ins, fn, args):
        outs = self.summ.get(fn.key)
        if outs == 'opaque':
            return self.apply_opaque(st, ins, fn, args)
        if outs is None:
            self.missing.add(fn.key)
            raise PathEnd('infeasible')
        eng = self.eng
        res = []
        for o in outs:
            s2 = st.copy()
            if not self.apply_one(s2, ins, fn, args, o):
                continue
            eng.advance(s2)
            res.append(s2)
        if not res:
            raise PathEnd('infeasible')
        return res

    def apply_opaque(self, st, ins, fn, args):
        """a callee that was too large to analyse: nothing is known about what
        it does with its arguments, so nothing is held against the caller"""
        eng, a = self.eng, st.aux
        seen, stack = set(), [split(v)[0] for v in args if isinstance(v, Term)]
        while stack:
            b = stack.pop()
            if b in seen or not isinstance(b, Term) or b.op in ('G', 'fn'):
                continue
            seen.add(b)
            for k in [k for k in st.mem if k[0] is b]:
                v = st.mem.pop(k)
                a.owncell.pop(k, None)
                if isinstance(v, Term):
                    stack.append(split(v)[0])
            st.epoch[b] = st.epoch.get(b, 0) + 1
            if b.op in ('H', 'A'):
                st.wild.add(b)
            if a.st.get(b) != 'freed' and b.op != 'A':
                a.st[b] = 'opaque'
                a.u[b] = 0
        eng.setres(st, ins, eng.fresh(st, 'R', fn.name, ins))
        return None

    def released_by(self, fn, args):
        """what a callee releases inside the objects it is given"""
        m = {n: a for (t, n), a in zip(fn.params, args)}

        def tr(t):
            if not isinstance(t, Term):
                return t
            if t.op == 'S':
                return m.get(t.args[0])
            if t.op == 'F':
                b = tr(t.args[0])
                if not isinstance(b, Term):
                    return None
                b, o = split(b)
                return mk('F', b, add(o, t.args[1]), *t.args[2:])
            return None
        for t in self.relby.get(fn.key, ()):
            if t.op == 'F':
                x = tr(t)
                if x is not None:
                    self.released.add(x)

    def apply_one(self, st, ins, fn, args, o):
        eng = self.eng
        self.released_by(fn, args)
        for i, f in o.facts.items():
            v = args[i]
            lo, hi, ne = f
            if isinstance(v, int):
                if v < lo or v > hi or v in ne:
                    return False
                continue
            if is_bool(v):
                continue
            if fn.params[i][0][0] == 'ptr':
                if lo == hi == 0:
                    q = eng.is_null(st, v)
                    if q == 0 or (q is None and not eng.assume(st, mk('eq', v, 0), True)):
                        return False
                elif 0 in ne:
                    q = eng.is_null(st, v)
                    if q == 1 or (q is None and not eng.assume(st, mk('eq', v, 0), False)):
                        return False
                continue
            if lo > -INF and not eng.assume(st, eng.cmp(st, 'sge', v, lo, ('i', 32)), True):
                return False
            if hi < INF and not eng.assume(st, eng.cmp(st, 'sle', v, hi, ('i', 32)), True):
                return False
            for k in ne:
                if not eng.assume(st, eng.cmp(st, 'ne', v, k, ('i', 32)), True):
                    return False
        for i, e in enumerate(o.params):
            v = args[i]
            if not isinstance(v, Term):
                continue
            if e == 'take':
                self.consume(st, ins, v, fn.name, True, 'freed')
            elif e == 'capture':
                self.consume(st, ins, v, fn.name, True, 'moved')
            elif e == 'keep' and fn.params[i][0][0] == 'ptr':
                self.use(st, ins, v, fn.name)
        for i in sorted(o.written):
            v = args[i]
            if isinstance(v, Term):
                b, _ = split(v)
                if b.op in ('S', 'F', 'R'):
                    for f in o.written[i]:
                        st.aux.written.add((b, f))
                self.lose(st, b, o.written[i])
        for i, (how, sn) in o.outs.items():
            if isinstance(args[i], Term):
                b, off = split(args[i])
                if isinstance(off, int):
                    v = eng.fresh(st, 'R', '%s#%d' % (fn.name, i), ins)
                    if how == 'give':
                        st.facts[v] = (-INF, INF, frozenset([0]))
                    if sn:
                        st.btype[v] = frozenset([sn])
                    self.give(st, ins, v, fn.name)
                    st.mem[(b, off)] = v
        r = o.ret
        if r[0] == 'null':
            v = 0
        elif r[0] == 'int':
            v = r[1]
        elif r[0] == 'param':
            v = args[r[1]]
            if len(r) > 2:
                b, _ = split(v)
                if isinstance(b, Term):
                    st.aux.u[b] = st.aux.u.get(b, 0) + 1
        else:
            v = eng.fresh(st, 'R', fn.name, ins)
            if r[0] == 'give':
                st.facts[v] = (-INF, INF, frozenset([0]))
                self.give(st, ins, v, fn.name)
            elif r[0] == 'maybe':
                self.give(st, ins, v, fn.name)
            if r[0] == 'val':
                if len(r) > 1 and r[1]:
                    st.facts[v] = (-INF, INF, frozenset([0]))
            elif len(r) > 1 and r[1]:
                st.btype[v] = frozenset([r[1]])
        eng.setres(st, ins, v)
        return True

    def lose(self, st, b, fields):
        """the given fields of what b reaches become opaque: what such a cell
        owned stays owned by it"""
        a = st.aux
        seen = set()
        stack = [b]
        idx = {}
        for k in st.mem:
            if len(k) == 2:
                idx.setdefault(k[0], []).append(k)
        while stack:
            x = stack.pop()
            if x in seen or not isinstance(x, Term):
                continue
            seen.add(x)
            hit = False
            for k in idx.get(x, ()):
                if k not in st.mem or isinstance(k[1], str):
                    continue
                v = st.mem[k]
                f = self.eng.field_of(*k)
                if isinstance(v, Term):
                    stack.append(split(v)[0])
                if (f or ('', '')) not in fields:
                    continue
                hit = True
                if isinstance(v, Term):
                    vb, _ = split(v)
                    if vb.op in ('H', 'R', 'F', 'S') and vb is not b:
                        if k in a.owncell or f is None:
                            if a.u.get(vb, 0) > 0:
                                a.u[vb] -= 1
                                if a.u[vb] == 0 and vb not in a.st:
                                    a.st[vb] = 'opaque'
                a.owncell.pop(k, None)
                del st.mem[k]
                st.mem.pop(k + ('v',), None)
            if hit or x.op in ('A', 'H'):
                st.epoch[x] = st.epoch.get(x, 0) + 1
                if x.op in ('H', 'A'):
                    st.wild.add(x)

    # ------------------------------------------------------------ end of path
    def finish(self, st, rv, ins):
        """placement accounting; returns the outcome"""
        eng = self.eng
        a = st.aux
        pmin, pmax = {}, {}
        seen = set()
        stack = []
        params = list(st.params) if hasattr(st, 'params') else self.rootvals
        for v in params:
            if isinstance(v, Term):
                stack.append(split(v)[0])
        for k in st.mem:
            b = k[0]
            if isinstance(b, Term) and (b.op == 'G' or (b.op in ('F', 'R', 'V') and b not in a.u) or b in a.st and a.st[b] in ('opaque', 'moved', 'borrowed')):
                stack.append(b)
        retbase = None
        if isinstance(rv, Term):
            retbase, _ = split(rv)
            stack.append(retbase)
            pmax[retbase] = pmax.get(retbase, 0) + 1
        while stack:
            x = stack.pop()
            if x in seen or not isinstance(x, Term) or a.st.get(x) in ('freed', 'dropped'):
                continue
            seen.add(x)
            for k in self.cells_of(st, x):
                v = st.mem[k]
                if not isinstance(v, Term):
                    continue
                vb, _ = split(v)
                if k in a.owncell:
                    pmin[vb] = pmin.get(vb, 0) + 1
                    pmax[vb] = pmax.get(vb, 0) + 1
                    self._where[vb] = k
                else:
                    pmax[vb] = pmax.get(vb, 0) + 1
                stack.append(vb)
        for t, n in a.u.items():
            if eng.is_null(st, t) == 1:
                continue
            if n > pmax.get(t, 0) and not (t in self.rootset and n - pmax.get(t, 0) <= 0):
                if t.op == 'F' and eng.is_null(st, t) is None and not self.demanded(st, t):
                    continue
                if self.exempt(st, t, 'leak'):
                    continue
                w = a.why.get(t)
                self.report(st, w[1] if w else ins, 'leak', 'never released or handed over: %s' % self.describe(st, t))
        for t, n in pmin.items():
            if eng.is_null(st, t) == 1:
                continue
            s = a.st.get(t)
            if self.exempt(st, t, 'dangling'):
                continue
            if s == 'freed' and a.u.get(t, 0) == 0:
                k = self._where.get(t)
                self.report(st, ins, 'dangling', '%s still refers to %s, already released' % (self.fieldname(k), self.describe(st, t)))
            elif s == 'borrowed' and n > a.u.get(t, 0):
                k = self._where.get(t)
                self.report(st, ins, 'borrow', '%s keeps %s, which is only borrowed' % (self.fieldname(k), self.describe(st, t)))
            elif t in a.u and n > a.u[t] and s is None:
                k = self._where.get(t)
                self.report(st, ins, 'double', '%s and another owner both hold %s' % (self.fieldname(k), self.describe(st, t)))
        self.refcount_rules(st, rv, retbase, ins)
        for k, s in a.mpz.items():
            if s == 'init' and isinstance(k[0], Term) and k[0].op == 'A':
                self.report(st, ins, 'mpzleak', 'local integer is not cleared on this path')
        return self.outcome(st, rv, pmin, pmax, retbase)

    def refcount_rules(self, st, rv, retbase, ins):
        eng, a, r = self.eng, st.aux, self.root
        if r.internal:
            return
        # destructor: the object goes exactly when the last reference goes
        if r.ret[0] == 'void' and len(r.params) == 1 and self.rootvals and isinstance(self.rootvals[0], Term):
            p = self.rootvals[0]
            old = a.refs.get(p)
            sn = r.ditype[1][7:-2] if r.ditype and r.ditype[1].startswith('struct ') else None
            if old is None:
                if self.counted(sn) and r.name.endswith('_free') and eng.is_null(st, p) != 1:
                    self.ref_obl += 1
                    if a.st.get(p) == 'freed':
                        self.report(st, ins, 'ref', 'releases a shared %s without looking at its reference count' % sn)
            elif isinstance(old, Term):
                lo, hi, ne = st.facts.get(old, (-INF, INF, frozenset()))
                self.ref_obl += 1
                if a.st.get(p) == 'freed':
                    if hi > 1:
                        self.report(st, ins, 'ref', 'releases the object while other references to it remain')
                elif not (lo >= 2 or hi <= 0 or 1 in ne):
                    self.report(st, ins, 'ref', 'keeps the object although the last reference was dropped')
        # constructor: a new object has one reference
        if isinstance(retbase, Term) and retbase.op == 'H' and retbase is rv and retbase not in st.wild:
            for sn in st.btype.get(retbase, ()):
                if self.counted(sn) and self.root.ditype and self.root.ditype[0] == 'struct %s *' % sn:
                    self.ref_obl += 1
                    v = st.mem.get((retbase, self.prog.offset(sn, 'references')))
                    if v != 1:
                        self.report(st, ins, 'ref', 'returns a new %s whose reference count is not one' % sn)

    ref_obl = 0

    def counted(self, sn):
        return sn is not None and any(f[0] == 'references' for f in self.prog.structs.get(sn, ()))

    def demanded(self, st, t):
        return True

    def cells_of(self, st, x):
        idx = self._idx
        return idx.get(x, ())

    def outcome(self, st, rv, pmin, pmax, retbase):
        eng, a = self.eng, st.aux
        o = Outcome()
        ps = []
        o.facts = {}
        o.written = {}
        for i, v in enumerate(self.rootvals):
            e = '-'
            if isinstance(v, Term) and v.op == 'S':
                f = st.facts.get(v)
                if self.root.params[i][0][0] == 'ptr':
                    q = eng.is_null(st, v)
                    if q == 1:
                        o.facts[i] = (0, 0, frozenset())
                        e = 'null'
                    else:
                        if q == 0:
                            o.facts[i] = (-INF, INF, frozenset([0]))
                        s = a.st.get(v)
                        extra = a.u.get(v, 0)
                        if s in ('freed', 'dropped'):
                            e = 'take'
                        elif s == 'moved':
                            e = 'capture'
                        elif pmin.get(v, 0) > extra:
                            e = 'capture'
                        else:
                            e = 'keep'
                    w = self.derived(st, v)
                    if w:
                        o.written[i] = frozenset(w)
                elif f is not None:
                    o.facts[i] = f
            ps.append(e)
        o.params = tuple(ps)
        o.outs = {}
        for i, v in enumerate(self.rootvals):
            if self.root.params[i][0][0] != 'ptr' or not self.root.ditype or not self.root.ditype[i + 1].endswith('* *'):
                continue
            c = st.mem.get((v, 0))
            if not isinstance(c, Term):
                continue
            cb, co = split(c)
            if co == 0 and cb.op in ('R', 'H') and cb is not retbase and a.u.get(cb, 0) > pmin.get(cb, 0) and not self.loopish(st, cb):
                q = eng.is_null(st, cb)
                if q != 1:
                    bt = sorted(st.btype.get(cb, ()))
                    o.outs[i] = ('give' if q == 0 else 'maybe', bt[0] if len(bt) == 1 else None)
        rty = self.root.ret
        if rv is None:
            o.ret = ('void',)
        elif isinstance(rv, int):
            o.ret = ('null',) if rty[0] == 'ptr' else ('int', rv)
        elif rty[0] != 'ptr':
            o.ret = ('val', eng.query(st, eng.cmp(st, 'ne', rv, 0, rty)) == 1) if rty[0] == 'i' and not is_bool(rv) else ('val', False)
        else:
            q = eng.is_null(st, rv)
            owned = a.u.get(retbase, 0) > pmin.get(retbase, 0)
            if retbase in self.rootset and rv is retbase:
                i = self.rootvals.index(retbase)
                o.ret = ('param', i, 'give') if owned else ('param', i)
            elif q == 1:
                o.ret = ('null',)
            elif owned:
                bt = sorted(st.btype.get(retbase, ()))
                o.ret = ('give' if q == 0 else 'maybe', bt[0] if len(bt) == 1 else None)
            else:
                bt = sorted(st.btype.get(retbase, ()))
                o.ret = ('borrow', bt[0] if len(bt) == 1 else None)
        o.key = (o.params, o.ret if o.ret[0] in ('param', 'int') else o.ret[0],
                 tuple(sorted((i, x[0]) for i, x in o.outs.items())))
        return o

    def gaps(self):
        """element releases that a destructor lacks: list of messages"""
        r = self.root
        if r.ret[0] != 'void' or len(r.params) != 1 or r.params[0][0][0] != 'ptr' or not r.ditype:
            return []
        p = self.rootvals[0]
        if p not in self.released:
            return []
        names = {r.ditype[1][7:-2]} if r.ditype[1].startswith('struct ') else set()
        cells = {}
        for t in self.released:
            if t.op == 'F':
                b, o = split(t.args[0])
                if isinstance(o, int) and o:
                    continue
                cells.setdefault(b, set()).add(t.args[1])
                if b is p:
                    f = self.eng.field_of(t.args[0], t.args[1])
                    if f:
                        names.add(f[0])
        out = []
        for sn in sorted(names & set(ELEMENTS)):
            for f, size, sub, depth in ELEMENTS[sn]:
                off = self.prog.offset(sn, f)
                if off is None:
                    continue
                if depth == 0:
                    arrays = [(cells.get(p, ()), off + sub)]
                elif depth == 1:
                    arrays = [(o, sub) for b, o in cells.items() if b.op == 'F' and b.args[0] is p and b.args[1] == off]
                else:
                    arrays = [(o, sub) for b, o in cells.items() if b.op == 'F' and b.args[0] is p and
                              (not isinstance(b.args[1], int) or off <= b.args[1] < off + size * 3)]
                ok = False
                for offs, base in arrays:
                    if any(not isinstance(x, int) for x in offs) or (base in offs and base + size in offs):
                        ok = True
                if not ok:
                    out.append('the destructor of %s releases the object but not every element of its %s' % (sn, f))
        return out

    def derived(self, st, v):
        return self._deriv.get(v, ())

    # ------------------------------------------------------------ driver
    def analyse(self, eng, fn, contract=None):
        self.root = fn
        outs = {}
        self._where = {}
        last = None
        def setup(st):
            self.rootvals = [st.frames[0].env[n] for _, n in fn.params]
            self.rootset = set(v for v in self.rootvals if isinstance(v, Term))
            if contract:
                for v, c in zip(self.rootvals, contract):
                    if c == 't':
                        st.aux.u[v] = 1
                        st.aux.why[v] = ('parameter %s' % show(v), None)
                    elif c == 'k':
                        st.aux.st[v] = 'borrowed'
        for st, kind, rv in eng.run(fn, setup=setup):
            if kind != 'ret':
                continue
            self._idx = {}
            self._deriv = {}
            for k in st.mem:
                if len(k) == 2:
                    self._idx.setdefault(k[0], []).append(k)
            for w, f in st.aux.written:
                x = w
                while isinstance(x, Term) and x.op == 'F':
                    x = x.args[0]
                    if isinstance(x, Term) and x.op == 'ptr':
                        x = x.args[0]
                self._deriv.setdefault(x, set()).add(f)
            ins = None
            for b in fn.order:
                if fn.blocks[b].ins[-1].op == 'ret':
                    ins = fn.blocks[b].ins[-1]
            o = self.finish(st, rv, ins)
            p = outs.get(o.key)
            if p is None:
                outs[o.key] = o
            else:
                for i in list(p.facts):
                    if i not in o.facts:
                        del p.facts[i]
                    else:
                        x, y = p.facts[i], o.facts[i]
                        p.facts[i] = (min(x[0], y[0]), max(x[1], y[1]), x[2] & y[2])
                for i, w in o.written.items():
                    p.written[i] = p.written.get(i, frozenset()) | w
                if p.ret != o.ret:
                    if p.ret[0] == 'int' and o.ret[0] == 'int' and p.ret != o.ret:
                        p.ret = ('val', False)
                    elif p.ret[0] == 'val' and o.ret[0] == 'val':
                        p.ret = ('val', False)
                    elif len(p.ret) > 1 and len(o.ret) > 1 and p.ret[0] == o.ret[0] and p.ret[0] in ('give', 'maybe', 'borrow'):
                        p.ret = (p.ret[0], None)
        return list(outs.values())


def mk_neg(t):
    from .terms import scale
    return scale(t, -1)


def callgraph(prog):
    g = {}
    for k, f in prog.funcs.items():
        s = set()
        for b in f.blocks.values():
            for i in b.ins:
                if i.op == 'call':
                    cal = i.a[0]
                    if cal[0] == 'g':
                        t = prog.resolve(f.module, cal[1])
                        if t:
                            s.add(t.key)
                    for ty, v in i.a[1]:
                        if v[0] == 'g':
                            t = prog.resolve(f.module, v[1])
                            if t:
                                s.add(t.key)
        g[k] = s
    return g


def sccs(g):
    idx, low, onst, st, out = {}, {}, set(), [], []
    import sys
    sys.setrecursionlimit(10000)
    def go(v):
        idx[v] = low[v] = len(idx)
        st.append(v)
        onst.add(v)
        for w in sorted(g[v]):
            if w not in idx:
                go(w)
                low[v] = min(low[v], low[w])
            elif w in onst:
                low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            c = []
            while True:
                w = st.pop()
                onst.discard(w)
                c.append(w)
                if w == v:
                    break
            out.append(c)
    for v in sorted(g):
        if v not in idx:
            go(v)
    return out


def fn_size(fn):
    return sum(len(b.ins) for b in fn.blocks.values())


def has_loop(eng, fn):
    r = eng.reach(fn)
    return any(b in r[b] for b in fn.order)
