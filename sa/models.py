"""Models of the C library, GMP and isl calls, shared by all checks."""
from .engine import Domain, PathEnd, is_bool, INF
from .terms import Term, mk, add, sub, scale, split, mkptr, show

NORETURN = {'exit', 'abort', '__assert_fail', '_exit', '__builtin_unreachable'}

# GMP functions: index sets of the integer operands (all must be initialised)
GMP_TEST = {'__gmpz_cmp': 2, '__gmpz_cmp_si': 1, '__gmpz_cmp_ui': 1, '__gmpz_cmpabs': 2, '__gmpz_divisible_p': 2,
            '__gmpz_get_str': 0, '__gmpz_get_si': 1, '__gmpz_get_ui': 1, '__gmpz_get_d': 1, '__gmpz_fits_slong_p': 1,
            '__gmpz_sizeinbase': 1, '__gmpz_fits_sint_p': 1, '__gmpz_cmpabs_ui': 1, '__gmpz_odd_p': 1}


def gmp_ops(name, args):
    """(written operands, read operands) as argument indices"""
    n = name[len('__gmpz_'):]
    if n == 'swap':
        return [0, 1], [0, 1]
    if n == 'get_str':
        return [], [2]
    if n in ('get_si', 'get_ui', 'get_d', 'sizeinbase', 'fits_slong_p', 'fits_sint_p', 'cmp_si', 'cmp_ui', 'cmpabs_ui',
             'divisible_ui_p', 'odd_p', 'out_str'):
        return [], [1] if n == 'out_str' else [0]
    if n in ('cmp', 'cmpabs', 'divisible_p', 'congruent_p'):
        return [], [0, 1]
    if n in ('set_si', 'set_ui', 'set_str', 'set_d'):
        return [0], []
    if n in ('addmul', 'submul', 'addmul_ui', 'submul_ui'):
        return [0], [0, 1, 2] if not n.endswith('_ui') else [0, 1]
    if n in ('set', 'neg', 'abs', 'sqrt', 'com', 'nextprime'):
        return [0], [1]
    if n.endswith('_ui') or n.endswith('_si') or n.endswith('_2exp'):
        return [0], [1]
    if n in ('fdiv_qr', 'cdiv_qr', 'tdiv_qr'):
        return [0, 1], [2, 3]
    if n == 'gcdext':
        return [0, 1, 2], [3, 4]
    return [0], [1, 2]


class Models(Domain):
    """Value-level models.  Subclasses add ownership, emission, ..."""

    # --- mpz values: kept in memory under key (base, off, 'v')
    def mval(self, st, p):
        b, off = split(p)
        k = (b, off, 'v')
        v = st.mem.get(k)
        if v is None:
            v = mk('V', b, off, st.epoch.get(b, 0))
            st.mem[k] = v
            st.mem[(b, add(off, 4))] = self.msz(v)
        return v

    def msz(self, v):
        if isinstance(v, int):
            return (v > 0) - (v < 0)
        if v.op == 'M' and v.args[0] == 'neg':
            return scale(self.msz(v.args[1]), -1)
        return mk('sz', v)

    def mset(self, st, p, v):
        b, off = split(p)
        st.mem[(b, off, 'v')] = v
        st.mem[(b, add(off, 4))] = self.msz(v)

    def gmp(self, st, ins, name, args):
        eng = self.eng
        n = name[len('__gmpz_'):]
        if n.startswith('init'):
            self.mpz_init(st, ins, args[0])
            if n == 'init_set':
                self.mpz_use(st, ins, args[1])
                self.mset(st, args[0], self.mval(st, args[1]))
            elif n == 'init_set_si':
                self.mset(st, args[0], args[1] if isinstance(args[1], int) else mk('M', 'si', args[1]))
            else:
                self.mset(st, args[0], 0)
            return None
        if n == 'clear':
            self.mpz_clear(st, ins, args[0])
            return None
        wr, rd = gmp_ops(name, args)
        for i in sorted(set(wr) | set(rd)):
            if i < len(args):
                self.mpz_use(st, ins, args[i])
        if n == 'swap':
            a, b = self.mval(st, args[0]), self.mval(st, args[1])
            self.mset(st, args[0], b)
            self.mset(st, args[1], a)
            return None
        if wr:
            if n == 'set':
                v = self.mval(st, args[1])
            elif n == 'set_si' or n == 'set_ui':
                v = args[1] if isinstance(args[1], int) else mk('M', 'si', args[1])
            elif n == 'set_str':
                v = mk('M', 'str', self.strval(st, args[1]))
                if ins.res:
                    eng.setres(st, ins, eng.fresh(st, 'R', name, ins))
            else:
                ops = []
                for i in range(1, len(args)):
                    ops.append(self.mval(st, args[i]) if i in rd else args[i])
                if n in ('addmul', 'submul'):
                    ops = [self.mval(st, args[0])] + ops
                v = self.mfold(n, ops)
            self.mset(st, args[wr[0]], v)
            for w in wr[1:]:
                self.mset(st, args[w], mk('M', n + str(w), *[self.mval(st, args[i]) for i in rd]))
            return None
        if n == 'get_str':
            r = eng.fresh(st, 'H', name, ins)
            st.wild.add(r)
            st.mem[(r, 'str')] = mk('strof', self.mval(st, args[2]))
            self.give(st, ins, r, name)
            eng.setres(st, ins, r)
            return None
        ops = [self.mval(st, args[i]) if i in rd else args[i] for i in range(len(args))]
        if n in ('cmp_si', 'cmp_ui'):
            x, c = ops
            if isinstance(x, int) and isinstance(c, int):
                r = (x > c) - (x < c)
            elif c == 0:
                r = self.msz(x)
            else:
                r = mk('mcmp', x, c)
        elif n == 'cmp':
            if all(isinstance(o, int) for o in ops):
                r = (ops[0] > ops[1]) - (ops[0] < ops[1])
            elif ops[0] is ops[1]:
                r = 0
            elif ops[1] == 0:
                r = self.msz(ops[0])
            elif isinstance(ops[0], Term) and isinstance(ops[1], Term) and ops[0].id > ops[1].id:
                r = scale(mk('mcmp', ops[1], ops[0]), -1)
            else:
                r = mk('mcmp', *ops)
        else:
            r = mk('mtest', n, *ops)
        eng.setres(st, ins, r)
        return None

    def mfold(self, n, ops):
        if n == 'neg':
            if isinstance(ops[0], int):
                return -ops[0]
            if ops[0].op == 'M' and ops[0].args[0] == 'neg':
                return ops[0].args[1]
        if all(isinstance(o, int) for o in ops):
            if n in ('add', 'add_ui'):
                return ops[0] + ops[1]
            if n in ('sub', 'sub_ui'):
                return ops[0] - ops[1]
            if n in ('mul', 'mul_ui', 'mul_si'):
                return ops[0] * ops[1]
            if n == 'abs':
                return abs(ops[0])
        return mk('M', n, *ops)

    def strval(self, st, p):
        s = self.eng.string(p)
        if s is not None:
            return s
        b, off = split(p)
        v = st.mem.get((b, 'str'))
        return v if v is not None else p

    # --- hooks for ownership
    def mpz_init(self, st, ins, p):
        pass

    def mpz_clear(self, st, ins, p):
        pass

    def mpz_use(self, st, ins, p):
        pass

    def give(self, st, ins, tok, name):
        pass

    def consume(self, st, ins, p, name):
        pass

    def use(self, st, ins, p, name):
        pass

    def raw_free(self, st, ins, p):
        pass

    # ------------------------------------------------------------ calls
    def call(self, st, ins, name, fn, args):
        eng = self.eng
        if fn is not None:
            return self.internal_call(st, ins, name, fn, args)
        if name in NORETURN:
            self.on_noreturn(st, ins, name, args)
            raise PathEnd('exit' if name in ('exit', '_exit') else 'abort')
        if name.startswith('__gmpz_'):
            return self.gmp(st, ins, name, args)
        if name.startswith('isl_') and name in eng.isl:
            return self.isl_call(st, ins, name, args)
        h = getattr(self, 'c_' + name.replace('__isoc99_', '').replace('__isoc23_', ''), None)
        if h:
            return h(st, ins, name, args)
        return self.unknown_call(st, ins, name, args)

    def on_noreturn(self, st, ins, name, args):
        pass

    def internal_call(self, st, ins, name, fn, args):
        return NotImplemented

    def unknown_call(self, st, ins, name, args):
        for a in args:
            if isinstance(a, Term):
                self.use(st, ins, a, name)
                b, _ = split(a)
                if b.op in ('A', 'H'):
                    self.eng.havoc(st, b)
        self.eng.setres(st, ins, self.eng.fresh(st, 'R', name, ins))
        return None

    # allocation
    def c_malloc(self, st, ins, name, args):
        r = self.eng.fresh(st, 'H', name, ins)
        st.mem[(r, 'size')] = args[0]
        self.give(st, ins, r, name)
        self.eng.setres(st, ins, r)

    def c_calloc(self, st, ins, name, args):
        r = self.eng.fresh(st, 'H', name, ins)
        st.zero.add(r)
        st.mem[(r, 'size')] = self.eng.binop(st, 'mul', args[0], args[1], ('i', 64))
        self.give(st, ins, r, name)
        self.eng.setres(st, ins, r)

    def c_isl_malloc_or_die(self, st, ins, name, args):
        return self.c_malloc(st, ins, name, args[1:])

    def c_realloc(self, st, ins, name, args):
        eng = self.eng
        r = eng.fresh(st, 'H', name, ins)
        p = args[0]
        b, off = split(p)
        if isinstance(b, Term):
            for (x, o), v in [(k, v) for k, v in st.mem.items() if len(k) == 2 and k[0] is b]:
                st.mem[(r, o)] = v
                m = eng.cellmeta.get((b, o))
                if m:
                    eng.cellmeta[(r, o)] = m
            if b.op not in ('H',) or b in st.wild:
                st.wild.add(r)
        st.mem[(r, 'size')] = args[1]
        if eng.is_null(st, p) != 1:
            self.realloc_old(st, ins, p)
        self.give(st, ins, r, name)
        eng.setres(st, ins, r)

    def realloc_old(self, st, ins, p):
        self.consume(st, ins, p, 'realloc')

    def c_strdup(self, st, ins, name, args):
        self.use(st, ins, args[0], name)
        r = self.eng.fresh(st, 'H', name, ins)
        st.wild.add(r)
        st.mem[(r, 'str')] = self.strval(st, args[0])
        self.give(st, ins, r, name)
        self.eng.setres(st, ins, r)

    def c_free(self, st, ins, name, args):
        self.raw_free(st, ins, args[0])

    # strings
    def c_strlen(self, st, ins, name, args):
        self.use(st, ins, args[0], name)
        s = self.strval(st, args[0])
        self.eng.setres(st, ins, len(s) if isinstance(s, str) else mk('strlen', s))

    def _strtest(self, st, ins, name, args):
        for a in args[:2]:
            self.use(st, ins, a, name)
        a, b = self.strval(st, args[0]), self.strval(st, args[1])
        if isinstance(a, str) and isinstance(b, str):
            n = args[2] if len(args) > 2 and isinstance(args[2], int) else None
            if len(args) <= 2 or n is not None:
                a, b = a[:n], b[:n]
                self.eng.setres(st, ins, (a > b) - (a < b))
                return
        # which comes first is the opposite answer for the exchanged arguments
        flip = isinstance(a, str) and not isinstance(b, str) or \
            not isinstance(a, str) and not isinstance(b, str) and repr(b) < repr(a)
        r = mk('strcmp', name, b, a, *args[2:]) if flip else mk('strcmp', name, a, b, *args[2:])
        self.eng.setres(st, ins, scale(r, -1) if flip else r)

    c_strcmp = _strtest
    c_strncmp = _strtest
    c_memcmp = _strtest

    def c_sprintf(self, st, ins, name, args):
        b, off = split(args[0])
        self.use(st, ins, args[0], name)
        if isinstance(b, Term):
            self.eng.havoc(st, b)
            if b.op in ('H', 'A'):
                st.wild.add(b)
        self.eng.setres(st, ins, self.eng.fresh(st, 'R', name, ins))

    c_snprintf = c_sprintf
    c_vsnprintf = c_sprintf

    def c_fgets(self, st, ins, name, args):
        b, off = split(args[0])
        self.eng.havoc(st, b)
        self.eng.setres(st, ins, self.eng.fresh(st, 'R', name, ins))

    def c_sscanf(self, st, ins, name, args):
        for a in args[2:]:
            b, off = split(a)
            if isinstance(b, Term):
                if (b, off) in st.mem:
                    pass
                st.mem[(b, off)] = self.eng.fresh(st, 'R', 'scanned', ins)
                if b.op in ('A', 'H'):
                    # a scan that fails leaves the cell alone: callers must test
                    if self.scan_char_array(b):
                        st.wild.add(b)
        self.eng.setres(st, ins, self.eng.fresh(st, 'R', name, ins))

    c_fscanf = c_sscanf

    def scan_char_array(self, b):
        return True

    def c_strtol(self, st, ins, name, args):
        if len(args) > 1 and args[1] != 0:
            b, off = split(args[1])
            if isinstance(b, Term):
                st.mem[(b, off)] = self.eng.fresh(st, 'R', 'endptr', ins)
        self.eng.setres(st, ins, self.eng.fresh(st, 'R', name, ins))

    def c_fprintf(self, st, ins, name, args):
        for a in args[2:]:
            if isinstance(a, Term) and a.op in ('H', 'R', 'F', 'S', 'ptr'):
                self.use(st, ins, a, name)
        self.eng.setres(st, ins, self.eng.fresh(st, 'R', name, ins))

    c_printf = c_fprintf

    def c___gmp_get_memory_functions(self, st, ins, name, args):
        for a, f in zip(args, ('gmp_alloc', 'gmp_realloc', 'gmp_free')):
            if isinstance(a, Term):
                b, off = split(a)
                st.mem[(b, off)] = mk('fn', f)

    def c_gmp_free(self, st, ins, name, args):
        self.raw_free(st, ins, args[0])

    # ------------------------------------------------------------ isl
    OUT_TRUE = {'isl_basic_set_has_defining_equality': [3], 'isl_basic_set_has_defining_inequalities': [3, 4]}
    # in-place updaters of a uniquely referenced object whose result the
    # callers may ignore (isl modifies the object itself in that case)
    INPLACE = ('isl_constraint_set_', 'isl_printer_print_')

    def isl_result(self, st, ins, name, args):
        return self.eng.fresh(st, 'R', name, ins)

    def isl_call(self, st, ins, name, args):
        eng = self.eng
        c = eng.isl[name]
        if name == 'isl_malloc_or_die':
            return self.c_malloc(st, ins, name, args[1:])
        if name == 'isl_ctx_alloc':
            # the context is a shared handle, counted by isl itself
            r = self.isl_result(st, ins, name, args)
            eng.setres(st, ins, r)
            return None
        if name == 'isl_ctx_free':
            self.use(st, ins, args[0], name)
            return None
        fns = [i for i, p in enumerate(c.params) if isinstance(p, tuple)]
        if fns:
            return self.isl_foreach(st, ins, name, args, c, fns[0])
        inplace = ins.res is None and name.startswith(self.INPLACE)
        if not inplace and name.startswith(self.INPLACE) and ins.res and not self.used(ins):
            inplace = True
        r = self.isl_result(st, ins, name, args) if c.ret != 'null' else None
        for i, (a, p) in enumerate(zip(args, c.params)):
            if p == 'take':
                if inplace and i == 0:
                    self.use(st, ins, a, name)
                else:
                    self.consume(st, ins, a, name)
            elif p in ('keep', 'ptr') and isinstance(a, Term):
                self.use(st, ins, a, name)
        outs = self.OUT_TRUE.get(name)
        if outs:
            s2 = st.copy()
            for s, val in ((st, 1), (s2, 0)):
                if val:
                    for o in outs:
                        b, off = split(args[o])
                        t = self.isl_out(s, ins, name, args, o)
                        s.mem[(b, off)] = t
                        s.facts[t] = (-INF, INF, frozenset([0]))
                        self.give(s, ins, t, name)
                    s.cnt[('out', eng.site(ins))] = s.cnt.get(('out', eng.site(ins)), 0) + 1
                eng.setres(s, ins, val)
                eng.advance(s)
            return [st, s2]
        for i, (a, p) in enumerate(zip(args, c.params)):
            if p == 'out' and isinstance(a, Term):
                b, off = split(a)
                t = self.isl_out(st, ins, name, args, i)
                st.mem[(b, off)] = t
                self.give(st, ins, t, name)
        st.cnt[('out', eng.site(ins))] = st.cnt.get(('out', eng.site(ins)), 0) + 1
        if c.ret == 'give' and not inplace:
            self.give(st, ins, r, name)
        if c.ret == 'null':
            r = 0
        if inplace and ins.res:
            r = args[0]
        eng.setres(st, ins, r)
        return None

    def used(self, ins):
        fn = ins.fn
        cache = getattr(fn, '_uses', None)
        if cache is None:
            cache = set()
            def visit(v):
                if isinstance(v, tuple):
                    if len(v) == 2 and v[0] == 'l':
                        cache.add(v[1])
                    for x in v:
                        visit(x)
                elif isinstance(v, list):
                    for x in v:
                        visit(x)
                elif isinstance(v, dict):
                    for x in v.values():
                        visit(x)
            for b in fn.blocks.values():
                for i in b.ins:
                    visit(i.a)
            fn._uses = cache
        return ins.res in cache

    def isl_foreach(self, st, ins, name, args, c, k):
        """the callback runs 0, 1 or 2 times with an object of its own"""
        eng = self.eng
        for i, (a, p) in enumerate(zip(args, c.params)):
            if p == 'keep':
                self.use(st, ins, a, name)
        f = args[k]
        fn = eng.prog.funcs.get(f.args[0]) if isinstance(f, Term) and f.op == 'fn' else None
        if fn is None:
            eng.setres(st, ins, eng.fresh(st, 'R', name, ins))
            return None
        user = args[k + 1]
        spec = c.params[k][1]
        limit = self.foreach_limit

        def start(s, n):
            t = self.foreach_elem(s, ins, name, args, s.cnt.get(('fe', eng.site(ins)), 0))
            s.cnt[('fe', eng.site(ins))] = s.cnt.get(('fe', eng.site(ins)), 0) + 1
            s.facts[t] = (-float('inf'), float('inf'), frozenset([0]))
            if spec[0] in ('take',):
                self.give(s, ins, t, name)
            def cont(e, s3, rv):
                return after(s3, rv, n)
            cont.key = (eng.site(ins), n)
            eng.push(s, fn, [t, user], ins, cont=cont)

        def finish(s, rv):
            eng.setres(s, ins, rv)
            eng.advance(s)

        def after(s, rv, n):
            outs = []
            cond = eng.cmp(s, 'slt', rv, 0, ('i', 32)) if not is_bool(rv) else 0
            q = eng.query(s, cond)
            branches = [q] if q is not None else [1, 0]
            for i, tr in enumerate(branches):
                s2 = s.copy() if i + 1 < len(branches) else s
                if q is None and not eng.assume(s2, cond, bool(tr)):
                    continue
                if tr:
                    finish(s2, -1)
                    outs.append(s2)
                else:
                    if n < limit:
                        s3 = s2.copy()
                        start(s3, n + 1)
                        outs.append(s3)
                    finish(s2, 0)
                    outs.append(s2)
            if not outs:
                raise PathEnd('infeasible')
            return outs

        if any(x.fn is fn for x in st.frames) or len(st.frames) >= eng.max_depth:
            eng.setres(st, ins, eng.fresh(st, 'R', name, ins))
            return None
        s2 = st.copy()
        start(s2, 1)
        finish(st, 0)
        return [s2, st]

    foreach_limit = 2

    def foreach_elem(self, st, ins, name, args, n):
        return mk('R', name + '.elem', self.eng.site(ins), n)

    def isl_out(self, st, ins, name, args, i):
        n = st.cnt.get(('out', self.eng.site(ins)), 0)
        return mk('R', name + '.out%d' % i, self.eng.site(ins), n)
