"""Which kinds of memory a function may write and read, transitively:
classes are (struct, field index), 'mpz' for multi-precision integers, '*'
for anything reached through a plain pointer, 'out' for output.  Writes to
objects the function has just allocated itself do not count, nor do the
allocation statistics and reference counters."""
import re

ALLOC = {'malloc', 'calloc', 'realloc', 'strdup'}
OUTPUT = {'fprintf', 'printf', 'vfprintf', 'fputs', 'fputc', 'putc', 'putchar', 'puts', 'fwrite', 'fflush', 'fclose', 'fopen',
          'fgets', 'getc', 'fgetc', 'exit', 'abort', 'perror'}
GMPREAD = {'cmp', 'cmp_si', 'cmp_ui', 'cmpabs', 'get_si', 'get_ui', 'get_str', 'sizeinbase', 'divisible_p', 'divisible_ui_p', 'out_str', 'swap'}
SKIP = re.compile(r'references|_(allocated|freed|max)$')


class ModRef:
    def __init__(self, prog, isl):
        self.prog, self.isl = prog, isl
        self.defs = {}
        self.fresh = set()
        self.dv = {}
        for f in prog.funcs.values():
            d = {}
            for b in f.order:
                for i in f.blocks[b].ins:
                    if i.res is not None:
                        d[i.res] = i
            self.defs[f.key] = d
        changed = True
        while changed:
            changed = False
            for f in prog.funcs.values():
                if f.key in self.fresh or f.ret is None:
                    continue
                rets = [i for b in f.order for i in f.blocks[b].ins if i.op == 'ret' and i.a is not None and i.ty[0] == 'ptr']
                if rets and all(self.is_fresh(f, i.a, set()) for i in rets) and \
                        not all(self.is_null(i.a) for i in rets):
                    self.fresh.add(f.key)
                    changed = True
        # functions whose result points to nothing but memory they allocated
        self.deep = {k for k in self.fresh if self.deep_ok(prog.funcs[k])}
        self.noret = {f.key for f in prog.funcs.values()
                      if not any(i.op == 'ret' for b in f.order for i in f.blocks[b].ins)}
        taken = set(prog.taken_in_globals())
        self.direct, self.callees, self.addr, self.indirect = {}, {}, {}, {}
        self.stored, self.passed = {}, {}
        for f in prog.funcs.values():
            self.scan(f)
            taken |= self.addr[f.key]
        self.taken = {t if t in prog.funcs else k for t in taken for k in ([t] if t in prog.funcs else
                      [g.key for g in prog.funcs.values() if g.name == t])}
        for f in prog.funcs.values():
            for v, roots in self.indirect[f.key]:
                for t in self.targets(f, v, set(), len(roots)):
                    self.callees[f.key].add((t, roots))
        # (root, class): root a parameter number, or None for any memory;
        # class 'mpz0' is the one integer the parameter points to
        self.rmod = {k: set(m) for k, (m, r) in self.direct.items()}
        self.rref = {k: set(r) for k, (m, r) in self.direct.items()}
        changed = True
        while changed:
            changed = False
            for k, cs in self.callees.items():
                for eff in (self.rmod, self.rref):
                    m = eff[k]
                    a = len(m)
                    for t, roots in cs:
                        if t not in eff:
                            continue
                        for root, c in list(eff[t]):
                            if root is not None:
                                root = roots[root] if roots is not None and root < len(roots) else None
                                if root == 'local':
                                    continue
                                if root is not None:
                                    root, same = root
                                    if not same and c == 'mpz0':
                                        c = 'mpz'
                            m.add((root, 'mpz' if root is None and c == 'mpz0' else c))
                    if len(m) != a:
                        changed = True
        for m in list(self.rmod.values()) + list(self.rref.values()):
            anyc = {c for root, c in m if root is None}
            m -= {(root, c) for root, c in m if root is not None and (c in anyc or c == 'mpz0' and 'mpz' in anyc)}
            m -= {(root, c) for root, c in m if c == 'mpz0' and (root, 'mpz') in m}
        self.mod = {k: {'mpz' if c == 'mpz0' else c for root, c in m} for k, m in self.rmod.items()}

    def targets(self, f, v, seen, n):
        """functions an indirect call may reach"""
        if v[0] == 'g':
            g = self.prog.resolve(f.module, v[1])
            return {g.key} if g is not None else set()
        if (f.key, v) in seen or v[0] != 'l':
            return set()
        seen.add((f.key, v))
        i = self.defs[f.key].get(v[1])
        if i is None:
            k = self.pindex(f, v[1])
            if k is None:
                return self.by_arity(n)
            out = set()
            for cf, av in self.passed.get((f.key, k), ()):
                out |= self.targets(cf, av, seen, n)
            return out
        if i.op == 'phi':
            return set().union(*[self.targets(f, x, seen, n) for x in i.a.values()])
        if i.op == 'select':
            return self.targets(f, i.a[1], seen, n) | self.targets(f, i.a[2], seen, n)
        if i.op == 'load':
            c = self.field(f, i.a)
            if c == 'alloca':
                return set()
            if c in self.stored:
                out = set()
                for cf, av in self.stored[c]:
                    out |= self.targets(cf, av, seen, n)
                return out
        return self.by_arity(n)

    def by_arity(self, n):
        return {t for t in self.taken if t in self.prog.funcs and len(self.prog.funcs[t].params) == n}

    @staticmethod
    def pindex(f, name):
        for k, (t, n) in enumerate(f.params):
            if n == name:
                return k
        return None

    def field(self, f, v):
        """(struct, field) a pointer value addresses, even in local memory"""
        if v[0] != 'l':
            return None
        i = self.defs[f.key].get(v[1])
        if i is None:
            return None
        if i.op == 'gep':
            return self.gepcls(f, i)
        if i.op == 'alloca':
            return 'alloca'
        return None

    @staticmethod
    def is_null(v):
        return v[0] in ('undef', 'zero') or v == ('c', 0)

    def is_fresh(self, f, v, seen):
        if self.is_null(v):
            return True
        if v[0] != 'l':
            return False
        n = v[1]
        if n in seen:
            return True
        seen.add(n)
        i = self.defs[f.key].get(n)
        if i is None:
            return False
        if i.op == 'call':
            c = i.a[0]
            if c[0] == 'g':
                if c[1] in ALLOC:
                    return True
                t = self.prog.resolve(f.module, c[1])
                return t is not None and t.key in self.fresh
            return False
        if i.op == 'phi':
            return all(self.is_fresh(f, x, seen) for x in i.a.values())
        if i.op == 'cast':
            return self.is_fresh(f, i.a[1], seen)
        if i.op == 'select':
            return self.is_fresh(f, i.a[1], seen) and self.is_fresh(f, i.a[2], seen)
        if i.op == 'load' and i.ty[0] == 'ptr' and getattr(self, 'deep', None):
            b = self.origin(f, i.a)
            if b is not None and b in self.deep_values(f):
                return True
        return False

    def origin(self, f, v):
        """the value a pointer is computed or loaded from"""
        for _ in range(50):
            if v[0] != 'l':
                return None
            i = self.defs[f.key].get(v[1])
            if i is None:
                return None
            if i.op == 'gep':
                v = i.a[0][1]
            elif i.op == 'cast':
                v = i.a[1]
            elif i.op == 'load':
                v = i.a
            else:
                return v[1]
        return None

    def deep_values(self, f):
        """results of calls to deep functions into which f stores no foreign pointer"""
        c = self.dv.get(f.key)
        if c is None:
            c = set()
            raw = set()
            for i in self.defs[f.key].values():
                if i.op == 'call' and i.a[0][0] == 'g':
                    if i.a[0][1] in ('malloc', 'calloc'):
                        raw.add(i.res)
                    t = self.prog.resolve(f.module, i.a[0][1])
                    if t is not None and t.key in self.deep:
                        c.add(i.res)
            for b in f.order:
                for i in f.blocks[b].ins:
                    if i.op == 'store' and i.ty[0] == 'ptr' and not self.is_null(i.a[0]):
                        o = self.origin(f, i.a[1])
                        c.discard(o)
                        v = self.defs[f.key].get(i.a[0][1]) if i.a[0][0] == 'l' else None
                        if v is None or v.op != 'call' or v.a[0][0] != 'g' or v.a[0][1] not in ALLOC:
                            raw.discard(o)
                    elif i.op == 'call' and raw:
                        for t, v in i.a[1]:
                            t2 = i.a[0][0] == 'g' and self.prog.resolve(f.module, i.a[0][1])
                            if v[0] == 'l' and (t2 or i.a[0][0] != 'g'):
                                raw.discard(v[1])
            c |= raw
            self.dv[f.key] = c
        return c

    def deep_ok(self, f):
        for b in f.order:
            for i in f.blocks[b].ins:
                if i.op == 'store' and i.ty[0] == 'ptr' and not self.is_null(i.a[0]):
                    v = i.a[0]
                    o = self.origin(f, v)
                    if not (self.is_fresh(f, v, set()) or o is not None and self.is_fresh(f, ('l', o), set())):
                        return False
        return True

    def cls(self, f, v):
        return self.place(f, v)[1]

    def place(self, f, v, seen=None):
        """(root, class) of the cell a pointer value addresses; class None for
        local or fresh memory"""
        meta, direct = None, True
        for _ in range(50):
            if v[0] != 'l':
                return None, meta or '*'
            i = self.defs[f.key].get(v[1])
            if i is None:
                return self.pindex(f, v[1]), meta or '*'
            if i.op == 'alloca':
                return None, None
            if i.op == 'gep':
                if meta is None:
                    meta = self.gepcls(f, i)
                v = i.a[0][1]
                continue
            if i.op == 'cast':
                v = i.a[1]
                continue
            if self.is_fresh(f, v, set()):
                return None, None
            if i.op in ('phi', 'select'):
                seen = seen or set()
                if v[1] in seen:
                    return 'again', None
                seen.add(v[1])
                ps = {self.place(f, x, seen) for x in (i.a.values() if i.op == 'phi' else i.a[1:3]) if not self.is_null(x)}
                ps = {(r, c) for r, c in ps if r != 'again'}
                if all(c is None for r, c in ps) and ps:
                    return None, None
                rs = {r for r, c in ps if c is not None}
                return (rs.pop() if len(rs) == 1 else None), meta or '*'
            return None, meta or '*'
        return None, meta or '*'

    def root(self, f, v):
        """what an argument points into: 'local', None, or the number of a
        parameter and whether it is that very pointer"""
        if v[0] == 'l':
            r, c = self.place(f, v)
            return 'local' if c is None else None if r is None else (r, self.same(f, v))
        return None

    def same(self, f, v):
        """is v a parameter itself, not something computed from it?"""
        for _ in range(20):
            i = self.defs[f.key].get(v[1]) if v[0] == 'l' else None
            if i is None:
                return v[0] == 'l'
            if i.op == 'cast':
                v = i.a[1]
            elif i.op == 'gep' and all(x == ('c', 0) for t, x in i.a[1:]):
                v = i.a[0][1]
            elif i.op in ('phi', 'select'):
                vs = {x for x in (i.a.values() if i.op == 'phi' else i.a[1:3]) if not self.is_null(x)}
                if len(vs) != 1:
                    return False
                v = vs.pop()
            else:
                return False
        return False

    def gepcls(self, f, i):
        t = i.ty
        meta = None
        tt = f.module.types
        for n, (ty, v) in enumerate(i.a[1:]):
            if n == 0:
                continue
            if t[0] == 'st':
                k = v[1] if isinstance(v, tuple) else v
                sn = t[1][7:] if t[1].startswith('struct.') else t[1]
                meta = (sn, k)
                t = tt.fields(t)[k]
            elif t[0] == 'arr':
                t = t[2]
        if meta and meta[0] == '__mpz_struct':
            return 'mpz'
        if meta:
            fl = self.prog.structs.get(meta[0])
            if fl and meta[1] < len(fl) and SKIP.search(fl[meta[1]][0] or ''):
                return 'skip'
        return meta

    def scan(self, f):
        mod, ref, cs, addr, ind = set(), set(), set(), set(), []
        for b in f.order:
            for i in f.blocks[b].ins:
                if i.op == 'store':
                    w = self.place(f, i.a[1])
                    if w[1]:
                        mod.add(w)
                    self.taken_of(f, i.a[0], addr)
                    if isinstance(i.a[0], tuple) and i.a[0][0] in ('g', 'l'):
                        fl = self.field(f, i.a[1])
                        if fl and fl != 'alloca':
                            self.stored.setdefault(fl, []).append((f, i.a[0]))
                elif i.op == 'load':
                    w = self.place(f, i.a)
                    if w[1]:
                        ref.add(w)
                elif i.op == 'call':
                    callee, args = i.a
                    for t, v in args:
                        self.taken_of(f, v, addr)
                    roots = tuple(self.root(f, v) for t, v in args)
                    if callee[0] != 'g':
                        ind.append((callee, roots))
                        continue
                    n = callee[1]
                    t = self.prog.resolve(f.module, n)
                    if t is not None:
                        if t.key not in self.noret:
                            cs.add((t.key, roots))
                        for k, (_, v) in enumerate(args):
                            if isinstance(v, tuple) and v[0] in ('g', 'l'):
                                self.passed.setdefault((t.key, k), []).append((f, v))
                        continue
                    if n.startswith('__gmpz_'):
                        k = n[7:]
                        for t, v in () if k.endswith('set_str') else args[0 if k in GMPREAD else 1:]:
                            if t[0] == 'ptr':
                                w = self.place(f, v)
                                if w[1] is not None:
                                    ref.add((w[0], 'mpz0' if w[0] is not None and self.same(f, v) else 'mpz'))
                        if k in GMPREAD:
                            if k == 'out_str':
                                mod.add((None, 'out'))
                            elif k == 'get_str' and self.place(f, args[0][1])[1]:
                                mod.add((self.place(f, args[0][1])[0], '*'))
                        elif k not in ('init', 'clear', 'init2'):
                            w = self.place(f, args[0][1]) if args else (None, None)
                            if w[1] is not None:
                                mod.add((w[0], 'mpz0' if w[0] is not None and self.same(f, args[0][1]) else 'mpz'))
                            if k == 'swap' and self.place(f, args[1][1])[1] is not None:
                                mod.add((self.place(f, args[1][1])[0], 'mpz'))
                    elif n in OUTPUT:
                        if n == 'fgets' and roots[0] != 'local':
                            mod.add((roots[0] and roots[0][0], '*'))
                        mod.add((None, 'out'))
                        ref.add((None, 'out'))
                    elif n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n in ('memcpy', 'memmove', 'strcpy', 'strncpy', 'strcat', 'sprintf', 'snprintf', 'vsnprintf', 'memset') or n.startswith('llvm.memset'):
                        w = self.place(f, args[0][1])
                        if w[1]:
                            mod.add(w)
                        ref.add((None, '*'))
                    elif n in ('sscanf', 'qsort', 'fscanf'):
                        for k in range(0 if n == 'qsort' else 2, 1 if n == 'qsort' else len(args)):
                            if roots[k] != 'local':
                                w = self.place(f, args[k][1])
                                mod.add((w[0], w[1] or '*'))
                        ref.add((None, '*'))
                        if 'f' in n[:1]:
                            mod.add((None, 'out'))
                    elif n.startswith('isl_printer_to_file') or n.startswith('isl_') and '_read_from_file' in n:
                        mod.add((None, 'out'))
                    for t, v in args:
                        if v[0] == 'g':
                            g = self.prog.resolve(f.module, v[1])
                            if g is not None:
                                cs.add((g.key, self.cbroots(n, g, roots)))
        mod = {w for w in mod if w[1] != 'skip'}
        ref = {w for w in ref if w[1] != 'skip'}
        self.indirect[f.key] = ind
        self.direct[f.key] = (mod, ref)
        self.callees[f.key] = cs
        self.addr[f.key] = addr

    @staticmethod
    def cbroots(n, g, roots):
        """roots of the arguments a callback gets: isl passes the user pointer,
        the last argument, on as the last one"""
        if n.startswith('isl_') and g.params:
            return (None,) * (len(g.params) - 1) + (roots[-1],)
        return None

    def taken_of(self, f, v, addr):
        if isinstance(v, tuple) and v and v[0] == 'g' and isinstance(v[1], str):
            g = self.prog.resolve(f.module, v[1])
            if g is not None:
                addr.add(g.key)

    def pure(self, key):
        return not self.mod.get(key)
