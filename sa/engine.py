"""Path-sensitive abstract interpreter over the IR.

Abstract values are interned terms; integers are linear forms over opaque
terms, with interval/disequality facts collected from the branches; memory is
a lazily initialised symbolic heap (cells keyed by base term and byte offset).
Loops are followed for a bounded number of undecided iterations, after which
only the exit edge is taken.  No solver and no execution are involved."""
from .terms import Term, mk, add, sub, scale, lin_parts, mk_lin, split, mkptr, neg_cond, show
from . import ir
import heapq

INF = float('inf')


class Frame:
    __slots__ = ('fn', 'env', 'blk', 'pc', 'prev', 'call', 'forks', 'fid', 'allocas', 'depth', 'cont')

    def copy(self):
        f = Frame()
        f.fn, f.env, f.blk, f.pc, f.prev = self.fn, dict(self.env), self.blk, self.pc, self.prev
        f.call, f.forks, f.fid, f.allocas, f.depth = self.call, dict(self.forks), self.fid, self.allocas, self.depth
        f.cont = self.cont
        return f


class State:
    __slots__ = ('frames', 'mem', 'facts', 'epoch', 'wild', 'copies', 'cnt', 'aux', 'note', 'zero', 'btype')

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.epoch = dict(self.epoch)
        s.wild = set(self.wild)
        s.zero = set(self.zero)
        s.copies = dict(self.copies)
        s.cnt = dict(self.cnt)
        s.aux = self.aux.copy() if self.aux is not None else None
        s.note = self.note
        s.btype = dict(self.btype)
        return s

    @property
    def top(self):
        return self.frames[-1]


class PathEnd(Exception):
    def __init__(self, kind):
        self.kind = kind


class Budget(Exception):
    pass


def varpart(d):
    """lin -> (V, const, sign) with V normalised so that d = sign*V + const"""
    c, t = lin_parts(d)
    items = sorted(t.items(), key=lambda x: x[0].id)
    s = 1
    if items[0][1] < 0:
        s = -1
        items = [(x, -k) for x, k in items]
    V = mk_lin(0, dict(items))
    return V, c, s


class Engine:
    def __init__(self, prog, isl, dom, max_iter=2, max_paths=20000, max_steps=4000000, max_depth=12):
        self.prog, self.isl, self.dom = prog, isl, dom
        self.slack = 2
        self.split_values = False
        self.max_iter, self.max_paths, self.max_steps, self.max_depth = max_iter, max_paths, max_steps, max_depth
        self.cellmeta = {}
        self._reach = {}
        self._rpo, self._preds, self._live, self._lregs = {}, {}, {}, {}
        self.truncated = False
        self.pruned = 0
        self.steps = 0
        self.paths = 0
        dom.eng = self

    # ------------------------------------------------------------ facts
    def fact(self, st, V):
        f = st.facts.get(V)
        if f is None:
            f = self.dom.default_fact(V)
        return f

    def query(self, st, c):
        if isinstance(c, int):
            return 1 if c else 0
        if c.op == 'not':
            q = self.query(st, c.args[0])
            return None if q is None else 1 - q
        if c.op == 'eq':
            V, k = c.args
            lo, hi, ne = self.fact(st, V)
            if lo == hi == k:
                return 1
            if k < lo or k > hi or k in ne:
                return 0
            if len(lin_parts(V)[1]) > 1:
                b = self.bounds(st, V)
                if k < b[0] or k > b[1]:
                    return 0
                if b[0] == b[1] == k:
                    return 1
            return self.dom.query(st, c)
        if c.op == 'le':
            V, k = c.args
            lo, hi, ne = self.fact(st, V)
            if hi <= k:
                return 1
            if lo > k:
                return 0
            if len(lin_parts(V)[1]) > 1:
                b = self.bounds(st, V)
                if b[1] <= k:
                    return 1
                if b[0] > k:
                    return 0
            return None
        lo, hi, ne = self.fact(st, c)
        if lo == hi:
            return 1 if lo else 0
        if 0 in ne:
            return 1
        return None

    def bounds(self, st, V):
        c, t = lin_parts(V)
        lo = hi = c
        for x, k in t.items():
            a, b, _ = self.fact(st, x)
            if k < 0:
                a, b = b, a
            lo += k * a
            hi += k * b
        return lo, hi

    def assume(self, st, c, truth):
        """refine facts; False if contradictory"""
        if isinstance(c, int):
            return bool(c) == bool(truth)
        if c.op == 'not':
            return self.assume(st, c.args[0], not truth)
        q = self.query(st, c)
        if q is not None:
            return bool(q) == bool(truth)
        if c.op == 'eq':
            V, k = c.args
            lo, hi, ne = self.fact(st, V)
            if truth:
                st.facts[V] = (k, k, frozenset())
            else:
                ne = ne | {k}
                while lo in ne:
                    lo += 1
                while hi in ne:
                    hi -= 1
                if lo > hi:
                    return False
                st.facts[V] = (lo, hi, ne)
        elif c.op == 'le':
            V, k = c.args
            lo, hi, ne = self.fact(st, V)
            if truth:
                hi = min(hi, k)
                while hi in ne:
                    hi -= 1
            else:
                lo = max(lo, k + 1)
                while lo in ne:
                    lo += 1
            if lo > hi:
                return False
            st.facts[V] = (lo, hi, ne)
        else:
            st.facts[c] = (1, 1, frozenset()) if truth else (0, 0, frozenset())
        self.dom.on_assume(st, c, truth)
        return True

    def is_null(self, st, p):
        """1 / 0 / None"""
        if isinstance(p, int):
            return 1 if p == 0 else 0
        if p.op in ('ptr', 'A', 'G', 'fn') or p.op in self.dom.NONNULL:
            return 0
        lo, hi, ne = self.fact(st, p)
        if lo == hi == 0:
            return 1
        if 0 in ne or lo > 0:
            return 0
        return None

    NONALIAS = ('A', 'G', 'H', 'fn')

    def cmp(self, st, pred, a, b, ty):
        r = self.dom.compare(st, pred, a, b, ty)
        if r is not None:
            return r
        if ty[0] == 'ptr':
            ba, oa = split(a)
            bb, ob = split(b)
            if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
                r = 1
            elif isinstance(a, int) or isinstance(b, int):
                x, k = (b, a) if isinstance(a, int) else (a, b)
                if pred in ('eq', 'ne') and k == 0:
                    q = self.is_null(st, x)
                    r = q if q is not None else mk('eq', x, 0)
                else:
                    r = mk('pcmp', pred, a, b)
                    return r
            elif ba is bb:
                d = sub(oa, ob)
                if pred in ('eq', 'ne'):
                    r = (1 if d == 0 else 0) if isinstance(d, int) else self.cmp(st, 'eq', oa, ob, ('i', 64))
                else:
                    return self.cmp(st, pred, oa, ob, ('i', 64))
            elif pred not in ('eq', 'ne'):
                return mk('pcmp', pred, a, b)
            else:
                fa, fb = ba.op in self.NONALIAS, bb.op in self.NONALIAS
                if fa and fb:
                    r = 0
                elif ba.op in ('A', 'H') or bb.op in ('A', 'H'):
                    r = 0
                else:
                    x, y = (a, b) if a.id < b.id else (b, a)
                    r = mk('peq', x, y)
            return r if pred == 'eq' else neg_cond(r)
        if isinstance(a, Term) and a.op in ('eq', 'le', 'peq', 'not', 'pcmp', 'bool') and isinstance(b, int) and pred in ('eq', 'ne'):
            # comparing a boolean
            if b in (0, 1):
                r = a if b == 1 else neg_cond(a)
                return r if pred == 'eq' else neg_cond(r)
        if ty[0] == 'i' and ty[1] > 1:
            # a truth value against a constant: true, false, or one of the two truth values
            for x, k, flip in ((a, b, 0), (b, a, 1)):
                if isinstance(x, Term) and is_bool(x) and isinstance(k, int):
                    cs = []
                    for v in (0, 1):
                        l, r = (k, v) if flip else (v, k)
                        m = (1 << ty[1]) - 1
                        ul, ur = l & m, r & m
                        t = {'eq': l == r, 'ne': l != r, 'slt': l < r, 'sle': l <= r, 'sgt': l > r, 'sge': l >= r,
                             'ult': ul < ur, 'ule': ul <= ur, 'ugt': ul > ur, 'uge': ul >= ur}.get(pred)
                        cs.append(t)
                    if None not in cs:
                        if cs[0] == cs[1]:
                            return 1 if cs[0] else 0
                        return x if cs[1] else neg_cond(x)
        if isinstance(a, float) or isinstance(b, float) or (isinstance(a, Term) and a.op == 'flt') or (isinstance(b, Term) and b.op == 'flt'):
            return mk('bool', 'fcmp', pred, a, b)
        if isinstance(a, Term) and is_bool(a) or isinstance(b, Term) and is_bool(b):
            return mk('bool', 'cmp', pred, a, b)
        d = sub(a, b)
        if isinstance(d, int):
            ops = {'eq': d == 0, 'ne': d != 0, 'slt': d < 0, 'sle': d <= 0, 'sgt': d > 0, 'sge': d >= 0}
            if pred in ops:
                return 1 if ops[pred] else 0
            if isinstance(a, int) and isinstance(b, int):
                m = (1 << (ty[1] if ty[0] == 'i' else 64)) - 1
                ua, ub = a & m, b & m
                return 1 if {'ult': ua < ub, 'ule': ua <= ub, 'ugt': ua > ub, 'uge': ua >= ub}[pred] else 0
            return 1 if {'ult': d < 0, 'ule': d <= 0, 'ugt': d > 0, 'uge': d >= 0}[pred] else 0
        V, c, s = varpart(d)          # d = s*V + c
        if pred in ('eq', 'ne'):
            r = mk('eq', V, -c * s)
            return r if pred == 'eq' else neg_cond(r)
        # d <= k form
        def le(k):                    # s*V + c <= k
            if s == 1:
                return mk('le', V, k - c)
            return neg_cond(mk('le', V, c - k - 1))
        p = pred[1:]
        if p == 'lt':
            return le(-1)
        if p == 'le':
            return le(0)
        if p == 'gt':
            return neg_cond(le(0))
        return neg_cond(le(-1))

    # ------------------------------------------------------------ memory
    def lazy(self, st, base, off, ty):
        ep = st.epoch.get(base, 0)
        v = mk('F', base, off, ep)
        return v

    def load(self, st, base, off, ty, ins):
        k = (base, off)
        if k in st.mem:
            if ty == ('i', 64) and isinstance(off, int) and isinstance(base, Term) and base.op == 'A' and (base, off + 4) in st.mem:
                # a pair of 32-bit fields moved as one register
                return mk('pack', st.mem[k], st.mem[(base, off + 4)])
            return st.mem[k]
        if isinstance(base, Term) and base.op == 'G':
            v = self.load_global(base, off, ty)
            if v is not None:
                return v
        if base in st.copies:
            for (doff, n, sb, so, ep) in reversed(st.copies[base]):
                if isinstance(off, int) and doff <= off < doff + n:
                    if (sb, add(so, off - doff)) in st.mem or st.epoch.get(sb, 0) == ep:
                        v = self.load(st, sb, add(so, off - doff), ty, ins)
                        st.mem[k] = v
                        return v
        if isinstance(base, Term) and base.op in ('H', 'A') and base not in st.wild:
            if base in st.zero:
                return 0
            v = mk('U', base, off)
            self.dom.on_uninit(st, ins, base, off, ty)
            return v
        v = self.dom.lazy_value(st, base, off, ty)
        if v is None:
            v = self.lazy(st, base, off, ty)
        st.mem[k] = v
        self.dom.on_lazy(st, base, off, v, ty, ins)
        return v

    def load_global(self, g, off, ty):
        rec = self.global_rec(g)
        if rec is None or not isinstance(off, int):
            return None
        mod, gl = rec
        if not gl['const'] or gl['init'] is None:
            return None
        return self.const_at(mod, gl['ty'], gl['init'], off, ty)

    def global_rec(self, g):
        m, name = g.args
        if m:
            mod = self.prog.mods[m]
            return (mod, mod.globals[name])
        for mod in self.prog.mods.values():
            gl = mod.globals.get(name)
            if gl and not gl['extern']:
                return (mod, gl)
        return None

    def const_at(self, mod, t, init, off, want):
        if init[0] == 'zero':
            return 0
        if init[0] == 'str':
            return init[1][off] if 0 <= off < len(init[1]) else 0
        if t[0] == 'arr':
            if init[0] != 'agg':
                return None
            s, _ = mod.types.size_align(t[2])
            i = off // s
            if i >= len(init[1]):
                return None
            return self.const_at(mod, t[2], init[1][i][1], off % s, want)
        if t[0] == 'st':
            if init[0] != 'agg':
                return None
            offs, _, _ = mod.types.struct_layout(t)
            fl = mod.types.fields(t)
            for i in reversed(range(len(offs))):
                if offs[i] <= off:
                    return self.const_at(mod, fl[i], init[1][i][1], off - offs[i], want)
            return None
        if off != 0:
            return None
        return self.const_value(mod, init)

    def const_value(self, mod, v):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'g':
            return self.global_term(mod, v[1])
        if k == 'zero':
            return 0
        if k == 'f':
            return mk('flt', str(v[1]))
        if k == 'undef':
            return mk('S', 'undef')
        if k == 'ce' and v[1] == 'gep':
            base = self.const_value(mod, v[3][0][1])
            return self.gep(mod, v[2], base, [self.const_value(mod, x) for _, x in v[3][1:]])
        if k == 'ce':
            a, b = self.const_value(mod, v[2]), self.const_value(mod, v[3])
            return add(a, b) if v[1] == 'add' else sub(a, b)
        return mk('S', 'const?')

    def global_term(self, mod, name):
        f = self.prog.resolve(mod, name)
        if f:
            return mk('fn', f.key)
        gl = mod.globals.get(name)
        if gl is None:
            return mk('fn', name)
        return mk('G', mod.name if gl['internal'] else '', name)

    def string(self, v):
        """constant C string a pointer value points to, or None"""
        b, off = split(v)
        if isinstance(b, Term) and b.op == 'G' and isinstance(off, int):
            rec = self.global_rec(b)
            if rec and rec[1]['const'] and rec[1]['init']:
                i = rec[1]['init']
                if i[0] == 'str':
                    s = i[1][off:]
                    z = s.find(b'\0')
                    return s[:z if z >= 0 else None].decode('latin1')
                if i[0] == 'zero':
                    return ''
        return None

    def gep(self, mod, bt, base, idx, st=None):
        b, off = split(base)
        t = bt
        tt = mod.types
        meta = None
        for n, i in enumerate(idx):
            if n == 0:
                s, _ = tt.size_align(t)
                off = add(off, scale(i, s))
                if isinstance(b, Term) and isinstance(off, int) and off == 0 and t[0] == 'st':
                    sn = t[1][7:] if t[1].startswith('struct.') else t[1]
                    if st is not None:
                        old = st.btype.get(b)
                        if old is None:
                            st.btype[b] = frozenset([sn])
                        elif sn not in old:
                            st.btype[b] = old | {sn}
                continue
            if t[0] == 'st':
                offs, _, _ = tt.struct_layout(t)
                off = add(off, offs[i])
                sn = t[1][7:] if t[1].startswith('struct.') else t[1]
                meta = (sn, i)
                t = tt.fields(t)[i]
            elif t[0] == 'arr':
                s, _ = tt.size_align(t[2])
                off = add(off, scale(i, s))
                t = t[2]
            else:
                raise ValueError("gep into %r" % (t,))
        if isinstance(b, int):
            if isinstance(off, int):
                return b + off
            return mk('ptr', mk('S', 'abs%d' % b), off)
        if meta:
            key = (b, off)
            if self.split_values:
                # the innermost first field
                while t[0] == 'arr' and t[2][0] == 'st' or t[0] == 'st':
                    u = t[2] if t[0] == 'arr' else t
                    sn = u[1][7:] if u[1].startswith('struct.') else u[1]
                    fl = tt.fields(u) if sn != '__mpz_struct' else None
                    if not fl:
                        break
                    meta, t = (sn, 0), fl[0]
            self.cellmeta[key] = meta
        return mkptr(b, off)

    def field_of(self, base, off):
        """(struct, field name) of a cell, or None"""
        m = self.cellmeta.get((base, off))
        if not m:
            return None
        fl = self.prog.structs.get(m[0])
        if not fl:
            return None
        if m[1] < len(fl):
            return (m[0], fl[m[1]][0])
        return None

    def store(self, st, base, off, val, ty, ins):
        self.dom.on_store(st, ins, base, off, val, ty)
        if not isinstance(off, int):
            # unknown element: other unknown elements of the same base may change
            for k in [k for k in st.mem if k[0] is base and not isinstance(k[1], int) and k[1] is not off]:
                pass
        if isinstance(val, Term) and val.op == 'pack' and isinstance(off, int):
            st.mem[(base, off)], st.mem[(base, off + 4)] = val.args
            return
        st.mem[(base, off)] = val

    def havoc(self, st, base):
        """forget the contents of a base"""
        for k in [k for k in st.mem if k[0] is base]:
            del st.mem[k]
        if base in st.copies:
            del st.copies[base]
        st.epoch[base] = st.epoch.get(base, 0) + 1
        if isinstance(base, Term) and base.op in ('H', 'A'):
            st.wild.add(base)

    # ------------------------------------------------------------ running
    def reach(self, fn):
        r = self._reach.get(fn.key)
        if r is None:
            r = {}
            for b in fn.order:
                seen = set()
                stack = list(ir.succs(fn.blocks[b]))
                while stack:
                    x = stack.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    stack.extend(ir.succs(fn.blocks[x]))
                r[b] = seen
            self._reach[fn.key] = r
        return r

    def initial(self, fn, args=None):
        st = State()
        st.mem, st.facts, st.epoch, st.wild, st.copies, st.cnt = {}, {}, {}, set(), {}, {}
        st.zero = set()
        st.btype = {}
        st.note = None
        st.aux = self.dom.new_aux()
        st.frames = []
        vals = []
        for i, (t, n) in enumerate(fn.params):
            if args is not None and args[i] is not None:
                vals.append(args[i])
            else:
                vals.append(mk('S', n))
                di = fn.ditype[i + 1] if fn.ditype and i + 1 < len(fn.ditype) else ''
                if di.startswith('struct ') and di.endswith(' *') and di.count('*') == 1:
                    st.btype[vals[-1]] = frozenset([di[7:-2]])
        self.push(st, fn, vals, None)
        self.dom.on_entry(st, fn, vals)
        return st

    def push(self, st, fn, vals, call, cont=None):
        f = Frame()
        f.fn, f.env, f.blk, f.pc, f.prev, f.call = fn, {}, fn.order[0], 0, None, call
        f.forks = {}
        f.allocas = ()
        f.depth = len(st.frames)
        f.cont = cont
        n = st.cnt.get(('frame', fn.key), 0)
        st.cnt[('frame', fn.key)] = n + 1
        f.fid = (fn.key, n)
        for (t, name), v in zip(fn.params, vals):
            f.env[name] = v
        st.frames.append(f)

    def rpo(self, fn):
        r = self._rpo.get(fn.key)
        if r is None:
            seen, post = set(), []
            stack = [(fn.order[0], iter(ir.succs(fn.blocks[fn.order[0]])))]
            seen.add(fn.order[0])
            while stack:
                b, it = stack[-1]
                for x in it:
                    if x not in seen:
                        seen.add(x)
                        stack.append((x, iter(ir.succs(fn.blocks[x]))))
                        break
                else:
                    post.append(b)
                    stack.pop()
            post.reverse()
            # innermost-loop-first order: blocks of a loop precede its exits
            r = self.loop_order(fn, post)
            self._rpo[fn.key] = r
        return r

    def loop_order(self, fn, post):
        rc = self.reach(fn)
        pos = {b: i for i, b in enumerate(post)}
        # group by strongly connected components in topological order, recursively
        def order(blocks, banned):
            blocks = list(blocks)
            bs = set(blocks)
            def succ(b):
                return [x for x in ir.succs(fn.blocks[b]) if x in bs and (b, x) not in banned]
            comp = tarjan(blocks, succ)
            out = []
            for c in comp:
                if len(c) == 1:
                    out.append(c[0])
                else:
                    h = min(c, key=lambda b: pos[b])
                    nb = set(banned) | {(b, h) for b in c}
                    out.extend(order(sorted(c, key=lambda b: pos[b]), nb))
            return out
        return {b: i for i, b in enumerate(order(post, set()))}

    def preds(self, fn):
        r = self._preds.get(fn.key)
        if r is None:
            r = {b: 0 for b in fn.order}
            for b in fn.order:
                for x in ir.succs(fn.blocks[b]):
                    r[x] += 1
            self._preds[fn.key] = r
        return r

    def livein(self, fn):
        """SSA values live at the start of each block (phi operands belong to
        the edges; a block with phis is keyed together with its predecessor)"""
        r = self._live.get(fn.key)
        if r is not None:
            return r
        use, dfn, phiuse = {}, {}, {}
        for b in fn.order:
            u, d = set(), set()
            for i in fn.blocks[b].ins:
                if i.op == 'phi':
                    for p, v in i.a.items():
                        if v[0] == 'l':
                            phiuse.setdefault(p, {}).setdefault(b, set()).add(v[1])
                else:
                    for x in locals_of(i.a):
                        if x not in d:
                            u.add(x)
                if i.res:
                    d.add(i.res)
            use[b], dfn[b] = u, d
        live = {b: set(use[b]) for b in fn.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.order):
                o = set()
                for x in ir.succs(fn.blocks[b]):
                    o |= live[x] - {i.res for i in fn.blocks[x].ins if i.op == 'phi'}
                    o |= phiuse.get(b, {}).get(x, set())
                n = use[b] | (o - dfn[b])
                if not n <= live[b]:
                    live[b] |= n
                    ch = True
        r = (live, phiuse)
        self._live[fn.key] = r
        return r

    def live_regs(self, fr):
        """registers live at the frame's current position"""
        live, phiuse = self.livein(fr.fn)
        if fr.pc == 0:
            k = (fr.fn.key, fr.blk, fr.prev)
            c = self._lregs.get(k)
            if c is None:
                phis = {i.res for i in fr.fn.blocks[fr.blk].ins if i.op == 'phi'}
                c = sorted((live[fr.blk] - phis) | phiuse.get(fr.prev, {}).get(fr.blk, set()))
                self._lregs[k] = c
            return c
        k = (fr.fn.key, fr.blk, fr.pc)
        c = self._lregs.get(k)
        if c is None:
            s = set()
            for x in ir.succs(fr.fn.blocks[fr.blk]):
                s |= live[x]
                s |= phiuse.get(fr.blk, {}).get(x, set())
            for i in reversed(fr.fn.blocks[fr.blk].ins[fr.pc:]):
                if i.res:
                    s.discard(i.res)
                if i.op != 'phi':
                    s |= locals_of(i.a)
            c = sorted(s)
            self._lregs[k] = c
        return c

    def eval_phis(self, st):
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.blk].ins
        if fr.pc == 0 and ins[0].op == 'phi':
            news = []
            n = 0
            while ins[n].op == 'phi':
                news.append((ins[n].res, self.val(st, ins[n].a[fr.prev])))
                n += 1
            for r, v in news:
                fr.env[r] = v
            fr.pc = n

    def position(self, st):
        return tuple((f.fn.key, f.blk, f.pc) for f in st.frames)

    def priority(self, st):
        # deeper frames of an earlier caller position first
        return tuple((self.rpo(f.fn)[f.blk], f.pc) for f in st.frames) + ((INF, 0),)

    def canon(self, st):
        """(hashable key, numbering) of a state up to renaming of objects"""
        num = {}
        memo = {}
        queue = []

        def c(v):
            if not isinstance(v, Term):
                return v
            r = memo.get(v)
            if r is not None:
                return r
            op = v.op
            if op in ('H', 'A', 'R'):
                n = num.get(v)
                if n is None:
                    n = num[v] = len(num)
                    queue.append(v)
                r = (op, n, v.args[0] if op == 'R' else None)
            elif op in ('S', 'G', 'fn', 'flt'):
                r = v.id
                if op != 'flt' and v not in num:
                    num[v] = -1
                    queue.append(v)
            else:
                r = (op,) + tuple(c(x) if isinstance(x, Term) else ctuple(x) if isinstance(x, tuple) else x for x in v.args)
                if op in ('F', 'V') and v not in num:
                    num[v] = -1
                    queue.append(v)
            memo[v] = r
            return r

        def ctuple(t):
            return tuple(c(x) if isinstance(x, Term) else ctuple(x) if isinstance(x, tuple) else x for x in t)

        head = []
        for f in st.frames:
            rc = self.reach(f.fn)[f.blk]
            forks = tuple(sorted((k, v) for k, v in f.forks.items() if k[0] != 'conc' and k[0] in rc))
            head.append((f.fn.key, f.blk, f.pc, getattr(f.cont, 'key', None),
                         tuple(c(f.env.get(r, 0)) for r in self.live_regs(f)), forks))
        roots = [k[0] for k in st.mem if isinstance(k[0], Term) and k[0].op in ('S', 'G')]
        for t in sorted(set(roots), key=lambda t: t.id):
            c(t)
        # cells, by base
        idx = {}
        for k in st.mem:
            idx.setdefault(k[0], []).append(k)
        F_by = {}
        for b in idx:
            if isinstance(b, Term) and b.op in ('F', 'V'):
                F_by.setdefault(b.args[0], []).append(b)
        cells = []
        i = 0
        while i < len(queue):
            b = queue[i]
            i += 1
            for x in sorted(F_by.get(b, ()), key=lambda t: repr(t.args[1:])):
                c(x)
            ks = idx.get(b)
            if not ks:
                continue
            for k in sorted(ks, key=cellorder):
                v = st.mem[k]
                if len(k) == 2 and isinstance(v, Term) and v.op == 'F' and v.args[0] is b and v.args[1] == k[1]:
                    if self.dom.default_cell(st, k, v):
                        continue
                if len(k) == 2 and self.dom.forget_cell(st, k):
                    continue
                if len(k) == 3 and isinstance(v, Term) and v.op == 'V' and v.args[0] is b and v.args[1] == k[1]:
                    continue
                cells.append((c(b), c(k[1]) if isinstance(k[1], Term) else k[1], len(k),
                              ctuple(v) if isinstance(v, tuple) else c(v)))
        flags = tuple(sorted((repr(c(b)), b in st.wild, b in st.zero) for b in list(num) if b in st.wild or b in st.zero))
        ax = self.dom.aux_key(st, c, num)
        return (tuple(head), tuple(cells), flags, ax), num

    def merge(self, s1, n1, s2, n2):
        """join the facts of s2 into s1 (same canonical key)"""
        inv = {}
        for t, n in n1.items():
            if n >= 0:
                inv[n] = t
        ren = {}
        inv2 = {n: t for t, n in n2.items() if n >= 0}
        for t, n in n2.items():
            ren[t] = inv.get(n) if n >= 0 else t
        f2 = {}
        for V, f in s2.facts.items():
            W = ren.get(V, V)
            if W is not None:
                f2[W] = f
        out = {}
        for V, (lo, hi, ne) in s1.facts.items():
            g = f2.get(V)
            if g is None:
                continue
            lo2, hi2, ne2 = g
            l, h = min(lo, lo2), max(hi, hi2)
            n = set()
            for k in ne | ne2:
                if (k in ne or k < lo or k > hi) and (k in ne2 or k < lo2 or k > hi2):
                    if l <= k <= h:
                        n.add(k)
            # a point on one side only
            for (a, b, m), (x, y, z) in (((lo, hi, ne), (lo2, hi2, ne2)),):
                pass
            if l > -INF or h < INF or n:
                out[V] = (l, h, frozenset(n))
        s1.facts = out
        for k, v in s2.cnt.items():
            if v > s1.cnt.get(k, 0):
                s1.cnt[k] = v
        for fa, fb in zip(s1.frames, s2.frames):
            for k, v in fb.forks.items():
                if v > fa.forks.get(k, 0):
                    fa.forks[k] = v
        for k in list(s1.mem):
            if len(k) == 2 and self.dom.forget_cell(s1, k):
                b = k[0]
                b2 = None
                if b in n1:
                    b2 = b if n1[b] < 0 else inv2.get(n1[b])
                if b2 is None or s2.mem.get((b2, k[1])) is not s1.mem[k] and s2.mem.get((b2, k[1])) != s1.mem[k]:
                    Engine._seq += 1
                    s1.mem[k] = mk('J', Engine._seq)
        for k in s2.mem:
            if len(k) == 2 and self.dom.forget_cell(s2, k):
                b = k[0]
                b1 = ren.get(b, b)
                if b1 is not None and (b1, k[1]) not in s1.mem:
                    Engine._seq += 1
                    s1.mem[(b1, k[1])] = mk('J', Engine._seq)
        self.dom.aux_merge(s1, s2)

    def run(self, fn, args=None, setup=None):
        """yields (state, kind, retval) for every explored path end; states
        that agree on everything the domain tracks are merged where paths
        join (their branch facts are joined)"""
        self.truncated = False
        self.steps = self.paths = self.merged = 0
        st = self.initial(fn, args)
        if setup:
            setup(st)
        heap = []
        pend = {}
        seq = 0
        work = [st]
        while work or heap:
            if not work:
                pr, _, pos, key = heapq.heappop(heap)
                st, num = pend[pos].pop(key)
                work = [st]
            st = work.pop()
            try:
                while True:
                    depth = len(st.frames)
                    r = self.step_block(st)
                    if r is None:
                        fr = st.frames[-1]
                        if (fr.pc == 0 and self.preds(fr.fn)[fr.blk] > 1) or len(st.frames) < depth:
                            self.park(st, heap, pend)
                            break
                        continue
                    if isinstance(r, list):
                        nxt = []
                        for x in r:
                            fr = x.frames[-1]
                            if fr.pc == 0 and self.preds(fr.fn)[fr.blk] > 1:
                                self.park(x, heap, pend)
                            else:
                                nxt.append(x)
                        if not nxt:
                            break
                        work.extend(nxt[1:])
                        st = nxt[0]
                        continue
                    kind, rv = r
                    self.paths += 1
                    yield st, kind, rv
                    break
            except PathEnd as e:
                self.paths += 1
                if e.kind != 'infeasible':
                    yield st, e.kind, None
            if self.steps > self.max_steps or self.paths > self.max_paths:
                self.truncated = True
                return

    _seq = 0
    merging = True

    def park(self, st, heap, pend):
        fr = st.frames[-1]
        if fr.pc == 0:
            self.eval_phis(st)
        self.dom.before_park(st)
        pos = self.position(st)
        if not self.merging:
            Engine._seq += 1
            key, num = Engine._seq, {}
        else:
            key, num = self.canon(st)
        d = pend.setdefault(pos, {})
        old = d.get(key)
        if old is not None:
            self.merge(old[0], old[1], st, num)
            self.merged += 1
            return
        d[key] = (st, num)
        Engine._seq += 1
        heapq.heappush(heap, (self.priority(st), Engine._seq, pos, key))

    def val(self, st, v):
        k = v[0]
        if k == 'l':
            return st.frames[-1].env[v[1]]
        if k == 'c':
            return v[1]
        return self.const_value(st.frames[-1].fn.module, v)

    def step_block(self, st):
        """execute from the current pc to a control transfer.
        None: state advanced; list: forked successor states; tuple: finished"""
        fr = st.frames[-1]
        blk = fr.fn.blocks[fr.blk]
        ins_list = blk.ins
        n = len(ins_list)
        while fr.pc < n:
            ins = ins_list[fr.pc]
            self.steps += 1
            op = ins.op
            if op == 'phi':
                # evaluate all phis at once
                news = []
                while fr.pc < n and ins_list[fr.pc].op == 'phi':
                    p = ins_list[fr.pc]
                    news.append((p.res, self.val(st, p.a[fr.prev])))
                    fr.pc += 1
                for r, v in news:
                    fr.env[r] = v
                continue
            if op == 'call':
                r = self.call(st, ins)
                if r is None:
                    fr = st.frames[-1]
                    fr.pc += 1
                    if st.frames[-1].fn.blocks[fr.blk] is not blk:
                        return None
                    continue
                if r == 'pushed':
                    return None
                return r          # list of states (already advanced)
            if op == 'br':
                fr.prev, fr.blk, fr.pc = fr.blk, ins.a[0], 0
                return None
            if op == 'cbr':
                return self.branch(st, fr, ins)
            if op == 'switch':
                return self.switch(st, fr, ins)
            if op == 'ret':
                rv = self.val(st, ins.a) if ins.a is not None else None
                return self.ret(st, fr, rv, ins)
            if op == 'unreachable':
                raise PathEnd('abort')
            if self.split_values and op in ('select', 'bin'):
                r = self.split_value(st, fr, ins)
                if r is not None:
                    return r
            self.simple(st, fr, ins)
            fr.pc += 1
        raise ValueError("fell off block")

    def split_value(self, st, fr, ins):
        """fork on an undecided condition that a value depends on, as if it
        had been written as a branch"""
        if ins.op == 'select':
            c = self.val(st, ins.a[0])
            x, y = self.val(st, ins.a[1]), self.val(st, ins.a[2])
            if isinstance(c, int) or x is y or (isinstance(x, int) and isinstance(y, int) and x == y):
                return None
            if isinstance(c, Term) and c.op not in ('eq', 'le', 'peq', 'not', 'pcmp', 'bool'):
                c = neg_cond(mk('eq', *_v1(c)))
        else:
            if ins.ty == ('i', 1) or ins.a[0] not in ('add', 'sub', 'mul'):
                return None
            c = next((v for v in (self.val(st, ins.a[1]), self.val(st, ins.a[2])) if is_bool(v) and isinstance(v, Term)), None)
            if c is None:
                return None
        if self.query(st, c) is not None:
            return None
        out = []
        for tr in (True, False):
            s2 = st.copy() if tr else st
            if self.assume(s2, c, tr):
                f2 = s2.frames[-1]
                if ins.op == 'select':
                    f2.env[ins.res] = self.val(s2, ins.a[1 if tr else 2])
                else:
                    a, b = (int(tr) if v is c else v for v in (self.val(s2, ins.a[1]), self.val(s2, ins.a[2])))
                    if is_bool(a) or is_bool(b):
                        q = [self.query(s2, v) if is_bool(v) else v for v in (a, b)]
                        a, b = (v if w is None else w for v, w in zip((a, b), q))
                    f2.env[ins.res] = self.binop(s2, ins.a[0], a, b, ins.ty)
                f2.pc += 1
                out.append(s2)
        if not out:
            raise PathEnd('infeasible')
        return out

    def ret(self, st, fr, rv, ins):
        if len(st.frames) == 1:
            self.dom.on_return(st, fr, ins)
            return ('ret', rv)
        self.dom.on_return(st, fr, ins)
        st.frames.pop()
        self.drop_allocas(st, fr)
        caller = st.frames[-1]
        if fr.cont is not None:
            return fr.cont(self, st, rv)
        if fr.call is not None and fr.call.res:
            caller.env[fr.call.res] = rv
        caller.pc += 1
        return None

    def drop_allocas(self, st, fr):
        if not fr.allocas:
            return
        al = set(fr.allocas)
        for k in [k for k in st.mem if k[0] in al]:
            del st.mem[k]
        for a in al:
            st.copies.pop(a, None)
            st.wild.discard(a)
            st.zero.discard(a)

    def fork_count(self, fr, ins):
        k = (fr.blk, ins.idx)
        c = fr.forks.get(k, 0) + 1
        fr.forks[k] = c
        return c

    def goto(self, fr, target):
        fr.prev, fr.blk, fr.pc = fr.blk, target, 0

    def branch(self, st, fr, ins):
        c = self.val(st, ins.a[0])
        if isinstance(c, Term) and c.op not in ('eq', 'le', 'peq', 'not', 'pcmp', 'bool'):
            c = neg_cond(mk('eq', *_v1(c)))
        q = self.query(st, c)
        if q is not None:
            self.goto(fr, ins.a[1] if q else ins.a[2])
            # guard against endless concrete loops
            k = ('conc', fr.blk)
            fr.forks[k] = fr.forks.get(k, 0) + 1
            if fr.forks[k] > 300:
                self.pruned += 1
                raise PathEnd('infeasible')
            return None
        cnt = self.fork_count(fr, ins)
        sides = [(True, ins.a[1]), (False, ins.a[2])]
        if cnt > self.max_iter:
            rc = self.reach(fr.fn)
            ex = [s for s in sides if not (s[1] == fr.blk or fr.blk in rc[s[1]])]
            if ex:
                sides = ex
            elif cnt > self.max_iter + self.slack:
                self.pruned += 1
                raise PathEnd('infeasible')
        out = []
        for i, (tr, tgt) in enumerate(sides):
            s2 = st.copy() if i + 1 < len(sides) else st
            if not self.assume(s2, c, tr):
                continue
            self.dom.on_branch(s2, ins, c, tr)
            self.goto(s2.frames[-1], tgt)
            out.append(s2)
        if not out:
            raise PathEnd('infeasible')
        return out

    def switch(self, st, fr, ins):
        v = self.val(st, ins.a[0])
        if isinstance(v, int):
            for k, l in ins.a[2]:
                if k == v:
                    self.goto(fr, l)
                    return None
            self.goto(fr, ins.a[1])
            return None
        self.fork_count(fr, ins)
        out = []
        for k, l in ins.a[2]:
            s2 = st.copy()
            c = self.cmp(s2, 'eq', v, k, ins.ty)
            if self.assume(s2, c, True):
                self.dom.on_branch(s2, ins, c, True)
                self.goto(s2.frames[-1], l)
                out.append(s2)
        ok = True
        for k, l in ins.a[2]:
            if not self.assume(st, self.cmp(st, 'eq', v, k, ins.ty), False):
                ok = False
                break
        if ok:
            self.goto(st.frames[-1], ins.a[1])
            out.append(st)
        if not out:
            raise PathEnd('infeasible')
        return out

    def deref(self, st, p, ins, what):
        """(base, off) of a dereferenced pointer"""
        b, off = split(p)
        if isinstance(b, int):
            self.dom.on_null_deref(st, ins, p, what)
            raise PathEnd('nullderef')
        if self.is_null(st, b) == 1:
            self.dom.on_null_deref(st, ins, p, what)
            raise PathEnd('nullderef')
        self.dom.on_deref(st, ins, b, off, what)
        if b.op in self.dom.DEREFD:
            f = st.facts.get(b)
            if f is None:
                st.facts[b] = (-INF, INF, frozenset([0]))
            elif f[0] <= 0 <= f[1] and 0 not in f[2]:
                st.facts[b] = (f[0], f[1], f[2] | {0})
        return b, off

    def simple(self, st, fr, ins):
        op = ins.op
        if op == 'load':
            p = self.val(st, ins.a)
            b, off = self.deref(st, p, ins, 'load')
            fr.env[ins.res] = self.load(st, b, off, ins.ty, ins)
        elif op == 'store':
            v = self.val(st, ins.a[0])
            p = self.val(st, ins.a[1])
            b, off = self.deref(st, p, ins, 'store')
            self.store(st, b, off, v, ins.ty, ins)
        elif op == 'gep':
            base = self.val(st, ins.a[0][1])
            fr.env[ins.res] = self.gep(fr.fn.module, ins.ty, base, [self.val(st, x) for _, x in ins.a[1:]], st)
        elif op == 'icmp':
            fr.env[ins.res] = self.cmp(st, ins.a[0], self.val(st, ins.a[1]), self.val(st, ins.a[2]), ins.ty)
        elif op == 'fcmp':
            fr.env[ins.res] = mk('bool', 'fcmp', ins.a[0], self.val(st, ins.a[1]), self.val(st, ins.a[2]))
        elif op == 'bin':
            x, y = self.val(st, ins.a[1]), self.val(st, ins.a[2])
            if self.split_values and ins.ty != ('i', 1) and (is_bool(x) or is_bool(y)):
                x, y = (v if w is None else w for v, w in ((v, self.query(st, v) if is_bool(v) else v) for v in (x, y)))
            fr.env[ins.res] = self.binop(st, ins.a[0], x, y, ins.ty)
        elif op == 'cast':
            v = self.val(st, ins.a[1])
            k = ins.a[0]
            if k in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
                v = mk('op', k, v)
            elif k == 'trunc' and isinstance(v, int):
                v = wrap(v, ins.ty[1])
            elif k == 'zext' and isinstance(v, int) and ins.a[2][1] > 1:
                v = v & ((1 << ins.a[2][1]) - 1)
            elif k == 'trunc' and ins.ty[1] == 1 and not is_bool(v):
                v = neg_cond(mk('eq', *_v1(v)))
            fr.env[ins.res] = v
        elif op == 'alloca':
            a = mk('A', fr.fid, ins.res)
            fr.allocas = fr.allocas + (a,)
            fr.env[ins.res] = a
        elif op == 'select':
            c = self.val(st, ins.a[0])
            q = self.query(st, c) if not isinstance(c, int) else (1 if c else 0)
            x, y = self.val(st, ins.a[1]), self.val(st, ins.a[2])
            if q is not None:
                fr.env[ins.res] = x if q else y
            elif x is y or x == y:
                fr.env[ins.res] = x
            else:
                fr.env[ins.res] = mk('sel', c, x, y)
        elif op == 'freeze':
            fr.env[ins.res] = self.val(st, ins.a)
        else:
            if ins.res:
                fr.env[ins.res] = mk('S', '%s@%s' % (op, ins.line))

    def binop(self, st, op, a, b, ty):
        if op == 'add':
            if is_bool(a) or is_bool(b):
                return mk('op', 'add', a, b)
            r = add(a, b)
            return wrap(r, ty[1]) if isinstance(r, int) and ty[0] == 'i' else r
        if op == 'sub':
            if is_bool(a) or is_bool(b):
                return mk('op', 'sub', a, b)
            r = sub(a, b)
            return wrap(r, ty[1]) if isinstance(r, int) and ty[0] == 'i' else r
        if op == 'mul':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and not is_bool(a):
                return scale(a, b)
            return mk('op', 'mul', a, b)
        if op == 'xor' and b == 1 and (ty == ('i', 1) or is_bool(a)):
            return neg_cond(a)
        if isinstance(a, int) and isinstance(b, int):
            try:
                if op == 'and':
                    return a & b
                if op == 'or':
                    return a | b
                if op == 'xor':
                    return wrap(a ^ b, ty[1])
                if op == 'shl':
                    return wrap(a << b, ty[1])
                if op in ('ashr', 'lshr'):
                    return a >> b
                if op in ('sdiv', 'udiv'):
                    q = abs(a) // abs(b)
                    return q if (a < 0) == (b < 0) else -q
                if op in ('srem', 'urem'):
                    r = abs(a) % abs(b)
                    return -r if a < 0 else r
            except (ZeroDivisionError, ValueError):
                pass
        if op == 'shl' and isinstance(b, int) and not is_bool(a):
            return scale(a, 1 << b)
        if op in ('and', 'or') and ty == ('i', 1):
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if op == 'and':
                    return a if b else 0
                return 1 if b else a
            return mk('bool', op, a, b)
        if op == 'and' and isinstance(b, int) and b == 0:
            return 0
        if op in ('urem', 'srem') and isinstance(b, int) and b == 1:
            return 0
        return mk('op', op, a, b)

    # ------------------------------------------------------------ calls
    def site(self, ins):
        return '%s:%s' % (ins.fn.key, '%s.%d' % (ins.blk.name, ins.idx))

    def fresh(self, st, kind, name, ins):
        s = self.site(ins)
        k = (kind, name, s)
        n = st.cnt.get(k, 0)
        st.cnt[k] = n + 1
        return mk(kind, name, s, n) if kind == 'R' else mk(kind, s, n)

    def setres(self, st, ins, v):
        if ins.res:
            st.frames[-1].env[ins.res] = v

    def advance(self, st):
        st.frames[-1].pc += 1

    def call(self, st, ins):
        fr = st.frames[-1]
        cal = ins.a[0]
        args = [self.val(st, v) for _, v in ins.a[1]]
        if cal[0] == 'g':
            name = cal[1]
            fn = self.prog.resolve(fr.fn.module, name)
        else:
            t = self.val(st, cal)
            if isinstance(t, Term) and t.op == 'fn':
                name = t.args[0]
                fn = self.prog.funcs.get(name)
            else:
                return self.dom.indirect_call(st, ins, t, args)
        if name.startswith('llvm.'):
            return self.intrinsic(st, ins, name, args)
        return self.invoke(st, ins, name, fn, args)

    def invoke(self, st, ins, name, fn, args):
        r = self.dom.call(st, ins, name, fn, args)
        if r is not NotImplemented:
            return r
        if fn is not None:
            if len(st.frames) < self.max_depth and not any(f.fn is fn for f in st.frames):
                self.push(st, fn, args, ins)
                return 'pushed'
            self.setres(st, ins, self.fresh(st, 'R', name, ins))
            return None
        self.setres(st, ins, self.fresh(st, 'R', name, ins))
        return None

    def intrinsic(self, st, ins, name, args):
        if name.startswith('llvm.memset'):
            b, off = self.deref(st, args[0], ins, 'store')
            n, size = args[2], st.mem.get((b, 'size'))
            part = isinstance(n, int) and isinstance(off, int) and n != size and (off or size is not None or b.op not in ('H', 'A'))
            if part and n <= 512:
                for k in [k for k in st.mem if k[0] is b and isinstance(k[1], int) and off <= k[1] < off + n]:
                    del st.mem[k]
                for i in range(0, n, 4):
                    st.mem[(b, off + i)] = 0 if args[1] == 0 else self.fresh(st, 'R', 'memset', ins)
                self.dom.on_intrinsic(st, ins, name, args)
                return None
            for k in [k for k in st.mem if k[0] is b and isinstance(k[1], int)]:
                del st.mem[k]
            if args[1] == 0:
                st.zero.add(b)
            else:
                st.wild.add(b)
        elif name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            d, do = self.deref(st, args[0], ins, 'store')
            s, so = self.deref(st, args[1], ins, 'load')
            self.memcpy(st, d, do, s, so, args[2], ins)
        elif name.startswith('llvm.va_start'):
            b, off = split(args[0])
            st.wild.add(b)
        elif ins.res:
            self.setres(st, ins, mk('op', name, *args))
        self.dom.on_intrinsic(st, ins, name, args)
        return None

    def memcpy(self, st, d, do, s, so, n, ins):
        if not isinstance(n, int) or not isinstance(do, int) or not isinstance(so, int):
            self.havoc(st, d)
            return
        for k in [k for k in st.mem if k[0] is d and isinstance(k[1], int) and do <= k[1] < do + n]:
            del st.mem[k]
        for (b, o), v in [(k, v) for k, v in st.mem.items() if len(k) == 2]:
            if b is s and isinstance(o, int) and so <= o < so + n:
                st.mem[(d, do + o - so)] = v
                m = self.cellmeta.get((b, o))
                if m and (d, do + o - so) not in self.cellmeta:
                    self.cellmeta[(d, do + o - so)] = m
        lst = st.copies.get(d, ())
        st.copies[d] = lst + ((do, n, s, so, st.epoch.get(s, 0)),)

    def where(self, st, ins):
        fr = st.frames[-1] if st.frames else None
        s = '%s:%s in %s' % (relpath(ins.fn.file), ins.line, ins.fn.name)
        chain = [f.fn.name for f in st.frames]
        if len(chain) > 1:
            s += ' (via %s)' % ' > '.join(chain[:-1])
        return s


def cellorder(k):
    o = k[1]
    if isinstance(o, int):
        return (0, o, '', len(k))
    if isinstance(o, str):
        return (1, 0, o, len(k))
    return (2, 0, repr(o), len(k))


def locals_of(v, out=None):
    if out is None:
        out = set()
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'l' and isinstance(v[1], str):
            out.add(v[1])
        else:
            for x in v:
                locals_of(x, out)
    elif isinstance(v, list):
        for x in v:
            locals_of(x, out)
    elif isinstance(v, dict):
        for x in v.values():
            locals_of(x, out)
    return out


def tarjan(nodes, succ):
    """strongly connected components in topological order"""
    idx, low, on, st, out = {}, {}, set(), [], []
    for r in nodes:
        if r in idx:
            continue
        work = [(r, iter(succ(r)))]
        idx[r] = low[r] = len(idx)
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = len(idx)
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(succ(w))))
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append(c)
    out.reverse()
    return out


def relpath(p):
    from .frontend import REPO
    if p and p.startswith(REPO + '/'):
        return p[len(REPO) + 1:]
    return p


def wrap(v, bits):
    m = 1 << bits
    v &= m - 1
    return v - m if v >= m >> 1 and bits > 1 else v


def is_bool(v):
    return isinstance(v, Term) and v.op in ('eq', 'le', 'peq', 'not', 'pcmp', 'bool')


def _v1(c):
    """term != 0 as ('eq', V, k) arguments"""
    if c.op == 'lin':
        V, k, s = varpart(c)
        return V, -k * s
    return c, 0


class Domain:
    """Default hooks."""
    eng = None

    NONNULL = ()
    DEREFD = ('H', 'R', 'F', 'S')      # a dereferenced one is known not to be NULL
    FREE = (-INF, INF, frozenset())

    def default_fact(self, V):
        return self.FREE

    def compare(self, st, pred, a, b, ty):
        return None

    def lazy_value(self, st, base, off, ty):
        return None

    def new_aux(self):
        return None

    def default_cell(self, st, k, v):
        return True

    def before_park(self, st):
        pass

    def forget_cell(self, st, k):
        """cells left out of the merge key"""
        return False

    def aux_key(self, st, c, num):
        return None

    def aux_merge(self, s1, s2):
        pass

    def query(self, st, c):
        return None

    def on_assume(self, st, c, truth):
        pass

    def on_branch(self, st, ins, c, truth):
        pass

    def on_uninit(self, st, ins, base, off, ty):
        pass

    def on_lazy(self, st, base, off, v, ty, ins):
        pass

    def on_store(self, st, ins, base, off, val, ty):
        pass

    def on_entry(self, st, fn, vals):
        pass

    def on_return(self, st, fr, ins):
        pass

    def on_null_deref(self, st, ins, p, what):
        pass

    def on_deref(self, st, ins, b, off, what):
        pass

    def on_intrinsic(self, st, ins, name, args):
        pass

    def indirect_call(self, st, ins, target, args):
        self.eng.setres(st, ins, self.eng.fresh(st, 'R', 'indirect', ins))
        return None

    def call(self, st, ins, name, fn, args):
        return NotImplemented
