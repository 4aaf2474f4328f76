"""What a function computes, as a table of guarded outcomes.

An abstract interpretation of the IR in which every value is kept as a term
in normal form (global value numbering over an uninterpreted signature):
machine and multi-precision integers are polynomials over opaque atoms, isl
objects are terms over the isl operations that built them, with operations
that do not change the denoted set dropped and commutative ones ordered, and
text written to a stream is a sequence of literals and holes.  Helper
functions are entered, so the way code is split over functions does not
matter; recursive calls stay opaque.  A path contributes the facts its
branches established together with its outcome: value returned, cells of the
caller that changed, text written, calls left opaque."""
import re
from .engine import Engine, PathEnd, INF, is_bool, varpart, _v1
from .models import Models, NORETURN
from .modref import ModRef
from .terms import Term, mk, add, sub, scale, lin_parts, mk_lin, split, mkptr, neg_cond


# ------------------------------------------------------------- polynomials
def atoms_of(t):
    return t.args if isinstance(t, Term) and t.op == 'prod' else (t,)


def pmul(a, b):
    if isinstance(a, int):
        return scale(b, a) if not isinstance(b, int) else a * b
    if isinstance(b, int):
        return scale(a, b)
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    out, c = {}, ca * cb
    for t, k in da.items():
        if cb:
            out[t] = out.get(t, 0) + k * cb
    for t, k in db.items():
        if ca:
            out[t] = out.get(t, 0) + k * ca
    for t, k in da.items():
        for u, m in db.items():
            at = sorted(atoms_of(t) + atoms_of(u), key=lambda x: x.id)
            p = mk('prod', *at)
            out[p] = out.get(p, 0) + k * m
    return mk_lin(c, out)


def neg(a):
    return scale(a, -1)


def fdiv(a, b):
    if isinstance(a, int) and isinstance(b, int) and b:
        return a // b
    if b == 1:
        return a
    return mk('fdiv', a, b)


# isl functions whose result denotes the same thing as their first argument
SAME = set('''
isl_set_copy isl_map_copy isl_basic_set_copy isl_basic_map_copy isl_constraint_copy isl_val_copy isl_space_copy
isl_aff_copy isl_basic_set_dup isl_basic_set_list_copy isl_pw_aff_copy isl_local_space_copy isl_union_map_copy
isl_union_set_copy isl_id_copy
isl_set_from_params isl_set_from_basic_set
isl_map_from_basic_map
isl_set_get_basic_set_list
isl_local_space_from_space isl_pw_aff_from_aff isl_basic_set_get_local_space isl_set_align_divs
'''.split())
COMM = {'isl_set_union', 'isl_set_intersect', 'isl_basic_set_intersect', 'isl_map_union', 'isl_map_intersect',
        'isl_basic_set_add_constraint', 'isl_set_plain_is_equal', 'isl_map_plain_is_equal', 'isl_constraint_is_equal',
        'isl_pw_aff_is_equal', 'isl_set_is_equal', 'isl_set_plain_is_disjoint', 'isl_union_map_add_map'}
# isl functions that change how a set is represented, not which set it is
FORM = re.compile(r'isl_(?:set|map|basic_set|basic_map|union_set|union_map)_(detect_equalities|compute_divs|coalesce|remove_redundancies|make_disjoint)')
# questions whose answer depends on the set alone
MEANING = re.compile(r'isl_\w+?_(is_(?!rational)\w+|dim|n_dim|total_dim|get_space|has_\w+_(name|id)|get_\w+_(name|id))')


def formed(tags, t):
    """a set in some form: the forms of its parts do not matter any more"""
    t, old = form_of(t)
    tags = tuple(sorted(set(tags) | set(old)))
    return mk('isl', 'form', tags, bare(t))


def form_of(t):
    if isinstance(t, Term) and t.op == 'isl' and t.args[0] == 'form':
        return t.args[2], t.args[1]
    return t, ()


def bare(t):
    t = form_of(t)[0]
    if isinstance(t, Term) and t.op == 'isl' and t.args[0] in ('intersect', 'union', 'isl_set_subtract'):
        a = []
        for x in t.args[1:]:
            x = bare(x)
            if t.args[0] != 'isl_set_subtract' and isinstance(x, Term) and x.op == 'isl' and x.args[0] == t.args[0]:
                a.extend(y for y in x.args[1:] if y not in a)
            elif x not in a or t.args[0] == 'isl_set_subtract':
                a.append(x)
        if t.args[0] != 'isl_set_subtract':
            a.sort(key=lambda x: (0, x) if isinstance(x, int) else (1, x.id))
        return mk('isl', t.args[0], *a)
    return t


# one name per meaning
NAME = {'isl_basic_set_intersect': 'intersect', 'isl_set_intersect': 'intersect', 'isl_set_union': 'union',
        'isl_basic_set_universe': 'universe', 'isl_set_universe': 'universe', 'isl_basic_set_from_constraint': 'whole',
        'isl_set_add_constraint': 'intersect', 'isl_basic_set_add_constraint': 'intersect',
        'isl_basic_map_add_constraint': 'intersect', 'isl_set_project_out': 'project', 'isl_set_remove_dims': 'project',
        'isl_basic_set_remove_dims': 'project', 'isl_map_reverse': 'reverse', 'isl_basic_map_reverse': 'reverse',
        'isl_set_get_space': 'space', 'isl_basic_set_get_space': 'space', 'isl_map_get_space': 'space',
        'isl_constraint_get_space': 'space', 'isl_set_add_dims': 'add_dims', 'isl_basic_set_add_dims': 'add_dims'}
BOOL = re.compile(r'isl_\w+_(is|has|involves|plain_is)(_|$)|_dim_is_|_lt$')
# fields that count something
COUNT = re.compile(r'(n|len|level|dim|dimension|nb_\w+|n_\w+|NbRows|NbColumns|size|references)$')
PCOUNT = re.compile(r'(n|len|level|dim|dimension|indent|indentation|nb_(?!items)\w+)$')
STREAMS = ('stdin', 'stdout', 'stderr')
SETDIM, PARAM, IN, DIV, ALL = 3, 1, 2, 4, 5


ALLC = frozenset(['all'])


class Aux:
    __slots__ = ('out', 'calls', 'alias', 'freed', 'strp', 'seq', 'va', 'post')

    def copy(self):
        a = Aux()
        a.out, a.calls, a.alias = dict(self.out), self.calls, dict(self.alias)
        a.freed, a.strp, a.seq, a.va = set(self.freed), dict(self.strp), dict(self.seq), dict(self.va)
        a.post = dict(self.post)
        return a


class Reads:
    """what an opaque call may read: classes anywhere, classes of single
    objects, single integers"""

    def __init__(self):
        self.any, self.at = set(), set()

    def sees(self, b, o, c):
        return c in self.any or (b, c) in self.at or c == 'mpz' and (b, o) in self.at


class Deno(Models):
    DEREFD = ('H', 'R', 'F', 'S', 'Fm', 'ext', 'post')
    NONNULL = ('ctype', 'isl', 'val', 'aff', 'con', 'printer', 'ctx', 'elem', 'str', 'H')
    foreach_limit = 2

    def __init__(self, boundary=(), noinline=None):
        self.boundary = set(boundary)
        self.opaque_ok = True
        self.summ, self.pin, self.opq = {}, {}, set()
        self.guards, self.bytes = {}, set()

    def new_aux(self):
        a = Aux()
        a.out, a.calls, a.alias, a.freed, a.strp, a.seq, a.va = {}, (), {}, set(), {}, {}, {}
        a.post = {}
        return a

    # ---------------------------------------------------------- facts
    B01 = (0, 1, frozenset())
    NAT = (0, INF, frozenset())

    def enumeration(self, ty):
        """a field of an enumerated type holds one of its values"""
        vs = self.eng.prog.enums.get(ty[5:])
        if not vs:
            return self.FREE
        return (vs[0], vs[-1], frozenset(set(range(vs[0], vs[-1])) - set(vs)) if vs[-1] - vs[0] < 100 else frozenset())

    def default_fact(self, V):
        if isinstance(V, Term):
            if V.op == 'isl':
                if BOOL.search(V.args[0]):
                    return self.B01
            elif V.op == 'got':
                return self.B01
            elif V.op in ('dim', 'count', 'strlen'):
                return self.NAT
            elif V.op == 'S':
                if isinstance(V.args[0], str) and PCOUNT.match(V.args[0]):
                    return self.NAT
            elif V.op in ('F', 'Fm'):
                m = self.eng.cellmeta.get((V.args[0], V.args[1]))
                fl = self.eng.prog.structs.get(m[0]) if m else None
                if fl and m[1] < len(fl) and fl[m[1]][2].startswith('enum '):
                    return self.enumeration(fl[m[1]][2])
                if fl and m[1] < len(fl) and COUNT.match(fl[m[1]][0] or '') and '*' not in fl[m[1]][2]:
                    return self.NAT
        return self.FREE

    def compare(self, st, pred, a, b, ty):
        if ty[0] == 'ptr':
            a, b = self.res(st, a), self.res(st, b)
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Term) and isinstance(y, int) and y == 0 and (
                        x.op in self.NONNULL or x.op == 'F' and x.args[0].op == 'G' and x.args[0].args[1] in STREAMS):
                    return {'eq': 0, 'ne': 1}.get(pred)
            return None
        if is_bool(a) and is_bool(b):
            return None
        d = None
        if isinstance(a, Term) or isinstance(b, Term):
            if is_bool(a) or is_bool(b) or isinstance(a, float) or isinstance(b, float):
                return None
            d = sub(a, b)
            if isinstance(d, Term):
                c, parts = lin_parts(d)
                if len(parts) == 1:
                    (t, k), = parts.items()
                    if t.op == 'sgn':
                        sat = frozenset(s for s in (-1, 0, 1) if self.holds(pred, k * s + c))
                        return self.sign_cond(st, t.args[0], sat)
        return None

    @staticmethod
    def holds(pred, d):
        return {'eq': d == 0, 'ne': d != 0, 'slt': d < 0, 'sle': d <= 0, 'sgt': d > 0, 'sge': d >= 0,
                'ult': d < 0, 'ule': d <= 0, 'ugt': d > 0, 'uge': d >= 0}[pred]

    def sign_cond(self, st, d, sat):
        if not sat:
            return 0
        if len(sat) == 3:
            return 1
        p = {frozenset([1]): 'sgt', frozenset([0]): 'eq', frozenset([-1]): 'slt', frozenset([0, 1]): 'sge',
             frozenset([-1, 0]): 'sle', frozenset([-1, 1]): 'ne'}[sat]
        return self.eng.cmp(st, p, d, 0, ('i', 64))

    def lazy_value(self, st, base, off, ty):
        m = self.eng.cellmeta.get((base, off))
        if m and m[0] == '__mpz_struct' and m[1] == 1:
            return self.msz(self.mval(st, mkptr(base, add(off, -4))))
        t = st.mem.get((base, 'str'))
        if t is not None and ty == ('i', 8):
            if isinstance(t, str) and isinstance(off, int) and 0 <= off <= len(t):
                return ord((t + '\0')[off])
            if st_limit(self.eng, t, off):
                raise PathEnd('infeasible')
            return mk('ch', t, off)
        if st.aux.post:
            c = self.cellcls(base, off)
            k = st.aux.post.get((base, c)) or st.aux.post.get(c)
            if k is not None:
                return mk('Fm', base, off, k)
        return None

    def cellcls(self, base, off):
        m = self.eng.cellmeta.get((base, off))
        if not m:
            return '*'
        return 'mpz' if m[0] == '__mpz_struct' else m

    # ---------------------------------------------------------- integers
    def msz(self, v):
        if isinstance(v, int):
            return (v > 0) - (v < 0)
        return mk('sgn', v)

    def mval(self, st, p):
        b, off = split(p)
        k = (b, off, 'v')
        v = st.mem.get(k)
        if v is None and isinstance(b, Term) and b in st.copies and isinstance(off, int):
            for (do, n, sb, so, ep) in reversed(st.copies[b]):
                if do <= off < do + n:
                    v = self.mval(st, mkptr(sb, add(so, off - do)))
                    break
        if v is None:
            c = st.aux.post.get((b, 'mpz')) or st.aux.post.get('mpz')
            v = mk('V', b, off) if c is None else mk('Vm', b, off, c)
        st.mem[k] = v
        st.mem[(b, add(off, 4))] = self.msz(v)
        return v

    def num(self, v):
        """C integer -> polynomial"""
        return v

    def gmp(self, st, ins, name, args):
        eng = self.eng
        n = name[len('__gmpz_'):]
        V = lambda i: self.mval(st, args[i])
        S = lambda v, i=0: self.mset(st, args[i], v)
        if n == 'init' or n == 'init2':
            S(0)
        elif n in ('set', 'init_set'):
            S(V(1))
        elif n in ('set_si', 'set_ui', 'init_set_si', 'init_set_ui'):
            S(args[1])
        elif n in ('set_str', 'init_set_str'):
            s = self.strval(st, args[1])
            if isinstance(s, Term) and s.op == 'strof':
                S(s.args[0])
            elif isinstance(s, str) and re.fullmatch(r'-?\d+', s):
                S(int(s))
            else:
                S(mk('parse', s, args[2]))
            eng.setres(st, ins, 0)
        elif n == 'clear':
            pass
        elif n in ('swap',):
            a, b = V(0), V(1)
            S(b, 0)
            S(a, 1)
        elif n in ('add', 'add_ui'):
            S(add(V(1), V(2) if n == 'add' else args[2]))
        elif n in ('sub', 'sub_ui'):
            S(sub(V(1), V(2) if n == 'sub' else args[2]))
        elif n == 'ui_sub':
            S(sub(args[1], V(2)))
        elif n in ('mul', 'mul_si', 'mul_ui'):
            S(pmul(V(1), V(2) if n == 'mul' else args[2]))
        elif n == 'addmul':
            S(add(V(0), pmul(V(1), V(2))))
        elif n == 'submul':
            S(sub(V(0), pmul(V(1), V(2))))
        elif n == 'neg':
            S(neg(V(1)))
        elif n == 'abs':
            S(self.absv(st, V(1)))
        elif n == 'fdiv_q':
            S(fdiv(V(1), V(2)))
        elif n == 'cdiv_q':
            S(neg(fdiv(neg(V(1)), V(2))))
        elif n in ('fdiv_r', 'mod', 'fdiv_r_ui'):
            b = V(2) if n != 'fdiv_r_ui' else args[2]
            S(sub(V(1), pmul(b, fdiv(V(1), b))))
        elif n == 'divexact':
            S(self.exact(V(1), V(2)))
        elif n in ('gcd', 'lcm'):
            S(self.gcd(V(1), V(2), n))
        elif n in ('get_si', 'get_ui'):
            # the low bits only: an integer that need not fit is not its machine value
            v = V(0)
            eng.setres(st, ins, v if isinstance(v, int) and abs(v) < 1 << 31 else mk('low', n, v))
        elif n in ('cmp', 'cmp_si', 'cmp_ui'):
            d = sub(V(0), V(1) if n == 'cmp' else args[1])
            eng.setres(st, ins, self.msz(d))
        elif n == 'get_str':
            r = eng.fresh(st, 'H', name, ins)
            st.wild.add(r)
            v = V(2)
            st.mem[(r, 'str')] = str(v) if isinstance(v, int) else mk('strof', v)
            eng.setres(st, ins, r)
        elif n == 'divisible_p':
            eng.setres(st, ins, eng.cmp(st, 'eq', sub(V(0), pmul(V(1), fdiv(V(0), V(1)))), 0, ('i', 64)))
        elif n == 'sizeinbase':
            eng.setres(st, ins, mk('sizeinbase', V(0), args[1]))
        elif n == 'out_str':
            self.emit(st, args[0], [self.hole_int(V(2))])
            eng.setres(st, ins, 1)
        else:
            return Models.gmp(self, st, ins, name, args)
        return None

    def absv(self, st, v):
        if isinstance(v, int):
            return abs(v)
        c = self.eng.cmp(st, 'sge', v, 0, ('i', 64))
        q = self.eng.query(st, c)
        if q == 1:
            return v
        if q == 0:
            return neg(v)
        V, k, s = varpart(v)
        return mk('abs', v if s > 0 else neg(v))

    def exact(self, a, b):
        if b == 1:
            return a
        if b == -1:
            return neg(a)
        if isinstance(a, int) and isinstance(b, int) and b and a % b == 0:
            return a // b
        return mk('exact', a, b)

    def gcd(self, a, b, n='gcd'):
        def norm(x):
            if isinstance(x, int):
                return abs(x)
            return x
        a, b = norm(a), norm(b)
        if isinstance(a, int) and a == 0 and n == 'gcd':
            return mk('abs', b) if isinstance(b, Term) else b
        if isinstance(b, int) and b == 0 and n == 'gcd':
            return mk('abs', a) if isinstance(a, Term) else a
        if isinstance(a, int) and isinstance(b, int):
            import math
            return math.gcd(a, b) if n == 'gcd' else abs(a * b) // math.gcd(a, b)
        def key(x):
            return (0, x, 0) if isinstance(x, int) else (1, 0, x.id)
        return mk(n, *sorted((a, b), key=key))

    # ---------------------------------------------------------- strings
    def c_strdup(self, st, ins, name, args):
        r = self.eng.fresh(st, 'H', name, ins)
        st.wild.add(r)
        st.mem[(r, 'str')] = self.strval(st, args[0])
        self.eng.setres(st, ins, r)

    def strval(self, st, p):
        s = self.eng.string(p)
        if s is not None:
            return s
        b, off = split(p)
        v = st.mem.get((b, 'str'))
        if v is not None:
            return v if off == 0 else mk('at', v, off)
        if off == 0 and (b, 0) in st.mem:
            t = self.bytetext(st, b)
            if t is not None:
                return t
        return p

    def bytetext(self, st, b):
        """text put together byte by byte"""
        out = []
        for i in range(64):
            v = st.mem.get((b, i))
            if v is None or (b, i) not in self.bytes:
                return None
            if isinstance(v, int) and v == 0:
                break
            x = chr(v) if isinstance(v, int) and 0 < v < 256 else mk('char', v)
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
        else:
            return None
        return '' if not out else out[0] if len(out) == 1 and isinstance(out[0], str) else mk('text', *out)

    def on_store(self, st, ins, base, off, val, ty):
        if ty == ('i', 8) and isinstance(base, Term):
            if (base, 'str') in st.mem:
                st.mem[(base, 'str')] = mk('edit', st.mem[(base, 'str')], off, val)
            elif base.op == 'H':
                self.bytes.add((base, off))

    def setstr(self, st, p, content):
        b, off = split(p)
        if isinstance(b, Term):
            self.eng.havoc(st, b)
            st.mem[(b, 'str')] = content

    def c_sprintf(self, st, ins, name, args):
        k = 1 if name == 'sprintf' else 2
        ps = self.fmt(st, self.eng.string(args[k]), args[k + 1:])
        t = ps[0] if len(ps) == 1 and isinstance(ps[0], str) else '' if not ps else mk('text', *ps)
        self.setstr(st, args[0], self.cut(st, args, t) if k == 2 else t)
        self.eng.setres(st, ins, mk('len', *ps) if ps else 0)

    def cut(self, st, args, t):
        """text printed into a buffer of limited size"""
        b, off = split(args[0])
        size = st.mem.get((b, 'size')) if isinstance(b, Term) else None
        if size is None or size == args[1] or size is args[1]:
            return t
        return mk('cut', args[1], t)

    c_snprintf = c_sprintf

    def c_vsnprintf(self, st, ins, name, args):
        va = self.va_args(st)
        ps = self.fmt(st, self.eng.string(args[2]), va)
        self.setstr(st, args[0], self.cut(st, args, mk('text', *ps)))
        self.eng.setres(st, ins, mk('len', *ps))

    def va_args(self, st):
        for f in reversed(st.frames):
            if f.fn.vararg:
                return st.aux.va.get(f.fid, [])
        return []

    def c_isspace(self, st, ins, name, args):
        self.eng.setres(st, ins, mk('isspace', args[0]))

    c_isdigit = c_isspace

    # ---------------------------------------------------------- output
    CONV = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j)?([a-zA-Z%])')

    def hole_int(self, v):
        if isinstance(v, int):
            return str(v)
        return mk('int', v)

    def fmt(self, st, f, args):
        if f is None:
            return [mk('text?',)]
        out, pos, ai = [], 0, 0

        def put(x):
            if isinstance(x, Term) and x.op == 'text':
                for y in x.args:
                    put(y)
            elif isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            elif x != '':
                out.append(x)
        for m in self.CONV.finditer(f):
            put(f[pos:m.start()])
            pos = m.end()
            fl, w, pr, ln, cv = m.groups()
            if cv == '%':
                put('%')
                continue
            extra = []
            for z in (w, pr):
                if z == '*':
                    extra.append(args[ai] if ai < len(args) else mk('S', 'missing'))
                    ai += 1
            a = args[ai] if ai < len(args) else mk('S', 'missing')
            ai += 1
            plain = not fl and not w and not pr
            if cv == 's':
                s = self.strval(st, a)
                if plain:
                    if isinstance(s, str):
                        put(s)
                    elif isinstance(s, Term) and s.op == 'strof':
                        put(self.hole_int(s.args[0]))
                    elif isinstance(s, Term) and s.op == 'text':
                        put(s)
                    else:
                        put(mk('str', s))
                    continue
                if s == '' and w == '*' and not fl and not pr:
                    if isinstance(extra[0], int):
                        put(' ' * abs(extra[0]))
                    else:
                        put(mk('blanks', extra[0]))
                    continue
                put(mk('fmt', m.group(0), s, *extra))
            elif cv in 'diu' and plain:
                put(self.hole_int(a))
            elif cv == 'c' and plain:
                put(chr(a) if isinstance(a, int) and 0 < a < 256 else mk('char', a))
            else:
                put(mk('fmt', m.group(0), a, *extra))
        put(f[pos:])
        return out

    def emit(self, st, stream, pieces):
        stream = self.res(st, stream)
        cur = list(st.aux.out.get(stream, ()))
        for p in pieces:
            if isinstance(p, str) and cur and isinstance(cur[-1], str):
                cur[-1] += p
            elif p != '':
                cur.append(p)
        st.aux.out[stream] = tuple(cur)

    def c_fprintf(self, st, ins, name, args):
        self.emit(st, args[0], self.fmt(st, self.eng.string(args[1]), args[2:]))
        self.eng.setres(st, ins, 1)

    def c_printf(self, st, ins, name, args):
        out = self.load_std(st, 'stdout')
        self.emit(st, out, self.fmt(st, self.eng.string(args[0]), args[1:]))
        self.eng.setres(st, ins, 1)

    def c_vfprintf(self, st, ins, name, args):
        self.emit(st, args[0], self.fmt(st, self.eng.string(args[1]), self.va_args(st)))
        self.eng.setres(st, ins, 1)

    def c_fputs(self, st, ins, name, args):
        s = self.strval(st, args[0])
        self.emit(st, args[1], [s if isinstance(s, str) else mk('str', s)])
        self.eng.setres(st, ins, 1)

    def c_puts(self, st, ins, name, args):
        s = self.strval(st, args[0])
        self.emit(st, self.load_std(st, 'stdout'), [s if isinstance(s, str) else mk('str', s), '\n'])
        self.eng.setres(st, ins, 1)

    def c_fputc(self, st, ins, name, args):
        self.emit(st, args[1], [chr(args[0]) if isinstance(args[0], int) else mk('char', args[0])])
        self.eng.setres(st, ins, 1)

    c_putc = c__IO_putc = c_fputc

    def c_putchar(self, st, ins, name, args):
        return self.c_fputc(st, ins, name, [args[0], self.load_std(st, 'stdout')])

    def c_fwrite(self, st, ins, name, args):
        s = self.eng.string(args[0])
        n = self.eng.binop(st, 'mul', args[1], args[2], ('i', 64))
        self.emit(st, args[3], [s[:n] if isinstance(s, str) and isinstance(n, int) else mk('bytes', args[0], n)])
        self.eng.setres(st, ins, args[2])

    def c_fflush(self, st, ins, name, args):
        self.eng.setres(st, ins, 0)

    def load_std(self, st, name):
        return mk('F', mk('G', '', name), 0, 0)

    def on_noreturn(self, st, ins, name, args):
        if name in ('exit', '_exit'):
            st.aux.calls += ((mk('exit', args[0]), ALLC, ALLC),)

    # ---------------------------------------------------------- input
    def tick(self, st, key):
        n = st.aux.seq.get(key, 0)
        st.aux.seq[key] = n + 1
        return n

    def c_calloc(self, st, ins, name, args):
        """an array of zeros: as if a loop had stored them"""
        super().c_calloc(st, ins, name, args)
        eng, (n, size) = self.eng, args[:2]
        if size not in (4, 8) or not ins.res:
            return None
        r = st.frames[-1].env[ins.res]
        res = []
        for k in range(eng.max_iter + 1):
            s = st.copy()
            if eng.assume(s, eng.cmp(s, 'eq', n, k, ('i', 64)), True):
                for i in range(k):
                    s.mem[(r, i * size)] = 0
                eng.advance(s)
                res.append(s)
        if eng.assume(st, eng.cmp(st, 'sgt', n, eng.max_iter, ('i', 64)), True):
            eng.advance(st)
            res.append(st)
        return res

    def c_fgets(self, st, ins, name, args):
        n = self.tick(st, ('read', args[2]))
        line = mk('line', args[2], n)
        self.setstr(st, args[0], line)
        eng = self.eng
        c = eng.cmp(st, 'ne', mk('got', line), 0, ('i', 32))
        res = []
        for tr in (1, 0):
            if tr and eng.inlimit and n >= eng.inlimit[0]:
                continue
            s = st.copy()
            if eng.assume(s, c, bool(tr)):
                eng.setres(s, ins, args[0] if tr else 0)
                eng.advance(s)
                res.append(s)
        return res

    def c___ctype_b_loc(self, st, ins, name, args):
        self.eng.setres(st, ins, mk('ext', 'ctype'))

    def c_sscanf(self, st, ins, name, args):
        src = self.strval(st, args[0])
        if 'fscanf' in name:
            src = mk('line', args[0], self.tick(st, ('read', args[0])))
        f = self.eng.string(args[1])
        for i, a in enumerate(args[2:]):
            b, off = split(a)
            if isinstance(b, Term):
                v = mk('scan', src, f, i)
                if b.op == 'A' and self.scan_is_string(f, i):
                    self.setstr(st, a, v)
                else:
                    st.mem[(b, off)] = v
        self.eng.setres(st, ins, mk('scanned', src, f))

    c_fscanf = c_sscanf

    def scan_is_string(self, f, i):
        c = [m.group(5) for m in self.CONV.finditer((f or '').replace('%*', '%%*')) if m.group(5) != '%']
        return i < len(c) and c[i] == 's'

    def c_strtol(self, st, ins, name, args):
        if len(args) > 1 and args[1] != 0:
            b, off = split(args[1])
            st.mem[(b, off)] = mk('ext', 'strtol.end', self.strval(st, args[0]), args[2])
        self.eng.setres(st, ins, mk('ext', 'strtol', self.strval(st, args[0]), args[2]))

    def c_atoi(self, st, ins, name, args):
        self.eng.setres(st, ins, mk('ext', 'strtol', self.strval(st, args[0]), 10))

    def c_fopen(self, st, ins, name, args):
        self.eng.setres(st, ins, mk('ext', 'fopen', self.strval(st, args[0]), self.strval(st, args[1])))

    # ---------------------------------------------------------- memory
    def raw_free(self, st, ins, p):
        b, off = split(p)
        if isinstance(b, Term):
            st.aux.freed.add(b)

    def realloc_old(self, st, ins, p):
        self.raw_free(st, ins, p)

    def unknown_call(self, st, ins, name, args):
        a = tuple(self.argterm(st, x) for x in args)
        n = self.tick(st, ('ext', name, a))
        st.aux.calls += ((mk('did', name, *a), ALLC, ALLC),)
        self.eng.setres(st, ins, mk('ext', name, *(a + ((n,) if n else ()))))
        return None

    def argterm(self, st, x):
        s = self.strval(st, x) if isinstance(x, Term) else x
        return self.res(st, s)

    # ---------------------------------------------------------- calls
    def sig(self, fn):
        return ' '.join(t or 'void' for t in (fn.ditype or [str(fn.params)])) if fn.ditype else str(fn.params)

    def internal_call(self, st, ins, name, fn, args):
        if name == 'cloog_int_to_isl_val':
            self.eng.setres(st, ins, mk('val', self.mval(st, args[1])))
            return None
        if name == 'isl_val_to_cloog_int':
            self.mset(st, args[1], self.valof(st, args[0]))
            return None
        rec = any(f.fn is fn for f in st.frames)
        if rec:
            for k in self.nullguards(fn):
                if k >= len(args):
                    continue
                c = self.eng.cmp(st, 'eq', args[k], 0, ('ptr',))
                q = self.eng.query(st, c)
                if q == 1 and len(st.frames) < self.eng.max_depth:
                    self.eng.push(st, fn, args, ins)
                    return 'pushed'
                if q is None:
                    out = []
                    for tr in (True, False):
                        s2 = st.copy()
                        if self.eng.assume(s2, c, tr) and self.eng.query(s2, c) is not None:
                            out.append(s2)
                    if len(out) == 2:
                        return out
        if rec or name in self.boundary or len(st.frames) >= self.eng.max_depth:
            return self.opaque(st, ins, name if name in self.boundary else self.sig(fn), fn, args)
        if fn.vararg:
            n = st.cnt.get(('frame', fn.key), 0)
            st.aux.va[(fn.key, n)] = args[len(fn.params):]
        return NotImplemented

    def nullguards(self, fn):
        """the pointer parameters for which, when NULL, the function returns
        at once"""
        r = self.guards.get(fn.key)
        if r is None:
            r = self.guards[fn.key] = [k for k, (t, n) in enumerate(fn.params) if t[0] == 'ptr' and self.returns_at_once(fn, n)]
        return r

    def returns_at_once(self, fn, name):
        allocas = {x.res for b in fn.order for x in fn.blocks[b].ins if x.op == 'alloca'}
        work, steps = [(None, fn.order[0], {})], 0
        while work:
            prev, cur, env = work.pop()
            steps += 1
            if steps > 12:
                return False
            env = dict(env)

            def val(v):
                return env.get(v[1], v) if v[0] == 'l' else v
            for x in fn.blocks[cur].ins:
                if x.op == 'phi':
                    env[x.res] = val(x.a[prev]) if prev in x.a else ('?',)
                elif x.op == 'store':
                    if x.a[1][0] != 'l' or x.a[1][1] not in allocas:
                        return False
                elif x.op == 'call':
                    if not str(x.a[0][1]).startswith('llvm.'):
                        return False
                elif x.op == 'icmp':
                    a = val(x.a[1])
                    if x.a[0] in ('eq', 'ne') and x.ty[0] == 'ptr' and ModRef.is_null(x.a[2]) and \
                            (a == ('l', name) or ModRef.is_null(a)):
                        env[x.res] = ('is', x.a[0] == 'eq')
                elif x.op == 'load' and val(x.a) == ('l', name):
                    return False
                elif x.op == 'br':
                    work.append((cur, x.a[0], env))
                elif x.op == 'cbr':
                    c = val(x.a[0])
                    if c[0] == 'is':
                        work.append((cur, x.a[1] if c[1] else x.a[2], env))
                    else:
                        work += [(cur, x.a[1], env), (cur, x.a[2], env)]
                elif x.op in ('switch', 'unreachable'):
                    return False
        return True

    def opaque(self, st, ins, name, fn, args):
        """a call that is not entered: its result is a term over what it was
        given, and everything it may write becomes a term over the call"""
        mr = self.modref
        if name in self.summ:
            rmod, rref = self.summ[name]
        else:
            rmod, rref = mr.rmod.get(fn.key, ()), mr.rref.get(fn.key, ())
        mod = frozenset('mpz' if c == 'mpz0' else c for k, c in rmod)
        exact = [k for k, c in rmod if c == 'mpz0' and k < len(args) and isinstance(args[k], Term)]
        anymod = frozenset(c for k, c in rmod if k is None)
        argmod = {}
        for k, c in rmod:
            if k is not None and c != 'mpz0' and k < len(args) and isinstance(args[k], Term):
                argmod.setdefault(split(self.res(st, args[k]))[0], set()).add(c)
        ref = Reads()
        for k, c in rref:
            if k is None:
                ref.any.add(c)
            elif k < len(args) and isinstance(args[k], Term):
                b, o = split(self.res(st, args[k]))
                ref.at.add((b, o) if c == 'mpz0' else (b, c))
        self.opq.add((name, fn.key))
        a, stream = [], None
        dt = fn.ditype or []
        seen, dirty, paths = {}, [], []
        for i, x in enumerate(args):
            t = dt[i + 1] if i + 1 < len(dt) and dt[i + 1] else ''
            if 'FILE' in t and stream is None:
                stream = x
                continue
            a.append(self.describe(st, self.argterm(st, x), ref, seen, dirty, paths, 'a%d' % i, 0))
        dirty.sort(key=lambda d: (repr(d[0].op), str(d[1]), d[0].id))
        given = a + [mk('with', b, lab, v) for b, lab, v in dirty]
        call = mk('callobj', name, *given)
        if stream is not None:
            self.emit(st, stream, [call])
        elif mod or not ins.res:
            st.aux.calls += ((call, self.touched(st, rmod, args), self.touched(st, rref, args)),)
        n = self.tick(st, ('opq', call)) if mod else 0
        r = mk('ext', name, *(given + ([n] if n else [])))
        if mod:
            for (b, off, k, path) in paths:
                c = 'mpz' if len(k) == 3 else self.cellcls(b, off)
                if c not in anymod and c not in argmod.get(b, ()) or k not in st.mem:
                    continue
                v = mk('post', r, path)
                st.mem[k] = v
                if len(k) == 3:
                    st.mem[(b, add(off, 4))] = self.msz(v)
            for k in list(st.mem) if anymod else ():
                b, off = k[0], k[1]
                if isinstance(b, Term) and b.op not in ('H', 'A', 'G') and off not in ('size', 'str') and b not in seen:
                    c = 'mpz' if len(k) == 3 else self.cellcls(b, off)
                    if c in anymod:
                        v = mk('Vm' if len(k) == 3 else 'Fm', b, off, r)
                        st.mem[k] = v
                        if len(k) == 3:
                            st.mem[(b, add(off, 4))] = self.msz(v)
            for c in anymod:
                st.aux.post[c] = r
                for k in [k for k in st.aux.post if isinstance(k, tuple) and isinstance(k[0], Term) and k[1] == c]:
                    del st.aux.post[k]
            for b, cs in argmod.items():
                for c in cs:
                    if c not in anymod:
                        st.aux.post[(b, c)] = r
            for i, x in enumerate(args):
                t = dt[i + 1] if i + 1 < len(dt) and dt[i + 1] else ''
                b, off = split(x) if isinstance(x, Term) else (x, 0)
                if isinstance(b, Term) and t.replace(' ', '') == 'char*' and ('*' in anymod or '*' in argmod.get(b, ())):
                    self.setstr(st, x, mk('post', r, 'a%d' % i))
            for k in exact:
                self.mset(st, args[k], mk('post', r, 'a%d*' % k))
            for b in list(seen):
                if isinstance(b, Term) and b.op in ('A', 'H') and (anymod - {'out'} or b in argmod):
                    st.wild.add(b)
                    st.zero.discard(b)
        if ins.res:
            self.eng.setres(st, ins, self.pin.get(name, r))
        return None

    def touched(self, st, eff, args):
        out = set()
        for k, c in eff:
            if k is None:
                out.add(c)
            elif k < len(args) and isinstance(args[k], Term):
                b, o = split(self.res(st, args[k]))
                out.add((b, 'mpz', o) if c == 'mpz0' else (b, c))
        return frozenset(out)

    def label(self, base, off):
        m = self.eng.cellmeta.get((base, off))
        if not m or not isinstance(off, int):
            return off
        fl = self.eng.prog.structs.get(m[0])
        if not fl or m[1] >= len(fl) or m[0] == '__mpz_struct':
            return off
        return m[0] + '.' + fl[m[1]][0]

    def describe(self, st, x, ref, seen, dirty, paths, path, depth):
        """an argument as the callee sees it: objects made by the caller by
        their contents, others by name plus the cells changed so far"""
        x = self.res(st, x)
        b, off = split(x) if isinstance(x, Term) and x.op == 'ptr' else (x, 0)
        if not isinstance(b, Term):
            return x
        own = b.op in ('H', 'A')
        if not own and b.op not in ('S', 'F', 'Fm', 'ext', 'post', 'elem', 'G'):
            return x
        if b.op == 'G':
            return x
        if b in seen:
            return mk('again', seen[b]) if own else x
        if depth > 6:
            return mk('deep',) if own else x
        seen[b] = path
        if (b, 'str') in st.mem:
            return st.mem[(b, 'str')]
        cells = []
        for k, v in list(st.mem.items()):
            if k[0] is not b or k[1] in ('size', 'str'):
                continue
            if len(k) == 2 and ((b, k[1], 'v') in st.mem or (b, add(k[1], -4), 'v') in st.mem):
                continue
            cells.append((k, v))
        cells.sort(key=lambda kv: repr(kv[0][1]))
        out = []
        for k, v in cells:
            o = k[1]
            c = 'mpz' if len(k) == 3 else self.cellcls(b, o)
            lab = self.label(b, o)
            p = '%s.%s' % (path, lab)
            paths.append((b, o, k, p))
            if isinstance(v, Term) and v.op == 'U':
                continue
            lazy = isinstance(v, Term) and v.op in ('F', 'V', 'Fm', 'Vm') and v.args[0] is b and v.args[1] == o
            post = isinstance(v, Term) and v.op == 'post'
            if c != '*' and not ref.sees(b, o, c):
                if isinstance(v, Term) and v.op in ('H', 'A', 'F', 'Fm', 'ext'):
                    self.describe(st, v, ref, seen, dirty, paths, p, depth + 1)
                continue
            d = self.describe(st, v, ref, seen, dirty, paths, p, depth + 1) if isinstance(v, Term) else v
            if lazy or post:
                continue
            if own:
                if d == 0 and isinstance(d, int):
                    continue
                out.append(mk('is', lab, d))
            else:
                dirty.append((b, lab, d))
        if own:
            r = mk('holds', *out)
            return mk('at', r, off) if isinstance(x, Term) and x.op == 'ptr' and not (isinstance(off, int) and off == 0) else r
        return x

    def indirect_call(self, st, ins, target, args):
        a = [self.argterm(st, x) for x in args]
        ev = mk('callobj', 'indirect', target, *a)
        st.aux.calls += ((ev, ALLC, ALLC),)
        n = self.tick(st, ('opq', ev))
        self.eng.setres(st, ins, mk('ext', 'indirect', target, *(a + ([n] if n else []))))
        return None

    # ---------------------------------------------------------- isl
    def res(self, st, t):
        """follow in-place updates"""
        while isinstance(t, Term) and t in st.aux.alias:
            t = st.aux.alias[t]
        return t

    def valof(self, st, t):
        t = self.res(st, t)
        if isinstance(t, Term) and t.op == 'val':
            return t.args[0]
        return mk('valof', t) if isinstance(t, Term) else t

    def affof(self, st, t):
        """(numerator polynomial, denominator)"""
        t = self.res(st, t)
        if isinstance(t, Term) and t.op == 'aff':
            return t.args
        return (mk('affof', t) if isinstance(t, Term) else 0), 1

    def conof(self, st, t):
        """(kind, polynomial)"""
        t = self.res(st, t)
        if isinstance(t, Term) and t.op == 'con':
            return t.args[0], t.args[1]
        return mk('kindof', t), mk('conof', t)

    def coef(self, p, ty, pos):
        """coefficient of a dimension in a polynomial over dimension variables"""
        c, parts = lin_parts(p)
        tot = 0
        for t, k in parts.items():
            if t.op in ('conof', 'affof'):
                tot = add(tot, scale(mk('coef', t.args[0], ty, pos), k))
            elif t.op == 'prod':
                ats = t.args
                xs = [a for a in ats if a.op == 'x']
                if len(xs) == 1 and xs[0].args == (ty, pos):
                    rest = [a for a in ats if a.op != 'x']
                    r = rest[0] if len(rest) == 1 else mk('prod', *rest)
                    tot = add(tot, scale(r, k))
                op = [a for a in ats if a.op in ('conof', 'affof')]
                if op and not xs:
                    rest = [a for a in ats if a is not op[0]]
                    r = mk('coef', op[0].args[0], ty, pos)
                    for z in rest:
                        r = pmul(r, z)
                    tot = add(tot, scale(r, k))
            elif t.op == 'x' and t.args == (ty, pos):
                tot = add(tot, k)
        return tot

    def cst(self, p):
        c, parts = lin_parts(p)
        tot = c
        for t, k in parts.items():
            if t.op in ('conof', 'affof'):
                tot = add(tot, scale(mk('coef', t.args[0], 'cst', 0), k))
            elif t.op == 'prod':
                if any(a.op == 'x' for a in t.args):
                    continue
                op = [a for a in t.args if a.op in ('conof', 'affof')]
                if op:
                    r = mk('coef', op[0].args[0], 'cst', 0)
                    for z in t.args:
                        if z is not op[0]:
                            r = pmul(r, z)
                    tot = add(tot, scale(r, k))
                else:
                    tot = add(tot, scale(t, k))
            elif t.op != 'x' and not (t.op == 'fdiv' and self.hasx(t)):
                tot = add(tot, scale(t, k))
        return tot

    def hasx(self, t):
        if not isinstance(t, Term):
            return False
        if t.op == 'x':
            return True
        for a in t.args:
            if isinstance(a, tuple):
                if any(self.hasx(y) for x in a for y in (x if isinstance(x, tuple) else (x,))):
                    return True
            elif self.hasx(a):
                return True
        return False

    def setcoef(self, p, ty, pos, v):
        x = mk('x', ty, pos)
        return add(sub(p, pmul(self.coef(p, ty, pos), x)), pmul(v, x))

    @staticmethod
    def affdim(t):
        return SETDIM if t == IN else t

    def isl_call(self, st, ins, name, args):
        eng = self.eng
        args = [self.res(st, a) for a in args]
        if MEANING.fullmatch(name) and '_plain_' not in name:
            args = [form_of(a)[0] for a in args]
        outs = self.OUT_TRUE.get(name)
        if outs:
            c = eng.cmp(st, 'ne', mk('isl', name, *self.ins_only(st, name, args)), 0, ('i', 32))
            res = []
            for tr in (1, 0):
                s = st.copy()
                if not eng.assume(s, c, bool(tr)):
                    continue
                if tr:
                    for o in outs:
                        b, off = split(args[o])
                        s.mem[(b, off)] = self.isl_out(s, ins, name, args, o)
                eng.setres(s, ins, tr)
                eng.advance(s)
                res.append(s)
            return res
        r = self.isl_model(st, ins, name, args)
        if r is not NotImplemented:
            if isinstance(r, list):
                return r
            if ins.res is not None:
                eng.setres(st, ins, r)
            c = eng.isl[name]
            if name.startswith('isl_constraint_set_') and (ins.res is None or not self.used(ins)):
                st.aux.alias[args[0]] = r
            return None
        return Models.isl_call(self, st, ins, name, args)

    def isl_result(self, st, ins, name, args):
        c = self.eng.isl[name]
        a = []
        for x, raw in zip(args, c.raw):
            if 'isl_ctx' in raw:
                continue
            a.append(self.argterm(st, x))
        if name.endswith('read_from_file'):
            a.append(self.tick(st, ('read', args[1])))
        if name in COMM:
            a.sort(key=lambda x: (0, x) if isinstance(x, int) else (1, x.id) if isinstance(x, Term) else (2, 0))
        nm = NAME.get(name, name)
        if nm in ('intersect', 'union'):
            a = self.flatten(nm, a)
            if len(a) == 1:
                return a[0]
        if nm == 'whole':
            return a[0]
        return mk('isl', nm, *a)

    def flatten(self, nm, a):
        unit = 'universe' if nm == 'intersect' else 'isl_set_empty'
        out, units = [], []
        for x in a:
            if isinstance(x, Term) and x.op == 'isl' and x.args[0] == nm:
                out.extend(x.args[1:])
            elif isinstance(x, Term) and x.op == 'isl' and x.args[0] == unit:
                units.append(x)
            else:
                out.append(x)
        seen = []
        for x in out:
            if x not in seen:
                seen.append(x)
        if not seen:
            return units[:1]
        return sorted(seen, key=lambda x: (0, x) if isinstance(x, int) else (1, x.id))

    def isl_model(self, st, ins, name, args):
        eng = self.eng
        I64 = ('i', 64)
        if name in SAME:
            return args[0]
        m = FORM.fullmatch(name)
        if m:
            return formed((m.group(1),), args[0])
        if name.endswith('_free'):
            return 0
        if name.endswith('_get_ctx') or name == 'isl_ctx_alloc':
            return mk('ctx')
        if name.endswith('_is_params'):
            return 0
        # sizes
        m = re.fullmatch(r'isl_(set|map|basic_set|basic_map|space|constraint|aff|local_space)_dim', name)
        if m:
            x = args[0]
            while isinstance(x, Term) and x.op == 'isl' and x.args[0] == 'space':
                x = x.args[1]
            ty = args[1]
            if m.group(1) in ('aff', 'local_space'):
                ty = self.affdim(ty)
            return self.dim(x, ty)
        if name == 'isl_set_n_dim':
            return self.dim(args[0], SETDIM)
        if name == 'isl_basic_set_total_dim':
            return self.dim(args[0], ALL)
        if name in ('isl_set_n_basic_set', 'isl_basic_set_list_n_basic_set'):
            return mk('count', args[0])
        if name == 'isl_basic_set_list_get_basic_set':
            return mk('elem', args[0], args[1])
        # values
        if name in ('isl_val_int_from_si', 'isl_val_int_from_ui'):
            return mk('val', args[1])
        if name == 'isl_val_zero':
            return mk('val', 0)
        if name == 'isl_val_one':
            return mk('val', 1)
        if name == 'isl_val_negone':
            return mk('val', -1)
        if name == 'isl_val_int_from_gmp':
            return mk('val', self.mval(st, args[1]))
        if name == 'isl_val_get_num_gmp':
            self.mset(st, args[1], self.valof(st, args[0]))
            return 0
        if name == 'isl_val_get_num_si':
            return mk('num', self.valof(st, args[0])) if not isinstance(self.valof(st, args[0]), int) else self.valof(st, args[0])
        if name == 'isl_val_read_from_str':
            s = self.strval(st, args[1])
            if isinstance(s, Term) and s.op == 'strof':
                return mk('val', s.args[0])
            if isinstance(s, str) and re.fullmatch(r'-?\d+', s):
                return mk('val', int(s))
            return mk('val', mk('parse', s, 10))
        if name.startswith('isl_val_'):
            n = name[8:]
            v = lambda i=0: self.valof(st, args[i])
            c = lambda p, k, w=None: eng.cmp(st, p, v() if w is None else w, k, I64)
            if n in ('is_zero', 'is_one', 'is_negone', 'is_pos', 'is_neg', 'is_nonneg', 'is_nonpos'):
                if isinstance(args[0], int):
                    return 0
                return {'is_zero': lambda: c('eq', 0), 'is_one': lambda: c('eq', 1), 'is_negone': lambda: c('eq', -1),
                        'is_pos': lambda: c('sgt', 0), 'is_neg': lambda: c('slt', 0), 'is_nonneg': lambda: c('sge', 0),
                        'is_nonpos': lambda: c('sle', 0)}[n]()
            if n == 'is_int':
                return 1
            if n in ('is_nan', 'is_infty', 'is_neginfty', 'is_rat'):
                return mk('isl', name, v()) if not isinstance(v(), int) else (1 if n == 'is_rat' else 0)
            if n in ('lt', 'gt', 'le', 'ge', 'eq', 'ne'):
                p = {'lt': 'slt', 'gt': 'sgt', 'le': 'sle', 'ge': 'sge', 'eq': 'eq', 'ne': 'ne'}[n]
                return eng.cmp(st, p, v(0), v(1), I64)
            if n == 'sgn':
                return self.msz(v())
            if n == 'neg':
                return mk('val', neg(v()))
            if n == 'abs':
                return mk('val', self.absv(st, v()))
            if n in ('add', 'add_ui', 'sub', 'sub_ui', 'mul', 'mul_ui', 'div', 'gcd'):
                b = args[1] if n.endswith('_ui') else v(1)
                n = n[:3]
                return mk('val', {'add': lambda: add(v(), b), 'sub': lambda: sub(v(), b), 'mul': lambda: pmul(v(), b),
                                  'div': lambda: self.exact(v(), b), 'gcd': lambda: self.gcd(v(), b)}[n]())
            return NotImplemented
        # affine expressions
        if name.startswith('isl_aff_'):
            n = name[8:]
            if n == 'zero_on_domain':
                return mk('aff', 0, 1)
            if n in ('get_coefficient_val',):
                p, d = self.affof(st, args[0])
                return mk('val', self.coef(p, self.affdim(args[1]), args[2]))
            if n == 'get_constant_val':
                p, d = self.affof(st, args[0])
                return mk('val', self.cst(p))
            if n == 'get_denominator_val':
                p, d = self.affof(st, args[0])
                if isinstance(p, Term) and p.op == 'affof':
                    return mk('val', mk('den', p.args[0]))
                return mk('val', d)
            p, d = self.affof(st, args[0])
            if n in ('set_coefficient_val', 'set_coefficient_si', 'add_coefficient_si', 'add_coefficient_val'):
                v = self.valof(st, args[3]) if n.endswith('_val') else args[3]
                ty = self.affdim(args[1])
                v = pmul(v, d)
                if n.startswith('set'):
                    return mk('aff', self.setcoef(p, ty, args[2], v), d)
                return mk('aff', add(p, pmul(v, mk('x', ty, args[2]))), d)
            if n in ('set_constant_val', 'add_constant_val', 'set_constant_si', 'add_constant_si'):
                v = self.valof(st, args[1]) if n.endswith('_val') else args[1]
                v = pmul(v, d)
                return mk('aff', add(sub(p, self.cst(p)) if n.startswith('set') else p, v), d)
            if n == 'neg':
                return mk('aff', neg(p), d)
            if n in ('add', 'sub'):
                q, e = self.affof(st, args[1])
                if d is e or d == e:
                    return mk('aff', (add if n == 'add' else sub)(p, q), d)
                return mk('aff', (add if n == 'add' else sub)(pmul(p, e), pmul(q, d)), pmul(d, e))
            if n == 'scale_val':
                return mk('aff', pmul(p, self.valof(st, args[1])), d)
            if n == 'scale_down_val':
                return mk('aff', p, pmul(d, self.valof(st, args[1])))
            if n == 'floor':
                return mk('aff', fdiv(p, d), 1)
            if n == 'ceil':
                return mk('aff', neg(fdiv(neg(p), d)), 1)
            if n == 'drop_dims':
                return mk('aff', mk('dropdims', p, self.affdim(args[1]), args[2], args[3]), d)
            return NotImplemented
        # constraints
        if name in ('isl_equality_alloc', 'isl_inequality_alloc'):
            return mk('con', 'eq' if 'in' not in name[4:6] else 'ge', 0, self.tick(st, 'con') + 1)
        if name in ('isl_equality_from_aff', 'isl_inequality_from_aff'):
            p, d = self.affof(st, args[0])
            return mk('con', 'eq' if name == 'isl_equality_from_aff' else 'ge', p if d == 1 else mk('over', p, d), 0)
        if name.startswith('isl_constraint_'):
            n = name[15:]
            if n == 'is_equality':
                k, p = self.conof(st, args[0])
                if isinstance(k, str):
                    return 1 if k == 'eq' else 0
                return mk('isl', name, k.args[0])
            if n == 'get_coefficient_val':
                k, p = self.conof(st, args[0])
                return mk('val', self.coef(p, args[1], args[2]))
            if n == 'get_constant_val':
                k, p = self.conof(st, args[0])
                return mk('val', self.cst(p))
            if n == 'get_aff':
                k, p = self.conof(st, args[0])
                return mk('aff', p, 1)
            if n in ('get_bound', 'get_div'):
                if n == 'get_bound':
                    return mk('aff', mk('isl', name, self.res(st, args[0]), *args[1:]), 1)
                return mk('isl', name, self.res(st, args[0]), *args[1:])
            if n in ('set_coefficient_val', 'set_coefficient_si', 'set_constant_val', 'set_constant_si'):
                k, p = self.conof(st, args[0])
                t = self.res(st, args[0])
                uid = t.args[2] if t.op == 'con' else 0
                if n.startswith('set_coef'):
                    v = self.valof(st, args[3]) if n.endswith('val') else args[3]
                    return mk('con', k, self.setcoef(p, args[1], args[2], v), uid)
                v = self.valof(st, args[1]) if n.endswith('val') else args[1]
                return mk('con', k, add(sub(p, self.cst(p)), v), uid)
        # printing
        if name == 'isl_printer_to_file':
            return mk('printer', args[1], 0)
        if name == 'isl_printer_to_str':
            return mk('printer', 'str', self.tick(st, 'printer') + 1)
        if name == 'isl_printer_set_output_format':
            return mk('printer', args[0].args[0], args[1])
        if name.startswith('isl_printer_print_') or name in ('isl_printer_start_line', 'isl_printer_end_line'):
            p = args[0]
            if not (isinstance(p, Term) and p.op == 'printer'):
                return NotImplemented
            if name == 'isl_printer_start_line':
                return p
            if name == 'isl_printer_end_line':
                h = '\n'
            elif name == 'isl_printer_print_val':
                h = self.hole_int(self.valof(st, args[1]))
            elif name == 'isl_printer_print_str':
                s = self.strval(st, args[1])
                h = s if isinstance(s, str) else mk('str', s)
            elif name == 'isl_printer_print_int':
                h = self.hole_int(args[1])
            else:
                h = mk('shown', name[18:], p.args[1], args[1])
            if p.args[0] == 'str':
                st.aux.strp[p] = st.aux.strp.get(p, ()) + (h,)
            else:
                self.emit(st, p.args[0], [h])
            return p
        if name == 'isl_printer_get_str':
            r = eng.fresh(st, 'H', name, ins)
            st.wild.add(r)
            ps = st.aux.strp.get(args[0], ())
            if len(ps) == 1 and isinstance(ps[0], Term) and ps[0].op == 'int':
                st.mem[(r, 'str')] = mk('strof', ps[0].args[0])
            elif len(ps) == 1 and isinstance(ps[0], str):
                st.mem[(r, 'str')] = ps[0]
            else:
                st.mem[(r, 'str')] = mk('text', *ps)
            return r
        # maximum/minimum queries give values
        c = eng.isl[name]
        if 'isl_val' in c.rettype:
            a = [x for x, raw in zip(args, c.raw) if 'isl_ctx' not in raw]
            return mk('val', mk('isl', name, *[self.argterm(st, x) for x in a]))
        if 'isl_aff' in c.rettype and 'pw' not in c.rettype:
            return mk('aff', mk('isl', name, *[self.argterm(st, x) for x in args]), 1)
        if name.endswith('_dim_residue_class_val'):
            for i, w in ((2, 'mod'), (3, 'rem')):
                b, off = split(args[i])
                st.mem[(b, off)] = mk('val', mk('isl', name + '.' + w, args[0], args[1]))
            return 0
        return NotImplemented

    def dim(self, x, ty):
        return mk('dim', x, ty)

    def isl_out(self, st, ins, name, args, i):
        return mk('isl', name + '.out%d' % i, *self.ins_only(st, name, args))

    def ins_only(self, st, name, args):
        return [self.argterm(st, x) for x, raw in zip(args, self.eng.isl[name].raw)
                if raw.count('*') < 2 and 'isl_ctx' not in raw]

    def foreach_elem(self, st, ins, name, args, n):
        return mk('elem', self.res(st, args[0]), n)

    def isl_foreach(self, st, ins, name, args, c, k):
        """callback once per element; the number of elements is a term"""
        eng = self.eng
        f = args[k]
        fn = eng.prog.funcs.get(f.args[0]) if isinstance(f, Term) and f.op == 'fn' else None
        if fn is None or any(x.fn is fn for x in st.frames) or len(st.frames) >= eng.max_depth:
            ev = mk('callobj', name, *[self.argterm(st, x) for x in args])
            st.aux.calls += ((ev, ALLC, ALLC),)
            eng.setres(st, ins, mk('ext', name, *[self.argterm(st, x) for x in args]))
            return None
        user = args[k + 1]
        cnt = mk('count', self.res(st, args[0]))
        lim = eng.max_iter

        def go(s, i):
            """about to process element i: returns the successor states"""
            out = []
            more = eng.cmp(s, 'sgt', cnt, i, ('i', 64))
            q = eng.query(s, more)
            for tr in ([q] if q is not None else [1, 0]):
                if tr and i >= lim:
                    continue
                s2 = s.copy()
                if not eng.assume(s2, more, bool(tr)):
                    continue
                if tr:
                    t = mk('elem', self.res(s2, args[0]), i)
                    def cont(e, s3, rv, i=i):
                        return after(s3, rv, i)
                    cont.key = (eng.site(ins), i)
                    eng.push(s2, fn, [t, user], ins, cont=cont)
                else:
                    eng.setres(s2, ins, 0)
                    eng.advance(s2)
                out.append(s2)
            if not out:
                raise PathEnd('infeasible')
            return out

        def after(s, rv, i):
            if rv is None or is_bool(rv):
                return go(s, i + 1)
            cond = eng.cmp(s, 'slt', rv, 0, ('i', 32))
            q = eng.query(s, cond)
            outs = []
            for tr in ([q] if q is not None else [1, 0]):
                s2 = s.copy()
                if not eng.assume(s2, cond, bool(tr)):
                    continue
                if tr:
                    eng.setres(s2, ins, -1)
                    eng.advance(s2)
                    outs.append(s2)
                else:
                    outs.extend(go(s2, i + 1))
            if not outs:
                raise PathEnd('infeasible')
            return outs

        return go(st, 0)


# ------------------------------------------------------------- serialising
class Ser:
    """terms of one final state -> trees independent of the analysis run"""

    def __init__(self, eng, st, fn, names):
        self.eng, self.st, self.fn = eng, st, fn
        self.names = names          # parameter name -> index
        self.memo = {}
        self.num = {}
        self.cells = {}
        for k, v in st.mem.items():
            self.cells.setdefault(k[0], []).append((k, v))

    def leaf(self, base, off):
        m = self.eng.cellmeta.get((base, off))
        if not m or not isinstance(off, int):
            return self.tree(off) if isinstance(off, Term) else off
        sn, i = m
        for _ in range(4):
            fl = self.eng.prog.structs.get(sn)
            if not fl or i >= len(fl):
                return off
            t = fl[i][2]
            if t.startswith('struct ') and '*' not in t and '[' not in t and t[7:] in self.eng.prog.structs \
                    and t[7:] != '__mpz_struct':
                sn, i = t[7:], 0
                continue
            break
        if sn == '__mpz_struct':
            return off
        d = off - fl[i][1]
        return sn + '.' + fl[i][0] + ('@%d' % d if d else '')

    def undefined(self, t, cs):
        """fields of a fresh, not zeroed object that were never written"""
        best = None
        offs = set()
        for k, v in cs:
            if not isinstance(k[1], int):
                continue
            if not (isinstance(v, Term) and v.op == 'U'):
                offs.add(k[1])
            m = self.eng.cellmeta.get((t, k[1]))
            fl = self.eng.prog.structs.get(m[0]) if m else None
            if fl and m[1] < len(fl) and fl[m[1]][1] == k[1] and (best is None or len(fl) > len(best[1])):
                best = (m[0], fl)
        if not best or best[0] == '__mpz_struct':
            return []
        out = []
        def flat(sn, base):
            for n, o, ty, sz in self.eng.prog.structs[sn]:
                inner = ty[7:] if ty.startswith('struct ') and '*' not in ty and '[' not in ty else None
                if inner in self.eng.prog.structs and inner != '__mpz_struct':
                    yield from flat(inner, base + o)
                else:
                    yield sn, n, base + o, ty, sz

        for sn, n, o, ty, sz in flat(best[0], 0):
            if sz and '[' not in ty and not any(o <= x < o + max(1, sz // 8) for x in offs):
                out.append(('%s.%s' % (sn, n), ('undef',)))
        return out

    def overrun(self):
        """a store certainly past the end of its block"""
        st = self.st
        for k in st.mem:
            b, off = k[0], k[1]
            if isinstance(b, Term) and b.op == 'H' and isinstance(off, int) and (b, 'size') in st.mem:
                size = st.mem[(b, 'size')]
                if any(self.eng.fact(st, a)[0] < 0 for a in lin_parts(size)[1]):
                    continue
                if off >= self.eng.bounds(st, size)[1]:
                    return off
        return None

    def tree(self, t):
        if not isinstance(t, Term):
            if isinstance(t, tuple):
                return tuple(self.tree(x) for x in t)
            if isinstance(t, float):
                return str(t)
            return t
        if t.op == 'H' or (t.op == 'A'):
            return self.obj(t)
        r = self.memo.get(t)
        if r is None:
            r = self.tree1(t)
            if not self.has_obj(r):
                self.memo[t] = r
        return r

    def top(self, t):
        return self.tree(self.eng.dom.res(self.st, t))

    def has_obj(self, r):
        if isinstance(r, tuple):
            return (r and r[0] in ('new', '#')) or any(self.has_obj(x) for x in r)
        return False

    def tree1(self, t):
        op = t.op
        if op == 'S':
            n = t.args[0]
            return ('p', self.names[n]) if n in self.names else ('S', str(n))
        if op == 'G':
            g = self.eng.string(t)
            if g is not None:
                return ('lit', g)
            return ('G', t.args[1])
        if op == 'fn':
            f = self.eng.prog.funcs.get(t.args[0])
            if f is not None and f.internal:
                return ('fn', self.eng.dom.sig(f))
            return ('fn', t.args[0])
        if op == 'U':
            return ('undef',)
        if op in ('Fm', 'Vm'):
            return (op, self.tree(t.args[0]), self.leaf(t.args[0], t.args[1]), self.tree(t.args[2]))
        if op == 'F':
            return ('F', self.tree(t.args[0]), self.leaf(t.args[0], t.args[1]))
        if op == 'V':
            return ('V', self.tree(t.args[0]), self.leaf(t.args[0], t.args[1]))
        if op == 'ptr':
            s = self.eng.string(t)
            if s is not None:
                return ('lit', s)
            return ('ptr', self.tree(t.args[0]), self.leaf(t.args[0], t.args[1]))
        if op == 'lin':
            return lin_tree(t.args[0], [(self.tree(x), k) for x, k in t.args[1]])
        if op in ('prod', 'gcd', 'lcm'):
            return (op,) + tuple(sorted((self.tree(x) for x in t.args), key=repr))
        if op == 'eq':
            tv = self.tree(t.args[0])
            if self.eng.dom.default_fact(t.args[0]) == Deno.B01:
                return ('not', tv) if t.args[1] == 0 else tv if t.args[1] == 1 else 0
            return norm_cond('eq', tv, t.args[1])
        if op == 'le':
            return norm_cond('le', self.tree(t.args[0]), t.args[1])
        if op == 'not':
            x = self.tree(t.args[0])
            return not_tree(x)
        if op == 'peq':
            return ('peq',) + tuple(sorted((self.tree(x) for x in t.args), key=repr))
        if op == 'con':
            k, p, uid = t.args
            k = self.tree(k)
            p = self.tree(p)
            if k == 'eq' and isinstance(p, tuple) and p[0] == 'lin' and p[2][0][1] < 0:
                p = lin_tree(-p[1], [(x, -c) for x, c in p[2]])
            if isinstance(k, tuple) and isinstance(p, tuple) and p[0] == 'conof':
                return p[1]
            return ('con', k, p)
        if op == 'isl':
            a = [self.tree(x) for x in t.args[1:]]
            if t.args[0] in ('intersect', 'union') or t.args[0] in COMM:
                a.sort(key=repr)
            return ('isl', t.args[0]) + tuple(a)
        if op == 'printer':
            return ('printer',)
        r = (op,) + tuple(self.tree(x) for x in t.args)
        return order_with(r) if op in ('ext', 'callobj') else r

    def obj(self, t):
        if t in self.num:
            return ('#', self.num[t])
        n = self.num[t] = len(self.num)
        s = None
        fields = []
        cs = self.cells.get(t, ())
        mp = {k[1] for k, v in cs if len(k) == 3}
        for k, v in sorted(cs, key=lambda kv: (len(kv[0]), repr(kv[0][1]))):
            off = k[1]
            if off == 'str':
                s = self.tree(v)
                continue
            if off == 'size':
                continue
            if len(k) == 2 and (off in mp or (isinstance(off, int) and off - 4 in mp) or
                                (isinstance(off, Term) and add(off, -4) in mp)):
                continue
            if isinstance(v, Term) and v.op == 'U':
                continue
            if isinstance(v, Term) and v.op == 'F' and v.args[0] is t:
                continue
            x = self.top(v)
            if x == 0:
                continue
            fields.append((self.leaf(t, off), x))
        for (do, ln, sb, so, ep) in self.st.copies.get(t, ()):
            fields.append(('copy', do, ln, self.tree(sb), so))
        if s is None and t.op == 'H' and (t, 0) in self.st.mem:
            b = self.eng.dom.bytetext(self.st, t)
            s = None if b is None else self.tree(b)
        if s is not None:
            return ('text', s)
        if t.op == 'H' and t not in self.st.zero and t not in self.st.wild and t not in self.st.copies:
            fields += self.undefined(t, cs)
        return ('new', n, tuple(sorted(fields, key=repr)))

    def facts(self):
        out = {}
        for V, (lo, hi, ne) in self.st.facts.items():
            if isinstance(V, Term) and (V.op in ('H', 'A', 'G', 'fn', 'val', 'aff', 'con', 'elem') or
                                        V.op == 'isl' and '.out' in V.args[0]):
                continue
            if isinstance(V, Term) and is_bool(V):
                tv = self.tree(V)
                if isinstance(tv, tuple) and tv[0] == 'not':
                    lo, hi, tv = 1 - hi, 1 - lo, tv[1]
                out[tv] = (lo, hi, ne)
                continue
            tv = self.tree(V)
            if isinstance(tv, int):
                continue
            s, c, b = lin_sign(tv)
            if s < 0:
                lo, hi = -hi, -lo
                ne = frozenset(-x for x in ne)
            tv = b
            if c:
                lo, hi, ne = lo - c * s, hi - c * s, frozenset(x - c * s for x in ne)
            old = out.get(tv)
            if old:
                lo, hi, ne = max(lo, old[0]), min(hi, old[1]), ne | old[2]
            out[tv] = (lo, hi, frozenset(ne))
        return out

    def record(self, kind, rv):
        st = self.st
        fx = []
        for k, v in st.mem.items():
            b, off = k[0], k[1]
            if not isinstance(b, Term) or b.op in ('H', 'A') or b in st.aux.freed:
                continue
            if off in ('size', 'str'):
                continue
            if b.op == 'G' and self.eng.string(b) is not None:
                continue
            if len(k) == 3:
                if isinstance(v, Term) and v.op in ('V', 'Vm') and v.args[0] is b and v.args[1] == off:
                    continue
                cell = ('V', self.tree(b), self.leaf(b, off))
            else:
                if (b, off, 'v') in st.mem or (b, add(off, -4), 'v') in st.mem:
                    continue
                if isinstance(v, Term) and v.op in ('F', 'Fm') and v.args[0] is b and v.args[1] == off:
                    continue
                t = st.mem.get((b, 'str'))
                if isinstance(t, str) and isinstance(off, int) and 0 <= off <= len(t) and v == ord((t + '\0')[off]):
                    continue
                cell = ('F', self.tree(b), self.leaf(b, off))
            fx.append((cell, v))
        for t in st.aux.alias:
            if t.op in ('S', 'F'):
                fx.append((('obj', self.tree(t)), t))
        fx.sort(key=lambda x: repr(x[0]))
        ret = self.top(rv) if rv is not None else None
        fx = [(c, self.top(v)) for c, v in fx]
        out = []
        for s, ps in st.aux.out.items():
            out.append((self.tree(s), tuple(p if isinstance(p, str) else self.tree(p) for p in ps)))
        out.sort(key=repr)
        calls = tuple(self.tree(c) for c, m, r in st.aux.calls)
        over = self.overrun()
        if over is not None:
            kind = 'write past the end of a block'
        return {'kind': kind, 'ret': ret, 'fx': fx, 'out': out, 'calls': calls, 'deps': call_deps(st.aux.calls), 'facts': self.facts()}


def overlap(x, y):
    """may two sets of touched memory share a cell?"""
    for a in x:
        for b in y:
            ca, cb = (a if isinstance(a, str) or len(a) == 2 and isinstance(a[0], str) else a[1],
                      b if isinstance(b, str) or len(b) == 2 and isinstance(b[0], str) else b[1])
            if ca != cb:
                continue
            if ca is a or cb is b:
                return True
            if a[0] is b[0] and (len(a) < 3 or len(b) < 3 or a[2] == b[2]):
                return True
    return False


def conflict(a, b):
    if a[1] is ALLC or b[1] is ALLC:
        return True
    return overlap(a[1], b[1]) or overlap(a[1], b[2]) or overlap(b[1], a[2])


def call_deps(ev):
    """for each call the earlier ones it must follow; None when that is all"""
    d = [[j for j in range(i) if conflict(ev[i], ev[j])] for i in range(len(ev))]
    return None if all(len(x) == i for i, x in enumerate(d)) else d


def canon_order(calls, deps):
    """the calls in a canonical order among those that only swap calls which
    touch different memory"""
    if deps is None:
        return tuple(calls)
    out, left, done = [], list(range(len(calls))), set()
    key = [repr(c) for c in calls]
    while left:
        i = min((i for i in left if all(j in done for j in deps[i])), key=lambda i: (key[i], i))
        left.remove(i)
        done.add(i)
        out.append(calls[i])
    return tuple(out)


def lin_tree(c, items):
    d = {}
    for x, k in items:
        if isinstance(x, int):
            c += x * k
        elif isinstance(x, tuple) and x[0] == 'lin':
            c += x[1] * k
            for y, m in x[2]:
                d[y] = d.get(y, 0) + m * k
        else:
            d[x] = d.get(x, 0) + k
    it = sorted([(x, k) for x, k in d.items() if k], key=lambda p: repr(p[0]))
    if not it:
        return c
    if c == 0 and len(it) == 1 and it[0][1] == 1:
        return it[0][0]
    return ('lin', c, tuple(it))


def lin_sign(t):
    """t = s*b + c with b's first coefficient positive and no constant"""
    if isinstance(t, tuple) and t and t[0] == 'lin':
        s = 1 if t[2][0][1] > 0 else -1
        return s, t[1], lin_tree(0, [(x, k * s) for x, k in t[2]])
    return 1, 0, t


def norm_cond(op, v, k):
    """eq(v,k) / le(v,k) with canonical sign"""
    if isinstance(v, int):
        return int(v == k) if op == 'eq' else int(v <= k)
    s, c, b = lin_sign(v)
    k = k - c
    if op == 'eq':
        return ('eq', b, k * s)
    if s > 0:
        return ('le', b, k)
    return not_tree(('le', b, -k - 1))


def not_tree(x):
    if isinstance(x, int):
        return 1 - x
    if isinstance(x, tuple) and x[0] == 'not':
        return x[1]
    return ('not', x)


# ------------------------------------------------------------- evaluation under facts
def order_with(r):
    w = [x for x in r if isinstance(x, tuple) and x and x[0] == 'with']
    if not w:
        return r
    return tuple(x for x in r if not (isinstance(x, tuple) and x and x[0] == 'with')) + tuple(sorted(w, key=repr))


class Eval:
    def __init__(self, facts):
        self.f = facts
        self.memo = {}

    def rng(self, t):
        if isinstance(t, int):
            return t, t
        f = self.f.get(t)
        lo, hi = (f[0], f[1]) if f else (-INF, INF)
        if isinstance(t, tuple) and t[0] == 'lin':
            s, c, b = lin_sign(t)
            f = self.f.get(b)
            if f:
                a, z = (f[0], f[1]) if s > 0 else (-f[1], -f[0])
                lo, hi = max(lo, a + c), min(hi, z + c)
            l = h = t[1]
            for x, k in t[2]:
                a, z = self.rng(x) if not (isinstance(x, tuple) and x[0] == 'lin') else (-INF, INF)
                if k < 0:
                    a, z = z, a
                l += k * a
                h += k * z
            lo, hi = max(lo, l), min(hi, h)
        return lo, hi

    def ev(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        r = self.memo.get(t)
        if r is not None or t in self.memo:
            return r
        r = self.ev1(t)
        if r != t and isinstance(r, tuple):
            f = self.f.get(r)
            if f and f[0] == f[1]:
                r = f[0]
        self.memo[t] = r
        return r

    def ev1(self, t):
        f = self.f.get(t)
        if f and f[0] == f[1]:
            return f[0]
        op = t[0]
        if op == 'lin':
            x = lin_tree(t[1], [(self.ev(a), k) for a, k in t[2]])
            if isinstance(x, tuple):
                lo, hi = self.rng(x)
                if lo == hi:
                    return lo
            return x
        if op in ('eq', 'le'):
            v = self.ev(t[1])
            k = t[2]
            lo, hi = self.rng(v)
            if op == 'eq':
                if lo == hi == k:
                    return 1
                if k < lo or k > hi:
                    return 0
                s, c, b = lin_sign(v)
                ff = self.f.get(b)
                if ff and (k - c) * s in ff[2]:
                    return 0
            else:
                if hi <= k:
                    return 1
                if lo > k:
                    return 0
            return norm_cond(op, v, k)
        if op == 'not':
            return not_tree(self.ev(t[1]))
        if op == 'sel':
            c = self.ev(t[1])
            if isinstance(c, int):
                return self.ev(t[2] if c else t[3])
        if op == 'prod':
            c, rest = 1, []
            for x in t[1:]:
                x = self.ev(x)
                if isinstance(x, int):
                    c *= x
                else:
                    rest.append(x)
            if c == 0 or not rest:
                return c if not rest else 0
            p = rest[0] if len(rest) == 1 else ('prod',) + tuple(sorted(rest, key=repr))
            return p if c == 1 else lin_tree(0, [(p, c)])
        if op == 'sgn':
            v = self.ev(t[1])
            lo, hi = self.rng(v)
            if lo > 0:
                return 1
            if hi < 0:
                return -1
            if lo == hi == 0:
                return 0
            return ('sgn', v)
        if op == 'abs':
            v = self.ev(t[1])
            lo, hi = self.rng(v)
            if lo >= 0:
                return v
            if hi <= 0:
                return lin_tree(0, [(v, -1)])
            return ('abs', v)
        if op == 'new':
            fl = [tuple(self.ev(x) if isinstance(x, tuple) else x for x in fe) for fe in t[2]]
            fl = [fe for fe in fl if not (len(fe) == 2 and fe[1] == 0)]
            return ('new', t[1], tuple(sorted(fl, key=repr)))
        if op == 'int':
            v = self.ev(t[1])
            return str(v) if isinstance(v, int) else ('int', v)
        if op == 'blanks':
            v = self.ev(t[1])
            return ' ' * abs(v) if isinstance(v, int) else (op, v)
        if op == 'exact':
            a, b = self.ev(t[1]), self.ev(t[2])
            if b == 1:
                return a
            if b == -1:
                return lin_tree(0, [(a, -1)])
            return ('exact', a, b)
        if op == 'fdiv':
            a, b = self.ev(t[1]), self.ev(t[2])
            if b == 1:
                return a
            if isinstance(a, int) and isinstance(b, int) and b:
                return a // b
            return ('fdiv', a, b)
        if op in ('gcd', 'lcm'):
            return (op,) + tuple(sorted((self.ev(x) for x in t[1:]), key=repr))
        if op == 'con':
            k, p = self.ev(t[1]), self.ev(t[2])
            if k == 'eq' and isinstance(p, tuple) and p[0] == 'lin' and p[2][0][1] < 0:
                p = lin_tree(-p[1], [(x, -c) for x, c in p[2]])
            return ('con', k, p)
        if op == 'isl':
            a = [self.ev(x) for x in t[2:]]
            if t[1] in ('intersect', 'union') or t[1] in COMM:
                a.sort(key=repr)
            return (op, t[1]) + tuple(a)
        if op == 'peq':
            a = sorted((self.ev(x) for x in t[1:]), key=repr)
            if a[0] == a[1]:
                return 1
            return (op,) + tuple(a)
        r = tuple(self.ev(x) if isinstance(x, tuple) else x for x in t)
        if op in ('callobj', 'ext'):
            r = order_with(r)
        if op in ('ptr', 'at') and r[2] == 0:
            return r[1]
        return r

    def text(self, ps):
        out = []
        for p in ps:
            p = self.ev(p) if isinstance(p, tuple) else p
            if isinstance(p, tuple) and p[0] == 'str' and isinstance(p[1], tuple) and p[1][0] == 'lit':
                p = p[1][1]
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != '':
                out.append(p)
        return tuple(out)


def merge_facts(a, b):
    """conjunction, or None if contradictory"""
    out = dict(a)
    for k, (lo, hi, ne) in b.items():
        if k in out:
            l, h, n = out[k]
            lo, hi, ne = max(lo, l), min(hi, h), ne | n
        while lo in ne:
            lo += 1
        while hi in ne:
            hi -= 1
        if lo > hi:
            return None
        out[k] = (lo, hi, ne)
    # bits known to be clear
    clear = {}
    for k, (lo, hi, ne) in out.items():
        if isinstance(k, tuple) and k[:2] == ('op', 'and') and len(k) == 4 and isinstance(k[3], int) and lo == hi == 0:
            clear[k[2]] = clear.get(k[2], 0) | k[3]
    for k, (lo, hi, ne) in out.items():
        if clear and isinstance(k, tuple) and k[:2] == ('op', 'and') and len(k) == 4 and isinstance(k[3], int):
            if not k[3] & ~clear.get(k[2], 0) and (lo > 0 or 0 in ne):
                return None
    same = {}
    for k, (lo, hi, ne) in out.items():
        if isinstance(k, tuple) and len(k) == 4 and k[0] == 'strcmp' and lo == hi == 0:
            x, y = (k[3], k[2]) if isinstance(k[2], str) else (k[2], k[3])
            if isinstance(y, str) and same.setdefault(x, y) != y:
                return None
    E = Eval(out)
    extra = {}
    for k, (lo, hi, ne) in out.items():
        if isinstance(k, tuple) and k[0] == 'lin':
            # bounds of the parts
            l = h = k[1]
            for x, c in k[2]:
                a0, z0 = E.rng(x)
                if c < 0:
                    a0, z0 = z0, a0
                l += c * a0
                h += c * z0
            if l > hi or h < lo or (l == h and l in ne):
                return None
        else:
            # a key whose parts are pinned may be decided
            e = Eval({x: y for x, y in out.items() if x != k}).ev(k) if isinstance(k, tuple) else k
            if isinstance(e, int):
                if e < lo or e > hi or e in ne:
                    return None
            elif e != k:
                if e[0] == 'lin':
                    sg, c, e = lin_sign(e)
                    if sg < 0:
                        lo, hi, ne = -hi, -lo, frozenset(-x for x in ne)
                    lo, hi, ne = lo - c * sg, hi - c * sg, frozenset(x - c * sg for x in ne)
                elif e[0] == 'not':
                    lo, hi, ne, e = 1 - hi, 1 - lo, frozenset(1 - x for x in ne), e[1]
                old = out.get(e) or extra.get(e)
                if old:
                    lo, hi, ne = max(lo, old[0]), min(hi, old[1]), ne | old[2]
                    while lo in ne:
                        lo += 1
                    while hi in ne:
                        hi -= 1
                    if lo > hi:
                        return None
                extra[e] = (lo, hi, ne)
    out.update(extra)
    return out


def match(a, b):
    """a (code) is as good as b (required): what is required to be undefined
    may be anything"""
    if a == b or b == ('undef',):
        return True
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return False
    if a and b and a[0] == 'new' and b[0] == 'new':
        fa, fb = {}, {}
        for d, t in ((fa, a), (fb, b)):
            for f in t[2]:
                if len(f) != 2 or f[0] in d:
                    return False
                d[f[0]] = f[1]
        return a[1] == b[1] and all(match(fa.get(k, 0), fb.get(k, 0)) for k in set(fa) | set(fb))
    return len(a) == len(b) and all(match(x, y) for x, y in zip(a, b))


def differ(code, spec, facts):
    """first difference between two outcomes under the facts, or None"""
    E = Eval(facts)
    if code['kind'] != spec['kind']:
        return 'ends with %s instead of %s' % (code['kind'], spec['kind'])
    a, b = E.ev(code['ret']), E.ev(spec['ret'])
    if a != b and not match(a, b):
        return 'returns %s instead of %s' % (pretty(a), pretty(b))
    ca, cb = dict(code['fx']), dict(spec['fx'])
    if set(ca) != set(cb):
        # name the cells under the facts
        ea, eb = {E.ev(k): v for k, v in ca.items()}, {E.ev(k): v for k, v in cb.items()}
        if len(ea) == len(ca) and len(eb) == len(cb):
            ca, cb = ea, eb
    for k in sorted(set(ca) | set(cb), key=repr) if code['kind'] != 'exit' else ():
        x, y = E.ev(ca.get(k, k)), E.ev(cb.get(k, k))
        if x != y and not match(x, y):
            return 'leaves %s in %s instead of %s' % (pretty(x), pretty(k), pretty(y))
    oa, ob = dict(code['out']), dict(spec['out'])
    for k in sorted(set(oa) | set(ob), key=repr):
        x, y = E.text(oa.get(k, ())), E.text(ob.get(k, ()))
        if x != y:
            return 'writes %s to %s instead of %s' % (ptext(x), pretty(k), ptext(y))
    x, y = (canon_order([E.ev(c) for c in r['calls']], r['deps']) for r in (code, spec))
    if x != y:
        for i in range(max(len(x), len(y))):
            p = x[i] if i < len(x) else None
            q = y[i] if i < len(y) else None
            if p != q and not match(p, q):
                return 'calls %s where %s is required' % (pretty(p), pretty(q))
    return None


def ptext(ps):
    return '"' + ''.join(p if isinstance(p, str) else '<%s>' % pretty(p) for p in ps).replace('\n', '\\n') + '"'


def pretty(t):
    if isinstance(t, str):
        return t
    if not isinstance(t, tuple):
        return 'nothing' if t is None else str(t)
    if not t:
        return '()'
    op = t[0]
    if op == 'p':
        return 'arg%d' % t[1]
    if op in ('F', 'V') and len(t) == 3:
        f = t[2]
        if isinstance(f, str):
            return '%s->%s' % (pretty(t[1]), f.split('.')[-1])
        return '%s[%s]' % (pretty(t[1]), pretty(f))
    if op == 'lin':
        s = ' + '.join(('%d*' % k if k != 1 else '') + pretty(x) for x, k in t[2])
        return '(%s%s)' % (s, ' + %d' % t[1] if t[1] else '')
    if op == 'prod':
        return '*'.join(pretty(x) for x in t[1:])
    if op == 'isl':
        return '%s(%s)' % (t[1].replace('isl_', ''), ', '.join(pretty(x) for x in t[2:]))
    if op == 'con':
        return '{%s %s 0}' % (pretty(t[2]), '=' if t[1] == 'eq' else '>=')
    if op == 'x':
        return 'x%s_%s' % (t[1], pretty(t[2]))
    if op == 'val':
        return pretty(t[1])
    if op == 'new':
        return 'new{%s}' % ', '.join('%s: %s' % (str(f[0]).split('.')[-1], pretty(f[1])) for f in t[2])
    if op == 'eq':
        return '(%s == %s)' % (pretty(t[1]), pretty(t[2]))
    if op == 'le':
        return '(%s <= %s)' % (pretty(t[1]), pretty(t[2]))
    if op == 'not':
        return '!' + pretty(t[1])
    if op == 'lit':
        return '"%s"' % t[1]
    return '%s(%s)' % (op, ', '.join(pretty(x) for x in t[1:]))


def pfacts(f):
    out = []
    for k, (lo, hi, ne) in sorted(f.items(), key=lambda x: repr(x[0])):
        s = pretty(k)
        if lo == hi:
            out.append('%s = %s' % (s, lo))
            continue
        if lo > -INF and hi < INF:
            out.append('%s in %s..%s' % (s, lo, hi))
        elif lo > -INF:
            out.append('%s >= %s' % (s, lo))
        elif hi < INF:
            out.append('%s <= %s' % (s, hi))
        for x in sorted(ne):
            out.append('%s != %s' % (s, x))
    return ', '.join(out)


# ------------------------------------------------------------- running
def st_limit(eng, t, off):
    """is the character beyond the bound on the input's lines?"""
    if not eng.inlimit or not (isinstance(t, Term) and t.op == 'line'):
        return False
    return varpart(off)[1] > eng.inlimit[1] if isinstance(off, Term) else off > eng.inlimit[1]


def outcomes(prog, isl, fn, boundary=(), max_iter=2, max_paths=3000, max_steps=1500000, presets=None, args=None, slack=2,
             pin=None, summ=None, inlimit=None):
    """list of outcome records of fn, and whether all paths within the loop
    bound were covered"""
    dom = Deno(boundary)
    dom.pin, dom.summ = pin or {}, summ or {}
    if getattr(prog, '_modref', None) is None:
        prog._modref = ModRef(prog, isl)
    dom.modref = prog._modref
    eng = Engine(prog, isl, dom, max_iter=max_iter, max_paths=max_paths, max_steps=max_steps, max_depth=40)
    eng.merging = False
    eng.split_values = True
    eng.slack = slack
    eng.inlimit = inlimit
    names = {n: i for i, (t, n) in enumerate(fn.params)}
    recs = []
    setup = (lambda st: presets(eng, st, fn)) if presets else None
    for st, kind, rv in eng.run(fn, args=args, setup=setup):
        if kind in ('abort', 'nullderef', 'infeasible'):
            continue
        recs.append(Ser(eng, st, fn, names).record(kind, rv))
    return recs, not eng.truncated, eng


def tojson(r):
    def t(x):
        if isinstance(x, tuple):
            return [t(y) for y in x]
        return x
    return {'kind': r['kind'], 'ret': t(r['ret']), 'fx': [[t(a), t(b)] for a, b in r['fx']],
            'out': [[t(a), t(b)] for a, b in r['out']], 'calls': [t(c) for c in r['calls']], 'deps': r['deps'],
            'facts': sorted([[t(k), None if lo == -INF else lo, None if hi == INF else hi, sorted(ne)]
                             for k, (lo, hi, ne) in r['facts'].items()], key=repr)}


def fromjson(j):
    def t(x):
        if isinstance(x, list):
            return tuple(t(y) for y in x)
        return x
    return {'kind': j['kind'], 'ret': t(j['ret']), 'fx': [(t(a), t(b)) for a, b in j['fx']],
            'out': [(t(a), t(b)) for a, b in j['out']], 'calls': tuple(t(c) for c in j['calls']), 'deps': j['deps'],
            'facts': {t(k): (-INF if lo is None else lo, INF if hi is None else hi, frozenset(ne))
                      for k, lo, hi, ne in j['facts']}}


def compare(code, spec, complete=True):
    """(violations, pairs compared).  Every outcome of the code must agree
    with every required outcome whose conditions can hold at the same time;
    every required outcome must be produced by some path."""
    bad, pairs = [], 0
    for s in spec:
        hit = False
        for c in code:
            f = merge_facts(s['facts'], c['facts'])
            if f is None:
                continue
            hit = True
            pairs += 1
            d = differ(c, s, f)
            if d:
                bad.append((pfacts(f), d))
        if not hit and complete:
            bad.append((pfacts(s['facts']), 'has no outcome'))
    return bad, pairs
