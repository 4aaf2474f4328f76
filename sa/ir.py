"""Textual LLVM-18 IR parser (the subset clang emits for C at -O0 + mem2reg)."""
import re

TOK = re.compile(r'''
   c"(?:[^"\\]|\\.)*"            |
   "(?:[^"\\]|\\.)*"             |
   [%@]"(?:[^"\\]|\\.)*"         |
   [%@!\#][-a-zA-Z$._0-9]+       |
   ![ ]?{                        |
   -?\d+\.\d+(?:e[+-]?\d+)?      |
   0x[0-9A-Fa-f]+                |
   -?\d+                         |
   \.\.\.                        |
   [A-Za-z_][A-Za-z_0-9.]*       |
   [][(){}<>,=*:|!\#]
''', re.X)


def tokenize(s):
    return TOK.findall(s)


# ---------------------------------------------------------------- types
class TypeTable:
    def __init__(self):
        self.structs = {}

    def size_align(self, t):
        k = t[0]
        if k == 'i':
            b = max(1, (t[1] + 7) // 8)
            n = 1
            while n < b:
                n *= 2
            return n, min(n, 16)
        if k == 'ptr':
            return 8, 8
        if k == 'float':
            return 4, 4
        if k == 'double':
            return 8, 8
        if k == 'fp80':
            return 16, 16
        if k == 'arr':
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == 'st':
            return self.struct_layout(t)[1:]
        if k in ('void', 'label', 'fn', 'opaque', 'meta'):
            return 1, 1
        raise ValueError(t)

    def fields(self, t):
        if t[0] == 'st':
            f = self.structs.get(t[1])
            return f
        raise ValueError(t)

    def struct_layout(self, t):
        off, al, offs = 0, 1, []
        packed = False
        for f in (self.fields(t) or []):
            s, a = self.size_align(f)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s
            al = max(al, a)
        off = (off + al - 1) // al * al
        return offs, off, al


class Parser:
    """Token cursor."""

    def __init__(self, toks, types, mod):
        self.t = toks
        self.i = 0
        self.types = types
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise ValueError("expected %r got %r in %r" % (x, y, ' '.join(self.t)))

    def type(self):
        x = self.next()
        if x == 'void':
            t = ('void',)
        elif x == 'ptr':
            t = ('ptr',)
        elif x in ('float', 'double', 'label'):
            t = (x,)
        elif x == 'x86_fp80':
            t = ('fp80',)
        elif x == 'metadata':
            t = ('meta',)
        elif re.match(r'i\d+$', x):
            t = ('i', int(x[1:]))
        elif x[0] == '%':
            t = ('st', x[1:])
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif x == '{':
            fs = []
            while not self.accept('}'):
                fs.append(self.type())
                self.accept(',')
            name = '{%s}' % (fs,)
            self.types.structs[name] = fs
            t = ('st', name)
        elif x == 'opaque':
            t = ('opaque',)
        else:
            raise ValueError("type %r in %r" % (x, ' '.join(self.t)))
        while self.peek() == '(' and t[0] in ('void', 'ptr', 'i', 'st', 'double', 'float'):
            # function type: only in varargs call signatures
            self.next()
            vs = []
            while not self.accept(')'):
                if self.accept('...'):
                    pass
                else:
                    vs.append(self.type())
                self.accept(',')
            t = ('fn', t, tuple(vs))
        while self.accept('*'):
            t = ('ptr',)
        return t

    ATTR = {'noundef', 'signext', 'zeroext', 'nonnull', 'noalias', 'nocapture', 'readonly',
            'writeonly', 'inreg', 'immarg', 'returned', 'readnone', 'nofree', 'allocptr',
            'allocalign', 'dead_on_unwind', 'writable', 'inbounds', 'nuw', 'nsw', 'exact', 'fast',
            'noinline', 'nounwind'}

    def attrs(self):
        while True:
            p = self.peek()
            if p in self.ATTR:
                self.i += 1
            elif p in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'addrspace'):
                r = (p,)
                self.i += 1
                if self.accept('('):
                    d = 1
                    while d:
                        y = self.next()
                        d += (y == '(') - (y == ')')
                else:
                    self.next()
            else:
                return

    def value(self, ty):
        """operand -> ('l',name) | ('c',int) | ('g',name) | ('f',x) | ('undef',) | ('ce',...) | ('agg',[...]) | ('str',b)"""
        x = self.next()
        if x[0] == '%':
            return ('l', x[1:].strip('"'))
        if x[0] == '@':
            return ('g', x[1:].strip('"'))
        if x == 'null':
            return ('c', 0)
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'zeroinitializer':
            return ('zero',)
        if x == 'getelementptr':
            self.attrs()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            ops = []
            while True:
                self.attrs()
                t = self.type()
                self.attrs()
                ops.append((t, self.value(t)))
                if self.accept(')'):
                    break
                self.expect(',')
            return ('ce', 'gep', bt, ops)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            self.type()
            self.expect(')')
            return v
        if x in ('sub', 'add', 'mul'):
            self.attrs()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t = self.type()
            b = self.value(t)
            self.expect(')')
            return ('ce', x, a, b)
        if x[0] == 'c' and x[1:2] == '"':
            return ('str', unescape(x[2:-1]))
        if x == '{' or x == '[':
            end = '}' if x == '{' else ']'
            vs = []
            while not self.accept(end):
                t = self.type()
                vs.append((t, self.value(t)))
                self.accept(',')
            return ('agg', vs)
        if x == 'metadata' or x[0] == '!':
            return ('undef',)
        if re.match(r'-?\d+$', x):
            if ty and ty[0] in ('float', 'double', 'fp80'):
                return ('f', float(x))
            return ('c', int(x))
        if re.match(r'-?\d+\.|0x', x):
            return ('f', x)
        raise ValueError("value %r in %r" % (x, ' '.join(self.t)))


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'idx', 'fn', 'blk', 'ifile')

    def __repr__(self):
        return "%s=%s %s %s @%s" % (self.res, self.op, self.ty, self.a, self.line)


class Block:
    __slots__ = ('name', 'ins', 'preds', 'live_in', 'phis', 'term', 'idx')


class Func:
    def __init__(self):
        self.name = None
        self.params = []      # (type, name)
        self.ret = None
        self.blocks = {}
        self.order = []
        self.internal = False
        self.file = None
        self.module = None
        self.line = None
        self.ditype = None
        self.vararg = False

    def __repr__(self):
        return "<Func %s>" % self.name


class Module:
    def __init__(self, name):
        self.name = name
        self.funcs = {}
        self.decls = {}
        self.globals = {}     # name -> dict(const, ty, init, internal, extern)
        self.types = TypeTable()
        self.md = {}


_instr_flags = {'tail', 'musttail', 'notail', 'volatile', 'nuw', 'nsw', 'exact', 'inbounds', 'fast', 'nneg', 'disjoint'}


def parse_md(s):
    return s


class MDBase:
    """Lazy view on the textual debug metadata."""

    def __init__(self, raw):
        self.raw = raw

    def get(self, ref):
        return self.raw.get(ref)

    def attr(self, ref, name):
        s = self.raw.get(ref) if ref and ref.startswith('!') and not ref.startswith('!D') else ref
        if not s:
            return None
        m = re.search(r'[(,]\s*%s: ("(?:[^"\\]|\\.)*"|[^,)]*)' % name, s)
        if not m:
            return None
        v = m.group(1)
        if v and v[0] == '"':
            v = v[1:-1]
        return v

    def elems(self, ref):
        s = self.raw.get(ref)
        if not s:
            return []
        m = re.match(r'(?:distinct )?!\{(.*)\}$', s)
        return [x.strip() for x in m.group(1).split(',') if x.strip()] if m else []

    def typestr(self, ref, depth=0):
        """C-like spelling of a DI type."""
        if ref in (None, 'null') or depth > 12:
            return 'void'
        s = self.raw.get(ref, '')
        tag = self.attr(ref, 'tag')
        if 'DIBasicType' in s:
            return self.attr(ref, 'name')
        if 'DICompositeType' in s:
            n = self.attr(ref, 'name')
            if tag == 'DW_TAG_structure_type':
                return 'struct ' + (n or '?')
            if tag == 'DW_TAG_enumeration_type':
                return 'enum ' + (n or '?')
            if tag == 'DW_TAG_array_type':
                return self.typestr(self.attr(ref, 'baseType'), depth + 1) + '[]'
            if tag == 'DW_TAG_union_type':
                return 'union ' + (n or '?')
            return n or '?'
        if 'DIDerivedType' in s:
            b = self.attr(ref, 'baseType')
            if tag == 'DW_TAG_pointer_type':
                return self.typestr(b, depth + 1) + ' *'
            if tag == 'DW_TAG_typedef':
                n = self.attr(ref, 'name')
                if n in ('FILE', 'cloog_int_t', 'mpz_t', 'va_list'):
                    return n
                return self.typestr(b, depth + 1)
            if tag == 'DW_TAG_const_type':
                return 'const ' + self.typestr(b, depth + 1)
            return self.typestr(b, depth + 1)
        if 'DISubroutineType' in s:
            return 'fn'
        return '?'


def parse_module(path, name):
    mod = Module(name)
    lines = open(path).read().split('\n')
    md = {}
    i, n = 0, len(lines)
    bodies = []
    while i < n:
        ln = lines[i]
        if not ln or ln[0] == ';' or ln.startswith('target ') or ln.startswith('source_filename') or ln.startswith('attributes '):
            i += 1
            continue
        if ln[0] == '!':
            k, v = ln.split(' = ', 1)
            md[k] = v
            i += 1
            continue
        if ln[0] == '%':
            m = re.match(r'%("?[^" ]+"?|"[^"]+") = type (.*)$', ln)
            p = Parser(tokenize(m.group(2)), mod.types, mod)
            nm = m.group(1).strip('"')
            if m.group(2).startswith('opaque'):
                mod.types.structs[nm] = []
            else:
                p.accept('<')
                p.expect('{')
                fs = []
                while not p.accept('}'):
                    fs.append(p.type())
                    p.accept(',')
                mod.types.structs[nm] = fs
            i += 1
            continue
        if ln[0] == '@':
            parse_global(mod, ln)
            i += 1
            continue
        if ln.startswith('declare'):
            m = re.search(r'@("[^"]+"|[-\w.$]+)\(', ln)
            mod.decls[m.group(1).strip('"')] = ln
            i += 1
            continue
        if ln.startswith('define'):
            j = i + 1
            while lines[j] != '}':
                j += 1
            bodies.append((ln, lines[i + 1:j]))
            i = j + 1
            continue
        raise ValueError("unparsed IR line: " + ln)
    mod.md = MDBase(md)
    for head, body in bodies:
        f = parse_func(mod, head, body)
        mod.funcs[f.name] = f
    return mod


def parse_global(mod, ln):
    m = re.match(r'@("[^"]+"|[-\w.$]+) = (.*)$', ln)
    name = m.group(1).strip('"')
    rest = m.group(2)
    rest = re.split(r', (?:align|!dbg|comdat|section)', rest)[0]
    toks = tokenize(rest)
    p = Parser(toks, mod.types, mod)
    g = dict(internal=False, extern=False, const=False, init=None, ty=None, name=name, line=ln)
    while True:
        x = p.peek()
        if x in ('private', 'internal'):
            g['internal'] = True
            p.next()
        elif x in ('external', 'extern_weak'):
            g['extern'] = True
            p.next()
        elif x in ('dso_local', 'unnamed_addr', 'local_unnamed_addr', 'common', 'hidden', 'thread_local', 'linkonce_odr', 'weak'):
            if x == 'thread_local':
                g['tls'] = True
            p.next()
            if x == 'thread_local' and p.peek() == '(':
                while p.next() != ')':
                    pass
        else:
            break
    kind = p.next()
    g['const'] = kind == 'constant'
    g['ty'] = p.type()
    if p.peek() is not None and not g['extern']:
        g['init'] = p.value(g['ty'])
    mod.globals[name] = g


def parse_func(mod, head, body):
    f = Func()
    f.module = mod
    m = re.match(r'define (.*?)@("[^"]+"|[-\w.$]+)\((.*)\)(.*)\{$', head)
    pre, name, params, post = m.groups()
    f.name = name.strip('"')
    f.internal = 'internal' in pre.split()
    toks = [t for t in tokenize(pre) if t not in ('dso_local', 'internal', 'linkonce_odr', 'hidden', 'available_externally')]
    p = Parser(toks, mod.types, mod)
    p.attrs()
    f.ret = p.type()
    p = Parser(tokenize(params), mod.types, mod)
    while p.peek() is not None:
        if p.accept('...'):
            f.vararg = True
            break
        t = p.type()
        p.attrs()
        v = p.value(t)
        f.params.append((t, v[1]))
        p.accept(',')
    m = re.search(r'!dbg (![0-9]+)', post)
    if m:
        sp = m.group(1)
        f.line = int(mod.md.attr(sp, 'line') or 0)
        fn = mod.md.attr(mod.md.attr(sp, 'file'), 'filename')
        dr = mod.md.attr(mod.md.attr(sp, 'file'), 'directory')
        f.file = fn
        st = mod.md.attr(sp, 'type')
        types = mod.md.elems(mod.md.attr(st, 'types'))
        f.ditype = [mod.md.typestr(x) for x in types] or ['void']
    cur = None
    k = 0
    nb = 0
    loc_cache = {}
    while k < len(body):
        ln = body[k]
        k += 1
        s = ln.strip()
        if not s or s[0] == ';':
            continue
        if not ln.startswith(' '):
            lab = re.match(r'("[^"]+"|[-\w.$]+):', ln)
            cur = Block()
            cur.name = lab.group(1).strip('"')
            cur.ins = []
            cur.preds = []
            cur.phis = []
            cur.idx = nb
            nb += 1
            f.blocks[cur.name] = cur
            f.order.append(cur.name)
            continue
        if cur is None:
            cur = Block()
            cur.name = '0'
            cur.ins, cur.preds, cur.phis, cur.idx = [], [], [], nb
            nb += 1
            f.blocks['0'] = cur
            f.order.append('0')
        if 'llvm.dbg.' in s:
            continue
        if re.match(r'switch ', s) and s.endswith('['):
            while True:
                x = body[k].strip()
                k += 1
                s += ' ' + x
                if x.startswith(']'):
                    break
        parse_instr(mod, f, cur, s, loc_cache)
    for b in f.blocks.values():
        b.term = b.ins[-1]
        b.phis = [x for x in b.ins if x.op == 'phi']
    for b in f.blocks.values():
        for s in succs(b):
            f.blocks[s].preds.append(b.name)
    return f


def succs(b):
    t = b.term
    if t.op == 'br':
        return [t.a[0]]
    if t.op == 'cbr':
        return [t.a[1], t.a[2]]
    if t.op == 'switch':
        r = [t.a[1]]
        for _, l in t.a[2]:
            if l not in r:
                r.append(l)
        return r
    return []


BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
        'fpext', 'fptrunc'}


def parse_instr(mod, f, blk, s, loc_cache):
    ins = Instr()
    ins.fn = f
    ins.blk = blk
    ins.idx = len(blk.ins)
    ins.line = None
    m = re.search(r', !dbg (![0-9]+)', s)
    if m:
        loc = m.group(1)
        if loc not in loc_cache:
            loc_cache[loc] = int(mod.md.attr(loc, 'line') or 0)
        ins.line = loc_cache[loc]
    s = re.sub(r', !(?:dbg|llvm\.loop|prof|tbaa|srcloc|heapallocsite|range|nonnull|noundef) ![0-9]+', '', s)
    toks = tokenize(s)
    p = Parser(toks, mod.types, mod)
    ins.res = None
    if len(toks) > 1 and toks[1] == '=':
        ins.res = toks[0][1:].strip('"')
        p.i = 2
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    ins.ty = None
    ins.a = None
    if op == 'alloca':
        ins.ty = p.type()
        cnt = None
        if p.accept(','):
            if p.peek() not in ('align',):
                t = p.type()
                cnt = p.value(t)
        ins.a = cnt
    elif op == 'load':
        p.accept('volatile')
        ins.ty = p.type()
        p.expect(',')
        p.type()
        ins.a = p.value(('ptr',))
    elif op == 'store':
        p.accept('volatile')
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.type()
        ins.ty = t
        ins.a = (v, p.value(('ptr',)))
    elif op == 'getelementptr':
        p.attrs()
        bt = p.type()
        ops = []
        while p.accept(','):
            t = p.type()
            ops.append((t, p.value(t)))
        ins.op = 'gep'
        ins.ty = bt
        ins.a = ops
        blk.ins.append(ins)
        return
    elif op in BIN:
        while p.peek() in _instr_flags:
            p.next()
        ins.ty = p.type()
        a = p.value(ins.ty)
        p.expect(',')
        ins.a = (op, a, p.value(ins.ty))
        op = 'bin'
    elif op in ('icmp', 'fcmp'):
        while p.peek() in _instr_flags:
            p.next()
        pred = p.next()
        ins.ty = p.type()
        a = p.value(ins.ty)
        p.expect(',')
        ins.a = (pred, a, p.value(ins.ty))
    elif op in CAST:
        while p.peek() in _instr_flags:
            p.next()
        t = p.type()
        v = p.value(t)
        p.expect('to')
        ins.ty = p.type()
        ins.a = (op, v, t)
        op = 'cast'
    elif op == 'phi':
        ins.ty = p.type()
        inc = []
        while p.accept('['):
            v = p.value(ins.ty)
            p.expect(',')
            l = p.next()[1:].strip('"')
            p.expect(']')
            inc.append((v, l))
            p.accept(',')
        ins.a = dict((l, v) for v, l in inc)
    elif op == 'select':
        t = p.type()
        c = p.value(t)
        p.expect(',')
        ins.ty = p.type()
        a = p.value(ins.ty)
        p.expect(',')
        p.type()
        ins.a = (c, a, p.value(ins.ty))
    elif op == 'br':
        if p.accept('label'):
            ins.a = (p.next()[1:].strip('"'),)
        else:
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            x = p.next()[1:].strip('"')
            p.expect(',')
            p.expect('label')
            y = p.next()[1:].strip('"')
            ins.a = (c, x, y)
            op = 'cbr'
    elif op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = p.next()[1:].strip('"')
        p.expect('[')
        cases = []
        while not p.accept(']'):
            t2 = p.type()
            c = p.value(t2)
            p.expect(',')
            p.expect('label')
            cases.append((c[1], p.next()[1:].strip('"')))
        ins.ty = t
        ins.a = (v, d, cases)
    elif op == 'ret':
        ins.ty = p.type()
        ins.a = None if ins.ty[0] == 'void' else p.value(ins.ty)
    elif op == 'unreachable':
        pass
    elif op == 'call':
        p.attrs()
        t = p.type()
        if t[0] == 'fn':
            t = t[1]
        callee = p.value(('ptr',)) if p.peek()[0] in '@%' else None
        if callee is None:
            raise ValueError("callee in " + s)
        p.expect('(')
        args = []
        while not p.accept(')'):
            at = p.type()
            if at[0] == 'meta':
                p.next()
                args.append((at, ('undef',)))
                p.accept(',')
                continue
            p.attrs()
            args.append((at, p.value(at)))
            p.accept(',')
        ins.ty = t
        ins.a = (callee, args)
    elif op == 'freeze':
        ins.ty = p.type()
        ins.a = p.value(ins.ty)
    elif op in ('fneg',):
        ins.ty = p.type()
        ins.a = p.value(ins.ty)
    elif op == 'extractvalue':
        ins.ty = p.type()
        v = p.value(ins.ty)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        ins.a = (v, idx)
    elif op == 'va_arg':
        p.type()
        ins.a = p.value(('ptr',))
        p.expect(',')
        ins.ty = p.type()
    else:
        raise ValueError("instruction " + s)
    ins.op = op
    blk.ins.append(ins)


# ---------------------------------------------------------------- program
class Program:
    """All translation units, with internal names made unique."""

    def __init__(self, units):
        self.mods = {}
        self.funcs = {}        # unique key -> Func
        self.by_mod = {}       # (mod,name) -> key
        self.enums = {}        # enumeration name -> its values
        self.structs = {}      # struct name -> list of (field, byte offset, type string)
        for rel, ll in units.items():
            self.mods[rel] = parse_module(ll, rel)
        for rel, m in self.mods.items():
            for nm, f in [x for x in m.funcs.items() if x[1].file and x[1].file.startswith('/usr/')]:
                del m.funcs[nm]         # of a system header
            for nm, f in m.funcs.items():
                key = nm
                if f.internal and key in self.funcs:
                    key = rel + ':' + nm
                elif not f.internal and key in self.funcs:
                    # an internal one took the plain name first: rename it
                    old = self.funcs[key]
                    nk = old.module.name + ':' + nm
                    self.funcs[nk] = old
                    old.key = nk
                    self.by_mod[(old.module.name, nm)] = nk
                self.funcs[key] = f
                f.key = key
                f.rel = rel
                self.by_mod[(rel, nm)] = key
            self._records(m)

    def taken_in_globals(self):
        """functions whose address is stored in a constant table"""
        out = set()
        for m in self.mods.values():
            for g in m.globals.values():
                def walk(v):
                    if isinstance(v, (tuple, list)):
                        if len(v) == 2 and v[0] == 'g' and isinstance(v[1], str):
                            f = self.resolve(m, v[1])
                            if f:
                                out.add(f.key)
                        for x in v:
                            walk(x)
                if g.get('init') is not None:
                    walk(g['init'])
        return out

    def resolve(self, mod, name):
        k = self.by_mod.get((mod.name, name))
        if k:
            return self.funcs[k]
        f = self.funcs.get(name)
        return f if f is not None and not f.internal else None

    def _records(self, m):
        md = m.md
        for ref, s in md.raw.items():
            if 'DICompositeType(tag: DW_TAG_enumeration_type' in s:
                nm, el = md.attr(ref, 'name'), md.attr(ref, 'elements')
                if nm and el:
                    self.enums[nm] = sorted({int(md.attr(e, 'value')) for e in md.elems(el)})
                continue
            if 'DICompositeType(tag: DW_TAG_structure_type' not in s:
                continue
            nm = md.attr(ref, 'name')
            el = md.attr(ref, 'elements')
            if not nm or not el or nm in self.structs:
                continue
            fl = []
            for e in md.elems(el):
                off = int(md.attr(e, 'offset') or 0)
                fl.append((md.attr(e, 'name'), off // 8, md.typestr(md.attr(e, 'baseType')),
                           int(md.attr(e, 'size') or 0)))
            if fl:
                self.structs[nm] = fl

    def offset(self, struct, field):
        for n, o, t, _ in self.structs.get(struct, []):
            if n == field:
                return o
        return None

    def field_at(self, struct, off):
        best = None
        for n, o, t, sz in self.structs.get(struct, []):
            if o == off:
                return n
            if o <= off < o + max(1, sz // 8):
                best = n
        return best
