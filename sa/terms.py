"""Interned symbolic terms and linear normal forms."""


class Term:
    __slots__ = ('op', 'args', 'id')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id          # interned: equal terms are the same object


_tab = {}


def mk(op, *args):
    k = (op,) + args
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op, t.args, t.id = op, args, len(_tab)
        _tab[k] = t
    return t


def show(t, d=0):
    if not isinstance(t, Term):
        return repr(t)
    if d > 5:
        return '…'
    if t.op == 'lin':
        s = ''.join('%+d*%s' % (c, show(x, d + 1)) for x, c in t.args[1])
        return '(%s%+d)' % (s, t.args[0])
    if t.op == 'S':
        return str(t.args[0])
    if t.op == 'ptr':
        return '&%s[%s]' % (show(t.args[0], d + 1), show(t.args[1], d + 1))
    if t.op == 'F':
        return '%s.%s' % (show(t.args[0], d + 1), show(t.args[1], d + 1)) + ("'" * t.args[2])
    if t.op == 'H':
        return 'heap@%s#%s' % (t.args[0], t.args[1])
    if t.op == 'A':
        return 'local %s' % (t.args[1],)
    if t.op == 'R':
        return '%s()@%s#%s' % (t.args[0], t.args[1], t.args[2])
    if t.op == 'G':
        return '@' + str(t.args[1])
    if t.op == 'fn':
        return '&' + str(t.args[0])
    return '%s(%s)' % (t.op, ', '.join(show(a, d + 1) for a in t.args))


def lin_parts(v):
    """value -> (const, {term:coef})"""
    if isinstance(v, int):
        return v, {}
    if v.op == 'lin':
        return v.args[0], dict(v.args[1])
    return 0, {v: 1}


def mk_lin(c, d):
    it = [(t, k) for t, k in d.items() if k]
    if not it:
        return c
    if c == 0 and len(it) == 1 and it[0][1] == 1:
        return it[0][0]
    it.sort(key=lambda x: x[0].id)
    return mk('lin', c, tuple(it))


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, float) or isinstance(b, float):
        return mk('op', 'add', a, b)
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + k
    return mk_lin(ca + cb, d)


def scale(a, k):
    if isinstance(a, int):
        return a * k
    c, d = lin_parts(a)
    return mk_lin(c * k, {t: x * k for t, x in d.items()})


def sub(a, b):
    return add(a, scale(b, -1))


def is_ptrlike(t):
    return isinstance(t, Term) and t.op in ('ptr', 'A', 'G', 'H', 'fn')


def split(v):
    """pointer value -> (base term, offset)"""
    if isinstance(v, Term) and v.op == 'ptr':
        return v.args[0], v.args[1]
    return v, 0


def mkptr(base, off):
    if isinstance(off, int) and off == 0:
        return base
    return mk('ptr', base, off)


def neg_cond(c):
    if isinstance(c, int):
        return 1 - c
    if c.op == 'not':
        return c.args[0]
    return mk('not', c)
