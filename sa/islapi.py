"""Ownership contracts of the isl functions, read from the installed headers'
__isl_take/__isl_keep/__isl_give annotations."""
import re
from .frontend import AnalysisError

HEADERS = ['aff', 'constraint', 'ctx', 'ilp', 'list', 'local_space', 'lp', 'map', 'mat', 'point', 'polynomial',
           'printer', 'set', 'space', 'union_map', 'union_set', 'val', 'vec', 'id', 'options']


class Contract:
    __slots__ = ('name', 'ret', 'params', 'rettype', 'raw')

    def __repr__(self):
        return '%s %s(%s)' % (self.ret, self.name, ', '.join(map(str, self.params)))


def _split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch == '(':
            d += 1
        elif ch == ')':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


def _param(s):
    if '(*' in s.replace(' ', ''):
        m = re.search(r'\(\s*\*\s*\w*\s*\)\s*\((.*)\)', s, re.S)
        return ('fn', [_param(x) for x in _split_args(m.group(1))])
    stars = s.count('*')
    if 'ISL_TAKE' in s:
        return 'take'
    if 'ISL_GIVE' in s:
        return 'out' if stars >= 2 else 'give'
    if 'ISL_KEEP' in s:
        return 'keep'
    if stars:
        return 'ptr'
    return 'int'


def load(build):
    text = ''.join('#include <isl/%s.h>\n' % h for h in HEADERS)
    pp = build.preprocess(text, ['-D__isl_give=ISL_GIVE', '-D__isl_take=ISL_TAKE', '-D__isl_keep=ISL_KEEP',
                                 '-D__isl_null=ISL_NULL', '-D__isl_export=', '-D__isl_overload=',
                                 '-D__isl_constructor=', '-D__isl_subclass(x)='])
    pp = re.sub(r'__attribute__\s*\(\((?:[^()]|\([^()]*\))*\)\)', '', pp)
    pp = re.sub(r'\{[^{}]*\}', ';', pp)
    pp = re.sub(r'\{[^{}]*\}', ';', pp)
    out = {}
    for m in re.finditer(r'([\w\s\*]*?)\b(isl_\w+)\s*\(', pp):
        # find the matching paren
        i = m.end()
        d = 1
        while d and i < len(pp):
            d += (pp[i] == '(') - (pp[i] == ')')
            i += 1
        rest = pp[i:i + 20].lstrip()
        if not rest.startswith(';'):
            continue
        pre = m.group(1)
        if 'typedef' in pre or 'return' in pre or not pre.strip():
            continue
        c = Contract()
        c.name = m.group(2)
        c.rettype = pre.strip()
        if 'ISL_GIVE' in pre:
            c.ret = 'give'
        elif 'ISL_NULL' in pre:
            c.ret = 'null'
        elif '*' in pre:
            c.ret = 'keep'
        else:
            c.ret = 'int'
        args = pp[m.end():i - 1].strip()
        c.raw = [] if args in ('', 'void') else _split_args(args)
        c.params = [_param(x) for x in c.raw]
        out[c.name] = c
    if len(out) < 500:
        raise AnalysisError("isl headers not understood (%d prototypes)" % len(out))
    return out
