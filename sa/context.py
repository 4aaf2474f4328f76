"""What a check gets: the compiled program, lazily, and a result to fill in."""
from . import frontend, ir, islapi


class V:
    def __init__(self, where, rule, msg, key=None):
        self.where, self.rule, self.msg = where, rule, msg
        self.key = key or ('%s|%s' % (where, rule)).replace(' ', '_')


class Result:
    def __init__(self, rule='', explanation='', floor=1, trusted=None, assumptions=None):
        self.violations = []
        self.obligations = 0
        self.floor = floor
        self.rule, self.explanation = rule, explanation
        self.trusted = trusted or ['clang 18 front end (-O0, mem2reg)', 'ownership annotations of the isl headers',
                                   'C library and GMP models in sa/models.py']
        self.samples = []
        self.extra = {}
        self.assumptions = assumptions or []
        self._seen = set()

    def bad(self, where, rule, msg, key=None):
        k = (where, rule, msg)
        if k not in self._seen:
            self._seen.add(k)
            self.violations.append(V(where, rule, msg, key))

    def ok(self, sample=None, n=1):
        self.obligations += n
        if sample and len(self.samples) < 12:
            self.samples.append(sample)


class Context:
    def __init__(self, tier):
        self.tier = tier
        self._b = self._prog = self._isl = None

    @property
    def build(self):
        if self._b is None:
            self._b = frontend.Build()
        return self._b

    @property
    def prog(self):
        if self._prog is None:
            self._prog = ir.Program(self.build.compile())
        return self._prog

    @property
    def isl(self):
        if self._isl is None:
            self._isl = islapi.load(self.build)
        return self._isl

    def fn(self, name, must=True):
        """the function with that (external) name"""
        for f in self.prog.funcs.values():
            if f.name == name:
                return f
        if must:
            raise frontend.AnalysisError('function %s not found' % name)
        return None

    def close(self):
        if self._b is not None:
            self._b.close()
