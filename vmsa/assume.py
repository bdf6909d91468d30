"""Reachability under an assumption: a function is analysed from a state in
which chosen conditions are fixed (a field's value, the outcome of a call), and
must not reach given effects / must not return normally."""
from .engine import Engine, Rule, State, path_of


class Assume(Rule):
    interfacts = True

    def __init__(self, callval=None, effect=None, reads=(), relkey=None, stop=True, extra_direct=None,
                 scope=('vmime/net/', 'vmime/security/', 'vmime/platforms/')):
        self.callval = callval or (lambda *a: None)
        self.effect = effect or (lambda *a: None)
        self.reads = set(reads)
        self.hits = {}
        self.stop = stop
        self.extra_direct = extra_direct
        self.scope = scope

    def direct(self, eng, f):
        P = eng.P
        for n in f.nodes('call', 'ctor', 'mem'):
            if n['k'] == 'mem':
                if n['n'] in self.reads:
                    return True
            else:
                if self.effect(P, n) or (self.callval(P, n, None) is not None):
                    return True
        return bool(self.extra_direct and self.extra_direct(f))

    def may_enter(self, eng, f):
        return f.file.startswith(self.scope)

    def event(self, eng, C, node, st, depth):
        e = node.e
        if node.kind not in ('call', 'ctor'):
            return None
        w = self.effect(eng.P, e)
        if w:
            k = (w, C.func.q)
            if k not in self.hits:
                self.hits[k] = (C.func, node.line, eng.trace())
            return [] if self.stop else None
        v = self.callval(eng.P, e, (eng, C, node, st))
        if v is not None:
            if v == 'throw':
                return [(st.q, 'x', None)]
            if isinstance(v, tuple) and v[0] == 'throw':
                return [(st.q, 'x', v[1])]
            return [(st.q, 'n', v)]
        return None


class Checker:
    """Runs many entry points under the same assumption, sharing the relevance closure."""

    def __init__(self, P, fx, ctx, **kw):
        self.P, self.fx, self.ctx, self.kw = P, fx, ctx, kw
        self.rel = None

    def run(self, f, env=None, self_class=None):
        rule = Assume(**self.kw)
        eng = Engine(self.P, rule, self.fx)
        if self.rel is not None:
            eng.rel = self.rel
        eng.self_class = self_class
        outs = eng.run(f, 'start', dict(env or {}))
        self.rel = eng.rel or self.rel
        self.ctx.absorb(eng)
        return rule.hits, outs


def const(v):
    return ('c', v)


def field(path, v):
    return (('p', path), ('c', v))
