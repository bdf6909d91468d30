"""Must-pass analysis: which marked events have happened on every path so far.

The automaton state is a frozenset of tags.  `mark(P, e, where)` looks at a call
and returns None (nothing special) or a list of outcomes
(add, drop, kind, value[, env[, post env]]): kind 'n' normal, 'x' exception,
'd' process the call normally with the tags already changed."""
from .engine import Rule, path_of

NONNULL = (None, None, frozenset([0]))


def G(name):
    return ('s', ('G', name))


def nonnull(v):
    return (('k', v), NONNULL)


class MustPass(Rule):
    interfacts = True
    count = True

    def __init__(self, mark, touch=None, assign=None, enter=None, ret=None, branch=None, direct=None):
        self.mark = mark
        self.touch = touch
        self._assign = assign
        self._enter = enter
        self._ret = ret
        self._direct = direct

    def direct(self, eng, f):
        if self._direct is not None and self._direct(f):
            return True
        for c in f.calls():
            if self.mark(eng.P, c, None):
                return True
        return bool(self.touch) and any(n['n'] in self.touch for n in f.nodes('mem'))

    def may_enter(self, eng, f):
        return self._enter(f) if self._enter else True

    def event(self, eng, C, node, st, depth):
        if node.kind not in ('call', 'ctor'):
            return None
        r = self.mark(eng.P, node.e, (eng, C, node, st))
        if not r:
            return None
        out = []
        for o in r:
            add, drop, kind, val = o[:4]
            q = frozenset((set(st.q) - set(drop)) | set(add))
            if kind == 'x':
                out.append((q, 'x', val))
            elif len(o) > 5:
                out.append((q, kind, val, o[4], o[5]))
            elif len(o) > 4:
                out.append((q, kind, val, o[4]))
            else:
                out.append((q, kind, val))
        return out

    def at_assign(self, eng, C, node, st):
        if self._assign:
            r = self._assign(eng, C, node, st)
            if r is not None:
                return r
        return [st]

    def at_return(self, eng, C, node, st, v):
        if self._ret:
            r = self._ret(eng, C, node, st, v)
            if r is not None:
                return r
        return [st]

    def bind(self, eng, C, node, st, t):
        """Symbolic objects keep their identity through parameters."""
        out = {}
        for a, p in zip(node.e['a'], t.params):
            if a is None:
                continue
            v = eng.val(a, st, C)
            if v[0] == 's' and v[1][0] == 'G':
                out[('p', 'v%d' % p['d'])] = v
                c = st.env.get(('k', v))
                if c:
                    out[('k', v)] = c
        o = node.e.get('o')
        if self.interfacts and o is not None and path_of(o, C.alias) == 'this':
            for k, v in st.env.items():
                if k[0] == 'p' and k[1].startswith('this.') and v[0] == 's' and v[1][0] == 'G':
                    out[k] = v
                    c = st.env.get(('k', v))
                    if c:
                        out[('k', v)] = c
        return out
