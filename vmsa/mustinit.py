"""Members of *this that are certainly written when a function returns normally."""
from .copying import root_of
from .program import walk


class MustInit:
    def __init__(self, P):
        self.P = P
        self.memo = {}

    def assigned(self, f, cls):
        key = (f, cls)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = set()      # recursion: nothing certain
        out = set()
        for ini in f.d.get('inits', []):
            if 'm' in ini:
                if ini.get('w') or ini.get('inclass') or ini['e'] is not None and ini['e'].get('k') != 'zero':
                    out.add(ini['m'])
                elif ini['e'] is not None:
                    out.add(ini['m'])
                out |= self.expr(ini['e'], cls)
            else:
                x = ini['e']
                while x is not None and x['k'] == 'cast':
                    x = x['e']
                if x is not None and x['k'] == 'ctor':
                    ts = self.P.targets(x)
                    if ts:
                        got = None
                        for t in ts:
                            a = self.assigned(t, t.cls)
                            got = set(a) if got is None else got & a
                        out |= got
                        out |= self.expr(x, cls)
        if f.d.get('body') is None:
            self.memo[key] = out
            return out
        rets = []
        end = self.st(f.d['body'], set(out), rets, cls)
        if end is not None:
            rets.append(end)
        res = None
        for r in rets:
            res = set(r) if res is None else res & r
        # a function that never returns normally initialises vacuously
        self.memo[key] = res if res is not None else {x['q'] for x in self.P.all_fields(cls)}
        return self.memo[key]

    def expr(self, e, cls):
        """Fields written by evaluating e (operands that may be skipped excluded)."""
        out = set()
        if e is None:
            return out
        k = e.get('k')
        if k == 'bin' and e['op'] in ('&&', '||'):
            return self.expr(e['x'], cls)
        if k == 'cond':
            return self.expr(e['c'], cls) | (self.expr(e['x'], cls) & self.expr(e['y'], cls))
        if k == 'lambda':
            return out
        for v in e.values():
            if isinstance(v, dict):
                out |= self.expr(v, cls)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict):
                        out |= self.expr(x, cls)
        if k == 'asg':
            r, q = root_of(e['x'], {})
            if r == 'this' and q:
                out.add(q)
        elif k in ('call', 'ctor'):
            for a in e.get('a', []):
                # by address or by reference: filled in by the callee
                if a is None:
                    continue
                x = a
                while x['k'] in ('cast', 'defarg') and x.get('e') is not None:
                    x = x['e']
                if (x['k'] == 'un' and x['op'] == '&') or e['a'].index(a) in e.get('ra', ()) or '[' in x.get('t', ''):
                    r, q = root_of(x, {})
                    if r == 'this' and q:
                        out.add(q)
            if e.get('o') is not None:
                r, q = root_of(e['o'], {})
                if r == 'this' and q and not e.get('const'):
                    out.add(q)
                elif r == 'this' and q is None:
                    got = None
                    for t in self.P.targets(e, cls):
                        a = self.assigned(t, cls)
                        got = set(a) if got is None else got & a
                    out |= got or set()
        return out

    def st(self, s, cur, rets, cls):
        if s is None:
            return cur
        k = s.get('k')
        if k == 'block':
            for x in s['b']:
                cur = self.st(x, cur, rets, cls)
                if cur is None:
                    return None
            return cur
        if k == 'decl':
            for v in s['v']:
                cur = cur | self.expr(v.get('init'), cls)
            return cur
        if k == 'expr':
            if s['e']['k'] == 'throw':
                return None
            return cur | self.expr(s['e'], cls)
        if k == 'ret':
            rets.append(cur | self.expr(s.get('e'), cls))
            return None
        if k == 'if':
            cur = self.st(s.get('in0'), cur, rets, cls)
            cur = cur | self.expr(s['c'], cls)
            a = self.st(s.get('x'), set(cur), rets, cls)
            b = self.st(s.get('y'), set(cur), rets, cls) if s.get('y') is not None else cur
            return b if a is None else a if b is None else a & b
        if k == 'do':
            b = self.st(s['b'], set(cur), rets, cls)
            return cur if b is None else b
        if k in ('for', 'while', 'rfor'):
            if k == 'for':
                cur = self.st(s.get('in0'), cur, rets, cls)
            if s.get('c') is not None:
                cur = cur | self.expr(s['c'], cls)
            self.st(s['b'], set(cur), rets, cls)
            if k == 'for' and self.fixed(s):
                # a loop over a constant, non-empty range
                b = self.st(s['b'], set(cur), [], cls)
                if b is not None:
                    cur = b
            return cur
        if k == 'switch':
            return self.switch(s, cur, rets, cls)
        if k in ('case', 'default', 'label'):
            return self.st(s.get('s'), cur, rets, cls)
        if k == 'try':
            b = self.st(s['b'], set(cur), rets, cls)
            for h in s['h']:
                hb = self.st(h['b'], set(cur), rets, cls)
                b = hb if b is None else b if hb is None else b & hb
            return b
        return cur

    @staticmethod
    def fixed(s):
        c = s.get('c')
        return c is not None and c['k'] == 'bin' and c['op'] in ('<', '!=', '<=') and 'cv' in (c['y'] or {})

    def switch(self, s, cur, rets, cls):
        """Every case writes it, and there is a default."""
        arms, has_default = [], False
        b = s['b'].get('b', []) if s['b'].get('k') == 'block' else [s['b']]
        acc = None
        for x in b:
            y = x
            while y.get('k') in ('case', 'default'):
                if y['k'] == 'default':
                    has_default = True
                if acc is None:
                    acc = set(cur)
                y = y.get('s') or {}
            if acc is None:
                acc = set(cur)
            if y.get('k') == 'break':
                arms.append(acc)
                acc = None
                continue
            if y:
                acc = self.st(y, acc, rets, cls)
        if acc is not None:
            arms.append(acc)
        if not has_default:
            arms.append(cur)
        out = None
        for a in arms:
            out = set(a) if out is None else out & a
        return out
