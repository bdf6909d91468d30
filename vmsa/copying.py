"""Which fields of the source object must have reached the destination object
when a copying function returns: a must-analysis over the structured AST."""
from .engine import is_smart, transparent
from .program import walk

ACC = ('push_back', 'emplace_back', 'push_front', 'insert', 'emplace', 'append', 'operator+=', 'operator<<')
RESET = ('clear', 'resize', 'erase', 'assign', 'reset', 'swap', 'operator=', 'copyFrom')
DEEP = ('clone', 'copyFrom', 'createChildPart')


def root_of(e, alias):
    """(root, first field q or None): what object an expression hangs off."""
    fieldq = None
    while e is not None:
        k = e['k']
        if k == 'mem':
            if e.get('static'):
                return None, None
            fieldq = e['q']
            e = e['b']
        elif k == 'this':
            return 'this', fieldq
        elif k == 'ref':
            if e.get('dk') in ('local', 'param', 'slocal'):
                r = alias.get(e['d'], 'v%d' % e['d'])
                if isinstance(r, tuple):        # alias of a field of an object
                    return r[0], r[1]
                return r, fieldq
            return None, None
        elif k in ('cast', 'defarg'):
            e = e['e']
        elif k == 'un' and e['op'] in ('*', '&'):
            e = e['e']
        elif k == 'idx':
            e = e['b']
        elif k == 'ctor' and len(e['a']) == 1 and (e.get('cp') or is_smart(e.get('t'))):
            e = e['a'][0]
        elif k == 'call':
            if transparent(e) or e.get('op') in ('[]', '*', '->') or \
                    e.get('f', '').rsplit('::', 1)[-1] in ('begin', 'end', 'front', 'back', 'at', 'rbegin', 'rend', 'data'):
                e = e.get('o') if e.get('o') is not None else (e['a'][0] if e['a'] else None)
            elif e.get('f', '').rsplit('::', 1)[-1] in ('dynamicCast', 'dynamic_pointer_cast', 'static_pointer_cast',
                                                        'back_inserter', 'move', 'forward') and e['a']:
                e = e['a'][0]
            else:
                return None, None
        else:
            return None, None
    return None, None


class Copying:
    def __init__(self, P, fx):
        self.P, self.fx = P, fx
        self.memo = {}
        self._reads = {}
        self._resets = {}

    # fields (qualified) of this read by a method, transitively through self calls
    def reads(self, f, seen=frozenset()):
        if f in self._reads:
            return self._reads[f]
        if f in seen:
            return set()
        out = set()
        for n in f.nodes('mem', 'call'):
            if n['k'] == 'mem':
                if n['b'] is not None and root_of(n['b'], {})[0] == 'this' and not n.get('static'):
                    out.add(root_of(n, {})[1])
            elif n.get('o') is not None and n['o']['k'] == 'this':
                for t in self.P.targets(n):
                    out |= self.reads(t, seen | {f})
        if not seen:
            self._reads[f] = out
        return out

    def resets(self, f, seen=frozenset()):
        """Fields of this that f clears or replaces."""
        if f in self._resets:
            return self._resets[f]
        if f in seen:
            return set()
        out = set()
        for n in f.nodes('asg', 'call'):
            if n['k'] == 'asg':
                r, q = root_of(n['x'], {})
                if r == 'this' and q and n.get('op', '=') == '=':
                    out.add(q)
            elif n.get('o') is not None:
                r, q = root_of(n['o'], {})
                if r == 'this' and q and self.mname(n) in RESET:
                    out.add(q)
                elif r == 'this' and q is None:
                    for t in self.P.targets(n):
                        out |= self.resets(t, seen | {f})
        if not seen:
            self._resets[f] = out
        return out

    @staticmethod
    def mname(e):
        return e.get('f', '').rsplit('::', 1)[-1]

    def fields(self, cls):
        return {x['q']: x for x in self.P.all_fields(cls) if not x.get('static')}

    def param_fields(self, g):
        """param index -> fields of this the parameter flows to (any path)."""
        key = ('pf', g)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = {}
        out = {}
        prov = {p['d']: {i} for i, p in enumerate(g.params) if 'd' in p}
        self.local_prov(g, prov, lambda n: None)

        def ment(e):
            s = set()
            for n in walk(e):
                if n.get('k') == 'ref' and n.get('d') in prov:
                    s |= prov[n['d']]
            return s
        for ini in g.d.get('inits', []):
            m = ment(ini['e'])
            if 'm' in ini:
                for i in m:
                    out.setdefault(i, set()).add(ini['m'])
            elif ini['e']['k'] == 'ctor':
                self._through(ini['e'], ment, out)
        for n in g.nodes('asg', 'call'):
            if n['k'] == 'asg':
                r, q = root_of(n['x'], {})
                if r == 'this' and q:
                    for i in ment(n['y']):
                        out.setdefault(i, set()).add(q)
            elif n.get('o') is not None:
                r, q = root_of(n['o'], {})
                if r == 'this' and q and not n.get('const'):
                    for a in n['a']:
                        for i in ment(a):
                            out.setdefault(i, set()).add(q)
                elif r == 'this' and q is None:
                    self._through(n, ment, out)
        self.memo[key] = out
        return out

    def _through(self, n, ment, out):
        for t in self.P.targets(n):
            pf = self.param_fields(t)
            for j, a in enumerate(n['a']):
                if a is not None:
                    for i in ment(a):
                        out.setdefault(i, set()).update(pf.get(j, ()))

    def local_prov(self, f, prov, extra):
        """Extend prov (local -> set) with what flows into locals, flow-insensitively."""
        def ment(e):
            s = set()
            for n in walk(e):
                if n.get('k') == 'ref' and n.get('d') in prov and n.get('dk') in ('local', 'param', 'slocal'):
                    s |= prov[n['d']]
                x = extra(n)
                if x:
                    s |= x
            return s
        changed = True
        while changed:
            changed = False

            def put(d, s):
                nonlocal changed
                if s and not s <= prov.get(d, set()):
                    prov.setdefault(d, set()).update(s)
                    changed = True
            for n in f.nodes('decl', 'rfor', 'asg', 'call'):
                k = n['k']
                if k == 'decl':
                    for v in n['v']:
                        if v.get('init') is not None and 'd' in v:
                            put(v['d'], ment(v['init']))
                elif k == 'rfor':
                    rng = n.get('r')
                    v = n.get('var')
                    if rng is not None and v is not None and 'd' in v:
                        put(v['d'], ment(rng))
                elif k == 'asg':
                    r, _q = root_of(n['x'], {})
                    if r and r[0] == 'v':
                        put(int(r[1:]), ment(n['y']))
                elif k == 'call':
                    tgt = []
                    if n.get('o') is not None and not n.get('const'):
                        tgt.append(n['o'])
                    src = [a for a in n['a'] if a is not None]
                    if n.get('o') is None:
                        tgt += src
                    for t in tgt:
                        r, _q = root_of(t, {})
                        if r and r[0] == 'v' and r not in ('v',):
                            d = int(r[1:])
                            s = set()
                            for a in src:
                                if a is not t:
                                    s |= ment(a)
                            put(d, s)
        return prov

    # ----------------------------------------------------------------------
    def assign(self, f, owner):
        """Fields of *this that hold a copy of the argument's on every normal return of f.
        -> (copied, [(field, line, why)] complaints)"""
        key = ('as', f, owner)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = (set(), [])
        w = _Walk(self, f, 'v%d' % f.params[0]['d'] if f.params and 'd' in f.params[0] else '?', 'this', owner)
        self.memo[key] = w.run()
        return self.memo[key]

    def clone(self, f, owner):
        """-> (created class or None, copied, complaints)"""
        # the returned local, if any
        dest = None
        created = None
        expr = None
        for s in walk(f.d['body']):
            if s.get('k') == 'ret' and s.get('e') is not None:
                r, q = root_of(s['e'], {})
                if r and r[0] == 'v' and q is None:
                    dest = r
                else:
                    expr = s['e']
        w = _Walk(self, f, 'this', dest or 'result', owner)
        copied, bad = w.run(expr)
        return w.created, copied, bad


class _Walk:
    def __init__(self, C, f, src, dest, owner):
        self.C, self.f, self.src, self.dest, self.owner = C, f, src, dest, owner
        self.alias = {}
        self.bad = []
        self.rets = []
        self.created = None
        self.cleared = set()
        self.guarded = False
        for _ in range(3):
            for n in f.nodes('decl'):
                for v in n['v']:
                    if v.get('init') is not None and 'd' in v:
                        r, q = root_of(v['init'], self.alias)
                        if r in (src, dest) and r is not None and v['d'] != self.destd():
                            isref = v.get('isref') or v['t'].rstrip().endswith(('*', '&')) or is_smart(v['t'])
                            if q is None and isref:
                                self.alias[v['d']] = r
                            elif r == dest and q is not None and v.get('isref') and 'const' not in v['t']:
                                self.alias[v['d']] = (r, q)
        self.prov = {}
        C.local_prov(f, self.prov, lambda n: self.src_fields_node(n))

    def destd(self):
        return int(self.dest[1:]) if self.dest[0] == 'v' and self.dest[1:].isdigit() else None

    def src_fields_node(self, n):
        k = n.get('k')
        if k == 'mem' and not n.get('static'):
            r, q = root_of(n['b'], self.alias)
            if r == self.src and q is None:
                return {n['q']}
        elif k == 'call' and n.get('o') is not None:
            r, q = root_of(n['o'], self.alias)
            if r == self.src and q is None and n.get('const'):
                s = set()
                for t in self.C.P.targets(n):
                    s |= self.C.reads(t)
                return s
        elif k == 'ctor' and n.get('cp') and len(n['a']) == 1 and n['a'][0] is not None and self.is_src(n['a'][0]) \
                and self.dest == 'this':
            return set(self.C.fields(self.owner))
        return None

    def mention(self, e):
        s = set()
        for n in walk(e):
            x = self.src_fields_node(n)
            if x:
                s |= x
            if n.get('k') == 'ref' and n.get('d') in self.prov and n.get('dk') in ('local', 'slocal'):
                s |= self.prov[n['d']]
        return s

    def is_src(self, e):
        r, q = root_of(e, self.alias)
        return r == self.src and q is None

    def deep_ok(self, q, e, recv_name=None):
        """Is the copied expression a fresh object when the field owns sub-components?"""
        fl = self.C.fields(self.owner).get(q)
        if fl is None or 'shared_ptr<' not in fl['t'] or 'shared_ptr<const' in fl['t']:
            return True
        t = fl['t']
        inner = t[t.find('shared_ptr<') + 11:t.rfind('>')].rstrip('>').strip()
        if not self.C.P.derives(inner, 'vmime::component'):
            return True
        if recv_name == 'copyFrom':
            return True
        pool = [e]
        # the expressions that flow into the locals mentioned
        seen = set()
        while pool:
            x = pool.pop()
            for n in walk(x):
                if n.get('k') == 'call':
                    m = self.C.mname(n)
                    if m in DEEP or m == 'make_shared' or m.startswith('create'):
                        return True
                    for t2 in self.C.P.targets(n):
                        if t2.cls == self.f.cls and any(self.C.mname(c) in DEEP + ('make_shared',) for c in t2.calls()):
                            return True
                if n.get('k') == 'new':
                    return True
                if n.get('k') == 'ref' and n.get('dk') == 'local' and n['d'] not in seen:
                    seen.add(n['d'])
                    for y in self.f.nodes('decl', 'asg', 'call'):
                        if y['k'] == 'decl':
                            for v in y['v']:
                                if v.get('d') == n['d'] and v.get('init') is not None:
                                    pool.append(v['init'])
                        elif y['k'] == 'asg':
                            if root_of(y['x'], {})[0] == 'v%d' % n['d']:
                                pool.append(y['y'])
                        elif y.get('o') is not None and root_of(y['o'], {})[0] == 'v%d' % n['d']:
                            if self.C.mname(y) == 'copyFrom':
                                return True
                            if self.C.mname(y) in ACC + ('operator=', 'assign', 'reset'):
                                pool += [a for a in y['a'] if a is not None]
        return False

    # effects of one expression: returns (copied, reset)
    def expr(self, e, reset):
        cp, rs = set(), set()
        if e is None:
            return cp, rs
        fresh = self.f.kind == 'ctor' or self.dest != 'this'
        if not fresh and not self.guarded and self.cleared:
            for n in walk(e):
                for q in (self.src_fields_node(n) or set()) & self.cleared:
                    self.cleared.discard(q)
                    self.bad.append((q, n['l'], 'emptied before it is read: assigning an object to itself loses it'))
        for n in walk(e):
            k = n.get('k')
            if k == 'asg':
                r, q = root_of(n['x'], self.alias)
                if r == self.dest and q:
                    if n.get('op', '=') == '=':
                        rs.add(q)
                    if q in self.mention(n['y']):
                        if self.deep_ok(q, n['y']):
                            cp.add(q)
                        else:
                            self.bad.append((q, n['l'], 'shared with the original instead of being copied'))
                elif r == self.dest and q is None and self.is_src(n['y']):
                    cp |= set(self.C.fields(self.owner))        # implicit memberwise copy
            elif k == 'call' and n.get('o') is not None:
                r, q = root_of(n['o'], self.alias)
                name = self.C.mname(n)
                if r == self.dest and q:
                    if n.get('const') and not transparent(n):
                        continue
                    m = set()
                    for a in n['a']:
                        if a is not None:
                            m |= self.mention(a)
                    if name in RESET or (n.get('in') and name.startswith(('set', 'removeAll'))):
                        rs.add(q)
                    if q in m and name != 'resize' and name != 'reserve':
                        if name in ACC and not fresh and q not in reset | rs:
                            self.bad.append((q, n['l'], 'appended to the previous content, which is not cleared first'))
                        ok = True
                        if name in ACC or name in ('operator=', 'assign', 'reset'):
                            ok = any(self.deep_ok(q, a, name) for a in n['a'] if a is not None)
                        if ok:
                            cp.add(q)
                        else:
                            self.bad.append((q, n['l'], 'shared with the original instead of being copied'))
                elif r == self.dest and q is None:
                    c2, r2 = self.selfcall(n, reset | rs, fresh)
                    cp |= c2
                    rs |= r2
            elif k == 'call':
                # free function writing through an argument
                ds = set()
                m = set()
                for a in n['a']:
                    if a is None:
                        continue
                    r, q = root_of(a, self.alias)
                    if r == self.dest and q:
                        ds.add(q)
                    else:
                        m |= self.mention(a)
                if ds and m & ds:
                    cp |= m & ds
                if self.C.mname(n) in ('make_shared', 'make_unique') and self.dest != 'this':
                    cp |= self.creation(n)
            elif k == 'new' and self.dest != 'this':
                cp |= self.creation(n['e'] if n.get('e') is not None else n)
        self.cleared |= {q for q in rs - cp if not (e['k'] == 'call' and self.C.mname(e) == 'resize')}
        return cp, rs

    def selfcall(self, n, reset, fresh):
        P = self.C.P
        ts = P.targets(n, self.owner) if self.dest != 'this' else (P.targets(n, self.owner) if n.get('virt') else P.targets(n))
        if n.get('virt') and len(ts) > 1:
            near = [t for t in ts if P.derives(self.owner, t.cls)]
            ts = near or ts
        if any(a is not None and self.is_src(a) for a in n['a']):
            if not ts:
                # compiler-generated assignment of a (base) class
                base = n.get('f', '').rsplit('::', 1)[0]
                return {q for q in self.C.fields(base)}, set()
            out = None
            for t in ts:
                c, b = self.C.assign(t, self.owner)
                out = set(c) if out is None else out & c
            return out or set(), out or set()
        if n.get('const'):
            return set(), set()
        cp, rs = set(), set()
        ment = [self.mention(a) if a is not None else set() for a in n['a']]
        for t in ts:
            pf = self.C.param_fields(t)
            rt = self.C.resets(t)
            if any(ment):
                for i, fs in pf.items():
                    if i < len(ment) and ment[i]:
                        for q in fs:
                            if q in ment[i] or ment[i] & fs:
                                cp.add(q)
                                if q not in rt and not fresh and q not in reset and self.iscont(q):
                                    self.bad.append((q, n['l'], 'appended to the previous content, which is not cleared first'))
            rs |= rt
        return cp, rs

    def iscont(self, q):
        fl = self.C.fields(self.owner).get(q)
        return bool(fl) and fl['t'].startswith(('std::vector', 'std::list', 'std::map', 'std::set', 'std::multimap'))

    def creation(self, n):
        """The object the clone consists of."""
        P = self.C.P
        if n['k'] == 'ctor':
            cls = n.get('c') or P.norm(n['t'])
            cands = list(P.funcs.get(n.get('id'), []))
            implicit = not cands
            args = n['a']
        else:
            t = n.get('t', '')
            cls = t[t.find('<') + 1:t.rfind('>')].replace('const ', '').strip()
            args = n['a']
            cands = [g for g in P.fn if g.kind == 'ctor' and g.cls == cls and len(g.params) == len(args)]
            exact = [g for g in cands if all(P.norm(p['t']) == P.norm(a['t'] if a else '') for p, a in zip(g.params, args))]
            cands = exact or cands
            implicit = not cands
        self.created = cls
        args = [a for a in args]
        if len(args) == 1 and args[0] is not None and self.is_src(args[0]):
            if implicit:
                return self.implicit_copy(cls)
            out = None
            for g in cands:
                c, _b = self.C.assign(g, cls)
                out = set(c) if out is None else out & c
            return out or set()
        out = None
        for g in cands:
            pf = self.C.param_fields(g)
            s = set()
            for i, a in enumerate(args):
                if a is not None:
                    m = self.mention(a)
                    s |= m & pf.get(i, set())
            out = s if out is None else out & s
        return out or set()

    def implicit_copy(self, cls):
        """Compiler-generated copy constructor: every member; bases through theirs."""
        P = self.C.P
        out = {x['q'] for x in P.rec(cls)['fields']}
        for b in P.rec(cls)['bases']:
            b = P.norm(b)
            if b not in P.records:
                continue
            cc = [g for g in P.byq.get(b + '::' + b.rsplit('::', 1)[-1], []) if g.kind == 'ctor' and g.d.get('cp') == 'copy']
            if cc:
                out |= self.C.assign(cc[0], b)[0]
            else:
                out |= self.implicit_copy(b)
        return out

    def run(self, retexpr=None):
        cp, rs = set(), set()
        f = self.f
        for ini in f.d.get('inits', []):
            e = ini['e']
            if 'm' in ini:
                m = self.mention(e)
                if ini['m'] in m:
                    if self.deep_ok(ini['m'], e):
                        cp.add(ini['m'])
                    else:
                        self.bad.append((ini['m'], e.get('l', f.line), 'shared with the original instead of being copied'))
            else:
                x = e
                while x is not None and x['k'] == 'cast':
                    x = x['e']
                if x is not None and x['k'] == 'ctor':
                    ts = self.C.P.targets(x)
                    if len(x['a']) == 1 and x['a'][0] is not None and self.is_src(x['a'][0]):
                        if ts:
                            out = None
                            for t in ts:
                                c = self.C.assign(t, t.cls)[0]
                                out = set(c) if out is None else out & c
                            cp |= out
                        else:
                            cp |= self.implicit_copy(self.C.P.norm(x['t']))
                    else:
                        for t in ts:
                            pf = self.C.param_fields(t)
                            for i, a in enumerate(x['a']):
                                if a is not None:
                                    cp |= self.mention(a) & pf.get(i, set())
        if f.d.get('body') is None:
            return cp, self.bad
        end = self.stmts(f.d['body'], cp, rs, set())
        if end is not None:
            self.rets.append(end[0])
        out = None
        for r in self.rets:
            out = set(r) if out is None else out & r
        return out or set(), self.bad

    # returns (copied, reset) or None when control does not fall through
    def stmts(self, s, cp, rs, ctl):
        if s is None:
            return cp, rs
        k = s.get('k')
        if k == 'block':
            cur = (cp, rs)
            for x in s['b']:
                cur = self.stmts(x, cur[0], cur[1], ctl)
                if cur is None:
                    return None
            return cur
        if k == 'decl':
            for v in s['v']:
                if v.get('init') is not None:
                    c, r = self.expr(v['init'], rs)
                    cp, rs = cp | c, rs | r
            return cp, rs
        if k == 'expr':
            if s['e']['k'] == 'throw':
                return None
            c, r = self.expr(s['e'], rs)
            if ctl:
                # assignments chosen by the source's own field
                c |= (self.writes(s['e']) & ctl)
            return cp | c, rs | r
        if k == 'ret':
            if s.get('e') is not None:
                c, r = self.expr(s['e'], rs)
                cp, rs = cp | c, rs | r
            self.rets.append(cp)
            return None
        if k == 'if':
            if s.get('in0') is not None:
                cur = self.stmts(s['in0'], cp, rs, ctl)
                cp, rs = cur
            c, r = self.expr(s['c'], rs)
            cp, rs = cp | c, rs | r
            if self.selftest(s['c']) is not None:
                # branch taken for self-assignment: nothing to copy
                eq = self.selftest(s['c'])
                self.guarded = True
                n = len(self.rets)
                self.stmts(s.get('x') if eq else s.get('y'), cp, rs, ctl)
                del self.rets[n:]
                other = s.get('y') if eq else s.get('x')
                return self.stmts(other, cp, rs, ctl) if other is not None else (cp, rs)
            m = self.mention(s['c'])
            a = self.stmts(s.get('x'), cp, rs, ctl | m)
            b = self.stmts(s.get('y'), cp, rs, ctl | m) if s.get('y') is not None else (cp, rs)
            return self.meet(a, b)
        if k in ('for', 'while', 'do', 'rfor'):
            if k == 'for' and s.get('in0') is not None:
                cur = self.stmts(s['in0'], cp, rs, ctl)
                cp, rs = cur
            m = set()
            for key in ('c', 'r'):
                if isinstance(s.get(key), dict):
                    self.expr(s[key], rs)
            for key in ('c', 'r', 'in0'):
                if isinstance(s.get(key), dict):
                    m |= self.mention(s[key])
            body = self.stmts(s['b'], cp, rs, ctl)
            if body is None:
                return cp, rs
            if k == 'do':
                return body
            return cp | (body[0] & (m | cp)), rs | (body[1] & (m | rs))
        if k == 'switch':
            m = self.mention(s['c'])
            body = self.stmts(s['b'], cp, rs, ctl | m)
            return cp, rs
        if k in ('case', 'default', 'label'):
            return self.stmts(s.get('s'), cp, rs, ctl)
        if k == 'try':
            return self.stmts(s['b'], cp, rs, ctl)
        if k in ('break', 'continue', 'goto'):
            return cp, rs
        return cp, rs

    def writes(self, e):
        out = set()
        for n in walk(e):
            if n.get('k') == 'asg':
                r, q = root_of(n['x'], self.alias)
            elif n.get('k') == 'call' and n.get('o') is not None and not n.get('const'):
                r, q = root_of(n['o'], self.alias)
            else:
                continue
            if r == self.dest and q:
                out.add(q)
        return out

    def selftest(self, c):
        """True for `this == &other`, False for `this != &other`, else None."""
        while c['k'] == 'cast':
            c = c['e']
        if c['k'] == 'bin' and c['op'] in ('==', '!='):
            rx, ry = root_of(c['x'], self.alias), root_of(c['y'], self.alias)
            if {rx, ry} == {(self.dest, None), (self.src, None)}:
                return c['op'] == '=='
        return None

    @staticmethod
    def meet(a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a[0] & b[0], a[1] & b[1]
