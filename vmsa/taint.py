"""Forward data-flow of labelled values (taint), flow-sensitive and in context.

A value is (labels, may be empty, may be non-empty, fields). Calls of library functions are evaluated in the context
of their arguments; other calls combine the labels of their arguments. Members of objects that are not followed are
summarised per class and member over the whole program."""
import re

from .cfg import cfg_of
from .effects import Effects
from .engine import path_of, transparent, is_smart
from .program import walk

U = (frozenset(), True, True, ())
NUM = re.compile(r'^(const )?(unsigned |signed )?(bool|int|long|short|size_t|unsigned|ssize_t|double|float|std::size_t|void|off_t|time_t)( long| int)*( const)?$')
STD = re.compile(r'^(const )?std::')
MUT = re.compile(r'^(push_back|append|assign|insert|replace|write|put|operator(\+=|<<|=|\[\]))$')
MAXDEPTH = 14
STRINGY = re.compile(r'^(const )?(vmime::string|std::(basic_)?(string|o?stringstream|ostringstream)\b)')
# classes and functions that are not followed: what goes in may come out
OPAQUE = re.compile(r'^vmime::(security::digest::|security::sasl::SASLContext::(encode|decode)B64|utility::encoder::|'
                    r'utility::stringUtils::|charset::convert|charsetConverter::)')


def join(a, b):
    if a == b:
        return a
    f = {}
    for k, v in a[3] + b[3]:
        f[k] = join(f[k], v) if k in f else v
    return (a[0] | b[0], a[1] or b[1], a[2] or b[2], tuple(sorted(f.items(), key=lambda t: t[0])))


LEN = re.compile(r'::(length|size)$')


def strip(e):
    while e is not None and e['k'] == 'cast':
        e = e['e']
    return e


def cut(v, n):
    """v with at most n levels of members."""
    if not v[3]:
        return v
    if n == 0:
        return (lab(v), v[1], v[2], ())
    return (v[0], v[1], v[2], tuple((k, cut(x, n - 1)) for k, x in v[3]))


def lab(v):
    out = v[0]
    for _, x in v[3]:
        out = out | lab(x)
    return out


class Taint:
    """source(call, func) -> {'ret': labels, i: labels of out-argument i} or None; sink(call, func) -> indices of
    arguments to inspect or None; found(func, node, index, labels) is called for labelled ones."""

    def __init__(self, P, source, sink, found, clean=lambda e: False, track=None):
        self.P, self.source, self.sink, self.found, self.clean = P, source, sink, found, clean
        self.track = re.compile(track) if track else None
        self.memo = {}
        self.G = {}
        self.changed = False
        self.stack = []
        self.evaluated = set()
        self.reach = self.reaching()

    def reaching(self):
        """Functions from which a source can be reached."""
        self.callers, out = {}, set()
        for f in self.P.fn:
            for c in f.calls():
                if self.source(c, f):
                    out.add(f)
                for t in self.P.targets(c):
                    self.callers.setdefault(t, []).append(f)
        return self.closure(out)

    def closure(self, out):
        work = list(out)
        while work:
            f = work.pop()
            for g in self.callers.get(f, ()):
                if g not in out:
                    out.add(g)
                    work.append(g)
        return out

    def again(self):
        """Start another round."""
        self.changed = False
        self.memo = {}

    # program ----------------------------------------------------------------------------------------
    def run(self, roots):
        for rnd in range(8):
            self.again()
            for f in roots:
                self.func(f, tuple(U for _ in f.params), U)
            if not self.changed:
                return rnd + 1
        return 8

    def func(self, f, args, this):
        key = (f.id, args, this)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = (U, this, args)
        if len(self.stack) > MAXDEPTH or f in self.stack:
            return self.memo[key]
        self.stack.append(f)
        self.evaluated.add(f)
        r = self.body(f, args, this)
        self.stack.pop()
        self.memo[key] = r
        return r

    def body(self, f, args, this):
        C = cfg_of(f)
        env = {}
        for p, a in zip(f.params, args):
            env['v%d' % p['d']] = a
        env['this'] = this
        ins = {C.entry.i: env}
        work = [C.entry.i]
        ret = None
        out_env = None
        n = 0
        while work:
            n += 1
            if n > 20000:
                break
            i = work.pop(0)
            node = C.nodes[i]
            env = dict(ins[i])
            try:
                alive = self.step(f, C, node, env)
            except RecursionError:
                raise
            if node.kind == 'ret':
                v = self.val(f, C, node.e, env) if node.e is not None else U
                ret = v if ret is None else join(ret, v)
            for lab_, t in node.succ:
                if node.kind == 'br' and lab_ in ('T', 'F') and not self.feasible(f, C, node.e, env, lab_ == 'T'):
                    continue
                if self.merge(ins, t, env):
                    if t not in work:
                        work.append(t)
                if t in (C.exit.i,):
                    out_env = env if out_env is None else out_env
        ex = ins.get(C.exit.i, env)
        return (ret or U, ex.get('this', this), tuple(ex.get('v%d' % p['d'], a) for p, a in zip(f.params, args)))

    def merge(self, ins, t, env):
        old = ins.get(t)
        if old is None:
            ins[t] = dict(env)
            return True
        ch = False
        for k, v in env.items():
            w = old.get(k)
            nv = join(w, v) if w is not None else (v if k[0] == 'e' else join(U, v))
            if nv != w:
                old[k] = nv
                ch = True
        for k in list(old):
            if k not in env and k[0] != 'e':
                nv = join(old[k], U)
                if nv != old[k]:
                    old[k] = nv
                    ch = True
        return ch

    def feasible(self, f, C, e, env, truth):
        while e is not None and e['k'] == 'cast':
            e = e['e']
        if e is not None and e['k'] == 'call' and e.get('f', '').endswith('::empty') and e.get('o') is not None:
            v = self.val(f, C, e['o'], env)
            return v[1] if truth else v[2]
        if e is not None and e['k'] == 'call' and e.get('op') in ('==', '!='):
            xs = ([e['o']] if e.get('o') is not None else []) + e['a']
            for a, b in (xs, xs[::-1]) if len(xs) == 2 else ():
                if b['k'] == 'str' and not b.get('v', b.get('s', '')):
                    v = self.val(f, C, a, env)
                    return v[1] if truth == (e['op'] == '==') else v[2]
        if e is not None and e['k'] == 'bin' and e['op'] in ('==', '!=', '>', '<'):
            x, y = strip(e['x']), strip(e['y'])
            if e['op'] == '<':
                x, y = y, x
            if x['k'] == 'call' and LEN.search(x.get('f', '')) and x.get('o') is not None and y.get('cv') == 0:
                v = self.val(f, C, x['o'], env)
                return v[1] if truth == (e['op'] == '==') else v[2]
        return True

    # values -----------------------------------------------------------------------------------------
    def get(self, f, p, env):
        """Value of a path: the longest known prefix, and the members below it."""
        if p in env:
            return env[p]
        parts = p.split('.')
        for n in range(len(parts) - 1, 0, -1):
            b = '.'.join(parts[:n])
            if b in env:
                v = env[b]
                for x in parts[n:]:
                    if x == '*':
                        continue
                    d = dict(v[3])
                    v = d.get(x) or (v[0], True, True, ())
                return v
        return U

    def put(self, f, p, v, env, weak=False):
        parts = p.split('.')
        if len(parts) == 1:
            env[p] = join(env.get(p, U), v) if weak else v
            return
        b = parts[0]
        env[b] = self.upd(env.get(b, U), [x for x in parts[1:] if x != '*'], v, weak)

    def upd(self, o, parts, v, weak):
        if not parts:
            return join(o, v) if weak else v
        d = dict(o[3])
        d[parts[0]] = self.upd(d.get(parts[0], U), parts[1:], v, weak)
        return (o[0], o[1], o[2], tuple(sorted(d.items(), key=lambda t: t[0])))

    def val(self, f, C, e, env):
        if e is None:
            return U
        k = e['k']
        if NUM.match(e.get('t', '') or '') and k not in ('asg',):
            return U
        if k == 'str':
            s = e.get('v', e.get('s', ''))
            return (frozenset(), not s, bool(s), ())
        if k in ('int', 'chr', 'bool', 'null', 'float', 'sizeof', 'zero'):
            return U
        if ('e%d' % e['i']) in env and k in ('call', 'ctor', 'new', 'bin', 'cond', 'asg', 'un', 'lambda'):
            return env['e%d' % e['i']]
        if k == 'mem':
            p = path_of(e, C.alias)
            v = U
            if p is not None and not p.startswith('g:'):
                v = self.get(f, p, env)
            elif e['b'] is not None:
                b = self.val(f, C, e['b'], env)
                v = dict(b[3]).get(e['n'], (b[0], True, True, ()))
            g = self.G.get(e['q'])
            return join(v, g) if g is not None and not self.tracked(f, C, e, env) else v
        if k in ('ref', 'this'):
            p = path_of(e, C.alias)
            return self.get(f, p, env) if p is not None else U
        if k in ('cast', 'defarg'):
            return self.val(f, C, e['e'], env)
        if k == 'un':
            return self.val(f, C, e['e'], env)
        if k == 'cond':
            return join(self.val(f, C, e['x'], env), self.val(f, C, e['y'], env))
        if k == 'bin':
            a, b = self.val(f, C, e['x'], env), self.val(f, C, e['y'], env)
            return (lab(a) | lab(b), True, True, ())
        if k == 'asg':
            return self.val(f, C, e['x'], env)
        if k == 'idx':
            return (lab(self.val(f, C, e['b'], env)), True, True, ())
        if k == 'call' and transparent(e):
            return self.val(f, C, e['o'], env)
        if k in ('ilist',):
            out = U
            for x in e.get('a', e.get('e', ())) or ():
                out = join(out, self.val(f, C, x, env))
            return out
        return U

    def tracked(self, f, C, e, env):
        """The object whose member is read was created in this context."""
        p = path_of(e['b'], C.alias) if e['b'] is not None else 'this'
        v = self.get(f, p, env) if p is not None else U
        return ('!', U) in v[3]

    # statements -------------------------------------------------------------------------------------
    def step(self, f, C, node, env):
        k = node.kind
        e = node.e
        if k == 'decl':
            v = node.x
            if v is None:
                return
            p = 'v%d' % v['d']
            if e is None:
                env[p] = (frozenset(), True, False, ()) if STRINGY.match(v.get('t', '')) else U
            else:
                env[p] = self.val(f, C, e, env)
        elif k == 'minit':
            self.store_this(f, node.x.rsplit('::', 1)[-1], self.val(f, C, e, env), env, node.x)
        elif k == 'asg':
            v = self.val(f, C, e['y'], env)
            if 'op' in e:
                v = join(self.val(f, C, e['x'], env), v)
            self.assign(f, C, e['x'], v, env)
        elif k == 'sel':
            key = 'e%d' % e['i']
            env[key] = self.val(f, C, node.x, env)
        elif k in ('call', 'ctor'):
            if not transparent(e):
                self.call(f, C, node, env)
        elif k == 'new':
            x = e.get('e')
            v = self.val(f, C, x, env) if x is not None else U
            env['e%d' % e['i']] = v
        elif k == 'throw':
            pass

    def store_this(self, f, m, v, env, q):
        env['this'] = self.upd(env.get('this', U), [m], v, False)
        self.glob(q, v)

    def glob(self, q, v):
        v = cut((v[0], True, True, v[3]), 3)
        if not lab(v) and not v[3]:
            return
        old = self.G.get(q)
        nv = v if old is None else join(old, v)
        if nv != old:
            self.G[q] = nv
            self.changed = True

    def assign(self, f, C, x, v, env):
        while x is not None and x['k'] == 'cast':
            x = x['e']
        if x is None:
            return
        p = path_of(x, C.alias)
        if x['k'] == 'mem':
            self.glob(x['q'], v)
        if p is not None and not p.startswith('g:'):
            self.put(f, re.sub(r'\[[^]]*\]', '', p), v, env, weak='[' in p or x['k'] in ('idx', 'un'))
            return
        # an element of something
        b = x
        while b is not None and b['k'] in ('idx', 'un', 'cast', 'mem'):
            b = b.get('b') if b['k'] in ('idx', 'mem') else b['e']
        if b is None and x['k'] == 'call' and x.get('o') is not None:
            b = x['o']
        p = path_of(b, C.alias) if b is not None else None
        if p is not None and not p.startswith('g:'):
            self.put(f, p, (lab(v), True, True, ()), env, weak=True)

    def call(self, f, C, node, env):
        e = node.e
        key = 'e%d' % e['i']
        name = e.get('f', '')
        short = name.rsplit('::', 1)[-1]
        vals = [self.val(f, C, a, env) if a is not None else U for a in e['a']]
        o = e.get('o')
        ov = self.val(f, C, o, env) if o is not None else U
        self.weaken(f, C, e, env)
        idx = self.sink(e, f)
        for i in idx or ():
            if i < len(vals) and lab(vals[i]):
                self.found(f, node, i, lab(vals[i]))
        src = self.source(e, f)
        if src:
            for i, ls in src.items():
                if i == 'ret':
                    env[key] = (ls, True, True, ())
                elif i < len(e['a']):
                    self.outarg(f, C, e['a'][i], (ls, True, True, ()), env)
            if 'ret' in src:
                return
        if self.clean(e):
            env[key] = U
            return
        if node.kind == 'call' and (name.startswith(('std::make_shared', 'vmime::make_shared', 'std::make_unique'))):
            m = re.match(r'^(?:const )?(?:std|vmime)::\w+<(?:const )?([\w:]+)', e.get('t', ''))
            ts = [t for t in self.P.fn if t.kind == 'ctor' and m and t.cls == m.group(1) and len(t.params) == len(e['a'])]
            res = None
            for t in ts:
                r, th, _ = self.func(t, tuple(vals), (frozenset(), True, True, (('!', U),)))
                res = th if res is None else join(res, th)
            env[key] = res if res is not None else (frozenset().union(*[lab(v) for v in vals]) if vals else frozenset(), True, True, ())
            return
        opaque = bool(OPAQUE.match(name))
        ts = [] if opaque else [t for t in self.P.targets(e) if t.d.get('body')]
        anyl = any(lab(v) for v in vals) or ('!', U) in ov[3] and bool(lab(ov))
        std = STD.match(e.get('ot', '') or '') or name.startswith('std::')
        if node.kind == 'ctor' and e.get('cp') and len(e['a']) == 1:
            env[key] = vals[0]
            return
        if node.kind == 'ctor' and (is_smart(e.get('t')) or 'shared_ptr' in e.get('t', '')) and e['a']:
            env[key] = vals[0]
            return
        if ts and not std:
            if not anyl and not any(t in self.reach and self.returns(t) for t in ts) and not self.tracks(e, ts):
                # neither labels go in nor can they come out, except from members
                if node.kind == 'ctor':
                    if not any(t.kind == 'ctor' for t in ts):
                        env[key] = U
                        return
                else:
                    env[key] = self.getter(ts, ov)
                    return
            res, th = None, None
            outs = None
            for t in ts:
                a = tuple((vals + [U] * len(t.params))[:len(t.params)])
                if node.kind == 'ctor':
                    this = (frozenset(), True, True, (('!', U),))
                else:
                    this = ov if ('!', U) in ov[3] else U
                r, nt, oa = self.func(t, a, this)
                res = r if res is None else join(res, r)
                th = nt if th is None else join(th, nt)
                outs = list(oa) if outs is None else [join(x, y) for x, y in zip(outs, oa)]
            if node.kind == 'ctor':
                env[key] = th
            else:
                env[key] = U if NUM.match(e.get('t', '') or '') else res
                if o is not None and not e.get('const') and th is not None and ('!', U) in ov[3]:
                    p = path_of(o, C.alias)
                    if p is not None and not p.startswith('g:'):
                        self.put(f, re.sub(r'\[[^]]*\]', '', p), th, env)
            for a, v, pr in zip(e['a'], outs or (), ts[0].params):
                t = pr.get('t', '')
                if a is not None and (t.endswith('&') or t.endswith('*')) and not t.startswith('const') and lab(v):
                    self.outarg(f, C, a, v, env)
            return
        # not followed
        ls = lab(ov).union(*[lab(v) for v in vals]) if vals else lab(ov)
        if node.kind == 'ctor':
            if not e['a']:
                env[key] = (frozenset(), True, not STRINGY.match(e.get('t', '')), ())
            elif not STRINGY.match(e.get('t', '')):
                env[key] = (ls, True, True, ())
            elif len(vals) == 1:
                env[key] = (ls, vals[0][1], vals[0][2], vals[0][3] if not STD.match(e.get('t', '')) else ())
            else:
                env[key] = (ls, vals[0][1], True, ())
            return
        if short in ('operator<<', 'operator+=', 'append', 'operator=', 'assign', 'push_back', 'str') or MUT.match(short):
            tgt = o if o is not None else (e['a'][0] if e['a'] else None)
            rest = vals if o is not None else vals[1:]
            cur = ov if o is not None else (vals[0] if vals else U)
            if tgt is not None and (rest or short != 'str'):
                nl = frozenset().union(*[lab(v) for v in rest]) if rest else frozenset()
                if short in ('operator=', 'assign'):
                    nv = rest[0] if rest else U
                else:
                    nv = (lab(cur) | nl, cur[1] and (not rest or any(v[1] for v in rest[-1:])), True,
                          tuple(x for v in [cur] + rest for x in v[3]) and join(cur, rest[-1])[3])
                b = tgt
                p = self.base(C, b)
                if p is not None:
                    self.put(f, p, nv, env)
                    self.globpath(f, C, b, nv)
                env[key] = nv
                return
            env[key] = (lab(cur), cur[1], cur[2], ())
            return
        if STD.match(e.get('ot', '') or ''):
            env[key] = (ls, ov[1] if short in ('str', 'c_str') else True, ov[2] if short in ('str', 'c_str') else True, ov[3])
        else:
            env[key] = U if NUM.match(e.get('t', '') or '') else (ls, True, True, ())
        if opaque and o is not None and not e.get('const') and ls:
            self.outarg(f, C, o, (ls, True, True, ()), env)
        if name.startswith('std::') and o is None or not name.startswith('vmime::') or opaque:
            # C functions and algorithms: output arguments receive the labels of the others
            for a in e['a']:
                if a is not None and ls:
                    t = a.get('t', '')
                    if (a['k'] == 'un' and a['op'] == '&') or (t.endswith('*') and not t.startswith('const')) or \
                            opaque and a['k'] in ('ref', 'mem') and not t.startswith('const'):
                        self.outarg(f, C, a, (ls, True, True, ()), env)

    def weaken(self, f, C, e, env):
        """What may be written by the call may become empty or not."""
        ts = self.P.targets(e)
        xs = []
        for i, a in enumerate(e['a']):
            if a is None or NUM.match(a.get('t', '') or ''):
                continue
            ps = [t.params[i].get('t', '') for t in ts if i < len(t.params)]
            if a['k'] == 'un' and a['op'] == '&' or any(x.endswith(('&', '*')) and not x.startswith('const') for x in ps):
                xs.append(a)
        if e.get('o') is not None and not e.get('const') and e['k'] == 'call':
            xs.append(e['o'])
        for x in xs:
            while x is not None and (x['k'] == 'cast' or x['k'] == 'un' and x['op'] == '&'):
                x = x['e']
            p = self.base(C, x)
            if p is not None and p != 'this':
                v = self.get(f, p, env)
                if not (v[1] and v[2]):
                    self.put(f, p, (v[0], True, True, v[3]), env)

    def tracks(self, e, ts):
        """Objects whose members are followed go in or come out."""
        if self.track is None:
            return False
        return any(self.track.search(x or '') for t in ts for x in [t.d.get('rt'), t.cls] + [p.get('t') for p in t.params])

    def returns(self, t):
        return not NUM.match(t.d.get('rt', '') or 'void') or any(
            p.get('t', '').endswith(('&', '*')) and not p['t'].startswith('const') for p in t.params)

    def getter(self, ts, ov):
        """Result of a function that is not entered: members it returns."""
        res = None
        for t in ts:
            for r in t.nodes('ret'):
                x = r.get('e')
                while x is not None and (x['k'] == 'cast' or x['k'] == 'ctor' and x.get('cp') and len(x['a']) == 1):
                    x = x['e'] if x['k'] == 'cast' else x['a'][0]
                v = U
                if x is not None and x['k'] == 'mem' and x['b'] is not None and x['b']['k'] == 'this':
                    v = dict(ov[3]).get(x['n'])
                    if v is None:
                        v = U
                        g = self.G.get(x['q'])
                        if g is not None and ('!', U) not in ov[3]:
                            v = g
                res = v if res is None else join(res, v)
        return res or U

    def base(self, C, e):
        """Path of the object at the left end of a chain of << or +=."""
        while e is not None:
            p = path_of(e, C.alias)
            if p is not None and not p.startswith('g:'):
                return re.sub(r'\[[^]]*\]', '', p)
            if e['k'] == 'call' and (e.get('f', '').endswith(('operator<<', 'operator+=', 'append', 'operator[]', 'back', 'front', 'at'))):
                e = e.get('o') if e.get('o') is not None else (e['a'][0] if e['a'] else None)
            elif e['k'] in ('cast', 'un'):
                e = e['e']
            else:
                return None
        return None

    def globpath(self, f, C, e, v):
        while e is not None:
            if e['k'] == 'mem':
                self.glob(e['q'], v)
                return
            if e['k'] in ('cast', 'un'):
                e = e['e']
            elif e['k'] == 'call' and e.get('o') is not None:
                e = e['o']
            elif e['k'] == 'idx':
                e = e['b']
            else:
                return

    def outarg(self, f, C, a, v, env):
        while a is not None and (a['k'] == 'cast' or a['k'] == 'un' and a['op'] == '&'):
            a = a['e']
        p = self.base(C, a)
        if p is not None:
            self.put(f, p, v, env, weak=True)
            self.globpath(f, C, a, v)
