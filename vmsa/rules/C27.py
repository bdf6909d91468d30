"""C27: distinct objects share no hidden mutable state."""
import re

from ..program import walk
from ..engine import transparent

# C functions that return, or work on, storage shared by the whole process
STATIC_C = re.compile(r'^(localtime|gmtime|ctime|asctime|strtok|gethostbyname2?|gethostbyaddr|getservbyname|getservbyport|'
                      r'getprotobyname|getpwnam|getpwuid|getgrnam|getgrgid|inet_ntoa|setlocale|setenv|unsetenv|putenv|tmpnam|'
                      r'ttyname|basename|dirname|mblen|mbtowc|wctomb|lrand48|drand48|mrand48|srand48|gai_strerror_r|'
                      r'getlogin|nftw|hcreate|hsearch|crypt|ecvt|fcvt|gcvt|localeconv|umask|chdir|fchdir)$')
SYNC = re.compile(r'\b(std::(atomic|mutex|recursive_mutex|once_flag|shared_mutex|condition_variable)\b|pthread_mutex_t|pthread_once_t)')
LOCK = re.compile(r'\b(std::(lock_guard|unique_lock|scoped_lock)|vmime::utility::sync::autoLock)\b')
CONFIG = re.compile(r'^(register|unregister|set)[A-Z]\w*$')
CLS = re.compile(r'\bvmime::[\w:]+')


def isconst(t):
    """The variable itself cannot be written."""
    t = t.strip()
    if t.endswith('*const') or t.endswith('* const'):
        return True
    if '*' in t and not t.startswith('std::'):
        return False
    return t.startswith('const ') and not re.match(r'const std::(shared|unique)_ptr', t)


def held(t):
    """Classes of the objects a variable of this type holds or points to."""
    t = re.sub(r'\bconst ', '', t)
    if '(' in t or 'weak_ptr' in t:
        return []
    if t.startswith('std::'):
        return CLS.findall(t)
    return [re.split(r'[<\[ *&]', t)[0]]


class Sharing:
    def __init__(self, P):
        self.P = P
        self.roots = {}
        for g in P.globals.values():
            k = (g['fn'], g['q']) if g.get('slocal') else g['q']
            if isconst(g['t']) or g.get('tls') or SYNC.search(g['t']):
                continue
            r = P.records.get(held(g['t'])[0]) if held(g['t']) else None
            if r is not None and not r['fields'] and not r['bases'] and 'shared_ptr' not in g['t']:
                continue
            self.roots.setdefault(k, g)
        tls = {(g['fn'], g['q']) if g.get('slocal') else g['q'] for g in P.globals.values() if g.get('tls')}
        for k in tls:
            self.roots.pop(k, None)
        self.acc = {}       # accessor function -> root
        self.vars = {}      # function -> {local: root}
        self.fix()
        self.closure()
        self.init_functions()

    def root(self, f, e):
        """The shared variable an expression designates (a part of), through accessors and local aliases."""
        while e is not None:
            k = e['k']
            if k == 'ref':
                dk = e.get('dk')
                if dk == 'slocal':
                    r = (f.id, e['n'])
                    return r if r in self.roots else self.vars.get(f, {}).get(e['d'])
                if dk == 'global':
                    return e['q'] if e['q'] in self.roots else None
                return self.vars.get(f, {}).get(e.get('d'))
            if k == 'mem':
                if e.get('static'):
                    return e['q'] if e['q'] in self.roots else None
                e = e.get('b')
            elif k == 'idx':
                e = e['b']
            elif k == 'un' and e['op'] in ('*', '&'):
                e = e['e']
            elif k in ('cast', 'defarg'):
                e = e['e']
            elif k == 'ctor' and len(e['a']) == 1 and ('shared_ptr' in e.get('t', '')):
                e = e['a'][0]
            elif k == 'call' and (transparent(e) or e.get('op') == '[]' or e.get('op') in ('*', '->')):
                e = e.get('o') or (e['a'][0] if e['a'] else None)
            elif k == 'call':
                for t in self.P.targets(e):
                    if t in self.acc:
                        return self.acc[t]
                if re.search(r'::(get|begin|find|at|front|back)$', e.get('f', '')) and e['f'].startswith('std::'):
                    e = e.get('o')
                    continue
                return None
            elif k == 'cond':
                return self.root(f, e['x']) or self.root(f, e['y'])
            else:
                return None
        return None

    @staticmethod
    def handle(t):
        """A type through which the object can be modified."""
        t = t.strip()
        if 'shared_ptr<' in t:
            return 'shared_ptr<const ' not in t
        return (t.endswith('&') or t.endswith('*')) and not t.startswith('const ')

    def fix(self):
        P = self.P
        changed = True
        while changed:
            changed = False
            for f in P.fn:
                if not f.d.get('body'):
                    continue
                for n in f.nodes('decl'):
                    for v in n['v']:
                        if v.get('init') is None or v.get('static') or v['d'] in self.vars.get(f, {}) or not self.handle(v['t']):
                            continue
                        if value(v['init']) and not bare(v['init']) and not v['t'].endswith('&'):
                            continue
                        r = self.root(f, v['init'])
                        if r is not None:
                            self.vars.setdefault(f, {})[v['d']] = r
                            changed = True
                for n in f.nodes('asg'):
                    x = n['x']
                    if x['k'] == 'ref' and x.get('dk') == 'local' and x['d'] not in self.vars.get(f, {}) and \
                            self.handle(x.get('t', '')) and not x.get('isref') and not (value(n['y']) and not bare(n['y'])):
                        r = self.root(f, n['y'])
                        if r is not None:
                            self.vars.setdefault(f, {})[x['d']] = r
                            changed = True
                if f in self.acc or not self.handle(f.d.get('rt', '')):
                    continue
                for n in f.nodes('ret'):
                    r = self.root(f, n['e']) if n.get('e') is not None and not (
                        value(n['e']) and not bare(n['e']) and not f.d['rt'].endswith('&')) else None
                    if r is not None:
                        self.acc[f] = r
                        changed = True

    def closure(self):
        """Classes whose objects are reachable from a shared variable."""
        P = self.P
        self.shared = {}
        todo = []
        for k, g in self.roots.items():
            for c in held(g['t']):
                todo.append((c, g['q']))
        while todo:
            c, why = todo.pop()
            if c in self.shared or c not in P.records:
                continue
            self.shared[c] = why
            for d in P.subs.get(c, ()):
                todo.append((d, c))
            self.members(c, todo)
        # what they inherit, which does not make the other classes derived from it shared
        for c in list(self.shared):
            for b in P.bases(c):
                if b in P.records and b != 'vmime::object':
                    self.shared.setdefault(b, c)

    def members(self, c, todo):
        for x in self.P.records[c]['fields']:
            for d in held(x['t']) if 'shared_ptr<' in x['t'] else ():
                # the entries of a registry and other factories; what a factory creates is not shared
                if d.startswith(c + '::') or d.endswith('Factory'):
                    todo.append((d, '%s::%s' % (c, x['n'])))

    def init_functions(self):
        """Functions that run only while a variable with static storage is being initialised."""
        P = self.P
        callers = {}
        for f in P.fn:
            for c in f.nodes('call', 'ctor'):
                for t in P.targets(c):
                    callers.setdefault(t, set()).add(f)
        called = set()
        for g in P.globals.values():
            for c in walk(g.get('init') or {}):
                if c.get('k') in ('call', 'ctor'):
                    called |= set(P.targets(c))
        self.init = {f for f in P.fn if f.kind in ('ctor', 'dtor') and f.cls in self.shared} | called
        changed = True
        while changed:
            changed = False
            for f in P.fn:
                if f not in self.init and f.d.get('acc') not in ('public', None) and callers.get(f) and callers[f] <= self.init:
                    self.init.add(f)
                    changed = True


def locked(f, line):
    return any(LOCK.search(v['t']) and v['l'] <= line for n in f.nodes('decl') for v in n['v'])


def value(e):
    """A pointer value that is read from a variable (as opposed to the address of the variable)."""
    while e['k'] in ('cast', 'defarg') and e.get('e') is not None:
        e = e['e']
    return e.get('t', '').rstrip().endswith(('*', '*const', '* const')) and e['k'] in ('ref', 'mem', 'idx')


def rebinds(e):
    """Assigning to it makes a local pointer designate another object."""
    t = e.get('t', '')
    return e['k'] == 'ref' and e.get('dk') == 'local' and not e.get('isref') and not t.rstrip().endswith('&') and (
        'shared_ptr<' in t or t.rstrip().endswith(('*', '*const')))


def bare(e):
    while e['k'] in ('cast', 'defarg') and e.get('e') is not None:
        e = e['e']
    return e['k'] == 'ref' and e.get('dk') == 'local'


def writes(P, f):
    """(lvalue, line) of everything f writes directly."""
    for n in f.nodes('asg', 'un', 'call', 'ctor'):
        k = n['k']
        if k == 'asg':
            if not rebinds(n['x']):
                yield n['x'], n.get('l'), n
        elif k == 'un' and n['op'] in ('++', '--'):
            yield n['e'], n.get('l'), n
        elif k in ('call', 'ctor'):
            if k == 'call' and n.get('op') == '=' and n.get('o') is not None and rebinds(n['o']):
                pass
            elif k == 'call' and n.get('o') is not None and not n.get('const') and not transparent(n) and not (n.get('op') in ('[]', '*', '->') or re.search(
                        r'::(get|begin|end|find|at|front|back|lower_bound|rbegin|rend)$', n.get('f', ''))):
                yield n['o'], n.get('l'), n
            if k == 'ctor' and 'shared_ptr' in n.get('t', ''):
                continue
            for i, a in enumerate(n['a']):
                # a pointer that is passed as it is designates something else, unless it was made from a shared variable
                if a is not None and i in n.get('ra', ()) and not (value(a) and not bare(a)):
                    yield a, n.get('l'), n


def this_field(e):
    """The member of *this an lvalue is (a part of), not through a pointer."""
    while e is not None:
        if e['k'] == 'mem' and not e.get('static'):
            b = e.get('b')
            if b is None or b['k'] == 'this' or b['k'] == 'un' and b['op'] == '*' and b['e']['k'] == 'this':
                return e['q']
            e = b
        elif e['k'] == 'idx':
            e = e['b']
        elif e['k'] in ('cast',):
            e = e['e']
        elif e['k'] == 'un' and e['op'] == '&':
            e = e['e']
        elif e['k'] == 'call' and e.get('op') == '[]':
            e = e.get('o')
        else:
            return None
    return None


def writers(P):
    """Functions that write a member of their object, directly or through a call on it."""
    w = {f for f in P.fn if f.cls and f.kind not in ('ctor', 'dtor') and
         any(this_field(x) for x, l, n in writes(P, f) if not (n['k'] == 'call' and P.targets(n)))}
    changed = True
    while changed:
        changed = False
        for f in P.fn:
            if f in w or not f.cls or f.kind in ('ctor', 'dtor'):
                continue
            for c in f.calls():
                o = c.get('o')
                if c['k'] != 'call' or o is None or not (o['k'] == 'this' or this_field(o)):
                    continue
                if any(t in w for t in P.targets(c)):
                    w.add(f)
                    changed = True
                    break
    return w


def check(P, ctx):
    S = Sharing(P)
    W = writers(P)
    ctx.rule('Every variable with static storage that is not constant, thread-local, atomic or a lock is shared; so are the '
             'objects it holds and the registries, registry entries and factories these own. No function, except those that run '
             'during static initialisation and those holding a lock, writes such a variable, directly, through a reference or '
             'through an accessor; no method of the class of a shared object, except the public registration and set functions, '
             'writes a member of it, and these are not called on a shared object from inside the library; no function uses a C '
             'function that works on storage shared by the process.')
    nw = 0
    for f in P.fn:
        if not f.d.get('body'):
            continue
        seen = set()

        def bad(kind, what, line, msg):
            if (kind, what) in seen:
                return
            seen.add((kind, what))
            ctx.violation('%s:%s:%s' % (kind, f.q, what), msg, f.file, line, None, f.q)
        for x, l, n in writes(P, f):
            ts = P.targets(n) if n['k'] == 'call' and x is n.get('o') else ()
            if ts and not any(t in W for t in ts):
                continue
            nw += 1
            if f in S.init or locked(f, l or 0):
                continue
            r = S.root(f, x)
            if r is not None:
                name = S.roots[r]['q']
                ctx.ob('no shared variable is written', ctx.at(f, l), False)
                bad('static', name, l, '%s modifies %s, which every thread using the library shares, without a lock' % (f.q, name))
            m = this_field(x)
            if m and f.cls in S.shared and not allowed(f):
                ctx.ob('no shared object is written', ctx.at(f, l), False)
                bad('member', m, l, '%s modifies %s: the object is shared by the whole library (%s)' % (f.q, m, S.shared[f.cls]))
        for c in f.calls():
            q = c.get('f', '').split('::')[-1] if c.get('ec') else ''
            if STATIC_C.match(q) and not locked(f, c['l']) and f not in S.init:
                ctx.ob('no process-wide storage is used', ctx.at(f, c['l']), False)
                bad('c', q, c['l'], '%s calls %s(), which works on storage shared by the whole process' % (f.q, q))
        if not seen:
            ctx.ob('writes no shared state', ctx.at(f), True)
    ctx.need('writes examined', nw, 2000)
    ctx.need('shared variables', len(S.roots), 25)
    ctx.need('classes of shared objects', len(S.shared), 20)
    ctx.need('accessors of shared objects', len(S.acc), 5)


def allowed(f):
    return CONFIG.match(f.name) or f.name in ('copyFrom', 'operator=')
