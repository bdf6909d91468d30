"""Control-flow graphs with explicit evaluation order and exceptional edges.

Node kinds
  entry exit xexit          function entry, normal exit, exceptional exit
  call ctor new delete asg inc throw rethrow   one effect each, in evaluation order
  decl minit                initialisation of a local / of a member
  setv                      value of a lowered && || !: constant on this path
  sel                       value of a ?: arm
  br sw                     branch on an atomic condition / switch
  ret                       return
  disp catch                exception dispatch of a try block / handler entry
  nop join
Successors are (label, node index); labels: None, 'T', 'F', ('case', n),
('default', cases), ('h', i), 'unc', 'X' (exceptional).
"""


class Node:
    __slots__ = ('i', 'kind', 'e', 'line', 'succ', 'x')

    def __init__(self, i, kind, e=None, line=0, x=None):
        self.i = i
        self.kind = kind
        self.e = e
        self.line = line
        self.succ = []
        self.x = x

    def __repr__(self):
        return '%d:%s@%d' % (self.i, self.kind, self.line)


class CFG:
    def __init__(self, func):
        self.func = func
        self.nodes = []
        self.alias = {}
        self.dangling = []
        self.exc = []
        self.brk = []
        self.cnt = []
        self.sws = []
        self.hstack = []
        self.labels = {}
        self.gotos = []
        self.line = func.line
        self.entry = self.new('entry')
        self.exit = self.new('exit')
        self.xexit = self.new('xexit')
        self.dangling = [(self.entry, None)]
        for ini in func.d.get('inits', []):
            self.line = ini.get('l') or self.line
            self.ev(ini['e'])
            if 'm' in ini:
                self.add('minit', ini['e'], x=ini['m'])
        body = func.d.get('body')
        if body:
            self.st(body)
            self.line = func.d.get('el', self.line)
        # fall off the end
        self.connect(self.add('ret', None), self.exit)
        self.dangling = []
        for a, l, lab in self.gotos:
            a.succ.append((l, self.labels[lab].i))

    # construction ---------------------------------------------------------
    def new(self, kind, e=None, x=None):
        n = Node(len(self.nodes), kind, e, self.line, x)
        self.nodes.append(n)
        return n

    def connect(self, a, b, label=None):
        a.succ.append((label, b.i))

    def add(self, kind, e=None, x=None, throws=False):
        n = self.new(kind, e, x)
        if e is not None and e.get('l'):
            n.line = e['l']
        for a, l in self.dangling:
            a.succ.append((l, n.i))
        self.dangling = [(n, None)]
        if throws:
            n.succ.append(('X', self.exctarget().i))
        return n

    def exctarget(self):
        return self.exc[-1] if self.exc else self.xexit

    # expressions -----------------------------------------------------------
    def ev(self, e):
        if e is None:
            return
        k = e['k']
        if k in ('int', 'chr', 'bool', 'null', 'str', 'float', 'this', 'sizeof', 'zero', 'ref', 'typeid', 'lambda'):
            return
        if k == 'mem':
            self.ev(e['b'])
        elif k == 'defarg':
            self.ev(e['e'])
        elif k == 'call':
            self.ev(e.get('o'))
            if 'fn' in e:
                self.ev(e['fn'])
            for a in e['a']:
                self.ev(a)
            n = self.add('call', e, throws=not e.get('nothrow'))
            if e.get('nr'):
                n.succ = [s for s in n.succ if s[0] == 'X']
                self.dangling = []
        elif k == 'ctor':
            for a in e['a']:
                self.ev(a)
            self.add('ctor', e, throws=not e.get('nothrow'))
        elif k == 'new':
            self.ev(e.get('sz'))
            self.ev(e.get('e'))
            self.add('new', e)
        elif k == 'delete':
            self.ev(e['e'])
            self.add('delete', e)
        elif k == 'asg':
            self.ev(e['y'])
            self.ev(e['x'])
            self.add('asg', e)
        elif k == 'bin':
            if e['op'] in ('&&', '||'):
                t, f = self.cond(e)
                self.dangling = t
                self.add('setv', e, x=1)
                dt = self.dangling
                self.dangling = f
                self.add('setv', e, x=0)
                self.dangling = dt + self.dangling
            else:
                self.ev(e['x'])
                self.ev(e['y'])
        elif k == 'un':
            self.ev(e['e'])
            if e['op'] in ('++', '--'):
                self.add('inc', e)
        elif k == 'cond':
            t, f = self.cond(e['c'])
            self.dangling = t
            self.ev(e['x'])
            self.add('sel', e, x=e['x'])
            dt = self.dangling
            self.dangling = f
            self.ev(e['y'])
            self.add('sel', e, x=e['y'])
            self.dangling = dt + self.dangling
        elif k in ('cast', 'arrcopy'):
            self.ev(e['e'])
        elif k == 'idx':
            self.ev(e['b'])
            self.ev(e.get('ix'))
        elif k == 'ilist':
            for a in e['a']:
                self.ev(a)
        elif k == 'throw':
            self.ev(e.get('e'))
            if 'tt' in e:
                n = self.add('throw', e, x=e['tt'])
            else:
                n = self.add('rethrow', e, x=self.hstack[-1] if self.hstack else None)
            n.succ.append(('X', self.exctarget().i))
            self.dangling = []
        elif k == 'stmtexpr':
            self.st(e['body'])
        elif k == 'other':
            for a in e['a']:
                self.ev(a)

    def cond(self, e):
        """Lower e as a condition; returns (true edges, false edges)."""
        k = e['k']
        if k == 'bin' and e['op'] == '&&':
            t1, f1 = self.cond(e['x'])
            self.dangling = t1
            t2, f2 = self.cond(e['y'])
            return t2, f1 + f2
        if k == 'bin' and e['op'] == '||':
            t1, f1 = self.cond(e['x'])
            self.dangling = f1
            t2, f2 = self.cond(e['y'])
            return t1 + t2, f2
        if k == 'un' and e['op'] == '!':
            t, f = self.cond(e['e'])
            return f, t
        if k == 'bin' and e['op'] == ',':
            self.ev(e['x'])
            return self.cond(e['y'])
        self.ev(e)
        n = self.add('br', e)
        self.dangling = []
        return [(n, 'T')], [(n, 'F')]

    # statements -------------------------------------------------------------
    def declvar(self, v):
        self.line = v.get('l', self.line)
        init = v.get('init')
        if init is not None:
            self.ev(init)
        self.add('decl', init, x=v)

    def st(self, s):
        if s is None:
            return
        k = s['k']
        self.line = s.get('l', self.line)
        if k == 'expr':
            self.ev(s['e'])
        elif k == 'block':
            for c in s['b']:
                self.st(c)
            self.line = s.get('el', self.line)
        elif k == 'decl':
            for v in s['v']:
                self.declvar(v)
        elif k == 'if':
            if s.get('in0') is not None:
                self.st(s['in0'])
            if 'cvar' in s:
                self.declvar(s['cvar'])
            t, f = self.cond(s['c'])
            self.dangling = t
            self.st(s.get('x'))
            dt = self.dangling
            self.dangling = f
            if s.get('y'):
                self.st(s['y'])
            self.dangling = dt + self.dangling
        elif k in ('while', 'do', 'for', 'rfor'):
            self.loop(s, k)
        elif k == 'switch':
            self.ev(s['c'])
            sw = self.add('sw', s['c'])
            self.dangling = []
            self.brk.append([])
            self.sws.append([sw, [], False])
            self.st(s['b'])
            info = self.sws.pop()
            if not info[2]:
                self.dangling.append((sw, ('default', None)))
            cases = frozenset(info[1])
            sw.x = cases
            self.dangling += self.brk.pop()
            sw.succ = [(('default', cases) if isinstance(l, tuple) and l[0] == 'default' else l, t) for l, t in sw.succ]
            self.dangling = [(a, ('default', cases) if a is sw and isinstance(l, tuple) and l[0] == 'default' else l)
                             for a, l in self.dangling]
        elif k == 'case':
            info = self.sws[-1]
            cv = s['v'].get('cv')
            info[1].append(cv)
            self.dangling.append((info[0], ('case', cv)))
            j = self.add('nop')
            j.line = s['l']
            self.st(s['s'])
        elif k == 'default':
            info = self.sws[-1]
            info[2] = True
            self.dangling.append((info[0], ('default', None)))
            self.add('nop')
            self.st(s['s'])
        elif k == 'break':
            self.brk[-1] += self.dangling
            self.dangling = []
        elif k == 'continue':
            self.cnt[-1] += self.dangling
            self.dangling = []
        elif k == 'ret':
            if s.get('e') is not None:
                self.ev(s['e'])
            n = self.add('ret', s.get('e'))
            n.line = s['l']
            self.connect(n, self.exit)
            self.dangling = []
        elif k == 'try':
            disp = self.new('disp', None, s['h'])
            self.exc.append(disp)
            self.st(s['b'])
            self.exc.pop()
            after = self.dangling
            catchall = False
            for i, h in enumerate(s['h']):
                self.dangling = [(disp, ('h', i))]
                self.line = h['l']
                c = self.add('catch', None, x=(disp.i, h))
                self.hstack.append(disp.i)
                self.st(h['b'])
                self.hstack.pop()
                after = after + self.dangling
                catchall = catchall or h.get('all', False)
            if not catchall:
                disp.succ.append(('unc', self.exctarget().i))
            self.dangling = after
        elif k == 'null':
            pass
        elif k in ('goto', 'label', 'otherstmt'):
            if k == 'label':
                j = self.add('join', None, x='label')
                self.labels[s['lab']] = j
                self.st(s['s'])
            elif k == 'goto':
                self.gotos += [(a, l, s['lab']) for a, l in self.dangling]
                self.dangling = []

    def loop(self, s, k):
        if k == 'for' and s.get('in0') is not None:
            self.st(s['in0'])
        if k == 'rfor':
            self.ev(s['r'])
        head = self.add('join', None, x='loop')
        self.brk.append([])
        self.cnt.append([])
        if k == 'do':
            self.st(s['b'])
            self.dangling += self.cnt.pop()
            t, f = self.cond(s['c'])
            for a, l in t:
                a.succ.append((l, head.i))
            self.dangling = f + self.brk.pop()
            return
        if k == 'rfor':
            n = self.add('br', s['r'], x='rfor')
            t, f = [(n, 'T')], [(n, 'F')]
            self.dangling = t
            v = s['var']
            self.add('decl', None, x=v)
            t = self.dangling
        else:
            if 'cvar' in s:
                self.declvar(s['cvar'])
            if s.get('c') is not None:
                t, f = self.cond(s['c'])
            else:
                t, f = self.dangling, []
        self.dangling = t
        self.st(s['b'])
        self.dangling += self.cnt.pop()
        if k == 'for' and s.get('inc') is not None:
            self.ev(s['inc'])
        for a, l in self.dangling:
            a.succ.append((l, head.i))
        self.dangling = f + self.brk.pop()


def cfg_of(func):
    if func._cfg is None:
        func._cfg = CFG(func)
    return func._cfg
