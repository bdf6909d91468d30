"""A constructed object has no member with an indeterminate value."""
import re

from ..mustinit import MustInit
from ..program import walk


def plain(q):
    while '<' in q:
        n = re.sub(r'<[^<>]*>', '', q)
        if n == q:
            break
        q = n
    return q


def needs(x):
    """A member whose default-initialisation leaves an indeterminate value.  Arrays are raw buffers, read up to a fill
    count that is itself a member."""
    if x.get('static') or x.get('inclass') or '[' in x.get('t', ''):
        return False
    return bool(x.get('scalar') or x.get('trivdef'))


def check(P, ctx):
    ctx.rule('For every constructor with a body in the program, a must-analysis over initialisers, delegated and base '
             'constructors, in-class initialisers, body statements and the member functions it calls computes which members '
             'are written on every normal return; every member of arithmetic, enumeration or pointer type has to be among '
             'them. A local object of a class without constructor must have those members written before it is used as a '
             'whole, unless they have in-class initialisers.')
    M = MustInit(P)
    nc = nf = 0
    for f in P.fn:
        if f.kind != 'ctor' or not f.file.startswith('vmime/') or f.cls not in P.records or f.d.get('implicit') \
                or f.d.get('defaulted'):
            continue
        r = P.rec(f.cls)
        want = [x for x in r['fields'] if needs(x)]
        nc += 1
        if f.d.get('cp'):
            continue        # copies: decided by C10
        got = {plain(q) for q in M.assigned(f, f.cls)}
        ctx.funcs.add(f.sig())
        for x in want:
            nf += 1
            ok = plain(x['q']) in got
            ctx.ob('%s is initialised by the constructor' % x['q'], ctx.at(f), ok)
            if not ok:
                ctx.violation('uninit:%s:%s' % (f.sig(), x['n']),
                              'constructor %s can return without having initialised %s' % (f.sig(), x['n']),
                              f.file, f.line, None, f.q)
    agg = {}
    for q, r in P.records.items():
        if not r['file'].startswith('vmime/'):
            continue
        if any(m.get('kind') == 'ctor' and not m.get('implicit') for m in r['methods']):
            continue
        bad = [x for x in r['fields'] if needs(x)]
        if bad:
            agg[q] = bad
    nl = 0
    for f in P.fn:
        if not f.file.startswith('vmime/') or f.d.get('body') is None:
            continue
        for b in f.nodes('block'):
            for i, s in enumerate(b['b']):
                if s is None or s.get('k') != 'decl':
                    continue
                for v in s['v']:
                    if v.get('t') not in agg:
                        continue
                    ini = v.get('init')
                    if ini is not None and (ini['k'] != 'ctor' or ini.get('cp') or ini.get('a')):
                        continue
                    nl += 1
                    ctx.funcs.add(f.sig())
                    miss = unset(v, agg[v['t']], b['b'][i + 1:])
                    ctx.ob('local %s %s is filled in before use' % (v['t'], v['n']), ctx.at(f, s.get('l')), not miss)
                    for x in miss:
                        ctx.violation('local:%s:%s:%s' % (f.sig(), v['n'], x),
                                      'local object %s of type %s is used while its member %s has no value'
                                      % (v['n'], v['t'], x), f.file, s.get('l') or f.line, None, f.q)
    ctx.count('constructors', nc)
    ctx.count('members', nf)
    ctx.need('constructors', nc, 150)
    ctx.need('members', nf, 150)
    ctx.count('local objects without constructor', nl)


def isvar(e, v):
    while e is not None and e.get('k') == 'cast':
        e = e['e']
    return e is not None and e.get('k') == 'ref' and e.get('d') == v['d']


def unset(v, fields, rest):
    todo = {x['n'] for x in fields}

    def scan(n):
        """First use of v as a whole -> True.  Writes to members on the way are recorded."""
        if not isinstance(n, (dict, list)):
            return False
        if isinstance(n, list):
            return any(scan(x) for x in n)
        k = n.get('k')
        if k == 'asg' and n['x'] is not None and n['x'].get('k') == 'mem' and isvar(n['x'].get('b'), v):
            if scan(n['y']):
                return True
            todo.discard(n['x']['n'])
            return False
        if k == 'mem' and isvar(n.get('b'), v):
            return n['n'] in todo
        if k == 'ref' and isvar(n, v):
            return True
        if k == 'if':
            if scan(n.get('in0')) or scan(n['c']):
                return True
            before = set(todo)
            a = scan(n.get('x'))
            after = set(todo)
            todo.clear()
            todo.update(before)
            b = scan(n.get('y'))
            todo.update(after)
            return a or b
        if k in ('for', 'while', 'rfor', 'switch', 'try'):
            before = set(todo)
            r = any(scan(x) for x in n.values() if isinstance(x, (dict, list)))
            todo.update(before)
            return r
        return any(scan(x) for x in n.values() if isinstance(x, (dict, list)))
    for s in rest:
        if scan(s):
            return sorted(todo)
    return []
