"""C26: a parser that is given a part of a text looks only at that part."""
from .C24 import results, undecided, PART


def check(P, ctx):
    res, roots = results(P)
    ctx.rule('A function that is given a text and a part [position, end) of it (parsers and their helpers) reads only characters with '
             'position < end, hands only sub-parts of its part to other parsers, and gives back a new position between position and end: '
             'difference constraints between positions, computed over the control flow of each function (see C24).')
    und = 0
    for (fid, eid, text), (ok, f, l, _, line, root) in sorted(res.items(), key=lambda x: (x[1][1].file, x[1][4], x[0][1] or 0)):
        if not text.startswith(PART):
            continue
        if undecided(ok, f, text, root):
            und += 1
            continue
        ctx.ob(text, ctx.at(f, line), ok == 1)
        ctx.funcs.add(f.sig())
        if ok == 0:
            ctx.violation('part:%s:%s' % (f.q, text), '%s: %s (%s)' % (
                f.q, text, 'analysed from ' + root.q if root is not f else 'the distance is known'), f.file, line, None, f.q)
    ctx.need('characters and positions inside the part', sum(1 for r in res.values() if r[0] == 1 and r[3].startswith(PART)), 130)
    ctx.need('functions analysed', roots, 1500)
    ctx.count('accesses not decided', und)
