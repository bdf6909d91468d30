"""Entry point of every check:  python3 -m vmsa.run <property-id>"""
import importlib
import json
import os
import sys
import time

from . import facts, program
from .effects import Effects
from .facts import BrokenAnalysis, VERIF

KNOWN = os.path.join(VERIF, 'known_findings.json')


class Ctx:
    def __init__(self, pid, P, tier):
        self.pid = pid
        self.P = P
        self.tier = tier
        self.fx = Effects(P)
        self.obl = []           # (what, where, ok)
        self.viol = {}
        self.notes = []
        self.counts = {}
        self.funcs = set()
        self.rules = []
        self.assumptions = []

    def rule(self, text):
        self.rules.append(text)

    def ob(self, what, where, ok=True):
        """One obligation that was decided on this run."""
        self.obl.append((what, where, bool(ok)))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def at(self, f, line=None):
        return '%s (%s:%d)' % (f.q, f.file, line or f.line)

    def violation(self, key, msg, file, line, trace=None, function=None):
        """key: stable identity (no line numbers) of the failing construct."""
        if key in self.viol:
            return
        self.viol[key] = {'property': self.pid, 'key': key, 'message': msg, 'file': 'src/' + file,
                          'line': line, 'function': function, 'trace': trace or []}

    def need(self, what, have, least):
        """Guard against a rule that matches nothing any more."""
        self.counts['instances: ' + what] = have
        if have < least:
            raise BrokenAnalysis('%s: %d instance(s) of "%s" found, at least %d expected: the rule has lost its anchors'
                                 % (self.pid, have, what, least))

    def absorb(self, eng):
        """Take over the statistics of a flow analysis."""
        for f in eng.stats['functions']:
            self.funcs.add(f.sig())
        for k in ('states', 'widened', 'summaries', 'events'):
            self.count('flow ' + k, eng.stats[k])


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        P = program.load()
        mod = importlib.import_module('vmsa.rules.' + pid)
        ctx = Ctx(pid, P, tier)
        ctx.need('translation units parsed (both configurations)', len(P.units), 200)
        ctx.need('function bodies', len(P.fn), 3000)
        mod.check(P, ctx)
    except BrokenAnalysis as ex:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, ex))
        return 2
    except Exception:
        import traceback
        traceback.print_exc(file=sys.stdout)
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 2
    known = {}
    try:
        for k in json.load(open(KNOWN))['findings']:
            if k['property'] == pid and k.get('status') == 'open':
                known[k['key']] = k
    except OSError:
        pass
    new = [v for k, v in sorted(ctx.viol.items()) if k not in known]
    old = [v for k, v in sorted(ctx.viol.items()) if k in known]
    edir = os.environ.get('VMSA_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(edir, 'replay'), exist_ok=True)
    good = sum(1 for o in ctx.obl if o[2])
    samples = []
    step = max(1, len(ctx.obl) // 25)
    for o in ctx.obl[::step][:40]:
        samples.append({'obligation': o[0], 'where': o[1], 'discharged': o[2]})
    cov = {
        'explanation': 'Static decision over the resolved program (clang AST of every unit of both build '
                       'configurations, own CFG/call graph/flow engine). ' + ' '.join(ctx.rules),
        'rule': ' '.join(ctx.rules),
        'obligations': len(ctx.obl),
        'discharged': good,
        'units_parsed': len(P.units),
        'functions_in_program': len(P.fn),
        'functions_analysed': len(ctx.funcs),
        'counts': ctx.counts,
        'samples': samples,
        'known_findings_seen': [v['key'] for v in old],
        'violations_found': [v['key'] for v in new],
    }
    if ctx.notes:
        cov['notes'] = ctx.notes
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': ctx.assumptions, 'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    with open(os.path.join(edir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d units, %d functions in program, %d analysed by this rule, %d obligations, %d discharged (%.1fs)'
          % (pid, len(P.units), len(P.fn), len(ctx.funcs), len(ctx.obl), good, time.time() - t0))
    for k, n in sorted(ctx.counts.items()):
        print('   %s: %s' % (k, n))
    for v in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, known[v['key']]['what']))
    for i, v in enumerate(new):
        path = os.path.join(edir, 'replay', '%s-%d.json' % (pid, i))
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        print('%s:%s: [%s] %s' % (v['file'], v['line'], v['key'], v['message']))
        for fr in v['trace']:
            print('      in %s (%s) via lines %s' % (fr['function'], fr['file'], ' '.join(map(str, fr['lines'][-40:]))))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1 if new else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
