"""Reporting shared by all rules: obligations, violations, known findings, evidence."""
import json, os, re, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VP_EVIDENCE', os.path.join(VERIF, 'evidence'))
FINDINGS = os.path.join(VERIF, 'known-findings.txt')


class Broken(Exception):
    """the analysis cannot say anything: a construct the rule is anchored at is gone"""


class Check:
    def __init__(self, pid, tier='quick'):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.obl = {}          # key -> status
        self.kinds = {}
        self.viol = []         # (key, where, msg)
        self.undec = []
        self.functions = set()
        self.notes = []
        self.rules = []
        self.level = 'other'
        self.explain = 'Static analysis of the current source.'
        self.trusted = []
        self.assumptions = []

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def fn(self, F):
        self.functions.add('%s (%s:%s)' % (F.dem, F.file, F.line) if hasattr(F, 'dem') else str(F))

    def ok(self, kind, key):
        self.obl.setdefault((kind, key), True)

    def fail(self, kind, key, where, msg):
        if self.obl.get((kind, key)) is False:
            return
        self.obl[(kind, key)] = False
        self.viol.append((kind + '/' + key, where, msg))

    def decide(self, cond, kind, key, where, msg):
        if cond:
            self.ok(kind, key)
        else:
            self.fail(kind, key, where, msg)
        return bool(cond)

    def undecided(self, kind, key, msg):
        if (kind + '/' + key, msg) not in self.undec:
            self.undec.append((kind + '/' + key, msg))

    def need(self, cond, msg):
        if not cond:
            raise Broken(msg)
        return cond

    def parts(self, fns, *args):
        """runs the parts of a check; a part that has lost its anchor is reported as undecided, unless all have"""
        lost = []
        for f in fns:
            try:
                f(*args)
            except Exception as e:
                if type(e).__name__ == 'BuildError':
                    raise
                if os.environ.get('VP_DEBUG'):
                    raise
                lost.append('%s: %s %s' % (getattr(f, '__name__', 'part'), type(e).__name__, e))
                self.undecided('part', getattr(f, '__name__', 'part'), '%s %s' % (type(e).__name__, e))
        if len(lost) == len(fns) and not self.obl:
            raise Broken('; '.join(lost))

    # ---- result
    def finish(self):
        known = load_findings(self.pid)
        new, old = [], []
        for key, where, msg in self.viol:
            (old if key in known else new).append((key, where, msg))
        n = len(self.obl)
        if n == 0:
            raise Broken('no obligation was generated')
        kinds = {}
        for (k, _), v in self.obl.items():
            a = kinds.setdefault(k, [0, 0])
            a[0] += 1
            a[1] += 1 if v else 0
        cov = {
            'explanation': self.explain + ' Obligations are generated from the current source and discharged by the rules listed; obligations of known findings are not discharged and are listed.',
            'rules': self.rules,
            'functions_analysed': sorted(self.functions),
            'obligations': n,
            'discharged': sum(1 for v in self.obl.values() if v),
            'by_kind': {k: {'obligations': a[0], 'discharged': a[1]} for k, a in sorted(kinds.items())},
            'undecided': [{'key': k, 'reason': m} for k, m in self.undec],
            'known_findings': [{'key': k, 'where': w, 'what': m} for k, w, m in old],
            'violations_found': [{'key': k, 'where': w, 'what': m} for k, w, m in new],
            'notes': self.notes,
            'samples': [str(k) + '/' + str(x) for (k, x) in sorted(self.obl, key=str)[:300]],
        }
        if self.level == 'proof':
            cov['checker_cmd'] = 'python3 /verif/check.py %s' % self.pid
            cov['trusted_base'] = ['clang 18 front end and LLVM passes (sroa, simplifycfg, instsimplify)', '/verif/tools/irdump.cpp', '/verif/lib/absint.py'] + self.trusted
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k, w, m in old:
            print('KNOWN-FINDING: property=%s %s: %s (%s)' % (self.pid, k, m, w))
        rep = os.path.join(EVID, self.pid + '.violations.txt')
        if os.path.exists(rep):
            os.unlink(rep)
        print('%s: %d obligations, %d discharged, %d undecided, %d known findings, %.1fs' % (self.pid, n, sum(1 for v in self.obl.values() if v), len(self.undec), len(old), time.time() - self.t0))
        for k, m in self.undec:
            print('  undecided: %s: %s' % (k, m))
        if new:
            with open(rep, 'w') as f:
                for k, w, m in new:
                    f.write('%s\n  at %s\n  %s\n' % (k, w, m))
            for k, w, m in new[:40]:
                print('  %s\n    at %s\n    %s' % (k, w, m))
            print('VIOLATION property=%s replay=%s' % (self.pid, rep))
            return 1
        return 0


def load_findings(pid):
    out = {}
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r'known: property=(\S+) key=(\S+)\s*(.*)', l)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out
