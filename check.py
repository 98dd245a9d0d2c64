#!/usr/bin/env python3
"""check.py ID [ID...]: decide properties for the current tree of /repo.
exit 0: holds; exit 1: VIOLATION lines printed; exit 2: the analysis could not be carried out."""
import json, os, sys, time, importlib
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get('VERIF_OUT') or HERE
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.setrecursionlimit(20000)
import ir


class Result:
    def __init__(self):
        self.findings = []       # dicts: rule, msg, file, line, fn, trace
        self.cov = {}
        self.assumptions = []
        self.minimum = {}        # coverage key -> least count confirmed by hand
        self.broken = None
        self.seen = set()

    def add(self, rule, msg, loc, trace=(), extra=''):
        k = (rule, msg, loc[0], loc[2] if len(loc) > 2 else '')
        if k in self.seen: return
        self.seen.add(k)
        self.findings.append(dict(rule=rule, msg=msg, file=loc[0], line=loc[1], fn=loc[2] if len(loc) > 2 else '', trace=list(trace), extra=extra))

    def interp(self, ip, rules, default):
        """take over an interpreter's findings; rules: tags that belong here;
        default: whether untagged (memory safety) findings do"""
        for f in ip.findings:
            tagged = f.rule[:1] == 'C' and f.rule[1:3].isdigit()
            if (f.rule[:3] in rules) if tagged else default:
                self.add(f.rule, f.msg, f.loc, f.trace, getattr(f, 'state', ''))


def known():
    p = os.path.join(HERE, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                d = dict(x.split('=', 1) for x in l[8:].split(' | ')[0].split() if '=' in x)
                d['text'] = l.split(' | ')[-1]
                d['match'] = l.split(' | ')[1] if l.count(' | ') >= 2 else ''
                out.append(d)
    return out


def run(pid, tier):
    t0 = time.time()
    ev = os.path.join(OUT, 'evidence', pid + '.json')
    if os.path.exists(ev): os.remove(ev)
    r = Result()
    try:
        mod = importlib.import_module('props.' + pid.lower())
        mod.run(r, tier)
        for k, n in r.minimum.items():
            if r.cov.get(k, 0) < n and not r.findings:
                raise ir.AnalysisBroken('%s: only %d (confirmed on the reference tree: at least %d); the anchor of the rule has vanished' % (k, r.cov.get(k, 0), n))
    except ir.AnalysisBroken as e:
        r.broken = str(e)
    except RecursionError as e:
        r.broken = 'recursion limit'
    kn = [k for k in known() if k.get('property') == pid]
    new, old = [], []
    for f in r.findings:
        for k in kn:
            if k['match'] and k['match'] in '%s:%s: %s' % (f['file'], f['fn'], f['msg']):
                old.append((k, f)); break
        else: new.append(f)
    print('%s (%s): %s' % (pid, tier, ', '.join('%s=%s' % (k, v) for k, v in r.cov.items() if isinstance(v, int))))
    for k in {id(k): k for k, f in old}.values(): print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
    rc = 0
    if new:
        os.makedirs(os.path.join(OUT, 'replay'), exist_ok=True)
        rp = os.path.join(OUT, 'replay', pid + '.txt')
        with open(rp, 'w') as o:
            for f in new:
                o.write('%s %s\n  at %s:%s in %s\n' % (f['rule'], f['msg'], f['file'], f['line'], f['fn']))
                for t in f['trace']: o.write('    via %s:%s %s -> %s\n' % (t[0][0], t[0][1], t[0][2], t[1]) if isinstance(t, tuple) and isinstance(t[0], tuple) else '    via %s\n' % (t,))
                if f['extra']: o.write('  abstract state:\n  %s\n' % f['extra'])
        for f in new[:12]:
            print('  %s: %s:%s (%s): %s' % (f['rule'], f['file'], f['line'], f['fn'], f['msg']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        rc = 1
    elif r.broken:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, r.broken))
        rc = 2
    if rc != 2:
        os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
        cov = dict(r.cov)
        cov.setdefault('explanation', 'static analysis of the current source; see DESIGN.md')
        json.dump(dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov, assumptions=r.assumptions,
                       wall_s=round(time.time() - t0, 2), violations=len(new)), open(ev, 'w'), indent=1)
    return rc


if __name__ == '__main__':
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    for a in sys.argv[1:]:
        if a in ('quick', 'thorough'): tier = a
    rcs = [run(p, tier) for p in sys.argv[1:] if p not in ('quick', 'thorough')]
    sys.exit(1 if 1 in rcs else max(rcs or [2]))
