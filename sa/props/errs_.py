"""operations over a journal that others change, shared by C19 and C20"""
import re
import ir, par
from errs import ErrSpec

ASSUME = ['a handle is outdated exactly if its version is older than that of its journal; a handle that claims the current version has current offsets (kept by every operation: checked for C19)',
          'alignment of a position (pb_journal_align) yields its current offsets or fails when its bytes were removed (decided by C15)',
          'journal writes and clears fail without effect or succeed (C10, C13, C14)',
          'a packed field is gone together with the values in it; a message that was read to its end once can be read again',
          'descriptors are well formed: types, labels and tags in range']


def report(r, d, pick):
    for f in d.ip.findings:
        rule = pick(f)
        if rule: r.add(rule, f.msg, f.loc, f.trace, getattr(f, 'state', ''))
    st = d.ip.stats
    r.cov.update(d.cov)
    r.cov.update(functions=len(st['funcs']), abstract_paths=st['paths'], memory_accesses=st['access'], branches=st['branches'], functions_analysed=sorted(st['funcs']))


def tasks(rule):
    m = ir.load(inline_tu=True)
    d = ErrSpec(m)
    names = [o[0] for o in d.ops() if o[0] not in d.SKIP]

    def task(group, lower):
        def go(r):
            d = ErrSpec(m)
            try: (d.lowerops if lower else d.upperops)(group)
            finally: report(r, d, lambda f: pick(rule, f))
        return go
    # nested operations take longest: one process each
    big = [n for n in names if 'nested' in n]
    small = [n for n in names if 'nested' not in n]
    return [task([n], False) for n in big] + [task([n], True) for n in d.LOWER] + [task(small[i::4], False) for i in range(4)]


# memory of messages and journals
MSG = re.compile(r'\b(B\d*|SB|J|SJ)\b')


def pick(rule, f):
    if f.rule == rule: return rule
    if rule == 'C19' and f.rule in ('bounds', 'wildptr', 'uaf', 'dead') and MSG.search(f.msg): return 'C19'
