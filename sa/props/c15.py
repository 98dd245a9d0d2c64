"""C15: alignment"""
import ir
from align import AlignSpec, KINDS


def run(r, tier):
    d = AlignSpec(ir.load(inline_tu=True))
    try:
        d.singles(); d.uptodate(); d.broken()
        d.pairs(step=11 if tier == 'quick' else 1)
    finally:
        r.interp(d.ip, {'C15'}, True)
        st = d.ip.stats
        r.cov.update(d.cov)
        r.cov.update(functions=len(st['funcs']), abstract_paths=st['paths'], memory_accesses=st['access'], branches=st['branches'], functions_analysed=sorted(st['funcs']))
    r.assumptions += ['changes are recorded as the operations record them (content, length prefix, insertion, removal)',
                      'positions and amounts are below 2^40; fields nest properly; every field has a tag of at least one byte']
    r.minimum.update(relations=200, pairs=300, positions_compared=1000, invalidations=15)
    r.cov['explanation'] = ('Abstract interpretation of pb_journal_align for every kind of position (root message, submessage, string, scalar, packed value, packed field) and one newer change in every possible relation to it '
                            '(itself, its length prefix, inside, around, before and behind it within its message, before and behind its message; growing, shrinking, inserted, removed), all offsets and amounts symbolic; and for sequences of two changes. '
                            'The expected position is computed from where the changed bytes lie.')
