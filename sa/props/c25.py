"""C25: the validator"""
import ir
from valid import ValidSpec, MODEL


def run(r, tier):
    d = ValidSpec(ir.load(inline_tu=True, srcs=ir.sources() + [MODEL]), budget=800)
    try:
        d.all((0, 2) if tier == 'quick' else (0, 1, 2, 3))
    finally:
        r.interp(d.ip, {'C25'}, True)
        st = d.ip.stats
        r.cov.update(d.cov)
        r.cov.update(functions=len(st['funcs']), abstract_paths=st['paths'], memory_accesses=st['access'], branches=st['branches'], loops=st['loops'], loop_heads=st['heads'], functions_analysed=sorted(st['funcs']))
    r.assumptions += ['decoding calls the handler with the known fields in order and ends with the first error (C01, C03, C05)',
                      'tags are unique within a description and its extensions; nesting is followed for two levels, deeper ones behave alike']
    r.minimum.update(worlds=5, delivered=20, required_delivered=5, nested=5, recursions=5, collected=3, verdicts=30)
    r.cov['explanation'] = ('pb_validator_check is analysed by relational abstract interpretation with the decoder replaced by a model delivering any number of fields in any order: a required field at an arbitrary place of a description of any size '
                            '(with extensions) either never occurs (no abstract result may be a success) or occurs among any number of other fields (no result may report absence); the same for a submessage; errors of the decoder must come through, '
                            'and the collected tags must stay inside their memory and be read only where written.')
