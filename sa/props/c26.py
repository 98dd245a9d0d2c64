"""C26: oneofs"""
import ir
from oneof import OneofSpec


def run(r, tier):
    d = OneofSpec(ir.load(inline_tu=True), budget=800)
    try:
        d.new(); d.case(); d.find(); d.create(); d.clear()
    finally:
        r.interp(d.ip, {'C26'}, True)
        st = d.ip.stats
        r.cov.update(d.cov)
        r.cov.update(functions=len(st['funcs']), abstract_paths=st['paths'], memory_accesses=st['access'], branches=st['branches'], loops=st['loops'], loop_heads=st['heads'], functions_analysed=sorted(st['funcs']))
    r.assumptions += ['cursors stop at exactly the matching fields in message order (C32); erasing the field of a cursor removes exactly that field (C13, C14)',
                      'a message that was read to its end once can be read again',
                      'members of a oneof are never packed or repeated; each field of a kind behaves like every other of that kind']
    r.minimum.update(worlds=40, moves=300, stops=500, erased=50, refused=50, parts=100, verdicts=200)
    r.cov['explanation'] = ('pb_oneof_create/case/clear, pb_message_erase, pb_cursor_create, pb_message_has, pb_part_create and pb_message_put are analysed by relational abstract interpretation over abstract messages: '
                            'sequences of slots holding a witness field or any number of members and other fields with smaller and larger tags. The last member must be the active one, '
                            'clearing and erasing must remove the witness wherever it stands and nothing that is no member, setting a member must leave no witness behind it, and a refused erasure must not end in success.')
