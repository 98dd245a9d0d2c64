"""C32: cursor iteration"""
import ir, par
from cursor import CursorSpec


def task(worlds, cases):
    def go(r):
        d = CursorSpec(ir.load(inline_tu=True), budget=780)
        try:
            if worlds: d.next(worlds)
            if cases: d.create(cases)
        finally:
            r.interp(d.ip, {'C32', 'C19'}, True)
            st = d.ip.stats
            r.cov.update(d.cov)
            r.cov.update(functions=len(st['funcs']), abstract_paths=st['paths'], memory_accesses=st['access'], branches=st['branches'], loops=st['loops'], loop_heads=st['heads'], functions_analysed=sorted(st['funcs']))
    return go


def run(r, tier):
    m = ir.load(inline_tu=True)
    ws = list(CursorSpec(m).worlds())
    # without a descriptor or tag it takes longest
    ws.sort(key=lambda w: (w[0], w[1]))
    par.run(r, [task(None, [c]) for c in CursorSpec.CREATE if c[1] == (False, True)] + [task([w], None) for w in ws] + [task(None, [c]) for c in CursorSpec.CREATE if c[1] != (False, True)])
    r.assumptions += ['descriptors are well formed; looking a tag up gives a field with that tag or nothing (C22)',
                      'alignment gives current positions or says that the bytes are gone (C15)',
                      'varint reading and scanning behave as decided by C06',
                      'a truncated last field may be reported as the end of the message; a field is delivered as its descriptor says, not as its wire type says']
    r.minimum.update(worlds=30, tags=60, stopped=150, stopped_packed=10, ended=100, failed=100, fields_skipped=50, aligned=10, created=100)
    r.cov['explanation'] = ('pb_cursor_next, pb_cursor_create_unsafe and pb_cursor_rewind are analysed by relational abstract interpretation over arbitrary message bytes, for cursors with and without tag, with a known, unknown or repeated packed field, '
                            'standing anywhere in the message, up to date or not (with the position, its packed field or the whole message removed meanwhile). An automaton of the wire format runs along with the abstract states; '
                            'where the cursor stops, what it denotes and when it ends are compared with the automaton.')
