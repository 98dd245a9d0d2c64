from props.eff_ import *

OWN = ('type:pb_journal_t', 'type:pb_buffer_t', 'type:pb_journal_entry_t')


def journal_file(m):
    f = m.funcs.get('pb_journal_write')
    if f is None or not f.defined or 'pb_journal_clear' not in m.funcs: raise AnalysisBroken('pb_journal_write or pb_journal_clear is missing')
    return flow.filename(m, f)


def handles(m, n):
    """does the operation work on a handle of the message layer"""
    import api
    e = api.functions()[n]
    return any(t in p for _, p in e['params'] for t in ('pb_message_t', 'pb_field_t', 'pb_cursor_t', 'pb_oneof_t', 'pb_part_t')) or \
        (e['part'] == 'message' and any(t in e['ret'] for t in ('pb_message_t', 'pb_field_t', 'pb_cursor_t', 'pb_oneof_t')))


def run(r, tier):
    m, pub = universe()
    jf = journal_file(m)
    # the journal's own operations: everything of its source file is the subject of C13-C15
    cut = {n for n, f in m.funcs.items() if f.defined and f.linkage != 'internal' and flow.filename(m, f) == jf}
    roots = sorted(n for n in pub if handles(m, n) and n not in cut)
    F = flow.Flow(m, roots, cut=cut)
    cover(r, F)
    direct = {'pb_buffer_write', 'pb_buffer_clear', 'pb_buffer_grow'}
    for i, ns in F.callees.items():
        for n in ns:
            if n in cut: r.cov['calls_of_journal'] = r.cov.get('calls_of_journal', 0) + 1
            if n in direct and i.fn.name not in cut:
                report(r, F, 'C16', '%s is called past the journal' % n, i)
    for i, k, o, what in effects(F):
        if k in OWN or k in BYTES or k.startswith('heap:'):
            report(r, F, 'C16', '%s may be %s past the journal' % ({'data:pb_journal_t.buffer.data': 'message memory', 'data:pb_buffer_t.data': 'message memory'}.get(k, F.member(k, o)), what), i)
        elif k == 'data:nested':
            report(r, F, 'C16', 'memory read from the message is used as a pointer and %s' % what, i)
    # expected positive: with the journal's operations included, the same query finds its writes
    G = flow.Flow(m, ['pb_journal_write', 'pb_journal_clear'])
    r.cov['journal_writes'] = sum(1 for i, k, o, what in effects(G) if k in OWN or k in BYTES)
    r.minimum.update(operations=45, functions=60, calls_of_journal=3, journal_writes=4)
    r.cov['explanation'] = ('Points-to and effect analysis of every operation on fields, cursors, messages, oneofs and parts with the journal source file as the boundary: no store, copy, resize '
                            'or release reachable outside of it may touch message bytes, a buffer, a journal or its records. journal_writes: the same query inside of the boundary (expected positive).')
    r.assumptions += ['memory is accessed through the types it was created with; what user callbacks do is theirs']
