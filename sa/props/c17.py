from props.eff_ import *
from props.c16 import OWN

# the operations that read; the mutating ones are create/put/erase/clear/extend/destroy/encode
READ = ('has', 'match', 'get', 'next', 'prev', 'last', 'first', 'seek', 'rewind', 'case', 'check', 'decode', 'error', 'valid', 'size', 'empty', 'data', 'buffer', 'descriptor', 'message', 'part',
        'tag', 'name', 'type', 'label', 'nested', 'enum', 'oneof', 'default', 'packed', 'wiretype', 'number', 'pos', 'current', 'begin', 'end', 'equals', 'extension', 'dump', 'align', 'string', 'allocator', 'by')
MUT = ('create', 'put', 'erase', 'clear', 'write', 'destroy', 'extend', 'encode', 'init', 'allocate', 'resize', 'free', 'grow')
KEY = ('pb_cursor_next', 'pb_cursor_rewind', 'pb_cursor_seek', 'pb_cursor_match', 'pb_cursor_get', 'pb_field_match', 'pb_field_get', 'pb_message_has', 'pb_message_match', 'pb_message_get',
       'pb_message_nested_has', 'pb_message_nested_match', 'pb_message_nested_get', 'pb_oneof_case', 'pb_decoder_decode', 'pb_validator_check', 'pb_cursor_last')


def run(r, tier):
    m, pub = universe()
    roots = sorted(n for n in pub if not any(w in n.split('_') for w in MUT) and any(w in n.split('_') for w in READ))
    for k in KEY:
        if k not in roots: raise AnalysisBroken('reading operation %s is missing' % k)
    roots += [n for n in ('pb_cursor_create', 'pb_oneof_create', 'pb_message_create', 'pb_field_create_from_cursor') if n in pub]
    F = flow.Flow(m, sorted(roots))
    cover(r, F)
    for i, k, o, what in effects(F):
        if k in OWN or k in BYTES or k == 'type:pb_allocator_t':
            report(r, F, 'C17', 'a reading operation: %s may be %s' % ({'data:pb_journal_t.buffer.data': 'message memory', 'data:pb_buffer_t.data': 'message memory'}.get(k, F.member(k, o)), what), i)
        elif k.startswith('data:') and k.endswith(('.data', '.value')) and 'pb_' in k and '(' not in k:
            report(r, F, 'C17', 'a reading operation: memory of %s may be %s' % (k[5:], what), i)
    for n, ins in F.external.items():
        if n.startswith('callback:pb_allocator_t.proc') and 'allocate' not in n:
            for i in ins: report(r, F, 'C17', 'a reading operation may resize or release memory', i)
    G = flow.Flow(m, ['pb_message_put', 'pb_field_put', 'pb_message_erase'])
    r.cov['writes_by_put_and_erase'] = sum(1 for i, k, o, what in effects(G) if k in OWN or k in BYTES)
    r.minimum.update(operations=80, functions=90, stores=20, writes_by_put_and_erase=4)
    r.cov['explanation'] = ('Points-to and effect analysis of everything reachable from the reading operations: no store, copy, resize or release may touch message bytes, a buffer, a journal or its '
                            'change records (handles may be brought up to date). writes_by_put_and_erase: the same query on mutating operations (expected positive).')
    r.assumptions += ['the memory a value is read into does not overlap the message or its journal', 'handlers of the user do not change the message']
