"""the decoder unit, shared by C01-C05"""
import ir
from dec import DecoderSpec

ASSUME = ['descriptors are well formed: types, labels and tags in range, field tables as long as announced, submessage fields refer to a description',
          'handlers do not write to the input buffer or to the decoder',
          'pb_varint_* read only bytes before their limit and return 0 or a size from 1 to the limit (decided by C06)',
          'pb_descriptor_field_by_tag returns nothing or a field with the tag asked for (decided by C22)']


def decode(r, rules, default, rank=None, need=True):
    m = ir.load(inline_tu=True)
    d = DecoderSpec(m)
    try:
        ip = d.run(budget=780, rank=rank)
    finally:
        if getattr(d, 'ip', None) is not None:
            r.interp(d.ip, rules, default)
            st = d.ip.stats
            r.cov.update(functions=len(st['funcs']), abstract_paths=st['paths'], memory_accesses=st['access'], branches=st['branches'], loop_heads=st['heads'], calls=st['calls'])
            r.cov.update({'event_' + k: v for k, v in d.events.items()})
            r.cov['functions_analysed'] = sorted(st['funcs'])
    r.assumptions += ASSUME
    r.minimum.update(functions=1, memory_accesses=20, event_handler=3, event_unpack=8, event_scan=1, event_lookup=1, event_success=1, event_failure=1, event_delivered_packed=3, event_delivered_strings=1, event_delivered_submessages=1, event_delivered_scalars=3)
    return d
