import ir
from field import FieldSpec
from enc import EncoderSpec
from dec import DecoderSpec
from props.varint_ import varints


def run(r, tier):
    m = ir.load(inline_tu=True)
    specs = []
    try:
        d = FieldSpec(m); specs.append(d)
        d.all()
        e = EncoderSpec(m); e.form = 'C07'; specs.append(e)
        e.encode()
        x = DecoderSpec(m); x.form = 'C07'; specs.append(x)
        x.run(budget=600)
    finally:
        for k, s in zip(('field', 'encoder', 'decoder'), specs):
            ip = getattr(s, 'ip', None)
            if ip is None: continue
            r.interp(ip, {'C07', 'C05'} if k == 'decoder' else {'C07'}, k == 'field')
            r.cov.update({k + '_' + n: v for n, v in (s.events if k == 'decoder' else s.cov).items()})
            r.cov[k + '_functions'] = sorted(ip.stats['funcs'])
    varints(r, ('size', 'pack', 'unpack'), 'C07')
    r.minimum.update(field_types=17, field_worlds=60, field_reads=17, field_writes=34, field_compares=10, field_defaults=60, encoder_worlds=60, encoder_values=30, decoder_unpack=50, decoder_delivered_packed=3, decoder_delivered_scalars=3)
    r.cov['explanation'] = ('For each of the 17 types: reading, writing, comparing, defaulting a field and putting a whole message are analysed by relational abstract interpretation and compared with the '
                            'representation the specification prescribes (varint kind, 4 or 8 bytes, length prefix and bytes; size in memory); encoder and decoder are compared with the same table of the specification, '
                            'and the varint functions with the canonical encoding by bit-provenance dataflow.')
    r.assumptions += ['descriptors are well formed', 'the value handed over has the type of the field', 'bits of floating point values are compared, not their numerical value',
                      'a message without the field looks as pb_cursor_create reports it (decided elsewhere)']
