from props.enc_ import enc
from props.mem_ import mem
from props.varint_ import varints


def run(r, tier):
    enc(r, 'C08', dict(worlds=100, tags=150, values=200, successes=100))
    # the two contracts the encoder rests on
    varints(r, ('size', 'pack'), 'C08')
    own = dict(r.cov)
    mem(r, 'C10', ['grow'], {})
    r.cov.update(own)
    r.cov['explanation'] = ('Abstract interpretation of pb_encoder_encode once per field type, label and packing, for one and for any larger number of values, with and without memory in the buffer: '
                            'an automaton follows every reservation and every byte written behind the old contents (tag, run length, length, payload of the element the position belongs to), '
                            'so that each reserved byte is written exactly once with the byte the encoded form requires, and nothing else is written. Loops are solved by fixpoint, there is no bound on counts or lengths. The reservation of space (pb_buffer_grow) and the sizes and bytes of varints are decided from their sources as well.')
