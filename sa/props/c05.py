from props.dec_ import decode
from props.varint_ import varints


def run(r, tier):
    varints(r, ('scan',), 'C05')
    decode(r, {'C05'}, False)
    r.cov['explanation'] = 'Abstract interpretation of pb_decoder_decode with an arbitrary buffer, description and handler, with a wire-format automaton running along (extent of each skipped field); varint scanning is decided for every byte pattern and length by bit-provenance dataflow.'
