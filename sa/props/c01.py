from props.dec_ import decode
from props.varint_ import varints


def run(r, tier):
    varints(r, ('unpack', 'scan'), 'C01', True)
    decode(r, {'C01'}, True)
    r.cov['explanation'] = 'Abstract interpretation (integer polyhedra over region memory, fixpoints at loop heads) of pb_decoder_decode with an arbitrary buffer, description and handler, with a wire-format automaton running along; the varint readers it calls are analysed for every length by bit-provenance dataflow. Counts are those of this run.'
