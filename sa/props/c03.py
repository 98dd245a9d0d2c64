from props.dec_ import decode


def run(r, tier):
    decode(r, {'C03'}, False)
    r.cov['explanation'] = 'Abstract interpretation (integer polyhedra over region memory, fixpoints at loop heads) of pb_decoder_decode with an arbitrary buffer, description and handler, with a wire-format automaton running along; counts are those of this run.'
