from props.varint_ import varints


def run(r, tier):
    varints(r, ('size', 'pack', 'unpack', 'scan'), 'C06')
    r.cov['explanation'] = ('Bit-provenance dataflow: each bit is an affine GF(2) form over input bits. All values of every type are partitioned by '
        'their significant bits, all byte sequences by where the varint ends and all lengths (1..40 and above); in every partition size, pack, unpack and scan '
        'are compared with the canonical encoding bit by bit; with and without SSE2.')
    r.assumptions += ['two\'s complement arithmetic; little-endian target (as built)', 'pack may write as many bytes as size announces']
