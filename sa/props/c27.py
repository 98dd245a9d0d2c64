"""C27: the chunk allocator"""
import ir
from chunk import ChunkSpec


def run(r, tier):
    m = ir.load(inline_tu=True)
    d = ChunkSpec(m, *((3, 2) if tier == 'quick' else (3, 3)))
    try: d.all()
    finally:
        r.interp(d.ip, {'C27'}, True)
        st = d.ip.stats
        r.cov.update(d.cov)
        r.cov.update(functions=len(st['funcs']), abstract_paths=st['paths'], memory_accesses=st['access'], branches=st['branches'], functions_analysed=sorted(st['funcs']))
    r.assumptions += ['malloc and realloc return a fresh block of at least the size asked for or nothing; resizing keeps the contents up to the smaller size and a failed resize keeps the old block',
                      'sizes and the capacity are below 2^61 (their sum with the header does not wrap)',
                      'at most three blocks are live when an operation is analysed (their sizes, the capacity and the order of creation and release are arbitrary)']
    r.minimum.update(histories=500, operations=3000, successes=1000, failures=100, destructions=800)
    r.cov['explanation'] = ('Abstract interpretation of the allocator through its interface: from every history of up to three live blocks of arbitrary sizes, each operation on each block, every allocation failing or succeeding, '
                            'followed by every way of winding down. After each result: every live block is live memory of at least its size, blocks do not overlap, a byte at an arbitrary position is the one the user wrote, failure only after a failed allocation, '
                            'no double release, and nothing allocated after destruction.')
