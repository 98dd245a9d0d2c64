"""buffers and journals, shared by C10-C14"""
import ir
from mem import MemSpec

ASSUME = ['an allocator returns a fresh block of at least the size asked for or nothing; resizing keeps the contents up to the smaller size, and a failed resize keeps the old block',
          'sizes and offsets of live objects are below 2^62',
          'the data written to a buffer does not lie inside that buffer',
          'objects satisfy the invariant that creation establishes and every operation is shown to keep: memory belongs to the object\'s allocator, has at least the announced size, and only zero-copy objects refer to memory of the user']


def mem(r, rule, parts, mins):
    m = ir.load(inline_tu=True)
    d = MemSpec(m)
    try:
        for p in parts:
            if isinstance(p, tuple): getattr(d, p[0])(*p[1:])
            else: getattr(d, p)()
    finally:
        r.interp(d.ip, {rule}, True)
        st = d.ip.stats
        r.cov.update(d.cov)
        r.cov.update(functions=len(st['funcs']), abstract_paths=st['paths'], memory_accesses=st['access'], branches=st['branches'], functions_analysed=sorted(st['funcs']))
    r.assumptions += ASSUME
    r.minimum.update(mins)
    return d
