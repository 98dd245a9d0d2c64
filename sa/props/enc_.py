"""the encoder, shared by C08 and C09"""
import ir
from enc import EncoderSpec

ASSUME = ['an allocator returns a fresh block of at least the size asked for or nothing; resizing keeps the contents up to the smaller size',
          'reserving space in a buffer behaves as C10-C13 establish: it fails without effect or extends the buffer by exactly the bytes asked for, moving the memory',
          'the size and pack operations of varints agree as C06 establishes',
          'values announce lengths below 2^31 and there are at most 2^24 of them; the values do not lie inside the encoder\'s buffer',
          'the field looked up for a tag is well formed: type, label and flags as the generator emits them']


def enc(r, rule, mins):
    m = ir.load(inline_tu=True)
    d = EncoderSpec(m)
    try:
        d.encode()
        if rule == 'C09': d.invalid()
    finally:
        r.interp(d.ip, {rule}, rule == 'C08')
        st = d.ip.stats
        r.cov.update(d.cov)
        r.cov.update(functions=len(st['funcs']), abstract_paths=st['paths'], memory_accesses=st['access'], branches=st['branches'], loops=st['loops'], loop_heads=st['heads'], functions_analysed=sorted(st['funcs']))
    r.assumptions += ASSUME
    r.minimum.update(mins)
    return d
