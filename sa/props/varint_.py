import ir
from varints import check


def varints(r, parts, rule, memory_only=False):
    obl = {}
    for ex in ((), ('-U__SSE2__',)):
        m = ir.Module(ir.build(extra=ex, srcs=ir.sources(('core',))))
        def rep(msg, loc):
            if memory_only and not any(x in msg for x in ('outside', 'not valid', 'is written', 'undefined')): return
            r.add(rule, msg, loc)
        check(m, rep, parts, obl)
    r.cov.update({'varint_' + k: v for k, v in obl.items()})
    r.minimum.update({'varint_partitions': 800})
    for p in parts: r.minimum['varint_' + p] = 400
