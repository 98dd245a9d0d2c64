import ir
from inert import InertSpec


def run(r, tier):
    d = InertSpec(ir.load(inline_tu=True))
    try: d.all()
    finally:
        r.interp(d.ip, {'C21'}, True)
        r.cov.update(d.cov)
        r.cov.update(operations_analysed=d.ops, not_analysed=d.skipped, memory_accesses=d.ip.stats['access'])
    r.minimum.update(operations=60, codes=30, answers=25, handles=100)
    r.cov['explanation'] = ('Every operation of the public headers with a handle parameter is analysed by abstract interpretation with an invalid handle whose memory is missing or dangling (any offsets, versions, '
                            'tags, error codes): no access through the handle, nothing but the handle written, result an error, zero or an invalid handle.')
    r.assumptions += ['pb_oneof_clear on a oneof without message reports success (nothing to clear), as its tests demand', 'the dump operations, for debugging only, are not analysed',
                      'other arguments are valid', 'a cursor that has ended still has a message and may be rewound; it is inert for all other operations']
