"""shared by the effect rules C16, C17, C28, C30"""
import flow, ir
from ir import AnalysisBroken

BYTES = ('data:pb_journal_t.buffer.data', 'data:pb_buffer_t.data', 'data:pb_decoder_t.buffer.data')


def universe():
    m = flow.load()
    return m, flow.public(m)


def cover(r, F):
    r.cov['operations'] = len(F.roots)
    r.cov['functions'] = len(F.reach)
    r.cov['stores'] = len(F.stores)
    r.cov['calls'] = len(F.callees)
    r.cov['externals'] = len(F.external)
    r.cov['external_functions'] = sorted(F.external)
    if F.unknown_calls:
        raise AnalysisBroken('effects of external function %s are unknown' % sorted({n for i in F.unknown_calls for n in F.callees[i] if n not in F.m.funcs or not F.m.funcs[n].defined}))


def report(r, F, rule, msg, i):
    r.add(rule, msg, F.m.loc(i.dbg) if i.dbg else ('?', 0, i.fn.name), F.path(i.fn.name))


def effects(F):
    """(instruction, object key, offset, what) for everything that may change memory"""
    for i, es in F.stores.items():
        for k, o in es: yield i, k, o, 'written'
    for i, es in F.frees.items():
        for k, o in es: yield i, k, o, 'released'
    for n, ins in F.external.items():
        if n.startswith('callback:pb_allocator_t.proc') and 'allocate' not in n:
            for i in ins:
                for v in i.ops[1:]:
                    for k, o in F.val(i.fn.name, v): yield i, k, o, 'resized or released'
