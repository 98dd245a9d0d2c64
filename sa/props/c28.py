from props.eff_ import *

DESC = ('type:pb_descriptor_t', 'type:pb_field_descriptor_t', 'type:pb_enum_descriptor_t', 'type:pb_enum_value_descriptor_t', 'type:pb_oneof_descriptor_t')


def run(r, tier):
    m, pub = universe()
    F = flow.Flow(m, sorted(pub))
    cover(r, F)
    mutable = [g for g in m.globals.values() if not g.const and not g.name.startswith('llvm.') and g.init is not None]
    r.cov['globals'] = len(m.globals); r.cov['globals_not_const'] = sorted(g.name for g in mutable)
    extend = {'pb_descriptor_extend'}
    for i, k, o, what in effects(F):
        if k.startswith('global:'):
            report(r, F, 'C28', 'global %s may be %s: operations on unrelated objects share state' % (k[7:], what), i)
        elif (k in DESC or k.startswith('data:pb_field_descriptor_t') or k.startswith('data:pb_enum_value') or k.startswith('data:pb_oneof_desc')):
            roots = {n for n in F.reach if n == i.fn.name}
            # only the explicit registration may change a descriptor
            others = F.roots if i.fn.name in F.roots else None
            if i.fn.name in extend: r.cov['registrations'] = r.cov.get('registrations', 0) + 1; continue
            if only(F, i.fn.name, extend): r.cov['registrations'] = r.cov.get('registrations', 0) + 1; continue
            report(r, F, 'C28', 'shared description %s may be %s outside of pb_descriptor_extend' % (F.member(k, o), what), i)
    for n, ins in F.external.items():
        if n in flow.STATEFUL:
            for i in ins: report(r, F, 'C28', 'call of %s, which keeps state shared by all threads' % n, i)
    r.minimum.update(operations=120, functions=130, stores=60, registrations=1)
    r.cov['explanation'] = ('Field-sensitive points-to analysis of everything reachable from all public operations: no store, memory function or release may reach a global object '
                            'or (outside of pb_descriptor_extend) a descriptor; no stateful library function is called. registrations = stores found in pb_descriptor_extend (the expected positive).')
    r.assumptions += ['callers do not share buffers, journals, allocators or handles between threads', 'allocator callbacks and handlers of the user are thread safe', 'standard library: malloc, realloc, free, memcmp, strcmp, strlen are thread safe']


def only(F, fn, allowed):
    """is fn reachable from the allowed operations only"""
    callers = {}
    for i, ns in F.callees.items():
        for n in ns: callers.setdefault(n, set()).add(i.fn.name)
    seen, todo = set(), [fn]
    while todo:
        f = todo.pop()
        if f in seen or f in allowed: continue
        seen.add(f)
        if f in F.roots: return False
        todo += callers.get(f, ())
    return True
