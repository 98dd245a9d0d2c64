"""C18: length prefixes around a part follow every change of its size"""
import ir, par, api
from props.errs_ import report

ENTRIES = ('pb_part_write', 'pb_part_clear', 'pb_part_create')
CHANGES = ('pb_journal_write', 'pb_journal_clear', 'pb_buffer_write', 'pb_buffer_clear')


def edits(r):
    """every public operation changes messages through the part operations"""
    m = ir.load(inline_tu=True)
    calls, site = {}, {}
    for f in m.funcs.values():
        if not f.defined: continue
        for b in f.order:
            for i in f.blocks[b].ins:
                if i.op == 'call' and i.x.k == 'global':
                    calls.setdefault(f.name, set()).add(i.x.v)
                    site.setdefault((f.name, i.x.v), i)
    n = 0
    for name, e in sorted(api.functions().items()):
        if name not in m.funcs or not m.funcs[name].defined: continue
        file = m.fnloc(m.funcs[name])[0] or ''
        if 'journal' in name.split('_')[1:2] or '/core/' in file or '/util/' in file or name in ENTRIES or name in CHANGES: continue
        n += 1
        seen, todo = {name}, [(name, (name,))]
        while todo:
            g, path = todo.pop()
            for c in sorted(calls.get(g, ())):
                if c in CHANGES[:2] and g != 'pb_journal_write' or c in CHANGES[2:]:
                    i = site[g, c]
                    f, l = m.loc(i.dbg)[:2]
                    r.add('C18', '%s changes the message without adjusting the length prefixes around the change (%s)' % (name, ' -> '.join(path + (c,))), (f, l, g), [], '')
                elif c not in seen and c not in ENTRIES: seen.add(c); todo.append((c, path + (c,)))
    r.cov['edit_operations'] = n
    r.minimum['edit_operations'] = 20


def task(c):
    def go(r):
        from pfx import PrefixSpec
        d = PrefixSpec(ir.load(inline_tu=True), budget=780)
        try: d.cases(c)
        finally: report(r, d, lambda f: 'C18' if f.rule == 'C18' else None)
    return go


def run(r, tier):
    from pfx import PrefixSpec
    r.assumptions += ['the message is well formed around the part: fields follow each other, and every enclosing field contains the one it encloses (for hostile input the operation has to be safe and report errors, C19, C20)',
                      'a part that is up to date has the offsets of its field; alignment gives the current offsets of the position it is given (C15)',
                      'a journal change replaces exactly the given bytes (C13) and is recorded (C14); varints are written in full and read back as written (C06)',
                      'messages stay below 2^30 bytes',
                      'positions of fields reported by cursors are field boundaries of the message (C32)']
    r.minimum.update(worlds=20, operations=20, changes=100, prefixes=200, tags=200, lengths=200, nested=6, aligned=50, judged=150, held=400)
    # longest first
    cs = sorted(PrefixSpec.CASES, key=lambda c: (c[0] != 'create', c[2] == 0, c[2] == 1))
    par.run(r, [task([c]) for c in cs] + [edits])
    r.cov['explanation'] = ('Writing, clearing and creating a part is analysed by relational abstract interpretation over a message in which the part (value, string or message, value of a packed field, new field) lies inside a chain of length-prefixed fields of arbitrary sizes and positions, each behind arbitrarily many other fields. '
                            'Every change of the journal moves the fields behind it and resizes those around it; a rewritten prefix holds the number written. Whenever the operation reports success, each prefix in the chain must hold the size of its content. '
                            'Deeper nesting is covered by induction: the call of the walking function for the content of a field is replaced by the same claim, and must be made with the position of that content, the part, and the change of the size.')
