"""C19: handles that are out of date"""
import ir, par
from props.errs_ import ASSUME, tasks, report


def cursor(r):
    """moving a cursor reads the message itself"""
    from cursor import CursorSpec
    d = CursorSpec(ir.load(inline_tu=True), budget=780)
    try: d.next()
    finally: report(r, d, lambda f: 'C19' if not (f.rule[:1] == 'C' and f.rule[1:3].isdigit()) or f.rule == 'C19' else None)


def run(r, tier):
    r.assumptions += ASSUME
    r.minimum.update(worlds=80, operations=20, results=1000, aligned=50, changes=300, handles=800, reads=100)
    par.run(r, [cursor] + tasks('C19'))
    r.cov['explanation'] = ('Every public operation on parts, fields, messages, cursors and oneofs, and below them the part operations, is analysed by relational abstract interpretation with an up-to-date and with an outdated handle. '
                            'The offsets of an outdated handle are arbitrary 64-bit numbers until pb_journal_align gives it current ones or fails; every read of message bytes and every change of the journal must be at offsets known to lie in the current message, '
                            'a handle that counts as up to date must have such offsets afterwards, and one that still counts as outdated must keep the offsets it had.')
