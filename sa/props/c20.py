"""C20: errors are never swallowed"""
import re
import ir, par
from props.errs_ import ASSUME, tasks, report

# what the other units report when a failure gets lost
LOST = dict(enc=re.compile('a failure is not returned|success is reported although|encoding into an invalid encoder succeeds|without knowing that its encoder is valid'),
            dec=re.compile('decoding reports success|decoding does not return the error|decoding an invalid buffer|has reported an error|after a read has failed|does not return the handler'),
            valid=re.compile('succeeds although'),
            mem=re.compile('although an allocation failed|growing an invalid buffer succeeds|growing zero-copy memory succeeds|changing an invalid buffer succeeds|outside of the buffer succeeds|zero-copy memory succeeds'))


def unit(name):
    def pick(f):
        return 'C20' if f.rule == 'C20' or LOST[name].search(f.msg) else None

    def enc(r):
        from enc import EncoderSpec
        d = EncoderSpec(ir.load(inline_tu=True))
        try: d.encode(); d.invalid()
        finally: report(r, d, pick)

    def dec(r):
        from dec import DecoderSpec
        d = DecoderSpec(ir.load(inline_tu=True)); d.cov = {}
        try: d.run(budget=780)
        finally:
            if getattr(d, 'ip', None) is not None: report(r, d, pick)

    def valid(r):
        from valid import ValidSpec, MODEL
        d = ValidSpec(ir.load(inline_tu=True, srcs=ir.sources() + [MODEL]), budget=800)
        try: d.all((0, 2))
        finally: report(r, d, pick)

    def mem(r):
        from mem import MemSpec
        d = MemSpec(ir.load(inline_tu=True))
        try: d.create(); d.grow(); d.splice(False); d.splice(True); d.jspl(False); d.jspl(True)
        finally: report(r, d, pick)
    return locals()[name]


def run(r, tier):
    r.assumptions += ASSUME
    r.minimum.update(worlds=150, operations=20, results=1000, failures=1000, verdicts=1000)
    par.run(r, [unit(n) for n in ('valid', 'enc', 'dec', 'mem')] + tasks('C20'))
    r.cov['explanation'] = ('Every public operation on parts, fields, messages, cursors and oneofs, and below them the part operations, is analysed by relational abstract interpretation with every internal step (alignment, reading, allocation, journal change, '
                            'and any library function that returns an error code) failing or succeeding; a ghost remembers the first failure and every abstract result that reports success must be free of it, apart from the documented conversions. '
                            'The same for buffers and journals with failing allocators, the encoder with failing reservations, the decoder with failing reads and handlers, and the validator with a failing decoder.')
