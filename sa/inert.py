"""Invalid handles: every public operation that takes a handle is analysed with
an invalid one.  Memory the handle might have referred to does not exist in
these worlds (its pointers are missing or dangling), nothing but the handle
itself may be written, and the result has to be an error, zero or an invalid
handle."""
from mem import *
import api

HANDLES = ('pb_buffer_t', 'pb_journal_t', 'pb_decoder_t', 'pb_encoder_t', 'pb_message_t', 'pb_field_t', 'pb_cursor_t', 'pb_part_t', 'pb_oneof_t')
MARK = 1 << 63
X = ('x',)


class InertSpec(MemSpec):
    RULES = ('C21',)

    def __init__(self, mod, budget=300):
        MemSpec.__init__(self, mod, budget)
        self.cov = dict(worlds=0, results=0, operations=0, codes=0, answers=0, handles=0, skipped=0)
        self.con['@handler'] = self.handler
        self.con.update(self.W.lookup())
        for f in ('pb_journal_write', 'pb_journal_clear', 'pb_buffer_write', 'pb_buffer_clear'):
            if f not in mod.funcs: raise AnalysisBroken('%s is missing' % f)
        self.ip.contracts.update(self.con)
        self.ops, self.skipped = [], []

    def handler(self, ip, s, args, ins):
        ip.report(s, 'C21', '%s: a handler is called although the handle is invalid' % self.fn, ins)
        return [(s, I(32, 0))]

    # ------------------------------------------------------------ handles
    def part(self, s, p, st, pre, journal, version):
        W = self.W
        put = lambda k, v: W.put(s, p, st, pre + k, v)
        put('journal', journal); put('version', I(64, version))
        for k in ('start', 'end', 'diff.origin', 'diff.tag', 'diff.length'): put('offset.' + k, I(64, fresh(k, 0, U64 - 1)))

    def buf(self, s, p, st, pre=''):
        for k in ('allocator', 'data'): self.W.put(s, p, st, pre + k, NULL)
        self.W.put(s, p, st, pre + 'size', I(64, 0))

    def desc(self, s):
        W = self.W
        W.obj(s, 'D', W.desc, writable=False); W.obj(s, 'F', W.field, writable=False)
        W.put(s, ('p', 'D', ZERO), 'pb_descriptor_t', 'extension', NULL)

    def handle(self, s, t, d, live=False):
        """an invalid handle of type t; d: with a descriptor; live: the
        journal of a cursor that has ended still exists"""
        W = self.W
        p = W.struct(s, 'H', t)
        D, F = (('p', 'D', ZERO), ('p', 'F', ZERO)) if d else (NULL, NULL)
        bad = lambda: fresh('version', MARK, U64 - 1)
        if t == 'pb_buffer_t': self.buf(s, p, t)
        elif t == 'pb_journal_t':
            self.buf(s, p, t, 'buffer.')
            W.put(s, p, t, 'entry.data', NULL); W.put(s, p, t, 'entry.size', I(64, 0))
        elif t == 'pb_decoder_t':
            W.put(s, p, t, 'descriptor', D)
            b = W.struct(s, 'IB', 'pb_buffer_t'); self.buf(s, b, 'pb_buffer_t'); s.wobj('IB').writable = False
            W.put(s, p, t, 'buffer', b)
        elif t == 'pb_encoder_t':
            W.put(s, p, t, 'descriptor', D); self.buf(s, p, t, 'buffer.')
        elif t == 'pb_part_t': self.part(s, p, t, '', X, bad())
        elif t == 'pb_message_t':
            W.put(s, p, t, 'descriptor', D); self.part(s, p, t, 'part.', X, bad())
        elif t == 'pb_field_t':
            W.put(s, p, t, 'descriptor', F); self.part(s, p, t, 'part.', X, bad())
        elif t in ('pb_cursor_t', 'pb_oneof_t'):
            pre = 'cursor.' if t == 'pb_oneof_t' else ''
            if pre:
                W.obj(s, 'O', Tmpl('pb_oneof_descriptor_t', W.size('pb_oneof_descriptor_t')), writable=False)
                W.put(s, p, t, 'descriptor', ('p', 'O', ZERO) if d else NULL)
            W.put(s, p, t, pre + 'message.descriptor', D)
            self.part(s, p, t, pre + 'message.part.', ('p', 'LJ', ZERO) if live else X, fresh('version', 0, MARK - 1) if live else bad())
            W.put(s, p, t, pre + 'tag', I(32, fresh('tag', 0, (1 << 29) - 1)), 4)
            W.put(s, p, t, pre + 'current.descriptor', F)
            for c in ('offset', 'packed'):
                for k in ('start', 'end', 'diff.origin', 'diff.tag', 'diff.length'): W.put(s, p, t, '%scurrent.%s.%s' % (pre, c, k), I(64, fresh(k, 0, U64 - 1)))
            W.put(s, p, t, pre + 'pos', I(64, fresh('pos', 0, U64 - 1)))
            e = fresh('error', 1, 7)
            W.put(s, p, t, pre + 'error', I(32, e), 4)
            # a oneof is only invalid if its cursor ended with a failure
            if pre: s.st.ne0(e - W.enum('PB_ERROR_EOM'))
        return p

    def journal(self, s):
        """a live journal behind a cursor that has ended"""
        W = self.W
        W.bytes(s, 'LB', fresh('size', 1, MAXSIZE))
        j = W.struct(s, 'LJ', 'pb_journal_t')
        self.ip.globalobj(s, 'allocator_default')
        W.put(s, j, 'pb_journal_t', 'buffer.allocator', ('p', 'allocator_default', ZERO))
        W.put(s, j, 'pb_journal_t', 'buffer.data', ('p', 'LB', ZERO))
        W.put(s, j, 'pb_journal_t', 'buffer.size', I(64, s.objs['LB'].size))
        W.put(s, j, 'pb_journal_t', 'entry.data', NULL); W.put(s, j, 'pb_journal_t', 'entry.size', I(64, 0))
        s.wobj('LJ').writable = False

    def args(self, s, e, k, h):
        """arguments of a call with the handle in position k; None: unknown kind of parameter"""
        W = self.W
        out = []
        for i, (n, t) in enumerate(e['params']):
            t = t.replace('const ', '').replace('struct ', '').strip()
            if i == k: out.append(h)
            elif t == 'pb_tag_t': out.append(I(32, fresh('tag', 1, (1 << 29) - 1)))
            elif t == 'pb_tag_t *':
                n = fresh('n', 2, MAXSIZE // 64)
                W.obj(s, 'TAGS', Tmpl('tags', None, {0: dict(w=4, lo=1, hi=(1 << 29) - 1, name='tags')}, 4), writable=False, size=n.scale(4))
                self.n = n
                out.append(('p', 'TAGS', ZERO))
            elif t == 'size_t': out.append(I(64, self.n if any('pb_tag_t *' in q for _, q in e['params']) else fresh('n', 1, MAXSIZE)))
            elif t == 'void *':
                if 'value' in n or 'user' in n: out.append(('p', 'VAL', ZERO))
                else: return None
            elif t == 'pb_descriptor_t *': out.append(('p', 'D', ZERO))
            elif t == 'pb_oneof_descriptor_t *':
                W.obj(s, 'O', Tmpl('pb_oneof_descriptor_t', W.size('pb_oneof_descriptor_t')), writable=False)
                out.append(('p', 'O', ZERO))
            elif t == 'pb_decoder_handler_f': out.append(('f', '@handler'))
            elif t == 'pb_validator_t *':
                v = W.struct(s, 'V', 'pb_validator_t')
                W.put(s, v, 'pb_validator_t', 'descriptor', ('p', 'D', ZERO))
                s.wobj('V').writable = False
                out.append(v)
            else: return None
        return out

    # ------------------------------------------------------------ checks
    def isinvalid(self, z, p, t, msg):
        fn = t[:-2] + '_valid'
        if fn not in self.m.funcs: raise AnalysisBroken('%s is missing' % fn)
        for y, v in self.ip.call(z.clone(), fn, [p]):
            if y.st.bot: continue
            self.cov['handles'] += 1
            for y, e in self.err(y, v):
                if e is not None: self.rep(y, 'C21', msg); return

    def one(self, name, e, k, t, d, live=False):
        W = self.W
        S.cons.clear()
        s = State()
        self.desc(s)
        W.bytes(s, 'VAL', C(64)); s.wobj('VAL').writable = False
        if live: self.journal(s)
        h = self.handle(s, t, d, live)
        args = self.args(s, e, k, h)
        if args is None: return False
        rt = e['ret'].replace('const ', '').strip()
        struct = rt.endswith('_t') and rt not in ('pb_error_t', 'pb_tag_t', 'size_t')
        if struct: W.struct(s, 'RET', rt)
        for z, v in self.run(name, s, args):
            for o in z.objs.values():
                if o.kind == 'heap' and o.alive: self.rep(z, 'C21', 'allocates memory although the handle is invalid')
            if rt == 'pb_error_t':
                self.cov['codes'] += 1
                for y, x in self.err(z, v):
                    if x is None and name != 'pb_oneof_clear': self.rep(y, 'C21', 'returns success although the handle is invalid')
            elif rt in ('int', 'pb_tag_t', 'size_t') and not name.endswith('_empty'):
                self.cov['answers'] += 1
                for y, x in self.err(z, v) if rt != 'size_t' else [(y, None if y.st.entails_eq(l) else l) for y, l in self.ip.toint(z, v, 64)]:
                    if x is not None: self.rep(y, 'C21', 'gives a positive answer although the handle is invalid')
            elif struct:
                if v is not None and v[0] == 'a':      # small structs are returned in registers
                    for i, x in enumerate(v[1]): z.wobj('RET').cells[8 * i] = (8, x)
                if rt[:-2] + '_valid' in self.m.funcs: self.isinvalid(z, ('p', 'RET', ZERO), rt, 'returns a valid %s for an invalid handle' % rt[3:-2])
            self.isinvalid(z, h, t, 'makes an invalid handle valid')
        return True

    # ------------------------------------------------------------ invalid submessages
    def submessage(self):
        """putting an invalid submessage into a message that is alive"""
        W = self.W
        lookup, align = 'pb_descriptor_field_by_tag', 'pb_journal_align'

        def changes(ip, s, a, ins):
            ip.report(s, 'C21', '%s: changes the message although the submessage to put is invalid' % self.fn, ins)
            return []

        def aligned(ip, s, a, ins):
            return [(s.clone(), I(32, 0)), (s, I(32, W.enum('PB_ERROR_INVALID')))]
        con = dict(self.ip.contracts)
        for f in (lookup, align, 'pb_part_create', 'pb_part_write', 'pb_part_clear'):
            if f not in self.m.funcs: raise AnalysisBroken('%s is missing' % f)
        self.ip.contracts.update({lookup: lambda ip, s, a, ins: [(s, ('p', 'F', ZERO))], align: aligned, 'pb_part_write': changes, 'pb_part_clear': changes, 'pb_journal_write': changes, 'pb_journal_clear': changes})
        try:
            for name, t in (('pb_message_put', 'pb_message_t'), ('pb_cursor_put', 'pb_cursor_t')):
                S.cons.clear()
                s = State()
                self.desc(s)
                W.put(s, ('p', 'F', ZERO), 'pb_field_descriptor_t', 'type', I(32, W.enum('PB_TYPE_MESSAGE')), 4)
                s.wobj('F').cells[W.off('pb_field_descriptor_t', 'label')] = (4, I(32, W.enum('PB_LABEL_REPEATED')))
                self.journal(s)
                pre = 'message.' if t == 'pb_cursor_t' else ''
                h = self.handle(s, 'pb_cursor_t', True, True)
                if pre: W.put(s, h, t, 'error', I(32, 0), 4)
                v = W.struct(s, 'SM', 'pb_message_t')
                W.put(s, v, 'pb_message_t', 'descriptor', ('p', 'D', ZERO))
                self.part(s, v, 'pb_message_t', 'part.', X, fresh('version', MARK, U64 - 1))
                s.wobj('SM').writable = False
                args = [h, v] if pre else [('p', 'H', C(W.off('pb_cursor_t', 'message'))), I(32, fresh('tag', 1, (1 << 29) - 1)), v]
                # the part of the field: a contract, it may have changed the message already
                self.ip.contracts['pb_part_create'] = changes
                n = 0
                for z, r in self.run(name, s, args):
                    n += 1
                    self.cov['codes'] += 1
                    for y, x in self.err(z, r):
                        if x is None: self.rep(y, 'C21', 'returns success although the submessage to put is invalid')
                if not n: raise AnalysisBroken('%s does not return' % name)
                self.cov['operations'] += 1; self.ops.append(name + ' (value)')
        finally: self.ip.contracts.clear(); self.ip.contracts.update(con)

    # ------------------------------------------------------------ operations between the layers
    def inner(self):
        """the operations on buffers and journals the upper layers are built on"""
        W = self.W
        z64 = lambda: I(64, fresh('n', 0, MAXSIZE))
        for name, t, args in (('pb_buffer_grow', 'pb_buffer_t', lambda s: [I(64, fresh('n', 1, MAXSIZE))]),
                              ('pb_buffer_write', 'pb_buffer_t', lambda s: [z64(), z64(), ('p', 'VAL', ZERO), I(64, 64)]),
                              ('pb_buffer_clear', 'pb_buffer_t', lambda s: [z64(), z64()]),
                              ('pb_journal_write', 'pb_journal_t', lambda s: [z64(), z64(), z64(), ('p', 'VAL', ZERO), I(64, 64)]),
                              ('pb_journal_clear', 'pb_journal_t', lambda s: [z64(), z64(), z64()])):
            S.cons.clear()
            s = State()
            W.bytes(s, 'VAL', C(64)); s.wobj('VAL').writable = False
            h = self.handle(s, t, True)
            for z, v in self.run(name, s, [h] + args(s)):
                self.cov['codes'] += 1
                if name == 'pb_buffer_grow':
                    if z.nv(v) != NULL: self.rep(z, 'C21', 'reserves space in an invalid buffer')
                else:
                    for y, x in self.err(z, v):
                        if x is None: self.rep(y, 'C21', 'returns success although the %s is invalid' % t[3:-2])
                self.isinvalid(z, h, t, 'makes an invalid handle valid')
            self.cov['operations'] += 1; self.ops.append(name)

    def all(self):
        self.submessage(); self.inner()
        for name, e in sorted(api.functions().items()):
            f = self.m.funcs.get(name)
            for k, (n, t) in enumerate(e['params']):
                t = t.replace('const ', '').replace('struct ', '').replace('*', '').strip()
                if t not in HANDLES or '*' not in e['params'][k][1]: continue
                if name.endswith('_dump') or f is None or not f.defined:
                    self.cov['skipped'] += 1; self.skipped.append(name); continue
                ok = True
                for d in (True, False): ok &= self.one(name, e, k, t, d)
                # a cursor that has ended, in front of a message that still exists
                if t == 'pb_cursor_t' and name.split('_')[-1] not in ('rewind', 'message'): self.one(name, e, k, t, True, True)
                if ok: self.cov['operations'] += 1; self.ops.append(name)
                else: self.skipped.append(name); self.cov['skipped'] += 1


if __name__ == '__main__':
    t = time.time()
    d = InertSpec(ir.load(inline_tu=True))
    d.all()
    print(d.cov, d.skipped)
    for f in d.ip.findings:
        print(f)
        if __import__('os').environ.get('V'): print(f.trace, f.state)
    print(time.time() - t)
