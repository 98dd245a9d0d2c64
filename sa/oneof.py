"""Oneofs: the functions that set, clear and ask for members are analysed over
abstract messages.  A message is a sequence of slots: some hold one distinguished
field (a witness), the others any number of fields of given kinds.  Cursors
move over it as decided by C32 (contracts of pb_cursor_create_unsafe,
pb_cursor_next), erasing a field removes it or fails."""
from mem import *

U = 1 << 20
MARK = 1 << 63
KINDS = {'m<': 'a member with a smaller tag', 'm>': 'a member with a larger tag', 'n<': 'another field with a smaller tag', 'n>': 'another field with a larger tag', 'T': 'the field itself'}
NON = ('n<', 'n>')
ALL = ('m<', 'm>', 'n<', 'n>', 'T')
NOT_T = ('m<', 'm>', 'n<', 'n>')


class OneofSpec(MemSpec):
    RULES = ('C26',)

    def __init__(self, mod, budget=600):
        MemSpec.__init__(self, mod, budget)
        W = self.W
        self.cov = dict(worlds=0, results=0, moves=0, stops=0, erased=0, refused=0, parts=0, verdicts=0)
        for f, c in (('pb_cursor_create_unsafe', self.c_create), ('pb_cursor_next', self.c_next), ('pb_cursor_erase', self.c_erase), ('pb_cursor_align', self.c_align),
                     ('pb_descriptor_field_by_tag', self.c_lookup), ('pb_journal_write', self.c_jwrite), ('pb_journal_align', self.c_jalign), ('pb_varint_unpack_uint32', self.c_unpack), ('pb_varint_scan', self.c_scan),
                     ('pb_part_write', self.c_pwrite)):
            if f not in mod.funcs: raise AnalysisBroken('%s is missing' % f)
            self.con[f] = c
        self.con.update({k: v for k, v in W.varints().items() if k not in self.con})
        self.ip.contracts.update(self.con)
        self.base = dict(self.ip.contracts)
        self.ip.headhook = self.headhook

    # ------------------------------------------------------------ positions
    def slotof(self, s, l):
        l = s.st.norm(l)
        if not l.t: return l.c // U - 1
        for j in range(len(self.slots)):
            if s.st.entails(l - (j + 1) * U) and s.st.entails(-l + (j + 2) * U - 1): return j
        return None

    def headhook(self, s):
        """states are kept apart by the slots their cursors are in"""
        W = self.W
        off = W.off('pb_cursor_t', 'current.offset.end')
        at = {W.size('pb_cursor_t'): off, W.size('pb_oneof_t'): W.off('pb_oneof_t', 'cursor') + off}
        for o in s.objs.values():
            k = at.get(o.size.const()) if o.size is not None else None
            if k is None or k not in o.cells: continue
            v = s.nv(o.cells[k][1])
            g = 'at:' + o.id
            if v[0] == 'i':
                x = self.slotof(s, v[2])
                s.ghost[g] = I(8, 99 if x is None else x + 1)
            else: s.ghost[g] = I(8, 98)
            self.ip.partghosts.add(g)

    # ------------------------------------------------------------ contracts
    def w(self, s, c, mem, v, ins, w=8): self.ip.store(s, ('p', c[1], c[2] + self.W.off('pb_cursor_t', mem)), w, v, ins)

    def r(self, s, c, mem, w=8, want='i'):
        v = self.ip.readobj(s, s.objs[c[1]], s.st.norm(c[2] + self.W.off('pb_cursor_t', mem)), w, want)
        return s.nv(v[0][1]) if len(v) == 1 else UNDEF

    def stops(self, s, i, tagged):
        """where a cursor in slot i may go next: [(slot, descriptor, witness)], end possible"""
        out = []
        for j in range(max(i, 0), len(self.slots)):
            k = self.slots[j]
            if isinstance(k, tuple):
                for x in k:
                    if not tagged or x == 'T': out.append((j, 'F' + x, False))
            elif j > i:
                if tagged and k != 'T' or s.ghost['er%d' % j][2].const(): continue
                out.append((j, self.wit(j), True))
                return out, False
        return out, True

    def wit(self, j):
        """descriptor of the witness in slot j"""
        return 'FT' if self.slots[j] == 'T' else 'W%d' % j

    def place(self, s, c, j, d, wit, ins):
        b = (j + 1) * U
        st = C(b + 100) if wit else fresh('at', b, b + U - 4096)
        for m, l in (('offset.start', st), ('offset.end', st + 100), ('offset.diff.origin', -st + self.ms), ('offset.diff.tag', C(-2)), ('offset.diff.length', C(-1)),
                     ('packed.start', ZERO), ('packed.end', ZERO), ('packed.diff.origin', ZERO), ('packed.diff.tag', ZERO), ('packed.diff.length', ZERO)):
            self.w(s, c, 'current.' + m, I(64, l), ins)
        self.w(s, c, 'current.descriptor', ('p', d, ZERO), ins)
        self.w(s, c, 'pos', I(64, fresh('pos', 0, MAXSIZE)), ins)
        self.w(s, c, 'error', I(32, 0), ins, 4)
        self.cov['stops'] += 1

    def fail(self, s, c, e, ins):
        self.w(s, c, 'error', I(32, e), ins, 4)

    def move(self, ip, s, c, i, tagged, ins):
        """[(state, moved)]"""
        out = []
        self.cov['moves'] += 1
        cand, end = self.stops(s, i, tagged)
        for j, d, wit in cand:
            z = s.clone()
            self.place(z, c, j, d, wit, ins)
            out.append((z, 1))
        if not self.gh(s, 'sound'):
            z = s.clone(); self.fail(z, c, self.W.enum('PB_ERROR_VARINT'), ins); z.ghost['broken'] = I(8, 1)
            out.append((z, 0))
        if end:
            # a message that was read to its end once can be read again
            z = s.clone(); self.fail(z, c, self.W.enum('PB_ERROR_EOM'), ins); z.ghost['sound'] = I(8, 1)
            out.append((z, 0))
        return out

    def istagged(self, s, v, ins):
        """[(state, tagged)]"""
        out = []
        for s1, t in self.ip.toint(s, v, 32):
            for z in self.ip.assume_cmp(s1.clone(), 'eq', t, ZERO, 32): out.append((z, False))
            for z in self.ip.assume_cmp(s1, 'ne', t, ZERO, 32):
                if not z.st.entails_eq(t - self.T): self.say(z, 'a cursor looks for another field than the one asked for', ins)
                out.append((z, True))
        return out

    def say(self, s, msg, ins=None):
        if ins is None: self.ip.report(s, 'C26', '%s: %s' % (self.fn, msg), loc=self.loc)
        else: self.ip.report(s, 'C26', '%s: %s' % (self.fn, msg), ins)

    def c_create(self, ip, s, args, ins):
        out = []
        W = self.W
        for s1, c in ip.deref(s, args[0], 'write', ins):
            for s2, m in ip.deref(s1, args[1], 'read', ins):
                for z, tagged in self.istagged(s2, args[2], ins):
                    self.over(z, c, m, tagged, ins)
                    if z.nv(self.r(z, c, 'message.descriptor', 8, 'p')) != ('p', 'D', ZERO): self.say(z, 'a cursor moves over another message', ins)
                    out += [(y, None) for y, _ in self.move(ip, z, c, -1, tagged, ins)]
        return out

    def over(self, z, c, m, tagged, ins):
        """a cursor at the start of a copy of the message"""
        W = self.W
        for k in ('descriptor', 'part.journal'): self.w(z, c, 'message.' + k, self.ip.readobj(z, z.objs[m[1]], z.st.norm(m[2] + W.off('pb_message_t', k)), 8, 'p')[0][1], ins)
        for k in ('part.version', 'part.offset.start', 'part.offset.end', 'part.offset.diff.origin', 'part.offset.diff.tag', 'part.offset.diff.length'):
            self.w(z, c, 'message.' + k, self.ip.readobj(z, z.objs[m[1]], z.st.norm(m[2] + W.off('pb_message_t', k)), 8, 'i')[0][1], ins)
        self.w(z, c, 'tag', I(32, self.T if tagged else 0), ins, 4)
        for k in ('offset', 'packed'):
            for f in ('start', 'end', 'diff.origin', 'diff.tag', 'diff.length'): self.w(z, c, 'current.%s.%s' % (k, f), I(64, 0), ins)
        self.w(z, c, 'current.descriptor', ('p', 'FT', ZERO) if tagged else NULL, ins)
        self.w(z, c, 'pos', I(64, 0), ins)
        self.w(z, c, 'error', I(32, 0), ins, 4)

    def c_next(self, ip, s, args, ins):
        out = []
        for s1, c in ip.deref(s, args[0], 'write', ins):
            e = self.r(s1, c, 'error', 4)
            for z in ip.assume_cmp(s1.clone(), 'ne', e[2], ZERO, 32): out.append((z, I(32, 0)))
            for z in ip.assume_cmp(s1, 'eq', e[2], ZERO, 32):
                v = self.r(z, c, 'current.offset.end')
                i = self.slotof(z, v[2]) if v[0] == 'i' else None
                if i is None:
                    # the position is not known: anywhere in the message
                    self.cov['lost'] = self.cov.get('lost', 0) + 1
                    i = -1
                for y, tagged in self.istagged(z, self.r(z, c, 'tag', 4), ins):
                    out += [(x, I(32, k)) for x, k in self.move(ip, y, c, i, tagged, ins)]
        return out

    def c_erase(self, ip, s, args, ins):
        out = []
        for s1, c in ip.deref(s, args[0], 'write', ins):
            e = self.r(s1, c, 'error', 4)
            for z in ip.assume_cmp(s1.clone(), 'ne', e[2], ZERO, 32): out.append((z, I(32, self.W.enum('PB_ERROR_INVALID'))))
            for z in ip.assume_cmp(s1, 'eq', e[2], ZERO, 32):
                d = self.r(z, c, 'current.descriptor', 8, 'p')
                v = self.r(z, c, 'current.offset.end')
                i = self.slotof(z, v[2]) if v[0] == 'i' else None
                if d[0] != 'p' or i is None: self.say(z, 'a field is erased that is not known', ins); continue
                k = self.kind(d[1])
                if k not in self.may: self.say(z, 'erases %s' % KINDS[k], ins)
                f = z.clone()
                f.ghost['refused'] = I(8, 1); self.cov['refused'] += 1
                out.append((f, I(32, self.W.enum('PB_ERROR_ALLOC'))))
                self.cov['erased'] += 1
                if not isinstance(self.slots[i], tuple): z.ghost['er%d' % i] = I(8, 1)
                out.append((z, I(32, 0)))
        return out

    def kind(self, name):
        if name in self.objkind: return self.objkind[name]
        raise AnalysisBroken('unknown field %s' % name)

    def c_align(self, ip, s, args, ins):
        z = s.clone()
        return [(s, I(32, 0)), (z, I(32, self.W.enum('PB_ERROR_INVALID')))]

    def c_jalign(self, ip, s, args, ins): return [(s, I(32, 0))]

    def c_lookup(self, ip, s, args, ins):
        out = []
        for s1, d in ip.deref(s, args[0], 'read', ins):
            for s2, t in ip.toint(s1, args[1], 32):
                hit = None
                for n in self.objkind:
                    if n in s2.objs and s2.st.entails_eq(t - self.tag[n]): hit = n; break
                if hit: out.append((s2, ('p', hit, ZERO)))
                else:
                    for n in self.objkind:
                        for z in ip.assume_cmp(s2.clone(), 'eq', t, self.tag[n], 32): out.append((z, ('p', n, ZERO)))
                    out.append((s2, NULL))
        return out

    def c_jwrite(self, ip, s, args, ins):
        z = s.clone()
        return [(s, I(32, 0)), (z, I(32, self.W.enum('PB_ERROR_ALLOC')))]

    # the message has no enclosing one: nothing before the part has a length
    # that would have to be adjusted
    def c_unpack(self, ip, s, args, ins):
        out = []
        for s1, v in ip.deref(s, args[2], 'write', ins):
            ip.store(s1, v, 4, I(32, 8), ins)
            out.append((s1, I(64, 1)))
        return out

    def c_scan(self, ip, s, args, ins): return [(s, s.nv(args[1]))]

    def c_pwrite(self, ip, s, args, ins):
        """the value of the member is written at the part"""
        out = []
        W = self.W
        for s1, p in ip.deref(s, args[0], 'write', ins):
            rd = lambda z, k: z.nv(ip.readobj(z, z.objs[p[1]], z.st.norm(p[2] + W.off('pb_part_t', k)), 8, 'i')[0][1])
            v = rd(s1, 'version')
            bad = s1.clone()
            out.append((bad, I(32, W.enum('PB_ERROR_INVALID'))))
            if self.marked(s1, v): continue
            s1.ghost['placed'] = I(8, 1 if self.active(s1, rd(s1, 'offset.start')) else 2)
            out.append((s1, I(32, 0)))
        return out

    def active(self, s, st):
        """is no other member left behind a part that starts at st"""
        if st[0] != 'i': return False
        for j, k in enumerate(self.slots):
            if isinstance(k, tuple) or k == 'T' or s.ghost['er%d' % j][2].const(): continue
            if not s.st.entails(st[2] - (j + 1) * U - 200): return False
        return True

    # ------------------------------------------------------------ worlds
    def world(self, slots, label='ONEOF', ty='UINT32'):
        """slots: kinds of fields (tuple: any number of them, str: one)"""
        W = self.W
        S.cons.clear()
        self.ip.partghosts = {'refused', 'broken', 'placed', 'sound'}
        self.slots = slots
        s = State()
        self.ms = 16
        self.size = C((len(slots) + 2) * U)
        W.obj(s, 'D', W.desc, writable=False)
        W.obj(s, 'O', Tmpl('pb_oneof_descriptor_t', W.size('pb_oneof_descriptor_t')), writable=False)
        W.obj(s, 'O2', Tmpl('pb_oneof_descriptor_t', W.size('pb_oneof_descriptor_t')), writable=False)
        W.bytes(s, 'B', self.size)
        j = W.struct(s, 'J', 'pb_journal_t')
        self.ip.globalobj(s, 'allocator_default')
        W.put(s, j, 'pb_journal_t', 'buffer.allocator', ('p', 'allocator_default', ZERO))
        W.put(s, j, 'pb_journal_t', 'buffer.data', ('p', 'B', ZERO))
        W.put(s, j, 'pb_journal_t', 'buffer.size', I(64, self.size))
        W.put(s, j, 'pb_journal_t', 'entry.data', ('x',))
        V = fresh('version', 1, MAXSIZE // 32)
        W.put(s, j, 'pb_journal_t', 'entry.size', I(64, V))
        s.wobj('J').writable = False
        self.T = fresh('tag', 1, (1 << 29) - 1)
        self.objkind, self.tag = {}, {}

        def field(name, kind):
            o = Obj(name, C(W.field.size), ('init', W.field, name)); o.writable = False
            s.add(o)
            t = self.T if kind == 'T' else fresh('tag', 1, (1 << 29) - 1)
            if kind[-1] == '<': s.st.ge0(self.T - t - 1)
            if kind[-1] == '>': s.st.ge0(t - self.T - 1)
            self.objkind[name] = kind; self.tag[name] = t
            W.put(s, ('p', name, ZERO), 'pb_field_descriptor_t', 'tag', I(32, t), 4)
            W.put(s, ('p', name, ZERO), 'pb_field_descriptor_t', 'type', I(32, W.enum('PB_TYPE_' + ty)), 4)
            if kind == 'T':
                W.put(s, ('p', name, ZERO), 'pb_field_descriptor_t', 'label', I(32, W.enum('PB_LABEL_' + label)), 4)
                W.put(s, ('p', name, ZERO), 'pb_field_descriptor_t', 'value', ('p', 'O', ZERO) if label == 'ONEOF' else NULL)
                W.put(s, ('p', name, ZERO), 'pb_field_descriptor_t', 'flags', I(32, 0), 4)
            elif kind[0] == 'm':
                W.put(s, ('p', name, ZERO), 'pb_field_descriptor_t', 'label', I(32, W.enum('PB_LABEL_ONEOF')), 4)
                W.put(s, ('p', name, ZERO), 'pb_field_descriptor_t', 'value', ('p', 'O', ZERO))
                W.put(s, ('p', name, ZERO), 'pb_field_descriptor_t', 'flags', I(32, 0), 4)
            elif kind == 'n<':
                # a member of another oneof
                W.put(s, ('p', name, ZERO), 'pb_field_descriptor_t', 'label', I(32, W.enum('PB_LABEL_ONEOF')), 4)
                W.put(s, ('p', name, ZERO), 'pb_field_descriptor_t', 'value', ('p', 'O2', ZERO))
            else:
                W.put(s, ('p', name, ZERO), 'pb_field_descriptor_t', 'label', I(32, fresh('label', 1, 3)), 4)
                W.put(s, ('p', name, ZERO), 'pb_field_descriptor_t', 'value', NULL)
        for k in ALL: field('F' + k, k)
        for i, k in enumerate(slots):
            if not isinstance(k, tuple):
                if k != 'T': field('W%d' % i, k)
                s.ghost['er%d' % i] = I(8, 0)
                self.ip.partghosts.add('er%d' % i)
        m = W.struct(s, 'M', 'pb_message_t')
        W.put(s, m, 'pb_message_t', 'descriptor', ('p', 'D', ZERO))
        W.put(s, m, 'pb_message_t', 'part.journal', j)
        W.put(s, m, 'pb_message_t', 'part.version', I(64, V))
        for k, l in (('start', C(self.ms)), ('end', self.size), ('diff.origin', ZERO), ('diff.tag', ZERO), ('diff.length', ZERO)): W.put(s, m, 'pb_message_t', 'part.offset.' + k, I(64, l))
        for g in ('refused', 'broken', 'placed', 'sound'): s.ghost[g] = I(8, 0)
        self.V = V
        return s, m

    def gh(self, s, k): return s.ghost[k][2].const()

    # ------------------------------------------------------------ checks
    def oneof(self, slots):
        """a oneof over the message whose cursor stands anywhere"""
        W = self.W
        at = [(j, self.objname(slots, j)) for j in range(len(slots))] + [None]
        for p in at:
            s, m = self.world(slots)
            o = W.struct(s, 'ONE', 'pb_oneof_t')
            W.put(s, o, 'pb_oneof_t', 'descriptor', ('p', 'O', ZERO))
            c = ('p', 'ONE', C(W.off('pb_oneof_t', 'cursor')))
            self.over(s, c, m, False, None)
            if p is None: self.fail(s, c, W.enum('PB_ERROR_EOM'), None)
            else: self.place(s, c, p[0], p[1], not isinstance(slots[p[0]], tuple), None)
            yield s, o

    def objname(self, slots, j):
        k = slots[j]
        if isinstance(k, tuple): return 'F' + k[0]
        return 'FT' if k == 'T' else 'W%d' % j

    def new(self):
        """a new oneof looks at all fields of its message"""
        W = self.W
        s, m = self.world((('T', 'n<'),))
        o = W.struct(s, 'RET', 'pb_oneof_t')
        for z, v in self.run('pb_oneof_create', s, [('p', 'O', ZERO), m]):
            self.cov['verdicts'] += 1
            d = self.get(z, o, 'pb_oneof_t', 'descriptor', 8, 'p')
            t = self.get(z, o, 'pb_oneof_t', 'cursor.tag', 4)
            md = self.get(z, o, 'pb_oneof_t', 'cursor.message.descriptor', 8, 'p')
            if d != ('p', 'O', ZERO) or md != ('p', 'D', ZERO): self.say(z, 'the new oneof belongs to something else')
            if t[0] != 'i' or not z.st.entails_eq(t[2]): self.say(z, 'the new oneof does not look at all fields')

    def case(self):
        worlds = [(None, (NON,)), (None, ())] + [(1, (('T', 'm>', 'n<', 'n>'), 'm<', NON))]
        for w, slots in worlds:
            for z, o in self.oneof(slots):
                for y, v in self.run('pb_oneof_case', z, [o]):
                    if self.gh(y, 'broken'): continue
                    self.cov['verdicts'] += 1
                    for x, t in self.ip.toint(y, v, 32):
                        want = ZERO if w is None else self.tag['W1']
                        if not x.st.entails_eq(t - want): self.say(x, 'no member is present, but one is reported' if w is None else 'the active member is not the last one present')

    def clear(self):
        W = self.W
        some = ('T', 'n<', 'n>')
        self.may = ('m<', 'm>', 'T')
        for z, o in self.oneof((some, 'm<', some)):
            for y, v in self.run('pb_oneof_clear', z, [o]): self.cleared(y, v)
        for k in ('m<', 'm>', 'T'):
            s, m = self.world((ALL, k, ALL))
            self.may = ('m<', 'm>', 'T')
            for y, v in self.run('pb_message_erase', s, [m, I(32, self.T)]): self.cleared(y, v)
        for label in ('OPTIONAL', 'REQUIRED', 'REPEATED'):
            s, m = self.world((ALL, 'T', ALL), label)
            self.may = ('T',)
            for y, v in self.run('pb_message_erase', s, [m, I(32, self.T)]): self.cleared(y, v)

    def cleared(self, y, v):
        for x, e in self.err(y, v):
            if e is not None: continue
            self.cov['verdicts'] += 1
            if self.gh(x, 'refused'): self.say(x, 'reports success although a field could not be erased')
            elif not self.gh(x, 'er1'): self.say(x, 'reports success although a field that has to be erased is still there')

    def find(self):
        """pb_cursor_create and pb_message_has"""
        W = self.W
        for label in ('ONEOF', 'OPTIONAL', 'REQUIRED', 'REPEATED'):
            if label == 'ONEOF':
                ws = [((ALL, 'T', NON), 1), ((ALL, 'T', NON, 'm<', NOT_T), None), ((ALL, 'T', NON, 'm>', NOT_T), None), ((NOT_T,), None)]
            elif label == 'REPEATED': ws = [((NOT_T, 'T', ALL), 1), ((NOT_T,), None)]
            else: ws = [((ALL, 'T', NOT_T), 1), ((NOT_T,), None)]
            for slots, at in ws:
                self.may = ()
                s, m = self.world(slots, label)
                k = W.struct(s, 'RET', 'pb_cursor_t')
                for z, v in self.run('pb_cursor_create', s, [m, I(32, self.T)]):
                    if self.gh(z, 'broken'): continue
                    self.cov['verdicts'] += 1
                    e = self.get(z, k, 'pb_cursor_t', 'error', 4)
                    if at is None:
                        if e[0] != 'i' or not z.st.entails_eq(e[2] - W.enum('PB_ERROR_EOM')): self.say(z, 'the cursor finds a member that was superseded' if 'T' in slots else 'the cursor finds a field that is not there')
                        continue
                    st = self.get(z, k, 'pb_cursor_t', 'current.offset.start')
                    d = self.get(z, k, 'pb_cursor_t', 'current.descriptor', 8, 'p')
                    if e[0] != 'i' or not z.st.entails_eq(e[2]): self.say(z, 'the cursor does not find the field although it is there')
                    elif st[0] != 'i' or not z.st.entails_eq(st[2] - (at + 1) * U - 100) or d != ('p', 'FT', ZERO): self.say(z, 'the cursor stops at another field than the %s occurrence' % ('first' if label == 'REPEATED' else 'last'))
                if label == 'ONEOF' and at is None:
                    s, m = self.world(slots, label)
                    W.bytes(s, 'VAL', C(16), writable=True)
                    for z, v in self.run('pb_message_get', s, [m, I(32, self.T), ('p', 'VAL', ZERO)]):
                        if self.gh(z, 'broken'): continue
                        for y, e in self.err(z, v):
                            self.cov['verdicts'] += 1
                            if e is None: self.say(y, 'a value is read from a member that is not active')
                s, m = self.world(slots, label)
                for z, v in self.run('pb_message_has', s, [m, I(32, self.T)]):
                    if self.gh(z, 'broken'): continue
                    self.cov['verdicts'] += 1
                    for y, t in self.ip.toint(z, v, 32):
                        if at is None and not y.st.entails_eq(t): self.say(y, 'a member that was superseded is reported present' if 'T' in slots else 'a field that is not there is reported present')
                        if at is not None and not y.st.entails_ne(t): self.say(y, 'the active member is reported absent' if label == 'ONEOF' else 'a field that is there is reported absent')

    def create(self):
        W = self.W
        few = (('T', 'n<'), ('m<',), ('n>', 'm>'))
        worlds = [('ONEOF', (a, k, b), 'UINT32') for k in ('m<', 'm>') for a in few for b in few]
        worlds += [('ONEOF', (('T',), k, ('T',)), 'STRING') for k in ('m<', 'm>')]
        worlds += [(l, (('T', 'n<'), 'm<', ('m>',)), 'UINT32') for l in ('OPTIONAL', 'REPEATED')]
        for label, slots, ty in worlds:
            for fn in ('pb_part_create', 'pb_message_put'):
                if fn == 'pb_message_put' and (label != 'ONEOF' or slots[0] == slots[2]): continue
                self.may = ('m<', 'm>') if label == 'ONEOF' else ()
                s, m = self.world(slots, label, ty)
                args = [m, I(32, self.T)]
                if fn == 'pb_part_create': W.struct(s, 'RET', 'pb_part_t')
                else:
                    W.bytes(s, 'VAL', C(16))
                    args.append(('p', 'VAL', ZERO))
                for y, v in self.run(fn, s, args):
                    if fn == 'pb_message_put':
                        for x, e in self.err(y, v):
                            if e is not None: continue
                            self.cov['verdicts'] += 1
                            if self.gh(x, 'refused'): self.say(x, 'reports success although another member could not be erased')
                            elif label == 'ONEOF' and self.gh(x, 'placed') != 1: self.say(x, 'reports success although another member is left behind the one set')
                        continue
                    ver = self.get(y, ('p', 'RET', ZERO), 'pb_part_t', 'version')
                    if self.marked(y, ver): continue
                    self.cov['parts'] += 1
                    if self.gh(y, 'refused'): self.say(y, 'gives a part although another member could not be erased')
                    elif label == 'ONEOF' and not self.active(y, self.get(y, ('p', 'RET', ZERO), 'pb_part_t', 'offset.start')): self.say(y, 'gives a part although another member is left behind it')


if __name__ == '__main__':
    t = time.time()
    d = OneofSpec(ir.load(inline_tu=True))
    for k in sys.argv[1:] or ('new', 'case', 'clear', 'find', 'create'):
        getattr(d, k)(); print(k, time.time() - t, d.cov, flush=True)
    for f in d.ip.findings:
        print(f)
        if __import__('os').environ.get('V'): print(f.trace[-12:], f.state)
