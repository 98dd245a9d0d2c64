"""Reading, writing, comparing and defaulting one field of every type: the
representation the message layer uses for a type is compared with the one the
protocol-buffer specification prescribes."""
from mem import *
from dec import CLASS, VKIND, content

FSIZE = {1: 8, 5: 4}
U64 = 1 << 64


class FieldSpec(MemSpec):
    def __init__(self, mod, budget=500):
        MemSpec.__init__(self, mod, budget)
        W = self.W
        self.cov = dict(worlds=0, results=0, types=0, reads=0, writes=0, compares=0, defaults=0, values_compared=0)
        base = W.varints(on_unpack=self.on_unpack)
        for k, v in base.items(): self.con[k] = v
        for f in ('pb_part_write', 'pb_part_create', 'pb_journal_align', 'pb_descriptor_field_by_tag'):
            if f not in mod.funcs: raise AnalysisBroken('%s is missing' % f)
        self.con['pb_part_write'] = self.pwrite
        self.con['pb_part_create'] = self.pcreate
        self.con['pb_journal_align'] = self.jalign
        self.con['pb_descriptor_field_by_tag'] = lambda ip, s, a, ins: [(s, ('p', 'F', ZERO))]
        self.con['memcmp'] = self.memcmp
        self.ip.contracts.update(self.con)
        self.ip.partghosts = {'nw', 'uf', 'cmp', 'fail'}

    g = staticmethod(lambda s, k: s.st.norm(s.ghost[k][2]) if k in s.ghost else ZERO)

    @staticmethod
    def set(s, **kw):
        for k, v in kw.items(): s.ghost[k] = I(64, v if isinstance(v, Lin) else C(v))

    # ------------------------------------------------------------ contracts
    def on_unpack(self, ip, s, ty, d, left, n, v, out, ins):
        """remember what was read last"""
        if n is None: self.set(s, uf=1); return
        self.set(s, uf=0, rk=list(VW).index(ty) + 1, ro=d[2] if d[1] == 'B' else C(-1), rn=n, rv=v)

    def jalign(self, ip, s, args, ins):
        f = s.clone(); self.set(f, fail=1)
        return [(s, I(32, 0)), (f, I(32, self.W.enum('PB_ERROR_INVALID')))]

    def pwrite(self, ip, s, args, ins):
        """writing the content of a part: fails or replaces it"""
        out = []
        for s1, p in ip.deref(s, args[0], 'read', ins):
            if self.get(s1, p, 'pb_part_t', 'version') == I(64, 1 << 63):
                out.append((s1, I(32, self.W.enum('PB_ERROR_INVALID')))); continue
            for s2, n in ip.toint(s1, args[2], 64):
                for s3, n in ip.canon(s2, n, 64):
                    for f, d in ip.deref(s3, args[1], 'read', ins) if not s3.st.entails_eq(n) else [(s3, NULL)]:
                        if d[0] == 'p' and not ip.check(f, d, n, 'read', ins): continue
                        self.wrote(f, d, n, ins)
                        k = f.clone()
                        self.set(f, fail=self.W.enum('PB_ERROR_ALLOC'))
                        self.set(k, nw=self.g(k, 'nw') + 1)
                        out += [(k, I(32, 0)), (f, I(32, self.W.enum('PB_ERROR_ALLOC')))]
        return out

    def pcreate(self, ip, s, args, ins):
        """a part of the message: empty, with a value, or none"""
        W = self.W
        out = []
        for mode in ('empty', 'full', 'none'):
            if mode not in self.modes: continue
            z = s.clone()
            if mode == 'full': z.st.ge0(self.end - self.start - 1)
            if z.st.bot or not z.st.sat(): continue
            for z, r in ip.deref(z, args[0], 'write', ins):
                b = self.start if mode != 'none' else ZERO
                e = b if mode == 'empty' else self.end
                vals = dict(journal=('p', 'J', ZERO) if mode != 'none' else NULL, version=I(64, self.V if mode != 'none' else C(1 << 63)))
                for k, v in vals.items(): ip.store(z, ('p', r[1], r[2] + W.off('pb_part_t', k)), 8, v, ins)
                for k, v in (('start', b), ('end', e), ('diff.origin', C(U64 - 1) if 0 else ZERO), ('diff.tag', ZERO), ('diff.length', ZERO)):
                    ip.store(z, ('p', r[1], r[2] + W.off('pb_part_t', 'offset.' + k)), 8, I(64, v), ins)
                self.set(z, mode=dict(empty=1, full=2, none=3)[mode])
                out.append((z, None))
        return out

    def memcmp(self, ip, s, args, ins):
        if not self.comparing: return None
        out = []
        for s1, n in ip.toint(s, args[2], 64):
            for s2, n in ip.canon(s1, n, 64):
                if s2.st.entails_eq(n): out.append((s2, I(32, 0))); continue
                z = s2.clone(); z.st.eq0(n)
                if not z.st.bot and z.st.sat(): out.append((z, I(32, 0)))
                s2.st.ge0(n - 1)
                if s2.st.bot or not s2.st.sat(): continue
                for s3, a in ip.deref(s2, args[0], 'read', ins):
                    for s4, b in ip.deref(s3, args[1], 'read', ins):
                        ip.check(s4, a, n, 'read', ins); ip.check(s4, b, n, 'read', ins)
                        self.compared(s4, a, b, n, ins)
                        e = s4.clone()
                        self.set(e, cmp=1); self.set(s4, cmp=2)
                        r = fresh('memcmp', -(1 << 31), (1 << 31) - 1)
                        s4.st.ne0(r)
                        out += [(e, I(32, 0)), (s4, I(32, r))]
        return out

    # ------------------------------------------------------------ what is right
    def bad(self, s, msg, ins=None):
        if ins is not None: self.ip.report(s, 'C07', '%s: %s (%s)' % (self.fn, msg, self.nm), ins)
        else: self.rep(s, 'C07', '%s (%s)' % (msg, self.nm))

    def given(self, s):
        """the value handed over by the user as an integer"""
        w = VW[self.kind] if self.cls == 0 else FSIZE[self.cls]
        r = self.ip.readobj(s, s.objs[self.src], ZERO, w, 'i')
        return r[0][1][2] if len(r) == 1 and r[0][1][0] == 'i' else None

    def wrote(self, s, d, n, ins):
        """the bytes written are the encoded form of the value"""
        self.cov['writes'] += 1
        if not s.st.entails_eq(self.g(s, 'nw')): self.bad(s, 'a value is written twice', ins)
        f = self.g(s, 'fail')
        if f.t or f.c: self.bad(s, 'a value is written after a failure', ins)
        st = s.st
        if self.cls == 0:
            ok = False
            if d[0] == 'p':
                for a, an, pl in s.objs[d[1]].segs:
                    v = self.given(s)
                    if isinstance(pl, tuple) and pl[0] == 'varint' and pl[1] == self.kind and st.entails_eq(a - d[2]) and st.entails_eq(an - n) and v is not None and st.entails_eq(pl[2] - v): ok = True
            if not ok: self.bad(s, 'what is written is not the varint of the value', ins)
        elif self.cls in FSIZE:
            if not st.entails_eq(n - FSIZE[self.cls]) or d[0] != 'p' or not self.issrc(s, d, FSIZE[self.cls]): self.bad(s, 'what is written is not the %d bytes of the value' % FSIZE[self.cls], ins)
        else:
            if not st.entails_eq(n - self.dsize): self.bad(s, 'what is written is not as long as the value', ins)
            elif not (st.entails_eq(n) or d[0] == 'p' and d[1] == 'DATA' and st.entails_eq(d[2] - self.dat)): self.bad(s, 'what is written is not the bytes of the value', ins)

    def issrc(self, s, d, w):
        """w bytes at d are those of the given value"""
        if d[1] == self.src and s.st.norm(d[2]) == ZERO: return True
        c = content(self.ip, s, d, w)
        if c is not None: return c[0] == self.src and s.st.entails_eq(c[1])
        r = self.ip.readobj(s.clone(), s.objs[d[1]], s.st.norm(d[2]), w, 'i')
        v = self.given(s)
        return len(r) == 1 and r[0][1][0] == 'i' and v is not None and r[0][0].st.entails_eq(r[0][1][2] - v)

    def isread(self, s, p, w):
        """w bytes at p are the value in the message"""
        st = s.st
        if self.cls == 0:
            if self.g(s, 'rk').const() != list(VW).index(self.kind) + 1 or not st.entails_eq(self.g(s, 'ro') - self.start): return False
            r = self.ip.readobj(s.clone(), s.objs[p[1]], st.norm(p[2]), w, 'i')
            return len(r) == 1 and r[0][1][0] == 'i' and r[0][0].st.entails_eq(r[0][1][2] - self.g(s, 'rv'))
        if p[1] == 'B': return st.entails_eq(p[2] - self.start)
        c = content(self.ip, s, p, w)
        if c is not None: return c[0] == 'B' and st.entails_eq(c[1] - self.start)
        r = self.ip.readobj(s.clone(), s.objs[p[1]], st.norm(p[2]), w, 'i')
        if len(r) != 1 or r[0][1][0] != 'i': return False
        b = self.ip.readobj(r[0][0], s.objs['B'], st.norm(self.start), w, 'i')
        return len(b) == 1 and b[0][1][0] == 'i' and b[0][0].st.entails_eq(b[0][1][2] - r[0][1][2])

    def compared(self, s, a, b, n, ins):
        self.cov['compares'] += 1
        if self.cls == 2:
            for x, y in ((a, b), (b, a)):
                if x[1] == 'DATA' and s.st.entails_eq(x[2] - self.dat) and y[1] == 'B' and s.st.entails_eq(y[2] - self.start) and s.st.entails_eq(n - self.dsize): return
        else:
            w = self.tsize
            for x, y in ((a, b), (b, a)):
                if s.st.entails_eq(n - w) and x[1] == self.src and self.issrc(s, x, w) and self.isread(s, y, w): return
        self.bad(s, 'something else than the value given and the value present is compared', ins)

    # ------------------------------------------------------------ worlds
    def setup(self, ty, default=None, packed=False):
        """field, journal and the user's value of a type"""
        W = self.W
        S.cons.clear()
        s = State()
        nm = self.nm = W.tname[ty]
        self.cls = CLASS[nm]; self.kind = VKIND.get(nm)
        self.tsize = VW[self.kind] if self.cls == 0 else FSIZE.get(self.cls) or W.size('pb_string_t')
        self.comparing = False
        self.modes = ('empty', 'full', 'none')
        F = Tmpl('pb_field_descriptor_t', W.size('pb_field_descriptor_t'), W.field.fields)
        W.obj(s, 'F', F, writable=False)
        f = ('p', 'F', ZERO)
        self.tag = fresh('tag', 1, (1 << 29) - 1)
        W.put(s, f, 'pb_field_descriptor_t', 'tag', I(32, self.tag), 4)
        W.put(s, f, 'pb_field_descriptor_t', 'type', I(32, ty), 4)
        W.put(s, f, 'pb_field_descriptor_t', 'label', I(32, W.enum('PB_LABEL_OPTIONAL')), 4)
        W.put(s, f, 'pb_field_descriptor_t', 'flags', I(32, 0), 4)
        self.value(s, 'V')
        if default is not None:
            if default: self.value(s, 'DEF')
            W.put(s, f, 'pb_field_descriptor_t', 'value', ('p', 'DEF', ZERO) if default else NULL)
        W.obj(s, 'D', W.desc, writable=False)
        # a message with the value
        self.start = fresh('start', 10, MAXSIZE); self.end = fresh('end', 10, MAXSIZE)
        size = fresh('size', 0, MAXSIZE)
        s.st.ge0(self.end - self.start); s.st.ge0(size - self.end)
        if self.cls in FSIZE: s.st.eq0(self.end - self.start - FSIZE[self.cls])
        elif self.cls == 0: s.st.ge0(self.end - self.start - 1)
        else: s.st.ge0(self.start - self.end + (1 << 31) - 1)
        self.V = fresh('version', 0, 1 << 40)
        self.journal(s, 'J', 'B', size)
        self.set(s, nw=0, uf=0, cmp=0, fail=0, mode=0, rk=0, ro=C(-1), rn=0, rv=0)
        return s

    def journal(self, s, j, b, size):
        W = self.W
        p = W.struct(s, j, 'pb_journal_t')
        a = ('p', 'allocator_default', ZERO)
        self.ip.globalobj(s, 'allocator_default')
        W.bytes(s, b, size)
        W.buffer(s, 'buf', a, ('p', b, ZERO), size, ('p', j, C(W.off('pb_journal_t', 'buffer'))))
        W.put(s, p, 'pb_journal_t', 'entry.data', NULL)
        W.put(s, p, 'pb_journal_t', 'entry.size', I(64, self.V))
        s.wobj(j).writable = False

    def value(self, s, name):
        """a value of the type in an object of the user"""
        W = self.W
        self.src = name
        if self.cls != 2:
            T = Tmpl('value', self.tsize, {0: dict(w=self.tsize, lo=0, hi=(1 << 8 * self.tsize) - 1, name='value')})
            W.obj(s, name, T, writable=False, size=C(self.tsize))
            return
        self.dat = ZERO
        self.dsize = fresh('length', 0, (1 << 31) - 1)
        W.bytes(s, 'DATA', self.dsize)
        v = W.struct(s, name, 'pb_string_t')
        W.put(s, v, 'pb_string_t', 'data', ('p', 'DATA', ZERO))
        W.put(s, v, 'pb_string_t', 'size', I(64, self.dsize))
        s.wobj(name).writable = False

    def part(self, s, p, st, pre, valid=True):
        W = self.W
        ln = tg = ZERO
        if self.cls == 2:
            self.k = fresh('prefix', 1, 5); ln = -self.k + U64
            tg = ln - 1
        else: tg = C(U64 - 1)
        W.put(s, p, st, pre + 'journal', ('p', 'J', ZERO))
        W.put(s, p, st, pre + 'version', I(64, self.V))
        for k, x in (('start', self.start), ('end', self.end), ('diff.origin', tg), ('diff.tag', tg), ('diff.length', ln)): W.put(s, p, st, pre + 'offset.' + k, I(64, x))

    def fieldobj(self, s):
        W = self.W
        p = W.struct(s, 'FLD', 'pb_field_t')
        W.put(s, p, 'pb_field_t', 'descriptor', ('p', 'F', ZERO))
        self.part(s, p, 'pb_field_t', 'part.')
        return p

    def message(self, s, name='MSG', j='J', start=ZERO, end=None):
        W = self.W
        p = W.struct(s, name, 'pb_message_t')
        W.put(s, p, 'pb_message_t', 'descriptor', ('p', 'D', ZERO))
        W.put(s, p, 'pb_message_t', 'part.journal', ('p', j, ZERO))
        W.put(s, p, 'pb_message_t', 'part.version', I(64, self.V))
        for k, x in (('start', start), ('end', end if end is not None else self.end), ('diff.origin', ZERO), ('diff.tag', ZERO), ('diff.length', ZERO)): W.put(s, p, 'pb_message_t', 'part.offset.' + k, I(64, x))
        return p

    # ------------------------------------------------------------ operations
    def all(self):
        W = self.W
        for ty in W.types:
            self.cov['types'] += 1
            if W.tname[ty] != 'MESSAGE':
                self.get_(ty); self.put_(ty); self.match_(ty)
                for d in (False, True): self.default_(ty, d); self.absent_(ty, d)
                self.mput_(ty)
            else: self.mmput_(ty)

    def get_(self, ty):
        s = self.setup(ty)
        p = self.fieldobj(s)
        self.W.obj(s, 'OUT', Tmpl('out', self.tsize, {}), size=C(self.tsize))
        s.wobj('OUT').base = ('undef',)
        for z, v in self.run('pb_field_get', s, [p, ('p', 'OUT', ZERO)]):
            for z, er in self.err(z, v):
                self.cov['reads'] += 1
                if er is not None:
                    if self.g(z, 'fail').const() == 0 and self.g(z, 'uf').const() == 0:
                        if self.cls != 2: self.bad(z, 'a value that is present is not read')
                        else:
                            # only a length that reaches past the end may fail
                            n = self.split(z, self.end + 1 + ((1 << 62)) - self.g(z, 'ro') - self.g(z, 'rn') - self.g(z, 'rv'))
                            y = z.clone(); y.st.eq0(self.g(z, 'ro') + self.k - self.start); y.st.eq0(self.g(z, 'rn') - self.k); y.st.eq0(self.g(z, 'rv') - self.end + self.start)
                            if not y.st.bot and y.st.sat(): self.bad(z, 'a value that is present is not read')
                    continue
                if self.g(z, 'fail').const() != 0 or self.g(z, 'uf').const() != 0: self.bad(z, 'reading succeeds although it failed'); continue
                self.cov['values_compared'] += 1
                if self.cls != 2:
                    if not self.isread(z, ('p', 'OUT', ZERO), self.tsize): self.bad(z, 'the value read is not the one in the message')
                    continue
                if self.g(z, 'rk').const() != list(VW).index('uint32') + 1 or not z.st.entails_eq(self.g(z, 'ro') + self.k - self.start): self.bad(z, 'the length of the value is not read from its prefix'); continue
                d = self.get(z, ('p', 'OUT', ZERO), 'pb_string_t', 'data'); n = self.get(z, ('p', 'OUT', ZERO), 'pb_string_t', 'size')
                if d[0] != 'p' or d[1] != 'B' or not z.st.entails_eq(d[2] - self.g(z, 'ro') - self.g(z, 'rn')) or n[0] != 'i' or not z.st.entails_eq(n[2] - self.g(z, 'rv')): self.bad(z, 'the value read is not the bytes behind its length')

    def put_(self, ty):
        s = self.setup(ty)
        p = self.fieldobj(s)
        self.src = 'V'
        for z, v in self.run('pb_field_put', s, [p, ('p', 'V', ZERO)]): self.written(z, v, 'a value')

    def written(self, z, v, what):
        for z, er in self.err(z, v):
            f = self.g(z, 'fail').const()
            if er is None:
                self.cov['values_compared'] += 1
                if f: self.bad(z, 'success is reported although writing %s failed' % what)
                elif self.g(z, 'nw').const() != 1 and self.g(z, 'mode').const() != 3: self.bad(z, '%s is not written' % what)
                elif self.g(z, 'mode').const() == 3: self.bad(z, 'success is reported although there is no field')
            elif not f and self.g(z, 'mode').const() != 3: self.bad(z, 'writing %s fails although nothing failed' % what)

    def match_(self, ty):
        s = self.setup(ty)
        p = self.fieldobj(s)
        self.src = 'V'
        if self.cls == 2:
            # the bytes present are those between length prefix and end
            self.con['pb_varint_unpack_uint32'] = self.prefix
        else: self.con['pb_varint_unpack_uint32'] = self.W.varints(on_unpack=self.on_unpack)['pb_varint_unpack_uint32']
        self.ip.contracts.update(self.con)
        self.comparing = True
        try:
            for z, v in self.run('pb_field_match', s, [p, ('p', 'V', ZERO)]):
                for z, t in self.err(z, v):
                    c = self.g(z, 'cmp').const()
                    bad = self.g(z, 'fail').const() or self.g(z, 'uf').const()
                    self.cov['values_compared'] += 1
                    if t is not None:      # reported equal
                        if bad: self.bad(z, 'a value is reported equal that could not be read')
                        elif self.cls == 2:
                            if not z.st.entails_eq(self.dsize - self.end + self.start): self.bad(z, 'values of different length are reported equal')
                            elif c != 1 and not z.st.entails_eq(self.dsize): self.bad(z, 'values are reported equal without having been compared')
                        elif c == 2: self.bad(z, 'different values are reported equal')
                        elif c == 0 and not self.equal(z): self.bad(z, 'values are reported equal without having been compared')
                    elif not bad:
                        if c == 1: self.bad(z, 'equal values are reported different')
                        elif c == 0:
                            y = z.clone()
                            if self.cls == 2: y.st.eq0(self.dsize - self.end + self.start)
                            elif self.cls == 0:
                                a = self.given(y)
                                if a is None: self.bad(z, 'values are reported different without having been compared'); continue
                                y.st.eq0(a - self.g(y, 'rv'))
                            if not y.st.bot and y.st.sat(): self.bad(z, 'values are reported different without having been compared')
        finally:
            self.comparing = False
            self.con['pb_varint_unpack_uint32'] = self.W.varints(on_unpack=self.on_unpack)['pb_varint_unpack_uint32']
            self.ip.contracts.update(self.con)

    def prefix(self, ip, s, args, ins):
        """the length prefix of the field"""
        out = []
        for s1, d in ip.deref(s, args[0], 'read', ins):
            for s2, o in ip.deref(s1, args[2], 'write', ins):
                if d[1] != 'B' or not s2.st.entails_eq(d[2] + self.k - self.start): self.bad(s2, 'the length of the value is not read from its prefix', ins); continue
                ip.store(s2, o, 4, I(32, s2.st.norm(self.end - self.start)), ins)
                out.append((s2, I(64, self.k)))
        return out

    def equal(self, z):
        a = self.given(z)
        if self.cls == 0: return a is not None and z.st.entails_eq(a - self.g(z, 'rv'))
        r = self.ip.readobj(z, z.objs['B'], z.st.norm(self.start), self.tsize, 'i')
        return a is not None and len(r) == 1 and r[0][1][0] == 'i' and r[0][0].st.entails_eq(a - r[0][1][2])

    def default_(self, ty, explicit):
        """creating a field that is absent writes its default"""
        s = self.setup(ty, explicit)
        m = self.message(s)
        if explicit: self.src = 'DEF'
        elif self.cls != 2:
            self.src = 'ZERO'
            self.W.obj(s, 'ZERO', Tmpl('zero', self.tsize, {}), size=C(self.tsize))
            s.wobj('ZERO').base = ('zero',)
        else:
            self.dsize = ZERO
        self.W.struct(s, 'RET', 'pb_field_t')
        for z, v in self.run('pb_field_create', s, [m, I(32, self.tag)]):
            self.cov['defaults'] += 1
            mode = self.g(z, 'mode').const()
            r = self.get(z, ('p', 'RET', ZERO), 'pb_field_t', 'part.version')
            gone = self.marked(z, r)
            valid = gone is False
            if self.g(z, 'fail').const():
                if not gone: self.bad(z, 'a field is created although its default could not be written')
                continue
            if mode == 3:
                if not gone: self.bad(z, 'a field is created without a part')
                continue
            n = self.g(z, 'nw').const()
            if not valid: self.bad(z, 'a field is not created although nothing failed')
            if mode == 2 and n: self.bad(z, 'the value of a field that is present is overwritten by its default')
            if mode == 1 and n != 1 and (explicit or self.cls != 2): self.bad(z, 'an absent field is created without its default')

    def absent_(self, ty, explicit):
        """reading a field that is absent yields its default or absence"""
        W = self.W
        s = self.setup(ty, explicit)
        m = self.message(s)
        self.W.obj(s, 'OUT', Tmpl('out', self.tsize, {}), size=C(self.tsize))
        s.wobj('OUT').base = ('undef',)
        EOM = W.enum('PB_ERROR_EOM')

        def cursor(ip, s, args, ins):
            out = []
            for z, r in ip.deref(s, args[0], 'write', ins):
                e = z.clone()
                x = fresh('error', 1, (1 << 31) - 1); e.st.ne0(x - EOM)
                self.set(e, fail=x)
                for y, er in ((z, C(EOM)), (e, x)):
                    ip.store(y, ('p', r[1], r[2] + W.off('pb_cursor_t', 'error')), 4, I(32, er), ins)
                    ip.store(y, ('p', r[1], r[2] + W.off('pb_cursor_t', 'message.part.version')), 8, I(64, self.V), ins)
                    out.append((y, None))
            return out
        con = dict(pb_cursor_create=cursor, pb_cursor_create_unsafe=cursor)
        old = dict(self.ip.contracts)
        self.ip.contracts.update(con)
        try:
            for z, v in self.run('pb_message_get', s, [m, I(32, self.tag), ('p', 'OUT', ZERO)]):
                for z, er in self.err(z, v):
                    self.cov['defaults'] += 1
                    f = self.g(z, 'fail')
                    if f != ZERO:
                        if er is None or not z.st.entails_eq(er - f): self.bad(z, 'the error of a search is not returned')
                    elif explicit:
                        if er is not None: self.bad(z, 'the default of an absent field is not returned')
                        elif not self.isdef(z): self.bad(z, 'the value returned for an absent field is not its default')
                    elif er is None or not z.st.entails_eq(er - W.enum('PB_ERROR_ABSENT')): self.bad(z, 'an absent field without a default is not reported as absent')
        finally:
            self.ip.contracts.clear(); self.ip.contracts.update(old)

    def isdef(self, z):
        if self.cls == 2:
            d = self.get(z, ('p', 'OUT', ZERO), 'pb_string_t', 'data'); n = self.get(z, ('p', 'OUT', ZERO), 'pb_string_t', 'size')
            return d[0] == 'p' and d[1] == 'DATA' and z.st.norm(d[2]) == ZERO and n[0] == 'i' and z.st.entails_eq(n[2] - self.dsize)
        self.src = 'DEF'
        return self.issrc(z, ('p', 'OUT', ZERO), self.tsize)

    def mput_(self, ty):
        s = self.setup(ty)
        m = self.message(s)
        self.src = 'V'
        for z, v in self.run('pb_message_put', s, [m, I(32, self.tag), ('p', 'V', ZERO)]): self.written(z, v, 'a value')

    def mmput_(self, ty):
        """putting a message copies its bytes"""
        s = self.setup(ty)
        W = self.W
        m = self.message(s)
        a, b, n = fresh('from', 0, MAXSIZE), fresh('to', 0, MAXSIZE), fresh('size2', 0, MAXSIZE)
        s.st.ge0(b - a); s.st.ge0(n - b)
        self.journal(s, 'J2', 'DATA', n)
        self.message(s, 'SUB', 'J2', a, b)
        self.dat, self.dsize = a, s.st.norm(b - a)
        for z, v in self.run('pb_message_put', s, [m, I(32, self.tag), ('p', 'SUB', ZERO)]): self.written(z, v, 'a message')


if __name__ == '__main__':
    t = time.time()
    d = FieldSpec(ir.load(inline_tu=True))
    d.all()
    print(round(time.time() - t, 2), d.cov)
    for f in d.ip.findings:
        print(f)
        if __import__('os').environ.get('V'): print(f.trace, f.state)
