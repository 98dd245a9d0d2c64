"""Analysis of pb_encoder_encode for every field type, label, packed option,
element count and value; allocations succeeding or failing.  A specification of
the encoded form runs along with the abstract states (ghost cells):
  pos    where the next byte of the encoded form goes
  ph     what comes there: 0 tag, 1 value (or its length), 2 bytes, 3 length of
         a packed run, 4 its elements
  el     elements completely written
  g1,n1  sum of the sizes of the first n1 elements (announced)
  g2,n2  sum of the sizes of the first n2 elements (written)
  fail   code of the first failure"""
from mem import *
from dec import CLASS, VKIND, WT

MAXEL = 1 << 24
FSIZE = {0: None, 1: 8, 5: 4}


class EncoderSpec(MemSpec):
    def __init__(self, mod, budget=800):
        MemSpec.__init__(self, mod, budget)
        W = self.W
        self.cov = dict(worlds=0, results=0, tags=0, lengths=0, values=0, grows=0, successes=0, failures=0, refusals=0)
        base = W.varints(on_size=self.on_size, on_pack=None)
        for k, v in base.items():
            self.con[k] = self.varint(k, v)
        self.con['pb_buffer_grow'] = self.grown
        self.con['pb_descriptor_field_by_tag'] = self.lookup
        self.ip.contracts.update(self.con) if self.ip.contracts is not self.con else None
        self.ip.mon['store'] = self.stored
        self.ip.partghosts = {'ph', 'fail', 'isinv'}
        self.ip.headhook = self.head
        self.on = False

    g = staticmethod(lambda s, k: s.st.norm(s.ghost[k][2]) if k in s.ghost else ZERO)

    @staticmethod
    def set(s, **kw):
        for k, v in kw.items(): s.ghost[k] = I(64, v if isinstance(v, Lin) else C(v))

    # ------------------------------------------------------------ the sums
    def facts(self, s):
        """each element takes between one and ten bytes"""
        if not self.packedv: return
        g1, n1, g2, n2 = [self.g(s, k) for k in ('g1', 'n1', 'g2', 'n2')]
        for c in (g1 - n1, n1.scale(10) - g1, g1 - g2 - n1 + n2, (n1 - n2).scale(10) - g1 + g2, n1 - n2): s.st.ge0(c)

    def element(self, s, oid, off):
        """index of the value at an offset of the values as a multiple"""
        return oid == 'V'

    def on_size(self, ip, s, ty, q, l, n, ins):
        if not self.on or not self.packedv or q[1] != 'V': return
        n1, n2 = self.g(s, 'n1'), self.g(s, 'n2')
        if self.g(s, 'ph').const() == 0 and ty == self.kind and s.st.entails_eq(q[2] - n1.scale(self.item)) and n2.const() == 0:
            if not s.st.entails(self.count - n1 - 1): return
            self.set(s, g1=self.g(s, 'g1') + n, n1=n1 + 1)
            self.facts(s)

    def varint(self, name, inner):
        def c(ip, s, args, ins):
            if self.on: self.facts(s)
            if self.on and name.startswith('pb_varint_pack_'):
                # what is known about the element about to be written
                p = s.nv(args[1])
                n1, n2 = self.g(s, 'n1'), self.g(s, 'n2')
                ty = name[len('pb_varint_pack_'):]
                if self.packedv and p[0] == 'p' and p[1] == 'V' and self.g(s, 'ph').const() == 4 and ty == self.kind and s.st.entails_eq(p[2] - n2.scale(self.item)):
                    r = ip.readobj(s, s.objs['V'], s.st.norm(p[2]), self.vw, 'i')
                    v = r[0][1] if len(r) == 1 else UNDEF
                    if v[0] == 'i' and s.st.entails(n1 - n2 - 1):
                        n = term('vsize_' + ty, (s.st.norm(v[2]),), 1, VMAX[ty])
                        s.st.use(n)
                        r = self.g(s, 'g1') - self.g(s, 'g2') - n
                        s.st.ge0(r - n1 + n2 + 1); s.st.ge0((n1 - n2 - 1).scale(10) - r)
                        if s.st.bot or not s.st.sat(): return []
            return inner(ip, s, args, ins)
        return c

    def iselem(self, s, l, k, off, w):
        """l is the value at `off` of element k"""
        l = s.st.norm(l)
        x = self.elem(s, k, off, w)
        if x is not None and s.st.entails_eq(l - x): return True
        if l.c == 0 and len(l.t) == 1 and l.t[0][1] == 1:
            d = S.defn[l.t[0][0]]
            if d and d[0] == 'init' and d[1] == self.key: return s.st.entails_eq(d[2] - k.scale(self.item) - off)
        return False

    def elem(self, s, k, off, w):
        x = self.ip.init_value(s, s.objs['V'], s.st.norm(k.scale(self.item) + off), w, 'i')
        return None if x is None or x[0] != 'i' else x[2]

    # ------------------------------------------------------------ contracts
    def lookup(self, ip, s, args, ins):
        for s1, d in ip.deref(s, args[0], 'read', ins):
            for s2, t in ip.toint(s1, args[1], 32):
                if d[1] != 'D' or not s2.st.entails_eq(t - self.tag):
                    ip.report(s2, 'C08', 'the field is not looked up by its tag in the description of the encoder', ins)
                return [(s2, ('p', 'F', ZERO))]
        return []

    def stale(self, s):
        """pointers into the old memory are of no use any more"""
        k = uid()
        dead = Obj('B~%d' % k, None, ('undef',), 'heap'); dead.alive = False

        def go(v):
            if v is None: return v
            if v[0] == 'a': return ('a', [go(x) for x in v[1]])
            v = s.nv(v)
            return ('p', dead.id, v[2]) if v[0] == 'p' and v[1] == 'B' else v
        used = [0]
        s.add(dead)
        s.env = {r: go(v) for r, v in s.env.items()}
        s.frames = tuple((f, {r: go(v) for r, v in e.items()}) for f, e in s.frames)
        for oid in list(s.objs):
            if any(v[0] == 'p' and v[1] == 'B' for _, v in s.objs[oid].cells.values()):
                o = s.wobj(oid)
                o.cells = {c: (n, go(v)) for c, (n, v) in o.cells.items()}

    def grown(self, ip, s, args, ins):
        if not self.on: return None
        W = self.W
        out = []
        self.cov['grows'] += 1
        self.facts(s)
        self.settle(s)
        self.stopped(s, 'space is reserved', ins)
        b = s.nv(args[0])
        if b != ('p', 'E', C(W.off('pb_encoder_t', 'buffer'))):
            ip.report(s, 'C08', 'space is reserved in another buffer than that of the encoder', ins); return []
        size = self.get(s, b, 'pb_buffer_t', 'size')
        if size[0] != 'i' or not s.st.entails_eq(size[2] - self.g(s, 'pos')):
            ip.report(s, 'C08', 'more space is reserved before all bytes reserved earlier have been written', ins)
            if size[0] != 'i': return []
        for s1, n in ip.toint(s, args[1], 64):
            for s2, n in ip.canon(s1, n, 64):
                f = s2.clone()
                self.set(f, fail=self.W.enum('PB_ERROR_ALLOC'))
                out.append((f, NULL))
                s2.st.ge0(C(MAXSIZE * 2) - size[2] - n)
                if s2.st.bot or not s2.st.sat(): continue
                self.stale(s2)
                s2.wobj('B').size = s2.st.norm(size[2] + n)
                W.put(s2, b, 'pb_buffer_t', 'data', ('p', 'B', ZERO))
                W.put(s2, b, 'pb_buffer_t', 'size', I(64, s2.st.norm(size[2] + n)))
                out.append((s2, ('p', 'B', size[2])))
        return out

    # ------------------------------------------------------------ the encoded form
    def stopped(self, s, what, ins):
        f = self.g(s, 'fail')
        if f.t or f.c: self.ip.report(s, 'C09', '%s after a failure' % what, ins)

    def settle(self, s):
        """complete an element whose bytes have all been written"""
        if self.g(s, 'ph').const() == 2 and s.st.entails_eq(self.g(s, 'pend') - self.g(s, 'pos')):
            self.set(s, ph=0, el=self.g(s, 'el') + 1, pend=0, plen=0)

    def head(self, s):
        if not self.on or 'pos' not in s.ghost: return
        self.facts(s)
        self.settle(s)
        o = s.objs.get('B')
        if o is not None and (o.segs or o.cells):
            o = s.wobj('B'); o.segs = []; o.cells = {}
        live = set()
        for oid in [x for x in s.objs if x.startswith('B~')]:
            s.objs = dict(s.objs); del s.objs[oid]

    def stored(self, ip, s, o, off, n, v):
        if not self.on or o.id != 'B': return
        n = n if isinstance(n, Lin) else C(n)
        ins = None
        if v[0] == 'copy':
            # a piece composed in other memory first
            for a, an, pl in v[1].segs:
                if pl[0] == 'varint' and s.st.entails_eq(a - v[2]) and s.st.entails_eq(an - n): v = pl; break
        self.facts(s)
        self.settle(s)
        self.stopped(s, 'a byte is written', ins)
        pos = self.g(s, 'pos')
        if not s.st.entails_eq(off - pos):
            if s.st.entails(self.before - off - 1): ip.report(s, 'C08', 'a byte that was encoded earlier is overwritten', ins)
            else: ip.report(s, 'C08', 'a byte is not written where the encoded form continues', ins)
            return
        ph = self.g(s, 'ph').const()
        if ph == 0: self.tagged(s, v, n)
        elif ph == 1: self.value(s, v, n)
        elif ph == 2: self.bytes(s, v, n)
        elif ph == 3: self.runlength(s, v, n)
        elif ph == 4: self.run_element(s, v, n)
        self.set(s, pos=s.st.norm(self.g(s, 'pos') + n))
        self.settle(s)

    form = 'C08'

    def bad(self, s, msg): self.ip.report(s, self.form, msg)

    def uv(self, s, v, want, msg):
        """payload is the varint of an unsigned value"""
        if v[0] != 'varint' or v[1] not in ('uint32', 'uint64') or not s.st.entails_eq(v[2] - want):
            self.bad(s, msg)

    def tagged(self, s, v, n):
        self.cov['tags'] += 1
        wt = 2 if self.packed else self.cls
        if not s.st.entails(self.count - self.g(s, 'el') - 1):
            self.bad(s, 'more fields are written than there are values'); return
        self.uv(s, v, self.tag.scale(8) + wt, 'a field does not begin with its tag number and wire type')
        self.set(s, ph=3 if self.packed else 1)

    def value(self, s, v, n):
        self.cov['values'] += 1
        el = self.g(s, 'el')
        if self.cls == 0:
            if v[0] != 'varint' or v[1] != self.kind or not self.iselem(s, v[2], el, 0, self.vw):
                self.bad(s, 'the payload of a field is not the varint of its value')
            self.set(s, ph=0, el=el + 1)
        elif self.cls in (1, 5):
            self.copied(s, v, n, el.scale(self.item), C(FSIZE[self.cls]), 'V', 'the payload of a field is not its value')
            self.set(s, ph=0, el=el + 1)
        else:
            self.cov['lengths'] += 1
            if v[0] != 'varint' or v[1] not in ('uint32', 'uint64') or not self.iselem(s, v[2], el, self.off_size, 8):
                self.bad(s, 'the payload of a field does not begin with the length of its value')
            if self.off_alloc is not None:
                at = el.scale(self.item) + self.off_alloc
                ok = any(LAZY[x].get('owner') == self.key and p[0] == 'p' and s.st.entails_eq(LAZY[x]['off'] - at) for x, p in s.pres.items())
                if not ok: self.ip.report(s, 'C09', 'a submessage is encoded without knowing that its encoder is valid')
            want = v[2] if v[0] == 'varint' else self.elem(s, el, self.off_size, 8)
            self.set(s, ph=2, pend=self.g(s, 'pos') + n + want, plen=want)

    def copied(self, s, v, n, off, size, obj, msg):
        ok = s.st.entails_eq(n - size)
        if v[0] == 'copy': ok = ok and v[1].id == obj and s.st.entails_eq(v[2] - off)
        elif v[0] == 'i':
            w = n.const()
            x = self.ip.init_value(s, s.objs[obj], s.st.norm(off), w, 'i') if w else None
            ok = ok and x is not None and s.st.entails_eq(v[2] - x[2])
        else: ok = False
        if not ok: self.bad(s, msg)

    def bytes(self, s, v, n):
        el = self.g(s, 'el')
        done = self.g(s, 'pos') - self.g(s, 'pend') + self.g(s, 'plen')
        ok = v[0] == 'copy' and self.isdata(s, v[1].id, el) and s.st.entails_eq(v[2] - done) and s.st.entails(self.g(s, 'pend') - self.g(s, 'pos') - n)
        if not ok: self.bad(s, 'the payload of a field is not the bytes of its value')

    def isdata(self, s, oid, el):
        """the object holds the bytes of element el"""
        if not re.fullmatch(r'L\d+', oid): return False
        d = LAZY.get(int(oid[1:]))
        return d is not None and d['owner'] == self.key and s.st.entails_eq(d['off'] - el.scale(self.item) - self.off_data)

    def runlength(self, s, v, n):
        self.cov['lengths'] += 1
        if self.cls == 0:
            if not s.st.entails_eq(self.g(s, 'n1') - self.count): self.bad(s, 'the length of a packed run does not count every element')
            want = self.g(s, 'g1')
        else: want = self.count.scale(FSIZE[self.cls])
        self.uv(s, v, want, 'the length of a packed run is not the size of its elements')
        self.set(s, ph=4, ps=self.g(s, 'pos') + n)

    def run_element(self, s, v, n):
        self.cov['values'] += 1
        if self.cls == 0:
            n2 = self.g(s, 'n2')
            if v[0] != 'varint' or v[1] != self.kind or not self.iselem(s, v[2], n2, 0, self.vw):
                self.bad(s, 'an element of a packed run is not the varint of its value')
            self.set(s, n2=n2 + 1, g2=self.g(s, 'g2') + n)
        else:
            off = self.g(s, 'pos') - self.g(s, 'ps')
            self.copied(s, v, n, off, n, 'V', 'an element of a packed run is not its value')

    # ------------------------------------------------------------ worlds
    def values(self, s, ty):
        """the values handed over by the user"""
        W = self.W
        nm = W.tname[ty]
        cls = self.cls = CLASS[nm]
        self.key = 'V.%s' % nm
        self.kind = VKIND.get(nm)
        T = None
        if cls == 0:
            self.vw = self.item = VW[self.kind]
            T = Tmpl('values', None, {0: dict(w=self.vw, lo=0, hi=(1 << 8 * self.vw) - 1, name='value')}, self.item)
        elif cls in (1, 5):
            self.vw = self.item = FSIZE[cls]
            T = Tmpl('values', None, {0: dict(w=self.item, lo=0, hi=(1 << 8 * self.item) - 1, name='value')}, self.item)
        else:
            if nm == 'MESSAGE':
                st = 'pb_encoder_t'
                pre = W.off(st, 'buffer')
                da, sz, al = pre + W.off('pb_buffer_t', 'data'), pre + W.off('pb_buffer_t', 'size'), pre + W.off('pb_buffer_t', 'allocator')
            else:
                st = 'pb_string_t'
                da, sz, al = W.off(st, 'data'), W.off(st, 'size'), None
            self.item = W.size(st)
            self.off_data, self.off_size, self.off_alloc = da, sz, al

            def size(s, spec):
                v = Obj('V', None, ('init', T, self.key))
                return self.ip.init_value(s, v, s.st.norm(spec['off'] - da + sz), 8, 'i')[2]

            def obj(ip, s, ob, spec): ob.size = s.st.norm(size(s, spec)); ob.writable = False

            def null(ip, s, spec):
                s.st.eq0(size(s, spec))
                return not s.st.bot and s.st.sat()

            def noalloc(ip, s, spec):
                self.set(s, isinv=1, inv=spec['off'])
                return True
            f = {da: dict(w=8, ptr=BYTES, null=True, onobj=obj, onnull=null, name='data', writable=False), sz: dict(w=8, lo=0, hi=(1 << 31) - 1, name='size')}
            if al is not None: f[al] = dict(w=8, ptr=Tmpl('allocator', W.size('pb_allocator_t'), {}), null=True, onnull=noalloc, name='allocator', writable=False)
            T = Tmpl('values', None, f, self.item)
        o = Obj('V', s.st.norm(self.count.scale(self.item)), ('init', T, self.key), 'input')
        o.writable = False
        s.add(o)

    def field(self, s, ty, flags, label):
        W = self.W
        F = Tmpl('pb_field_descriptor_t', W.size('pb_field_descriptor_t'), W.field.fields)
        W.obj(s, 'F', F, writable=False)
        f = ('p', 'F', ZERO)
        W.put(s, f, 'pb_field_descriptor_t', 'tag', I(32, self.tag), 4)
        W.put(s, f, 'pb_field_descriptor_t', 'type', I(32, ty), 4)
        W.put(s, f, 'pb_field_descriptor_t', 'flags', I(32, flags), 4)
        if label is not None: W.put(s, f, 'pb_field_descriptor_t', 'label', I(32, label), 4)

    def encoder(self, s, kind, mem, big=True):
        W = self.W
        e = W.struct(s, 'E', 'pb_encoder_t')
        W.obj(s, 'D', W.desc, writable=False)
        W.put(s, e, 'pb_encoder_t', 'descriptor', ('p', 'D', ZERO))
        b = ('p', 'E', C(W.off('pb_encoder_t', 'buffer')))
        a = self.alloc(s, kind)
        size = fresh('before', 0, MAXSIZE) if mem else ZERO
        o = Obj('B', size, ('init', BYTES, 'B'), 'heap')
        s.add(o)
        d = ('p', 'B', ZERO) if mem else NULL
        W.buffer(s, 'buf', a, d, size, b)
        return e, b, a, d, size

    def encode(self, types=None):
        W = self.W
        R = W.enum('PB_LABEL_REPEATED')
        for ty in W.types:
            nm = W.tname[ty]
            if types and nm not in types: continue
            for flags in ((0, 1) if CLASS[nm] != 2 else (0,)):
                for many in (False, True):
                    for mem in (False, True):
                        if flags and not many and not mem: continue
                        S.cons.clear()
                        s = State()
                        self.count = fresh('count', 2, MAXEL) if many else C(1)
                        self.tag = fresh('tag', 1, (1 << 29) - 1)
                        self.packed = bool(flags and many)
                        self.packedv = self.packed and CLASS[nm] == 0
                        self.values(s, ty)
                        self.field(s, ty, flags, R if many else None)
                        e, b, a, d, size = self.encoder(s, 'user', mem)
                        self.before = size
                        self.set(s, pos=size, ph=0, el=0, g1=0, n1=0, g2=0, n2=0, fail=0, isinv=0, inv=0, pend=0, plen=0, ps=0)
                        self.on = True
                        try:
                            for z, v in self.run('pb_encoder_encode', s, [e, I(32, self.tag), ('p', 'V', ZERO), I(64, self.count)]):
                                for z, er in self.err(z, v): self.result(z, er, e, b, a, d, size, nm)
                        finally: self.on = False

    def result(self, z, er, e, b, a, d, size, nm):
        W = self.W
        self.facts(z); self.settle(z)
        if z.st.bot or not z.st.sat(): return
        self.same(z, 'C09', 'pb_encoder_t', e, 'descriptor', ('p', 'D', ZERO), 'encoding changes the description of the encoder')
        self.same(z, 'C09', 'pb_buffer_t', b, 'allocator', a, 'encoding changes the allocator of the encoder')
        fail = self.g(z, 'fail')
        now = self.get(z, b, 'pb_buffer_t', 'size')
        if er is None:
            self.cov['successes'] += 1
            if fail.t or fail.c: self.rep(z, 'C09', 'a failure is not returned'); return
            if not z.st.entails_eq(now[2] - self.g(z, 'pos')): self.rep(z, 'C08', 'not every reserved byte is written')
            if self.packed:
                ok = self.g(z, 'ph').const() == 4
                if ok and self.cls == 0: ok = z.st.entails_eq(self.g(z, 'n2') - self.count)
                elif ok: ok = z.st.entails_eq(self.g(z, 'pos') - self.g(z, 'ps') - self.count.scale(FSIZE[self.cls]))
            else: ok = self.g(z, 'ph').const() == 0 and z.st.entails_eq(self.g(z, 'el') - self.count)
            if not ok: self.rep(z, 'C08', 'success is reported although not every value was encoded')
            return
        self.cov['failures'] += 1
        if fail.t or fail.c:
            if not z.st.entails_eq(er - fail): self.rep(z, 'C09', 'another error than that of the first failure is returned')
        elif nm == 'MESSAGE':
            # refused: the encoder of the next value is not valid
            self.cov['refusals'] += 1
            want = self.g(z, 'el').scale(self.item) + self.off_alloc
            ok = self.g(z, 'isinv').const() == 1 and z.st.entails_eq(self.g(z, 'inv') - want)
            if not ok: self.rep(z, 'C09', 'a valid value is refused')
        else: self.rep(z, 'C09', 'an error is returned although nothing failed')
        if now[0] != 'i' or not z.st.entails_eq(now[2] - size): self.rep(z, 'C09', 'bytes of a value that failed to be encoded remain in the buffer')

    def invalid(self):
        """encoding into an invalid encoder"""
        W = self.W
        for nm in ('INT32', 'STRING', 'MESSAGE', 'FIXED64'):
            ty = W.enum('PB_TYPE_' + nm)
            for many, flags in ((False, 0), (True, 0), (True, 1)):
                if flags and CLASS[nm] == 2: continue
                s = State()
                self.count = fresh('count', 2, MAXEL) if many else C(1)
                self.tag = fresh('tag', 1, (1 << 29) - 1)
                self.packed = self.packedv = False
                self.values(s, ty)
                self.field(s, ty, flags, W.enum('PB_LABEL_REPEATED'))
                e, b, a, d, size = self.encoder(s, 'invalid', False)
                s.wobj('E').writable = False
                s.objs = dict(s.objs); del s.objs['B']
                for z, v in self.run('pb_encoder_encode', s, [e, I(32, self.tag), ('p', 'V', ZERO), I(64, self.count)]):
                    for z, er in self.err(z, v):
                        if er is None: self.rep(z, 'C09', 'encoding into an invalid encoder succeeds')
                        else: self.cov['refusals'] += 1


if __name__ == '__main__':
    t = time.time()
    d = EncoderSpec(ir.load(inline_tu=True))
    a = sys.argv[1:]
    for nm in a or [d.W.tname[x] for x in d.W.types]:
        t1 = time.time()
        n = len(d.ip.findings)
        if nm == 'invalid': d.invalid()
        else: d.encode([nm])
        print(nm, round(time.time() - t1, 2), len(d.ip.findings) - n, d.cov)
    for f in d.ip.findings:
        print(f)
        if __import__('os').environ.get('V'): print(f.trace, f.state)
