"""Analysis of pb_decoder_decode over an arbitrary buffer, description and
handler.  A specification automaton of the wire format runs along with the
abstract states (its variables are ghost cells)."""
from world import *

WT = dict(VARINT=0, B64=1, LENGTH=2, B32=5)
CLASS = {}
for _n in 'INT32 INT64 UINT32 UINT64 SINT32 SINT64 BOOL ENUM'.split(): CLASS[_n] = 0
for _n in 'FIXED64 SFIXED64 DOUBLE'.split(): CLASS[_n] = 1
for _n in 'STRING BYTES MESSAGE'.split(): CLASS[_n] = 2
for _n in 'FIXED32 SFIXED32 FLOAT'.split(): CLASS[_n] = 5
# protobuf integer representation of each varint type
VKIND = dict(INT32='int32', INT64='int64', UINT32='uint32', UINT64='uint64', SINT32='sint32', SINT64='sint64', BOOL='uint8', ENUM='int32')
KINDS = list(VW)


class DecoderSpec:
    form = 'C02'

    def __init__(self, mod):
        self.m = mod
        self.W = World(mod)
        self.events = dict(handler=0, lookup=0, unpack=0, scan=0, delivered_strings=0, delivered_submessages=0, delivered_packed=0, delivered_scalars=0, success=0, failure=0)
        self.delivered = set()

    # ghost helpers
    @staticmethod
    def g(s, k): return s.st.norm(s.ghost[k][2]) if k in s.ghost else ZERO

    @staticmethod
    def set(s, **kw):
        for k, v in kw.items():
            s.ghost[k] = I(64, v if isinstance(v, Lin) else C(v))

    def clear(self, s):
        self.set(s, tend=0, wt=0, tag=0, fld=0, ev=0, evn=0, evv=0, lk=0, lo=0, ln=0, lv=0, cur=0, pend=0)

    def stop(self, s, **kw):
        self.clear(s)
        self.set(s, st=0, front=0)
        self.set(s, **kw)

    def headhook(self, s):
        if 'st' not in s.ghost: return
        if self.g(s, 'st').const() == 2 and s.st.entails_eq(self.g(s, 'cur') - self.g(s, 'pend')):
            self.start(s, self.g(s, 'cur'))

    def off(self, s, d):
        """offset of a pointer in the input buffer or None"""
        return s.st.norm(d[2]) if d[1] == 'B' else None

    def start(self, s, front):
        self.clear(s)
        self.set(s, st=0, front=front)

    # ------------------------------------------------------------ hooks
    def split(self, ip, s, l, vals):
        """partition s by l in vals / other"""
        out = []
        rest = s
        for v in vals:
            for n in ip.assume_cmp(rest.clone(), 'eq', l, C(v), 32): out.append((n, v))
            r = ip.assume_cmp(rest, 'ne', l, C(v), 32)
            if not r: return out
            rest = r[0]
        out.append((rest, None))
        return out

    def fieldtype(self, ip, s, sy):
        """symbol of the type of field object"""
        o = s.objs['L%d' % sy]
        return ip.init_value(s, o, C(self.W.off('pb_field_descriptor_t', 'type')), 4, 'i')[2]

    def types(self, ip, s, sy):
        t = s.st.norm(self.fieldtype(ip, s, sy))
        d = loops_domof(s, t)
        if d is None: return set(self.W.types)
        return set(d)

    def classes(self, ip, s, sy):
        return {CLASS[self.W.tname[t]] for t in self.types(ip, s, sy)}

    def byclass(self, ip, s, sy, cls):
        """partition by whether the field's type has class cls"""
        t = s.st.norm(self.fieldtype(ip, s, sy))
        ins = [x for x in self.W.types if CLASS[self.W.tname[x]] == cls]
        outs = [x for x in self.W.types if CLASS[self.W.tname[x]] != cls]
        r = []
        for vals, b in ((ins, True), (outs, False)):
            n = s.clone(); n.st.restrict(t, frozenset(vals))
            if not n.st.bot and n.st.sat(t.syms()): r.append((n, b))
        return r

    def on_unpack(self, ip, s, ty, d, left, n, v, out, ins):
        self.events['unpack'] += 1
        o = self.off(s, d)
        if o is None: return [s]
        if not s.st.entails_eq(o + left - self.bsize):
            if not s.st.entails(self.bsize - o - left):
                ip.report(s, 'C01', 'a varint is read with a limit past the end of the buffer', ins)
        st = self.g(s, 'st').const()
        self.stopped(ip, s, 'a value is read', ins)
        if n is None:
            self.stop(s, rfail=1)
            return [s]
        self.set(s, lk=KINDS.index(ty) + 1, lo=o, ln=n, lv=v)
        if st in (1, 5) and ty == 'uint32' and s.st.entails_eq(o - self.g(s, 'tend')):
            self.set(s, ev=1, evn=n, evv=v)
            if st == 5:      # unknown field with a length prefix
                self.start(s, o + n + v)
                return [s]
            outs = []
            sy = self.g(s, 'fld').const()
            for s1, b in self.byclass(ip, s, sy, 2):
                if b: outs.append(s1); continue
                for s2, w in self.split(ip, s1, self.g(s1, 'wt'), [2]):
                    if w == 2:
                        self.set(s2, st=2, cur=o + n, pend=o + n + v, lk=0, lo=0, ln=0, lv=0)
                    outs.append(s2)
            return outs
        return [s]

    def on_scan(self, ip, s, d, left, n, ins):
        self.events['scan'] += 1
        o = self.off(s, d)
        if o is None: return
        if not s.st.entails(self.bsize - o - left):
            ip.report(s, 'C01', 'a varint is scanned with a limit past the end of the buffer', ins)
        self.stopped(ip, s, 'a value is skipped', ins)
        if n is None:
            self.stop(s, rfail=1); return
        if self.g(s, 'st').const() == 4 and s.st.entails_eq(o - self.g(s, 'tend')):
            self.start(s, o + n)

    def stopped(self, ip, s, what, ins):
        if self.g(s, 'herr').const() != 0 or 'herr' in s.ghost and self.g(s, 'herr').t:
            ip.report(s, 'C03', '%s after a handler has reported an error' % what, ins)
        if self.g(s, 'rfail').const() != 0:
            ip.report(s, 'C03', '%s after a read has failed' % what, ins)

    def on_lookup(self, ip, s, d, tag, fld, ins):
        """returns list of states"""
        self.events['lookup'] += 1
        if d[1] != 'D':
            return [s]
        st = self.g(s, 'st').const()
        self.stopped(ip, s, 'a field is looked up', ins)
        o, n, v = self.g(s, 'lo'), self.g(s, 'ln'), self.g(s, 'lv')
        front = None
        if st == 0: front = self.g(s, 'front')
        elif st == 2:
            front = self.g(s, 'pend')
            if not s.st.entails_eq(self.g(s, 'cur') - front):
                ip.report(s, 'C02', 'the next field is read before the packed field has been consumed exactly', ins)
        if front is None:
            ip.report(s, 'C05', 'the next field is read before the previous one has been consumed', ins)
            front = o
        if self.g(s, 'lk').const() != KINDS.index('uint32') + 1 or not s.st.entails_eq(o - front):
            ip.report(s, 'C05', 'a field is not looked up by the tag that follows the previous field', ins)
        q, r = euclid(s.st, v, 8)
        if not s.st.entails_eq(tag - q):
            ip.report(s, 'C05', 'a field is not looked up by its tag number', ins)
        self.clear(s)
        self.set(s, tend=o + n, wt=r, tag=q, front=0)
        if fld is not None:
            self.set(s, st=1, fld=int(fld[1][1:]))
            return [s]
        outs = []
        for n_, w in self.split(ip, s, r, [0, 1, 2, 5]):
            te = self.g(n_, 'tend')
            if w == 0: self.set(n_, st=4)
            elif w == 2: self.set(n_, st=5)
            elif w == 1: self.start(n_, te + 8)
            elif w == 5: self.start(n_, te + 4)
            else: self.set(n_, st=6)
            outs.append(n_)
        return outs

    def handler(self, ip, s, args, ins):
        self.events['handler'] += 1
        W = self.W
        self.stopped(ip, s, 'a handler is called', ins)
        st = self.g(s, 'st').const()
        if st not in (1, 2):
            ip.report(s, 'C05', 'a handler is called although no known field has been read', ins)
            return []
        sy = self.g(s, 'fld').const()
        f = s.nv(args[0])
        if f != ('p', 'L%d' % sy, ZERO):
            ip.report(s, 'C02', 'a handler is not given the descriptor of the field', ins)
        if s.nv(args[2]) != ('p', 'U', ZERO):
            ip.report(s, 'C02', 'a handler is not given the user data', ins)
        out = []
        for vs, vp in ip.deref(s, args[1], 'read', ins):
            T = self.types(ip, vs, sy)
            groups = {}
            for t in T:
                nm = W.tname[t]
                groups.setdefault((CLASS[nm], VKIND.get(nm), nm == 'MESSAGE'), []).append(t)
            tl = self.fieldtype(ip, vs, sy)
            for (cls, kind, sub), ts in sorted(groups.items(), key=repr):
                n = vs if len(groups) == 1 else vs.clone()
                if len(groups) > 1:
                    n.st.restrict(n.st.norm(tl), frozenset(ts))
                    if n.st.bot or not n.st.sat(n.st.norm(tl).syms()): continue
                if st == 2: out += self.deliver(ip, n, vp, cls, kind, sub, sy, True, ins)
                else: out += self.deliver(ip, n, vp, cls, kind, sub, sy, False, ins)
        res = []
        for n in out:
            z = n.clone()
            e = fresh('handler_error', 0, (1 << 32) - 1)
            z.st.ne0(e); z.st.ge0(e - 1)
            self.stop(z, herr=e)
            res.append((n, I(32, 0)))
            res.append((z, I(32, e)))
        return res

    def deliver(self, ip, s, vp, cls, kind, sub, sy, packed, ins):
        W = self.W
        tend = self.g(s, 'tend')
        at = self.g(s, 'cur') if packed else tend
        what = 'packed element' if packed else 'value'
        outs = [s]
        if cls == 0:
            ok = self.g(s, 'lk').const() == KINDS.index(kind) + 1 and s.st.entails_eq(self.g(s, 'lo') - at)
            if not ok: ip.report(s, self.form, 'a handler is given a %s that was not read from its place in the message' % what, ins)
            end = at + self.g(s, 'ln')
            r = ip.load(s, vp, VW[kind], 'i', ins)
            for n, v in r:
                if v[0] != 'i' or not n.st.entails_eq(v[2] - self.g(n, 'lv')):
                    ip.report(n, self.form, 'a handler is not given the decoded %s' % what, ins)
            outs = [n for n, _ in r]
            self.events['delivered_packed' if packed else 'delivered_scalars'] += 1
        elif cls in (1, 5):
            w = 8 if cls == 1 else 4
            end = at + w
            if ip.check(s, vp, w, 'read', ins):
                src = content(ip, s, vp, w)
                if src is None or src[0] != 'B' or not s.st.entails_eq(src[1] - at):
                    ip.report(s, self.form, 'a handler is given a %s that was not read from its place in the message' % what, ins)
            self.events['delivered_packed' if packed else 'delivered_scalars'] += 1
        else:
            if not (self.g(s, 'ev').const() == 1):
                ip.report(s, self.form, 'a handler is given a value without a decoded length', ins)
            at = tend + self.g(s, 'evn')
            size = self.g(s, 'evv')
            end = at + size
            if sub:
                outs = self.submessage(ip, s, vp, at, size, sy, ins)
                self.events['delivered_submessages'] += 1
            else:
                outs = []
                S_ = 'pb_string_t'
                for n, dv in ip.load(s, ('p', vp[1], vp[2] + W.off(S_, 'data')), 8, 'p', ins):
                    for n2, sv in ip.load(n, ('p', vp[1], vp[2] + W.off(S_, 'size')), 8, 'i', ins):
                        self.range(ip, n2, dv, sv, at, size, 'string', ins)
                        outs.append(n2)
                self.events['delivered_strings'] += 1
        res = []
        for n in outs:
            if not n.st.entails(self.bsize - end):
                ip.report(n, self.form, 'a delivered value may reach past the end of the buffer', ins)
            if packed:
                if not n.st.entails(self.g(n, 'pend') - end):
                    ip.report(n, self.form, 'a packed element may reach past the extent of its packed field', ins)
                self.set(n, cur=n.st.norm(end), lk=0, lo=0, ln=0, lv=0)
            else:
                self.start(n, n.st.norm(end))
            res.append(n)
        return res

    def range(self, ip, s, dv, sv, at, size, what, ins):
        dv = s.nv(dv)
        if dv[0] != 'p' or dv[1] != 'B' or sv[0] != 'i':
            ip.report(s, self.form, 'a delivered %s does not denote bytes of the buffer' % what, ins); return
        if not s.st.entails_eq(dv[2] - at) or not s.st.entails_eq(sv[2] - size):
            ip.report(s, self.form, 'a delivered %s does not denote the bytes that follow its length' % what, ins)

    def submessage(self, ip, s, vp, at, size, sy, ins):
        W = self.W
        D_, B_ = 'pb_decoder_t', 'pb_buffer_t'
        outs = []
        for n, dv in ip.load(s, ('p', vp[1], vp[2] + W.off(D_, 'descriptor')), 8, 'p', ins):
            ref = ip.init_value(n, n.objs['L%d' % sy], C(W.off('pb_field_descriptor_t', 'refer')), 8, 'p')
            if n.nv(dv) != n.nv(ref):
                ip.report(n, self.form, 'a submessage is not delivered with the description of its type', ins)
            for n2, bv in ip.load(n, ('p', vp[1], vp[2] + W.off(D_, 'buffer')), 8, 'p', ins):
                for n3, bp in ip.deref(n2, bv, 'read', ins):
                    for n4, av in ip.load(n3, ('p', bp[1], bp[2] + W.off(B_, 'allocator')), 8, 'p', ins):
                        if n4.nv(av) != ('p', 'allocator_zero_copy', ZERO):
                            ip.report(n4, 'C11', 'a submessage buffer is not marked as borrowed memory', ins)
                        for n5, dd in ip.load(n4, ('p', bp[1], bp[2] + W.off(B_, 'data')), 8, 'p', ins):
                            for n6, sz in ip.load(n5, ('p', bp[1], bp[2] + W.off(B_, 'size')), 8, 'i', ins):
                                self.range(ip, n6, dd, sz, at, size, 'submessage', ins)
                                outs.append(n6)
        return outs

    # ------------------------------------------------------------ run
    def run(self, budget=600, rank=None):
        m, W = self.m, self.W
        me = self
        con = {}
        base = W.varints(on_scan=self.on_scan)

        def multi(name, ty):
            inner = W.varints(on_unpack=lambda ip, s, ty, d, l, n, v, o, ins: buf.append((s, me.on_unpack(ip, s, ty, d, l, n, v, o, ins))))
            buf = []

            def c(ip, s, args, ins):
                buf.clear()
                r = inner[name](ip, s, args, ins)
                mp = {id(a): b for a, b in buf}
                out = []
                for st, v in r:
                    for z in mp.get(id(st), [st]):
                        out.append((z, v))
                return out
            return c
        for k, v in base.items(): con[k] = v
        for ty in VW: con['pb_varint_unpack_' + ty] = multi('pb_varint_unpack_' + ty, ty)
        lk = W.lookup()['pb_descriptor_field_by_tag']

        def lookup(ip, s, args, ins):
            out = []
            d = s.nv(args[0])
            for n, v in lk(ip, s, args, ins):
                for n1, t in ip.toint(n, args[1], 32):
                    for n2, t in ip.canon(n1, t, 32):
                        for z in me.on_lookup(ip, n2, d, n2.st.norm(t), v if v[0] == 'p' else None, ins): out.append((z, v))
            return out
        con['pb_descriptor_field_by_tag'] = lookup
        con['@handler'] = self.handler
        ip = self.ip = Interp(m, con, budget=budget)
        ip.rank = rank
        ip.partghosts = {'st', 'fld', 'herr', 'rfail', 'lk', 'ev'}
        ip.headhook = self.headhook
        # errors of the stream primitives
        prim = set(['pb_stream_advance'])
        for g in ('pb_stream_read_jump', 'pb_stream_skip_jump'):
            if g in m.globals:
                for off, (w, v) in ip.globalcells(m.globals[g]).items():
                    if v[0] == 'f': prim.add(v[1])

        def ret(ip, fname, args, res):
            if fname not in prim: return
            for s, v in res:
                if v is None or v[0] != 'i': continue
                l = s.st.norm(v[2])
                if s.st.entails_eq(l): continue
                if s.st.entails_ne(l): me.stop(s, rerr=l, rfail=1)
        ip.mon['ret'] = ret
        self.prims = prim
        s = State()
        self.bsize = fresh('size', 0, MAXSIZE)
        W.bytes(s, 'B', self.bsize)
        W.obj(s, 'D', W.desc, writable=False)
        W.obj(s, 'U', Tmpl('user', 64, {}))
        results = []
        entry = 'pb_decoder_decode'
        if entry not in m.funcs or not m.funcs[entry].defined: raise AnalysisBroken('%s is missing' % entry)
        allocs = [('zero-copy', ('p', 'allocator_zero_copy', ZERO)), ('invalid', NULL)]
        self.returns = 0
        for nm, al in allocs:
            s1 = s.clone()
            ip.globalobj(s1, 'allocator_zero_copy')
            buf = W.buffer(s1, 'buf', al, ('p', 'B', ZERO) if al is not NULL else NULL, self.bsize if al is not NULL else ZERO)
            dec = W.struct(s1, 'dec', 'pb_decoder_t')
            W.put(s1, dec, 'pb_decoder_t', 'descriptor', ('p', 'D', ZERO))
            W.put(s1, dec, 'pb_decoder_t', 'buffer', buf)
            s1.wobj('buf').writable = False; s1.wobj('dec').writable = False
            self.start(s1, ZERO)
            self.set(s1, herr=0, rfail=0, rerr=0)
            for n, v in ip.call(s1, entry, [dec, ('f', '@handler'), ('p', 'U', ZERO)]):
                self.returns += 1
                self.final(ip, n, v, al is NULL)
        self.ip = ip
        return ip

    def final(self, ip, s, v, invalid):
        loc = ('src/core/decoder.c', 0, 'pb_decoder_decode')
        if v is None or v[0] != 'i':
            ip.report(s, 'C03', 'the result of decoding is not defined', loc=loc); return
        l = s.st.norm(v[2])
        if invalid:
            if not s.st.entails_ne(l): ip.report(s, 'C21', 'decoding an invalid buffer reports success', loc=loc)
            return
        h, rf = self.g(s, 'herr'), self.g(s, 'rfail')
        if h.t or h.c:
            self.events['failure'] += 1
            if not s.st.entails_eq(l - h): ip.report(s, 'C03', "decoding does not return the handler's error", loc=loc)
            return
        if rf.c:
            self.events['failure'] += 1
            r = self.g(s, 'rerr')
            if not s.st.entails_ne(l): ip.report(s, 'C03', 'decoding reports success after a failed read', loc=loc)
            elif (r.t or r.c) and not s.st.entails_eq(l - r): ip.report(s, 'C03', 'decoding does not return the error of the failed read', loc=loc)
            return
        for ok in ip.assume_cmp(s.clone(), 'eq', l, ZERO, 32):
            self.events['success'] += 1
            st = self.g(ok, 'st').const()
            end = self.g(ok, 'front') if st == 0 else self.g(ok, 'cur') if st == 2 else None
            if end is None:
                ip.report(ok, 'C05' if st in (4, 5, 6) else 'C03', 'decoding reports success although the last field was not consumed', loc=loc)
            elif not ok.st.entails_eq(end - self.bsize):
                ip.report(ok, 'C03', 'decoding reports success before the end of the buffer', loc=loc)
            if st == 2 and not ok.st.entails_eq(self.g(ok, 'cur') - self.g(ok, 'pend')):
                ip.report(ok, 'C02', 'decoding reports success inside a packed field', loc=loc)


def loops_domof(s, l):
    l = s.st.norm(l)
    if not l.t: return {l.c}
    if len(l.t) == 1 and l.t[0][0] in s.st.dom:
        x, k = l.t[0]
        return {k * v + l.c for v in s.st.dom[x]}
    return None


def content(ip, s, p, w):
    """(object, offset) an object's bytes were copied from, or None"""
    o = s.objs[p[1]]
    off = s.st.norm(p[2])
    for a, an, pl in reversed(o.segs):
        if ip.disjoint(s, off, C(w), a, an): continue
        if pl[0] == 'copy' and s.st.entails(off - a) and s.st.entails(a + an - off - w):
            src = pl[1]
            return (src.id, s.st.norm(pl[2] + off - a))
        return None
    return None


if __name__ == '__main__':
    t = time.time()
    m = ir.load(inline_tu=True)
    d = DecoderSpec(m)
    ip = d.run()
    print(time.time() - t, ip.stats['instr'], ip.stats['paths'], ip.stats['loops'], ip.stats['heads'], d.events, d.returns)
    for f in ip.findings:
        print(f); print('   ', f.trace[-8:]);
        import os
        if os.environ.get('V'): print(f.state)
