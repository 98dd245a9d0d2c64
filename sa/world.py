"""Input worlds for the interpreter: templates of the library's types (taken
from the debug information of the current source) and contracts for the parts
that are verified on their own."""
import re, time
import ir, interp
from interp import *
from ir import AnalysisBroken

VMAX = {'int32': 10, 'int64': 10, 'uint8': 2, 'uint32': 5, 'uint64': 10, 'sint32': 5, 'sint64': 10}
VW = {'int32': 4, 'int64': 8, 'uint8': 1, 'uint32': 4, 'uint64': 8, 'sint32': 4, 'sint64': 8}
MAXSIZE = 1 << 62


class World:
    def __init__(self, mod):
        self.m = mod
        self.enums = mod.enums()
        self.T = {}
        self.build()

    def off(self, st, mem):
        d = self.m.di_struct(st)
        if mem not in d: raise AnalysisBroken('struct %s has no member %s' % (st, mem))
        return d[mem][0]

    def size(self, st):
        t = self.m.structs.get('struct.' + st) or self.m.structs.get(st)
        if t is not None: return self.m.sizeof(t)
        return self.m.di_sizeof(st)

    def enum(self, name):
        if name in self.enums: return self.enums[name]
        raise AnalysisBroken('no enumerator %s' % name)

    def tmpl(self, st, fields, array=False):
        """fields: member -> spec dict"""
        t = Tmpl(st, self.size(st), stride=self.size(st) if array else None)
        if array: t.size = None
        for mem, sp in fields.items():
            sp = dict(sp); sp.setdefault('name', mem)
            t.fields[self.off(st, mem)] = sp
        self.T[st + ('[]' if array else '')] = t
        return t

    def build(self):
        E = self.enum
        self.types = [E('PB_TYPE_' + x) for x in 'INT32 INT64 UINT32 UINT64 SINT32 SINT64 FIXED32 FIXED64 SFIXED32 SFIXED64 BOOL ENUM FLOAT DOUBLE STRING BYTES MESSAGE'.split()]
        self.labels = [E('PB_LABEL_' + x) for x in 'REQUIRED OPTIONAL REPEATED ONEOF'.split()]
        self.tname = {E('PB_TYPE_' + x): x for x in 'INT32 INT64 UINT32 UINT64 SINT32 SINT64 FIXED32 FIXED64 SFIXED32 SFIXED64 BOOL ENUM FLOAT DOUBLE STRING BYTES MESSAGE'.split()}
        fd = dict(tag=dict(w=4, lo=1, hi=(1 << 29) - 1), name=dict(w=8, null=False), type=dict(w=4, lo=1, hi=17, dom=self.types),
                  label=dict(w=4, lo=1, hi=4, dom=self.labels), refer=dict(w=8, null=False), value=dict(w=8), flags=dict(w=4))
        F = self.field = self.tmpl('pb_field_descriptor_t', fd)
        FA = self.fields = self.tmpl('pb_field_descriptor_t', fd, array=True)
        D = self.desc = Tmpl('pb_descriptor_t', self.size('pb_descriptor_t'))
        o = self.off

        def fdata(ip, s, ob, spec):
            n = ip.init_value(s, s.objs.get(spec['owner']) or Obj(spec['owner'], None, ('init', D, spec['owner'])), C(o('pb_descriptor_t', 'field.size')), 8, 'i')
            ob.size = s.st.norm(n[2].scale(FA.stride))
        D.fields[o('pb_descriptor_t', 'field.data')] = dict(w=8, ptr=FA, null=False, onobj=fdata, name='field.data', writable=False)
        D.fields[o('pb_descriptor_t', 'field.size')] = dict(w=8, lo=0, hi=MAXSIZE // 64, name='field.size')
        D.fields[o('pb_descriptor_t', 'extension')] = dict(w=8, ptr=D, name='extension', writable=False)
        # nested references
        for t in (F, FA):
            f = t.fields[o('pb_field_descriptor_t', 'refer')]
            f['ptr'] = D; f['writable'] = False
            t.fields[o('pb_field_descriptor_t', 'name')]['ptr'] = Tmpl('chars', None, {0: dict(w=1, lo=0, hi=255)}, 1)
            vt = Tmpl('defaultvalue', None, {0: dict(w=1, lo=0, hi=255)}, 1)
            t.fields[o('pb_field_descriptor_t', 'value')]['ptr'] = vt
        self.T['pb_descriptor_t'] = D

    # ------------------------------------------------------------- inputs
    def obj(self, s, name, tmpl, writable=True, size=None, kind='input'):
        ob = Obj(name, size if size is not None else (C(tmpl.size) if tmpl.size is not None else None), ('init', tmpl, name), kind)
        ob.writable = writable
        s.add(ob)
        return ('p', name, ZERO)

    def bytes(self, s, name, size, writable=False, kind='input'):
        ob = Obj(name, size, ('init', BYTES, name), kind)
        ob.writable = writable
        s.add(ob)
        return ('p', name, ZERO)

    def put(self, s, p, st, mem, v, w=8):
        s.wobj(p[1]).cells[p[2].c + self.off(st, mem)] = (w, v)

    def rd(self, s, p, st, mem, w=8):
        c = s.objs[p[1]].cells.get(p[2].c + self.off(st, mem))
        return s.nv(c[1]) if c else None

    def struct(self, s, name, st, kind='input'):
        ob = Obj(name, C(self.size(st)), ('undef',), kind)
        s.add(ob)
        return ('p', name, ZERO)

    def buffer(self, s, name, alloc, data, size, where=None):
        p = where or self.struct(s, name, 'pb_buffer_t')
        self.put(s, p, 'pb_buffer_t', 'allocator', alloc)
        self.put(s, p, 'pb_buffer_t', 'data', data)
        self.put(s, p, 'pb_buffer_t', 'size', I(64, size))
        return p

    # ------------------------------------------------------------- contracts
    def varints(self, on_unpack=None, on_scan=None, on_pack=None, on_size=None):
        W = self
        out = {}

        def readable(ip, s, data, left, ins):
            """[(state, data ptr, left)] after checking the precondition"""
            res = []
            for s1, l in ip.toint(s, left, 64):
                for s2, l in ip.canon(s1, l, 64):
                    for s3, d in ip.deref(s2, data, 'read', ins):
                        if not s3.st.entails(l - 1):
                            ip.report(s3, 'varint-empty', 'varint read with no byte left to read', ins)
                            s3.st.ge0(l - 1)
                            if s3.st.bot or not s3.st.sat(l.syms()): continue
                        if not ip.check(s3, d, l, 'read', ins): continue
                        res.append((s3, d, l))
            return res

        def mk_unpack(ty):
            def con(ip, s, args, ins):
                r = []
                for s1, d, l in readable(ip, s, args[0], args[1], ins):
                    for s2, o in ip.deref(s1, args[2], 'write', ins):
                        f = s2.clone()
                        x = fresh('failed', 0, (1 << 8 * VW[ty]) - 1)
                        ip.store(f, o, VW[ty], I(8 * VW[ty], x), ins)
                        if on_unpack: on_unpack(ip, f, ty, d, l, None, None, o, ins)
                        r.append((f, I(64, 0)))
                        n = fresh('n', 1, VMAX[ty]); v = fresh('varint.%s' % ty, 0, (1 << 8 * VW[ty]) - 1)
                        s2.st.ge0(l - n)
                        if s2.st.bot or not s2.st.sat(n.syms()): continue
                        ip.store(s2, o, VW[ty], I(8 * VW[ty], v), ins)
                        if on_unpack: on_unpack(ip, s2, ty, d, l, n, v, o, ins)
                        r.append((s2, I(64, n)))
                return r
            return con

        def scan(ip, s, args, ins):
            r = []
            for s1, d, l in readable(ip, s, args[0], args[1], ins):
                f = s1.clone()
                if on_scan: on_scan(ip, f, d, l, None, ins)
                r.append((f, I(64, 0)))
                n = fresh('scan', 1, 10)
                s1.st.ge0(l - n)
                if on_scan: on_scan(ip, s1, d, l, n, ins)
                r.append((s1, I(64, n)))
            return r

        def valterm(ip, s, p, ty, ins):
            """symbol for the size of the varint of the value stored at p"""
            rs = []
            for s1, q in ip.deref(s, p, 'read', ins):
                for s2, v in ip.load(s1, q, VW[ty], 'i', ins):
                    rs.append((s2, q, v))
            return rs

        def vkey(s, v):
            return s.st.norm(v[2]) if v[0] == 'i' else fresh('x')

        def mk_size(ty):
            def con(ip, s, args, ins):
                r = []
                for s1, q, v in valterm(ip, s, args[0], ty, ins):
                    for s2, l in (ip.canon(s1, v[2], 8 * VW[ty]) if v[0] == 'i' else [(s1, fresh('x'))]):
                        if not l.t and ty.startswith('uint'):
                            n = C(max(1, (l.c.bit_length() + 6) // 7))
                        else: n = term('vsize_' + ty, (l,), 1, VMAX[ty])
                        s2.st.use(n)
                        if on_size: on_size(ip, s2, ty, q, l, n, ins)
                        r.append((s2, I(64, n)))
                return r
            return con

        def mk_pack(ty):
            def con(ip, s, args, ins):
                r = []
                for s1, q, v in valterm(ip, s, args[1], ty, ins):
                    for s2, l in (ip.canon(s1, v[2], 8 * VW[ty]) if v[0] == 'i' else [(s1, fresh('x'))]):
                        if not l.t and ty.startswith('uint'):
                            n = C(max(1, (l.c.bit_length() + 6) // 7))
                        else: n = term('vsize_' + ty, (l,), 1, VMAX[ty])
                        s2.st.use(n)
                        for s3, d in ip.deref(s2, args[0], 'write', ins):
                            if ip.check(s3, d, n, 'write', ins):
                                mon = ip.mon.get('store')
                                if mon: mon(ip, s3, s3.objs[d[1]], s3.st.norm(d[2]), n, ('varint', ty, l))
                                ip.segwrite(s3, s3.wobj(d[1]), s3.st.norm(d[2]), n, ('varint', ty, l))
                            if on_pack: on_pack(ip, s3, ty, d, l, n, ins)
                            r.append((s3, I(64, n)))
                return r
            return con
        for ty in VW:
            for nm, mk in (('unpack', mk_unpack), ('size', mk_size), ('pack', mk_pack)):
                fn = 'pb_varint_%s_%s' % (nm, ty)
                if fn not in self.m.funcs: raise AnalysisBroken('%s is missing' % fn)
                out[fn] = mk(ty)
        if 'pb_varint_scan' not in self.m.funcs: raise AnalysisBroken('pb_varint_scan is missing')
        out['pb_varint_scan'] = scan
        return out

    def lookup(self, hook=None, known=None):
        """contract of pb_descriptor_field_by_tag"""
        W = self

        def con(ip, s, args, ins):
            r = []
            for s1, d in ip.deref(s, args[0], 'read', ins):
                for s2, tag in ip.toint(s1, args[1], 32):
                    for s3, tag in ip.canon(s2, tag, 32):
                        # the same lookup always gives the same field
                        sy = S.term('field', (d[1], d[2], s3.st.norm(tag)))
                        if sy not in LAZY:
                            def ontag(ip, s, ob, spec, tag=tag):
                                tv = ip.init_value(s, ob, C(W.off('pb_field_descriptor_t', 'tag')), 4, 'i')
                                s.st.eq0(tv[2] - tag)
                            LAZY[sy] = dict(tmpl=W.field, null=True, onobj=ontag, owner=d[1], off=d[2], writable=False, field=dict(name='field descriptor'))
                        for s4, v in ip.force(s3, ('lp', sy)):
                            if hook: hook(ip, s4, d, tag, v if v[0] == 'p' else None, ins)
                            r.append((s4, v))
            return r
        if 'pb_descriptor_field_by_tag' not in self.m.funcs: raise AnalysisBroken('pb_descriptor_field_by_tag is missing')
        return {'pb_descriptor_field_by_tag': con}
