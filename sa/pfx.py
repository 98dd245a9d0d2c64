"""Length prefixes (C18).  The journal holds a message with a chain of nested
length-prefixed fields around the part an operation changes; each of them has a
tag, a prefix and a content of unknown size at an unknown position, behind
arbitrarily many other fields.  Every change of the journal moves what lies
behind it; rewriting a prefix sets the value it holds.  When the operation
reports success, every prefix has to hold the size of its content.  Nesting of
any depth is covered by induction: the function walking the fields calls itself
for the content of a field, the innermost call is replaced by what is shown for
the others."""
from errs import *
import errs

COORD = ('tg', 'lp', 'cs', 'ce')
LIMIT = 1 << 30


class PrefixSpec(ErrSpec):
    def __init__(self, mod, budget=600):
        ErrSpec.__init__(self, mod, budget)
        self.cov = dict(worlds=0, results=0, operations=0, changes=0, prefixes=0, removed=0, tags=0, lengths=0, scans=0, nested=0, aligned=0, judged=0, held=0, handles=0, failures=0)
        own = dict(pb_varint_unpack_uint32=self.c_unpack, pb_varint_scan=self.c_scan)
        self.lower.update(own)
        self.ip.partghosts = {'rd', 'ar', 'rec', 'hn', 'P.on', 'K.on', 'fail'}
        self.ip.mon.pop('ret', None)
        self.names = {1: 'a message around it', 2: 'a message around it'}

    # ------------------------------------------------------------ layout
    def l(self, s, k): return s.st.norm(s.ghost[k][2])
    def sl(self, s, **kw):
        for k, v in kw.items(): s.ghost[k.replace('_', '.')] = I(64, v if isinstance(v, Lin) else C(v))

    def chain(self, s): return [x for x in self.nest if x + '.on' not in s.ghost or self.g(s, x + '.on')]

    def innermost(self, s):
        """start of the message the part belongs to"""
        return self.l(s, 'O')

    def snap(self, s):
        k = self.g(s, 'hn')
        self.sl(s, **{'h%d_ver' % k: self.ver(s)})
        for x in self.chain(s):
            for c in ('cs', 'ce'): s.ghost['h%d.%s.%s' % (k, x, c)] = s.ghost['%s.%s' % (x, c)]
        s.ghost['hn'] = I(8, k + 1)

    def shift(self, s, i, d, inner):
        """the content of chain[:i] grows by d, what is behind i moves"""
        ch = self.chain(s)
        for x in ch[:i]: s.ghost[x + '.ce'] = I(64, self.l(s, x + '.ce') + d)
        if inner:
            for x in ch[i + 1:]:
                for c in COORD: s.ghost['%s.%s' % (x, c)] = I(64, self.l(s, '%s.%s' % (x, c)) + d)

    def resized(self, s, d, ins):
        n = self.size(s)
        m = s.st.norm(n + d)
        s.st.ge0(-m + LIMIT); s.st.ge0(m)
        if s.st.bot or not s.st.sat(): return False
        self.cov['changes'] += 1
        self.W.bytes(s, 'B', m)
        j = ('p', 'J', ZERO)
        self.W.put(s, j, 'pb_journal_t', 'buffer.size', I(64, m))
        self.W.put(s, j, 'pb_journal_t', 'entry.size', I(64, self.ver(s) + 1))
        return True

    # ------------------------------------------------------------ changes
    def varintat(self, s, p, n):
        """[numbers] the n bytes at p encode, or None"""
        o = s.objs[p[1]]
        at, end, out = s.st.norm(p[2]), s.st.norm(p[2] + n), []
        for _ in range(3):
            if s.st.entails_eq(at - end): return out
            for a, k, pl in reversed(o.segs):
                if pl[0] == 'varint' and s.st.entails_eq(a - at) and not s.st.entails_eq(k):
                    out.append((s.st.norm(k), s.st.norm(pl[2]))); at = s.st.norm(at + k); break
            else: return None
        return out if s.st.entails_eq(at - end) else None

    def bad(self, s, what, ins): self.ip.report(s, 'C18', '%s: %s' % (self.fn, what), ins)

    def c_jwrite(self, ip, s, args, ins):
        out = []
        if not self.isj(s, args[0], ins, 'write'): return []
        for s1, k in ip.toint(s, args[5], 64):
            for s2, k in ip.canon(s1, k, 64):
                for s3, p in ip.deref(s2, args[4], 'read', ins):
                    for s4, a in ip.toint(s3, args[2], 64):
                        for s5, e in ip.toint(s4, args[3], 64): out += self.write(ip, s5, s5.st.norm(a), s5.st.norm(e), p, k, ins)
        return out

    def write(self, ip, s, a, e, p, k, ins):
        st = s.st
        ch = self.chain(s)
        d = st.norm(k - e + a)
        out = []
        eq = lambda x, y: st.entails_eq(x - y)
        how = None
        for i, x in enumerate(ch):
            if x in self.prefixed and eq(a, self.l(s, x + '.lp')) and eq(e, self.l(s, x + '.cs')) and not (x == 'P' and eq(a, e)): how = ('prefix', i, x); break
            if x == 'P' and self.isvalue(s, a, e): how = ('value', i, x); break
        if how is None and 'P' not in ch and self.creating and eq(a, e) and st.entails(a - self.innermost(s)) and st.entails(self.l(s, 'Me') - a): how = ('new', len(ch), 'P')
        if how is None:
            self.bad(s, 'bytes are written that belong neither to the part nor to the length prefix of a field around it', ins)
            return []
        for rel in ('eq', 'ne'):
            for z in ip.assume_cmp(s.clone(), rel, d, ZERO, 64):
                if rel == 'ne' and not self.resized(z, d, ins): continue
                kind, i, x = how
                dd = d if rel == 'ne' else ZERO
                if kind == 'prefix':
                    self.cov['prefixes'] += 1
                    v = self.varintat(z, p, k)
                    z.ghost[x + '.pv'] = I(64, v[0][1] if v and len(v) == 1 else fresh('bytes', 0, LIMIT))
                    self.shift(z, i, dd, True)
                    for c in ('cs', 'ce'): z.ghost['%s.%s' % (x, c)] = I(64, self.l(z, '%s.%s' % (x, c)) + dd)
                    self.sl(z, O=self.l(z, 'O') + dd if x != 'P' and x != 'K' else self.l(z, 'O'))
                    if 'Me' in z.ghost: self.sl(z, Me=self.l(z, 'Me') + dd)
                elif kind == 'value':
                    self.shift(z, i, dd, False)
                    z.ghost['P.ce'] = I(64, self.l(z, 'P.ce') + dd)
                else:
                    v = self.varintat(z, p, k)
                    if not v or len(v) > 2 or len(v) == 2 and not z.st.entails_eq(v[1][1]):
                        self.bad(z, 'a new field does not begin with a tag, and a length of zero if it has a length', ins); continue
                    w = z.st.norm(v[0][0])
                    self.shift(z, i, dd, False)
                    z.ghost['P.on'] = I(8, 1)
                    self.sl(z, P_tg=a, P_lp=a + w, P_cs=a + k, P_ce=a + k, P_pv=0)
                    self.sl(z, Me=self.l(z, 'Me') + dd)
                if rel == 'ne': self.snap(z)
                out.append((z, I(32, 0)))
        return out

    def isvalue(self, s, a, e): return s.st.entails_eq(a - self.l(s, 'P.cs')) and s.st.entails_eq(e - self.l(s, 'P.ce'))

    def c_jclear(self, ip, s, args, ins):
        out = []
        if not self.isj(s, args[0], ins, 'removal'): return []
        for s4, a in ip.toint(s, args[2], 64):
            for z, e in ip.toint(s4, args[3], 64):
                ch = self.chain(z)
                for x in ('P', 'K'):
                    if x in ch and z.st.entails_eq(a - self.l(z, x + '.tg')) and z.st.entails_eq(e - self.l(z, x + '.ce')): break
                else:
                    self.bad(z, 'bytes are removed that are neither the part nor an empty packed field around it', ins); continue
                if x == 'K' and 'P' in ch: self.bad(z, 'a packed field is removed although it has values', ins); continue
                self.cov['removed'] += 1
                i = ch.index(x)
                d = z.st.norm(a - e)
                for rel in ('eq', 'ne'):
                    for y in ip.assume_cmp(z.clone(), rel, d, ZERO, 64):
                        if rel == 'ne' and not self.resized(y, d, ins): continue
                        self.shift(y, i, d if rel == 'ne' else ZERO, False)
                        y.ghost[x + '.on'] = I(8, 0)
                        # where it was
                        for c in ('cs', 'ce', 'lp'): y.ghost['%s.%s' % (x, c)] = y.ghost[x + '.tg']
                        if rel == 'ne': self.snap(y)
                        out.append((y, I(32, 0)))
        return out

    def c_align(self, ip, s, args, ins):
        out = []
        if not self.isj(s, args[0], ins, 'alignment'): return []
        rd = lambda z, o, k: ip.readobj(z, z.objs[o[1]], z.st.norm(o[2] + self.W.off('pb_offset_t', k)), 8, 'i')[0][1]
        for s1, v in ip.deref(s, args[1], 'write', ins):
            for z, o in ip.deref(s1, args[2], 'write', ins):
                self.cov['aligned'] += 1
                ver = z.nv(ip.readobj(z, z.objs[v[1]], z.st.norm(v[2]), 8, 'i')[0][1])
                a, e, t = (z.nv(rd(z, o, k)) for k in ('start', 'end', 'diff.tag'))
                if any(q[0] != 'i' for q in (ver, a, e, t)): raise AnalysisBroken('offsets of an aligned part are not known')
                og = z.nv(rd(z, o, 'diff.origin'))
                found = None
                for k in range(self.g(z, 'hn')):
                    if not z.st.entails_eq(ver[2] - self.l(z, 'h%d.ver' % k)): continue
                    for x in self.nest:
                        if 'h%d.%s.cs' % (k, x) not in z.ghost: continue
                        if not z.st.entails_eq(a[2] - self.l(z, 'h%d.%s.cs' % (k, x))) or not z.st.entails_eq(e[2] - self.l(z, 'h%d.%s.ce' % (k, x))): continue
                        if x == 'P' and x not in self.prefixed and not self.tagged and not z.st.entails_eq(t[2]): continue
                        found = x
                if found is None or found not in self.chain(z):
                    self.bad(z, 'a position is brought up to date that is not that of the part or a field around it', ins); continue
                cs = self.l(z, found + '.cs')
                put = lambda k, l: ip.store(z, ('p', o[1], o[2] + self.W.off('pb_offset_t', k)), 8, I(64, l), ins)
                same = og[0] == 'i' and z.st.entails_eq(og[2] - t[2])
                put('start', cs); put('end', self.l(z, found + '.ce'))
                tag = self.l(z, found + '.tg') - cs
                if found == 'P' and not self.tagged: tag = ZERO
                put('diff.tag', tag)
                put('diff.length', self.l(z, found + '.lp') - cs if found in self.prefixed else ZERO)
                put('diff.origin', tag if same else self.innermost(z) - cs)
                ip.store(z, v, 8, I(64, self.ver(z)), ins)
                out.append((z, I(32, 0)))
        return out

    # ------------------------------------------------------------ reading fields
    def regions(self, s):
        """[(first position, position of the next field of the chain, its name)]"""
        out = []
        lo = ZERO
        for x in self.nest:
            if x == 'P' and 'K' in self.nest: continue
            if x == 'P' and 'deep' in self.world_: continue
            if x == 'P' and self.creating and not self.g(s, 'P.on'): continue
            out.append((lo, self.l(s, x + '.tg'), x if x in self.chain(s) else None))
            lo = self.l(s, x + '.cs')
        return out

    def c_unpack(self, ip, s, args, ins):
        out = []
        for s1, left in ip.toint(s, args[1], 64):
            for s2, d in ip.deref(s1, args[0], 'read', ins):
                for s3, o in ip.deref(s2, args[2], 'write', ins):
                    if d[1] != 'B': self.bad(s3, 'a field is read from somewhere else than the message', ins); continue
                    for z, n, v in self.number(s3, s3.st.norm(d[2]), left, ins):
                        z.st.ge0(left - n)
                        if z.st.bot or not z.st.sat(): continue
                        ip.store(z, o, 4, I(32, z.st.norm(v)), ins)
                        out.append((z, I(64, z.st.norm(n))))
        return out

    def number(self, s, o, left, ins):
        """[(state, size, value)] of the number at o"""
        st = s.st
        if self.g(s, 'rd') == 2 and st.entails_eq(o - self.l(s, 'vo')):
            # length of some field
            self.cov['lengths'] += 1
            n, v = fresh('n', 1, 5), fresh('length', 0, LIMIT)
            st.ge0(self.l(s, 'vh') - o - n - v)
            self.sl(s, rd=0, vo=0, vh=0)
            return [(s, n, v)]
        for x in self.chain(s):
            if x in self.prefixed and st.entails_eq(o - self.l(s, x + '.lp')):
                self.cov['lengths'] += 1
                return [(s, self.l(s, x + '.cs') - o, self.l(s, x + '.pv'))]
        if self.g(s, 'rd'):
            self.bad(s, 'a field is not read to its end', ins); return []
        out = []
        if self.g(s, 'ar') or 'root' in self.world_: return self.other(s, o, self.size(s))
        for x in self.chain(s):
            if st.entails_eq(o - self.l(s, x + '.tg')) and (x != 'P' or self.tagged): return self.stop(s, x, o)
        for lo, hi, x in self.regions(s):
            if not (st.entails(o - lo) and st.entails(hi - o)): continue
            a = self.split(s, o - hi)
            if a is not None and x: out += self.stop(a, x, o)
            elif a is not None: out += self.other(a, o, self.size(a))
            b = self.split(s, hi - o - 1)
            if b is not None: out += self.other(b, o, hi)
            return out
        self.bad(s, 'the fields around the part are not read from the beginning of a message', ins)
        return []

    def stop(self, s, x, o):
        self.cov['tags'] += 1
        q = fresh('tag', 1, (1 << 29) - 1)
        n = (self.l(s, x + '.lp') if x in self.prefixed else self.l(s, 'P.cs')) - o
        if x in self.prefixed: return [(s, n, q.scale(8) + 2)]
        out = []
        w = s.st.norm(self.l(s, 'P.ce') - self.l(s, 'P.cs'))
        for t in (0, 1, 5):
            z = s.clone()
            if t: z.st.eq0(w - (8 if t == 1 else 4)); self.sl(z, ar=1)
            else: z.st.ge0(w - 1); z.st.ge0(-w + 10); self.sl(z, rd=3)
            if z.st.bot or not z.st.sat(): continue
            out.append((z, n, q.scale(8) + t))
        return out

    def other(self, s, o, hi):
        """any field that ends at hi or before"""
        self.cov['tags'] += 1
        out = []
        for t in (0, 1, 2, 5):
            z = s.clone()
            q, n = fresh('tag', 1, (1 << 29) - 1), fresh('n', 1, 5)
            z.st.ge0(hi - o - n - {0: 1, 1: 8, 2: 1, 5: 4}[t])
            if z.st.bot or not z.st.sat(): continue
            if t in (0, 2): self.sl(z, rd=1 if t == 0 else 2, vo=o + n, vh=hi)
            out.append((z, n, q.scale(8) + t))
        return out

    def c_scan(self, ip, s, args, ins):
        out = []
        for s1, left in ip.toint(s, args[1], 64):
            for z, d in ip.deref(s1, args[0], 'read', ins):
                self.cov['scans'] += 1
                o, r = z.st.norm(d[2]), self.g(z, 'rd')
                if r == 1 and z.st.entails_eq(o - self.l(z, 'vo')):
                    n = fresh('n', 1, 10)
                    z.st.ge0(self.l(z, 'vh') - o - n); z.st.ge0(left - n)
                elif r == 3 and z.st.entails_eq(o - self.l(z, 'P.cs')): n = self.l(z, 'P.ce') - o; self.sl(z, ar=1)
                else: self.bad(z, 'a value is not read behind its tag', ins); continue
                self.sl(z, rd=0, vo=0, vh=0)
                if not z.st.bot and z.st.sat(): out.append((z, I(64, z.st.norm(n))))
        return out

    # ------------------------------------------------------------ induction
    def recursed(self, ip, s, f, args):
        if sum(1 for fr in s.frames if fr[0] == f.name) < self.levels: return args
        types = [flow.tyname(self.m, t) for _, t in flow.cparams(self.m, f)]
        if len(types) != len(args) or not self.iserr(f.name): raise AnalysisBroken('recursion in %s is not known' % f.name)
        if 'deep' not in self.world_:
            ip.report(s, 'C18', '%s: a field is entered that does not contain the part' % self.fn, loc=self.loc); return 'results', []
        self.cov['nested'] += 1
        cs, ce, pv = (self.l(s, 'F2.' + k) for k in ('cs', 'ce', 'pv'))
        part = stream = delta = None
        for t, a in zip(types, args):
            a = s.nv(a)
            if t == 'pb_part_t*': part = a
            elif t in ('pb_stream_t*', 'pb_stream_t'): stream = a
            elif t in ('ptrdiff_t*', 'size_t*', 'long*'): delta = a
            elif t in ('ptrdiff_t', 'size_t', 'long'): delta = a
            else: raise AnalysisBroken('effect of %s on a %s is not known' % (f.name, t))
        say = lambda m: ip.report(s, 'C18', '%s: %s' % (self.fn, m), loc=self.loc)
        if stream is None or part is None: raise AnalysisBroken('recursion in %s is not known' % f.name)
        if stream[0] == 'p':
            at = self.get(s, stream, 'pb_stream_t', 'offset')
            if at[0] != 'i' or not s.st.entails_eq(at[2] - cs): say('the messages inside of a message are not read from its beginning'); return 'results', []
        for k in ('start', 'end'):
            x = self.get(s, part, 'pb_part_t', 'offset.' + k)
            if x[0] != 'i' or not s.st.entails_eq(x[2] - self.l(s, 'P.cs' if k == 'start' else 'P.ce')): say('the messages inside of a message are adjusted for something else than the part'); return 'results', []
        d = delta
        if delta is not None and delta[0] == 'p': d = ip.readobj(s, s.objs[delta[1]], s.st.norm(delta[2]), 8, 'i')[0][1]
        if d is not None and (d[0] != 'i' or not any(s.st.entails_eq(d[2] - ce + cs + pv + k) for k in (0, 1 << 64, -(1 << 64)))):
            say('the messages inside of a message are adjusted for another change of the size'); return 'results', []
        out = []
        s.ghost['rec'] = I(8, 1)
        for kind in ('same', 'more', 'gone'):
            z = s.clone()
            if kind == 'gone' and (self.tagged or self.g(z, 'P.on')): continue
            if kind != 'same':
                x = fresh('shift', -LIMIT, LIMIT)
                b = z.st.norm(ce + x)
                z.st.ge0(b - cs); z.st.ge0(self.l(z, 'P.tg') + x - cs - 1)
                if not self.resized(z, x, None): continue
                more = fresh('version', 0, 1 << 60)
                z.st.ge0(more - self.ver(z))
                self.W.put(z, ('p', 'J', ZERO), 'pb_journal_t', 'entry.size', I(64, more))
                for n in ('F1', 'F2'): z.ghost[n + '.ce'] = I(64, self.l(z, n + '.ce') + x)
                for c in COORD: z.ghost['P.' + c] = I(64, self.l(z, 'P.' + c) + x)
                self.sl(z, O=self.l(z, 'O') + x)
                if 'Me' in z.ghost: self.sl(z, Me=self.l(z, 'Me') + x)
                if delta is not None and delta[0] == 'p' and kind == 'more': ip.store(z, delta, 8, I(64, d[2] + x), None)
                self.snap(z)
            if stream[0] == 'p': self.put(z, stream, 'pb_stream_t', 'offset', I(64, fresh('offset', 0, LIMIT)), None)
            out.append((z, I(32, 0)))
        return 'results', out

    # ------------------------------------------------------------ cursors
    def fresh_off(self, s, n, point=False):
        """a field of the message the handle is of"""
        d = ErrSpec.fresh_off(self, s, n, point)
        if self.creating:
            s.st.ge0(d['start'] + d['diff.tag'] - self.innermost(s) if False else d['start'] - self.innermost(s))
            s.st.ge0(self.l(s, 'Me') - d['end'])
        return d

    # ------------------------------------------------------------ worlds
    def layout(self, op, kind, depth):
        """kind: scalar, length, value (packed), root; depth 0, 1 or deep"""
        W = self.W
        ty = 'STRING' if kind == 'length' else 'UINT32'
        s = self.world((ty, 'UINT32') if op == 'create' else (ty,), kind == 'packed', 'REPEATED' if kind == 'packed' else None)
        if op == 'create' and kind != 'packed':
            for f in self.fields:
                x = self.get(s, ('p', f, ZERO), 'pb_field_descriptor_t', 'label', 4)[2]
                s.st.ge0(-x + W.enum('PB_LABEL_ONEOF') - 1)
        self.world_ = {kind, depth if depth == 'deep' else str(depth)}
        self.creating = op == 'create'
        s.ghost['rd'] = s.ghost['ar'] = s.ghost['rec'] = s.ghost['hn'] = I(8, 0)
        self.sl(s, vo=0, vh=0)
        N = self.n0
        s.st.ge0(-N + LIMIT)
        self.nest = {0: [], 1: ['F1'], 'deep': ['F1', 'F2']}[depth]
        self.prefixed = set(self.nest)
        lo, hi = ZERO, N

        def field(x, lo, hi, prefixed=True):
            a, p, c, e = (fresh(x + '.' + k, 0, LIMIT) for k in COORD)
            if not prefixed: p = c
            for q in (a - lo, p - a - 1, a + 5 - p, e - c, hi - e) + ((c - p - 1, p + 5 - c) if prefixed else ()): s.st.ge0(q)
            for k, l in zip(COORD, (a, p, c, e)): s.ghost['%s.%s' % (x, k)] = I(64, l)
            if prefixed: s.ghost[x + '.pv'] = I(64, e - c)
            return c, e
        for x in self.nest: lo, hi = field(x, lo, hi)
        O = lo
        if depth == 'deep':
            # in a message somewhere inside
            O = fresh('O', 0, LIMIT); oe = fresh('Oe', 0, LIMIT)
            for q in (O - lo - 2, oe - O, hi - oe): s.st.ge0(q)
            lo, hi = O, oe
        self.sl(s, O=O)
        self.tagged = kind in ('scalar', 'length')
        if self.creating:
            self.nest.append('P'); s.ghost['P.on'] = I(8, 0)
            if kind != 'scalar': self.prefixed.add('P')
            self.tagged = True
            self.sl(s, Me=hi)
            for k in COORD: s.ghost['P.' + k] = I(64, ZERO)
        elif kind == 'root':
            self.nest.append('P'); s.ghost['P.on'] = I(8, 1)
            self.sl(s, P_tg=0, P_lp=0, P_cs=0, P_ce=N)
        else:
            if kind == 'value' and depth != 'deep':
                self.nest.append('K'); self.prefixed.add('K'); s.ghost['K.on'] = I(8, 1)
                lo, hi = field('K', lo, hi)
            self.nest.append('P'); s.ghost['P.on'] = I(8, 1)
            if kind == 'length': self.prefixed.add('P')
            if kind == 'value':
                # in deeper messages the packed field is one of those inside
                c, e = fresh('P.cs', 0, LIMIT), fresh('P.ce', 0, LIMIT)
                for q in (c - lo - (2 if depth == 'deep' else 0), e - c, hi - e): s.st.ge0(q)
                self.sl(s, P_tg=c, P_lp=c, P_cs=c, P_ce=e)
            else: field('P', lo, hi, kind == 'length')
        self.ip.limits = [('g', x + '.tg') for x in self.nest] + [('g', 'Me')]
        self.V = self.ver(s)
        self.snap(s)
        return s

    def partof(self, s, p, st, pre, a, e, o, t, l):
        W = self.W
        W.put(s, p, st, pre + 'journal', ('p', 'J', ZERO))
        W.put(s, p, st, pre + 'version', I(64, self.V))
        for k, x in zip(OFF, (a, e, o, t, l)): W.put(s, p, st, pre + 'offset.' + k, I(64, x))

    def one(self, op, kind, depth):
        W = self.W
        s = self.layout(op, kind, depth)
        if s.st.bot or not s.st.sat(): raise AnalysisBroken('no message of this layout')
        self.moving = False; self.oneof = False; self.reading = False
        self.msgoff = self.pkoff = self.cuoff = None
        self.levels = 2
        self.ip.contracts.clear(); self.ip.contracts.update(self.lower)
        name = 'pb_part_' + op
        O = self.l(s, 'O')
        if op == 'create':
            h = W.struct(s, 'H', 'pb_message_t')
            W.put(s, h, 'pb_message_t', 'descriptor', ('p', 'D', ZERO))
            t = l = ZERO
            if depth == 1: t, l = self.l(s, 'F1.tg') - O, self.l(s, 'F1.lp') - O
            elif depth == 'deep':
                t, l = fresh('Mt', -LIMIT, 0), fresh('Ml', -LIMIT, 0)
                og = fresh('Mo', -LIMIT, 0)
                for q in (-l - 1, l - t - 1, t - og, O + og - self.l(s, 'F2.cs')): s.st.ge0(q)
            if depth == 1: og = -O
            if depth == 0: og = ZERO
            self.partof(s, h, 'pb_message_t', 'part.', O, self.l(s, 'Me'), og, t, l)
            W.struct(s, 'RET', 'pb_part_t')
            args = [h, I(32, self.get(s, ('p', 'F0', ZERO), 'pb_field_descriptor_t', 'tag', 4)[2])]
        else:
            h = W.struct(s, 'H', 'pb_part_t')
            c = self.l(s, 'P.cs')
            if kind == 'root': self.partof(s, h, 'pb_part_t', '', ZERO, self.n0, ZERO, ZERO, ZERO)
            else: self.partof(s, h, 'pb_part_t', '', c, self.l(s, 'P.ce'), O - c, self.l(s, 'P.tg') - c if self.tagged else ZERO, self.l(s, 'P.lp') - c if kind == 'length' else ZERO)
            args = [h]
            if op == 'write':
                n = fresh('n', 1, LIMIT)
                args += [W.bytes(s, 'SB', n), I(64, n)]
        for z, v in self.run(name, s, args):
            if op == 'create':
                if v is not None and v[0] == 'a':
                    for i, x in enumerate(v[1]): z.wobj('RET').cells[8 * i] = (8, x)
                ver = self.get(z, ('p', 'RET', ZERO), 'pb_part_t', 'version')
                mk = self.marked(z, ver)
                r = [(z, mk)] if mk is not None else self.halves(z, ver)
            else: r = [(y, x is not None) for y, x in self.err(z, v)]
            for y, failed in r:
                if failed: continue
                self.cov['judged'] += 1
                for x in self.chain(y):
                    if x not in self.prefixed: continue
                    if not y.st.entails_eq(self.l(y, x + '.pv') - self.l(y, x + '.ce') + self.l(y, x + '.cs')) and y.st.sat():
                        self.rep(y, 'C18', 'reports success although the length prefix of %s does not hold its size' % {'F1': 'a message around the part', 'F2': 'a message around the part', 'K': 'the packed field around the value', 'P': 'the field'}[x])
                    else: self.cov['held'] += 1
                if 'deep' in self.world_ and not self.g(y, 'rec') and not y.st.entails_eq(self.size(y) - self.n0):
                    self.rep(y, 'C18', 'reports success although the messages inside of a message around the part were not adjusted')
                if op == 'clear' and kind == 'value' and depth != 'deep' and self.g(y, 'K.on') and y.st.entails_eq(self.l(y, 'K.ce') - self.l(y, 'K.cs')) and False: pass

    CASES = [('write', k, d) for k in ('scalar', 'length', 'value') for d in (0, 1, 'deep')] + [('write', 'root', 0), ('clear', 'root', 0)] + \
            [('clear', k, d) for k in ('scalar', 'length', 'value') for d in (0, 1, 'deep')] + [('create', k, d) for k in ('scalar', 'length', 'packed') for d in (0, 1, 'deep')]

    def cases(self, only=None):
        for c in self.CASES:
            if only and c not in only: continue
            self.one(*c)
            self.cov['operations'] += 1


if __name__ == '__main__':
    m = ir.load(inline_tu=True)
    a = sys.argv[1:]
    for c in PrefixSpec.CASES:
        if a and '%s.%s.%s' % c not in a and c[0] not in a: continue
        t0 = time.time()
        d = PrefixSpec(m)
        try: d.cases([c])
        except AnalysisBroken as e: print('BROKEN', e)
        print(c, round(time.time() - t0, 2), {k: v for k, v in d.cov.items() if v}, flush=True)
        for f in d.ip.findings:
            print('   ', str(f)[:300])
            if __import__('os').environ.get('V'): print(f.trace[-int(__import__('os').environ['V']):])
