"""Analysis of pb_cursor_next over arbitrary message bytes, from every valid
cursor: a specification automaton of the wire format runs along with the
abstract states and is compared with where the cursor ends up.  Handles that
are not up to date have arbitrary offsets until pb_journal_align gives them
current ones, so that using them earlier is an access nobody can justify."""
from mem import *
from dec import CLASS, KINDS, loops_domof

MARK = 1 << 63


class CursorSpec(MemSpec):
    RULES = ('C32', 'C19')

    def __init__(self, mod, budget=600):
        MemSpec.__init__(self, mod, budget)
        W = self.W
        self.cov = dict(worlds=0, results=0, tags=0, lengths=0, scans=0, lookups=0, aligned=0, stopped=0, stopped_packed=0, ended=0, failed=0, fields_skipped=0)
        base = W.varints(on_unpack=self.on_unpack, on_scan=self.on_scan)
        self.con.update(base)
        self.con['pb_varint_unpack_uint32'] = self.multi(base['pb_varint_unpack_uint32'])

        def lookup(ip, s, args, ins):
            out = []
            if self.T is not None and ip.toint(s, args[1], 32)[0][0] is s:
                # the lookup of the tag the cursor looks for
                t = s.nv(args[1])
                if t[0] == 'i' and s.st.entails_eq(t[2] - self.T):
                    d = 'F' in s.objs
                    self.on_lookup(ip, s, s.nv(args[0]), t[2], True if d else None, ins)
                    return [(s, ('p', 'F', ZERO) if d else NULL)]
            for s1, d in ip.deref(s, args[0], 'read', ins):
                for s2, t in ip.toint(s1, args[1], 32):
                    for s3, t in ip.canon(s2, t, 32):
                        z = s3.clone()
                        self.on_lookup(ip, z, d, t, None, ins)
                        out.append((z, NULL))
                        self.retire(s3)
                        o = Obj('G', C(W.field.size), ('init', W.field, 'G'))
                        o.writable = False
                        s3.add(o)
                        for k, l in (('tag', t), ('type', fresh('type', 1, 17)), ('label', fresh('label', 1, 4))): o.cells[W.off('pb_field_descriptor_t', k)] = (4, I(32, l))
                        for y in self.byclass(s3, o):
                            self.on_lookup(ip, y, d, t, True, ins)
                            out.append((y, ('p', 'G', ZERO)))
            return out
        self.con['pb_descriptor_field_by_tag'] = lookup
        if 'pb_journal_align' not in mod.funcs: raise AnalysisBroken('pb_journal_align is missing')
        self.con['pb_journal_align'] = self.align
        self.ip.contracts.update(self.con)
        self.ip.partghosts = {'st', 'ph', 'rf', 'lk', 'al', 'wt', 'es'}
        self.ip.headhook = self.headhook
        self.types = sorted(W.types)
        self.cls = {t: CLASS[W.tname[t]] for t in W.types}

    g = staticmethod(lambda s, k: s.st.norm(s.ghost[k][2]) if k in s.ghost else ZERO)

    @staticmethod
    def set(s, **kw):
        for k, v in kw.items(): s.ghost[k] = I(64, v if isinstance(v, Lin) else C(v))

    # ghosts: st 0 between fields (front), 1 the tag was read, 2 in a packed
    # field (cur, pend), 3 a field was read completely (lt tag, tend after the
    # tag, ls content, le end); rf a read failed; lk 1 known / 2 unknown tag
    def front(self, s, at):
        self.set(s, st=0, front=at, lt=0, tend=0, ls=0, le=0, wt=0, tag=0, lk=0, cur=0, pend=0, es=0, ee=0)

    def headhook(self, s):
        if 'st' not in s.ghost: return
        st = self.g(s, 'st').const()
        if st == 3:
            j = self.skippable(s)
            if j: self.cov['fields_skipped'] += 1; self.front(s, self.g(s, 'le'))
            elif j is None and self.ispacked(s): self.enter(s)
        elif st == 2 and s.st.entails_eq(self.g(s, 'cur') - self.g(s, 'pend')): self.front(s, self.g(s, 'pend'))

    def enter(self, s):
        self.set(s, st=2, cur=self.g(s, 'ls'), pend=self.g(s, 'le'), es=0, ee=0)

    def fields(self, s):
        """descriptor objects the cursor may stop at: (object, tag)"""
        out = []
        for o in s.objs.values():
            if o.base[0] == 'init' and o.base[1] is self.W.field: out.append(o)
        return out

    def attr(self, s, o, k):
        return s.st.norm(self.ip.init_value(s, o, C(self.W.off('pb_field_descriptor_t', k)), 4, 'i')[2]) if not o.cells.get(self.W.off('pb_field_descriptor_t', k)) else s.st.norm(s.nv(o.cells[self.W.off('pb_field_descriptor_t', k)][1])[2])

    def matched(self, s):
        """does the field read last match: True, False, None"""
        tag = self.g(s, 'tag')
        if self.T is not None:
            if s.st.entails_eq(tag - self.T): return True
            if s.st.entails_ne(tag - self.T): return False
            return None
        lk = self.g(s, 'lk').const()
        if lk == 1: return True
        if lk == 2: return False
        for o in self.fields(s):
            if s.st.entails_eq(tag - self.attr(s, o, 'tag')): return True
        return None

    def desc(self, s):
        """the descriptor of the field read last"""
        tag = self.g(s, 'tag')
        for o in self.fields(s):
            if s.st.entails_eq(tag - self.attr(s, o, 'tag')): return o
        return None

    def skippable(self, s):
        """may the field read last be passed over? True/None"""
        m = self.matched(s)
        if m is False: return True
        if self.T is not None and m and self.nodesc: return True
        if s.st.entails_eq(self.g(s, 'le') - self.g(s, 'ls')) and self.ispacked(s): return True
        return None

    def classes(self, s, o):
        d = loops_domof(s, self.attr(s, o, 'type'))
        return {self.cls[t] for t in d} if d is not None else set(self.cls.values())

    def retire(self, s):
        """the field looked up last becomes the older one"""
        if 'G' not in s.objs: return
        n = 0

        def go(v):
            nonlocal n
            if v[0] == 'p' and v[1] == 'G': n += 1; return ('p', 'F', v[2])
            if v[0] == 'a': return ('a', [go(x) for x in v[1]])
            return v
        for oid in list(s.objs):
            o = s.objs[oid]
            if any(v[0] in 'pa' and 'G' in repr(v) for _, v in o.cells.values()):
                o = s.wobj(oid)
                o.cells = {k: (w, go(v)) for k, (w, v) in o.cells.items()}
        s.env = {r: go(v) for r, v in s.env.items()}
        if n:
            g = s.objs['G']
            f = Obj('F', g.size, ('init', self.W.field, 'F')); f.writable = False
            f.cells = dict(g.cells)
            s.objs.pop('F', None); s.add(f)
        s.objs.pop('G')

    def byclass(self, s, o):
        """partition by whether the type of a field has a length prefix"""
        out = []
        for b in (True, False):
            z = s.clone()
            z.st.restrict(self.attr(z, z.objs[o.id], 'type'), frozenset(t for t in self.types if (self.cls[t] == 2) == b))
            if not z.st.bot and z.st.sat(): out.append(z)
        return out

    def ispacked(self, s):
        """is the field read last (with a length prefix) certainly a packed field"""
        o = self.desc(s)
        return self.g(s, 'wt').const() == 2 and o is not None and 2 not in self.classes(s, o)

    # ------------------------------------------------------------ contracts
    def multi(self, inner):
        def c(ip, s, args, ins):
            self.buf = {}
            r = inner(ip, s, args, ins)
            out = []
            for z, v in r:
                for y in self.buf.get(id(z), [z]): out.append((y, v))
            return out
        return c

    def nextfield(self, ip, s, o, ins):
        """a tag is read at o: everything before has to be accounted for"""
        st = self.g(s, 'st').const()
        if st == 0: want = self.g(s, 'front')
        elif st == 3:
            want = self.g(s, 'le')
            self.cov['fields_skipped'] += 1
            if not self.skippable(s): self.say(s, 'C32', 'a field the cursor should stop at is passed over', ins)
        elif st == 2:
            want = self.g(s, 'pend')
            if not s.st.entails_eq(self.g(s, 'cur') - want): self.say(s, 'C32', 'values of a packed field are passed over', ins)
        else:
            self.say(s, 'C32', 'the next field is read before the current one was read to its end', ins); return False
        if not s.st.entails_eq(o - want):
            self.say(s, 'C32', 'the next field is not read where the previous one ends', ins); return False
        return True

    def say(self, s, rule, msg, ins=None):
        if ins is None: self.ip.report(s, rule, '%s: %s' % (self.fn, msg), loc=self.loc)
        else: self.ip.report(s, rule, msg, ins)

    def bound(self, ip, s, o, left, ins):
        lim = self.me
        if self.g(s, 'st').const() == 2 and not s.st.entails_eq(self.g(s, 'cur') - self.g(s, 'pend')): lim = self.g(s, 'pend')
        if not s.st.entails(lim - o - left): self.say(s, 'C32', 'bytes behind the %s are read' % ('packed field' if lim is not self.me else 'message'), ins)

    def on_unpack(self, ip, s, ty, d, left, n, v, out, ins):
        if d[1] != 'B': self.say(s, 'C32', 'a value is read from somewhere else than the message', ins); return
        o = s.st.norm(d[2])
        st = self.g(s, 'st').const()
        if st == 1 and self.g(s, 'wt').const() == 0 and s.st.entails_eq(o - self.g(s, 'tend')) or st == 2 and not s.st.entails_eq(self.g(s, 'cur') - self.g(s, 'pend')) or st == 3 and self.ispacked(s) and s.st.entails_eq(o - self.g(s, 'ls')) and not s.st.entails_eq(o - self.g(s, 'le')):
            return self.value(ip, s, o, left, n, ins)
        self.bound(ip, s, o, left, ins)
        if n is None: self.set(s, rf=1, rl=left); return
        if st == 1:
            # the length of the field
            self.cov['lengths'] += 1
            if ty != 'uint32' or not s.st.entails_eq(o - self.g(s, 'tend')): self.say(s, 'C32', 'the length of a field is not read behind its tag', ins)
            self.set(s, st=3, ls=o + n, le=o + n + v)
            return
        if not self.nextfield(ip, s, o, ins): return
        self.cov['tags'] += 1
        if ty != 'uint32': self.say(s, 'C32', 'a tag is not read as an unsigned number', ins)
        q, r = euclid(s.st, v, 8)
        self.front(s, ZERO)
        self.set(s, st=1, lt=o, tend=o + n, tag=q, wt=r, ph=1)
        outs = []
        rest = s
        for w in (0, 1, 2, 5, None):
            if w is None: z = rest
            else:
                z = (ip.assume_cmp(rest.clone(), 'eq', r, C(w), 32) or [None])[0]
                nx = ip.assume_cmp(rest, 'ne', r, C(w), 32)
                rest = nx[0] if nx else None
            if z is not None and not z.st.bot:
                if w is not None: self.set(z, wt=w)
                else: self.set(z, wt=7, st=6)
                if w in (1, 5): self.set(z, st=3, ls=o + n, le=o + n + (8 if w == 1 else 4))
                outs.append(z)
            if rest is None: break
        self.buf[id(s)] = outs

    def value(self, ip, s, o, left, n, ins):
        """the varint at o belongs to a value"""
        self.cov['scans'] += 1
        st = self.g(s, 'st').const()
        if st == 3: self.enter(s)
        self.bound(ip, s, o, left, ins)
        if n is None: self.set(s, rf=1, rl=left); return
        if self.g(s, 'st').const() == 2:
            if not s.st.entails_eq(o - self.g(s, 'cur')) or not s.st.entails_eq(self.g(s, 'es')):
                self.say(s, 'C32', 'a packed value is not read where the previous one ends', ins)
            self.set(s, es=1, ee=o + n)
            return
        self.set(s, st=3, ls=o, le=o + n)

    def on_scan(self, ip, s, d, left, n, ins):
        if d[1] != 'B': self.say(s, 'C32', 'a value is read from somewhere else than the message', ins); return
        o = s.st.norm(d[2])
        st = self.g(s, 'st').const()
        if not (st == 2 or st == 1 and self.g(s, 'wt').const() == 0 and s.st.entails_eq(o - self.g(s, 'tend')) or st == 3 and self.ispacked(s) and s.st.entails_eq(o - self.g(s, 'ls'))):
            self.say(s, 'C32', 'a varint is skipped that is not the value of a field', ins); return
        self.value(ip, s, o, left, n, ins)

    def on_lookup(self, ip, s, d, tag, fld, ins):
        self.cov['lookups'] += 1
        if d[1] == 'D' and s.st.entails_eq(tag - self.g(s, 'tag')) and self.g(s, 'st').const() in (1, 3, 6): self.set(s, lk=1 if fld is not None else 2)
        elif d[1] != 'D': self.say(s, 'C32', 'a field is looked up in another descriptor than that of the message', ins)

    def align(self, ip, s, args, ins):
        """offsets are brought up to date, or their bytes are gone"""
        W = self.W
        out = []
        self.cov['aligned'] += 1
        for s1, j in ip.deref(s, args[0], 'read', ins):
            if j[1] != 'J': self.say(s1, 'C19', 'a handle is aligned with another journal than its own', ins)
            for s2, vp in ip.deref(s1, args[1], 'write', ins):
                for s3, op in ip.deref(s2, args[2], 'write', ins):
                    off = s3.st.norm(op[2]).const()
                    for y, v in ip.load(s3, vp, 8, 'i', ins):
                        which = self.which(y, op[1], off)
                        if which is None:
                            self.say(y, 'C19', 'something that is no offset of the handle is aligned', ins); continue
                        for z in ip.assume_cmp(y.clone(), 'eq', v[2], self.V, 64):
                            # nothing to do
                            out.append((z, I(32, 0)))
                        for z in ip.assume_cmp(y, 'ne', v[2], self.V, 64):
                            if not z.st.entails(self.V - v[2] - 1) : self.say(z, 'C19', 'a handle is aligned from a version it does not have', ins)
                            if not self.stale(z): self.say(z, 'C19', 'a handle is aligned from a version it does not have', ins)
                            # bytes that are gone leave the point where they were
                            bad = which in self.gone
                            ip.store(z, vp, 8, I(64, self.V + MARK if bad else self.V), ins)
                            if which == 'message' and bad: self.set(z, al=1)
                            for k, l in self.now[which].items(): ip.store(z, ('p', op[1], op[2] + W.off('pb_offset_t', k)), 8, I(64, l), ins)
                            out.append((z, I(32, W.enum('PB_ERROR_INVALID') if bad else 0)))
        return out

    def stale(self, s): return self.isstale

    def which(self, s, obj, off):
        """which of the offsets of a cursor (or a copy of it) this is"""
        o = s.objs[obj]
        W = self.W
        for k, m in (('message', 'message.part.offset'), ('offset', 'current.offset'), ('packed', 'current.packed')):
            base = off - W.off('pb_cursor_t', m.split('.')[0])
            # identified by what it holds
            if all(self.holds(s, o, off + W.off('pb_offset_t', f), self.was[k][f]) for f in ('start', 'end')): return k
        return None

    def holds(self, s, o, off, l):
        c = o.cells.get(off)
        if c is not None: return c[0] == 8 and s.nv(c[1])[0] == 'i' and s.st.entails_eq(s.nv(c[1])[2] - l)
        r = self.ip.readobj(s, o, C(off), 8, 'i')
        return len(r) == 1 and r[0][1][0] == 'i' and s.st.entails_eq(r[0][1][2] - l)

    # ------------------------------------------------------------ worlds
    def offsets(self, d):
        return {k: d.get(k, ZERO) for k in ('start', 'end', 'diff.origin', 'diff.tag', 'diff.length')}

    def world(self, tagged, desc, packed, stale, empty=False, gone=()):
        self.gone = gone
        W = self.W
        S.cons.clear()
        s = State()
        bs = self.bs = ZERO if empty else fresh('size', 1, MAXSIZE)
        W.obj(s, 'D', W.desc, writable=False)
        ms, me = (ZERO, ZERO) if empty else (fresh('ms', 0, MAXSIZE), fresh('me', 0, MAXSIZE))
        s.st.ge0(me - ms); s.st.ge0(bs - me)
        self.ms, self.me = ms, me
        j = W.struct(s, 'J', 'pb_journal_t')
        self.ip.globalobj(s, 'allocator_default')
        W.put(s, j, 'pb_journal_t', 'buffer.allocator', ('p', 'allocator_default', ZERO))
        W.put(s, j, 'pb_journal_t', 'buffer.data', NULL if empty else W.bytes(s, 'B', bs))
        W.put(s, j, 'pb_journal_t', 'buffer.size', I(64, bs))
        W.put(s, j, 'pb_journal_t', 'entry.data', ('x',))
        self.V = fresh('version', 1, MAXSIZE // 32)
        W.put(s, j, 'pb_journal_t', 'entry.size', I(64, self.V))
        s.wobj('J').writable = False
        # where the cursor stands
        self.T = fresh('tag', 1, (1 << 29) - 1) if tagged else None
        self.nodesc = not desc
        F = NULL
        if desc:
            F = W.obj(s, 'F', W.field, writable=False)
            ft = self.attr(s, s.objs['F'], 'tag')
            if tagged: s.st.eq0(ft - self.T)
            # the lookup of that tag gives the same field
            if packed:
                s.st.restrict(self.attr(s, s.objs['F'], 'type'), frozenset(t for t in self.types if self.cls[t] != 2))
        at = ms if empty else fresh('at', 0, MAXSIZE)
        b = ms if empty else fresh('from', 0, MAXSIZE)
        s.st.ge0(b - ms); s.st.ge0(at - b); s.st.ge0(me - at)
        self.now = dict(message=self.offsets(dict(start=ms, end=me, **{'diff.origin': fresh('mo', -MAXSIZE, 0), 'diff.tag': fresh('mt', -MAXSIZE, 0), 'diff.length': fresh('ml', -MAXSIZE, 0)})))
        anything = lambda: {k: fresh('gone', 0, U64 - 1) for k in ('start', 'end', 'diff.origin', 'diff.tag', 'diff.length')}
        if packed and 'packed' in gone:
            for k in ('packed', 'offset'): self.now[k] = anything(); self.now[k]['end'] = at
            s.st.ge0(at - 1)        # a point at 0 is no packed position any more
        elif packed and 'offset' in gone:
            ps, pe = fresh('ps', 1, MAXSIZE), fresh('pe', 1, MAXSIZE)
            s.st.ge0(at - ps); s.st.ge0(pe - at); s.st.ge0(me - pe); s.st.ge0(ps - ms)
            self.now['packed'] = self.offsets({'start': ps, 'end': pe, 'diff.origin': ms - ps, 'diff.tag': fresh('pt', -MAXSIZE, -2), 'diff.length': fresh('pl', -MAXSIZE, -1)})
            self.now['offset'] = anything()
            self.now['offset'].update({'start': at, 'end': at, 'diff.origin': ms - at, 'diff.tag': ZERO, 'diff.length': ZERO})
        elif 'offset' in gone:
            self.now['packed'] = anything(); self.now['packed']['end'] = ZERO
            self.now['offset'] = anything(); self.now['offset']['end'] = at
        elif packed:
            ps, pe = fresh('ps', 1, MAXSIZE), fresh('pe', 1, MAXSIZE)
            s.st.ge0(b - ps); s.st.ge0(pe - at); s.st.ge0(me - pe); s.st.ge0(ps - ms)
            pt, pl = fresh('pt', -MAXSIZE, -2), fresh('pl', -MAXSIZE, -1)
            self.now['packed'] = self.offsets({'start': ps, 'end': pe, 'diff.origin': ms - ps, 'diff.tag': pt, 'diff.length': pl})
            self.now['offset'] = self.offsets({'start': b, 'end': at, 'diff.origin': ms - b})
        else:
            self.now['packed'] = self.offsets({})
            self.now['offset'] = self.offsets({'start': b, 'end': at, 'diff.origin': ms - b, 'diff.tag': fresh('ot', -MAXSIZE, 0), 'diff.length': fresh('ol', -MAXSIZE, 0)})
        self.isstale = stale
        if stale:
            self.was = {k: {f: fresh('stale', 0, U64 - 1) for f in d} for k, d in self.now.items()}
            if packed: s.st.ge0(self.was['packed']['end'] - 1)
            else: self.was['packed'] = self.now['packed']
            v = fresh('old', 0, MAXSIZE)
            s.st.ge0(self.V - v - 1)
        else: self.was, v = self.now, self.V
        self.oldv = v
        c = W.struct(s, 'K', 'pb_cursor_t')
        put = lambda k, x, w=8: W.put(s, c, 'pb_cursor_t', k, x, w)
        put('message.descriptor', ('p', 'D', ZERO))
        put('message.part.journal', j); put('message.part.version', I(64, v))
        for k, m in (('message', 'message.part.offset.'), ('offset', 'current.offset.'), ('packed', 'current.packed.')):
            for f, l in self.was[k].items(): put(m + f, I(64, l))
        put('tag', I(32, self.T if tagged else 0), 4)
        put('current.descriptor', F)
        self.pos = fresh('pos', 0, U64 - 1)
        put('pos', I(64, self.pos)); put('error', I(32, 0), 4)
        self.front(s, at)
        self.set(s, rf=0, al=0, ph=0, rl=0)
        if 'message' in gone: self.now['message'] = anything()
        if packed: self.set(s, st=2, cur=at, pend=self.now['packed']['end'])
        self.packed = packed
        return s, c

    def worlds(self):
        for stale in (False, True):
            for tagged in (True, False):
                for desc in (True, False):
                    for packed in (False, True):
                        if packed and not desc: continue
                        yield tagged, desc, packed, stale, False
                        if not stale: continue
                        yield tagged, desc, packed, stale, False, ('offset',)
                        if packed: yield tagged, desc, packed, stale, False, ('packed', 'offset')
                        if tagged: yield tagged, desc, packed, stale, False, ('message', 'packed', 'offset')
        yield True, True, False, False, True

    # ------------------------------------------------------------ checks
    def next(self, worlds=None):
        for w in worlds or self.worlds():
            s, c = self.world(*w)
            for x in self.byclass(s, s.objs['F']) if 'F' in s.objs else [s]:
                for z, v in self.run('pb_cursor_next', x, [c]):
                    for y, r in self.err(z, v): self.verdict(y, c, r is not None)

    CREATE = [(fn, t, g) for fn in ('pb_cursor_create_unsafe', 'pb_cursor_rewind') for t in ((True, True), (True, False), (False, True)) for g in ((False, ()), (True, ()), (True, ('message', 'packed', 'offset')))]

    def create(self, cases=None):
        """the first stop of a new cursor is the first match in the message,
        also when an existing one starts over"""
        W = self.W
        for fn, (tagged, desc), (stale, gone) in cases or self.CREATE:
            s, c = self.world(tagged, desc, False, stale, False, gone)
            if not tagged:
                # the cursor has no descriptor yet
                s.objs.pop('F')
                W.put(s, c, 'pb_cursor_t', 'current.descriptor', NULL)
            self.front(s, self.ms)
            self.pos = C(-1)
            if fn == 'pb_cursor_create_unsafe':
                W.struct(s, 'RET', 'pb_cursor_t')
                args = [('p', 'K', C(W.off('pb_cursor_t', 'message'))), I(32, self.T if tagged else 0)]
                k = ('p', 'RET', ZERO)
            else: args, k = [c], c
            for x in self.byclass(s, s.objs['F']) if 'F' in s.objs else [s]:
                for z, v in self.run(fn, x, args):
                    self.cov['created'] = self.cov.get('created', 0) + 1
                    e = z.nv(self.cur(z, k, 'error', 4))
                    if e[0] != 'i': self.say(z, 'C32', 'the state of the cursor is not known'); continue
                    for y in self.ip.assume_cmp(z.clone(), 'eq', e[2], ZERO, 32): self.verdict(y, k, True)
                    for y in self.ip.assume_cmp(z, 'ne', e[2], ZERO, 32):
                        if gone:
                            if not y.st.entails_eq(e[2] - W.enum('PB_ERROR_INVALID')): self.say(y, 'C32', 'a cursor over a removed message does not fail as invalid')
                        else: self.verdict(y, k, False)

    def cur(self, s, c, k, w=8): return self.get(s, c, 'pb_cursor_t', k, w, 'p' if k.endswith('descriptor') else 'i')

    def verdict(self, s, c, res):
        W = self.W
        rd = lambda k, w=8: s.nv(self.cur(s, c, k, w))
        e = rd('error', 4)
        out = []
        if e[0] != 'i': self.say(s, 'C32', 'the state of the cursor is not known'); return
        if res:
            if not s.st.entails_eq(e[2]): self.say(s, 'C32', 'the cursor moved although it has failed')
            self.moved(s, c, rd); return
        if not s.st.entails_ne(e[2]): self.say(s, 'C32', 'the cursor did not move but neither ended nor failed'); return
        for z in self.ip.assume_cmp(s.clone(), 'eq', e[2], C(W.enum('PB_ERROR_EOM')), 32): self.ended(z, c, True)
        for z in self.ip.assume_cmp(s, 'ne', e[2], C(W.enum('PB_ERROR_EOM')), 32): self.ended(z, c, False)

    def ended(self, s, c, eom):
        self.cov['ended' if eom else 'failed'] += 1
        st = self.g(s, 'st').const()
        broken = self.g(s, 'rf').const() == 1 or self.g(s, 'al').const() == 1 or st == 6
        if st == 3 and s.st.entails(self.g(s, 'le') - self.me - 1): broken = True
        if st == 1 and s.st.entails_eq(self.g(s, 'tend') - self.me): broken = True      # no value behind the last tag
        if st == 2 and not broken and not s.st.entails_eq(self.g(s, 'cur') - self.g(s, 'pend')):
            o = self.desc(s) or s.objs.get('F')
            if o is None:
                d = s.nv(self.cur(s, c, 'current.descriptor'))
                o = s.objs[d[1]] if d[0] == 'p' else None
            for k, w in ((1, 8), (5, 4)):
                if o is not None and self.classes(s, o) == {k} and s.st.entails(self.g(s, 'cur') + w - self.g(s, 'pend') - 1): broken = True
        if st == 3 and not broken and self.ispacked(s):
            o = self.desc(s)
            for c, w in ((1, 8), (5, 4)):
                if self.classes(s, o) == {c} and s.st.entails(self.g(s, 'ls') + w - self.g(s, 'le') - 1): broken = True
        if broken:
            # only the last field may be cut off
            if eom and self.g(s, 'al').const() != 1:
                left = []
                if st == 6: left = [self.me - self.g(s, 'tend') - 1]
                elif st == 2: left = [self.me - self.g(s, 'pend') - 1]
                elif self.g(s, 'rf').const() == 1: left = [self.g(s, 'rl') - 11]
                for l in left:
                    z = s.clone()
                    z.st.ge0(l)
                    if not z.st.bot and z.st.sat(): self.say(z, 'C32', 'bytes that cannot be parsed are reported as the end of the message')
            return
        if not eom: self.say(s, 'C32', 'the cursor fails although the message could be read'); return
        if st == 0: end = self.g(s, 'front')
        elif st == 3:
            end = self.g(s, 'le')
            if not self.skippable(s): self.say(s, 'C32', 'the cursor reports the end although the last field matches'); return
        elif st == 2:
            end = self.g(s, 'cur')
            if not s.st.entails_eq(end - self.g(s, 'pend')): self.say(s, 'C32', 'the cursor reports the end inside a packed field'); return
        else: self.say(s, 'C32', 'the cursor reports the end inside a field'); return
        if not s.st.entails_eq(end - self.me): self.say(s, 'C32', 'the cursor reports the end before the end of the message')

    def moved(self, s, c, rd):
        st = self.g(s, 'st').const()
        if self.g(s, 'rf').const() or self.g(s, 'al').const(): self.say(s, 'C32', 'the cursor moved although a read has failed'); return
        d = rd('current.descriptor')
        if d[0] != 'p': self.say(s, 'C32', 'the cursor stops without a descriptor of the field'); return
        o = s.objs[d[1]]
        pe = rd('current.packed.end')
        if pe[0] != 'i': self.say(s, 'C32', 'the packed state of the cursor is not known'); return
        for z in self.ip.assume_cmp(s.clone(), 'eq', pe[2], ZERO, 64): self.atfield(z, c, o, d)
        for z in self.ip.assume_cmp(s, 'ne', pe[2], ZERO, 64): self.atvalue(z, c, o, d)

    def offs(self, s, c, k, want, msg):
        for f, l in want.items():
            v = self.cur(s, c, 'current.%s.%s' % (k, f))
            v = s.nv(v)
            if v[0] != 'i': self.say(s, 'C32', '%s (%s)' % (msg, f)); return
            x = s.st.norm(v[2] - l)
            if not (s.st.entails_eq(x) or s.st.entails_eq(x - U64) or s.st.entails_eq(x + U64)): self.say(s, 'C32', '%s (%s)' % (msg, f)); return

    def common(self, s, c, o):
        """tag of the descriptor, position"""
        tag = self.attr(s, o, 'tag')
        if self.T is not None and not s.st.entails_eq(tag - self.T): self.say(s, 'C32', 'the cursor stops with the descriptor of another field')
        p = s.nv(self.cur(s, c, 'pos'))
        x = s.st.norm(p[2] - self.pos - 1) if p[0] == 'i' else None
        if x is None or not (s.st.entails_eq(x) or s.st.entails_eq(x + U64)): self.say(s, 'C32', 'the position of the cursor does not count its stops')
        for f, l in self.now['message'].items():
            v = s.nv(self.cur(s, c, 'message.part.offset.' + f))
            if v[0] != 'i' or not any(s.st.entails_eq(v[2] - l + k) for k in (0, U64, -U64)): self.say(s, 'C19', 'the message of the cursor is not up to date after it moved'); break
        v = s.nv(self.cur(s, c, 'message.part.version'))
        if v[0] != 'i' or not s.st.entails_eq(v[2] - self.V): self.say(s, 'C19', 'the version of the cursor is not that of its offsets')

    def atfield(self, s, c, o, d):
        self.cov['stopped'] += 1
        st = self.g(s, 'st').const()
        if st != 3: self.say(s, 'C32', 'the cursor stops although no field was read'); return
        if self.matched(s) is not True or not s.st.entails_eq(self.attr(s, o, 'tag') - self.g(s, 'tag')):
            self.say(s, 'C32', 'the cursor stops at a field it does not look for'); return
        if self.g(s, 'wt').const() == 2 and 2 not in self.classes(s, o): self.say(s, 'C32', 'the cursor stops at a packed field instead of its values')
        ls, le = self.g(s, 'ls'), self.g(s, 'le')
        self.offs(s, c, 'offset', {'start': ls, 'end': le, 'diff.origin': self.ms - ls, 'diff.tag': self.g(s, 'lt') - ls, 'diff.length': self.g(s, 'tend') - ls}, 'the cursor does not denote the field it stopped at')
        if not s.st.entails(self.me - le): self.say(s, 'C32', 'the cursor denotes bytes behind the message')
        self.common(s, c, o)

    def atvalue(self, s, c, o, d):
        self.cov['stopped_packed'] += 1
        st = self.g(s, 'st').const()
        if st == 3:
            if not self.ispacked(s) or self.matched(s) is not True: self.say(s, 'C32', 'the cursor stops at a value of a field it does not look for'); return
            if not s.st.entails_eq(self.attr(s, o, 'tag') - self.g(s, 'tag')): self.say(s, 'C32', 'the cursor stops with the descriptor of another field'); return
            self.enter(s); st = 2
        elif st != 2: self.say(s, 'C32', 'the cursor stops in a packed field although none was read'); return
        cur, pend = self.g(s, 'cur'), self.g(s, 'pend')
        cl = self.classes(s, o)
        if len(cl) != 1:
            for k in sorted(cl):
                z = s.clone()
                z.st.restrict(self.attr(z, z.objs[o.id], 'type'), frozenset(t for t in self.types if self.cls[t] == k))
                if not z.st.bot and z.st.sat(): self.atvalue(z, c, z.objs[o.id], d)
            return
        k = next(iter(cl))
        if k == 0:
            if self.g(s, 'es').const() != 1: self.say(s, 'C32', 'the cursor stops at a packed value it did not read'); return
            end = self.g(s, 'ee')
        elif k == 2: self.say(s, 'C32', 'the cursor takes a value with a length for a packed field'); return
        else: end = cur + (8 if k == 1 else 4)
        self.offs(s, c, 'offset', {'start': cur, 'end': end, 'diff.origin': self.ms - cur, 'diff.tag': ZERO, 'diff.length': ZERO}, 'the cursor does not denote the next packed value')
        if not s.st.entails(pend - end): self.say(s, 'C32', 'the cursor denotes bytes behind the packed field')
        if self.g(s, 'wt').const() == 2 and self.g(s, 'le').t:
            ls = self.g(s, 'ls')
            self.offs(s, c, 'packed', {'start': ls, 'end': self.g(s, 'le'), 'diff.origin': self.ms - ls, 'diff.tag': self.g(s, 'lt') - ls, 'diff.length': self.g(s, 'tend') - ls}, 'the cursor does not remember the packed field it is in')
        else: self.offs(s, c, 'packed', self.now['packed'], 'the cursor does not remember the packed field it is in')
        self.common(s, c, o)


if __name__ == '__main__':
    t = time.time()
    d = CursorSpec(ir.load(inline_tu=True))
    d.create()
    if len(sys.argv) < 2: d.next()
    print(d.cov)
    for f in d.ip.findings:
        print(f)
        if __import__('os').environ.get('V'): print(f.trace[-12:], f.state)
    print(time.time() - t)
