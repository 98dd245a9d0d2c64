"""Failures of internal steps, and handles that are out of date.  Every
operation on parts, fields, messages, cursors and oneofs runs over a journal
that was changed through other handles meanwhile: the offsets of an outdated
handle are arbitrary numbers until alignment gives it current ones, so that a
use of them before is an access nobody can justify (C19).  Every internal step
fails or succeeds; a ghost remembers the failure, and the operation has to
report it (C20)."""
from mem import *
import api, flow

MARK = 1 << 63
OFF = ('start', 'end', 'diff.origin', 'diff.tag', 'diff.length')
HARD, GONE, POINT, READ, PARSE = 1, 2, 3, 4, 5
# what a failure of each kind is called
WHAT = {HARD: 'an internal step failed', GONE: 'the message is gone', POINT: 'the position is gone', READ: 'a value could not be read', PARSE: 'the message cannot be parsed'}


class ErrSpec(MemSpec):
    def __init__(self, mod, budget=600):
        MemSpec.__init__(self, mod, budget)
        W = self.W
        self.cov = dict(worlds=0, results=0, operations=0, failures=0, verdicts=0, aligned=0, changes=0, handles=0, reads=0)
        base = W.varints(on_unpack=self.on_unpack, on_scan=self.on_scan)
        self.con.update(base)
        for f in ('pb_journal_write', 'pb_journal_clear', 'pb_journal_align', 'pb_descriptor_field_by_tag', 'pb_cursor_create_unsafe', 'pb_cursor_create', 'pb_cursor_next', 'pb_part_write', 'pb_part_clear', 'pb_part_create', 'pb_part_create_from_cursor'):
            if f not in mod.funcs: raise AnalysisBroken('%s is missing' % f)
        self.con.update(pb_journal_write=self.c_jwrite, pb_journal_clear=self.c_jclear, pb_journal_align=self.c_align, pb_descriptor_field_by_tag=self.c_lookup)
        self.lower = dict(self.con, pb_cursor_create_unsafe=self.c_create, pb_cursor_create=self.c_create, pb_cursor_next=self.c_next, pb_cursor_erase=self.c_erase)
        self.upper = dict(self.con, pb_cursor_create_unsafe=self.c_create, pb_cursor_create=self.c_create, pb_cursor_next=self.c_next,
                          pb_part_write=self.c_pwrite, pb_part_clear=self.c_pclear, pb_part_create=self.c_pcreate, memcmp=self.c_memcmp)
        self.ip.partghosts = {'fail', 'nb', 'pk', 'cu', 'al', 'sc', 'ch', 'mg'}
        self.ip.mon['ret'] = self.on_ret
        self.ip.onrecursion = self.recursed
        self.ip.hullmax = 18
        self.errfn = {}

    # ------------------------------------------------------------ ghosts
    @staticmethod
    def g(s, k): return s.ghost[k][2].const() if k in s.ghost else 0

    def fail(self, s, k):
        self.cov['failures'] += 1
        if not self.g(s, 'fail'): s.ghost['fail'] = I(8, k)
        return s

    def iserr(self, fn):
        if fn not in self.errfn:
            f = self.m.funcs.get(fn)
            try: self.errfn[fn] = f is not None and f.defined and flow.tyname(self.m, flow.cret(self.m, f)) == 'pb_error_t'
            except Exception: self.errfn[fn] = False
        return self.errfn[fn]

    def on_ret(self, ip, fn, args, res):
        """a function of the library returned an error code of its own"""
        if not ip.depth or not self.iserr(fn): return
        out = []
        for s, v in res:
            if v is None or v[0] not in 'ib' or self.g(s, 'fail'): out.append((s, v)); continue
            for z, l in ip.toint(s, v, 32):
                for x in ip.assume_cmp(z.clone(), 'eq', l, ZERO, 32): out.append((x, I(32, 0)))
                for x in ip.assume_cmp(z, 'ne', l, ZERO, 32):
                    if not x.st.entails_ne(l - self.W.enum('PB_ERROR_EOM')) or x.st.entails_eq(l - self.W.enum('PB_ERROR_INVALID')): out.append((x, I(32, l))); continue
                    out.append((self.fail(x, READ if self.reading else HARD), I(32, l)))
        res[:] = out

    # ------------------------------------------------------------ the journal
    def size(self, s, j='J'): return self.get(s, ('p', j, ZERO), 'pb_journal_t', 'buffer.size')[2]
    def ver(self, s, j='J'): return s.st.norm(self.get(s, ('p', j, ZERO), 'pb_journal_t', 'entry.size')[2])

    def changed(self, s, n, v, direct=True):
        """the message has n bytes now, and v changes are recorded"""
        self.cov['changes'] += 1
        W = self.W
        s.ghost['ch'] = I(8, 1)
        j = ('p', 'J', ZERO)
        if self.moving and not direct:
            b = self.g(s, 'nb')
            W.bytes(s, 'B%d' % b if b else 'B', n)
        elif self.moving:
            # the bytes move: names are used again after the second change
            b = self.g(s, 'nb')
            k = b + 1 if b < 2 else 1
            s.ghost['nb'] = I(8, k)
            nm = 'B%d' % k
            W.bytes(s, nm, n)
            s.wobj('B%d' % b if b else 'B').alive = False
            W.put(s, j, 'pb_journal_t', 'buffer.data', ('p', nm, ZERO))
        W.put(s, j, 'pb_journal_t', 'buffer.size', I(64, n))
        W.put(s, j, 'pb_journal_t', 'entry.size', I(64, v))

    def fresh_off(self, s, n, point=False):
        """offsets of a field, value or message of current bytes"""
        a, e, o, t, l = fresh('start', 0, MAXSIZE), fresh('end', 0, MAXSIZE), fresh('origin', -MAXSIZE, 0), fresh('tag', -MAXSIZE, 0), fresh('length', -MAXSIZE, 0)
        for c in (e - a, n - e, a + o, t - o, l - t): s.st.ge0(c)
        return dict(zip(OFF, (a, e, o, t, l)))

    def setoff(self, s, p, pre, d, ins=None, st='pb_part_t'):
        for k, l in d.items(): self.ip.store(s, ('p', p[1], p[2] + self.W.off(st, pre + k)), 8, I(64, l), ins)

    def inrange(self, s, vals, n):
        """0 <= start <= end <= n, and what lies before it"""
        a, e, o, t, l = (vals[k] for k in OFF)
        if any(x[0] != 'i' for x in (a, e, o, t, l)): return False
        a, e = a[2], e[2]
        st = s.st
        return st.entails(a) and st.entails(e - a) and st.entails(n - e) and all(self.before(s, a, x[2], n) for x in (o, t, l))

    def before(self, s, a, d, n):
        """0 <= a + d <= n (modulo 2^64)"""
        for k in (0, 1 << 64):
            if s.st.entails(a + d - k) and (s.st.entails(-d + k) or s.st.entails(n - a - d + k)): return True
        return False

    def isj(self, s, v, ins, what):
        if s.nv(v) == ('p', 'J', ZERO): return True
        self.ip.report(s, 'C19', '%s: %s of something that is not the journal' % (self.fn, what), ins)
        return False

    def change(self, ip, s, args, ins, clear):
        out = []
        W = self.W
        what = 'clears bytes' if clear else 'writes bytes'
        if not self.isj(s, args[0], ins, what): return []
        n = self.size(s)
        vals = [(s, ())]
        for a in args[1:4] + ([] if clear else [args[5]]):
            vals = [(y, ls + (l2,)) for x, ls in vals for y, l in ip.toint(x, a, 64) for y, l2 in ip.canon(y, l, 64)]
        for z, ls in vals:
            o, a, e = ls[:3]
            if not (z.st.entails(o) and z.st.entails(n - o) and z.st.entails(a) and z.st.entails(e - a) and z.st.entails(n - e)):
                ip.report(z, 'C19', '%s: %s at offsets that are not known to be up to date' % (self.fn, what), ins)
            k = ZERO if clear else ls[3]
            f = z.clone()
            out.append((self.fail(f, HARD), I(32, W.enum('PB_ERROR_ALLOC'))))
            # what follows a successful change is the same as without oneofs
            if self.oneof: continue
            d = k - e + a
            v = self.ver(z)
            for rel in ('eq', 'ne'):
                for y in ip.assume_cmp(z.clone(), rel, d, ZERO, 64):
                    if rel == 'eq': out.append((y, I(32, 0))); continue
                    m = y.st.norm(n + d)
                    y.st.ge0(-m + MAXSIZE)
                    if y.st.bot or not y.st.sat(): continue
                    self.changed(y, m, v + 1)
                    out.append((y, I(32, 0)))
        return out

    def c_jwrite(self, ip, s, args, ins):
        out = []
        for s1, n in ip.toint(s, args[5], 64):
            for s2, n in ip.canon(s1, n, 64):
                for s3, d in ip.deref(s2, args[4], 'read', ins):
                    if not s3.st.entails_eq(n) and not ip.check(s3, d, n, 'read', ins): continue
                    out += self.change(ip, s3, args, ins, False)
        return out

    def c_jclear(self, ip, s, args, ins): return self.change(ip, s, args, ins, True)

    def c_align(self, ip, s, args, ins):
        """the position is brought up to date, or its bytes are gone"""
        out = []
        j = s.nv(args[0])
        j = j[1] if j[0] == 'p' and j[1] in ('J', 'SJ') else 'J'
        if j == 'J' and not self.isj(s, args[0], ins, 'alignment'): return []
        for s1, v in ip.deref(s, args[1], 'write', ins):
            for s2, o in ip.deref(s1, args[2], 'write', ins):
                self.cov['aligned'] += 1
                V, n = self.ver(s2, j), self.size(s2, j)
                # a packed field is gone together with the values in it
                me, other = ('pk', 'cu') if self.isat(o, self.pkoff) else ('cu', 'pk') if self.isat(o, self.cuoff) else (None, None)
                how = (self.g(s2, other) if me else 0) if self.packed else 0
                msg = self.moving and self.message(s2, o)
                if msg: how = how or self.g(s2, 'mg')
                f = s2.clone()
                if msg: f.ghost['mg'] = I(8, 1); s2.ghost['mg'] = I(8, 2)
                if me: f.ghost[me] = I(8, 1); s2.ghost[me] = I(8, 2)
                for k, l in self.fresh_off(f, n, True).items(): ip.store(f, ('p', o[1], o[2] + self.W.off('pb_offset_t', k)), 8, I(64, l), ins)
                ip.store(f, v, 8, I(64, V + MARK), ins)
                if how != 2: out.append((f if me == 'pk' else self.fail(f, GONE if self.ismsg(o) else POINT), I(32, self.W.enum('PB_ERROR_INVALID'))))
                if how == 1: continue
                for k, l in self.fresh_off(s2, n).items(): ip.store(s2, ('p', o[1], o[2] + self.W.off('pb_offset_t', k)), 8, I(64, l), ins)
                ip.store(s2, v, 8, I(64, V), ins)
                if self.ismsg(o): s2.ghost['al'] = I(8, 1)
                out.append((s2, I(32, 0)))
        return out

    def message(self, s, o):
        """is this the position of a message? (there is one in the lower worlds)"""
        if self.ismsg(o): return True
        z = s.objs[o[1]].size
        return any(z == C(self.W.size(t)) and o[2] == C(self.W.off(t, m)) for t, m in (('pb_cursor_t', 'message.part.offset'), ('pb_message_t', 'part.offset')))

    def isat(self, o, off): return o[1] == 'H' and off is not None and o[2].const() == off

    def ismsg(self, o):
        """is this the position of the message the user works on?"""
        return o[1] == 'H' and self.msgoff is not None and o[2].const() == self.msgoff

    def recursed(self, ip, s, f, args):
        """by induction over the nesting of messages: the call of a function
        within itself reports its failures; the message changed"""
        if sum(1 for fr in s.frames if fr[0] == f.name) < self.levels: return args
        types = [flow.tyname(self.m, t) for _, t in flow.cparams(self.m, f)]
        if len(types) != len(args): raise AnalysisBroken('parameters of %s are not known' % f.name)
        if not self.iserr(f.name): raise AnalysisBroken('recursion in %s, which reports no errors' % f.name)
        def effects(z, ok, more=False):
            if more: self.newver(z)
            for t, a in zip(types, args):
                a = z.nv(a)
                if a[0] != 'p' or z.objs[a[1]].base[0] == 'global': continue
                if t == 'pb_part_t*':
                    if not ok: self.put(z, a, 'pb_part_t', 'version', I(64, self.ver(z) + MARK), None)
                elif t in ('pb_stream_t*', 'pb_stream_t'):
                    self.put(z, a, 'pb_stream_t', 'offset', I(64, fresh('offset', 0, MAXSIZE)), None)
                elif t in ('ptrdiff_t*', 'size_t*', 'long*'): ip.store(z, a, 8, I(64, fresh('delta', -MAXSIZE, MAXSIZE)), None)
                elif '*' in t: raise AnalysisBroken('effect of %s on a %s is not known' % (f.name, t))
            return z
        bad = self.fail(effects(s.clone(), False), HARD)
        return 'results', [(bad, I(32, self.W.enum('PB_ERROR_ALLOC'))), (effects(s.clone(), True), I(32, 0)), (effects(s, True, True), I(32, 0))]

    # ------------------------------------------------------------ reading
    def on_unpack(self, ip, s, ty, d, left, n, v, out, ins):
        self.cov['reads'] += 1
        if n is None: self.fail(s, READ if self.reading else HARD)

    def on_scan(self, ip, s, d, left, n, ins):
        self.cov['reads'] += 1
        if n is None: self.fail(s, READ if self.reading else HARD)

    def c_memcmp(self, ip, s, args, ins):
        return [(s.clone(), I(32, 0)), (s, I(32, fresh('memcmp', -(1 << 31), (1 << 31) - 1)))]

    def c_lookup(self, ip, s, args, ins):
        out = []
        for s1, t in ip.toint(s, args[1], 32):
            for f in self.fields:
                x = self.get(s1, ('p', f, ZERO), 'pb_field_descriptor_t', 'tag', 4)[2]
                out += [(z, ('p', f, ZERO)) for z in ip.assume_cmp(s1.clone(), 'eq', t, x, 32)]
        return out

    # ------------------------------------------------------------ handles inside the library
    def rd(self, s, p, st, mem, w=8, want=None):
        v = self.get(s, p, st, mem, w, want)
        return v

    def put(self, s, p, st, mem, v, ins, w=8): self.ip.store(s, ('p', p[1], p[2] + self.W.off(st, mem)), w, v, ins)

    def aligning(self, s, p, st, pre, ins, mk=None):
        """[(state, 'bad' handle is invalid | 'gone' | 'ok')] of bringing a part up to date"""
        V = self.ver(s)
        v = self.rd(s, p, st, pre + 'version')
        if mk is None: mk = self.marked(s, v)
        if mk is None:
            out = []
            for z, b in self.halves(s, v): out += self.aligning(z, p, st, pre, ins, b)
            return out
        if mk: return [(s, 'bad')]
        if not self.isj(s, self.rd(s, p, st, pre + 'journal', 8, 'p'), ins, 'use of a handle'): return []
        if s.st.entails_eq(v[2] - V):
            self.valid(s, p, st, pre, ins, 'uses a handle')
            return [(s, 'ok')]
        out = []
        mg = self.g(s, 'mg') if self.moving and st in ('pb_cursor_t', 'pb_message_t') else 0
        f = s.clone()
        if self.moving and st in ('pb_cursor_t', 'pb_message_t'): f.ghost['mg'] = I(8, 1); s.ghost['mg'] = I(8, 2)
        self.setoff(f, p, pre + 'offset.', self.fresh_off(f, self.size(f), True), ins, st)
        self.put(f, p, st, pre + 'version', I(64, V + MARK), ins)
        if mg != 2: out.append((self.fail(f, GONE if self.ismsg(('p', p[1], p[2] + self.W.off(st, pre + 'offset'))) else POINT), 'gone'))
        if mg == 1: return out
        self.setoff(s, p, pre + 'offset.', self.fresh_off(s, self.size(s)), ins, st)
        self.put(s, p, st, pre + 'version', I(64, V), ins)
        if self.ismsg(('p', p[1], p[2] + self.W.off(st, pre + 'offset'))): s.ghost['al'] = I(8, 1)
        out.append((s, 'ok'))
        return out

    def halves(self, s, v):
        if v[0] != 'i': raise AnalysisBroken('version of a handle is not known')
        a, b = self.split(s, v[2] - MARK), self.split(s, -v[2] + MARK - 1)
        return [(x, m) for x, m in ((a, True), (b, False)) if x is not None]

    def valid(self, s, p, st, pre, ins, what):
        """a handle that claims to be up to date"""
        self.cov['handles'] += 1
        vals = {k: self.rd(s, p, st, pre + 'offset.' + k) for k in OFF}
        if not self.inrange(s, vals, self.size(s)) and s.st.sat():
            msg = '%s: %s with offsets that are not up to date although it counts as up to date' % (self.fn, what)
            if ins is not None: self.ip.report(s, 'C19', msg, ins)
            else: self.ip.report(s, 'C19', msg, loc=self.loc)

    def newver(self, s):
        """some changes later"""
        v = fresh('version', 0, 1 << 60)
        s.st.ge0(v - self.ver(s) - 1)
        n = fresh('size', 0, MAXSIZE)
        self.changed(s, n, v, False)
        return v, n

    def c_create(self, ip, s, args, ins):
        """a cursor at the start of a message: at a field, at the end, or broken"""
        W = self.W
        out = []
        for s1, c in ip.deref(s, args[0], 'write', ins):
            for s2, m in ip.deref(s1, args[1], 'write', ins):
                for s3, how in self.aligning(s2, m, 'pb_message_t', 'part.', ins):
                    if how != 'ok':
                        self.put(s3, c, 'pb_cursor_t', 'message.descriptor', NULL, ins)
                        self.put(s3, c, 'pb_cursor_t', 'message.part.journal', NULL, ins)
                        self.put(s3, c, 'pb_cursor_t', 'message.part.version', I(64, MARK), ins)
                        self.put(s3, c, 'pb_cursor_t', 'error', I(32, W.enum('PB_ERROR_INVALID')), ins, 4)
                        for k in ('pos', 'current.descriptor'): self.put(s3, c, 'pb_cursor_t', k, NULL if 'desc' in k else I(64, 0), ins)
                        self.put(s3, c, 'pb_cursor_t', 'tag', I(32, 0), ins, 4)
                        for q in ('current.offset.', 'current.packed.'): self.setoff(s3, c, q, {k: ZERO for k in OFF}, ins, 'pb_cursor_t')
                        if how == 'gone' and self.g(s3, 'fail') == POINT: s3.ghost['fail'] = I(8, GONE)
                        out.append((s3, None)); continue
                    # reading again from the start counts
                    if self.g(s3, 'fail') == PARSE: s3.ghost['fail'] = I(8, 0)
                    for s4, t in ip.toint(s3, args[2], 32):
                        for k in ('descriptor', 'part.journal'): self.put(s4, c, 'pb_cursor_t', 'message.' + k, self.rd(s4, m, 'pb_message_t', k, 8, 'p'), ins)
                        for k in ('part.version',) + tuple('part.offset.' + x for x in OFF): self.put(s4, c, 'pb_cursor_t', 'message.' + k, self.rd(s4, m, 'pb_message_t', k), ins)
                        self.put(s4, c, 'pb_cursor_t', 'tag', I(32, t), ins, 4)
                        out += [(y, None) for y, _ in self.move(s4, c, ins)]
        return out

    def move(self, s, c, ins):
        W = self.W
        n = self.size(s)
        out = []
        for f in self.fields:
            z = s.clone()
            self.setoff(z, c, 'current.offset.', self.fresh_off(z, n), ins, 'pb_cursor_t')
            if self.packed:
                self.setoff(z, c, 'current.packed.', self.fresh_off(z, n), ins, 'pb_cursor_t')
            else: self.setoff(z, c, 'current.packed.', {k: ZERO for k in OFF}, ins, 'pb_cursor_t')
            self.put(z, c, 'pb_cursor_t', 'current.descriptor', ('p', f, ZERO), ins)
            self.put(z, c, 'pb_cursor_t', 'pos', I(64, fresh('pos', 0, MAXSIZE)), ins)
            self.put(z, c, 'pb_cursor_t', 'error', I(32, 0), ins, 4)
            out.append((z, 1))
        for e in ('PB_ERROR_EOM', 'PB_ERROR_VARINT'):
            # a message that was read to the end can be read again
            if e != 'PB_ERROR_EOM' and self.g(s, 'sc'): continue
            z = s.clone()
            if self.moving and e == 'PB_ERROR_EOM': z.ghost['sc'] = I(8, 1)
            self.setoff(z, c, 'current.offset.', self.fresh_off(z, n), ins, 'pb_cursor_t')
            self.setoff(z, c, 'current.packed.', {k: ZERO for k in OFF}, ins, 'pb_cursor_t')
            self.put(z, c, 'pb_cursor_t', 'current.descriptor', ('p', self.fields[0], ZERO), ins)
            self.put(z, c, 'pb_cursor_t', 'pos', I(64, fresh('pos', 0, MAXSIZE)), ins)
            self.put(z, c, 'pb_cursor_t', 'error', I(32, W.enum(e)), ins, 4)
            if e != 'PB_ERROR_EOM': self.fail(z, PARSE)
            out.append((z, 0))
        return out

    def c_next(self, ip, s, args, ins):
        out = []
        W = self.W
        for s1, c in ip.deref(s, args[0], 'write', ins):
            e = self.rd(s1, c, 'pb_cursor_t', 'error', 4)
            for z in ip.assume_cmp(s1.clone(), 'ne', e[2], ZERO, 32): out.append((z, I(32, 0)))
            for z in ip.assume_cmp(s1, 'eq', e[2], ZERO, 32):
                for y, how in self.aligning(z, c, 'pb_cursor_t', 'message.part.', ins):
                    if how != 'ok':
                        self.put(y, c, 'pb_cursor_t', 'error', I(32, W.enum('PB_ERROR_INVALID')), ins, 4)
                        if how == 'gone' and self.g(y, 'fail') == POINT: y.ghost['fail'] = I(8, GONE)
                        out.append((y, I(32, 0)))
                    else: out += [(x, I(32, k)) for x, k in self.move(y, c, ins)]
        return out

    def c_erase(self, ip, s, args, ins):
        """the field of a cursor is erased; it has to be brought up to date"""
        out = []
        W = self.W
        for s1, c in ip.deref(s, args[0], 'write', ins):
            e = self.rd(s1, c, 'pb_cursor_t', 'error', 4)
            for z in ip.assume_cmp(s1.clone(), 'ne', e[2], ZERO, 32): out.append((z, I(32, W.enum('PB_ERROR_INVALID'))))
            for z in ip.assume_cmp(s1, 'eq', e[2], ZERO, 32):
                for y, how in self.aligning(z, c, 'pb_cursor_t', 'message.part.', ins):
                    if how != 'ok': out.append((y, I(32, W.enum('PB_ERROR_INVALID')))); continue
                    out.append((self.fail(y.clone(), HARD), I(32, W.enum('PB_ERROR_ALLOC'))))
                    self.newver(y)
                    out.append((y, I(32, 0)))
        return out

    # ------------------------------------------------------------ parts, for the layers above
    def c_pwrite(self, ip, s, args, ins):
        out = []
        W = self.W
        for s1, p in ip.deref(s, args[0], 'write', ins):
            for s2, n in ip.toint(s1, args[2], 64):
                for s3, n in ip.canon(s2, n, 64):
                    for s4, how in self.aligning(s3, p, 'pb_part_t', '', ins):
                        if how != 'ok': out.append((s4, I(32, W.enum('PB_ERROR_INVALID')))); continue
                        for s5 in (ip.assume_cmp(s4.clone(), 'ne', n, ZERO, 64)):
                            for z, d in ip.deref(s5, args[1], 'read', ins): ip.check(z, d, n, 'read', ins)
                        out.append((self.fail(s4.clone(), HARD), I(32, W.enum('PB_ERROR_ALLOC'))))
                        v, m = self.newver(s4)
                        self.setoff(s4, p, 'offset.', self.fresh_off(s4, m), ins)
                        self.put(s4, p, 'pb_part_t', 'version', I(64, v), ins)
                        out.append((s4, I(32, 0)))
        return out

    def c_pclear(self, ip, s, args, ins):
        out = []
        W = self.W
        for s1, p in ip.deref(s, args[0], 'write', ins):
            for s4, how in self.aligning(s1, p, 'pb_part_t', '', ins):
                if how != 'ok': out.append((s4, I(32, W.enum('PB_ERROR_INVALID')))); continue
                out.append((self.fail(s4.clone(), HARD), I(32, W.enum('PB_ERROR_ALLOC'))))
                v, m = self.newver(s4)
                self.setoff(s4, p, 'offset.', self.fresh_off(s4, m), ins)
                self.put(s4, p, 'pb_part_t', 'version', I(64, v + MARK), ins)
                out.append((s4, I(32, 0)))
        return out

    def c_mput(self, ip, s, args, ins):
        """the value of the user is of the type of the first field"""
        c = ip.contracts.pop('pb_message_put')
        out = []
        for s1, t in ip.toint(s, args[1], 32):
            x = self.get(s1, ('p', self.fields[0], ZERO), 'pb_field_descriptor_t', 'tag', 4)[2]
            for z in ip.assume_cmp(s1, 'eq', t, x, 32): out += ip.call(z, 'pb_message_put', args, ins)
        ip.contracts['pb_message_put'] = c
        return out

    def c_pcreate(self, ip, s, args, ins):
        W = self.W
        out = []
        for s1, r in ip.deref(s, args[0], 'write', ins):
            for s2, m in ip.deref(s1, args[1], 'write', ins):
                for s3, how in self.aligning(s2, m, 'pb_message_t', 'part.', ins):
                    # an existing part, a new one, or none
                    for what in ('old', 'new', 'none') if how == 'ok' else ('none',):
                        z = s3.clone()
                        if what == 'none':
                            if how == 'ok': self.fail(z, HARD)
                            self.put(z, r, 'pb_part_t', 'journal', NULL, ins)
                            self.put(z, r, 'pb_part_t', 'version', I(64, MARK), ins)
                            self.setoff(z, r, 'offset.', {k: ZERO for k in OFF}, ins)
                            out.append((z, None)); continue
                        v, n = self.newver(z) if what == 'new' else (self.ver(z), self.size(z))
                        if what == 'new':
                            self.setoff(z, m, 'part.offset.', self.fresh_off(z, n), ins, 'pb_message_t')
                            self.put(z, m, 'pb_message_t', 'part.version', I(64, v), ins)
                        self.put(z, r, 'pb_part_t', 'journal', ('p', 'J', ZERO), ins)
                        self.put(z, r, 'pb_part_t', 'version', I(64, v), ins)
                        self.setoff(z, r, 'offset.', self.fresh_off(z, n), ins)
                        out.append((z, None))
        return out

    # ------------------------------------------------------------ worlds
    def world(self, types, packed=False, label=None):
        W = self.W
        S.cons.clear()
        s = State()
        self.packed = packed
        self.n0 = n = fresh('size', 1, MAXSIZE)
        W.bytes(s, 'B', n)
        self.ip.limits = [n.t[0][0]]
        j = W.struct(s, 'J', 'pb_journal_t')
        self.ip.globalobj(s, 'allocator_default')
        W.put(s, j, 'pb_journal_t', 'buffer.allocator', ('p', 'allocator_default', ZERO))
        W.put(s, j, 'pb_journal_t', 'buffer.data', ('p', 'B', ZERO))
        W.put(s, j, 'pb_journal_t', 'buffer.size', I(64, n))
        W.put(s, j, 'pb_journal_t', 'entry.data', ('x',))
        self.V0 = V = fresh('version', 1, MAXSIZE // 32)
        W.put(s, j, 'pb_journal_t', 'entry.size', I(64, V))
        W.obj(s, 'D', W.desc, writable=False)
        W.put(s, ('p', 'D', ZERO), 'pb_descriptor_t', 'extension', NULL)
        W.obj(s, 'O', Tmpl('pb_oneof_descriptor_t', W.size('pb_oneof_descriptor_t')), writable=False)
        self.fields = []
        for i, t in enumerate(types):
            nm = 'F%d' % i
            o = Obj(nm, C(W.field.size), ('init', W.field, nm)); o.writable = False
            s.add(o); self.fields.append(nm)
            p = ('p', nm, ZERO)
            W.put(s, p, 'pb_field_descriptor_t', 'type', I(32, W.enum('PB_TYPE_' + t)), 4)
            tag = fresh('tag', 1, (1 << 29) - 1)
            if i: s.st.ge0(tag - last - 1)
            last = tag
            W.put(s, p, 'pb_field_descriptor_t', 'tag', I(32, tag), 4)
            W.put(s, p, 'pb_field_descriptor_t', 'refer', ('p', 'D', ZERO))
            W.put(s, p, 'pb_field_descriptor_t', 'flags', I(32, 1 if packed else 0), 4)
            W.put(s, p, 'pb_field_descriptor_t', 'label', I(32, W.enum('PB_LABEL_' + label) if label else fresh('label', 1, 4)), 4)
            W.put(s, p, 'pb_field_descriptor_t', 'value', ('p', 'O', ZERO) if label == 'ONEOF' else NULL)
        for k in ('fail', 'nb', 'pk', 'cu', 'al', 'sc', 'ch', 'mg'): s.ghost[k] = I(8, 0)
        return s

    def part(self, s, p, st, pre, stale, name='h', journal='J', ver=None, n=None):
        """a part, up to date or not: remembers what it was made of"""
        W = self.W
        put = lambda k, v: W.put(s, p, st, pre + k, v)
        put('journal', ('p', journal, ZERO))
        ver = ver if ver is not None else self.V0
        n = n if n is not None else self.n0
        if stale:
            v = fresh('stale.version', 0, MAXSIZE // 32)
            s.st.ge0(ver - v - 1)
            d = {k: fresh('stale.' + k, 0, (1 << 64) - 1) for k in OFF}
        else: v, d = ver, self.fresh_off(s, n)
        put('version', I(64, v))
        for k in OFF: put('offset.' + k, I(64, d[k]))
        return v, d

    def stale_off(self, s, p, st, pre, stale, n):
        d = {k: fresh('stale.' + k, 0, (1 << 64) - 1) for k in OFF} if stale else self.fresh_off(s, n)
        for k in OFF: self.W.put(s, p, st, pre + k, I(64, d[k]))
        return d

    def handle(self, s, t, stale, err='NONE', name='H'):
        W = self.W
        p = W.struct(s, name, t)
        self.msgoff = self.pkoff = self.cuoff = None
        self.orig = []
        D = ('p', 'D', ZERO)
        if t == 'pb_part_t': self.orig.append(('',) + self.part(s, p, t, '', stale))
        elif t == 'pb_message_t':
            W.put(s, p, t, 'descriptor', D)
            self.orig.append(('part.',) + self.part(s, p, t, 'part.', stale))
            self.msgoff = W.off(t, 'part.offset')
        elif t == 'pb_field_t':
            W.put(s, p, t, 'descriptor', ('p', self.fields[0], ZERO))
            self.orig.append(('part.',) + self.part(s, p, t, 'part.', stale))
        else:
            pre = 'cursor.' if t == 'pb_oneof_t' else ''
            if pre: W.put(s, p, t, 'descriptor', ('p', 'O', ZERO))
            W.put(s, p, t, pre + 'message.descriptor', D)
            v, d = self.part(s, p, t, pre + 'message.part.', stale)
            self.orig.append((pre + 'message.part.', v, d))
            self.msgoff = W.off(t, pre + 'message.part.offset')
            self.pkoff, self.cuoff = W.off(t, pre + 'current.packed'), W.off(t, pre + 'current.offset')
            W.put(s, p, t, pre + 'tag', I(32, 0 if pre else fresh('tag', 0, (1 << 29) - 1)), 4)
            W.put(s, p, t, pre + 'current.descriptor', ('p', self.fields[0], ZERO))
            self.stale_off(s, p, t, pre + 'current.offset.', stale, self.n0)
            if self.packed: self.stale_off(s, p, t, pre + 'current.packed.', stale, self.n0)
            else:
                for k in OFF: W.put(s, p, t, pre + 'current.packed.' + k, I(64, 0))
            W.put(s, p, t, pre + 'pos', I(64, fresh('pos', 0, MAXSIZE)))
            W.put(s, p, t, pre + 'error', I(32, W.enum('PB_ERROR_' + err)), 4)
        return p

    def value(self, s, ty, stale):
        """a value of the user: [(pointer)]"""
        W = self.W
        if ty == 'RAW':
            W.bytes(s, 'VAL', self.n)
            return ('p', 'VAL', ZERO)
        if ty == 'MESSAGE':
            n = fresh('size2', 1, MAXSIZE)
            W.bytes(s, 'SB', n)
            j = W.struct(s, 'SJ', 'pb_journal_t')
            W.put(s, j, 'pb_journal_t', 'buffer.allocator', ('p', 'allocator_default', ZERO))
            W.put(s, j, 'pb_journal_t', 'buffer.data', ('p', 'SB', ZERO))
            W.put(s, j, 'pb_journal_t', 'buffer.size', I(64, n))
            W.put(s, j, 'pb_journal_t', 'entry.data', ('x',))
            v = fresh('version2', 1, MAXSIZE // 32)
            W.put(s, j, 'pb_journal_t', 'entry.size', I(64, v))
            p = W.struct(s, 'SM', 'pb_message_t')
            W.put(s, p, 'pb_message_t', 'descriptor', ('p', 'D', ZERO))
            self.part(s, p, 'pb_message_t', 'part.', stale, 'v', 'SJ', v, n)
            return p
        if ty in ('STRING', 'BYTES'):
            n = fresh('slen', 0, MAXSIZE)
            W.bytes(s, 'SD', n)
            p = W.struct(s, 'VAL', 'pb_string_t')
            W.put(s, p, 'pb_string_t', 'data', ('p', 'SD', ZERO)); W.put(s, p, 'pb_string_t', 'size', I(64, n))
            return p
        W.bytes(s, 'VAL', C(16), writable=True)
        return ('p', 'VAL', ZERO)

    # ------------------------------------------------------------ operations
    MATCH = ('pb_message_match', 'pb_cursor_seek', 'pb_cursor_match', 'pb_message_nested_match')
    # conversions that are documented: what is gone need not be erased; a value
    # that cannot be read does not match; a cursor looks for the last field
    # with a copy of itself
    EXEMPT = dict(pb_message_erase={GONE}, pb_oneof_clear={GONE}, pb_message_nested_erase={GONE, POINT}, pb_cursor_last={HARD, PARSE, GONE},
                  pb_part_create={POINT}, **{f: {READ} for f in MATCH})

    def args(self, s, e, k, h, ty, vstale):
        W = self.W
        out = []
        for i, (n, t) in enumerate(e['params']):
            t = t.replace('const ', '').replace('struct ', '').strip()
            if i == k: out.append(h)
            elif t == 'pb_tag_t': out.append(I(32, fresh('tag', 1, (1 << 29) - 1)))
            elif t == 'pb_tag_t *':
                n = fresh('n', 2, MAXSIZE // 64)
                W.obj(s, 'TAGS', Tmpl('tags', None, {0: dict(w=4, lo=1, hi=(1 << 29) - 1, name='tags')}, 4), writable=False, size=n.scale(4))
                self.n = n
                out.append(('p', 'TAGS', ZERO))
            elif t == 'size_t': out.append(I(64, self.n))
            elif t == 'void *': out.append(self.value(s, ty, vstale))
            elif t == 'pb_descriptor_t *': out.append(('p', 'D', ZERO))
            elif t == 'pb_oneof_descriptor_t *': out.append(('p', 'O', ZERO))
            else: return None
        return out

    def judge(self, name, rt, s, v, h, t):
        """[(state, does the operation report success?)]"""
        W = self.W
        if rt == 'pb_error_t': r = [(y, x is None) for y, x in self.err(s, v)]
        elif rt in ('int', 'pb_tag_t'): r = [(y, x is not None) for y, x in self.err(s, v)]
        elif rt in ('pb_part_t', 'pb_message_t', 'pb_field_t'):
            ver = self.get(s, ('p', 'RET', ZERO), rt, 'version' if rt == 'pb_part_t' else 'part.version')
            mk = self.marked(s, ver)
            r = [(s, not mk)] if mk is not None else [(z, not m) for z, m in self.halves(s, ver)]
        elif rt in ('pb_cursor_t', 'pb_oneof_t'):
            e = self.get(s, ('p', 'RET', ZERO), rt, ('cursor.' if rt == 'pb_oneof_t' else '') + 'error', 4)
            r = [(y, x is None) for y, x in self.err(s, I(32, e[2]))]
        else: r = []
        if t in ('pb_cursor_t', 'pb_oneof_t') and rt in ('int', 'pb_tag_t'):
            # the handle keeps the error
            q = []
            for z, ok in r:
                if not ok: q.append((z, ok)); continue
                e = self.get(z, h, t, ('cursor.' if t == 'pb_oneof_t' else '') + 'error', 4)
                q += [(y, x is None) for y, x in self.err(z, I(32, e[2]))]
            r = q
        return r

    def settled(self, s, p, t, pre, orig, what, mk=None):
        """a handle after the operation: what it claims is true"""
        v = self.get(s, p, t, pre + 'version')
        if v[0] != 'i': self.rep(s, 'C19', '%s has no version' % what); return
        if mk is None: mk = self.marked(s, v)
        if mk: return
        if mk is None:
            for z, m in self.halves(s, v): self.settled(z, p, t, pre, orig, what, m)
            return
        V = self.ver(s)
        if orig is not None and s.st.entails_eq(v[2] - orig[0]) and not s.st.entails_eq(v[2] - V):
            # as it was before
            for k in OFF:
                x = self.get(s, p, t, pre + 'offset.' + k)
                if x[0] != 'i' or not s.st.entails_eq(x[2] - orig[1][k]):
                    self.rep(s, 'C19', '%s counts as outdated but its offsets were changed' % what); return
            return
        if s.st.entails_eq(v[2] - V): self.valid(s, p, t, pre, None, what[0].lower() + what[1:] + ' is left'); return
        # outdated, by changes made after it was brought up to date

    def one(self, name, e, k, t, stale, ty, types, vstale=False, packed=False, err='NONE', label=None, lower=False):
        W = self.W
        s = self.world(types, packed, label)
        self.moving = lower; self.levels = 1; self.oneof = lower and label == 'ONEOF'
        self.reading = name in self.MATCH
        self.ip.contracts.clear(); self.ip.contracts.update(self.lower if lower else self.upper)
        self.ip.contracts.pop(name, None)
        if len(types) > 1 and name != 'pb_message_put': self.ip.contracts['pb_message_put'] = self.c_mput
        h = self.handle(s, t, stale, err)
        args = self.args(s, e, k, h, ty, vstale)
        if args is None: return False
        rt = e['ret'].replace('const ', '').replace('struct ', '').strip()
        if rt.endswith('_t') and rt not in ('pb_error_t', 'pb_tag_t', 'size_t'): W.struct(s, 'RET', rt)
        orig = list(self.orig)
        ex = self.EXEMPT.get(name, ())
        for z, v in self.run(name, s, args):
            if v is not None and v[0] == 'a' and 'RET' in z.objs:
                for i, x in enumerate(v[1]): z.wobj('RET').cells[8 * i] = (8, x)
            for y, ok in self.judge(name, rt, z, v, h, t):
                self.cov['verdicts'] += 1
                f = self.g(y, 'fail')
                if ok and f and f not in ex: self.rep(y, 'C20', 'reports success although %s' % WHAT[f])
            for pre, ov, od in orig: self.settled(z, h, t, pre, (ov, od), 'The %s' % t[3:-2])
            if rt in ('pb_part_t', 'pb_message_t', 'pb_field_t'): self.settled(z, ('p', 'RET', ZERO), rt, '' if rt == 'pb_part_t' else 'part.', None, 'The new %s' % rt[3:-2])
        return True

    HANDLES = ('pb_part_t', 'pb_message_t', 'pb_field_t', 'pb_cursor_t', 'pb_oneof_t')
    LOWER = dict(pb_part_write=dict(ret='pb_error_t', params=[('part', 'pb_part_t *'), ('data', 'void *'), ('size', 'size_t')]),
                 pb_part_clear=dict(ret='pb_error_t', params=[('part', 'pb_part_t *')]),
                 pb_part_create=dict(ret='pb_part_t', params=[('message', 'pb_message_t *'), ('tag', 'pb_tag_t')]),
                 pb_part_create_from_cursor=dict(ret='pb_part_t', params=[('cursor', 'pb_cursor_t *')]))

    def ops(self):
        """[(name, entry, position of the handle, its type)]"""
        out = []
        for name, e in sorted(api.functions().items()):
            f = self.m.funcs.get(name)
            if f is None or not f.defined or name.endswith('_dump') or name.endswith('_destroy') or e.get('static'): continue
            for k, (n, t) in enumerate(e['params']):
                c = 'const ' in t
                t = t.replace('const ', '').replace('struct ', '').replace('*', '').strip()
                if t in self.HANDLES and '*' in e['params'][k][1] and not c: out.append((name, e, k, t)); break
        return out

    def worlds(self, name, e, t):
        """types of fields, kind of cursor"""
        vals = [n for n, q in e['params'] if q.replace('const ', '').strip() == 'void *']
        tys = ('UINT32', 'FIXED64', 'STRING') + (('MESSAGE',) if t != 'pb_field_t' else ()) if vals and ('put' in name) else ('UINT32', 'STRING') if vals else ('UINT32',)
        nested = any('pb_tag_t *' in q for _, q in e['params'])
        out = []
        for ty in tys:
            types = (ty,) if not nested or ty == 'MESSAGE' else (ty, 'MESSAGE')
            for stale in (False, True):
                out.append(dict(ty=ty, types=types, stale=stale))
                if ty == 'MESSAGE' and vals: out.append(dict(ty=ty, types=types, stale=stale, vstale=True))
        if t in ('pb_message_t', 'pb_cursor_t', 'pb_oneof_t') and not vals:
            out += [dict(ty='UINT32', types=('MESSAGE',), stale=x) for x in (False, True)]
            if name in ('pb_message_erase', 'pb_oneof_clear', 'pb_oneof_case', 'pb_cursor_create'): out += [dict(ty='UINT32', types=('UINT32', 'MESSAGE'), stale=x, label='ONEOF') for x in (False, True)]
        if t == 'pb_cursor_t': out += [dict(o, packed=True) for o in out if o['ty'] == 'UINT32' and o['types'] == ('UINT32',)]
        if t == 'pb_oneof_t': out += [dict(o, err='EOM') for o in out]
        return out

    SKIP = ('pb_cursor_next', 'pb_cursor_create')

    def upperops(self, only=None):
        for name, e, k, t in self.ops():
            if name in self.SKIP or only and name not in only: continue
            n = 0
            for o in self.worlds(name, e, t): n += bool(self.one(name, e, k, t, **o))
            if n: self.cov['operations'] += 1

    def lowerops(self, only=None):
        for name, e in self.LOWER.items():
            if only and name not in only: continue
            t = e['params'][0][1].replace('*', '').strip()
            for stale in (False, True):
                for label, packed in (((None, False), ('ONEOF', False), ('REPEATED', True)) if name == 'pb_part_create' else ((None, False), (None, True)) if t == 'pb_cursor_t' else ((None, False),)):
                    self.n = C(0)
                    if name == 'pb_part_write': self.n = fresh('n', 1, MAXSIZE)
                    self.one(name, e, 0, t, stale, 'RAW', ('UINT32', 'UINT32') if label == 'ONEOF' else ('UINT32',), packed=packed, label=label, lower=True)
            self.cov['operations'] += 1


if __name__ == '__main__':
    t = time.time()
    d = ErrSpec(ir.load(inline_tu=True))
    a = sys.argv[1:]
    for name, e, k, ty in d.ops():
        if a and name not in a or name in d.SKIP: continue
        t0 = time.time(); n = len(d.ip.findings)
        d.upperops([name]); print(name, round(time.time() - t0, 2), len(d.ip.findings) - n, flush=True)
    for name in d.LOWER:
        if a and name not in a: continue
        t0 = time.time(); n = len(d.ip.findings)
        d.lowerops([name]); print(name, round(time.time() - t0, 2), len(d.ip.findings) - n, flush=True)
    print(d.cov)
    for f in d.ip.findings:
        print(str(f)[:400])
        if __import__('os').environ.get('V'): print(f.trace[-12:], f.state)
    print(time.time() - t)
