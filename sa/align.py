"""Analysis of alignment: a stale position of every kind (root message,
submessage, string, scalar, packed value, packed field), one recorded change
standing in every possible relation to it (all numbers symbolic), and
sequences of two changes.  The expected result is computed from where the
changed bytes lie."""
from mem import *

M = 1 << 40


class Pos:
    """where a handle points to: enclosing message start o, tag t, length
    prefix l, content [s, e)"""
    def __init__(self, kind, o, t, l, s, e, point=False): self.kind, self.o, self.t, self.l, self.s, self.e, self.point = kind, o, t, l, s, e, point

    def shift(self, d, inner=False):
        """moved; inner: the start of the enclosing message stays"""
        return Pos(self.kind, self.o if inner else self.o + d, self.t + d, self.l + d, self.s + d, self.e + d, self.point)

    def resize(self, d): return Pos(self.kind, self.o, self.t, self.l, self.s, self.e + d, self.point)

    def prefix(self, d): return Pos(self.kind, self.o, self.t, self.l, self.s + d, self.e + d)

    def cut(self, at): return Pos('point', at, at, at, at, at, True)


KINDS = ('root', 'message', 'string', 'scalar', 'value', 'packed')


def position(kind):
    """[constraints], Pos"""
    f = lambda n: fresh(n, 0, M)
    if kind == 'root':
        e = f('end')
        return [], Pos(kind, ZERO, ZERO, ZERO, ZERO, e)
    o, t, l, s, e = f('origin'), f('tag'), f('length'), f('start'), f('end')
    if kind in ('message', 'string', 'packed'): return [t - o, l - t - 1, s - l - 1, e - s], Pos(kind, o, t, l, s, e)
    if kind == 'scalar': return [t - o, s - t - 1, e - s - 1], Pos(kind, o, t, s, s, e)
    if kind == 'value': return [s - o - 2, e - s - 1], Pos(kind, o, s, s, s, e)
    raise KeyError(kind)


def header(f, base):
    """another field F: tag, length, start, end; all symbolic, from base on"""
    t, l, s, e = f('F.tag'), f('F.length'), f('F.start'), f('F.end')
    return t, l, s, e, [t - base, l - t - 1, s - l - 1, e - s]


def relations(P):
    """yields (name, (origin, offset, delta), constraints, new position, valid)
    for every change that operations record"""
    f = lambda n: fresh(n, 0, M)
    k = P.kind
    d = fresh('delta', -M, M)

    def pos(x): return [x - 1]

    # ---- a point: position of something that was removed
    if k == 'point':
        t, l, s, e, c = header(f, ZERO)
        for n, cc in (('grows', pos(d)), ('shrinks', pos(-d) + [e - s + d])):
            yield 'a field before %s' % n, (s, e, d), c + cc + [P.s - e], P.shift(d), False
        t, l, s, e, c = header(f, ZERO)
        for n, cc in (('grows', pos(d)), ('shrinks', pos(-d) + [s - l + d - 1])):
            yield 'a length prefix before %s' % n, (l, s, d), c + cc + [P.s - s], P.shift(d), False
        t, l, s, e, c = header(f, ZERO)
        yield 'a field before is removed', (t, e, t - e), c + [P.s - e], P.shift(t - e), False
        t, l, s, e, c = header(f, P.s)
        yield 'a field behind grows', (s, e, d), c + pos(d), P, False
        yield 'a field behind is removed', (t, e, t - e), c, P, False
        return

    # ---- the part itself
    lo = 1 if k in ('value', 'scalar') else 0
    if k not in ('packed', 'gap'):
        yield 'its content grows', (P.s, P.e, d), pos(d), P.resize(d), True
        yield 'its content shrinks', (P.s, P.e, d), pos(-d) + [P.e - P.s + d - lo], P.resize(d), True
    if k in ('message', 'string', 'packed'):
        yield 'its length prefix grows', (P.l, P.s, d), pos(d), P.prefix(d), True
        yield 'its length prefix shrinks', (P.l, P.s, d), pos(-d) + [P.s - P.l + d - 1], P.prefix(d), True
    if k in ('message', 'string', 'scalar', 'packed'): yield 'it is removed', (P.t, P.e, P.t - P.e), [], P.cut(P.t), False
    if k == 'value': yield 'it is removed', (P.s, P.e, P.s - P.e), [], Pos('gap', P.o, P.s, P.s, P.s, P.s, True), False

    # ---- inside
    if k in ('root', 'message'):
        t, l, s, e, c = header(f, P.s); c += [P.e - e]
        yield 'a field inside grows', (s, e, d), c + pos(d), P.resize(d), True
        yield 'a field inside shrinks', (s, e, d), c + pos(-d) + [e - s + d], P.resize(d), True
        yield 'a length prefix inside grows', (l, s, d), c + pos(d), P.resize(d), True
        yield 'a length prefix inside shrinks', (l, s, d), c + pos(-d) + [s - l + d - 1], P.resize(d), True
        yield 'a field inside is removed', (t, e, t - e), c, P.resize(t - e), True
        p = f('at')
        yield 'a field is inserted', (P.s, p, d), [p - P.s, P.e - p] + pos(d), P.resize(d), True
        yield 'a field is inserted into a message inside', (s, p, d), c + [p - s, e - p] + pos(d), P.resize(d), True
    if k in ('root', 'message', 'packed'):
        h = 0 if k == 'packed' else 2
        s, e = f('V.start'), f('V.end')
        c = [s - P.s - h, e - s, P.e - e]
        yield 'a packed value inside grows', (s, e, d), c + pos(d), P.resize(d), True
        yield 'a packed value inside is removed', (s, e, s - e), c + [e - s - 1], P.resize(s - e), True

    # ---- before
    def before(lo, hi, inner, name, packed=False):
        sh = lambda x: P.shift(x, inner)
        t, l, s, e, c = header(f, lo); c += [hi - e]
        yield 'a field before %s grows' % name, (s, e, d), c + pos(d), sh(d), True
        yield 'a field before %s shrinks' % name, (s, e, d), c + pos(-d) + [e - s + d], sh(d), True
        yield 'a length prefix before %s grows' % name, (l, s, d), c + pos(d), sh(d), True
        yield 'a length prefix before %s shrinks' % name, (l, s, d), c + pos(-d) + [s - l + d - 1], sh(d), True
        yield 'a field before %s is removed' % name, (t, e, t - e), c, sh(t - e), True
        p = f('at')
        yield 'a field is inserted before %s' % name, (lo, p, d), [p - lo, hi - p] + pos(d), sh(d), True
        yield 'a field is inserted into a message before %s' % name, (s, p, d), c + [p - s, e - p] + pos(d), sh(d), True
        v, w = f('V.start'), f('V.end')
        c = c + [v - s, w - v - 1, e - w]
        yield 'a packed value before %s shrinks' % name, (v, w, d), c + pos(-d) + [w - v + d - 1], sh(d), True
        yield 'a packed value before %s is removed' % name, (v, w, v - w), c, sh(v - w), True
    if k not in ('root', 'value', 'gap'): yield from before(P.o, P.t, True, 'it')
    if k in ('value', 'gap'):
        yield from before(P.o, P.s - 2, True, 'it')
        t, l, s = f('K.tag'), f('K.length'), f('K.start')
        c = [t - P.o, l - t - 1, s - l - 1, P.s - s]
        yield 'the length prefix of its packed field grows', (l, s, d), c + pos(d), P.shift(d, True), True
        yield 'the length prefix of its packed field shrinks', (l, s, d), c + pos(-d) + [s - l + d - 1], P.shift(d, True), True
        if k == 'gap': yield 'its packed field is removed', (t, P.e, t - P.e), c + [s - P.s], P.cut(t), False
        v, w = f('V.start'), f('V.end')
        c = [v - P.o - 2, w - v - 1, P.s - w]
        yield 'a value of the same field before it grows', (v, w, d), c + pos(d), P.shift(d, True), True
        yield 'a value of the same field before it shrinks', (v, w, d), c + pos(-d) + [w - v + d - 1], P.shift(d, True), True
        yield 'a value of the same field before it is removed', (v, w, v - w), c, P.shift(v - w, True), True
    if k != 'root':
        # outside of the enclosing message, which has a header of its own
        mt, ml = f('M.tag'), f('M.length')
        yield from ((n, r, c + [P.o - ml - 1, ml - mt - 1, mt], q, v) for n, r, c, q, v in before(f('A.start'), mt, False, 'its message'))
        for n, cc in (('grows', pos(d)), ('shrinks', pos(-d) + [P.o - ml + d - 1])):
            yield 'the length prefix of its message %s' % n, (ml, P.o, d), [P.o - ml - 1, ml - mt - 1, mt] + cc, P.shift(d), True

    # ---- behind
    def behind(frm, org, name):
        t, l, s, e, c = header(f, frm)
        yield 'a field behind %s grows' % name, (s, e, d), c + pos(d), P, True
        yield 'a field behind %s shrinks' % name, (s, e, d), c + pos(-d) + [e - s + d], P, True
        yield 'a length prefix behind %s grows' % name, (l, s, d), c + pos(d), P, True
        yield 'a length prefix behind %s shrinks' % name, (l, s, d), c + pos(-d) + [s - l + d - 1], P, True
        yield 'a field behind %s is removed' % name, (t, e, t - e), c, P, True
        p = f('at')
        yield 'a field is inserted behind %s' % name, (org, p, d), [p - frm] + pos(d), P, True
        yield 'a field is inserted into a message behind %s' % name, (s, p, d), c + [p - s, e - p] + pos(d), P, True
    if k != 'root':
        yield from behind(P.e, P.o, 'it')
        end, mt, ml, a = f('M.end'), f('M.tag'), f('M.length'), f('A.start')
        for n, r, c, q, v in behind(end, a, 'its message'): yield n, r, c + [end - P.e, P.o - ml - 1, ml - mt - 1, mt - a], q, v
    if k in ('value', 'gap'):
        v, w = f('V.start'), f('V.end')
        c = [v - P.e, w - v]
        yield 'a value behind it grows', (v, w, d), c + pos(d) + [w - v - 1], P, True
        if k == 'value': yield 'a value is appended behind it', (v, v, d), [v - P.e] + pos(d), P, True
        yield 'a value behind it is removed', (v, w, v - w), c + [w - v - 1], P, True

    # ---- around
    if k != 'root':
        t, l, s, e = f('F.tag'), f('F.length'), f('F.start'), f('F.end')
        c = [l - t - 1, s - l - 1, P.o - s, e - P.e]
        yield 'a message around it is removed', (t, e, t - e), c, P.cut(t), False
        yield 'a message around it is replaced by less', (s, e, d), c + pos(-d) + [e - s + d], None, False


class AlignSpec(MemSpec):
    def __init__(self, mod, budget=800):
        self.m = mod
        self.W = World(mod)
        self.ip = Interp(mod, {}, budget=budget)
        self.ip.apart = 500      # the number of records is given
        self.cov = dict(relations=0, pairs=0, results=0, worlds=0, positions_compared=0, invalidations=0)
        self.invalid = 1 << 63

    FIELDS = ('start', 'end', 'diff.origin', 'diff.tag', 'diff.length')

    def world(self, recs, P, cons):
        W = self.W
        s = State()
        for c in cons: s.st.ge0(c)
        if s.st.bot or not s.st.sat(): return None
        j = W.struct(s, 'J', 'pb_journal_t')
        n = fresh('size', 0, MAXSIZE)
        a = self.alloc(s, 'default')
        self.heap(s, 'B', n, BYTES, 'malloc')
        W.buffer(s, 'buf', a, ('p', 'B', ZERO), n, ('p', 'J', C(W.off('pb_journal_t', 'buffer'))))
        sz = W.size('pb_journal_entry_t')
        ob = Obj('R', C(sz * (len(recs) + 1)), ('undef',), 'heap'); s.add(ob)
        ob.info = dict(owner='malloc')
        # record 0 is older than the handle
        for i, r in enumerate([(fresh('old', 0, M), fresh('old', 0, M), fresh('old', -M, M))] + recs):
            for x, v in zip(('origin', 'offset', 'delta'), r): W.put(s, ('p', 'R', C(i * sz)), 'pb_journal_entry_t', x, I(64, s.st.norm(v)))
        W.put(s, j, 'pb_journal_t', 'entry.data', ('p', 'R', ZERO))
        W.put(s, j, 'pb_journal_t', 'entry.size', I(64, len(recs) + 1))
        ob = Obj('V', C(8), ('undef',), 'input'); s.add(ob)
        ob.cells[0] = (8, I(64, 1))
        o = W.struct(s, 'O', 'pb_offset_t')
        for x, v in zip(self.FIELDS, self.offs(P)): W.put(s, o, 'pb_offset_t', x, I(64, s.st.norm(v)))
        for x in ('B', 'J', 'R'): s.wobj(x).writable = False
        return s, [j, ('p', 'V', ZERO), o]

    @staticmethod
    def offs(P): return (P.s, P.e, P.o - P.s, P.t - P.s, P.l - P.s)

    def rep(self, s, msg): self.ip.report(s, 'C15', msg, loc=self.loc)

    def eq(self, s, v, want):
        if v is None or v[0] != 'i': return False
        d = s.st.norm(v[2] - want)
        return any(s.st.entails_eq(d + x) for x in (0, U64, -U64))

    def one(self, kind, recs, P, cons, Q, valid, text):
        w = self.world(recs, P, cons)
        if w is None: return False
        s, args = w
        fn = 'pb_journal_align'
        what = '%s, %s' % ({'root': 'root message', 'value': 'packed value', 'packed': 'packed field', 'point': 'removed position'}.get(kind, kind), text)
        n = 0
        for z, v in self.run(fn, s, args):
            n += 1
            for z, er in self.err(z, v):
                ver = self.ip.readobj(z, z.objs['V'], ZERO, 8, 'i')[0][1]
                if valid:
                    if er is not None: self.rep(z, '%s: alignment fails' % what); continue
                    if not self.eq(z, z.nv(ver), C(len(recs) + 1)): self.rep(z, '%s: the version after alignment is not the one of the journal' % what)
                else:
                    self.cov['invalidations'] += 1
                    if er is None: self.rep(z, '%s: the position stays valid' % what); continue
                    x = z.nv(ver)
                    l = z.st.norm(x[2]) if x[0] == 'i' else None
                    if l is None or not (l.const() is not None and l.c & self.invalid or z.st.entails(l - self.invalid)): self.rep(z, '%s: the position is not marked as invalid' % what)
                if Q is None: continue
                # of a removed position only what iteration goes on from is used
                for fl, want in zip(self.FIELDS, self.offs(Q)):
                    if fl not in {'point': ('end',)}.get(Q.kind, self.FIELDS): continue
                    g = self.get(z, ('p', 'O', ZERO), 'pb_offset_t', fl, want='i')
                    self.cov['positions_compared'] += 1
                    if not self.eq(z, g, want):
                        self.rep(z, '%s: %s is wrong after alignment' % (what, {'start': 'the start', 'end': 'the end', 'diff.origin': 'the start of its message', 'diff.tag': 'the position of its tag', 'diff.length': 'the position of its length prefix'}[fl])); break
        if not n: self.rep(s, '%s: alignment does not return' % what)
        return True

    def singles(self):
        for k in KINDS:
            cons, P = position(k)
            seen = 0
            for n, r, c, Q, v in relations(P):
                if self.one(k, [r], P, cons + c, Q, v, n): self.cov['relations'] += 1; seen += 1
            if not seen: raise AnalysisBroken('no relation for %s' % k)

    def uptodate(self):
        """no newer record: nothing happens"""
        for k in KINDS:
            cons, P = position(k)
            self.one(k, [], P, cons, P, True, 'no change')

    def broken(self):
        """an invalid journal is an error"""
        cons, P = position('scalar')
        s, args = self.world([], P, cons)
        for z, v in self.run('pb_journal_align', s, args): pass
        W = self.W
        s, args = self.world([], P, cons)
        W.put(s, ('p', 'J', ZERO), 'pb_journal_t', 'buffer.allocator', NULL)
        for z, v in self.run('pb_journal_align', s, args):
            for z, er in self.err(z, v):
                if er is None: self.rep(z, 'alignment with an invalid journal succeeds')

    def pairs(self, kinds=KINDS, step=1):
        i = 0
        for k in kinds:
            cons, P = position(k)
            for n, r, c, Q, v in relations(P):
                if Q is None: continue
                for n2, r2, c2, Q2, v2 in relations(Q):
                    i += 1
                    if i % step: continue
                    if Q2 is None: continue
                    if self.one(k, [r, r2], P, cons + c + c2, Q2, v and v2, n + ', then ' + n2): self.cov['pairs'] += 1


if __name__ == '__main__':
    t = time.time()
    d = AlignSpec(ir.load(inline_tu=True))
    d.singles(); d.uptodate(); d.broken()
    print(d.cov, round(time.time() - t, 1))
    if len(sys.argv) > 1: d.pairs(step=int(sys.argv[1]))
    for f in d.ip.findings:
        print(f)
        if __import__('os').environ.get('V'): print(f.trace, f.state)
    print(d.cov, round(time.time() - t, 1))
