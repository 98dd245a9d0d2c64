"""Analysis of buffers and journals: every operation on every kind of object
(invalid, zero-copy, default allocator, user allocator; with and without
memory), every allocation succeeding or failing, all ranges and sizes."""
from world import *
import flow

ALLOCS = ('invalid', 'zerocopy', 'default', 'user')


class MemSpec:
    RULES = ('C10', 'C11', 'C12', 'C13', 'C14')

    def __init__(self, mod, budget=600):
        self.m = mod
        self.W = World(mod)
        self.cov = dict(worlds=0, results=0, failures=0, successes=0, bytes_compared=0, blocks_checked=0, records_compared=0)
        self.con = dict(self.user())
        self.ip = Interp(mod, self.con, budget=budget)
        self.loc = None
        J = Tmpl('records', None, {self.W.off('pb_journal_entry_t', x): dict(w=8, lo=(-(1 << 62) if x == 'delta' else 0), hi=1 << 62, name=x) for x in ('origin', 'offset', 'delta')}, self.W.size('pb_journal_entry_t'))
        self.JE = J

    # ------------------------------------------------------------ allocators
    def user(self):
        def tok(ip, s, a, ins):
            if s.nv(a) != ('p', 'AD', ZERO): ip.report(s, 'C12', 'an allocator callback does not get the data of its allocator', ins)

        def alloc(ip, s, args, ins):
            tok(ip, s, args[0], ins)
            out = []
            for s1, n in ip.toint(s, args[1], 64):
                for s2, n in ip.canon(s1, n, 64):
                    f = s2.clone(); f.ghost['oom'] = I(8, 1)
                    o = ip.new_obj(s2, n)
                    o.info = dict(owner='A')
                    out += [(s2, ('p', o.id, ZERO)), (f, NULL)]
            return out

        def resize(ip, s, args, ins):
            tok(ip, s, args[0], ins)
            out = []
            p = s.nv(args[1])
            for n, v in ip.force(s, p) if p[0] == 'lp' else [(s, p)]:
                for s1, sz in ip.toint(n, args[2], 64):
                    for s2, sz in ip.canon(s1, sz, 64):
                        f = s2.clone(); f.ghost['oom'] = I(8, 1)
                        out.append((f, NULL))
                        for s3 in ip.resizes(s2, v, sz):
                            r = ip.realloc_ok(s3, v, sz, ins, 'A')
                            if r is not None: out.append((s3, r))
            return out

        def free(ip, s, args, ins):
            tok(ip, s, args[0], ins)
            p = s.nv(args[1])
            out = []
            for n, v in ip.force(s, p) if p[0] == 'lp' else [(s, p)]:
                if v[0] != 'p': ip.report(n, 'free', 'release of a pointer that is not known to be valid', ins); continue
                ip.release(n, v, ins, 'A')
                out.append((n, None))
            return out
        return {'@alloc': alloc, '@resize': resize, '@free': free}

    def userobj(self, s):
        W = self.W
        A = W.struct(s, 'A', 'pb_allocator_t')
        for x in ('allocate', 'resize', 'free'): W.put(s, A, 'pb_allocator_t', 'proc.' + x, ('f', {'allocate': '@alloc', 'resize': '@resize', 'free': '@free'}[x]))
        W.struct(s, 'AD', 'pb_allocator_t')
        W.put(s, A, 'pb_allocator_t', 'data', ('p', 'AD', ZERO))
        s.wobj('A').writable = False
        return A

    def alloc(self, s, kind):
        if kind == 'invalid': return NULL
        if kind == 'user': return self.userobj(s)
        g = {'zerocopy': 'allocator_zero_copy', 'default': 'allocator_default'}[kind]
        if g not in self.m.globals: raise AnalysisBroken('global %s is missing' % g)
        self.ip.globalobj(s, g)
        return ('p', g, ZERO)

    def heap(self, s, name, cap, tmpl, owner):
        ob = Obj(name, cap, ('init', tmpl, name), 'heap')
        ob.info = dict(owner=owner)
        s.add(ob)
        return ('p', name, ZERO)

    # ------------------------------------------------------------ worlds
    def buffer(self, s, kind, mem, where=None):
        """a buffer of the given kind; mem: has memory"""
        W = self.W
        a = self.alloc(s, kind)
        size = ZERO
        if kind == 'invalid': d = NULL
        elif kind == 'zerocopy':
            size = fresh('size', 0, MAXSIZE)
            d = W.bytes(s, 'B', size, writable=True)
        elif mem:
            size = fresh('size', 0, MAXSIZE); cap = fresh('cap', 1, MAXSIZE)
            s.st.ge0(cap - size)
            d = self.heap(s, 'B', cap, BYTES, 'A' if kind == 'user' else 'malloc')
        else: d = NULL
        b = W.buffer(s, 'buf', a, d, size, where)
        return b, a, d, size

    def journal(self, s, kind, mem, rec):
        W = self.W
        j = W.struct(s, 'J', 'pb_journal_t')
        b, a, d, size = self.buffer(s, kind, mem, ('p', 'J', C(W.off('pb_journal_t', 'buffer'))))
        if rec:
            n = fresh('records', 0, MAXSIZE // 32); cap = fresh('reccap', 1, MAXSIZE // 32)
            s.st.ge0(cap - n)
            e = self.heap(s, 'R', cap.scale(W.size('pb_journal_entry_t')), self.JE, 'A' if kind == 'user' else 'malloc')
        else: n, e = ZERO, NULL
        W.put(s, j, 'pb_journal_t', 'entry.data', e)
        W.put(s, j, 'pb_journal_t', 'entry.size', I(64, n))
        return j, b, a, d, size, e, n

    def at(self, fn):
        f = self.m.funcs.get(fn)
        if f is None or not f.defined: raise AnalysisBroken('%s is missing' % fn)
        self.loc = self.m.fnloc(f)
        self.fn = fn
        return f

    def rep(self, s, rule, msg): self.ip.report(s, rule, '%s: %s' % (self.fn, msg), loc=self.loc)

    def run(self, fn, s, args):
        """results of a call; aggregates are returned through memory"""
        f = self.at(fn)
        self.cov['worlds'] += 1
        sret = len(f.params) == len(args) + 1
        if sret: args = [('p', 'RET', ZERO)] + args
        elif len(f.params) != len(args): raise AnalysisBroken('%s takes %d arguments, expected %d' % (fn, len(f.params), len(args)))
        for z, v in self.ip.call(s, fn, args):
            self.cov['results'] += 1
            if not z.st.bot: yield z, v

    # ------------------------------------------------------------ checks
    def blocks(self, s, refs, when):
        """the live heap blocks are exactly the ones referred to"""
        self.cov['blocks_checked'] += 1
        live = {o.id for o in s.objs.values() if o.kind == 'heap' and o.alive}
        want = set()
        for v in refs:
            v = s.nv(v)
            if v[0] == 'null': continue
            if v[0] != 'p' or s.st.norm(v[2]) != ZERO: self.rep(s, 'C12', '%s: a pointer to owned memory is not the start of a block' % when); continue
            o = s.objs.get(v[1])
            if o is None or (o.kind == 'heap' and not o.alive): self.rep(s, 'C12', '%s: the object refers to released memory' % when); continue
            if o.kind == 'heap': want.add(v[1])
        for x in live - want: self.rep(s, 'C12', '%s: memory is lost without being released' % when)

    def same(self, s, rule, st, p, mem, want, when, w=8):
        v = self.get(s, p, st, mem, w)
        want = s.nv(want)
        ok = v is not None and (v == want or v[0] == want[0] == 'i' and s.st.entails_eq(v[2] - want[2]) or v[0] == want[0] == 'p' and v[1] == want[1] and s.st.entails_eq(v[2] - want[2]))
        if not ok: self.rep(s, rule, when)
        return ok

    def byte(self, s, p, i, src, j, rule, msg):
        """byte i of p equals byte j of the input object src"""
        self.cov['bytes_compared'] += 1
        p = s.nv(p)
        if p[0] != 'p': self.rep(s, rule, msg); return
        o = s.objs.get(p[1])
        if o is None or not o.alive: self.rep(s, rule, msg); return
        init = Obj(src, None, ('init', BYTES, src))
        for z, v in self.ip.readobj(s.clone(), o, s.st.norm(p[2] + i), 1, 'i'):
            e = self.ip.init_value(z, init, z.st.norm(j if isinstance(j, Lin) else C(j)), 1, 'i')
            if v[0] != 'i' or e is None or not z.st.entails_eq(v[2] - e[2]): self.rep(z, rule, msg); return

    def get(self, s, p, st, mem, w=8, want=None):
        f = self.W.off(st, mem)
        want = want or ('p' if mem.split('.')[-1] in ('allocator', 'data', 'descriptor', 'journal', 'parent') else 'i')
        r = self.ip.readobj(s, s.objs[p[1]], s.st.norm(p[2] + f), w, want)
        if len(r) != 1 or r[0][0] is not s: return UNDEF
        v = s.nv(r[0][1])
        return NULL if want == 'p' and v[0] == 'i' and v[2].const() == 0 else v

    @staticmethod
    def marked(s, v):
        """has a version the mark of an invalid handle? (None: not known)"""
        if v[0] != 'i': return None
        l = s.st.norm(v[2])
        if not l.t: return l.c % (1 << 64) >= 1 << 63
        if s.st.entails(l - (1 << 63)) or s.st.entails(-l - 1): return True
        if s.st.entails(l) and s.st.entails(-l + (1 << 63) - 1): return False
        return None

    def split(self, s, *conds):
        n = s.clone()
        for c in conds: n.st.ge0(c)
        if n.st.bot or not n.st.sat(): return None
        return n

    def err(self, s, v):
        """[(state, error?)] by the returned code"""
        for n, l in self.ip.toint(s, v, 32):
            for x in self.ip.assume_cmp(n.clone(), 'ne', l, ZERO, 32): yield x, l
            for x in self.ip.assume_cmp(n, 'eq', l, ZERO, 32): yield x, None

    def unchanged(self, s, b, a, d, size, rule='C10', what='a failed change'):
        """buffer struct and bytes as before"""
        self.same(s, rule, 'pb_buffer_t', b, 'allocator', a, '%s leaves the buffer with another allocator' % what)
        self.same(s, rule, 'pb_buffer_t', b, 'data', d, '%s leaves the buffer with other memory' % what)
        self.same(s, rule, 'pb_buffer_t', b, 'size', I(64, size), '%s leaves the buffer with another size' % what)
        if d[0] == 'p':
            i = fresh('i', 0, MAXSIZE)
            n = self.split(s, size - i - 1)
            if n is not None: self.byte(n, d, i, 'B', i, rule, '%s modifies bytes of the buffer' % what)

    def bufst(self, s, b, z_size, when, a, rule='C13'):
        """allocator kept, size as expected, block large enough; returns data"""
        W = self.W
        self.same(s, 'C12', 'pb_buffer_t', b, 'allocator', a, '%s the buffer has another allocator' % when)
        self.same(s, rule, 'pb_buffer_t', b, 'size', I(64, z_size), '%s the size did not change by exactly the difference' % when)
        d = self.get(s, b, 'pb_buffer_t', 'data')
        d = s.nv(d) if d is not None else UNDEF
        if d[0] == 'p':
            o = s.objs[d[1]]
            if o.size is None or not s.st.entails(o.size - z_size): self.rep(s, rule, '%s the memory of the buffer is smaller than its size' % when)
        elif d[0] == 'null':
            if not s.st.entails(-s.st.norm(z_size)): self.rep(s, rule, '%s the buffer has a size but no memory' % when)
        else: self.rep(s, rule, '%s the memory of the buffer is not known' % when)
        return d

    def spliced(self, s, d, size, start, end, n, when):
        """content after replacing [start,end) by n new bytes"""
        i = fresh('i', 0, MAXSIZE)
        z = self.split(s, start - i - 1)
        if z is not None: self.byte(z, d, i, 'B', i, 'C13', '%s bytes before the range changed' % when)
        if n is not None:
            z = self.split(s, n - i - 1)
            if z is not None: self.byte(z, d, start + i, 'S', i, 'C13', '%s the range does not hold the new data' % when)
        else: n = ZERO
        z = self.split(s, i - end, size - i - 1)
        if z is not None: self.byte(z, d, i - end + start + n, 'B', i, 'C13', '%s bytes after the range are not moved unchanged' % when)

    def kinds(self):
        for kind in ALLOCS:
            for mem in ((False, True) if kind in ('default', 'user') else (True,)): yield kind, mem

    # ------------------------------------------------------------ operations
    def grow(self):
        W = self.W
        for kind, mem in self.kinds():
            s = State()
            b, a, d, size = self.buffer(s, kind, mem)
            n = fresh('n', 1, MAXSIZE)
            for z, v in self.run('pb_buffer_grow', s, [b, I(64, n)]):
                v = z.nv(v)
                if v[0] == 'null':
                    self.cov['failures'] += 1
                    self.unchanged(z, b, a, d, size)
                    self.blocks(z, [d], 'after a failed reservation'); continue
                self.cov['successes'] += 1
                if 'oom' in z.ghost: self.rep(z, 'C20', 'reports success although an allocation failed')
                if kind == 'invalid': self.rep(z, 'C10', 'growing an invalid buffer succeeds')
                if kind == 'zerocopy': self.rep(z, 'C11', 'growing zero-copy memory succeeds')
                if kind in ('invalid', 'zerocopy'): continue
                e = self.bufst(z, b, size + n, 'after growing', a, 'C10')
                self.blocks(z, [e], 'after growing')
                if e[0] != 'p': continue
                if v[0] != 'p' or v[1] != e[1] or not z.st.entails_eq(v[2] - e[2] - size): self.rep(z, 'C10', 'the reserved space does not begin at the old end of the buffer')
                i = fresh('i', 0, MAXSIZE)
                y = self.split(z, size - i - 1)
                if y is not None: self.byte(y, e, i, 'B', i, 'C10', 'growing loses bytes of the buffer')

    def splice(self, clear):
        W = self.W
        fn = 'pb_buffer_clear' if clear else 'pb_buffer_write'
        for kind, mem in self.kinds():
            s = State()
            b, a, d, size = self.buffer(s, kind, mem)
            start, end = fresh('start', 0, U64 - 1), fresh('end', 0, U64 - 1)
            n = fresh('n', 1, MAXSIZE)
            args = [b, I(64, start), I(64, end)]
            if not clear:
                W.bytes(s, 'S', n)
                args += [('p', 'S', ZERO), I(64, n)]
            for z, v in self.run(fn, s, args):
                for z, e in self.err(z, v):
                    if e is not None:
                        self.failed(z, kind, b, a, d, size, start, end, None if clear else n); continue
                    self.done(z, fn, kind, b, a, d, size, start, end, None if clear else n)

    def failed(self, z, kind, b, a, d, size, start, end, n):
        self.cov['failures'] += 1
        self.unchanged(z, b, a, d, size)
        if kind == 'zerocopy': self.unchanged(z, b, a, d, size, 'C11', 'a refused change')

    def done(self, z, fn, kind, b, a, d, size, start, end, n):
        """after a successful change; returns (data, delta) or None"""
        self.cov['successes'] += 1
        # giving memory back may fail: the larger block serves as well
        if 'oom' in z.ghost and not z.st.entails(end - start - (n if n is not None else ZERO)): self.rep(z, 'C20', 'reports success although an allocation failed')
        if kind == 'invalid':
            self.rep(z, 'C10', 'changing an invalid buffer succeeds'); return None
        if not (z.st.entails(end - start) and z.st.entails(size - end)):
            self.rep(z, 'C10', 'a change of a range outside of the buffer succeeds'); return None
        nn = n if n is not None else ZERO
        if kind == 'zerocopy':
            if not z.st.entails_eq(nn - end + start): self.rep(z, 'C11', 'a change of the length of zero-copy memory succeeds')
            self.same(z, 'C11', 'pb_buffer_t', b, 'data', d, 'zero-copy memory is exchanged')
            self.same(z, 'C11', 'pb_buffer_t', b, 'size', I(64, size), 'the size of zero-copy memory changes')
        e = self.bufst(z, b, size + nn - end + start, 'after the change', a)
        self.blocks(z, [e] + self.extra(z), 'after the change')
        if e[0] == 'p': self.spliced(z, e, size, start, end, n, 'after the change')
        return e

    def extra(self, z):
        """other owned blocks (records of a journal)"""
        if 'J' not in z.objs: return []
        v = self.get(z, ('p', 'J', ZERO), 'pb_journal_t', 'entry.data')
        return [v] if v is not None else [UNDEF]

    def record(self, z, e, k, want, msg):
        """record k has the given fields (dict) or, want None, its initial ones"""
        self.cov['records_compared'] += 1
        e = z.nv(e)
        sz = self.W.size('pb_journal_entry_t')
        if e[0] != 'p' or not z.objs[e[1]].alive: self.rep(z, 'C14', msg); return
        init = Obj('R', None, ('init', self.JE, 'R'))
        for f in ('origin', 'offset', 'delta'):
            o = self.W.off('pb_journal_entry_t', f)
            for y, v in self.ip.readobj(z.clone(), z.objs[e[1]], z.st.norm(k.scale(sz) + o), 8, 'i'):
                if want is None:
                    x = self.ip.init_value(y, init, y.st.norm(k.scale(sz) + o), 8, 'i')
                    # records are read as unsigned words; compare as such
                    x = x[2] if x else None
                else: x = want[f]
                ok = v[0] == 'i' and x is not None
                if ok:
                    dlt = y.st.norm(v[2] - x)
                    ok = y.st.entails_eq(dlt) or y.st.entails_eq(dlt - U64) or y.st.entails_eq(dlt + U64)
                if not ok: self.rep(y, 'C14', msg); return

    def jspl(self, clear):
        W = self.W
        fn = 'pb_journal_clear' if clear else 'pb_journal_write'
        for kind, mem in self.kinds():
            for rec in ((False, True) if kind in ('default', 'user') else (False,)):
                s = State()
                j, b, a, d, size, e, cnt = self.journal(s, kind, mem, rec)
                # ranges that make sense: the callers' offsets; sizes of messages
                origin, start, end = fresh('origin', 0, MAXSIZE), fresh('start', 0, MAXSIZE), fresh('end', 0, MAXSIZE)
                s.st.ge0(end - origin)
                n = fresh('n', 1, MAXSIZE)
                args = [j, I(64, origin), I(64, start), I(64, end)]
                if not clear:
                    W.bytes(s, 'S', n)
                    args += [('p', 'S', ZERO), I(64, n)]
                nn = ZERO if clear else n
                for z, v in self.run(fn, s, args):
                    for z, er in self.err(z, v):
                        e2 = self.get(z, j, 'pb_journal_t', 'entry.data')
                        c2 = self.get(z, j, 'pb_journal_t', 'entry.size')
                        i = fresh('k', 0, MAXSIZE // 32)
                        y = self.split(z, cnt - i - 1) if rec else None
                        if y is not None: self.record(y, e2, i, None, 'a record made before is changed')
                        if er is not None:
                            self.failed(z, kind, b, a, d, size, start, end, None if clear else n)
                            self.unchanged(z, b, a, d, size, 'C14', 'a change that fails')
                            self.same(z, 'C14', 'pb_journal_t', j, 'entry.size', I(64, cnt), 'a change that fails changes the number of records')
                            self.blocks(z, [d] + self.extra(z), 'after a failed change')
                            continue
                        self.done(z, fn, kind, b, a, d, size, start, end, None if clear else n)
                        if kind == 'invalid': continue
                        for y, diff in ((self.split(z, nn - end + start - 1), 1), (self.split(z, -nn + end - start - 1), 1), (self.split(z, nn - end + start, end - start - nn), 0)):
                            if y is None: continue
                            self.same(y, 'C14', 'pb_journal_t', j, 'entry.size', I(64, cnt + diff), 'a change of the length is not recorded exactly once' if diff else 'a change that keeps the length changes the records')
                            if diff: self.record(y, e2, cnt, dict(origin=origin, offset=end, delta=nn - end + start), 'the record does not hold where the change happened and by how much')

    # ------------------------------------------------------------ creation and destruction
    def destroy(self):
        W = self.W
        for kind, mem in self.kinds():
            s = State()
            b, a, d, size = self.buffer(s, kind, mem)
            for z, _ in self.run('pb_buffer_destroy', s, [b]): self.gone(z, 'pb_buffer_destroy', [b], b, a, kind, d, size)
            for rec in ((False, True) if kind in ('default', 'user') else (False,)):
                s = State()
                j, b, a, d, size, e, cnt = self.journal(s, kind, mem, rec)
                for z, _ in self.run('pb_journal_destroy', s, [j]): self.gone(z, 'pb_journal_destroy', [j], b, a, kind, d, size)
            s = State()
            en = W.struct(s, 'E', 'pb_encoder_t')
            b, a, d, size = self.buffer(s, kind, mem, ('p', 'E', C(W.off('pb_encoder_t', 'buffer'))))
            W.obj(s, 'D', W.desc, writable=False)
            W.put(s, en, 'pb_encoder_t', 'descriptor', ('p', 'D', ZERO))
            for z, _ in self.run('pb_encoder_destroy', s, [en]): self.gone(z, 'pb_encoder_destroy', [en], b, a, kind, d, size)

    def gone(self, z, fn, args, b, a, kind, d, size):
        W = self.W
        self.blocks(z, [], 'after destruction')
        if kind != 'zerocopy':
            v = self.get(z, b, 'pb_buffer_t', 'allocator')
            if v is None or z.nv(v) != NULL: self.rep(z, 'C12', 'the object is still valid after destruction')
        else: self.unchanged(z, b, a, d, size, 'C11', 'destruction')
        before = {o: (dict(x.cells), x.alive) for o, x in z.objs.items() if o in ('buf', 'J', 'E', 'B', 'R')}
        for y, _ in self.run(fn, z, args):
            for o, (c, al) in before.items():
                x = y.objs[o]
                if {k: y.nv(v[1]) for k, v in x.cells.items()} != {k: y.nv(v[1]) for k, v in c.items()} or x.alive != al:
                    self.rep(y, 'C12', 'destroying the object again does something')

    def create(self):
        W = self.W
        for pre, st, boff in (('pb_buffer', 'pb_buffer_t', 0), ('pb_journal', 'pb_journal_t', None)):
            for how in ('_create', '_create_with_allocator', '_create_empty', '_create_empty_with_allocator', '_create_zero_copy'):
                s = State()
                ret = W.struct(s, 'RET', st)
                b = ret if boff is not None else ('p', 'RET', C(W.off(st, 'buffer')))
                args, kind = [], 'zerocopy' if 'zero' in how else 'default'
                if 'allocator' in how: args.append(self.alloc(s, 'user')); kind = 'user'
                a = args[0] if args else self.alloc(s, kind)
                empty = 'empty' in how
                n = fresh('n', 1, MAXSIZE)
                if not empty: args += [W.bytes(s, 'S', n, writable=kind == 'zerocopy'), I(64, n)]
                ok = bad = 0
                for z, _ in self.run(pre + how, s, args):
                    v = self.get(z, b, 'pb_buffer_t', 'allocator')
                    v = z.nv(v) if v is not None else UNDEF
                    d = self.get(z, b, 'pb_buffer_t', 'data')
                    d = z.nv(d) if d is not None else UNDEF
                    refs = []
                    if boff is None:
                        if self.same(z, 'C12', st, ret, 'entry.data', NULL, 'a new journal has records'): pass
                        self.same(z, 'C12', st, ret, 'entry.size', I(64, 0), 'a new journal has records')
                    if v == NULL:
                        bad += 1
                        if empty or kind == 'zerocopy': self.rep(z, 'C12', 'creation without allocation fails')
                        elif 'oom' not in z.ghost: self.rep(z, 'C12', 'creation fails although no allocation failed')
                        self.blocks(z, [], 'after a failed creation'); continue
                    ok += 1
                    if 'oom' in z.ghost: self.rep(z, 'C12', 'creation succeeds although an allocation failed')
                    want = ZERO if empty else n
                    e = self.bufst(z, b, want, 'after creation', a, 'C12')
                    self.blocks(z, [e], 'after creation')
                    if kind == 'zerocopy':
                        if e != ('p', 'S', ZERO): self.rep(z, 'C11', 'a zero-copy object does not refer to the memory given to it')
                    elif not empty:
                        if e[0] == 'p' and e[1] == 'S': self.rep(z, 'C12', 'an object that owns its memory refers to the memory of the user')
                        i = fresh('i', 0, MAXSIZE)
                        y = self.split(z, n - i - 1)
                        if y is not None: self.byte(y, e, i, 'S', i, 'C12', 'a new object does not hold a copy of the data')
                if not ok: raise AnalysisBroken('%s%s never succeeds' % (pre, how))
        for how in ('_create', '_create_with_allocator'):
            s = State()
            ret = W.struct(s, 'RET', 'pb_encoder_t')
            W.obj(s, 'D', W.desc, writable=False)
            args, kind = [], 'default'
            if 'allocator' in how: args.append(self.alloc(s, 'user')); kind = 'user'
            a = args[0] if args else self.alloc(s, kind)
            for z, _ in self.run('pb_encoder' + how, s, args + [('p', 'D', ZERO)]):
                b = ('p', 'RET', C(W.off('pb_encoder_t', 'buffer')))
                e = self.bufst(z, b, ZERO, 'after creation', a, 'C12')
                self.blocks(z, [e], 'after creation')

    # ------------------------------------------------------------ who allocates
    HEAP = ('malloc', 'calloc', 'realloc', 'reallocarray', 'free', 'strdup', 'strndup', 'posix_memalign', 'aligned_alloc', 'memalign', 'valloc', 'asprintf', 'vasprintf', 'getline')

    def callers(self):
        """C12: heap functions are called only by allocators; every call of an
        allocator callback was analysed above"""
        m = self.m
        procs = set()
        for g in m.globals.values():
            if g.init is not None: collect(g.init, m.funcs, procs)
        n = 0
        for f in m.funcs.values():
            if not f.defined: continue
            for bn in f.order:
                for i in f.blocks[bn].ins:
                    if i.op == 'call' and i.x.k == 'global' and i.x.v in self.HEAP:
                        n += 1
                        if f.name in procs or 'chunk_allocator' in (m.loc(i.dbg)[0] or ''): continue
                        self.ip.report(State(), 'C12', '%s: calls %s directly instead of going through an allocator' % (f.name, i.x.v), ins=i)
        self.cov['heap_calls'] = n

    def all(self):
        self.grow(); self.splice(False); self.splice(True); self.jspl(False); self.jspl(True); self.destroy(); self.create(); self.callers()


def collect(v, funcs, out):
    if v.k == 'global' and v.v in funcs: out.add(v.v)
    elif v.k == 'agg':
        for x in v.v: collect(x, funcs, out)


if __name__ == '__main__':
    t = time.time()
    d = MemSpec(ir.load(inline_tu=True))
    for x in sys.argv[1:] or ['grow', 'w', 'c', 'jw', 'jc', 'destroy', 'create', 'callers']:
        t1 = time.time()
        {'w': lambda: d.splice(False), 'c': lambda: d.splice(True), 'jw': lambda: d.jspl(False), 'jc': lambda: d.jspl(True)}.get(x, getattr(d, x, None))()
        print(x, round(time.time() - t1, 2), d.cov)
    for f in d.ip.findings:
        print(f)
        if __import__('os').environ.get('V'): print(f.trace, f.state)
    print(time.time() - t)
