"""Analysis of the chunk allocator through its interface only: every history
of up to K live blocks of arbitrary sizes (any allocation may fail), then each
operation on each block, then each way of winding down."""
from mem import *

BIG = 1 << 61


class ChunkSpec(MemSpec):
    def __init__(self, mod, live=3, ops=1, budget=800):
        self.m = mod
        self.W = World(mod)
        self.live, self.ops = live, ops
        self.cov = dict(histories=0, operations=0, results=0, successes=0, failures=0, blocks_checked=0, bytes_compared=0, destructions=0, worlds=0)
        self.ip = Interp(mod, {}, budget=budget)
        self.fn = 'chunk allocator'

    def rep(self, s, msg): self.ip.report(s, 'C27', msg, loc=self.loc)

    # ------------------------------------------------------------ creation
    def create(self):
        """[(state, allocator, ok?)]"""
        W = self.W
        for fn, args in (('pb_chunk_allocator_create', []), ('pb_chunk_allocator_create_with_capacity', [fresh('capacity', 1, BIG)])):
            s = State()
            ret = W.struct(s, 'RET', 'pb_allocator_t')
            for z, _ in self.run(fn, s, [I(64, a) for a in args]):
                d = z.nv(self.get(z, ret, 'pb_allocator_t', 'data'))
                yield fn, z, d

    def proc(self, z, name):
        for y, v in self.ip.readobj(z.clone(), z.objs['RET'], C(self.W.off('pb_allocator_t', 'proc.' + name)), 8, 'p'):
            v = y.nv(v)
            if v[0] != 'f': self.rep(z, 'the %s operation of a chunk allocator is not known' % name); return None
            return v[1]

    def data(self, z): return z.nv(self.get(z, ('p', 'RET', ZERO), 'pb_allocator_t', 'data'))

    def do(self, z, name, args):
        """call an operation of the allocator"""
        fn = self.proc(z, name)
        if fn is None: return
        f = self.at(fn)
        self.fn = fn
        self.cov['operations'] += 1
        z.ghost.pop('oom', None)
        for y, v in self.ip.call(z, fn, [self.data(z)] + args):
            if y.st.bot: continue
            self.cov['results'] += 1
            yield y, (y.nv(v) if v is not None else None)

    # ------------------------------------------------------------ blocks
    # a block of the history: (pointer, size, id of the user's data)
    def fill(self, z, p, n, k):
        src = 'U%d' % k
        if src not in z.objs: self.W.bytes(z, src, None)
        for y, d in self.ip.deref(z, p, 'write', None):
            o = y.wobj(d[1])
            self.ip.segwrite(y, o, y.st.norm(d[2]), n, ('copy', Obj(src, None, ('init', BYTES, src)), ZERO))

    def valid(self, z, blk, what):
        """the block is live memory of at least its size"""
        p, n, k = blk
        self.cov['blocks_checked'] += 1
        p = z.nv(p)
        o = z.objs.get(p[1]) if p[0] == 'p' else None
        if o is None or o.kind != 'heap' or not o.alive: self.rep(z, '%s is not live memory' % what); return False
        if o.size is None or not z.st.entails(p[2]) or not z.st.entails(o.size - p[2] - n): self.rep(z, '%s has fewer bytes than were asked for' % what); return False
        return True

    def kept(self, z, blk, what, upto=None):
        p, n, k = blk
        i = fresh('i', 0, BIG)
        conds = [n - i - 1] + ([upto - i - 1] if upto is not None else [])
        y = self.split(z, *conds)
        if y is not None: self.byte(y, p, i, 'U%d' % k, i, 'C27', what)

    def byte(self, s, p, i, src, j, rule, msg):
        self.cov['bytes_compared'] += 1
        p = s.nv(p)
        o = s.objs.get(p[1]) if p[0] == 'p' else None
        if o is None or not o.alive: self.rep(s, msg); return
        init = Obj(src, None, ('init', BYTES, src))
        for z, v in self.ip.readobj(s.clone(), o, s.st.norm(p[2] + i), 1, 'i'):
            e = self.ip.init_value(z, init, z.st.norm(j), 1, 'i')
            if v[0] != 'i' or e is None or not z.st.entails_eq(v[2] - e[2]): self.rep(z, msg); return

    def apart(self, z, blks):
        for i, a in enumerate(blks):
            for b in blks[:i]:
                if a[0][1] == b[0][1] and not (z.st.entails(a[0][2] - b[0][2] - b[1]) or z.st.entails(b[0][2] - a[0][2] - a[1])):
                    self.rep(z, 'two live blocks overlap')

    def others(self, z, blks, what):
        for b in blks:
            if self.valid(z, b, 'another block after %s' % what): self.kept(z, b, 'the contents of another block change by %s' % what)

    # ------------------------------------------------------------ operations; yield (state, blocks)
    def failed(self, z, blks, what):
        self.cov['failures'] += 1
        if 'oom' not in z.ghost: self.rep(z, '%s fails although no allocation failed' % what)
        for b in blks:
            if self.valid(z, b, 'a block after %s failed' % what): self.kept(z, b, 'a failed %s changes the contents of a block' % what)

    def allocate(self, z, blks, resize=False):
        n = fresh('size', 1, BIG)
        k = z.ghost.get('nblk', I(8, 0))[2].c + 1
        z.ghost['nblk'] = I(8, k)
        args = ([NULL] if resize else []) + [I(64, n)]
        what = 'resizing nothing' if resize else 'allocation'
        for y, v in self.do(z, 'resize' if resize else 'allocate', args):
            if v[0] == 'null':
                self.failed(y, blks, what); yield y, blks, False; continue
            if v[0] != 'p': self.rep(y, 'the result of an %s is not known' % what); continue
            if 'oom' in y.ghost: self.rep(y, 'an %s succeeds although memory is exhausted' % what)
            self.cov['successes'] += 1
            b = (v, n, k)
            if not self.valid(y, b, 'a new block'): continue
            self.apart(y, blks + [b])
            self.others(y, blks, what)
            self.fill(y, v, n, k)
            # the user writing to its block does not touch the others
            self.others(y, blks, 'writing to a new block')
            yield y, blks + [b], True

    def resize(self, z, blks, j):
        p, old, k = blks[j]
        n = fresh('newsize', 1, BIG)
        rest = blks[:j] + blks[j + 1:]
        for y, v in self.do(z, 'resize', [p, I(64, n)]):
            if v[0] == 'null':
                self.failed(y, blks, 'resizing'); yield y, blks, False; continue
            if v[0] != 'p': self.rep(y, 'the result of resizing is not known'); continue
            self.cov['successes'] += 1
            b = (v, n, k)
            if not self.valid(y, b, 'a resized block'): continue
            self.kept(y, b, 'resizing does not keep the contents of the block', old)
            self.apart(y, rest + [b])
            self.others(y, rest, 'resizing')
            self.fill(y, v, n, k)
            self.others(y, rest, 'writing to a resized block')
            yield y, rest[:j] + [b] + rest[j:], True

    def free(self, z, blks, j):
        p, old, k = blks[j]
        rest = blks[:j] + blks[j + 1:]
        for y, v in self.do(z, 'free', [p]):
            self.cov['successes'] += 1
            self.others(y, rest, 'releasing a block')
            o = y.objs.get(y.nv(p)[1])
            if o is not None and o.alive and not any(y.nv(b[0])[1] == o.id for b in rest): self.rep(y, 'releasing a block does not give back its memory')
            yield y, rest, True

    def destroy(self, z, blks):
        self.cov['destructions'] += 1
        for y, _ in self.run('pb_chunk_allocator_destroy', z, [('p', 'RET', ZERO)]):
            for o in y.objs.values():
                if o.kind == 'heap' and o.alive:
                    self.rep(y, 'memory is still allocated after the allocator is destroyed'); break
            if self.data(y) != NULL: self.rep(y, 'the allocator is still valid after it was destroyed'); continue
            for x, _ in self.run('pb_chunk_allocator_destroy', y, [('p', 'RET', ZERO)]): pass
            self.dead(y)

    def dead(self, z):
        """an allocator without memory is inert"""
        for name, args in (('allocate', [I(64, fresh('size', 1, BIG))]), ('resize', [NULL, I(64, fresh('size', 1, BIG))])):
            for y, v in self.do(z.clone(), name, args):
                if v[0] != 'null': self.rep(y, 'an allocator without memory returns a block')

    def wind(self, z, blks):
        """release every block one by one, then destroy"""
        if not blks: self.destroy(z, []); return
        for y, rest, _ in self.free(z, blks, len(blks) // 2): self.wind(y, rest)

    def close(self, z, blks):
        self.destroy(z.clone(), blks)
        if blks: self.wind(z.clone(), blks)

    def one(self, z, blks):
        """each operation, from a clone of the state"""
        yield from self.allocate(z.clone(), blks)
        yield from self.allocate(z.clone(), blks, True)
        for j in range(len(blks)):
            yield from self.resize(z.clone(), blks, j)
            yield from self.free(z.clone(), blks, j)

    def rest(self, z, blks, n):
        self.cov['histories'] += 1
        self.close(z, blks)
        if not n: return
        for y, b, ok in self.one(z, blks): self.rest(y, b, n - 1)

    def all(self):
        for fn, z, d in self.create():
            if d[0] == 'null':
                if 'oom' not in z.ghost: self.rep(z, '%s fails although no allocation failed' % fn)
                self.dead(z)
                for y, _ in self.run('pb_chunk_allocator_destroy', z, [('p', 'RET', ZERO)]): pass
                continue
            if 'oom' in z.ghost: self.rep(z, '%s succeeds although memory is exhausted' % fn)
            todo = [(z, [])]
            for k in range(self.live + 1):
                nxt = []
                for y, b in todo:
                    self.rest(y, b, self.ops)
                    if k < self.live:
                        got = [(x, c) for x, c, ok in self.allocate(y.clone(), b) if ok]
                        nxt += got
                        if not got and not self.ip.findings: raise AnalysisBroken('allocation never succeeds')
                todo = nxt


if __name__ == '__main__':
    t = time.time()
    d = ChunkSpec(ir.load(inline_tu=True), *map(int, sys.argv[1:]))
    try: d.all()
    finally:
        for f in d.ip.findings:
            print(f)
            if __import__('os').environ.get('V'): print(f.trace, f.state)
        print(d.cov, round(time.time() - t, 1))
