"""E3: bit-provenance dataflow.  Every integer is a vector of bits and every bit
an affine form over GF(2) in input bits (encoded as an int: bit 0 is the
constant 1, bit k the k-th input bit).  Control flow is followed for a
partition of the inputs in which the significant bit / continuation pattern is
fixed; a branch that still depends on an input bit splits the partition."""
import ir
from ir import AnalysisBroken


class Fork(Exception):
    def __init__(self, form): self.form = form


class Bad(Exception):
    def __init__(self, msg, ins): self.msg, self.ins = msg, ins


class Imprecise(AnalysisBroken):
    pass


POISON = ('z',)
NULL = ('null',)
BIGMIN = 41                       # least value of the 'big' length


class St:
    __slots__ = ('rows', 'mem', 'frames', 'taint', 'w')

    def __init__(self):
        self.rows = {}           # pivot -> form == 0
        self.mem = {}            # obj -> [size|None, {off: 8 forms}, readonly]
        self.taint = False

    def clone(self):
        n = St()
        n.rows = dict(self.rows)
        n.mem = {k: [v[0], dict(v[1]), v[2]] for k, v in self.mem.items()}
        n.taint = self.taint
        return n

    def norm(self, f):
        if f < 2: return f
        for p, r in self.rows.items():
            if f >> p & 1: f ^= r
        return f

    def assume(self, f, c):
        f = self.norm(f) ^ (1 if c else 0)
        if f == 0: return True
        if f == 1: return False
        p = f.bit_length() - 1
        for q in list(self.rows):
            if self.rows[q] >> p & 1: self.rows[q] ^= f
        self.rows[p] = f
        return True


class Bits:
    def __init__(self, mod):
        self.m = mod
        self.nsym = 1
        self.taints = 0          # mask of symbols that stand for lost precision
        self.steps = 0
        self.paths = 0
        self.funcs = set()
        self.reads = 0
        self.writes = 0

    def sym(self, n=1):
        out = []
        for _ in range(n):
            out.append(1 << self.nsym); self.nsym += 1
        return out if n > 1 else out[0]

    def lost(self):
        f = 1 << self.nsym; self.nsym += 1
        self.taints |= f
        return f

    # -------------------------------------------------------------- bits
    def and_(self, a, b):
        if a == 0 or b == 0: return 0
        if a == 1: return b
        if b == 1: return a
        if a == b: return a
        if a == b ^ 1: return 0
        return self.lost()

    def or_(self, a, b): return self.and_(a ^ 1, b ^ 1) ^ 1

    def maj(self, a, b, c):
        if a == b: return a
        if a == c: return a
        if b == c: return b
        if a == b ^ 1: return c
        if a == c ^ 1: return b
        if b == c ^ 1: return a
        for x, y, z in ((a, b, c), (b, a, c), (c, a, b)):
            if x == 0: return self.and_(y, z)
            if x == 1: return self.or_(y, z)
        return self.lost()

    def add(self, x, y, carry=0):
        out = []
        for a, b in zip(x, y):
            out.append(a ^ b ^ carry)
            carry = self.maj(a, b, carry)
        return tuple(out)

    @staticmethod
    def const(n, w): return tuple((n >> i) & 1 for i in range(w))

    @staticmethod
    def value(b):
        n = 0
        for i, x in enumerate(b):
            if x > 1: return None
            n |= x << i
        return n

    def need(self, b):
        """constant value or a split"""
        for x in reversed(b):
            if x > 1: raise Fork(x)
        return self.value(b)

    # -------------------------------------------------------------- run
    def call(self, name, args, st):
        """[(state, result)]; raises Bad at an illegal access"""
        f = self.m.funcs.get(name)
        if f is None or not f.defined: raise AnalysisBroken('%s is missing' % name)
        self.funcs.add(name)
        out = []
        work = [(st, f.order[0], None, 0, dict((p[0], a) for p, a in zip(f.params, args)))]
        while work:
            s, b, pred, i, env = work.pop()
            self.paths += 1
            if self.paths > 400000: raise Imprecise('too many partitions in %s' % name)
            while True:
                r = None
                ins = f.blocks[b].ins[i]
                self.steps += 1
                if self.steps > 20000000: raise Imprecise('bit analysis does not finish')
                try:
                    if ins.op == 'phi':
                        vals = {}
                        j = i
                        while f.blocks[b].ins[j].op == 'phi':
                            p = f.blocks[b].ins[j]
                            vals[p.res] = self.val(s, env, p.ops[p.x.index(pred)])
                            j += 1
                        env.update(vals); i = j; continue
                    if ins.op == 'br':
                        if not ins.ops: pred, b, i = b, ins.x[0], 0; continue
                        c = self.val(s, env, ins.ops[0])
                        if c == POISON: raise Bad('a branch depends on an undefined result', ins)
                        c = self.need(c[1])
                        pred, b, i = b, ins.x[0 if c else 1], 0
                        continue
                    if ins.op == 'switch':
                        c = self.need(self.val(s, env, ins.ops[0])[1])
                        w = ins.ops[0].t.a
                        t = ins.x[0]
                        for k, lab in ins.x[1]:
                            if k % (1 << w) == c: t = lab
                        pred, b, i = b, t, 0
                        continue
                    if ins.op == 'ret':
                        out.append((s, self.val(s, env, ins.ops[0]) if ins.ops else None)); break
                    if ins.op == 'unreachable': raise Bad('unreachable code is reached', ins)
                    if ins.op == 'call':
                        r = self.do_call(s, env, ins)
                        if r is not None:
                            for n, v in r[1:]:
                                e = dict(env)
                                if ins.res: e[ins.res] = v
                                work.append((n, b, pred, i + 1, e))
                            if not r: break
                            s, v = r[0]
                            if ins.res: env[ins.res] = v
                        i += 1; continue
                    v = self.exec(s, env, ins, f)
                    if ins.res: env[ins.res] = v
                    i += 1
                except Fork as k:
                    if k.form & self.taints: s.taint = True
                    n = s.clone()
                    if n.assume(k.form, 0): work.append((n, b, pred, i, dict(env)))
                    if not s.assume(k.form, 1): break
        return out

    def val(self, s, env, o):
        if o.k == 'local':
            v = env[o.v]
            if v[0] == 'i':
                return ('i', tuple(s.norm(x) for x in v[1]))
            return v
        if o.k == 'int': return ('i', self.const(o.v % (1 << o.t.a), o.t.a))
        if o.k == 'null': return NULL
        if o.k == 'global': return ('p', '@' + o.v, 0)
        if o.k == 'undef': return POISON
        if o.k == 'zero': return ('i', (0,) * (8 * self.m.sizeof(o.t)))
        if o.k == 'agg' and o.t.k == 'vec':
            out = ()
            for e in o.v: out += self.val(s, env, e)[1]
            return ('i', out)
        if o.k == 'ce' and o.v == 'getelementptr':
            et, ops = o.x
            b = self.val(s, env, ops[0])
            return ('p', b[1], b[2] + self.gepoff(s, env, et, ops[1:]))
        raise Imprecise('operand %r' % o)

    def gepoff(self, s, env, t, idx):
        off = 0
        for j, o in enumerate(idx):
            v = self.val(s, env, o)
            if v[0] == 'big': raise Imprecise('offset depends on the length')
            n = self.need(v[1])
            w = len(v[1])
            if n >= 1 << (w - 1): n -= 1 << w
            if j == 0: off += n * self.m.sizeof(t)
            else:
                t = self.m.resolve(t)
                if t.k == 'struct':
                    d, t = self.m.field_off(t, n); off += d
                else:
                    t = t.b; off += n * self.m.sizeof(t)
        return off

    def exec(self, s, env, ins, f):
        op = ins.op
        V = lambda k: self.val(s, env, ins.ops[k])
        if op == 'alloca':
            if ins.ops: raise Imprecise('dynamic alloca')
            nm = 'a:%s:%s:%d' % (f.name, ins.res, self.nsym); self.nsym += 1
            s.mem[nm] = [self.m.sizeof(ins.x), {}, False]
            return ('p', nm, 0)
        if op == 'getelementptr':
            b = V(0)
            if b[0] != 'p': raise Imprecise('pointer arithmetic on %r' % (b,))
            return ('p', b[1], b[2] + self.gepoff(s, env, ins.x, ins.ops[1:]))
        if op == 'load': return self.load(s, V(0), self.m.sizeof(ins.t), ins)
        if op == 'store':
            v = V(0); self.store(s, V(1), v, self.m.sizeof(ins.ops[0].t), ins); return None
        if op in ('freeze', 'bitcast'): return V(0)
        if op in ('zext', 'sext', 'trunc'):
            v = V(0)
            if v[0] == 'z': return v
            w = ins.t.a
            if v[0] == 'big':
                if w == 64: return v
                raise Imprecise('length is narrowed')
            b = v[1]
            if op == 'trunc': return ('i', b[:w])
            return ('i', b + ((0,) if op == 'zext' else (b[-1],)) * (w - len(b)))
        if op == 'select':
            c = V(0)
            if c == POISON: raise Bad('a choice depends on an undefined result', ins)
            return V(1 if self.need(c[1]) else 2)
        if op == 'icmp': return self.icmp(s, ins.x, V(0), V(1), ins)
        if op in ir.BINS: return self.bin(op, V(0), V(1), ins)
        if op == 'extractelement':
            v, k = V(0), self.need(V(1)[1])
            w = 8 * self.m.sizeof(ins.t)
            return ('i', v[1][k * w:(k + 1) * w])
        if op == 'insertelement':
            v, e, k = V(0), V(1), self.need(V(2)[1])
            n = 8 * self.m.sizeof(ins.t); w = len(e[1])
            b = list(v[1]) if v[0] == 'i' else [0] * n
            b[k * w:(k + 1) * w] = e[1]
            return ('i', tuple(b))
        if op == 'shufflevector':
            a, b2 = V(0), V(1)
            mask = ins.ops[2]
            w = 8 * self.m.sizeof(ins.t.b)
            n = ins.ops[0].t.a
            ms = [0] * ins.t.a if mask.k == 'zero' else [e.v if e.k == 'int' else 0 for e in mask.v]
            out = ()
            for k in ms:
                src = a if k < n else b2
                k %= n
                out += src[1][k * w:(k + 1) * w] if src[0] == 'i' else (0,) * w
            return ('i', out)
        raise Imprecise('instruction %s' % op)

    def bin(self, op, a, b, ins):
        if a == POISON or b == POISON: return POISON
        if a[0] == 'big' or b[0] == 'big':
            if a[0] == 'big' and b[0] == 'i' and op in ('add', 'sub'):
                k = self.need(b[1])
                if k >= 1 << 63: k -= 1 << 64
                return ('big', a[1] + (k if op == 'add' else -k))
            if b[0] == 'big' and a[0] == 'i' and op == 'add':
                return self.bin(op, b, a, ins)
            raise Imprecise('arithmetic on the length')
        if a[0] != 'i' or b[0] != 'i': raise Imprecise('arithmetic on pointers')
        x, y = a[1], b[1]
        w = len(x)
        if op == 'xor': return ('i', tuple(p ^ q for p, q in zip(x, y)))
        if op == 'and': return ('i', tuple(self.and_(p, q) for p, q in zip(x, y)))
        if op == 'or': return ('i', tuple(self.or_(p, q) for p, q in zip(x, y)))
        if op == 'add': return ('i', self.add(x, y))
        if op == 'sub':
            if self.value(x) == 0 and not any(y[1:]):      # -(one bit)
                return ('i', (y[0],) * w)
            return ('i', self.add(x, tuple(q ^ 1 for q in y), 1))
        if op in ('shl', 'lshr', 'ashr'):
            k = self.need(y)
            if k >= w: return POISON
            if op == 'shl': return ('i', (0,) * k + x[:w - k])
            return ('i', x[k:] + ((0,) if op == 'lshr' else (x[-1],)) * k)
        p, q = self.value(x), self.value(y)
        if op == 'mul':
            if p is not None and q is None: x, y, p, q = y, x, q, p
            if q is not None:
                acc = (0,) * w
                for i in range(w):
                    if q >> i & 1: acc = self.add(acc, ((0,) * i + x)[:w])
                return ('i', acc)
        if op in ('udiv', 'urem') and q:
            if q & (q - 1) == 0:
                k = q.bit_length() - 1
                return ('i', x[k:] + (0,) * k) if op == 'udiv' else ('i', x[:k] + (0,) * (w - k))
            p = self.need(x)
            return ('i', self.const(p // q if op == 'udiv' else p % q, w))
        if op in ('sdiv', 'srem') and q:
            p = self.need(x)
            if p >= 1 << (w - 1): p -= 1 << w
            if q >= 1 << (w - 1): q -= 1 << w
            d = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
            return ('i', self.const((d if op == 'sdiv' else p - d * q) % (1 << w), w))
        raise Imprecise('%s on unknown bits' % op)

    def icmp(self, s, pred, a, b, ins):
        if a == POISON or b == POISON: return POISON
        T = lambda t: ('i', (1 if t else 0,))
        if a[0] in ('p', 'null') or b[0] in ('p', 'null'):
            if pred in ('eq', 'ne'):
                e = a == b
                return T(e == (pred == 'eq'))
            if a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
                return T({'lt': a[2] < b[2], 'le': a[2] <= b[2], 'gt': a[2] > b[2], 'ge': a[2] >= b[2]}[pred[1:]])
            raise Imprecise('pointer comparison')
        if a[0] == 'big' or b[0] == 'big':
            if b[0] == 'big' and a[0] == 'i':
                a, b = b, a
                pred = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule', 'slt': 'sgt', 'sle': 'sge', 'sgt': 'slt', 'sge': 'sle'}[pred]
            if b[0] != 'i': raise Imprecise('comparison of lengths')
            k = self.need(b[1]); lo = BIGMIN + a[1]
            if k >= lo or a[1] > 64: raise Imprecise('comparison of the length with %d' % k)
            return T(pred in ('ne', 'ugt', 'uge', 'sgt', 'sge'))
        x, y = list(a[1]), list(b[1])
        if pred in ('eq', 'ne'):
            d = [p ^ q for p, q in zip(x, y)]
            if any(z == 1 for z in d): return T(pred == 'ne')
            d = [z for z in d if z]
            if not d: return T(pred == 'eq')
            if len(set(d)) == 1: return ('i', (d[0] ^ (1 if pred == 'eq' else 0),))
            raise Fork(d[-1])
        if pred[0] == 's':
            x[-1] ^= 1; y[-1] ^= 1
        p = pred[1:]
        if p in ('gt', 'le'):
            x, y = y, x
        # x < y ?
        r = 0
        for u, v in zip(reversed(x), reversed(y)):
            d = u ^ v
            if d == 0: continue
            if d == 1: r = v; break
            raise Fork(d)
        return ('i', (r if p in ('lt', 'gt') else r ^ 1,))

    # -------------------------------------------------------------- memory
    def load(self, s, p, n, ins):
        self.reads += 1
        if p[0] != 'p': raise Bad('read through a pointer that is not valid', ins)
        o, off = p[1], p[2]
        if o.startswith('@'):
            g = self.m.globals.get(o[1:])
            if g is None or not g.const or g.init is None: raise Imprecise('global %s' % o)
            return self.loadglobal(g, off, n, ins)
        size, cells, ro = s.mem[o]
        if off < 0 or (size is not None and off + n > size):
            raise Bad('a read may lie outside %s' % self.oname(o), ins)
        c = cells.get(('p', off))
        if c is not None and n == 8: return c
        out = ()
        for k in range(off, off + n):
            b = cells.get(k)
            if b is None:
                b = tuple(self.lost() for _ in range(8))
                cells[k] = b
            out += b
        return ('i', tuple(s.norm(x) for x in out))

    @staticmethod
    def oname(o): return {'D': 'the bytes available', 'V': 'the value'}.get(o, 'a local object')

    def store(self, s, p, v, n, ins):
        self.writes += 1
        if p[0] != 'p' or p[1].startswith('@'): raise Bad('write through a pointer that is not valid', ins)
        size, cells, ro = s.mem[p[1]]
        off = p[2]
        if ro: raise Bad('%s is written' % self.oname(p[1]), ins)
        if off < 0 or (size is not None and off + n > size): raise Bad('a write may lie outside %s' % self.oname(p[1]), ins)
        for k in range(off - 7, off + n): cells.pop(('p', k), None)
        if v[0] in ('p', 'null', 'big'):
            cells[('p', off)] = v; return
        b = v[1] if v[0] == 'i' else tuple(self.lost() for _ in range(8 * n))
        b = tuple(b) + (0,) * (8 * n - len(b))
        for k in range(n): cells[off + k] = b[8 * k:8 * k + 8]

    def loadglobal(self, g, off, n, ins):
        if off < 0 or off + n > self.m.sizeof(g.t): raise Bad('a read may lie outside %s' % g.name, ins)
        t = self.m.resolve(g.t)
        v = g.init
        if t.k == 'arr':
            es = self.m.sizeof(t.b)
            if v.k == 'zero': return ('i', (0,) * (8 * n))
            if off % es == 0 and n == es and v.k == 'agg':
                e = v.v[off // es]
                if e.k == 'int': return ('i', self.const(e.v % (1 << 8 * n), 8 * n))
                if e.k == 'zero': return ('i', (0,) * (8 * n))
            if v.k == 'str' and n == 1:
                import re
                raw = v.v[2:-1]
                by = []
                i = 0
                while i < len(raw):
                    if raw[i] == '\\': by.append(int(raw[i + 1:i + 3], 16)); i += 3
                    else: by.append(ord(raw[i])); i += 1
                return ('i', self.const(by[off], 8))
        raise Imprecise('constant %s' % g.name)

    # -------------------------------------------------------------- calls
    def do_call(self, s, env, ins):
        cal = ins.x
        if cal.k != 'global': raise Imprecise('indirect call')
        name = cal.v
        A = [self.val(s, env, a) for a in ins.ops if a.k != 'meta']
        if name.startswith('llvm.'):
            w = ins.t.a if ins.t.k == 'int' else 0
            if name.startswith(('llvm.expect',)): return [(s, A[0])]
            if name.startswith(('llvm.assume', 'llvm.prefetch', 'llvm.stack')): return [(s, None)]
            if name.startswith(('llvm.ctlz', 'llvm.cttz')):
                if A[0] == POISON: return [(s, POISON)]
                b = A[0][1]
                seq = reversed(b) if 'ctlz' in name else b
                for k, x in enumerate(seq):
                    if x == 0: continue
                    if x == 1: return [(s, ('i', self.const(k, w)))]
                    raise Fork(x)
                return [(s, POISON if self.value(A[1][1]) else ('i', self.const(w, w)))]
            if name.startswith('llvm.ctpop'):
                return [(s, ('i', self.const(bin(self.need(A[0][1])).count('1'), w)))]
            if 'pmovmskb' in name:
                b = A[0][1]
                return [(s, ('i', tuple(b[8 * k + 7] for k in range(len(b) // 8)) + (0,) * (w - len(b) // 8)))]
            if name.startswith('llvm.bswap'):
                b = A[0][1]; o = ()
                for k in range(len(b) // 8 - 1, -1, -1): o += b[8 * k:8 * k + 8]
                return [(s, ('i', o))]
            if name.startswith(('llvm.fshl', 'llvm.fshr')):
                k = self.need(A[2][1]) % w
                if 'fshl' in name: return [(s, ('i', (A[1][1] + A[0][1])[w - k:2 * w - k]))]
                return [(s, ('i', (A[1][1] + A[0][1])[k:k + w]))]
            if name.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
                lt = self.icmp(s, 'slt' if name[5] == 's' else 'ult', A[0], A[1], ins)
                return [(s, A[0] if (self.need(lt[1]) == 1) == (name[6:9] == 'min') else A[1])]
            if name.startswith(('llvm.memcpy', 'llvm.memmove')): return self.memcpy(s, A, ins)
            if name.startswith('llvm.memset'):
                n = self.need(A[2][1])
                for k in range(n): self.store(s, ('p', A[0][1], A[0][2] + k), ('i', A[1][1]), 1, ins)
                return [(s, A[0])]
            raise Imprecise(name)
        if name in ('memcpy', 'memmove'): return self.memcpy(s, A, ins)
        return self.call(name, A, s.clone())

    def memcpy(self, s, A, ins):
        if A[2][0] != 'i': raise Imprecise('copy of the length')
        n = self.need(A[2][1])
        b = [self.load(s, ('p', A[1][1], A[1][2] + k) if A[1][0] == 'p' else A[1], 1, ins) for k in range(n)]
        for k in range(n): self.store(s, ('p', A[0][1], A[0][2] + k) if A[0][0] == 'p' else A[0], b[k], 1, ins)
        return [(s, A[0])]
