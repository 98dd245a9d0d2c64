"""E1: relational abstract interpreter over LLVM IR.

Integers are linear expressions (valid modulo 2^w) over symbols constrained by
an integer-polyhedra store; pointers are (object, linear offset); memory is a
set of objects with cells at constant offsets and segments at symbolic ones.
States are partitioned by branch outcomes between loop heads; at loop heads a
fixpoint is computed with joins (integer hull) and widening.  Callees are
analysed in context (inlined) or replaced by contracts.  No code is executed
and no path formula is solved: every state over-approximates all runs."""
import sys, time
from dom import *
import dom
import isl
import ir
from ir import AnalysisBroken

sys.setrecursionlimit(20000)
U64 = 1 << 64


class Imprecise(AnalysisBroken):
    pass


# ------------------------------------------------------------------ values
# int:  ('i', width, Lin)
# ptr:  ('p', obj, Lin) | ('null',) | ('f', fname) | ('lp', sym)  (lazy)
# bool: ('b', cond)
# agg:  ('a', [values])
# undef:('u',)     vec: ('v', nbytes)   other: ('x',)

NULL = ('null',)
UNDEF = ('u',)
OPAQUE = ('x',)


def I(w, l): return ('i', w, l if isinstance(l, Lin) else C(l))


TRUE, FALSE = ('c', True), ('c', False)


NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}


def neg(c):
    k = c[0]
    if k == 'c': return FALSE if c[1] else TRUE
    if k == 'not': return c[1]
    if k == 'cmp':
        return ('cmp', NEG[c[1]], c[2], c[3], c[4])
    if k == 'pcmp': return ('pcmp', NEG[c[1]], c[2], c[3])
    if k == 'and': return ('or', neg(c[1]), neg(c[2]))
    if k == 'or': return ('and', neg(c[1]), neg(c[2]))
    return ('not', c)


# ------------------------------------------------------------------ memory

class Tmpl:
    """type-driven description of an input object"""
    onload = None            # (ip, state, object, offset, size, value) -> [(state, value)]
    def __init__(self, name, size=None, fields=None, stride=None, kind='struct'):
        self.name, self.size, self.fields, self.stride, self.kind = name, size, fields or {}, stride, kind
        # fields: off -> dict(w=, lo=, hi=, ptr=target Tmpl or None, null=bool, fn=contract name)

    def __repr__(self): return 'Tmpl(%s)' % self.name


BYTES = Tmpl('bytes', kind='bytes', stride=1, fields={0: dict(w=1, lo=0, hi=255)})


class Obj:
    """base: ('undef',) | ('init', tmpl, key) | ('global', g) | ('zero',) | ('unk', ver)"""
    __slots__ = ('id', 'size', 'base', 'cells', 'segs', 'alive', 'kind', 'writable', 'info')

    def __init__(self, id, size, base, kind='heap'):
        self.id, self.size, self.base, self.kind = id, size, base, kind
        self.cells, self.segs, self.alive, self.writable, self.info = {}, [], True, True, None

    def clone(self):
        o = Obj.__new__(Obj)
        o.id, o.size, o.base, o.kind = self.id, self.size, self.base, self.kind
        o.cells, o.segs, o.alive, o.writable, o.info = dict(self.cells), list(self.segs), self.alive, self.writable, self.info
        return o


_uid = [0]


def uid():
    _uid[0] += 1
    return _uid[0]


class State:
    __slots__ = ('st', 'objs', 'owned', 'pres', 'env', 'frames', 'ghost', 'trace', 'dead')

    def __init__(self):
        self.st = Store()
        self.objs = {}
        self.owned = set()
        self.pres = {}       # lazy pointer symbol -> value
        self.env = {}
        self.frames = ()
        self.ghost = {}
        self.trace = None
        self.dead = False

    def clone(self):
        n = State.__new__(State)
        n.st = self.st.clone()
        n.objs = dict(self.objs)
        n.owned = set()
        self.owned = set()
        n.pres = dict(self.pres)
        n.env = dict(self.env)
        n.frames = self.frames
        n.ghost = dict(self.ghost)
        n.trace = self.trace
        n.dead = self.dead
        return n

    def wobj(self, oid):
        o = self.objs[oid]
        if oid not in self.owned:
            o = o.clone()
            self.objs[oid] = o
            self.owned.add(oid)
        return o

    def add(self, o):
        self.objs[o.id] = o
        self.owned.add(o.id)
        return o

    # value normalisation
    def nv(self, v):
        k = v[0]
        if k == 'i':
            l = self.st.norm(v[2])
            return v if l is v[2] else ('i', v[1], l)
        if k == 'p':
            l = self.st.norm(v[2])
            return v if l is v[2] else ('p', v[1], l)
        if k == 'lp':
            r = self.pres.get(v[1])
            return r if r is not None else v
        if k == 'a':
            return ('a', [self.nv(x) for x in v[1]])
        return v


class Finding:
    def __init__(self, rule, msg, loc, trace, fn=None):
        self.rule, self.msg, self.loc, self.trace = rule, msg, loc, trace

    def key(self): return (self.rule, self.loc[0], self.loc[2], self.msg)

    def __str__(self):
        return '%s: %s:%d (%s): %s' % (self.rule, self.loc[0], self.loc[1], self.loc[2], self.msg)


class Interp:
    def __init__(self, mod, contracts=None, monitors=None, budget=None):
        self.m = mod
        self.contracts = contracts or {}
        self.mon = monitors or {}
        self.onrecursion = self.dynalloca = None
        self.limits = []      # symbols that values in loops may stay below
        self.hullmax = 14     # dimension of the hulls of loop states
        self.findings = []
        self.fseen = set()
        self.stats = dict(instr=0, access=0, calls=0, paths=0, loops=0, heads=0, funcs=set(), branches=0)
        self.depth = 0
        self.deadline = time.time() + budget if budget else None
        self.live = {}
        self.rank = None         # loop ranking monitor
        self.maxdepth = 40
        self.icalls = {}         # handlers for indirect calls: fname -> contract
        self.soft = 0
        self.loop_hooks = []
        self.cur = None
        self.fork_bytes = False
        self.pathcap = 20000
        self.partghosts = set()  # ghost cells whose value partitions loop heads
        self.incmps = set()      # those of inner loops
        self.cmps = set()        # symbols compared since the loop body was entered
        self.apart = 0           # partition loop heads by turn, up to this number of turns
        self.headhook = None     # normalises a state that reaches a loop head

    # ---------------------------------------------------------------- report
    def report(self, s, rule, msg, ins=None, loc=None):
        if self.soft: return
        ins = ins or self.cur
        loc = loc or (self.m.loc(ins.dbg) if ins is not None else ('?', 0, '?'))
        if loc[1] == 0 and ins is not None:
            loc = (loc[0], 0, ins.fn.name)
        tr = []
        t = s.trace
        while t is not None and len(tr) < 60:
            tr.append(t[1]); t = t[0]
        f = Finding(rule, msg, loc, tr[::-1])
        if f.key() not in self.fseen:
            self.fseen.add(f.key())
            f.state = s.st.show()
            self.findings.append(f)

    # ---------------------------------------------------------------- ints
    def canon(self, s, l, w, signed=False):
        """[(state, Lin in canonical range)]"""
        l = s.st.norm(l)
        M = 1 << w
        lo, hi = (-(M >> 1), (M >> 1) - 1) if signed else (0, M - 1)
        a, b = s.st.interval(l)
        if lo <= a and b <= hi: return [(s, l)]
        if not l.t:
            v = l.c % M
            if v > hi: v -= M
            return [(s, C(v))]
        if s.st.entails(l - lo) and s.st.entails(C(hi) - l): return [(s, l)]
        # a small set of windows
        if abs(a) > (4 << w) or abs(b) > (4 << w):
            # try to bound through the store
            ok = s.st.entails(l + 2 * M) and s.st.entails(C(3 * M) - l)
            if not ok:
                x = term('wrap', (l, w, signed), lo, hi)
                return [(s, x)]
            ks = range(-3, 4)
        else:
            ks = range((a - lo) // M, (b - lo) // M + 1)
        out = []
        for k in ks:
            n = s.clone()
            n.st.ge0(l - (lo + k * M)); n.st.ge0(C(hi + k * M) - l)
            if n.st.sat(l.syms()):
                out.append((n, n.st.norm(l - k * M)))
        return out

    def assume(self, s, c, truth=True):
        """states refined by condition c == truth (s is consumed)"""
        if not truth: c = neg(c)
        k = c[0]
        if k == 'c': return [s] if c[1] else []
        if k == 'and':
            out = []
            for x in self.assume(s, c[1]): out += self.assume(x, c[2])
            return out
        if k == 'or':
            out = self.assume(s.clone(), c[1])
            for x in self.assume(s, neg(c[1])): out += self.assume(x, c[2])
            return out
        if k == 'not':
            return self.assume_not(s, c[1])
        if k == 'xor':
            out = []
            for x in self.assume(s.clone(), c[1]): out += self.assume(x, neg(c[2]))
            for x in self.assume(s, neg(c[1])): out += self.assume(x, c[2])
            return out
        if k == 'cmp': return self.assume_cmp(s, *c[1:])
        if k == 'pcmp': return self.assume_pcmp(s, *c[1:])
        if k == 'any': return [s]
        raise AnalysisBroken('assume %r' % (c,))

    def assume_not(self, s, c):
        if c[0] == 'any': return [s]
        if c[0] == 'xor':
            out = []
            for x in self.assume(s.clone(), c[1]): out += self.assume(x, c[2])
            for x in self.assume(s, neg(c[1])): out += self.assume(x, neg(c[2]))
            return out
        if c[0] == 'pcmp': return [s]
        raise AnalysisBroken('assume not %r' % (c,))

    def assume_cmp(self, s, pred, a, b, w):
        signed = pred[0] == 's'
        out = []
        if pred in ('eq', 'ne'):
            d = s.st.norm(a - b)
            if not d.t:
                return [s] if ((d.c % (1 << w) == 0) == (pred == 'eq')) else []
            self.cmps.update(d.syms())
            lo, hi = s.st.interval(d)
            M = 1 << w
            if -M < lo and hi < M:
                cases = [(s, d)]
            else:
                cases = []
                for s1, x in self.canon(s, a, w):
                    for s2, y in self.canon(s1, b, w):
                        cases.append((s2, s2.st.norm(x - y)))
            for n, d in cases:
                if pred == 'eq':
                    if n.st.entails_ne(d): continue
                    n.st.eq0(d)
                else:
                    n.st.ne0(d)
                if not n.st.bot and n.st.sat(d.syms()): out.append(n)
            return out
        for s1, x in self.canon(s, a, w, signed):
            for s2, y in self.canon(s1, b, w, signed):
                x2, y2 = s2.st.norm(x), s2.st.norm(y)
                p = pred[1:]
                l = {'lt': y2 - x2 - 1, 'le': y2 - x2, 'gt': x2 - y2 - 1, 'ge': x2 - y2}[p]
                l = s2.st.norm(l)
                if not l.t:
                    if l.c >= 0: out.append(s2)
                    continue
                self.cmps.update(l.syms())
                if len(l.t) == 1 and 0 < abs(l.c) < 64: self.cmps.add(('k', abs(l.c)))
                if s2.st.entails(-l - 1): continue
                s2.st.ge0(l)
                if not s2.st.bot and s2.st.sat(l.syms()): out.append(s2)
        return out

    def assume_pcmp(self, s, pred, p, q):
        p, q = s.nv(p), s.nv(q)
        if pred not in ('eq', 'ne'):
            if p[0] == 'p' and q[0] == 'p' and p[1] == q[1]:
                return self.assume_cmp(s, pred, p[2], q[2], 64)
            return [s]
        want = pred == 'eq'
        if q[0] == 'lp' and p[0] != 'lp': p, q = q, p
        if p[0] == 'lp':
            out = []
            if q[0] == 'lp' and q[1] == p[1]: return [s] if want else []
            for n, pv in self.force(s, p):
                out += self.assume_pcmp(n, pred, pv, q)
            return out
        if p[0] == 'x' or q[0] == 'x' or p[0] == 'u' or q[0] == 'u': return [s]
        if p[0] == 'i' or q[0] == 'i': return [s]
        if p[0] != q[0]: return [] if want else [s]
        if p[0] == 'null': return [s] if want else []
        if p[0] == 'f': return [s] if ((p[1] == q[1]) == want) else []
        if p[1] != q[1]: return [] if want else [s]
        return self.assume_cmp(s, pred, p[2], q[2], 64)

    def decide(self, s, c):
        """True/False/None without changing s"""
        k = c[0]
        if k == 'c': return c[1]
        if k == 'not':
            r = self.decide(s, c[1]); return None if r is None else not r
        if k == 'cmp':
            a, b = s.st.norm(c[2]), s.st.norm(c[3])
            if not a.t and not b.t:
                return self.constcmp(c[1], a.c, b.c, c[4])
        if not self.assume(s.clone(), c, True): return False
        if not self.assume(s.clone(), c, False): return True
        return None

    @staticmethod
    def constcmp(p, a, b, w):
        M = 1 << w
        a %= M; b %= M
        if p[0] == 's':
            if a >= M >> 1: a -= M
            if b >= M >> 1: b -= M
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p if p in ('eq', 'ne') else p[1:]]

    # ---------------------------------------------------------------- lazies
    def force(self, s, v):
        """materialise a lazy pointer: [(state, NULL or ('p',..) or ('f',..))]"""
        v = s.nv(v)
        if v[0] != 'lp': return [(s, v)]
        sym = v[1]
        spec = LAZY[sym]
        out = []
        if spec.get('null', True):
            n = s.clone()
            if spec.get('onnull') is None or spec['onnull'](self, n, spec):
                n.pres[sym] = NULL
                if not n.st.bot: out.append((n, NULL))
        for alt in spec.get('alts', ()):
            n = s.clone()
            n.pres[sym] = alt
            if alt[0] == 'p' and alt[1].__class__ is str and alt[1] not in n.objs:
                self.globalobj(n, alt[1])
            out.append((n, alt))
        if spec.get('fn'):
            s.pres[sym] = ('f', spec['fn'])
            out.append((s, s.pres[sym]))
            return out
        t = spec.get('tmpl')
        if t is None:
            if spec.get('alts'): return out
            s.pres[sym] = OPAQUE
            out.append((s, OPAQUE))
            return out
        oid = 'L%d' % sym
        pv = ('p', oid, ZERO)
        s.pres[sym] = pv
        if oid not in s.objs:
            o = Obj(oid, None if t.size is None else C(t.size), ('init', t, oid), 'lazy')
            o.writable = spec.get('writable', True)
            o.info = spec
            s.add(o)
        if spec.get('onobj'):
            spec['onobj'](self, s, s.objs[oid], spec)
            if s.st.bot or not s.st.sat(): return out
        out.append((s, pv))
        return out

    def init_value(self, s, o, off, size, want):
        """initial value of input object o at Lin off"""
        _, t, key = o.base
        off = s.st.norm(off)
        if t.stride:
            if off.c % t.stride and not all(k % t.stride == 0 for _, k in off.t) and t.stride != 1:
                return None
            if any(k % t.stride for _, k in off.t): return None
            fo = off.c % t.stride
        else:
            if off.t: return None
            fo = off.c
        f = t.fields.get(fo)
        if f is None:
            return None
        w = f['w']
        if 'ptr' in f or 'fn' in f or f.get('alts'):
            if size != 8: return None
            key2 = ('initp', key, off)
            s_ = S.cons.get(key2)
            if s_ is None:
                s_ = S.term('initp', (key, off))
                S.name[s_] = '%s.%s' % (t.name, f.get('name', fo))
                LAZY[s_] = dict(tmpl=f.get('ptr'), null=f.get('null', True), fn=f.get('fn'), alts=f.get('alts', ()),
                                onobj=f.get('onobj'), onnull=f.get('onnull'), owner=key, off=off, writable=f.get('writable', True), field=f)
            if s.pres.get(s_) is not None: return s.pres[s_]
            return ('lp', s_)
        if size != w:
            if size < w and not t.stride == 1: 
                return None
            return None
        x = term('init', (key, off), f.get('lo', 0), f.get('hi', (1 << (8 * w)) - 1))
        sy = x.t[0][0]
        S.name[sy] = '%s.%s' % (t.name, f.get('name', fo))
        if f.get('dom') and sy not in s.st.dom and sy not in s.st.eq:
            s.st.setdom(sy, frozenset(f['dom']))
        s.st.use(x)
        return I(8 * w, s.st.norm(x))

    def globalobj(self, s, name):
        if name not in s.objs:
            g = self.m.globals.get(name)
            if g is None: raise AnalysisBroken('unknown global %s' % name)
            o = Obj(name, C(self.m.sizeof(g.t)) if g.init is not None or g.t.k != 'arr' else None, ('global', g), 'global')
            o.writable = not g.const
            s.add(o)
        return s.objs[name]

    def globalcells(self, g):
        if not hasattr(g, 'cells'):
            g.cells = {}
            if g.init is not None: self._flat(g.init, g.t, 0, g.cells)
        return g.cells

    def _flat(self, v, t, off, out):
        t = self.m.resolve(t)
        if v.k == 'zero':
            for o, tt in self.m.flatten(t, off):
                out[o] = (self.m.sizeof(tt), NULL if tt.k == 'ptr' else I(8 * self.m.sizeof(tt), 0))
        elif v.k == 'agg':
            if t.k == 'struct':
                for i, e in enumerate(v.v):
                    o, et = self.m.field_off(t, i); self._flat(e, et, off + o, out)
            else:
                es = self.m.sizeof(t.b)
                for i, e in enumerate(v.v): self._flat(e, t.b, off + i * es, out)
        elif v.k == 'str':
            import re as _re
            raw = v.v[2:-1]; i = 0; o = off
            while i < len(raw):
                if raw[i] == '\\':
                    b = int(raw[i + 1:i + 3], 16); i += 3
                else:
                    b = ord(raw[i]); i += 1
                out[o] = (1, I(8, b)); o += 1
        elif v.k == 'undef': pass
        else:
            out[off] = (self.m.sizeof(t), self.constval(None, v))

    # ---------------------------------------------------------------- memory
    def new_obj(self, s, size, base=('undef',), kind='heap', name=None):
        o = Obj('%s%d' % (name or kind, uid()), size, base, kind)
        s.add(o)
        return o

    def check(self, s, p, n, what, ins=None):
        """bounds obligation for access of n (Lin/int) bytes at pointer p"""
        if isinstance(n, int): n = C(n)
        self.stats['access'] += 1
        o = s.objs.get(p[1])
        if o is None:
            self.report(s, 'memory', '%s through a dangling or unknown pointer' % what, ins); return False
        if not o.alive:
            self.report(s, 'use-after-free', '%s of released memory' % what, ins); return False
        if 'write' in what and not o.writable:
            self.report(s, 'const-write', '%s to read-only object %s' % (what, o.id), ins); return False
        if o.size is None:
            return True
        off = p[2]
        if not (s.st.entails(off) and s.st.entails(o.size - off - n)):
            self.report(s, 'bounds', '%s of %s byte(s) may lie outside %s' % (what, 'N' if n.t else n.c, objname(o)), ins)
            return False
        return True

    def disjoint(self, s, a, an, b, bn):
        if not a.t and not b.t and not an.t and not bn.t:
            return a.c + an.c <= b.c or b.c + bn.c <= a.c
        return s.st.entails(b - a - an) or s.st.entails(a - b - bn)

    def store(self, s, p, n, v, ins=None):
        """p: ('p',obj,off); n const int; v value"""
        if not self.check(s, p, n, 'write', ins): return
        o = s.wobj(p[1])
        off = s.st.norm(p[2])
        mon = self.mon.get('store')
        if mon: mon(self, s, o, off, n, v)
        if o.base[0] == 'hook': o.base[1].write(self, s, o, off, n, v, ins); return
        if not off.t:
            c = off.c
            if o.segs and not all(self.disjoint(s, off, C(n), a, an) for a, an, _ in o.segs):
                self.segwrite(s, o, off, C(n), ('val', v))
                return
            old = o.cells.get(c)
            if old is None or old[0] != n:
                for k in list(o.cells):
                    kn = o.cells[k][0]
                    if k < c + n and c < k + kn and k != c or (k == c and kn != n):
                        if kn > n or k < c or k + kn > c + n:
                            # partially overwritten cell
                            self.split_cell(s, o, k, c, n)
                        else:
                            del o.cells[k]
            o.cells[c] = (n, v)
        else:
            self.segwrite(s, o, off, C(n), ('val', v))

    def split_cell(self, s, o, k, c, n):
        kn, v = o.cells.pop(k)
        for a, b in ((k, c), (c + n, k + kn)):
            if a < b:
                o.cells[a] = (b - a, I(8 * (b - a), 0) if v == NULL or v[0] == 'i' and v[2] == ZERO else OPAQUE if v[0] != 'u' else UNDEF)

    def zerocells(self, s, o, off, n):
        """part of a structure is set to zero: fields of their own"""
        if off.t or n.t or n.c > 512 or o.size is None or o.size.t or o.size.c > 4096: return False
        a, b = off.c, off.c + n.c
        if a % 4 or b % 4: return False
        for x, xn, _ in o.segs:
            if not self.disjoint(s, off, n, x, xn) and not (s.st.entails(x - a) and s.st.entails(C(b) - x - xn)): return False
        o.segs = [g for g in o.segs if self.disjoint(s, off, n, g[0], g[1])]
        for k in list(o.cells):
            kn = o.cells[k][0]
            if k < b and a < k + kn:
                if k < a or k + kn > b: self.split_cell(s, o, k, a, b - a)
                else: del o.cells[k]
        while a < b:
            w = 8 if a % 8 == 0 and a + 8 <= b else 4
            o.cells[a] = (w, I(8 * w, 0)); a += w
        return True

    def segwrite(self, s, o, off, n, payload):
        # drop cells that may overlap into segs (older)
        for k in list(o.cells):
            kn, v = o.cells[k]
            if not self.disjoint(s, off, n, C(k), C(kn)):
                del o.cells[k]
                o.segs.append((C(k), C(kn), ('val', v)))
        # drop segments fully overwritten
        keep = []
        for a, an, pl in o.segs:
            if s.st.entails(a - off) and s.st.entails(off + n - a - an): continue
            keep.append((a, an, pl))
        o.segs = keep
        o.segs.append((off, n, payload))

    def load(self, s, p, n, want, ins=None):
        """[(state, value)]; want in 'i','p','v'"""
        if not self.check(s, p, n, 'read', ins):
            return [(s, self.havoc(want, n))]
        o = s.objs[p[1]]
        off = s.st.norm(p[2])
        mon = self.mon.get('load')
        if mon: mon(self, s, o, off, n)
        return self.readobj(s, o, off, n, want)

    def havoc(self, want, n, name='havoc'):
        if want == 'i': return I(8 * n, fresh(name, 0, (1 << (8 * n)) - 1))
        if want == 'p': return OPAQUE
        return ('v', n)

    def readobj(self, s, o, off, n, want, depth=0):
        off = s.st.norm(off)
        if want == 'v': return [(s, ('v', n))]
        if o.base[0] == 'hook': return o.base[1].read(self, s, o, off, n, want)
        nn = C(n)
        if not off.t:
            c = o.cells.get(off.c)
            if c is not None:
                if c[0] == n:
                    v = s.nv(c[1])
                    return [(s, NULL if want == 'p' and v[0] == 'i' and v[2] == ZERO else v)]
                return self.readpart(s, o, off.c, n, want)
            for k, (kn, v) in o.cells.items():
                if k < off.c + n and off.c < k + kn:
                    return self.readpart(s, o, off.c, n, want)
        else:
            hit = [k for k, (kn, v) in o.cells.items() if not self.disjoint(s, off, nn, C(k), C(kn))]
            if hit:
                for k in hit:
                    if s.st.entails_eq(off - k) and o.cells[k][0] == n:
                        return [(s, s.nv(o.cells[k][1]))]
                return [(s, self.havoc(want, n, 'mixed'))]
        for a, an, pl in reversed(o.segs):
            if self.disjoint(s, off, nn, a, an): continue
            if s.st.entails(off - a) and s.st.entails(a + an - off - n):
                rel = s.st.norm(off - a)
                if pl[0] == 'val':
                    if s.st.entails_eq(off - a) and s.st.entails_eq(an - n): return [(s, s.nv(pl[1]))]
                    return [(s, self.havoc(want, n, 'part'))]
                if pl[0] == 'copy':
                    return self.readobj(s, pl[1], s.st.norm(pl[2] + rel), n, want, depth + 1)
                if pl[0] == 'zero':
                    return [(s, NULL if want == 'p' else I(8 * n, 0))]
                if pl[0] == 'undef': return [(s, UNDEF)]
                if pl[0] == 'term':
                    return [(s, I(8 * n, term('byte', (pl[1], rel, n), 0, (1 << (8 * n)) - 1)))] if want == 'i' else [(s, OPAQUE)]
            return [(s, self.havoc(want, n, 'seg'))]
        b = o.base
        if b[0] == 'undef': return [(s, UNDEF)]
        if b[0] == 'zero': return [(s, NULL if want == 'p' else I(8 * n, 0))]
        if b[0] == 'global': return self.readglobal(s, o, b[1], off, n, want)
        if b[0] == 'init':
            v = self.init_value(s, o, off, n, want)
            if v is None: v = self.havoc(want, n, 'init')
            elif b[1].onload: return b[1].onload(self, s, o, off, n, v)
            return [(s, v)]
        if b[0] == 'unk':
            if want == 'i': return [(s, I(8 * n, term('unk', (b[1], off, n), 0, (1 << (8 * n)) - 1)))]
            return [(s, OPAQUE)]
        raise AnalysisBroken('base %r' % (b,))

    def readpart(self, s, o, c, n, want):
        """read overlapping several cells or part of one"""
        # all undefined -> undefined
        cov = [(k, kn, v) for k, (kn, v) in o.cells.items() if k < c + n and c < k + kn]
        if any(v[0] == 'u' for _, _, v in cov): return [(s, UNDEF)]
        covered = sum(min(c + n, k + kn) - max(c, k) for k, kn, v in cov)
        if len(cov) == 1 and want == 'i':
            k, kn, v = cov[0]
            if k <= c and c + n <= k + kn and v[0] == 'i':
                sh = 8 * (c - k)
                res = []
                for s1, l in self.canon(s, v[2], 8 * kn):
                    q, _ = euclid(s1.st, l, 1 << sh) if sh else (l, None)
                    res.append((s1, I(8 * n, q)))
                return res
        if covered < n and o.base[0] == 'undef' and not o.segs: return [(s, UNDEF)]
        if want == 'i' and covered == n and all(v[0] == 'i' for _, _, v in cov):
            l = ZERO
            for k, kn, v in sorted(cov):
                x = s.st.norm(v[2])
                lo, hi = s.st.interval(x)
                if lo < 0 or hi >= 1 << (8 * kn) or k < c or k + kn > c + n:
                    return [(s, self.havoc(want, n, 'part'))]
                l = l + x.scale(1 << (8 * (k - c)))
            return [(s, I(8 * n, l))]
        return [(s, self.havoc(want, n, 'part'))]

    def readglobal(self, s, o, g, off, n, want):
        out = self.readglobal_(s, o, g, off, n, want)
        for z, v in out:
            if v[0] == 'p' and v[1] not in z.objs: self.globalobj(z, v[1])
        return out

    def readglobal_(self, s, o, g, off, n, want):
        if g.init is None:
            return [(s, self.havoc(want, n, 'extern'))]
        if not g.const and want == 'i' and not off.t and False:
            pass
        cells = self.globalcells(g)
        if not off.t:
            c = cells.get(off.c)
            if c is None or c[0] != n: return [(s, self.havoc(want, n, 'glob'))]
            return [(s, c[1])]
        # table lookup: group indices by value
        lo, hi = None, None
        groups, order = {}, []
        cand = [k for k in sorted(cells) if cells[k][0] == n]
        single = len(off.t) == 1
        if single:
            sy, k = off.t[0]
            d = s.st.dom.get(sy)
            if d is None:
                a, b = s.st.range(sy)
                if b - a <= 256: d = range(a, b + 1)
            if d is not None:
                for x in d:
                    c = cells.get(off.c + k * x)
                    v = c[1] if c and c[0] == n else self.havoc(want, n, 'glob')
                    if v not in groups: groups[v] = []; order.append(v)
                    groups[v].append(x)
                if len(order) > 40: return [(s, self.havoc(want, n, 'table'))]
                out = []
                for v in order:
                    ns = s if len(order) == 1 else s.clone()
                    if len(order) > 1: ns.st.restrict(V(sy), groups[v])
                    if not ns.st.bot and ns.st.sat([sy]): out.append((ns, v))
                return out
        out = []
        if len(cand) <= 64:
            for k in cand:
                ns = s.clone()
                ns.st.eq0(off - k)
                if not ns.st.bot and ns.st.sat(off.syms()): out.append((ns, cells[k][1]))
            return out
        return [(s, self.havoc(want, n, 'table'))]

    def copy(self, s, dst, src, n, move=False, ins=None):
        """memcpy/memmove of n (Lin) bytes between object pointers"""
        n = s.st.norm(n)
        if not n.t and n.c == 0: return
        ok = self.check(s, src, n, 'read', ins)
        ok = self.check(s, dst, n, 'write', ins) and ok
        if not ok: return
        so, do_ = s.objs[src[1]], dst[1]
        soff, doff = s.st.norm(src[2]), s.st.norm(dst[2])
        mon = self.mon.get('store')
        if mon: mon(self, s, s.objs[do_], doff, n, ('copy', so, soff))
        if not move and src[1] == dst[1] and not self.disjoint(s, soff, n, doff, n):
            self.report(s, 'overlap', 'memcpy between overlapping ranges', ins)
        if not n.t and not soff.t and not doff.t and n.c <= 512 and not so.segs and so.base[0] in ('undef', 'init', 'zero', 'global', 'unk'):
            # struct-wise copy
            items = []
            lim = soff.c + n.c
            have = sorted((k, v) for k, v in so.cells.items() if k < lim and soff.c < k + v[0])
            if all(k >= soff.c and k + kn <= lim for k, (kn, v) in have):
                pos = soff.c
                fields = None
                if so.base[0] == 'init' and not so.base[1].stride: fields = {k: f['w'] for k, f in so.base[1].fields.items()}
                elif so.base[0] == 'global': fields = {k: c[0] for k, c in self.globalcells(so.base[1]).items()}
                elif so.base[0] in ('undef',): fields = {}
                if fields is not None:
                    done = set()
                    for k, (kn, v) in have:
                        items.append((k - soff.c, kn, v)); done.update(range(k, k + kn))
                    for k, w in sorted(fields.items()):
                        if soff.c <= k and k + w <= lim and k not in done:
                            r = self.readobj(s, so, C(k), w, 'p' if so.base[0] == 'init' and ('ptr' in so.base[1].fields[k] or 'fn' in so.base[1].fields[k] or so.base[1].fields[k].get('alts')) else 'i')
                            items.append((k - soff.c, w, r[0][1]))
                    d = s.wobj(do_)
                    if not d.segs or all(self.disjoint(s, doff, n, a, an) for a, an, _ in d.segs):
                        for k in list(d.cells):
                            if k < doff.c + n.c and doff.c < k + d.cells[k][0]: del d.cells[k]
                        if d.base[0] != 'undef' and so.base[0] == 'undef':
                            got = set()
                            for r_, w, v in items: got.update(range(r_, r_ + w))
                        for r_, w, v in items:
                            d.cells[doff.c + r_] = (w, v)
                        return
        snap = so.clone()
        self.segwrite(s, s.wobj(do_), doff, n, ('copy', snap, soff))

    # ---------------------------------------------------------------- operands
    def constval(self, s, v):
        k = v.k
        if k == 'int':
            if v.t.a == 1: return ('b', TRUE if v.v else FALSE)
            return I(v.t.a, v.v)
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'zero':
            if v.t.k == 'ptr': return NULL
            if v.t.k == 'int': return I(v.t.a, 0)
            if v.t.k == 'vec': return ('v', self.m.sizeof(v.t))
            return ('a', [self.constval(s, ir.Val('zero', t)) for t in self.m.resolve(v.t).a])
        if k == 'global':
            if v.v in self.m.funcs: return ('f', v.v)
            if s is not None: self.globalobj(s, v.v)
            return ('p', v.v, ZERO)
        if k == 'ce':
            if v.v == 'getelementptr':
                et, ops = v.x
                base = self.constval(s, ops[0])
                off = 0
                t = et
                off += ops[1].v * self.m.sizeof(et)
                for o in ops[2:]:
                    t = self.m.resolve(t)
                    if t.k == 'struct':
                        d, t = self.m.field_off(t, o.v); off += d
                    else:
                        t = t.b; off += o.v * self.m.sizeof(t)
                return ('p', base[1], base[2] + off) if base[0] == 'p' else OPAQUE
            if v.v == 'bitcast': return self.constval(s, v.x[1][0])
            return OPAQUE
        if k == 'agg':
            if v.t.k == 'vec': return ('v', self.m.sizeof(v.t))
            return ('a', [self.constval(s, e) for e in v.v])
        return OPAQUE

    def val(self, s, v):
        if v.k == 'local':
            r = s.env.get(v.v)
            if r is None: return UNDEF
            return s.nv(r)
        r = self.constval(s, v)
        if r[0] == 'p' and r[1] not in s.objs: self.globalobj(s, r[1])
        return r

    def toint(self, s, v, w):
        """[(state, Lin)] for an integer value (forking booleans)"""
        if v[0] == 'i': return [(s, v[2])]
        if v[0] == 'b':
            out = []
            d = self.decide(s, v[1])
            if d is not None: return [(s, C(1 if d else 0))]
            for t in (True, False):
                for n in self.assume(s.clone(), v[1], t): out.append((n, C(1 if t else 0)))
            return out
        if v[0] == 'u':
            self.undef_use(s)
            return [(s, fresh('undef', 0, (1 << w) - 1))]
        if v[0] == 'null': return [(s, ZERO)]
        if v[0] == 'p':
            return [(s, term('addr', (v[1],), 1, (1 << 63)) + v[2])]
        if v[0] == 'lp':
            out = []
            for n, p in self.force(s, v): out += self.toint(n, p, w)
            return out
        return [(s, fresh('x', 0, (1 << w) - 1))]

    def undef_use(self, s):
        if self.mon.get('undef'): self.mon['undef'](self, s)

    def tocond(self, s, v):
        if v[0] == 'b': return v[1]
        if v[0] == 'i': return ('cmp', 'ne', v[2], ZERO, v[1])
        if v[0] == 'u': self.undef_use(s)
        return ('any',)

    # ---------------------------------------------------------------- exec
    def liveness(self, f):
        if f.name in self.live: return self.live[f.name]
        use, dfn = {}, {}
        for bn in f.order:
            u, d = set(), set()
            for i in f.blocks[bn].ins:
                if i.op != 'phi':
                    for o in i.ops:
                        if o is not None and o.k == 'local' and o.v not in d: u.add(o.v)
                    if i.op == 'call' and i.x.k == 'local' and i.x.v not in d: u.add(i.x.v)
                if i.res: d.add(i.res)
            use[bn], dfn[bn] = u, d
        live = {b: set() for b in f.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.order):
                out = set()
                for sx in f.blocks[b].succs:
                    out |= live[sx]
                    for i in f.blocks[sx].ins:
                        if i.op != 'phi': break
                        for o, pb in zip(i.ops, i.x):
                            if pb == b and o.k == 'local': out.add(o.v)
                n = use[b] | (out - dfn[b])
                if n != live[b]: live[b] = n; ch = True
        # live at block start after phis
        self.live[f.name] = live
        return live

    def call(self, s, fname, args, ins=None):
        """[(state, retval)]"""
        if self.deadline and time.time() > self.deadline: raise AnalysisBroken('analysis budget exceeded')
        self.stats['calls'] += 1
        c = self.contracts.get(fname)
        if c is None and '.' in fname: c = self.contracts.get(fname.split('.')[0] + '.*')
        if c is not None:
            r = c(self, s, args, ins)
            if r is not None: return r
        f = self.m.funcs.get(fname)
        if f is None or not f.defined:
            r = self.builtin(s, fname, args, ins)
            if r is None:
                raise AnalysisBroken('call to undefined function %s' % fname)
            return r
        if self.depth > self.maxdepth or sum(1 for fr in s.frames if fr[0] == fname) > 2:
            raise AnalysisBroken('recursion in %s without contract' % fname)
        if self.onrecursion and any(fr[0] == fname for fr in s.frames):
            args = self.onrecursion(self, s, f, args)
            if isinstance(args, tuple):
                # the results of the call, by an inductive contract
                return args[1]
        self.stats['funcs'].add(fname)
        self.depth += 1
        saved, frames = s.env, s.frames
        s.frames = frames + ((fname, saved),)
        s.env = {}
        for (nm, t, a), v in zip(f.params, args): s.env[nm] = v
        try:
            out = self.run_func(f, s)
        finally:
            self.depth -= 1
        res = []
        for n, rv in out:
            dead = n.ghost.get('__allocas_%d' % len(n.frames), ())
            for a in dead:
                if a in n.objs: n.objs = dict(n.objs); del n.objs[a]
            n.ghost.pop('__allocas_%d' % len(n.frames), None)
            n.env, n.frames = saved_env(n.frames), frames
            res.append((n, rv))
        mon = self.mon.get('ret')
        if mon: mon(self, fname, args, res)
        return res

    def run_func(self, f, s):
        rets = []
        self.run(f, [(f.order[0], None, s)], None, None, rets)
        if len(rets) > self.pathcap: raise AnalysisBroken('path explosion in %s' % f.name)
        return rets

    def run(self, f, work, body, head, rets):
        """execute until leaving `body` / returning to `head`.
        Returns (latches, exits): lists of (pred, state) and (block, pred, state)."""
        lps = ir.loops(f)
        latches, exits = [], []
        work = list(work)
        first = True
        while work:
            b, pred, s = work.pop()
            if body is not None and b not in body:
                exits.append((b, pred, s)); continue
            if b == head and pred is not None:
                latches.append((pred, s)); continue
            if b in lps and b != head:
                for x in self.run_loop(f, b, pred, s, lps[b], rets): work.append(x)
                continue
            self.run_block(f, b, pred, s, work, rets)
        return latches, exits

    def phis(self, f, b, pred, s):
        blk = f.blocks[b]
        new = {}
        for i in blk.ins:
            if i.op != 'phi': break
            for o, pb in zip(i.ops, i.x):
                if pb == pred:
                    new[i.res] = self.val(s, o); break
            else:
                raise AnalysisBroken('phi without edge in %s' % f.name)
        s.env.update(new)

    def run_block(self, f, b, pred, s, work, rets, skip_phi=False):
        blk = f.blocks[b]
        if pred is not None and not skip_phi: self.phis(f, b, pred, s)
        i = 0
        while blk.ins[i].op == 'phi': i += 1
        states = [s]
        n = len(blk.ins)
        # depth-first over forks
        stack = [(i, s)]
        while stack:
            i, s = stack.pop()
            while True:
                ins = blk.ins[i]
                self.cur = ins
                self.stats['instr'] += 1
                op = ins.op
                if op == 'br':
                    if not ins.ops:
                        work.append((ins.x[0], b, s))
                    else:
                        c = self.tocond(s, self.val(s, ins.ops[0]))
                        self.stats['branches'] += 1
                        if c[0] == 'c':
                            work.append((ins.x[0] if c[1] else ins.x[1], b, s))
                        elif ins.x[0] == ins.x[1]:
                            work.append((ins.x[0], b, s))
                        else:
                            res = []
                            for t in (True, False):
                                for nst in self.assume(s.clone(), c, t):
                                    res.append((ins.x[0] if t else ins.x[1], nst, t))
                            for tgt, nst, t in res:
                                if len(res) > 1:
                                    nst.trace = (nst.trace, (self.m.loc(ins.dbg), t))
                                work.append((tgt, b, nst))
                    break
                if op == 'switch':
                    for ns, l in self.toint(s, self.val(s, ins.ops[0]), 32):
                        w = ins.ops[0].t.a
                        cur = [ns]
                        for cv, tgt in ins.x[1]:
                            nxt = []
                            for q in cur:
                                for z in self.assume_cmp(q.clone(), 'eq', l, C(cv), w):
                                    z.trace = (z.trace, (self.m.loc(ins.dbg), 'case %d' % cv))
                                    work.append((tgt, b, z))
                                nxt += self.assume_cmp(q, 'ne', l, C(cv), w)
                            cur = nxt
                        for q in cur: work.append((ins.x[0], b, q))
                    break
                if op == 'ret':
                    self.stats['paths'] += 1
                    rets.append((s, self.val(s, ins.ops[0]) if ins.ops else None))
                    break
                if op == 'unreachable':
                    break
                out = self.step(s, ins)
                if out is None:
                    i += 1; continue
                if not out: break
                for ns in out[1:]: stack.append((i + 1, ns))
                s = out[0]; i += 1

    # returns None (s updated in place) or list of successor states
    def step(self, s, ins):
        op = ins.op
        env = s.env

        def put(outs):
            if len(outs) == 1 and outs[0][0] is s:
                s.env[ins.res] = outs[0][1]; return None
            r = []
            for n, v in outs:
                n.env[ins.res] = v; r.append(n)
            return r

        if op == 'alloca':
            size = self.m.sizeof(ins.x)
            if ins.ops and ins.ops[0] is not None:
                cnt = self.val(s, ins.ops[0])
                if cnt[0] == 'i': sz = cnt[2].scale(size)
                else: sz = None
                if sz is not None and sz.t: s.ghost['__dynalloca'] = I(8, 1)
            else: sz = C(size)
            o = Obj('a:%s:%d:%s' % (ins.fn.name, len(s.frames), ins.res), sz, ('undef',), 'stack')
            if o.id in s.objs and not (ins.blk.name == ins.fn.order[0]):
                o.id += ':%d' % uid()
            if self.dynalloca and sz is not None and (sz.t or ins.ops and ins.ops[0] is not None): self.dynalloca(self, s, o)
            s.add(o)
            k = '__allocas_%d' % len(s.frames)
            s.ghost[k] = s.ghost.get(k, ()) + (o.id,)
            env[ins.res] = ('p', o.id, ZERO)
            return None
        if op == 'load':
            p = self.val(s, ins.ops[0])
            t = ins.t
            want = 'p' if t.k == 'ptr' else 'i' if t.k == 'int' else 'v'
            n = self.m.sizeof(t)
            outs = []
            for s1, p1 in self.deref(s, p, 'read', ins):
                for s2, v in self.load(s1, p1, n, want, ins):
                    if v[0] == 'i' and want == 'i' and t.a != v[1]:
                        v = I(t.a, v[2])
                    if want == 'i' and t.a == 1 and v[0] == 'i': v = ('b', ('cmp', 'ne', v[2], ZERO, 8))
                    if want == 'p' and v[0] == 'i':
                        v = OPAQUE if v[2].const() != 0 else NULL
                    outs.append((s2, v))
            return put(outs)
        if op == 'store':
            v, p = self.val(s, ins.ops[0]), self.val(s, ins.ops[1])
            n = self.m.sizeof(ins.ops[0].t)
            outs = []
            for s1, p1 in self.deref(s, p, 'write', ins):
                vs = [(s1, v)]
                if v[0] == 'b':
                    vs = [(a, I(8, l)) for a, l in self.toint(s1, v, 8)]
                for s2, vv in vs:
                    self.store(s2, p1, n, vv, ins)
                    outs.append(s2)
            return None if len(outs) == 1 and outs[0] is s else outs
        if op == 'getelementptr':
            return self.gep(s, ins, put)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            if ins.t.k == 'vec': env[ins.res] = ('v', self.m.sizeof(ins.t)); return None
            a, b = self.val(s, ins.ops[0]), self.val(s, ins.ops[1])
            w = ins.t.a
            if w == 1:
                ca, cb = self.tocond(s, a), self.tocond(s, b)
                env[ins.res] = ('b', self.boolop(op, ca, cb)); return None
            outs = []
            for s1, x in self.toint(s, a, w):
                for s2, y in self.toint(s1, b, w):
                    outs += [(n, I(w, l)) for n, l in self.arith(s2, op, w, s2.st.norm(x), s2.st.norm(y), ins)]
            return put(outs)
        if op == 'icmp':
            if ins.ops[0].t.k == 'vec': env[ins.res] = ('v', 16); return None
            a, b = self.val(s, ins.ops[0]), self.val(s, ins.ops[1])
            if ins.ops[0].t.k == 'ptr':
                env[ins.res] = ('b', self.simpcond(s, ('pcmp', ins.x, a, b))); return None
            w = ins.ops[0].t.a
            if w == 1 or a[0] == 'b' or b[0] == 'b':
                outs = []
                for s1, x in self.toint(s, a, w):
                    for s2, y in self.toint(s1, b, w):
                        outs.append((s2, ('b', self.simpcond(s2, ('cmp', ins.x, x, y, w)))))
                return put(outs)
            outs = []
            for s1, x in self.toint(s, a, w):
                for s2, y in self.toint(s1, b, w):
                    outs.append((s2, ('b', self.simpcond(s2, ('cmp', ins.x, x, y, w)))))
            return put(outs)
        if op in ('zext', 'sext', 'trunc'):
            if ins.t.k == 'vec' or ins.ops[0].t.k == 'vec': env[ins.res] = ('v', self.m.sizeof(ins.t)); return None
            v = self.val(s, ins.ops[0])
            wf, wt = ins.ops[0].t.a, ins.t.a
            outs = []
            if op == 'trunc':
                if wt == 1:
                    for s1, l in self.toint(s, v, wf):
                        for s2, l2 in self.canon(s1, l, wf):
                            _, r = euclid(s2.st, l2, 2)
                            outs.append((s2, ('b', ('cmp', 'ne', r, ZERO, wf))))
                    return put(outs)
                for s1, l in self.toint(s, v, wf):
                    outs.append((s1, I(wt, l)))
                return put(outs)
            for s1, l in self.toint(s, v, wf):
                if wf == 1 and op == 'sext':
                    outs.append((s1, I(wt, -l))); continue
                for s2, l2 in self.canon(s1, l, wf, op == 'sext' and wf > 1):
                    outs.append((s2, I(wt, l2)))
            return put(outs)
        if op == 'select':
            c = self.val(s, ins.ops[0])
            if c[0] == 'v' or ins.ops[0].t.k == 'vec': env[ins.res] = ('v', self.m.sizeof(ins.t)); return None
            c = self.tocond(s, c)
            if c[0] == 'c':
                env[ins.res] = self.val(s, ins.ops[1] if c[1] else ins.ops[2]); return None
            x, y = self.val(s, ins.ops[1]), self.val(s, ins.ops[2])
            if x == y: env[ins.res] = x; return None
            if x[0] == 'b' and y[0] == 'b':
                env[ins.res] = ('b', self.simpcond(s, self.boolop('or', self.boolop('and', c, x[1]), self.boolop('and', neg(c), y[1])))); return None
            out = []
            for t, v in ((True, ins.ops[1]), (False, ins.ops[2])):
                for n in self.assume(s.clone(), c, t):
                    n.env[ins.res] = self.val(n, v); out.append(n)
            return out
        if op == 'call':
            return self.do_call(s, ins, put)
        if op in ('bitcast', 'freeze', 'addrspacecast'):
            v = self.val(s, ins.ops[0])
            if ins.t.k == 'vec': v = ('v', self.m.sizeof(ins.t))
            elif v[0] == 'v' and ins.t.k == 'int': v = I(ins.t.a, fresh('vec', 0, (1 << ins.t.a) - 1))
            env[ins.res] = v; return None
        if op == 'ptrtoint':
            return put([(n, I(ins.t.a, l)) for n, l in self.toint(s, self.val(s, ins.ops[0]), 64)])
        if op == 'inttoptr':
            env[ins.res] = OPAQUE; return None
        if op == 'extractvalue':
            v = self.val(s, ins.ops[0])
            for i in ins.x: v = v[1][i] if v[0] == 'a' else UNDEF
            env[ins.res] = v; return None
        if op == 'insertvalue':
            a, v = self.val(s, ins.ops[0]), self.val(s, ins.ops[1])
            env[ins.res] = self.insert(a, ins.x, v, ins.t); return None
        if op in ('insertelement', 'shufflevector'):
            env[ins.res] = ('v', self.m.sizeof(ins.t)); return None
        if op == 'extractelement':
            env[ins.res] = self.havoc('i', self.m.sizeof(ins.t)) if ins.t.k == 'int' else OPAQUE; return None
        if ins.res: env[ins.res] = OPAQUE
        return None

    def insert(self, a, ix, v, t):
        t = self.m.resolve(t)
        n = len(t.a) if t.k == 'struct' else t.a
        es = list(a[1]) if a[0] == 'a' else [UNDEF] * n
        if len(ix) == 1: es[ix[0]] = v
        else: es[ix[0]] = self.insert(es[ix[0]], ix[1:], v, t.a[ix[0]] if t.k == 'struct' else t.b)
        return ('a', es)

    def boolop(self, op, a, b):
        if op == 'and':
            if a[0] == 'c': return b if a[1] else FALSE
            if b[0] == 'c': return a if b[1] else FALSE
            return ('and', a, b)
        if op == 'or':
            if a[0] == 'c': return TRUE if a[1] else b
            if b[0] == 'c': return TRUE if b[1] else a
            return ('or', a, b)
        if op == 'xor':
            if b[0] == 'c': return neg(a) if b[1] else a
            if a[0] == 'c': return neg(b) if a[1] else b
            return ('xor', a, b)
        return ('any',)

    def simpcond(self, s, c):
        if c[0] == 'cmp':
            a, b = s.st.norm(c[2]), s.st.norm(c[3])
            if not a.t and not b.t:
                if c[1] not in ('eq', 'ne') and 0 < b.c < 64: self.cmps.add(('k', b.c))
                return TRUE if self.constcmp(c[1], a.c, b.c, c[4]) else FALSE
            if a == b and c[1] in ('eq', 'ule', 'uge', 'sle', 'sge'): return TRUE
            if a == b: return FALSE
        if c[0] == 'pcmp' and c[1] in ('eq', 'ne'):
            p, q = s.nv(c[2]), s.nv(c[3])
            if p[0] in ('null', 'p', 'f') and q[0] in ('null', 'p', 'f'):
                if p[0] != q[0] or (p[0] != 'null' and p[1] != q[1]): return FALSE if c[1] == 'eq' else TRUE
                if p[0] in ('null', 'f') or p[2] == q[2]: return TRUE if c[1] == 'eq' else FALSE
        return c

    def gep(self, s, ins, put):
        base = self.val(s, ins.ops[0])
        outs = [(s, ZERO)]
        t = ins.x
        idx = ins.ops[1:]
        # first index scales by sizeof(t)
        lins = []
        for j, o in enumerate(idx):
            if j == 0: sc = self.m.sizeof(t)
            else:
                t = self.m.resolve(t)
                if t.k == 'struct':
                    d, t = self.m.field_off(t, o.v)
                    outs = [(n, l + d) for n, l in outs]
                    continue
                t = t.b; sc = self.m.sizeof(t)
            nxt = []
            for n, l in outs:
                for n2, x in self.toint(n, self.val(n, o), 64):
                    if o.t.a < 64:
                        for n3, y in self.canon(n2, x, o.t.a, True): nxt.append((n3, l + y.scale(sc)))
                    else: nxt.append((n2, l + x.scale(sc)))
            outs = nxt
        res = []
        for n, off in outs:
            b = n.nv(base)
            off = n.st.norm(off)
            if not off.t and off.c == 0:
                res.append((n, b)); continue
            if b[0] == 'lp':
                for n2, p in self.force(n, b):
                    if p[0] == 'p':
                        # materialising may have shrunk nothing; keep offsets signed
                        res.append((n2, ('p', p[1], p[2] + n2.st.norm(off))))
                    else: res.append((n2, p if p[0] != 'null' else ('np', off)))
            elif b[0] == 'p':
                no = n.st.norm(b[2] + off)
                if no.t:
                    # keep pointer offsets canonical (signed) where cheap
                    lo, hi = n.st.interval(no)
                    if hi >= U64 // 2 or lo < -U64 // 2:
                        if not (n.st.entails(no + U64 // 2) and n.st.entails(C(U64 // 2) - no)):
                            for n2, x in self.canon(n, no, 64, True): res.append((n2, ('p', b[1], x)))
                            continue
                elif abs(no.c) >= U64 // 2:
                    no = C((no.c + U64 // 2) % U64 - U64 // 2)
                res.append((n, ('p', b[1], no)))
            elif b[0] == 'null':
                res.append((n, ('np', off)))
            elif b[0] == 'np':
                res.append((n, ('np', b[1] + off)))
            else:
                res.append((n, b))
        return put(res)

    def deref(self, s, p, what, ins):
        """[(state, ('p',...))]; reports null/invalid pointers"""
        p = s.nv(p)
        if p[0] == 'lp':
            out = []
            for n, v in self.force(s, p): out += self.deref(n, v, what, ins)
            return out
        if p[0] == 'p': return [(s, p)]
        if p[0] in ('null', 'np'):
            self.report(s, 'null', '%s through a null pointer' % what, ins)
            return []
        if p[0] == 'u':
            self.report(s, 'uninit', '%s through an uninitialised pointer' % what, ins)
            return []
        self.report(s, 'wildptr', '%s through a pointer that is not known to be valid' % what, ins)
        return []

    # ---------------------------------------------------------------- arithmetic
    def arith(self, s, op, w, x, y, ins):
        M = 1 << w
        if op == 'add': return [(s, x + y)]
        if op == 'sub': return [(s, x - y)]
        if op == 'mul':
            if not x.t: x, y = y, x
            if not y.t: return [(s, x.scale(y.c))]
            return self.mulrule(s, x, y, w)
        if op == 'shl':
            if not y.t: return [(s, x.scale(1 << y.c)) if y.c < w else (s, ZERO)]
            return [(s, term('shl', (x, y, w), 0, M - 1))]
        if op in ('lshr', 'udiv', 'urem'):
            if not y.t:
                d = (1 << y.c) if op == 'lshr' else y.c
                if d == 0: self.report(s, 'div0', 'division by zero'); return []
                out = []
                for n, l in self.canon(s, x, w):
                    q, r = euclid(n.st, l, d)
                    out.append((n, r if op == 'urem' else q))
                return out
            if op == 'lshr': return [(s, term('lshr', (x, y, w), 0, M - 1))]
            out = []
            for n, a in self.canon(s, x, w):
                for n2, b in self.canon(n, y, w):
                    if not n2.st.entails(b - 1):
                        self.report(n2, 'div0', 'division by a possibly zero value')
                    q = S.term('udiv', (a, b), 0, M - 1)
                    p = S.term('prod', (b, V(q)), 0, M - 1)
                    if p not in S.ax:
                        S.ax[p] = [a - V(p), V(p) + b - a - 1]
                        S.ax[q] = [a - V(q)]
                    n2.st.use(V(p)); n2.st.use(V(q))
                    out.append((n2, V(q) if op == 'udiv' else a - V(p)))
            return out
        if op == 'ashr':
            if not y.t:
                out = []
                for n, l in self.canon(s, x, w, True):
                    q, r = euclid(n.st, l, 1 << y.c)
                    out.append((n, q))
                return out
            return [(s, fresh('ashr', -(M >> 1), (M >> 1) - 1))]
        if op == 'and':
            if not x.t: x, y = y, x
            if not x.t and not y.t: return [(s, C((x.c % M) & (y.c % M)))]
            if not y.t:
                m = y.c % M
                if m == 0: return [(s, ZERO)]
                if m == M - 1: return [(s, x)]
                # contiguous mask bits lo..hi-1
                lo = (m & -m).bit_length() - 1
                top = m >> lo
                if top & (top + 1) == 0:
                    hi = lo + top.bit_length()
                    out = []
                    for n, l in self.canon(s, x, w):
                        if hi < w: _, l = euclid(n.st, l, 1 << hi)
                        if lo:
                            q, _ = euclid(n.st, l, 1 << lo)
                            l = q.scale(1 << lo)
                        out.append((n, n.st.norm(l)))
                    return out
                inv = (~m) % M
                return [(s, term('and', (x, m, w), 0, m))]
            return [(s, term('and', tuple(sorted((x, y), key=lambda z: (z.c, z.t))) + (w,), 0, M - 1))]
        if op == 'or':
            if not x.t: x, y = y, x
            if not x.t: return [(s, C((x.c % M) | (y.c % M)))]
            if not y.t:
                m = y.c % M
                if m == 0: return [(s, x)]
                if m & (m - 1) == 0:
                    out = []
                    b = m.bit_length() - 1
                    for n, l in self.canon(s, x, w):
                        q, _ = euclid(n.st, l, m)
                        if b < w - 1: _, q = euclid(n.st, q, 2)
                        for t in (0, 1):
                            n2 = n.clone(); n2.st.eq0(q - t)
                            if n2.st.sat(q.syms()): out.append((n2, n2.st.norm(l) if t else n2.st.norm(l + m)))
                    return out
            for a, b in ((x, y), (y, x)):
                g = 0
                for _, k in a.t: g = gcd(g, k)
                g = gcd(g, a.c)
                p2 = g & -g if g else 0
                if p2 > 1:
                    for n, l in [(s, b)]:
                        l = n.st.norm(l)
                        if n.st.entails(l) and n.st.entails(C(p2 - 1) - l): return [(n, a + l)]
            return [(s, term('or', tuple(sorted((x, y), key=lambda z: (z.c, z.t))) + (w,), 0, M - 1))]
        if op == 'xor':
            if not x.t: x, y = y, x
            if not x.t: return [(s, C((x.c % M) ^ (y.c % M)))]
            if not y.t and y.c % M == M - 1: return [(s, -x - 1)]
            if not y.t and y.c == 0: return [(s, x)]
            return [(s, term('xor', tuple(sorted((x, y), key=lambda z: (z.c, z.t))) + (w,), 0, M - 1))]
        return [(s, fresh(op, 0, M - 1))]

    def mulrule(self, s, x, y, w):
        M = 1 << w
        for a, b in ((x, y), (y, x)):
            # a * (q + c) with q = udiv(z, a)
            for sy, k in b.t:
                dn = S.defn[sy]
                if k == 1 and dn and dn[0] == 'udiv' and s.st.norm(dn[2]) == a:
                    p = S.cons.get(('prod', dn[2], V(sy)))
                    rest = b - V(sy)
                    if p is not None and not rest.t:
                        return [(s, s.st.norm(V(p) + a.scale(rest.c)))]
        out = []
        for n, a in self.canon(s, x, w):
            for n2, b in self.canon(n, y, w):
                key = tuple(sorted((a, b), key=lambda z: (z.c, z.t)))
                (a0, a1), (b0, b1) = n2.st.interval(a), n2.st.interval(b)
                hi = a1 * b1
                if hi < M: out.append((n2, term('mul', key, 0, hi)))
                else: out.append((n2, term('mulw', key + (w,), 0, M - 1)))
        return out

    # ---------------------------------------------------------------- calls
    def do_call(self, s, ins, put):
        cal = ins.x
        args = [self.val(s, a) for a in ins.ops]
        if cal.k == 'global' and cal.v in self.m.funcs:
            name = cal.v
            outs = self.call(s, name, args, ins)
        else:
            fv = self.val(s, cal)
            outs = []
            todo = [(s, fv)]
            if fv[0] == 'lp': todo = self.force(s, fv)
            for n, v in todo:
                if v[0] == 'f':
                    outs += self.call(n, v[1], [n.nv(a) for a in args], ins)
                elif v[0] in ('null', 'np'):
                    self.report(n, 'nullcall', 'call through a null function pointer', ins)
                else:
                    r = self.unknown_call(n, v, args, ins)
                    outs += r
        if not ins.res:
            if len(outs) == 1 and outs[0][0] is s: return None
            return [n for n, _ in outs]
        fixed = []
        for n, v in outs:
            if v is None: v = UNDEF
            if ins.t.k == 'int' and v[0] == 'i' and v[1] != ins.t.a: v = I(ins.t.a, v[2])
            fixed.append((n, v))
        return put(fixed)

    def unknown_call(self, s, v, args, ins):
        self.report(s, 'wildcall', 'call through a function pointer that is not known to be valid', ins)
        return []

    def builtin(self, s, name, args, ins):
        if name.startswith('llvm.memcpy') or name == 'memcpy':
            return self.memop(s, args, False, ins)
        if name.startswith('llvm.memmove') or name == 'memmove':
            return self.memop(s, args, True, ins)
        if name.startswith('llvm.memset') or name == 'memset':
            out = []
            for s1, n in self.toint(s, args[2], 64):
                n = s1.st.norm(n)
                if not n.t and n.c == 0: out.append((s1, args[0])); continue
                for s2, d in self.deref(s1, args[0], 'write', ins):
                    if self.check(s2, d, n, 'write', ins):
                        o = s2.wobj(d[1])
                        z = args[1][0] == 'i' and args[1][2].const() == 0
                        doff = s2.st.norm(d[2])
                        mon = self.mon.get('store')
                        if mon: mon(self, s2, o, doff, n, ('zero',))
                        if z and o.kind == 'stack' and not n.t and not doff.t and doff.c == 0 and o.size is not None and not o.size.t and o.size.c == n.c:
                            o.cells, o.segs, o.base = {}, [], ('zero',)
                        elif z and self.zerocells(s2, o, doff, n): pass
                        else:
                            self.segwrite(s2, o, doff, n, ('zero',) if z else ('unknown',))
                    out.append((s2, d))
            return out
        if name.startswith('llvm.'):
            if name.startswith(('llvm.stacksave',)): return [(s, OPAQUE)]
            if name.startswith(('llvm.stackrestore', 'llvm.assume', 'llvm.va_', 'llvm.prefetch')): return [(s, None)]
            if name.startswith('llvm.expect'): return [(s, args[0])]
            if name.startswith('llvm.is.constant'): return [(s, ('b', FALSE))]
            if name.startswith(('llvm.ctlz', 'llvm.cttz', 'llvm.ctpop')):
                w = ins.t.a
                out = []
                for n, l in self.toint(s, args[0], w):
                    out.append((n, I(w, term(name, (n.st.norm(l),), 0, w))))
                return out
            if 'pmovmskb' in name: return [(s, I(32, fresh('mask', 0, 65535)))]
            if name.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
                w = ins.t.a
                sg = name[5] == 's'
                out = []
                for n, x in self.toint(s, args[0], w):
                    for n2, y in self.toint(n, args[1], w):
                        lt = ('cmp', 'slt' if sg else 'ult', x, y, w)
                        for t in (True, False):
                            for n3 in self.assume(n2.clone(), lt, t):
                                out.append((n3, I(w, x if t == (name[6:9] == 'min') else y)))
                return out
            if ins is not None and ins.res:
                return [(s, self.havoc('i', self.m.sizeof(ins.t)) if ins.t.k == 'int' else ('v', 16) if ins.t.k == 'vec' else OPAQUE)]
            return [(s, None)]
        if name == 'memcmp':
            out = []
            for s1, n in self.toint(s, args[2], 64):
                n = s1.st.norm(n)
                sts = [(s1, args[0], args[1])]
                zero = s1.st.entails_eq(n)
                if zero: out.append((s1, I(32, 0))); continue
                if not s1.st.entails_ne(n):
                    z = s1.clone(); z.st.eq0(n)
                    if z.st.sat(n.syms()): out.append((z, I(32, 0)))
                    s1.st.ne0(n)
                    if not s1.st.sat(n.syms()): continue
                for s2, a in self.deref(s1, args[0], 'read', ins):
                    for s3, b in self.deref(s2, args[1], 'read', ins):
                        self.check(s3, a, n, 'read', ins); self.check(s3, b, n, 'read', ins)
                        out.append((s3, I(32, fresh('memcmp', -(1 << 31), (1 << 31) - 1))))
            return out
        if name == 'strlen':
            return [(s, I(64, fresh('strlen', 0, 1 << 62)))]
        if name == 'strcmp':
            return [(s, I(32, fresh('strcmp', -(1 << 31), (1 << 31) - 1)))]
        if name in ('malloc', 'realloc', 'free', 'calloc'):
            return self.cheap(s, name, args, ins)
        if name in ('fprintf', 'printf', 'fputs', 'puts', 'fputc', 'putchar', 'fwrite', 'abort', 'exit'):
            return [(s, I(32, fresh('io')))] if name not in ('abort', 'exit') else []
        return None

    def memop(self, s, args, move, ins):
        out = []
        for s1, n in self.toint(s, args[2], 64):
            for s2, n in self.canon(s1, n, 64):
                if not n.t and n.c == 0:
                    out.append((s2, args[0])); continue
                if n.t and not s2.st.entails(n - 1):
                    z = s2.clone(); z.st.eq0(n)
                    if z.st.sat(n.syms()): out.append((z, args[0]))
                    s2.st.ge0(n - 1)
                    if s2.st.bot or not s2.st.sat(n.syms()): continue
                for s3, d in self.deref(s2, args[0], 'write', ins):
                    for s4, sr in self.deref(s3, args[1], 'read', ins):
                        self.copy(s4, s4.nv(d), s4.nv(sr), n, move, ins)
                        out.append((s4, d))
        return out

    # default C heap model; specs replace it when they need more
    def cheap(self, s, name, args, ins):
        if name == 'malloc':
            out = []
            for s1, n in self.toint(s, args[0], 64):
                for s2, n in self.canon(s1, n, 64):
                    f = s2.clone()
                    f.ghost['oom'] = I(8, 1)
                    o = self.new_obj(s2, n)
                    o.info = dict(owner='malloc')
                    s2.ghost['nalloc'] = I(64, s2.ghost.get('nalloc', I(64, 0))[2] + 1)
                    out += [(s2, ('p', o.id, ZERO)), (f, NULL)]
            return out
        if name == 'free':
            out = []
            p = s.nv(args[0])
            for n, v in self.force(s, p) if p[0] == 'lp' else [(s, p)]:
                if v[0] == 'null': out.append((n, None)); continue
                if v[0] != 'p':
                    self.report(n, 'free', 'release of a pointer that is not known to be valid', ins); continue
                self.release(n, v, ins)
                out.append((n, None))
            return out
        if name == 'realloc':
            out = []
            p = s.nv(args[0])
            for n, v in self.force(s, p) if p[0] == 'lp' else [(s, p)]:
                for s1, sz in self.toint(n, args[1], 64):
                    for s2, sz in self.canon(s1, sz, 64):
                        f = s2.clone(); f.ghost['oom'] = I(8, 1)
                        out.append((f, NULL))
                        for s3 in self.resizes(s2, v, sz): out.append((s3, self.realloc_ok(s3, v, sz, ins)))
            return [x for x in out if x[1] is not None]
        raise AnalysisBroken(name)

    @staticmethod
    def owner(o): return o.info.get('owner', 'malloc') if isinstance(o.info, dict) else 'malloc'

    def release(self, s, v, ins, owner='malloc'):
        o = s.objs.get(v[1])
        if o is None or o.kind != 'heap':
            self.report(s, 'free', 'release of memory that is not on the heap', ins); return
        if self.owner(o) != owner:
            self.report(s, 'free', 'memory is released through another allocator than it was obtained from', ins); return
        if not o.alive:
            self.report(s, 'double-free', 'memory is released twice', ins); return
        if s.st.norm(v[2]) != ZERO:
            self.report(s, 'free', 'release of a pointer into the middle of a block', ins); return
        s.wobj(v[1]).alive = False

    def resizes(self, s, v, sz):
        """partition a resize into growing and shrinking"""
        o = s.objs.get(v[1]) if v[0] == 'p' else None
        if o is None or o.size is None or s.st.entails(sz - o.size) or s.st.entails(o.size - sz): return [s]
        t = s.clone()
        s.st.ge0(sz - o.size); t.st.ge0(o.size - sz - 1)
        return [x for x in (s, t) if not x.st.bot and x.st.sat()]

    def realloc_ok(self, s, v, size, ins, owner='malloc'):
        """successful resize of block v to size; returns new pointer"""
        if not s.st.entails(size - 1):
            self.report(s, 'free', 'a block may be resized to no bytes at all, which releases it', ins)
        if v[0] in ('null',):
            o = self.new_obj(s, size)
            o.info = dict(owner=owner)
            return ('p', o.id, ZERO)
        if v[0] != 'p':
            self.report(s, 'free', 'resize of a pointer that is not known to be valid', ins); return None
        old = s.objs.get(v[1])
        if old is None or old.kind != 'heap':
            self.report(s, 'free', 'resize of memory that is not on the heap', ins); return None
        if self.owner(old) != owner:
            self.report(s, 'free', 'memory is resized through another allocator than it was obtained from', ins); return None
        if not old.alive:
            self.report(s, 'use-after-free', 'resize of released memory', ins); return None
        if s.st.norm(v[2]) != ZERO:
            self.report(s, 'free', 'resize of a pointer into the middle of a block', ins); return None
        snap = old.clone()
        o = self.new_obj(s, size, ('undef',))
        o.info = dict(frm=old.id, owner=owner)
        # contents preserved up to min(old size, new size)
        if snap.size is not None:
            n = snap.size if s.st.entails(size - snap.size) else size if s.st.entails(snap.size - size) else None
            if n is None:
                n = term('min', (snap.size, size)); sy = n.t[0][0]
                if sy not in S.ax: S.ax[sy] = [snap.size - n, size - n, n]
                s.st.use(n)
            if not (not n.t and n.c == 0): o.segs.append((ZERO, n, ('copy', snap, ZERO)))
        else: o.segs.append((ZERO, size, ('copy', snap, ZERO)))
        s.wobj(v[1]).alive = False
        return ('p', o.id, ZERO)

    # ---------------------------------------------------------------- loops
    def run_loop(self, f, head, pred, s, body, rets):
        """fixpoint; returns list of (block, pred, state) leaving the loop"""
        import loops as L
        return L.run_loop(self, f, head, pred, s, body, rets)


LAZY = {}


def saved_env(frames):
    return dict(frames[-1][1])


def objname(o):
    if o.kind == 'lazy' and o.info and o.info.get('field', {}).get('name'): return "'%s'" % o.info['field']['name']
    return str(o.id)
