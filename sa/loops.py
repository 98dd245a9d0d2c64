"""Loop fixpoints of the abstract interpreter: at a loop head the states that
arrive are partitioned by shape (which object every pointer refers to); within
a shape the integer parts are joined with the convex hull over fresh symbols
and widened by dropping the constraints that are not inductive."""
import re, time
from math import gcd
from dom import *
import dom
import isl
from ir import AnalysisBroken

INF = 1 << 62
MAXROUND = 40


class Restart(Exception):
    def __init__(self, syms): self.syms = syms


class Head:
    def __init__(self, key):
        self.key = key
        self.var = {}        # loc -> (jsym, base Lin, stride)
        self.K = []          # Lin >= 0
        self.dom = {}        # jsym -> frozenset
        self.rep = None      # representative state (shape)
        self.round = 0
        self.unk = set()     # objects whose content is unknown
        self.gen = {}        # loc -> (lazy sym) generalised list pointers
        self.hv = set()      # locations holding an unknown value
        self.learn = []      # facts about unchanging symbols that hold in all states arriving here
        self.noj = {}


def stable_fn(mark):
    memo = {}

    def stable(sy):
        if sy < mark: return True
        r = memo.get(sy)
        if r is None:
            d = S.defn[sy]
            memo[sy] = False
            r = memo[sy] = d is not None and all(arg(a) for a in d[1:])
        return r

    def arg(a):
        if isinstance(a, Lin): return all(stable(x) for x, _ in a.t)
        if isinstance(a, tuple): return all(arg(x) for x in a)
        if isinstance(a, str):
            m = re.fullmatch(r'L(\d+)', a)
            return stable(int(m.group(1))) if m else True
        return True

    def lin(l): return all(stable(x) for x, _ in l.t)
    return stable, lin


def run_loop(ip, f, head, pred, s, body, rets):
    import interp as X
    todo = [s]
    ip.phis(f, head, pred, s)
    out = []
    n = 0
    if ip.apart:
        # every turn is a partition of its own
        while todo:
            st = todo.pop()
            n += 1
            if n > ip.apart: raise AnalysisBroken('loop in %s: more than %d turns' % (f.name, ip.apart))
            latches, exits = ip.run(f, [(head, None, st)], body, head, rets)
            if ip.deadline and time.time() > ip.deadline: raise AnalysisBroken('analysis budget exceeded')
            for pr, L in latches:
                ip.phis(f, head, pr, L)
                todo.append(L)
            out += exits
        ip.stats['loops'] += 1
        return out
    while todo:
        st = todo.pop()
        try:
            ex, rt = fix(ip, X, f, head, pred, st.clone(), body)
        except Restart as r:
            n += 1
            if n > 24: raise AnalysisBroken('loop in %s: cannot settle the shapes of its objects' % f.name)
            cur = [st]
            for sy in r.syms:
                nxt = []
                for q in cur: nxt += [z for z, _ in ip.force(q, ('lp', sy))]
                cur = nxt
            todo += cur
            continue
        out += ex
        rets += rt
    return out


def fix(ip, X, f, head, pred, s, body):
    ip.stats['loops'] += 1
    live = set(ip.liveness(f)[head])
    for i in f.blocks[head].ins:
        if i.op != 'phi': break
        live.add(i.res)
    s.env = {r: s.nv(v) for r, v in s.env.items() if r in live}
    mark = len(S.name)
    stable, slin = stable_fn(mark)
    entry = debool(ip, s)
    s = entry[0] if len(entry) == 1 else None
    if s is None:
        ex, rt = [], []
        for e in entry:
            a, b = fix(ip, X, f, head, pred, e, body)
            ex += a; rt += b
        return ex, rt
    ctx = Ctx(ip, X, f, head, s, stable, slin, live)
    heads = {}
    h = ctx.newhead(s, heads)
    result = {}
    rounds = 0
    pending = [h]
    outer, inner = ip.cmps, set()
    while pending:
        rounds += 1
        if rounds > 200: raise AnalysisBroken('loop in %s (%s) does not stabilise' % (f.name, head))
        h = pending.pop(0)
        ip.stats['heads'] += 1
        H = ctx.build(h)
        hsnap = ctx.values(h, H) if ip.rank is None else {l: H.st.norm(v[2]) for l, v in ctx.locs(H) if v[0] == 'i'}
        rt = []
        ip.cmps, ip.incmps = set(), set()
        latches, exits = ip.run(f, [(head, None, H)], body, head, rt)
        inner |= ip.cmps | ip.incmps
        if ip.deadline and X.time.time() > ip.deadline: raise AnalysisBroken('analysis budget exceeded')
        result[h.key] = (exits, rt, latches, hsnap)
        for pr, L in latches:
            ip.phis(f, head, pr, L)
            L.env = {r: L.nv(v) for r, v in L.env.items() if r in live}
        byhead = {}
        for pr, L in latches:
            for L2 in debool(ip, L):
                if ip.headhook: ip.headhook(L2)
                ctx.settle(L2)
                key = ctx.key(L2)
                t = heads.get(key)
                if t is None:
                    t = ctx.newhead(L2, heads)
                    if t not in pending: pending.append(t)
                else:
                    byhead.setdefault(key, []).append(L2)
        for key, Ls in byhead.items():
            t = heads[key]
            new = [L for L in Ls if not ctx.included(t, L)]
            if new:
                ctx.join(t, new)
                if t not in pending: pending.append(t)
        if ctx.regen:
            # list generalisation changed the shapes: start over with it
            ctx.regen = False
            heads.clear(); result.clear()
            pending = [ctx.newhead(s, heads)]
    ip.cmps, ip.incmps = outer, inner
    ex, rt = [], []
    for k in heads:
        e, r, la, hs = result[k]
        ex += e; rt += r
    if ip.rank is not None:
        ip.rank(ip, f, head, s, [(heads[k], result[k][2], result[k][3], ctx) for k in heads])
    return ex, rt


def debool(ip, s):
    """turn boolean registers whose condition is symbolic into integers"""
    todo = [r for r, v in s.env.items() if v[0] == 'b' and v[1][0] != 'c']
    cur = [s]
    for r in todo:
        nxt = []
        for q in cur:
            v = q.env[r]
            for n, l in ip.toint(q, v, 1):
                n.env[r] = ('i', 1, l); nxt.append(n)
        cur = nxt
    for q in cur:
        for r, v in q.env.items():
            if v[0] == 'b': q.env[r] = ('i', 1, C(1 if v[1][1] else 0))
    return cur


class Ctx:
    def __init__(self, ip, X, f, head, s, stable, slin, live):
        self.ip, self.X, self.f, self.head, self.s, self.stable, self.slin, self.live = ip, X, f, head, s, stable, slin, live
        self.genlocs = {}      # loc -> (lazy sym, nullable)
        self.regen = False
        self.objs0 = set(s.objs)
        self.j = {}
        self.prime = {}
        self.unprime = {}

    # ------------------------------------------------------------ locations
    def locs(self, s):
        for r, v in s.env.items(): yield ('r', r), v
        for g, v in s.ghost.items():
            yield ('g', g), (v if isinstance(v, tuple) and v and v[0] in ('i', 'p', 'null', 'lp', 'f', 'u', 'x') else ('k', v))
        for oid, o in s.objs.items():
            for c, (n, v) in o.cells.items(): yield ('c', oid, c, n), v
            if o.size is not None: yield ('s', oid), ('i', 64, o.size)

    def get(self, s, loc):
        """value of a location in s or None when absent"""
        k = loc[0]
        if k == 'r': v = s.env.get(loc[1])
        elif k == 'g':
            v = s.ghost.get(loc[1])
            if v is None: return ('i', 64, ZERO)
        elif k == 's':
            o = s.objs.get(loc[1])
            return None if o is None or o.size is None else ('i', 64, s.st.norm(o.size))
        else:
            o = s.objs.get(loc[1])
            if o is None: return None
            c = o.cells.get(loc[2])
            if c is not None and c[0] == loc[3]: return s.nv(c[1])
            r = self.ip.readobj(s, o, C(loc[2]), loc[3], 'p' if loc[3] == 8 and self.ptrcell(loc) else 'i')
            if len(r) != 1: return self.X.OPAQUE
            return s.nv(r[0][1])
        return None if v is None else (s.nv(v) if isinstance(v, tuple) else v)

    pc = None

    def ptrcell(self, loc): return self.pc is not None and (loc[1], loc[2]) in self.pc

    # ------------------------------------------------------------ settle
    def settle(self, L):
        """bring the objects of a latch state into correspondence with the entry"""
        X, ip, s = self.X, self.ip, self.s
        force = []
        # local memory that holds nothing yet on entry holds nothing known here:
        # joining with an undefined value gives an undefined value
        for oid, o in list(L.objs.items()):
            e = s.objs.get(oid)
            if o.kind == 'stack' and e is not None and e.base[0] == 'undef' and o is not e:
                if not e.cells and not e.segs:
                    if o.cells or o.segs:
                        o = L.wobj(oid); o.cells = {}; o.segs = []; o.base = e.base
                else:
                    drop = [c for c in o.cells if not e.segs and not any(c < c2 + n2 and c2 < c + o.cells[c][0] for c2, (n2, _) in e.cells.items())]
                    if drop:
                        o = L.wobj(oid)
                        for c in drop: del o.cells[c]
        # lazily materialised objects
        revert = set()
        for oid in list(L.objs):
            if oid in s.objs: continue
            o = L.objs[oid]
            if o.kind == 'lazy':
                sy = int(oid[1:])
                if not o.cells and not o.segs and o.alive: revert.add(oid)
                elif self.stable(sy): force.append(sy)
                else: revert.add(oid)      # generalised list node written to: content havocked
        if force:
            # owners first
            chain = []
            for sy in force:
                c = []
                while True:
                    c.append(sy)
                    own = X.LAZY[sy].get('owner')
                    m = re.fullmatch(r'L(\d+)', own) if isinstance(own, str) else None
                    if not m or own in s.objs: break
                    sy = int(m.group(1))
                for x in reversed(c):
                    if x not in chain: chain.append(x)
            raise Restart(chain)
        if revert:
            def rv(v):
                if v[0] == 'p' and v[1] in revert:
                    if v[2] == ZERO: return ('lp', int(v[1][1:]))
                    return v
                return v
            self.mapvals(L, rv)
            # keep materialised objects that are referred to in the middle
            mid = set()
            for loc, v in self.locs(L):
                if v[0] == 'p' and v[1] in revert: mid.add(v[1])
            for oid in revert:
                if oid not in mid: L.objs.pop(oid, None)
            st = [int(o[1:]) for o in mid if self.stable(int(o[1:]))]
            if st: raise Restart(st)
        # pointers equal to the entry's unresolved ones
        L.pres = {k: v for k, v in L.pres.items() if k in s.pres}
        # new heap objects
        reach = set()
        order = []
        for loc, v in sorted(((l, v) for l, v in self.locs(L)), key=lambda z: repr(z[0])):
            if v[0] == 'p' and v[1] not in s.objs and v[1] in L.objs and v[1] not in reach:
                reach.add(v[1]); order.append((loc, v[1]))
        for oid in list(L.objs):
            o = L.objs[oid]
            if oid not in s.objs and oid not in reach and o.kind != 'global' and oid[0] != 'a':
                del L.objs[oid]
        ren = {}
        for loc, oid in order:
            o = L.objs[oid]
            if o.kind in ('heap',) and not oid.startswith('J:'):
                nm = 'J:%s:%s:%s' % (self.f.name, self.head, '.'.join(map(str, loc)))
                k = 0
                while nm + ('~%d' % k) in L.objs or nm + ('~%d' % k) in ren.values(): k += 1
                ren[oid] = nm + '~%d' % k
        if ren: self.rename(L, ren)

    def mapvals(self, L, fn):
        def go(v):
            if v[0] == 'a': return ('a', [go(x) for x in v[1]])
            return fn(v)
        for r, v in list(L.env.items()):
            n = go(v)
            if n is not v: L.env[r] = n
        for g, v in list(L.ghost.items()):
            if isinstance(v, tuple) and v and v[0] == 'p': L.ghost[g] = go(v)
        for oid in list(L.objs):
            o = L.objs[oid]
            for c, (n, v) in list(o.cells.items()):
                w = go(v)
                if w is not v:
                    L.wobj(oid).cells[c] = (n, w)

    def rename(self, L, ren):
        self.mapvals(L, lambda v: ('p', ren[v[1]], v[2]) if v[0] == 'p' and v[1] in ren else v)
        L.objs = dict(L.objs)
        for a, b in ren.items():
            o = L.objs.pop(a).clone()
            o.id = b
            L.objs[b] = o; L.owned.discard(a); L.owned.add(b)
        L.ghost = {k: (tuple(ren.get(x, x) if isinstance(x, str) else x for x in v) if isinstance(v, tuple) and k.startswith('__') else v) for k, v in L.ghost.items()}

    # ------------------------------------------------------------ keys
    def shape(self, L, loc, v):
        """the part of a value that decides the partition"""
        s = self.s
        if loc in self.genlocs: return 'gen'
        k = v[0]
        if k == 'p': return ('p', v[1])
        if k in ('i', 'b'):
            # states are partitioned by the control cells of the specification and
            # by whether 32-bit results (error codes) are zero
            if loc[0] == 'g':
                if loc[1] not in self.ip.partghosts: return 'i'
                l = L.st.norm(v[2])
                if not l.t: return ('=', l.c)
                return 'nz' if L.st.entails_ne(l) else 'i'
            if k == 'i' and v[1] == 32 and loc[0] == 'r':
                l = L.st.norm(v[2])
                if not l.t: return 'z' if l.c == 0 else 'nz'
                return 'nz' if L.st.entails_ne(l) else 'i'
            return 'i'
        if k == 'lp':
            return ('lp', v[1])
        if k == 'k': return v
        if k == 'a': return 'a'
        return v

    def key(self, L):
        s = self.s
        self.pc = {(loc[1], loc[2]) for st in (s, L) for loc, v in self.locs(st) if loc[0] == 'c' and v[0] in ('p', 'lp', 'null', 'f')}
        parts = {}
        need = set(l for l, _ in self.locs(L)) | set(l for l, _ in self.locs(s))
        gl = []
        for loc in need:
            v = self.get(L, loc) if loc[0] != 'g' else dict([(loc, dict(self.locs(L)).get(loc, ('i', 64, ZERO)))])[loc]
            if v is None:
                parts[loc] = None; continue
            e = self.get(s, loc) if loc[0] != 'g' else None
            if e is not None and L.nv(e) == v and v[0] not in ('i', 'p'):
                parts[loc] = 'same'; continue
            if v[0] == 'lp' and not self.stable(v[1]) or v[0] == 'p' and re.fullmatch(r'L\d+', v[1]) and not self.stable(int(v[1][1:])):
                if loc not in self.genlocs: gl.append((loc, v, e))
                parts[loc] = 'gen'; continue
            parts[loc] = self.shape(L, loc, v)
            if loc in self.genlocs: self.gencheck(loc, v)
        for loc, v, e in gl: self.generalise(loc, v, e)
        for loc in self.genlocs:
            v = self.get(L, loc)
            if v is not None: self.gencheck(loc, v)
        alive = tuple(sorted((o.id, o.alive) for o in L.objs.values() if not o.alive))
        return (tuple(sorted(((l, p) for l, p in parts.items() if p not in ('same', 'i')), key=repr)), alive)

    def tmpl_of(self, v):
        X = self.X
        if v[0] == 'lp': return X.LAZY[v[1]]
        if v[0] == 'p' and v[2] == ZERO:
            m = re.fullmatch(r'L(\d+)', v[1])
            if m: return X.LAZY[int(m.group(1))]
        return None

    def generalise(self, loc, v, e):
        X = self.X
        sp = self.tmpl_of(v)
        if sp is None: raise AnalysisBroken('loop in %s: pointer %r cannot be generalised' % (self.f.name, loc))
        sy = S.fresh('list.%s' % (loc[-1],))
        nullable = v[0] == 'lp' and sp.get('null', True)
        if e is not None:
            es = self.tmpl_of(e)
            if e[0] == 'null' or (e[0] == 'lp' and es.get('null', True)): nullable = True
        d = dict(sp)
        d['null'] = nullable; d.pop('onnull', None)
        d['owner'] = None
        X.LAZY[sy] = d
        self.genlocs[loc] = sy
        self.regen = True

    def gencheck(self, loc, v):
        X = self.X
        d = X.LAZY[self.genlocs[loc]]
        if d.get('null'): return
        if v[0] == 'null' or (v[0] == 'lp' and v[1] != self.genlocs[loc] and X.LAZY[v[1]].get('null', True)):
            d['null'] = True
            self.regen = True

    # ------------------------------------------------------------ heads
    def newhead(self, R, heads):
        key = self.key(R)
        h = heads.get(key)
        if h is not None: return h
        h = Head(key)
        h.rep = R
        heads[key] = h
        if len(heads) > 120: raise AnalysisBroken('loop in %s: too many shapes\n%s' % (self.f.name, '\n'.join(repr(k) for k in list(heads)[-6:])))
        if R is self.s: return h
        h.learn = self.learned(R)
        # what is as it was at the entry is written that way
        for loc, v in list(self.alllocs(R)):
            if loc in self.genlocs: continue
            e = self.asentry(R, loc, v)
            if e is not None: self.put(R, loc, e)
        # content of objects
        self.contents(h, R)
        vs = {}
        for loc, v in self.alllocs(R):
            if loc in self.genlocs: continue
            l = self.lin(v)
            if l is not None and not self.slin(l):
                self.addvar(h, loc, ZERO, 1)
            elif v[0] == 'a' and self.s.env.get(loc[1]) != v: h.hv.add(loc)
        if h.var: self.hull(h, [(None, R)])
        return h

    def asentry(self, R, loc, v):
        """the value at the entry if it is known to be the same"""
        l = self.lin(v)
        if l is None or loc[0] == 'c' and loc[1] not in self.s.objs: return None
        e = self.get(self.s, loc)
        if e is None or e == v or e[:2] != v[:2] or self.lin(e) is None or not e[2].t: return None
        return e if R.st.norm(e[2] - l) == ZERO else None

    def learned(self, R):
        """what a state knows about unchanging symbols beyond the entry"""
        s, st = self.s.st, R.st
        out = []
        for x, e in st.eq.items():
            if x not in s.eq and self.stable(x) and self.slin(e): out.append(('eq', V(x) - e))
        for t, c in st.ineq.items():
            if s.ineq.get(t) != c and all(self.stable(x) for x, _ in t): out.append(('ge', Lin(c, t)))
        for x in st.bnd:
            if not self.stable(x) or x in st.eq: continue
            a, b = st.range(x), s.range(x)
            if a[0] > b[0] and a[0] > -BIG: out.append(('ge', V(x) - a[0]))
            if a[1] < b[1] and a[1] < BIG: out.append(('ge', C(a[1]) - V(x)))
        for x, d in st.dom.items():
            if self.stable(x) and s.dom.get(x) != d: out.append(('dom', V(x), frozenset(d)))
        return out if len(out) <= 60 else []

    def holds(self, L, f):
        if f[0] == 'eq': return L.st.entails_eq(f[1])
        if f[0] == 'ge': return L.st.entails(f[1])
        return self.indom(L, L.st.norm(f[1]), f[2])

    def alllocs(self, R):
        for loc, v in list(self.locs(R)):
            if loc[0] == 'g': yield loc, v
            else:
                x = self.get(R, loc)
                if x is not None: yield loc, x

    @staticmethod
    def lin(v):
        if v[0] == 'i' or v[0] == 'p': return v[2]
        return None

    def contents(self, h, L):
        """objects whose symbolic segments differ from the entry"""
        for oid, o in L.objs.items():
            e = self.s.objs.get(oid)
            if oid in h.unk: continue
            if e is None:
                if o.segs: h.unk.add(oid)
                continue
            if o.segs == e.segs and o.base == e.base: continue
            if o.segs and any(g[2][0] == 'unknown' and g[1] == C(INF) for g in e.segs) and e.segs == o.segs[:len(e.segs)]:
                h.unk.add(oid); continue
            h.unk.add(oid)

    def addvar(self, h, loc, base, stride):
        j = self.j.get((h.key, loc))
        if j is None:
            j = S.fresh('loop.%s' % ('.'.join(str(x) for x in loc[1:])))
            self.j[(h.key, loc)] = j
        h.var[loc] = (j, base, stride)
        return j

    def build(self, h):
        """abstract state of the head"""
        X, s = self.X, self.s
        R = h.rep
        H = s.clone()
        if R is not s:
            H.objs = {k: (o if k in s.objs and o is s.objs[k] else o.clone()) for k, o in R.objs.items()}
            H.owned = set()
            H.env = dict(R.env)
            H.ghost = dict(R.ghost)
        for loc, sy in self.genlocs.items():
            v = self.get(H, loc)
            if v is not None: self.put(H, loc, ('lp', sy))
        for oid in h.unk:
            o = H.wobj(oid)
            if o.base[0] == 'init' and False: pass
            o.segs = [(ZERO, C(INF), ('unknown',))]
        for loc in h.hv: self.put(H, loc, X.OPAQUE)
        for loc, (j, base, g) in h.var.items():
            v = self.getraw(H, loc)
            l = base + V(j).scale(g)
            if v is None or v[0] not in ('i', 'p'):
                if loc[0] == 'c':
                    r = self.get(H, loc); v = r if r is not None and r[0] in ('i', 'p') else ('i', 8 * loc[3], ZERO)
                else: v = ('i', 64, ZERO)
            self.put(H, loc, (v[0], v[1], l))
        for f in h.learn:
            if f[0] == 'eq': H.st.eq0(f[1])
            elif f[0] == 'ge': H.st.ge0(f[1])
            elif not H.st.bot: H.st.restrict(H.st.norm(f[1]), f[2])
        for k in h.K: H.st.ge0(k)
        for loc, (j, base, g) in h.var.items():
            lo, hi = H.st.range(j)
            if lo == hi and j not in H.st.eq: H.st.eq0(V(j) - lo)
        for j, d in h.dom.items():
            if not H.st.bot: H.st.restrict(V(j), d)
        return H

    def getraw(self, H, loc):
        if loc[0] == 'r': return H.env.get(loc[1])
        if loc[0] == 'g': return H.ghost.get(loc[1])
        if loc[0] == 's': return ('i', 64, H.objs[loc[1]].size)
        c = H.objs[loc[1]].cells.get(loc[2])
        return c[1] if c else None

    def put(self, H, loc, v):
        if loc[0] == 'r': H.env[loc[1]] = v
        elif loc[0] == 'g': H.ghost[loc[1]] = v
        elif loc[0] == 's': H.wobj(loc[1]).size = v[2]
        else:
            o = H.wobj(loc[1])
            o.cells[loc[2]] = (loc[3], v)

    def values(self, h, H):
        return {loc: self.X.Lin(0) + (base + V(j).scale(g)) for loc, (j, base, g) in h.var.items()}

    # ------------------------------------------------------------ inclusion / join
    def diff(self, h, L):
        """locations of L that are not covered: [(loc, lin)] + unknown ones"""
        R, new, hv, unk = h.rep, [], [], []
        seen = set()
        R2 = R if R is not None else self.s
        gl = dict(self.locs(L))
        glR = dict(self.locs(R2))
        for loc in list(gl) + [x for x in glR if x not in gl]:
            if loc in h.hv or loc in self.genlocs: continue
            if loc[0] == 'g':
                a, b = glR.get(loc, ('i', 64, ZERO)), gl.get(loc, ('i', 64, ZERO))
            else:
                a, b = self.get(R2, loc), self.get(L, loc)
            if loc in h.var:
                if b is None or self.lin(b) is None: hv.append(loc)
                continue
            if a is None and b is None: continue
            if a is None or b is None:
                if loc[0] == 'c': hv.append(loc)
                elif loc[0] == 'r': hv.append(loc)
                continue
            if a == b or L.nv(a) == b if a[0] != 'k' else a == b: continue
            la, lb = self.lin(a), self.lin(b)
            if la is not None and lb is not None and a[0] == b[0]:
                if L.st.entails_eq(la - lb): continue
                if R2 is not self.s and loc[0] != 'g':
                    e = self.asentry(R2, loc, a)
                    if e is not None:
                        la = e[2]
                        if L.st.entails_eq(la - lb): continue
                new.append((loc, la, lb))
            elif a[0] == 'k':
                if loc[1].startswith('__'): continue
                raise AnalysisBroken('loop in %s changes ghost %s' % (self.f.name, loc[1]))
            else: hv.append(loc)
        for oid, o in L.objs.items():
            if oid in h.unk: continue
            e = R2.objs.get(oid)
            if e is None: continue
            if o.segs != e.segs or o.base != e.base: unk.append(oid)
        return new, hv, unk

    def sub(self, h, L):
        """j -> value of j in L (Lin) or None when the stride does not divide"""
        m = {}
        for loc, (j, base, g) in h.var.items():
            if loc[0] == 'g': v = L.ghost.get(loc[1], ('i', 64, ZERO))
            else: v = self.get(L, loc)
            l = self.lin(v) if v is not None else None
            if l is None: m[j] = None; continue
            d = L.st.norm(L.st.norm(l) - base)
            if g != 1:
                if d.c % g or any(k % g for _, k in d.t): m[j] = ('g', d); continue
                d = Lin(d.c // g, tuple((x, k // g) for x, k in d.t))
            m[j] = d
        return m

    @staticmethod
    def apply(k, m):
        out = Lin(k.c)
        for sy, c in k.t:
            if sy in m: out = out + m[sy].scale(c)
            else: out = out + V(sy).scale(c)
        return out

    def included(self, h, L):
        new, hv, unk = self.diff(h, L)
        if new or hv or unk: return False
        m = self.sub(h, L)
        if any(v is None or isinstance(v, tuple) for v in m.values()): return False
        if not all(self.holds(L, f) for f in h.learn): return False
        for k in h.K:
            if not L.st.entails(self.apply(k, m)): return False
        for j, d in h.dom.items():
            l = L.st.norm(m[j])
            if not self.indom(L, l, d): return False
        return True

    @staticmethod
    def indom(L, l, d):
        if not l.t: return l.c in d
        if len(l.t) == 1 and l.t[0][0] in L.st.dom:
            sy, k = l.t[0]
            return all(k * x + l.c in d for x in L.st.dom[sy])
        return False

    @staticmethod
    def domof(L, l):
        l = L.st.norm(l)
        if not l.t: return frozenset([l.c])
        if len(l.t) == 1 and l.t[0][0] in L.st.dom:
            sy, k = l.t[0]
            return frozenset(k * x + l.c for x in L.st.dom[sy])
        return None

    def join(self, h, Ls):
        h.round += 1
        h.learn = [f for f in h.learn if all(self.holds(L, f) for L in Ls)]
        old = dict(h.var)
        oldK = list(h.K)
        first = not old
        newvar = False
        diffs = [(L,) + self.diff(h, L) for L in Ls]
        for L, new, hv, unk in diffs:
            for loc in hv:
                h.hv.add(loc)
                if loc in h.var: del h.var[loc]
            h.unk.update(unk)
        for L, new, hv, unk in diffs:
            for loc, a, b in new:
                if loc in h.hv: continue
                if loc in h.var: continue
                base, g = ZERO, 1
                if self.slin(a):
                    base = a
                    d = L.st.norm(b - a)
                    g = abs(d.c)
                    for _, k in d.t: g = gcd(g, k)
                    g = g or 1
                    # only keep strides for pure constants or exact multiples
                self.addvar(h, loc, base, g)
                newvar = True
        for loc in list(h.var):
            for L in Ls:
                v = L.ghost.get(loc[1], ('i', 64, ZERO)) if loc[0] == 'g' else self.get(L, loc)
                if v is None or self.lin(v) is None:
                    h.hv.add(loc); del h.var[loc]; old.pop(loc, None); break
        # strides
        for L in Ls:
            for j, v in self.sub(h, L).items():
                if isinstance(v, tuple):
                    for loc, (jj, base, g) in list(h.var.items()):
                        if jj == j:
                            g2 = gcd(g, v[1].c)
                            for _, k in v[1].t: g2 = gcd(g2, k)
                            # re-parametrise: new symbol
                            nj = S.fresh(S.name[j])
                            self.j[(h.key, loc)] = nj
                            h.var[loc] = (nj, base, g2 or 1)
                            newvar = True
                            scale = g // (g2 or 1)
                            ok = []
                            # K over j: j = nj / scale -> drop unless scale divides out
                            for k in h.K:
                                c = dict(k.t).get(j, 0)
                                if not c: ok.append(k); continue
                                k2 = k.scale(scale)
                                d = dict(k2.t); d.pop(j); d[nj] = d.get(nj, 0) + c
                                ok.append(tight(Lin(k2.c, tuple(sorted((x, y) for x, y in d.items() if y)))))
                            h.K = ok
                            h.dom.pop(j, None)
                            old = {l: (x if l != loc else h.var[loc]) for l, x in old.items()}
        js = {v[0] for v in h.var.values()}
        h.K = [k for k in h.K if all(x in js or self.stable(x) for x, _ in k.t)]
        h.dom = {j: d for j, d in h.dom.items() if j in js}
        systems = [(old, None)] + [(None, L) for L in Ls]
        prevK = list(h.K)
        prevdom = dict(h.dom)
        if h.round <= 3 or newvar:
            self.hull(h, systems, old, newvar)
        if h.round > 3:
            newj = {v[0] for l, v in h.var.items() if l not in old}
            keep = []
            for k in prevK:
                if all(L.st.entails(self.apply(k, self.sub(h, L))) for L in Ls): keep.append(k)
            if newvar:
                ks = set(keep)
                for k in h.K:
                    if any(x in newj for x, _ in k.t) and k not in ks: keep.append(k)
            h.K = keep
            if h.round > 8: h.dom = {}
            elif prevdom or newvar:
                h.dom = self.joindom(h, Ls, old, prevdom, newj)
        if h.round > MAXROUND: raise AnalysisBroken('loop in %s (%s): widening does not terminate' % (self.f.name, self.head))

    def joindom(self, h, Ls, old, prevdom, newj):
        out = {}
        for loc, (j, base, g) in h.var.items():
            if loc in old:
                d = prevdom.get(j)
                if d is None: continue
            else: d = frozenset([0])
            for L in Ls:
                x = self.sub(h, L)[j]
                dl = self.domof(L, x)
                if dl is None: d = None; break
                d = d | dl
            if d is not None and len(d) <= 64: out[j] = d
        return out

    def hull(self, h, systems, old=None, newvar=False):
        """recompute h.K as the hull of the given systems"""
        js = [v[0] for v in h.var.values()]
        keep = list(js)
        ks = set(keep)
        # relevant stable symbols: those in values, and one ring around them
        mats = []
        relevant = set()
        for kind, L in systems:
            if L is None: continue
            m = self.sub(h, L)
            for j, v in m.items():
                if v is None:
                    loc = [l for l, w in h.var.items() if w[0] == j]
                    raise AnalysisBroken('no value for %r: %r in %r rep %r' % (loc, [self.get(L, l) for l in loc], L.objs.get(loc[0][1]) and L.objs[loc[0][1]].__class__, h.rep is self.s))
                for x in v.syms(): relevant.add(x)
        for k in h.K:
            for x, _ in k.t:
                if x not in ks: relevant.add(x)
        stab = set(x for x in relevant if self.stable(x))
        # stable symbols constrained together with the unstable ones
        for kind, L in systems:
            if L is None: continue
            for t, c in L.st.ineq.items():
                if any(x in relevant and not self.stable(x) for x, _ in t):
                    for x, _ in t:
                        if self.stable(x): stab.add(x)
        grp = self.groups(h, systems, js)
        if old is not None: prevK = list(h.K)
        newK = []
        doms = {}
        for g in grp:
            newK += self.hullgroup(h, systems, g, old)
        seen = set()
        h.K = []
        for k in newK:
            k = tight(k)
            if k.t and k not in seen:
                seen.add(k); h.K.append(k)
        # the hull may be an approximation that lost simple constraints which
        # held so far and still do
        if old is not None:
            lost = [k for k in prevK if k not in seen and len(k.t) <= 2 and all(L is None or L.st.entails(self.apply(k, self.sub(h, L))) for _, L in systems)]
            if lost:
                z = self.s.st.clone()
                for k in h.K: z.ge0(k)
                for k in lost:
                    if not z.bot and not z.entails(k):
                        seen.add(k); h.K.append(k); z.ge0(k)
        # upper limits named by the specification, while they hold
        if self.ip.limits:
            z = self.s.st.clone()
            for k in h.K: z.ge0(k)
            for loc, (j, base, st) in h.var.items():
                for x in self.ip.limits:
                    if isinstance(x, tuple):
                        # the value of a ghost cell the loop leaves alone
                        if x[1] not in self.s.ghost or ('g', x[1]) in h.var: continue
                        x = self.s.st.norm(self.s.ghost[x[1]][2])
                        if not all(self.stable(y) for y, _ in x.t): continue
                    else: x = V(x)
                    c = tight(x - base - V(j).scale(st))
                    if c in seen or (old is not None and loc in old and not any(c == k for k in prevK)): continue
                    if old is not None and loc not in old and not self.s.st.entails(self.apply(c, {j: ZERO})): continue
                    if all(L is None or L.st.entails(self.apply(c, self.sub(h, L))) for _, L in systems) and not z.bot and not z.entails(c):
                        seen.add(c); h.K.append(c); z.ge0(c)
        # widening thresholds: simple bounds that hold so far
        if old is not None:
            ks, xs = self.thresholds(self.ip.cmps | self.ip.incmps)
            few = lambda: len(xs) <= 3 or len(xs) * len(h.var) <= 12
            if len(ks) > 6 or not few(): ks, xs = self.thresholds(self.ip.cmps)
            if len(ks) > 6: ks = []
            ks = [C(k) for k in ks]
            if few(): ks += [V(x) - d for x in xs for d in (0, 1)]
            for loc, (j, base, st) in h.var.items():
                v = base + V(j).scale(st)
                for c in [v - 1, v, V(j), -V(j)] + [k - v for k in ks] + ([k - V(j) for k in ks if k.t] if st != 1 else []):
                    c = tight(c)
                    if c in seen: continue
                    if loc in old:
                        if not any(c == k for k in prevK): continue
                    elif not self.s.st.entails(self.apply(c, {j: ZERO})): continue
                    if all(L is None or L.st.entails(self.apply(c, self.sub(h, L))) for _, L in systems):
                        seen.add(c); h.K.append(c)
        # finite domains
        Ls = [L for _, L in systems if L is not None]
        newj = {v[0] for l, v in h.var.items() if old is None or l not in old}
        if old is None:
            h.dom = {}
            for loc, (j, base, gg) in h.var.items():
                d = frozenset()
                for L in Ls:
                    x = self.domof(L, self.sub(h, L)[j])
                    if x is None: d = None; break
                    d = d | x
                if d is not None and 1 < len(d) <= 64: h.dom[j] = d
        else:
            h.dom = self.joindom(h, Ls, old, h.dom, newj)

    def thresholds(self, cmps):
        return sorted({k + d for x in cmps if isinstance(x, tuple) for k in x[1:] for d in (0, 1)}), sorted(x for x in cmps if not isinstance(x, tuple) and self.stable(x))

    def primed(self, l, gs):
        if not any(x in gs for x, _ in l.t): return l
        m = {}
        for x, _ in l.t:
            if x not in gs: continue
            p = self.prime.get(x)
            if p is None:
                p = self.prime[x] = S.fresh(S.name[x] + "'")
                self.unprime[p] = x
            m[x] = V(p)
        return self.apply(l, m)

    def groups(self, h, systems, js):
        """partition the join symbols into groups related through the systems"""
        par = {j: j for j in js}

        def find(x):
            while par[x] != x: x = par[x]
            return x

        owner = {}

        def link(a, b):
            a, b = find(a), find(b)
            if a != b: par[a] = b

        for kind, L in systems:
            if L is None:
                for k in h.K:
                    xs = [x for x, _ in k.t if x in par]
                    for y in xs[1:]: link(xs[0], y)
                continue
            loc = {}
            m = self.sub(h, L)
            own = {}
            for j, v in m.items():
                syms, _ = L.st.component([x for x in v.syms() if not (self.stable(x) and False)]) if v.t else (set(), None)
                for x in syms:
                    if self.stable(x): continue
                    if x in own: link(own[x], j)
                    else: own[x] = j
        # symbols that differ by a constant in every state move together
        shape = {j: [] for j in js}
        for kind, L in systems:
            if L is None: continue
            m = self.sub(h, L)
            for j in js: shape[j].append(m[j].t if isinstance(m.get(j), Lin) else j)
        first = {}
        for j in js:
            t = tuple(shape[j])
            if any(t) or all(x == () for x in t): link(first.setdefault(t, j), j)
        # join everything that changes together when few
        if len(js) <= 6:
            for j in js[1:]: link(js[0], j)
        g = {}
        for j in js: g.setdefault(find(j), []).append(j)
        return list(g.values())

    def hullgroup(self, h, systems, g, old):
        g, out = self.dependent(h, systems, g, old)
        for l in (False, True):
            for k in self.hullgroup1(h, systems, g, old, l):
                if k not in out: out.append(k)
        return out

    def dependent(self, h, systems, g, old):
        """symbols that are the same function of another one in every state
        need no place in the hull: (rest, equalities)"""
        if len(g) < 6: return g, []
        new = {v[0] for l, v in h.var.items() if l not in old} if old is not None else set()
        subs = [(L, self.sub(h, L)) for _, L in systems if L is not None]
        prev = any(L is None for _, L in systems)
        K = {(k.t, k.c) for k in h.K}
        keep, out = [], []
        for k in g:
            for j in keep:
                for sg in (1, -1):
                    L0, m0 = subs[0]
                    if not isinstance(m0.get(k), Lin) or not isinstance(m0.get(j), Lin): continue
                    d = L0.st.norm(m0[k] - m0[j].scale(sg))
                    if not self.slin(d): continue
                    e = V(k) - V(j).scale(sg) - d
                    a, b = tight(e), tight(-e)
                    if prev:
                        if (k in new) != (j in new): continue
                        if k in new and d != ZERO: continue
                        if k not in new and not ((a.t, a.c) in K and (b.t, b.c) in K): continue
                    if all(L.st.entails_eq(m[k] - m[j].scale(sg) - d) for L, m in subs[1:]):
                        out += [a, b]; break
                else: continue
                break
            else: keep.append(k)
        return keep, out

    def hullgroup1(self, h, systems, g, old, learn):
        gs = set(g)
        stab = set()
        raw = []
        for kind, L in systems:
            if L is None:
                cons = [k for k in h.K if any(x in gs for x, _ in k.t)]
                # locations new in this round are at their entry value 0
                eqs = []
                for loc, (j, base, st) in h.var.items():
                    if j in gs and loc not in old: eqs.append(V(j))
                raw.append((eqs, cons, None))
                for k in cons:
                    for x, _ in k.t:
                        if x not in gs: stab.add(x)
            else:
                m = self.sub(h, L)
                # inside the state the group's symbols stand for their values at
                # the head of the body: they get names of their own
                eqs = [V(j) - self.primed(m[j], gs) for j in g]
                seed = set()
                for j in g: seed.update(m[j].syms())
                syms, cc = L.st.component(seed)
                raw.append((eqs, [self.primed(Lin(c, t), gs) for t, c in cc], L))
                direct = set(x for x in seed if self.stable(x))
                stab |= direct
                for t, c in cc:
                    if any(not self.stable(x) or x in direct for x, _ in t):
                        for x, _ in t:
                            if self.stable(x): stab.add(x)
        direct = set()
        for eqs, cons, L in raw:
            for e in eqs: direct.update(x for x, _ in e.t if x not in gs and self.stable(x))
        for loc, (j, base, st) in h.var.items():
            if j in gs: direct.update(x for x, _ in base.t)
        tested = set()
        for eqs, cons, L in raw:
            if L is None: continue
            for x in set(L.st.bnd) | set(L.st.eq):
                if x not in gs and self.stable(x) and (L.st.range(x) != self.s.st.range(x) or (x in L.st.eq) != (x in self.s.st.eq)): tested.add(x)
        # constraints between stable symbols that were learnt inside the loop
        learnt = []
        for eqs, cons, L in raw:
            if L is None: continue
            for t, c in L.st.ineq.items():
                if self.s.st.ineq.get(t) != c and any(x in direct for x, _ in t) and all(x not in gs and self.stable(x) for x, _ in t):
                    learnt.append((cons, Lin(c, t), [x for x, _ in t]))
        stab |= direct
        if len(tested) <= 4: stab |= tested
        if learn:
            more = set(x for _, _, xs in learnt for x in xs)
            if not learnt or len(more) > 6: return []
            stab |= more
            for cons, k, _ in learnt:
                if k not in cons: cons.append(k)
        if len(g) + len(stab) > self.ip.hullmax: stab = direct
        for eqs, cons, L in raw:
            st = L.st if L is not None else self.s.st
            for x in stab:
                e = st.eq.get(x)
                if e is not None: eqs.append(V(x) - (e if L is None else self.primed(e, gs)))
        keep = list(g) + sorted(stab)
        sysrows = []
        allsyms = []
        for eqs, cons, L in raw:
            xs = set()
            for l in eqs + cons: xs.update(x for x, _ in l.t)
            allsyms.append([x for x in sorted(xs) if x not in gs and x not in stab])
        n = len(keep) + max([len(a) for a in allsyms] + [0])
        for (eqs, cons, L), extra in zip(raw, allsyms):
            ix = {x: i for i, x in enumerate(keep)}
            for i, x in enumerate(extra): ix[x] = len(keep) + i

            def row(l):
                r = [0] * (n + 1)
                for x, k in l.t: r[ix[x]] = k
                r[n] = l.c
                return r
            E = [row(l) for l in eqs]
            I = [row(l) for l in cons]
            st = L.st if L is not None else self.s.st
            for x in list(stab) + extra:
                if x in gs: continue
                lo, hi = st.range(self.unprime.get(x, x))
                if lo > -BIG: I.append(row(V(x) - lo))
                if hi < BIG: I.append(row(C(hi) - V(x)))
            if L is None:
                # constraints of the entry store between stable symbols
                for t, c in self.s.st.ineq.items():
                    if all(x in stab for x, _ in t): I.append(row(Lin(c, t)))
            sysrows.append((E, I))
        eq, iq = isl.hull(n, sysrows, len(keep))

        def lin(r): return Lin(r[-1], tuple(sorted((keep[i], k) for i, k in enumerate(r[:-1]) if k)))
        out = []
        for r in eq:
            l = lin(r); out += [l, -l]
        for r in iq: out.append(lin(r))
        return [k for k in out if any(x in gs for x, _ in k.t)]
