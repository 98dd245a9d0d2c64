"""Numeric abstract domain: linear expressions over integer symbols, hash-consed
terms for non-linear operations, and a constraint store (equalities in solved
form, integer inequalities, disequalities, small finite domains)."""
from math import gcd
import isl

BIG = 1 << 200


# ------------------------------------------------------------------ symbols

class Syms:
    def __init__(self):
        self.name, self.lo, self.hi, self.defn, self.age = [], [], [], [], []
        self.cons = {}
        self.ax = {}        # sym -> list of Lin >= 0 (axioms of the term)

    def fresh(self, name, lo=-BIG, hi=BIG, defn=None):
        i = len(self.name)
        self.name.append(name); self.lo.append(lo); self.hi.append(hi); self.defn.append(defn)
        return i

    def term(self, op, args, lo=-BIG, hi=BIG):
        key = (op,) + tuple(args)
        s = self.cons.get(key)
        if s is None:
            s = self.fresh(op, lo, hi, key)
            self.cons[key] = s
        return s


S = Syms()


class Lin:
    __slots__ = ('c', 't', 'h')

    def __init__(self, c, t=()):
        self.c, self.t = c, t
        self.h = hash((c, t))

    def __hash__(self): return self.h
    def __eq__(self, o): return self is o or (isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t)
    def __ne__(self, o): return not self == o

    def __add__(self, o):
        if isinstance(o, int): return Lin(self.c + o, self.t) if o else self
        if not o.t: return Lin(self.c + o.c, self.t) if o.c else self
        if not self.t: return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for s, k in o.t:
            d[s] = d.get(s, 0) + k
        return Lin(self.c + o.c, tuple(sorted((s, k) for s, k in d.items() if k)))

    def scale(self, k):
        if k == 1: return self
        if k == 0: return ZERO
        return Lin(self.c * k, tuple((s, x * k) for s, x in self.t))

    def __neg__(self): return self.scale(-1)

    def __sub__(self, o):
        if isinstance(o, int): return Lin(self.c - o, self.t)
        return self + o.scale(-1)

    def const(self): return self.c if not self.t else None
    def syms(self): return [s for s, _ in self.t]

    def single(self):
        """the symbol if this is exactly 1*sym"""
        return self.t[0][0] if (self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1) else None

    def __repr__(self):
        out = ''
        for s, k in self.t:
            n = '%s#%d' % (S.name[s], s)
            out += ('%+d*%s ' % (k, n)) if abs(k) != 1 else ('+%s ' % n if k == 1 else '-%s ' % n)
        if self.c or not out: out += '%+d' % self.c if abs(self.c) < 1 << 60 else '%+#x' % self.c
        return out.strip()


ZERO = Lin(0)
_lc = {}


def C(n):
    l = _lc.get(n)
    if l is None:
        l = _lc[n] = Lin(n)
    return l


def V(s): return Lin(0, ((s, 1),))
def fresh(name, lo=-BIG, hi=BIG): return V(S.fresh(name, lo, hi))
def term(op, args, lo=-BIG, hi=BIG): return V(S.term(op, args, lo, hi))


def tight(l):
    """normalise inequality l >= 0 (divide by gcd of coefficients, floor)"""
    g = 0
    for _, k in l.t: g = gcd(g, k)
    if g > 1:
        return Lin(l.c // g, tuple((s, k // g) for s, k in l.t))
    return l


_memo = {}


class Store:
    """conjunction of constraints; copy-on-write via clone()"""
    __slots__ = ('eq', 'ineq', 'neq', 'dom', 'terms', 'bnd', 'bot')

    def __init__(self):
        self.eq, self.ineq, self.neq, self.dom, self.terms, self.bnd, self.bot = {}, {}, {}, {}, {}, {}, False

    def clone(self):
        n = Store.__new__(Store)
        n.eq, n.ineq, n.neq, n.dom, n.terms, n.bnd, n.bot = (dict(self.eq), dict(self.ineq), dict(self.neq), dict(self.dom), dict(self.terms), dict(self.bnd), self.bot)
        return n

    # -- normal forms
    def norm(self, l):
        if not l.t or not self.eq: return l
        hit = False
        for s, _ in l.t:
            if s in self.eq:
                hit = True; break
        if not hit: return l
        c, d = l.c, {}
        for s, k in l.t:
            e = self.eq.get(s)
            if e is None: d[s] = d.get(s, 0) + k
            else:
                c += k * e.c
                for s2, k2 in e.t: d[s2] = d.get(s2, 0) + k * k2
        return Lin(c, tuple(sorted((s, k) for s, k in d.items() if k)))

    def range(self, s):
        d = self.dom.get(s)
        lo, hi = S.lo[s], S.hi[s]
        if d is not None:
            lo, hi = max(lo, min(d)), min(hi, max(d))
        b = self.bnd.get(s)
        if b is not None:
            lo, hi = max(lo, b[0]), min(hi, b[1])
        return lo, hi

    def interval(self, l):
        lo = hi = l.c
        for s, k in l.t:
            a, b = self.range(s)
            if k > 0: lo += k * a; hi += k * b
            else: lo += k * b; hi += k * a
        return lo, hi

    def use(self, l):
        """register term axioms reachable from l"""
        for s, _ in l.t:
            if S.defn[s] is not None and s not in self.terms:
                self.terms[s] = True
                for a in S.ax.get(s, ()):
                    self.use(a)
                    self._ineq(self.norm(a))

    def _ineq(self, l):
        l = tight(l)
        if not l.t:
            if l.c < 0: self.bot = True
            return
        lo, hi = self.interval(l)
        if lo >= 0: return
        if hi < 0: self.bot = True; return
        if len(l.t) == 1:
            s, k = l.t[0]
            lo, hi = self.range(s)
            if k > 0: lo = -l.c
            else: hi = l.c
            self.bnd[s] = (lo, hi)
            if lo == hi: self.eq0(V(s) - lo)
            return
        # subsumption against same coefficient vector
        old = self.ineq.get(l.t)
        if old is None or l.c < old: self.ineq[l.t] = l.c

    def ge0(self, l):
        """add l >= 0"""
        self.use(l)
        self._ineq(self.norm(l))

    def eq0(self, l):
        self.use(l)
        work = [l]
        while work and not self.bot:
            l = self.norm(work.pop())
            if not l.t:
                if l.c: self.bot = True
                continue
            best = None
            for s, k in l.t:
                if k in (1, -1) and (best is None or s > best[0]): best = (s, k)
            if best is None:
                g = 0
                for _, k in l.t: g = gcd(g, k)
                if l.c % g: self.bot = True; continue
                l = Lin(l.c // g, tuple((s, k // g) for s, k in l.t))
                un = [(s, k) for s, k in l.t if k in (1, -1)]
                if un: work.append(l); continue
                self._ineq(l); self._ineq(-l)
                continue
            s, k = best
            rhs = Lin(l.c, tuple(x for x in l.t if x[0] != s)).scale(-k)
            # transfer range and finite domain
            lo, hi = self.range(s)
            self.bnd.pop(s, None)
            for s2 in list(self.eq):
                e = self.eq[s2]
                if any(x == s for x, _ in e.t):
                    self.eq[s2] = self._sub(e, s, rhs)
            self.eq[s] = rhs
            d = self.dom.pop(s, None)
            if lo > -BIG: self._ineq(rhs - lo)
            if hi < BIG: self._ineq(C(hi) - rhs)
            if d is not None: self.restrict(rhs, d)
            for old in [t for t in self.ineq if any(x == s for x, _ in t)]:
                c = self.ineq.pop(old, None)
                if c is None: continue
                self._ineq(self.norm(Lin(c, old)))
            for old in [n for n in self.neq if any(x == s for x, _ in n.t)]:
                if self.neq.pop(old, None): self.ne0(self.norm(old))
            for t in list(self.terms):
                dn = S.defn[t]
                if any(isinstance(a, Lin) and any(x == s for x, _ in a.t) for a in dn[1:]):
                    nv = simp_term(self, t)
                    if nv is not None and nv != self.norm(V(t)):
                        self.use(nv)
                        work.append(V(t) - nv)

    @staticmethod
    def _sub(e, s, rhs):
        k = 0
        for x, kk in e.t:
            if x == s: k = kk
        return Lin(e.c, tuple(x for x in e.t if x[0] != s)) + rhs.scale(k)

    def ne0(self, l):
        l = self.norm(l)
        if not l.t:
            if l.c == 0: self.bot = True
            return
        if l.t[0][1] < 0: l = -l
        g = 0
        for _, k in l.t: g = gcd(g, k)
        if g > 1:
            if l.c % g: return
            l = Lin(l.c // g, tuple((s, k // g) for s, k in l.t))
        if len(l.t) == 1:
            s, k = l.t[0]
            d = self.dom.get(s)
            if d is not None:
                d = frozenset(x for x in d if k * x + l.c != 0)
                self.setdom(s, d)
                return
        lo, hi = self.interval(l)
        if lo > 0 or hi < 0: return
        if self.entails(l): self.ge0(l - 1)
        elif self.entails(-l): self.ge0(-l - 1)
        else: self.neq[l] = True

    def setdom(self, s, d):
        if not d: self.bot = True; return
        self.dom[s] = d
        if len(d) == 1:
            del self.dom[s]
            self.eq0(V(s) - next(iter(d)))

    def restrict(self, l, vals):
        """l must take one of vals"""
        l = self.norm(l)
        if not l.t:
            if l.c not in vals: self.bot = True
            return
        if len(l.t) == 1 and l.t[0][1] in (1, -1):
            s, k = l.t[0]
            d = frozenset((v - l.c) * k for v in vals)
            if s in self.dom: d &= self.dom[s]
            lo, hi = self.range(s)
            d = frozenset(x for x in d if lo <= x <= hi)
            self.setdom(s, d)
            return
        self.ge0(l - min(vals)); self.ge0(C(max(vals)) - l)

    # -- queries
    def component(self, seed):
        """inequalities connected to the symbols of seed"""
        syms = set(seed)
        rest = list(self.ineq.items())
        out = []
        ch = True
        while ch:
            ch = False
            keep = []
            for t, c in rest:
                if any(s in syms for s, _ in t):
                    out.append((t, c))
                    for s, _ in t:
                        if s not in syms: syms.add(s); ch = True
                else: keep.append((t, c))
            rest = keep
        return syms, out

    def _empty(self, syms, cons, extra):
        syms = sorted(syms)
        ix = {s: i for i, s in enumerate(syms)}
        n = len(syms)
        rows = []
        for t, c in cons:
            r = [0] * (n + 1)
            for s, k in t: r[ix[s]] = k
            r[n] = c
            rows.append(r)
        for l in extra:
            r = [0] * (n + 1)
            for s, k in l.t: r[ix[s]] = k
            r[n] = l.c
            rows.append(r)
        for s in syms:
            lo, hi = self.range(s)
            if lo > -BIG:
                r = [0] * (n + 1); r[ix[s]] = 1; r[n] = -lo; rows.append(r)
            if hi < BIG:
                r = [0] * (n + 1); r[ix[s]] = -1; r[n] = hi; rows.append(r)
        key = (n, tuple(sorted(map(tuple, rows))))
        v = _memo.get(key)
        if v is None:
            v = _memo[key] = isl.is_empty(n, [], rows)
        return v

    def entails(self, l):
        """does every point satisfy l >= 0 ?"""
        if self.bot: return True
        self.use(l)
        l = self.norm(l)
        if not l.t: return l.c >= 0
        lo, hi = self.interval(l)
        if lo >= 0: return True
        t = tight(l)
        o = self.ineq.get(t.t)
        if o is not None and o <= t.c: return True
        if hi < 0: return False
        syms, cons = self.component(l.syms())
        if not cons: return False if lo < 0 else True
        return self._empty(syms, cons, [-l - 1])

    def entails_eq(self, l):
        l = self.norm(l)
        if not l.t: return l.c == 0
        return self.entails(l) and self.entails(-l)

    def entails_ne(self, l):
        l = self.norm(l)
        if not l.t: return l.c != 0
        if len(l.t) == 1 and l.t[0][0] in self.dom:
            s, k = l.t[0]
            return all(k * x + l.c != 0 for x in self.dom[s])
        g = 0
        for _, k in l.t: g = gcd(g, k)
        if l.c % g: return True
        n = Lin(l.c // g, tuple((s, k // g) for s, k in l.t)) if g > 1 else l
        if n in self.neq or -n in self.neq: return True
        if self.entails(l - 1) or self.entails(-l - 1): return True
        st = self.clone(); st.eq0(l)
        return not st.sat(l.syms())

    def sat(self, seed=None):
        if self.bot: return False
        if seed is not None:
            seed = set(seed)
            for s in list(seed):
                e = self.eq.get(s)
                if e is not None:
                    seed.discard(s); seed.update(e.syms())
        syms, cons = self.component(seed if seed is not None else [s for t in self.ineq for s, _ in t])
        if cons and self._empty(syms, cons, []):
            self.bot = True
            return False
        for l in list(self.neq):
            if any(s in syms for s, _ in l.t):
                a, b = self.entails(l), self.entails(-l)
                if a and b: self.bot = True; return False
                if a or b:
                    del self.neq[l]
                    self.ge0(l - 1 if a else -l - 1)
                    if self.bot: return False
                    syms2, cons2 = self.component(l.syms())
                    if cons2 and self._empty(syms2, cons2, []):
                        self.bot = True
                        return False
        return True

    def minmax(self, l):
        """best known interval by bisection-free probing (interval only)"""
        return self.interval(self.norm(l))

    def show(self):
        out = ['%s == %r' % ('%s#%d' % (S.name[s], s), e) for s, e in self.eq.items()]
        out += ['%r >= 0' % Lin(c, t) for t, c in self.ineq.items()]
        out += ['%r != 0' % n for n in self.neq]
        out += ['%s#%d in [%s,%s]' % (S.name[s], s, b[0] if b[0] > -BIG else '-oo', b[1] if b[1] < BIG else 'oo') for s, b in self.bnd.items()]
        out += ['%s#%d in %s' % (S.name[s], s, sorted(d)) for s, d in self.dom.items()]
        return '\n  '.join(out)


# ------------------------------------------------------------------ terms

def euclid(store, e, d):
    """(q, r) with e = d*q + r, 0 <= r < d (d a positive constant)"""
    e = store.norm(e)
    if not e.t: return C(e.c // d), C(e.c % d)
    # split off the divisible part
    div = Lin(e.c // d * d, tuple((s, k) for s, k in e.t if k % d == 0))
    rest = e - div
    base = Lin(div.c // d, tuple((s, k // d) for s, k in div.t))
    if not rest.t:
        return base, rest
    lo, hi = store.interval(rest)
    if 0 <= lo and hi < d: return base, rest
    q = S.term('div', (rest, d), lo // d if lo > -BIG // 2 else -BIG, hi // d if hi < BIG // 2 else BIG)
    # e = d q + r : axioms 0 <= rest - d q <= d-1
    if q not in S.ax:
        x = rest - V(q).scale(d)
        S.ax[q] = [x, C(d - 1) - x]
    l = V(q)
    store.use(l)
    return base + l, rest - l.scale(d)


def simp_term(store, t):
    """recompute term t under the store's equalities; new value or None"""
    dn = S.defn[t]
    op, args = dn[0], [store.norm(a) if isinstance(a, Lin) else a for a in dn[1:]]
    if op == 'div':
        return euclid(store, args[0], args[1])[0]
    f = SIMP.get(op)
    if f:
        r = f(store, *args)
        if r is not None: return r
    key = (op,) + tuple(args)
    s = S.cons.get(key)
    if s is None:
        s = S.term(op, args, S.lo[t], S.hi[t])
        if t in S.ax:
            S.ax[s] = [store.norm(a) for a in S.ax[t]]
    return V(s)


SIMP = {}
