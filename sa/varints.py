"""Obligations on the varint functions, over the bit-provenance analysis."""
import ir
from ir import AnalysisBroken
from bits import *

W = {'int32': 32, 'int64': 64, 'uint8': 8, 'uint32': 32, 'uint64': 64, 'sint32': 32, 'sint64': 64}
MAXN = {'int32': 10, 'int64': 10, 'uint8': 2, 'uint32': 5, 'uint64': 10, 'sint32': 5, 'sint64': 10}
# longest encoding whose value is in general that of the type
FULL = {'int32': 5, 'int64': 10, 'uint8': 2, 'uint32': 5, 'uint64': 10, 'sint32': 5, 'sint64': 10}


def values(B, ty):
    """partition of all values: (name, value bits, encoded integer bits)"""
    w = W[ty]
    if ty.startswith('sint'):
        for s in (0, 1):
            for m in range(0, w):          # m: significant bits of v ^ sign
                v = [s] * w
                if m:
                    for i in range(m - 1): v[i] = B.sym()
                    v[m - 1] = 1 ^ s
                z = [s] + [x ^ s for x in v[:-1]]
                yield 'sign %d, %d significant bits' % (s, m), tuple(v), tuple(z)
        return
    signed = ty.startswith('int')
    for m in range(0, w + 1):
        v = [0] * w
        if m:
            for i in range(m - 1): v[i] = B.sym()
            v[m - 1] = 1
        e = list(v)
        if signed and w == 32: e += [v[31]] * 32
        yield '%d significant bits' % m, tuple(v), tuple(e)


def encoding(e):
    """canonical varint of integer bits e: list of byte forms"""
    n = max([i for i, x in enumerate(e) if x] + [0]) // 7 + 1
    out = []
    for k in range(n):
        b = list(e[7 * k:7 * k + 7]); b += [0] * (7 - len(b))
        out.append(tuple(b) + (1 if k < n - 1 else 0,))
    return out


def check(mod, report, parts=('size', 'pack', 'unpack', 'scan'), obl=None):
    obl = obl if obl is not None else {}
    B = Bits(mod)

    def fail(B, st, msg, fn, ins=None):
        if st is not None and st.taint: raise AnalysisBroken('%s: the bit analysis is too coarse (%s)' % (fn, msg))
        loc = mod.loc(ins.dbg) if ins is not None and ins.dbg else ('src/core/varint.c', 0, fn)
        report(msg, loc)

    def run(fn, args, st, what):
        obl['partitions'] = obl.get('partitions', 0) + 1
        B.paths = 0; B.steps = 0
        try:
            return B.call(fn, args, st)
        except Bad as e:
            fail(B, None, '%s: %s' % (what, e.msg), fn, e.ins)
            return []

    def num(st, r, fn, what):
        """constant result or None"""
        if r is None or r[0] != 'i':
            fail(B, st, '%s: the result is undefined' % what, fn); return None
        b = tuple(st.norm(x) for x in r[1])
        n = B.value(b)
        if n is None: raise AnalysisBroken('%s: size is not determined (%s)' % (fn, what))
        return n

    def same(a, b, st, fn):
        bad = [1 for x, y in zip(a, b) if st.norm(x ^ y)]
        if bad and any(st.norm(x ^ y) & B.taints for x, y in zip(a, b)): raise AnalysisBroken('%s: the bit analysis loses precision' % fn)
        return not bad and len(a) == len(b)

    for ty in W:
        w = W[ty]
        for name, v, e in values(B, ty):
            enc = encoding(e)
            n = len(enc)
            if 'size' in parts:
                fn = 'pb_varint_size_' + ty
                st = St()
                st.mem['V'] = [w // 8, {i: v[8 * i:8 * i + 8] for i in range(w // 8)}, True]
                for s, r in run(fn, [('p', 'V', 0)], st, name):
                    k = num(s, r, fn, name)
                    obl['size'] = obl.get('size', 0) + 1
                    if k is not None and k != n: fail(B, s, 'a value with %s takes %d byte(s), but its size is given as %d' % (name, n, k), fn)
            if 'pack' in parts:
                fn = 'pb_varint_pack_' + ty
                st = St()
                st.mem['V'] = [w // 8, {i: v[8 * i:8 * i + 8] for i in range(w // 8)}, True]
                st.mem['D'] = [n, {}, False]
                for s, r in run(fn, [('p', 'D', 0), ('p', 'V', 0)], st, name):
                    k = num(s, r, fn, name)
                    obl['pack'] = obl.get('pack', 0) + 1
                    if k is not None and k != n: fail(B, s, 'packing a value with %s gives %d byte(s) instead of %d' % (name, k, n), fn)
                    for j in range(n):
                        b = s.mem['D'][1].get(j)
                        if b is None: fail(B, s, 'packing a value with %s does not write byte %d' % (name, j), fn)
                        elif not same(b, enc[j], s, fn): fail(B, s, 'packing a value with %s writes a wrong byte %d' % (name, j), fn)
            # the canonical encoding denotes the value again (specification check)
            z = []
            for b in enc: z += b[:7]
            z = (z + [0] * 80)[:len(e)]
            if not same(tuple(z), e, St(), 'spec'): raise AnalysisBroken('specification of the encoding is inconsistent')

    def data(n, L):
        """bytes: n-1 continued ones, then a last one (n > 10: none), rest free"""
        c = {}
        tot = L if L is not None else BIGMIN
        for i in range(tot):
            b = [B.sym() for _ in range(7)]
            t = 1 if i < n - 1 else 0 if i == n - 1 else B.sym()
            c[i] = tuple(b) + (t,)
        return c
    lens = list(range(1, BIGMIN)) + [None]
    for ty in W:
        if 'unpack' not in parts: break
        fn = 'pb_varint_unpack_' + ty
        w = W[ty]
        for L in lens:
            for n in range(1, 12):
                if L is not None and n > L + 1: continue
                B.nsym = 1; B.taints = 0
                st = St()
                d = data(n, L)
                st.mem['D'] = [L if L is not None else BIGMIN, d, True]
                st.mem['V'] = [w // 8, {}, False]
                left = ('i', Bits.const(L, 64)) if L is not None else ('big', 0)
                avail = n <= 10 and (L is None or n <= L)
                what = 'a varint of %d byte(s) with %s available' % (n, L if L is not None else 'more than %d' % (BIGMIN - 1)) if n <= 10 and avail else 'bytes without the end of a varint, %s available' % L
                for s, r in run(fn, [('p', 'D', 0), left, ('p', 'V', 0)], st, what):
                    k = num(s, r, fn, what)
                    if k is None: continue
                    obl['unpack'] = obl.get('unpack', 0) + 1
                    if not avail:
                        if k != 0: fail(B, s, 'unpacking %s succeeds' % what, fn)
                        continue
                    must = n <= FULL[ty]
                    if ty == 'int32' and n == 10:
                        # the encoding of a negative value
                        canon = [1] * 7
                        ok = all(s.norm(x) == 1 for i in range(5, 9) for x in d[i]) and all(s.norm(x) == y for x, y in zip(d[9], (1, 0, 0, 0, 0, 0, 0, 0))) and all(s.norm(x) == 1 for x in d[4][4:])
                        may = True
                        for i in range(5, 9):
                            for x in d[i]:
                                may = may and s.norm(x) != 0
                        for x, y in zip(d[9], (1, 0, 0, 0, 0, 0, 0, 0)): may = may and s.norm(x) != 1 - y
                        for x in d[4][4:]: may = may and s.norm(x) != 0
                        if k == 0:
                            # no canonical encoding of a negative value may be on this path
                            if may: fail(B, s, 'unpacking the ten bytes of a negative value fails', fn)
                            continue
                        if k != 10: fail(B, s, 'unpacking %s reports %d byte(s)' % (what, k), fn)
                        must = False
                        exp = []
                        for i in range(5): exp += d[i][:7]
                        exp = tuple(exp[:w])
                        got = s.mem['V'][1]
                        g = ()
                        for i in range(w // 8): g += got.get(i) or (None,) * 8
                        if None in g or not same(g, exp, s, fn): fail(B, s, 'unpacking %s gives a wrong value' % what, fn)
                        continue
                    if k == 0:
                        if must: fail(B, s, 'unpacking %s fails' % what, fn)
                        continue
                    if k != n:
                        fail(B, s, 'unpacking %s reports %d byte(s)' % (what, k), fn); continue
                    if not must: continue
                    exp = []
                    for i in range(n): exp += d[i][:7]
                    exp = (exp + [0] * 80)[:w]
                    if ty.startswith('sint'): exp = [x ^ exp[0] for x in exp[1:]] + [exp[0]]
                    got = s.mem['V'][1]
                    g = ()
                    for i in range(w // 8): g += got.get(i) or (None,) * 8
                    if None in g: fail(B, s, 'unpacking %s does not store the whole value' % what, fn)
                    elif not same(g, tuple(exp), s, fn): fail(B, s, 'unpacking %s gives a wrong value' % what, fn)
    if 'scan' in parts:
        fn = 'pb_varint_scan'
        for L in lens:
            for n in range(1, 12):
                if L is not None and n > L + 1: continue
                B.nsym = 1; B.taints = 0
                st = St()
                st.mem['D'] = [L if L is not None else BIGMIN, data(n, L), True]
                left = ('i', Bits.const(L, 64)) if L is not None else ('big', 0)
                avail = n <= 10 and (L is None or n <= L)
                what = 'a varint of %d byte(s) with %s available' % (n, L if L is not None else 'more than %d' % (BIGMIN - 1)) if avail else 'bytes without the end of a varint, %s available' % L
                for s, r in run(fn, [('p', 'D', 0), left], st, what):
                    k = num(s, r, fn, what)
                    obl['scan'] = obl.get('scan', 0) + 1
                    if k is not None and k != (n if avail else 0):
                        fail(B, s, 'scanning %s gives %d' % (what, k), fn)
    obl['functions'] = len(B.funcs)
    obl['reads'] = B.reads; obl['writes'] = B.writes
    return obl


if __name__ == '__main__':
    import time
    for ex in ((), ('-U__SSE2__',)):
        t = time.time()
        m = ir.Module(ir.build(extra=ex, srcs=[s for s in ir.sources(('core',))]))
        print(check(m, lambda msg, loc: print(msg, loc)), time.time() - t)
