"""Analysis of the descriptor operations: lookups, registration of extensions,
iterators.  Tables have any size and any content that is sorted as the
generator sorts it; one symbolic position marks the entry looked for."""
from world import *

SMAX = (1 << 31) - 1


class Table:
    """a table of entries with a key at one offset; `at` is the symbolic index
    of the entry searched for, or None when there is none"""
    def __init__(self, W, name, stride, fields, keyoff, key, strict, size, at, nameoff=None, sorted=True):
        self.W, self.name, self.stride, self.keyoff, self.key, self.strict, self.size, self.at, self.nameoff, self.sorted = W, name, stride, keyoff, key, strict, size, at, nameoff, sorted
        self.tmpl = Tmpl('table', None, fields, stride)
        self.tmpl.onload = self.onload
        self.loads = 0

    def index(self, s, off, fo):
        off = s.st.norm(off - fo)
        if off.c % self.stride or any(k % self.stride for _, k in off.t): return None
        return Lin(off.c // self.stride, tuple((x, k // self.stride) for x, k in off.t))

    def where(self, s, i):
        """partition by the position relative to the entry searched for"""
        if self.at is None: return [(s, None)]
        out = []
        for rel in (-1, 0, 1):
            n = s.clone()
            d = i - self.at
            if rel < 0: n.st.ge0(-d - 1)
            elif rel > 0: n.st.ge0(d - 1)
            else: n.st.eq0(d)
            if not n.st.bot and n.st.sat((i - self.at).syms()): out.append((n, rel))
        return out

    def onload(self, ip, s, o, off, n, v):
        if v[0] != 'i' or self.keyoff is None: return [(s, v)]
        i = self.index(s, off, self.keyoff)
        if i is None: return [(s, v)]
        self.loads += 1
        out = []
        for n_, rel in self.where(s, i):
            k = n_.st.norm(v[2])
            d = k - self.key
            if rel is None: n_.st.ne0(d)
            elif rel == 0: n_.st.eq0(d)
            elif self.strict:
                # keys grow by at least one from entry to entry
                x = n_.st.norm(d - (i - self.at))
                n_.st.ge0(x if rel > 0 else -x)
            else: n_.st.ge0(d if rel > 0 else -d)
            if not n_.st.bot and n_.st.sat(d.syms()): out.append((n_, I(v[1], n_.st.norm(v[2]))))
        return out


class DescSpec:
    def __init__(self, mod):
        self.m = mod
        self.W = World(mod)
        self.cov = dict(worlds=0, lookups=0, results=0, found=0, absent=0)
        self.ips = []

    def interp(self, con=None):
        ip = Interp(self.m, con or {}, budget=300)
        self.ips.append(ip)
        return ip

    def fields(self, s, name, key=None, at=None, sorted=True, size=None):
        """a table of field descriptors"""
        W = self.W
        o = W.off
        f = {o('pb_field_descriptor_t', 'tag'): dict(w=4, lo=1, hi=(1 << 29) - 1, name='tag'),
             o('pb_field_descriptor_t', 'name'): dict(w=8, ptr=Tmpl('chars', None, {0: dict(w=1, lo=0, hi=255)}, 1), null=False, writable=False, name='name'),
             o('pb_field_descriptor_t', 'label'): dict(w=4, lo=1, hi=4, dom=W.labels, name='label'),
             o('pb_field_descriptor_t', 'type'): dict(w=4, lo=1, hi=17, dom=W.types, name='type')}
        size = size if size is not None else fresh('size', 0, MAXSIZE // 64)
        t = Table(W, name, W.size('pb_field_descriptor_t'), f, o('pb_field_descriptor_t', 'tag') if key is not None else None, key, True, size, at, o('pb_field_descriptor_t', 'name'))
        self.table(s, t)
        return t

    def values(self, s, name, key=None, at=None):
        W = self.W
        o = W.off
        f = {o('pb_enum_value_descriptor_t', 'number'): dict(w=4, lo=-SMAX - 1, hi=SMAX, name='number'),
             o('pb_enum_value_descriptor_t', 'name'): dict(w=8, ptr=Tmpl('chars', None, {0: dict(w=1, lo=0, hi=255)}, 1), null=False, writable=False, name='name')}
        t = Table(W, name, W.size('pb_enum_value_descriptor_t'), f, o('pb_enum_value_descriptor_t', 'number') if key is not None else None, key, False, fresh('size', 0, MAXSIZE // 64), at, o('pb_enum_value_descriptor_t', 'name'))
        self.table(s, t)
        return t

    def table(self, s, t):
        ob = Obj(t.name, t.size.scale(t.stride), ('init', t.tmpl, t.name), 'input')
        ob.writable = False
        s.add(ob)
        if t.at is not None:
            s.st.ge0(t.at); s.st.ge0(t.size - t.at - 1)
            if t.strict and t.key is not None: s.st.ge0(t.key - t.at - 1)      # tags are positive and strictly increasing

    def owner(self, s, name, st, data, t, ext=None):
        """descriptor object name referring to table t"""
        W = self.W
        p = W.struct(s, name, st)
        W.put(s, p, st, data + '.data', ('p', t.name, ZERO))
        W.put(s, p, st, data + '.size', I(64, t.size))
        if st == 'pb_descriptor_t': W.put(s, p, st, 'extension', ext if ext is not None else NULL)
        s.wobj(name).writable = False
        return p

    # ---------------------------------------------------------------- names
    def strings(self, tables, query):
        """strcmp on the names of the tables and the name asked for"""
        tab = {t.name: t for t in tables}
        me = self

        def ident(s, v):
            v = s.nv(v)
            if v == query: return ('q', None, None)
            if v[0] == 'p' and v[2] == ZERO and v[1][0] == 'L': sy = int(v[1][1:])
            elif v[0] == 'lp': sy = v[1]
            else: return None
            sp = LAZY[sy]
            t = tab.get(sp.get('owner'))
            if t is None: return None
            return ('n', t, t.index(s, sp['off'], t.nameoff))

        def strcmp(ip, s, args, ins):
            a, b = ident(s, args[0]), ident(s, args[1])
            if a is None or b is None or {a[0], b[0]} != {'q', 'n'}:
                raise AnalysisBroken('comparison of strings that are not a name and the name asked for')
            _, t, i = a if a[0] == 'n' else b
            t.loads += 1
            # the name of an entry is read: it must be in the table (checked when it was loaded)
            out = []
            for n, rel in t.where(s, i):
                if rel == 0: out.append((n, I(32, 0)))
                else:
                    x = fresh('strcmp', -SMAX - 1, SMAX)
                    n.st.ne0(x)
                    out.append((n, I(32, x)))
            return out

        def strlen(ip, s, args, ins):
            a = ident(s, args[0])
            if a is None: return None
            n = term('strlen', ('q',) if a[0] == 'q' else (a[1].name, a[2]), 0, 1 << 62)
            return [(s, I(64, n))]

        def memcmp(ip, s, args, ins):
            a, b = ident(s, args[0]), ident(s, args[1])
            if a is None or b is None or {a[0], b[0]} != {'q', 'n'}: return None
            _, t, i = a if a[0] == 'n' else b
            raise AnalysisBroken('names are compared bytewise')
        return dict(strcmp=strcmp, strlen=strlen)

    # ---------------------------------------------------------------- lookups
    def verdict(self, ip, s, v, tables, k, fn, key, what):
        """k: number of the table with the entry or None"""
        self.cov['results'] += 1
        f = self.m.funcs[fn]
        ins = f.blocks[f.order[0]].ins[0]
        loc = (self.m.fnloc(f))
        v = s.nv(v) if v is not None else UNDEF
        outs = ip.force(s, v) if v[0] == 'lp' else [(s, v)]
        for n, v in outs:
            if v[0] == 'null':
                self.cov['absent'] += 1
                if k is not None: ip.report(n, 'C22', '%s finds nothing although %s' % (fn, what), loc=loc)
                continue
            t = next((t for t in tables if v[0] == 'p' and v[1] == t.name), None)
            if t is None or k is None:
                ip.report(n, 'C22', '%s returns an entry although no entry matches' % fn if k is None else '%s returns something that is not an entry of the description' % fn, loc=loc); continue
            self.cov['found'] += 1
            i = t.index(n, v[2], 0)
            if i is None or not n.st.entails(i) or not n.st.entails(t.size - i - 1):
                ip.report(n, 'C22', '%s returns a pointer that is not an entry of its table' % fn, loc=loc); continue
            if key is not None:
                for z, kv in ip.load(n, ('p', v[1], v[2] + t.keyoff), 4, 'i'):
                    if not z.st.entails_eq(kv[2] - key): ip.report(z, 'C22', '%s returns an entry that does not match' % fn, loc=loc)
            elif t.at is None or not n.st.entails_eq(i - t.at):
                ip.report(n, 'C22', '%s returns an entry that does not match' % fn, loc=loc)

    def chain(self, s, n, k, key):
        """n descriptors, each the extension of the one before, the k-th with a match"""
        ts, p = [], NULL
        for j in reversed(range(n)):
            at = fresh('at', 0, MAXSIZE) if j == k else None
            t = self.fields(s, 'T%d' % j, key, at)
            p = self.owner(s, 'D%d' % j, 'pb_descriptor_t', 'field', t, p)
            ts.insert(0, t)
        return ts, p

    def need(self, fn):
        if fn not in self.m.funcs or not self.m.funcs[fn].defined: raise AnalysisBroken('%s is missing' % fn)

    def lookups(self, depth=3):
        W = self.W
        for n in range(1, depth + 1):
            for k in list(range(n)) + [None]:
                fn = 'pb_descriptor_field_by_tag'; self.need(fn)
                s = State()
                tag = fresh('tag', 1, (1 << 29) - 1)
                ts, d = self.chain(s, n, k, tag)
                ip = self.interp(); self.cov['worlds'] += 1
                for z, v in ip.call(s, fn, [d, I(32, tag)]):
                    self.verdict(ip, z, v, ts, k, fn, tag, 'the description or one of its extensions has a field with the tag')
                fn = 'pb_descriptor_field_by_name'; self.need(fn)
                s = State()
                ts, d = self.chain(s, n, k, None)
                q = W.bytes(s, 'Q', fresh('len', 1, 1 << 40))
                ip = self.interp(self.strings(ts, q)); self.cov['worlds'] += 1
                for z, v in ip.call(s, fn, [d, q]):
                    self.verdict(ip, z, v, ts, k, fn, None, 'the description or one of its extensions has a field with the name')
                self.cov['lookups'] += sum(t.loads for t in ts)
        for has in (True, False):
            fn = 'pb_enum_descriptor_value_by_number'; self.need(fn)
            s = State()
            num = fresh('number', -SMAX - 1, SMAX)
            t = self.values(s, 'T', num, fresh('at', 0, MAXSIZE) if has else None)
            d = self.owner(s, 'E', 'pb_enum_descriptor_t', 'value', t)
            ip = self.interp(); self.cov['worlds'] += 1
            for z, v in ip.call(s, fn, [d, I(32, num)]):
                self.verdict(ip, z, v, [t], 0 if has else None, fn, num, 'the enum has a value with the number')
            self.cov['lookups'] += t.loads
            fn = 'pb_enum_descriptor_value_by_name'; self.need(fn)
            s = State()
            t = self.values(s, 'T', None, fresh('at', 0, MAXSIZE) if has else None)
            d = self.owner(s, 'E', 'pb_enum_descriptor_t', 'value', t)
            q = W.bytes(s, 'Q', fresh('len', 1, 1 << 40))
            ip = self.interp(self.strings([t], q)); self.cov['worlds'] += 1
            for z, v in ip.call(s, fn, [d, q]):
                self.verdict(ip, z, v, [t], 0 if has else None, fn, None, 'the enum has a value with the name')
            self.cov['lookups'] += t.loads


    # ---------------------------------------------------------------- extension
    def extend(self, depth=3):
        """pb_descriptor_extend on chains of 0..depth extensions"""
        W = self.W
        fn = 'pb_descriptor_extend'; self.need(fn)
        f = self.m.funcs[fn]
        loc = self.m.fnloc(f)
        for n in range(depth + 1):
            for k in list(range(n)) + [None]:
                for tail in ((0, 1) if k is None else (0,)):
                    # k: place of the new extension in the chain; tail: it has an extension of its own
                    s = State()
                    names = ['D'] + ['E%d' % j for j in range(n)]
                    new = names[k + 1] if k is not None else 'N'
                    nodes = names + ([new] if k is None else []) + (['M'] if tail else [])
                    for x in nodes:
                        t = self.fields(s, 'T' + x)
                        self.owner(s, x, 'pb_descriptor_t', 'field', t)
                        s.wobj(x).writable = True
                    link = dict(zip(names, names[1:] + [None]))
                    if k is None: link[new] = 'M' if tail else None
                    if tail: link['M'] = None
                    for x, y in link.items(): W.put(s, ('p', x, ZERO), 'pb_descriptor_t', 'extension', ('p', y, ZERO) if y else NULL)
                    before = {x: (s.objs[x].cells.copy(), list(s.objs[x].segs)) for x in nodes}
                    ip = self.interp(); self.cov['worlds'] += 1
                    want = [x for x in names[1:]] + ([new] if k is None else []) + (['M'] if tail else [])
                    for z, _ in ip.call(s, fn, [('p', 'D', ZERO), ('p', new, ZERO)]):
                        self.cov['results'] += 1
                        got, cur, seen = [], 'D', set()
                        while True:
                            v = W.rd(z, ('p', cur, ZERO), 'pb_descriptor_t', 'extension')
                            if v is None or v[0] not in ('p', 'null'):
                                ip.report(z, 'C23', 'after registering an extension the chain of extensions is not known', loc=loc); break
                            if v[0] == 'null': break
                            if v[1] in seen or v[2] != ZERO:
                                ip.report(z, 'C23', 'registering an extension makes the chain of extensions cyclic', loc=loc); break
                            cur = v[1]; seen.add(cur); got.append(cur)
                        if k is not None and got != want:
                            ip.report(z, 'C23', 'registering an extension again changes the chain of extensions', loc=loc)
                        for x in want:
                            if x not in got:
                                ip.report(z, 'C23', 'the registered extension is not reachable from the extended description' if x == new else 'an extension registered before is lost', loc=loc)
                        for x in nodes:
                            o = z.objs[x]
                            for c, (w, v) in o.cells.items():
                                if c != W.off('pb_descriptor_t', 'extension') and before[x][0].get(c) != (w, v): ip.report(z, 'C23', 'registering an extension changes the field table of a description', loc=loc)

    # ---------------------------------------------------------------- iterators
    ITERS = (('pb_descriptor', 'pb_descriptor_t', 'field', 'pb_field_descriptor_t'), ('pb_enum_descriptor', 'pb_enum_descriptor_t', 'value', 'pb_enum_value_descriptor_t'), ('pb_oneof_descriptor', 'pb_oneof_descriptor_t', 'index', 'pb_field_descriptor_t'))

    def iterators(self):
        W = self.W
        for pre, st, mem, ent in self.ITERS:
            it = pre + '_iter'
            for sfx in ('create', 'begin', 'end', 'prev', 'next', 'pos', 'current', 'destroy'): self.need('%s_%s' % (it, sfx))
            its = it + '_t'
            pos = fresh('pos', 0, MAXSIZE // 64)

            def world(p=None):
                s = State()
                size = fresh('size', 0, MAXSIZE // 64)
                if st == 'pb_descriptor_t':
                    t = self.fields(s, 'T', size=size); W_ = self.owner(s, 'D', st, mem, t)
                elif st == 'pb_enum_descriptor_t':
                    t = self.values(s, 'T'); size = t.size; W_ = self.owner(s, 'D', st, mem, t)
                else:
                    # indexes lie inside the field table
                    t = self.fields(s, 'T')
                    self.owner(s, 'F', 'pb_descriptor_t', 'field', t)
                    nt = Tmpl('indexes', None, {0: dict(w=8, lo=0, hi=MAXSIZE // 64, name='index')}, 8)

                    def inrange(ip, s, o, off, n, v):
                        s.st.ge0(t.size - v[2] - 1)
                        return [(s, v)] if not s.st.bot and s.st.sat(v[2].syms()) else []
                    nt.onload = inrange
                    ob = Obj('X', size.scale(8), ('init', nt, 'X'), 'input'); ob.writable = False; s.add(ob)
                    W_ = W.struct(s, 'D', st)
                    W.put(s, W_, st, 'descriptor', ('p', 'F', ZERO)); W.put(s, W_, st, 'index.data', ('p', 'X', ZERO)); W.put(s, W_, st, 'index.size', I(64, size))
                    s.wobj('D').writable = False
                i = W.struct(s, 'I', its)
                W.put(s, i, its, 'descriptor', W_)
                W.put(s, i, its, 'pos', I(64, p if p is not None else (1 << 64) - 1))
                return s, size, i, W_

            def run(fn, s, args):
                self.cov['worlds'] += 1
                ip = self.interp()
                f = self.m.funcs[fn]
                self.loc = self.m.fnloc(f)
                for z, v in ip.call(s, fn, args):
                    self.cov['results'] += 1
                    yield ip, z, v

            def after(ip, z):
                d = W.rd(z, ('p', 'I', ZERO), its, 'descriptor')
                if d != ('p', 'D', ZERO): ip.report(z, 'C24', 'the iterator does not refer to its descriptor any more', loc=self.loc)
                p = W.rd(z, ('p', 'I', ZERO), its, 'pos')
                if p is None or p[0] != 'i':
                    ip.report(z, 'C24', 'the position is not defined', loc=self.loc); return None
                return p[2]

            def bool_(ip, z, v):
                """partition by the test result"""
                for n, l in ip.toint(z, v, 32):
                    for n1 in ip.assume_cmp(n.clone(), 'ne', l, ZERO, 32): yield n1, True
                    for n1 in ip.assume_cmp(n, 'eq', l, ZERO, 32): yield n1, False

            def says(ip, z, cond, msg):
                """cond >= 0 must hold"""
                if not z.st.entails(cond): ip.report(z, 'C24', msg, loc=self.loc)
            # creation
            s, size, i, d = world()
            for ip, z, v in run(it + '_create', s, [d]):
                if v is None or v[0] != 'a' or z.nv(v[1][0]) != ('p', 'D', ZERO): ip.report(z, 'C24', 'a new iterator does not refer to the descriptor', loc=self.loc)
            # begin and end
            for fn, last in (('_begin', False), ('_end', True)):
                s, size, i, d = world()
                for ip, z, v in run(it + fn, s, [i]):
                    for n, ok in bool_(ip, z, v):
                        if not ok: says(ip, n, -n.st.norm(size), '%s reports an empty table although it has entries' % (it + fn)); continue
                        says(ip, n, size - 1, '%s reports an entry although the table is empty' % (it + fn))
                        p = after(ip, n)
                        if p is None: continue
                        if not n.st.entails_eq(p - (size - 1 if last else ZERO)): ip.report(n, 'C24', '%s does not go to the %s entry' % (it + fn, 'last' if last else 'first'), loc=self.loc)
            for fn, step in (('_next', 1), ('_prev', -1)):
                s, size, i, d = world(pos)
                s.st.ge0(size - pos - 1)
                for ip, z, v in run(it + fn, s, [i]):
                    for n, ok in bool_(ip, z, v):
                        more = (size - pos - 2) if step > 0 else pos - 1
                        if not ok: says(ip, n, -n.st.norm(more) - 1, '%s reports the end although there is another entry' % (it + fn)); continue
                        says(ip, n, more, '%s moves outside the table' % (it + fn))
                        p = after(ip, n)
                        if p is not None and not n.st.entails_eq(p - pos - step): ip.report(n, 'C24', '%s does not move by one entry' % (it + fn), loc=self.loc)
            s, size, i, d = world(pos)
            s.st.ge0(size - pos - 1)
            for ip, z, v in run(it + '_pos', s, [i]):
                if v is None or v[0] != 'i' or not z.st.entails_eq(v[2] - pos): ip.report(z, 'C24', '%s_pos does not report the position' % it, loc=self.loc)
            s, size, i, d = world(pos)
            s.st.ge0(size - pos - 1)
            for ip, z, v in run(it + '_current', s, [i]):
                v = z.nv(v)
                at = pos
                if st == 'pb_oneof_descriptor_t': at = ip.init_value(z, z.objs['X'], pos.scale(8), 8, 'i')[2]
                if v[0] != 'p' or v[1] != 'T' or not z.st.entails_eq(v[2] - at.scale(W.size(ent))): ip.report(z, 'C24', '%s_current does not return the entry at the position' % it, loc=self.loc)
            for fn, p in (('size', None), ('empty', None)):
                self.need('%s_%s' % (pre, fn))
                s, size, i, d = world()
                for ip, z, v in run('%s_%s' % (pre, fn), s, [d]):
                    if fn == 'size':
                        if v[0] != 'i' or not z.st.entails_eq(v[2] - size): ip.report(z, 'C24', '%s_size does not report the number of entries' % pre, loc=self.loc)
                    else:
                        for n, ok in bool_(ip, z, v):
                            says(ip, n, -n.st.norm(size) if ok else size - 1, '%s_empty is wrong' % pre)


if __name__ == '__main__':
    t = time.time()
    d = DescSpec(ir.load(inline_tu=True))
    d.lookups(); print(d.cov); d.extend(); print(d.cov); d.iterators()
    print(time.time() - t, d.cov)
    for ip in d.ips:
        for f in ip.findings:
            print(f)
            if __import__('os').environ.get('V'): print(f.trace, f.state)
            if __import__('os').environ.get('V'): print(f.trace, f.state)
