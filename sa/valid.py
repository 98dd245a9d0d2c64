"""The validator: what it collects while decoding (in memory of a size that
depends on the descriptor) is followed for one required field at any place of
the descriptor.  Decoding itself is replaced by its model (models/decode.c)."""
from mem import *
from desc import Table
import ir, os

MODEL = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'models', 'decode.c')


class FieldTable(Table):
    """a descriptor's fields; entry `at` is required, others as given"""
    others = None

    def onload(self, ip, s, o, off, n, v):
        i = self.index(s, off, self.W.off('pb_field_descriptor_t', 'label'))
        if i is None or v[0] != 'i': return Table.onload(self, ip, s, o, off, n, v)
        R = self.W.enum('PB_LABEL_REQUIRED')
        out = []
        for z, rel in self.where(s, i):
            z.st.restrict(v[2], frozenset([R]) if rel == 0 else frozenset(self.W.labels) if self.others else frozenset(l for l in self.W.labels if l != R))
            if not z.st.bot and z.st.sat(): out.append((z, v))
        return out


def div(l, n):
    if l.c % n or any(k % n for _, k in l.t): return None
    return Lin(l.c // n, tuple((x, k // n) for x, k in l.t))


class Collected:
    """memory the tags of the fields that occurred are kept in"""
    def __init__(self, spec, level): self.sp, self.level = spec, level

    def key(self, o, k): return '%s:%s' % (k, o.id)

    def isw(self, s, v, w):
        """is a value the tag (or the descriptor) of a witness: True, False, None"""
        q, name = w
        if v[0] == 'i':
            if s.st.entails_ne(v[2] - q): return False
            return True if s.st.entails_eq(v[2] - q) else None
        if v[0] == 'p': return v[1] == name
        return False if v[0] == 'null' else None

    def width(self, s, o, n):
        g = s.ghost.get(self.key(o, 'w'))
        if g[2] == ZERO: s.ghost[self.key(o, 'w')] = I(8, n); return True
        return g[2].const() == n

    def write(self, ip, s, o, off, n, v, ins):
        # wr: elements written, pos: which one is the witness
        ws = list(enumerate(self.sp.wits(self.level)))
        k = lambda x: self.key(o, x)
        lost = lambda: s.ghost.update({k('has%d' % i): I(8, 2) for i, _ in ws})
        v = s.nv(v)
        at = div(s.st.norm(off), n)
        if not self.width(s, o, n) or at is None: return lost()
        wr = s.st.norm(s.ghost[k('wr')][2])
        if s.st.entails_eq(at - wr):
            s.ghost[k('wr')] = I(64, wr + 1)
            for i, w in ws:
                is_ = self.isw(s, v, w)
                h = k('has%d' % i)
                if is_ is None: s.ghost[h] = I(8, 2)
                elif is_ and s.ghost[h][2] == ZERO: s.ghost[h] = I(8, 1); s.ghost[k('pos%d' % i)] = I(64, at)
            return
        # a gap nobody knows the content of
        if not s.st.entails(wr - at - 1): return lost()
        for i, w in ws:
            is_ = self.isw(s, v, w)
            h = k('has%d' % i)
            has = s.ghost[h][2].const()
            if is_ is None or is_ is True and has != 1: s.ghost[h] = I(8, 2)
            elif not is_ and has == 1 and not s.st.entails_ne(at - s.st.norm(s.ghost[k('pos%d' % i)][2])): s.ghost[h] = I(8, 2)

    def read(self, ip, s, o, off, n, want):
        ws = self.sp.wits(self.level)
        k = lambda x: self.key(o, x)
        w = s.ghost[k('w')][2].const() or n
        wr = s.st.norm(s.ghost[k('wr')][2])
        if not s.st.entails(wr.scale(w) - off - n):
            self.sp.say(s, 'memory is read that was not written before')
            return [(s, ip.havoc(want, n))]
        at = div(s.st.norm(off), n)
        has = [s.ghost[k('has%d' % i)][2].const() for i in range(len(ws))]
        if n != w or at is None: has = [2] * len(ws)
        out, rest = [], [s]
        for i, (q, name) in enumerate(ws):
            if has[i] != 1: continue
            new = []
            for z in rest:
                d = z.st.norm(at - z.st.norm(z.ghost[k('pos%d' % i)][2]))
                for c in (None, -d - 1, d - 1):
                    y = z.clone()
                    if c is None: y.st.eq0(d)
                    else: y.st.ge0(c)
                    if y.st.bot or not y.st.sat(d.syms()): continue
                    if c is None: out.append((y, I(8 * n, q) if want == 'i' else ('p', name, ZERO)))
                    else: new.append(y)
            rest = new
        for z in rest:
            if want != 'i': out.append((z, ip.havoc(want, n) if 2 in has else ('p', 'FO%d' % self.level, ZERO))); continue
            x = fresh('collected', 0, (1 << 29) - 1)
            for i, (q, name) in enumerate(ws):
                if has[i] != 2: z.st.ne0(x - q)
            # a field delivered for the first time was not collected before
            if self.sp.new is not None: z.st.ne0(x - self.sp.newtag(z, self.level))
            out.append((z, I(8 * n, x)))
        return out


class ValidSpec(MemSpec):
    RULES = ('C25',)

    def __init__(self, mod, budget=600):
        MemSpec.__init__(self, mod, budget)
        W = self.W
        self.cov = dict(worlds=0, results=0, delivered=0, required_delivered=0, nested=0, recursions=0, collected=0, verdicts=0)
        for f in ('pb_decoder_decode', 'pb_validator_check'):
            if f not in mod.funcs: raise AnalysisBroken('%s is missing' % f)
        self.con.update(pb_decoder_decode=lambda ip, s, args, ins: ip.call(s, 'sa_decode', args, ins), sa_more=self.more, sa_field=self.field, sa_value=self.value, sa_end=self.end)
        self.con['pb_descriptor_field_by_tag'] = lambda ip, s, args, ins: [(s.clone(), NULL), (s, ('p', 'FS', ZERO))]
        self.ip.contracts.update(self.con)
        self.ip.dynalloca = self.dyn
        self.ip.onrecursion = self.rec

    def say(self, s, msg, ins=None):
        if ins is None: self.ip.report(s, 'C25', '%s: %s' % (self.fn, msg), loc=self.loc)
        else: self.ip.report(s, 'C25', msg, ins)

    def dyn(self, ip, s, o):
        lv = sum(1 for x in s.objs.values() if x.base[0] == 'hook' and x.alive)
        o.base = ('hook', Collected(self, lv))
        k = ['has%d:%s' % (i, o.id) for i in range(2)] + ['w:' + o.id]
        s.ghost.update({x: I(8, 0) for x in k})
        s.ghost.update({x + o.id: I(64, 0) for x in ('wr:', 'pos0:', 'pos1:')})
        self.ip.partghosts |= set(k)
        self.cov['collected'] += 1

    def rec(self, ip, s, f, args):
        """whatever else a recursion passes on has any value"""
        self.cov['recursions'] += 1
        return [I(v[1], fresh('any', 0, (1 << v[1]) - 1)) if v[0] == 'i' and f.name != 'sa_decode' else v for v in args]

    def wits(self, level):
        r = [(self.q[level], 'FQ%d' % level)] if level < len(self.q) and self.q[level] is not None else []
        return r + [(self.p, 'FP')] if level == 0 and self.p is not None else r

    def newtag(self, s, level): return s.nv(s.objs['FO%d' % level].cells[self.W.off('pb_field_descriptor_t', 'tag')][1])[2]

    # ------------------------------------------------------------ decoding
    def level(self, s, d):
        d = s.nv(d)
        v = s.nv(self.ip.readobj(s, s.objs[d[1]], s.st.norm(d[2] + self.W.off('pb_decoder_t', 'descriptor')), 8, 'p')[0][1])
        if v == ('p', 'D0', ZERO): return 0
        if v == ('p', 'D1', ZERO): return 1
        raise AnalysisBroken('a decoder of something else than the message')

    def more(self, ip, s, args, ins):
        s.ghost['cur'] = I(8, 0)
        # true by construction; joins forget it
        if self.new is not None: s.st.ge0(self.new - s.st.norm(s.ghost['dist'][2]))
        if s.st.bot: return []
        z = s.clone()
        if self.level(s, args[0]) == 1:
            # once is enough to mix levels up
            if not self.deliver[1] or s.ghost['once'][2].const(): return [(z, I(32, 0))]
            s.ghost['once'] = I(8, 1)
        return [(s, I(32, 1)), (z, I(32, 0))]

    def field(self, ip, s, args, ins):
        W = self.W
        lv = self.level(s, args[0])
        out = []
        g = lambda z, k: z.st.norm(z.ghost[k][2])
        for k in self.deliver[lv]:
            z = s.clone()
            self.cov['delivered'] += 1
            if k == 'Q':
                if self.new is not None and g(z, 'seen%d' % lv).const(): continue
                z.ghost['seen%d' % lv] = I(8, 1)
                self.cov['required_delivered'] += 1
                out.append((z, ('p', 'FQ%d' % lv, ZERO)))
            elif k == 'O':
                t = fresh('tag', 1, (1 << 29) - 1)
                if lv < len(self.q) and self.q[lv] is not None: z.st.ne0(t - self.q[lv])
                z.wobj('FO%d' % lv).cells[W.off('pb_field_descriptor_t', 'tag')] = (4, I(32, t))
                if self.new is not None and lv == 0:
                    # at most so many other fields are known
                    z.ghost['dist'] = I(64, g(z, 'dist') + 1)
                    z.st.ge0(self.new - g(z, 'dist') - 1)
                    if z.st.bot or not z.st.sat(): continue
                out.append((z, ('p', 'FO%d' % lv, ZERO)))
            elif k == 'P': out.append((z, ('p', 'FP', ZERO)))
            elif k == 'S':
                z.ghost['sub'] = I(8, 1); z.ghost['seen1'] = I(8, 0)
                self.cov['nested'] += 1
                out.append((z, ('p', 'FS', ZERO)))
            elif k == 'q':
                # a field of the submessage with the number of the required one
                out.append((z, ('p', 'FX', ZERO)))
            z.ghost['cur'] = I(8, 'QOSqP'.index(k))
        return out

    def value(self, ip, s, args, ins):
        return [(s, ('p', 'SUB', ZERO) if s.ghost['cur'][2].const() == 2 else ('p', 'VAL', ZERO))]

    def end(self, ip, s, args, ins):
        z = s.clone()
        z.ghost['bad'] = I(8, 1)
        if self.level(s, args[0]) == 1 and self.q[1] is not None and not s.ghost['seen1'][2].const(): s.ghost['lack'] = I(8, 1)
        return [(s, I(32, 0)), (z, I(32, self.W.enum('PB_ERROR_VARINT')))]

    # ------------------------------------------------------------ worlds
    def fd(self, s, name, tag, message=False, required=False):
        W = self.W
        o = Obj(name, C(W.field.size), ('init', W.field, name)); o.writable = False
        s.add(o)
        p = ('p', name, ZERO)
        W.put(s, p, 'pb_field_descriptor_t', 'tag', I(32, tag), 4)
        W.put(s, p, 'pb_field_descriptor_t', 'label', I(32, W.enum('PB_LABEL_REQUIRED') if required else fresh('label', 1, 4)), 4)
        if message: W.put(s, p, 'pb_field_descriptor_t', 'type', I(32, W.enum('PB_TYPE_MESSAGE')), 4); W.put(s, p, 'pb_field_descriptor_t', 'refer', ('p', 'D1', ZERO))
        else: W.put(s, p, 'pb_field_descriptor_t', 'type', I(32, W.enum('PB_TYPE_UINT32')), 4)

    def table(self, s, name, key, others, size):
        W = self.W
        o = W.off
        f = {o('pb_field_descriptor_t', 'tag'): dict(w=4, lo=1, hi=(1 << 29) - 1, name='tag'),
             o('pb_field_descriptor_t', 'label'): dict(w=4, lo=1, hi=4, dom=W.labels, name='label'),
             o('pb_field_descriptor_t', 'type'): dict(w=4, lo=1, hi=17, dom=W.types, name='type')}
        at = fresh('at', 0, MAXSIZE // 64) if key is not None else None
        t = FieldTable(W, name, W.size('pb_field_descriptor_t'), f, o('pb_field_descriptor_t', 'tag'), key, True, size, at)
        if key is None: t.keyoff = None
        t.others = others
        ob = Obj(name, t.size.scale(t.stride), ('init', t.tmpl, name), 'input'); ob.writable = False
        s.add(ob)
        if at is not None: s.st.ge0(at); s.st.ge0(t.size - at - 1); s.st.ge0(key - at - 1)
        return t

    def desc(self, s, name, t, ext):
        W = self.W
        p = W.struct(s, name, 'pb_descriptor_t')
        W.put(s, p, 'pb_descriptor_t', 'field.data', ('p', t.name, ZERO)); W.put(s, p, 'pb_descriptor_t', 'field.size', I(64, t.size))
        W.put(s, p, 'pb_descriptor_t', 'extension', ext)
        s.wobj(name).writable = False
        return p

    def world(self, req, deliver, exts=0, others=True, distinct=False):
        """req: is there a required field at level 0, 1; deliver: what is
        delivered at the two levels"""
        W = self.W
        S.cons.clear()
        s = State()
        self.ip.partghosts = {'seen0', 'seen1', 'sub', 'bad', 'cur', 'once', 'lack'}
        self.q = [fresh('required', 1, (1 << 29) - 1) if r else None for r in req]
        self.deliver = deliver
        # the sizes of all tables together are one symbol
        total = fresh('total', 0, MAXSIZE // 64)
        sizes = [fresh('size', 1 if self.q[0] is not None else 0, MAXSIZE // 64)] + [fresh('extsize', 1, MAXSIZE // 64) for i in range(exts - 1)]
        rest = total
        for n in sizes: rest = rest - n
        if exts:
            s.st.ge0(rest - 1); sizes.append(rest)
        else: sizes = [total]
        ext = NULL
        for i in range(exts):
            n = sizes[i + 1]
            W.obj(s, 'ET%d' % i, W.fields, writable=False, size=n.scale(W.fields.stride))
            p = W.struct(s, 'E%d' % i, 'pb_descriptor_t')
            W.put(s, p, 'pb_descriptor_t', 'field.data', ('p', 'ET%d' % i, ZERO)); W.put(s, p, 'pb_descriptor_t', 'field.size', I(64, n))
            W.put(s, p, 'pb_descriptor_t', 'extension', ext); s.wobj('E%d' % i).writable = False
            ext = p
        for lv in (0, 1):
            t = self.table(s, 'T%d' % lv, self.q[lv], others, sizes[0] if lv == 0 else fresh('size', 0, MAXSIZE // 64))
            self.desc(s, 'D%d' % lv, t, ext if lv == 0 else NULL)
            self.fd(s, 'FO%d' % lv, fresh('tag', 1, (1 << 29) - 1))
            if self.q[lv] is not None: self.fd(s, 'FQ%d' % lv, self.q[lv], required=True)
        if self.q[0] is not None:
            self.fd(s, 'FX', self.q[0])
            if self.q[1] is not None: s.st.ne0(self.q[0] - self.q[1])
        ts = fresh('subtag', 1, (1 << 29) - 1)
        if self.q[0] is not None: s.st.ne0(ts - self.q[0])
        self.fd(s, 'FS', ts, message=True)
        self.p = None
        if 'P' in deliver[0]:
            # a field that occurs again and again
            self.p = fresh('repeated', 1, (1 << 29) - 1)
            self.fd(s, 'FP', self.p)
            s.st.ge0(total - 2); s.st.ne0(self.p - self.q[0]); s.st.ne0(self.p - ts)
        self.new = total - (1 if self.q[0] is not None else 0) if distinct else None
        for k in ('seen0', 'seen1', 'sub', 'bad', 'cur', 'once', 'lack'): s.ghost[k] = I(8, 0)
        s.ghost['dist'] = I(64, 0)
        self.ip.globalobj(s, 'allocator_default')
        n = fresh('size', 0, MAXSIZE)
        W.bytes(s, 'B', n)
        b = W.buffer(s, 'BUF', ('p', 'allocator_default', ZERO), ('p', 'B', ZERO), n); s.wobj('BUF').writable = False
        b2 = W.buffer(s, 'BUF1', ('p', 'allocator_default', ZERO), ('p', 'B', ZERO), n); s.wobj('BUF1').writable = False
        d = W.struct(s, 'SUB', 'pb_decoder_t')
        W.put(s, d, 'pb_decoder_t', 'descriptor', ('p', 'D1', ZERO)); W.put(s, d, 'pb_decoder_t', 'buffer', b2); s.wobj('SUB').writable = False
        W.bytes(s, 'VAL', C(16))
        v = W.struct(s, 'V', 'pb_validator_t')
        W.put(s, v, 'pb_validator_t', 'descriptor', ('p', 'D0', ZERO)); s.wobj('V').writable = False
        return s, [v, b]

    # ------------------------------------------------------------ checks
    def check(self, what, req, deliver, exts=0, others=True, distinct=False):
        W = self.W
        s, args = self.world(req, deliver, exts, others, distinct)
        g = lambda z, k: z.ghost[k][2].const()
        for z, v in self.run('pb_validator_check', s, args):
            for y, e in self.err(z, v):
                self.cov['verdicts'] += 1
                if e is None:
                    if g(y, 'bad'): self.say(y, 'succeeds although decoding failed')
                    elif req[0] and not g(y, 'seen0'): self.say(y, 'succeeds although a required field does not occur')
                    elif g(y, 'lack'): self.say(y, 'succeeds although a required field of a submessage does not occur')
                elif not g(y, 'bad'):
                    if not y.st.entails_eq(e - W.enum('PB_ERROR_ABSENT')): self.say(y, 'fails with another error than absence although decoding did not fail')
                    elif not others and not (req[0] and not g(y, 'seen0')) and not g(y, 'lack'): self.say(y, 'reports absence although all required fields occur')

    def all(self, exts=(0, 2)):
        for n in exts:
            self.check('missing', (True, False), ('O', 'O'), n)
            self.check('distinct', (True, False), ('QO', 'O'), n, False, True)
        self.check('repeated', (True, False), ('QP', ''), 0, False)
        self.check('none', (False, False), ('O', 'O'), 1, False, True)
        self.check('leak', (True, False), ('S', 'q'), 1)
        self.check('nested', (False, True), ('S', ''))
        self.check('nested', (True, True), ('QS', 'q'))
        self.check('nested', (False, True), ('S', 'Q'), 0, False)


if __name__ == '__main__':
    t = time.time()
    d = ValidSpec(ir.load(inline_tu=True, srcs=ir.sources() + [MODEL]))
    d.all((0, 1, 2))
    print(d.cov)
    for f in d.ip.findings:
        print(f)
        if os.environ.get('V'): print(f.trace[-12:], f.state)
    print(time.time() - t)
