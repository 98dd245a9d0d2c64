"""Whole-library inclusion-based points-to analysis (field sensitive, flow
insensitive) over the IR of the current source, restricted to what a set of
public operations can reach.  Memory the caller hands in is modelled by one
object per C type taken from the debug information, so that "which memory may
this store change" is answered for every caller."""
import re
import ir
from ir import AnalysisBroken

LIMIT = 40     # positions in one object a pointer may have before it counts as moving through it
FLAGS = ('-fno-discard-value-names',)
# external functions: (pointer arguments written, pointer arguments copied (dst, src), returns)
EXT = {
    'llvm.memcpy.p0.p0.i64': dict(copy=(0, 1)), 'llvm.memmove.p0.p0.i64': dict(copy=(0, 1)), 'llvm.memset.p0.i64': dict(write=(0,)),
    'llvm.memcpy.p0.p0.i32': dict(copy=(0, 1)), 'memcpy': dict(copy=(0, 1), ret=0), 'memmove': dict(copy=(0, 1), ret=0), 'memset': dict(write=(0,), ret=0),
    'memcmp': {}, 'strcmp': {}, 'strncmp': {}, 'strlen': {}, 'memchr': dict(ret=0), 'strchr': dict(ret=0), 'malloc': dict(alloc=True), 'calloc': dict(alloc=True), 'realloc': dict(alloc=True, realloc=0),
    'free': dict(free=0), 'fprintf': dict(io=True), 'printf': dict(io=True), 'fputs': dict(io=True), 'puts': dict(io=True), 'putchar': dict(io=True), 'fputc': dict(io=True),
    'fwrite': dict(io=True), 'vfprintf': dict(io=True), 'abs': {}, 'isprint': {}, 'isgraph': {}, '__ctype_b_loc': {},
}
PURE = re.compile(r'llvm\.(ctlz|cttz|ctpop|bswap|fsh[lr]|u?s?(max|min)|abs|expect|stacksave|stackrestore|x86\.|objectsize|assume|dbg|lifetime|va_|umul|uadd|usub|smul|sadd|ssub|vector|is\.constant|prefetch)')
NEVER = {'exit', '_exit', '_Exit', 'abort', 'raise', 'kill', 'signal', 'sigaction', 'longjmp', '__assert_fail', '__assert', 'quick_exit', 'atexit', 'pthread_exit', 'alarm', 'fork', 'execve', 'system',
         'perror', 'open', 'openat', 'creat', 'fopen', 'freopen', 'fclose', 'close', 'read', 'write', 'unlink', 'remove', 'rename', 'fflush', 'popen', 'getenv', 'setenv', 'syslog', 'sleep', 'usleep', 'socket', 'send', 'recv', 'mmap', 'syscall', '__stack_chk_fail', 'tmpfile', 'fread', 'fseek', 'psignal', 'err', 'errx', 'warn', 'warnx', 'error', 'llvm.trap', 'llvm.debugtrap', 'llvm.ubsantrap'}
# standard functions that keep hidden state
STATEFUL = {'strtok', 'rand', 'srand', 'random', 'srandom', 'strerror', 'localtime', 'gmtime', 'ctime', 'asctime', 'setlocale', 'getenv', 'setenv', 'putenv', 'drand48', 'lrand48', 'tmpnam', 'getopt', 'ttyname', 'readdir', 'gethostbyname', 'mktime', 'strsignal'}


def load():
    return ir.load(inline_tu=True, extra=FLAGS)


def public(mod):
    """operations declared in the public headers that have a definition: name -> part"""
    import api
    out = {n: e['part'] for n, e in api.functions().items() if n in mod.funcs and mod.funcs[n].defined}
    if len(out) < 100: raise AnalysisBroken('only %d public operations found' % len(out))
    return out


def base(n):
    return re.sub(r'\.\d+$', '', n)


def filename(mod, f):
    d = mod.di(f.dbg) if f.dbg else None
    fl = mod.di(d['file']).get('filename', '?') if d and d.get('file') else '?'
    if fl.startswith(ir.REPO): fl = fl[len(ir.REPO) + 1:]
    return fl


def cparams(mod, f):
    """C parameters of a function: name -> DI type id (from the debug info)"""
    c = getattr(f, '_cparams', None)
    if c is not None: return c
    idx = getattr(mod, '_argidx', None)
    if idx is None:
        idx = mod._argidx = {}
        for k, s in mod.meta.items():
            if 'DILocalVariable' in s and 'arg: ' in s:
                d = mod.di(k)
                idx.setdefault(d['scope'].lstrip('!'), []).append((int(d['arg']), d['name'], d['type']))
    f._cparams = [(n, t) for _, n, t in sorted(idx.get(f.dbg, []))]
    return f._cparams


def cret(mod, f):
    """DI type id of the C return type ('null' for void)"""
    d = mod.di(f.dbg)
    t = mod.di(d['type'])
    l = t.get('types')
    if not l: return 'null'
    lst = mod.di(l).get('list') or ['null']
    return lst[0]


def tyname(mod, t):
    """C name of a DI type"""
    if t in (None, 'null'): return 'void'
    d = mod.di(t)
    k, tag = d.get('kind'), d.get('tag')
    if k == 'DIBasicType': return d['name']
    if tag == 'DW_TAG_typedef': return d['name']
    if tag in ('DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_restrict_type'): return tyname(mod, d.get('baseType'))
    if tag == 'DW_TAG_pointer_type': return tyname(mod, d.get('baseType')) + '*'
    if k == 'DISubroutineType': return 'fn'
    if d.get('name'): return d['name']
    return '?'


def dity(mod, t):
    """strip typedefs/qualifiers"""
    while t and t != 'null':
        d = mod.di(t)
        if d.get('kind') == 'DIDerivedType' and d.get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_restrict_type'): t = d.get('baseType')
        else: return d
    return None


class Obj:
    __slots__ = ('key', 'kind', 'ditype', 'stride', 'fields', 'init', 'fn', 'info')

    def __init__(self, key, kind, ditype=None, info=None):
        self.key, self.kind, self.ditype, self.stride, self.info = key, kind, ditype, None, info
        self.fields = {}       # offset -> set of (obj, off)

    def __repr__(self): return '<%s %s>' % (self.kind, self.key)


class Flow:
    def __init__(self, mod, roots, cut=()):
        """cut: functions whose bodies are not entered (their effects are the subject of another rule)"""
        self.m, self.roots, self.cut = mod, list(roots), set(cut)
        self.objs = {}
        self.strides = {}
        self.unknown_calls = []
        # without a single inttoptr, arithmetic on integers cannot produce pointers
        self.i2p = any(i.op == 'inttoptr' for f in mod.funcs.values() if f.defined for i in f.instrs())
        while True:
            try:
                self.solve(); break
            except Restart: pass

    # ---------------- objects
    def obj(self, key, kind, ditype=None, info=None):
        o = self.objs.get(key)
        if o is None:
            o = self.objs[key] = Obj(key, kind, ditype, info)
            if key in self.strides: o.stride = self.strides[key]
            if ditype: self.seed(o)
            self.dirty = True
        return o

    def stride(self, o, n):
        """o is indexed as an array of n byte elements"""
        if o.kind == 'data': return
        if o.stride is not None and n % o.stride == 0: return
        import math
        self.strides[o.key] = n if o.stride is None else math.gcd(n, o.stride)
        raise Restart()

    def norm(self, o, off):
        if off is None: return None
        if o.stride: return off % o.stride
        return off

    def pointee(self, di, path):
        """object a caller-supplied pointer of DI type `di` (pointer type) leads to"""
        t = dity(self.m, di.get('baseType')) if di.get('baseType') else None
        if t is None or t.get('kind') in ('DIBasicType', None) or t.get('tag') in ('DW_TAG_enumeration_type', 'DW_TAG_pointer_type'):
            return self.obj('data:' + path, 'data')
        if t.get('kind') == 'DISubroutineType':
            return self.obj('callback:' + path, 'callback')
        if t.get('kind') == 'DICompositeType':
            nm = t.get('name') or self.typedefname(di.get('baseType')) or '?'
            if 'elements' not in t: return self.obj('type:' + nm, 'type')
            return self.obj('type:' + nm, 'type', di.get('baseType'))
        return self.obj('data:' + path, 'data')

    def typedefname(self, t):
        while t and t != 'null':
            d = self.m.di(t)
            if d.get('tag') == 'DW_TAG_typedef': return d['name']
            t = d.get('baseType')
        return None

    def seed(self, o):
        """initial contents of a caller-supplied object of type o.ditype"""
        st = dity(self.m, o.ditype)
        if not st or st.get('kind') != 'DICompositeType' or 'elements' not in st: return
        nm = st.get('name') or self.typedefname(o.ditype) or '?'
        for mem, (off, bt) in self.m._members(st, '', 0).items():
            d = dity(self.m, bt)
            if d and d.get('tag') == 'DW_TAG_pointer_type':
                p = self.pointee(d, '%s.%s' % (nm, mem))
                self.addfield(o, off, (p.key, 0 if p.kind != 'callback' else 0))

    def addfield(self, o, off, p):
        if o.kind == 'data': return      # plain bytes of the caller: what is read back from there is caller memory again
        off = self.norm(o, off)
        s = o.fields.setdefault(off, set())
        if p not in s and (id(s), p[0]) not in self.wide:
            s.add(p); self.changed = True
            if len(s) > LIMIT: self.widen(s, p[0])

    # ---------------- solving
    def solve(self):
        self.objs = {}
        self.pts = {}
        self.reach = {}        # function -> (caller, ins) by which it was first reached
        self.callees = {}      # ins -> set of names
        self.stores = {}       # ins -> set of (objkey, off)   memory it may change
        self.frees = {}
        self.external = {}     # name -> list of ins
        self.reads = {}
        self.wide = set()      # (set, object) whose positions are no longer told apart
        self.work = []
        self.retnode = {}
        for r in self.roots:
            f = self.m.funcs.get(r)
            if f is None or not f.defined: raise AnalysisBroken('public operation %s is not defined' % r)
            self.enter(r, None)
            self.root_params(f)
        for _ in range(400):
            self.changed = False
            for fn in list(self.reach):
                f = self.m.funcs[fn]
                if fn in self.cut and fn not in self.roots: continue
                for i in f.instrs(): self.ins(i)
            if not self.changed: return
        raise AnalysisBroken('points-to analysis did not stabilise')

    def enter(self, n, via):
        if n not in self.reach:
            self.reach[n] = via; self.changed = True

    def add(self, node, ps):
        s = self.pts.setdefault(node, set())
        n = len(s)
        if self.wide: ps = {p for p in ps if (id(s), p[0]) not in self.wide}
        s |= ps
        if len(s) != n:
            self.changed = True
            if n > LIMIT:
                for k in {k for k, o in ps}: self.widen(s, k)

    def widen(self, s, k):
        """a pointer that is moved on in a loop: its positions in the object form an array, or become unknown"""
        import math
        offs = sorted(o for k_, o in s if k_ == k and o is not None)
        if len(offs) <= LIMIT or k.startswith('fn:'): return
        g = 0
        for o in offs: g = math.gcd(g, o - offs[0])
        if g >= 8: self.stride(self.objs[k], g)
        s -= {(k, o) for o in offs}
        s.add((k, None))
        self.wide.add((id(s), k))

    def root_params(self, f):
        cp = dict(cparams(self.m, f))
        for nm, t, a in f.params:
            if t.k != 'ptr': continue
            base_ = re.sub(r'\.coerce\d*$', '', nm.lstrip('%').strip('"'))
            if 'sret' in a:
                o = self.obj('result:' + f.name, 'result'); self.add((f.name, nm), {(o.key, 0)}); continue
            di = cp.get(base_)
            if di is None:
                if base_ == 'agg.result':
                    o = self.obj('result:' + f.name, 'result'); self.add((f.name, nm), {(o.key, 0)}); continue
                raise AnalysisBroken('no debug information for parameter %s of %s' % (nm, f.name))
            d = dity(self.m, di)
            if 'byval' in a:
                o = self.obj('copy:%s.%s' % (f.name, base_), 'copy', di)
                self.add((f.name, nm), {(o.key, 0)}); continue
            if d.get('tag') == 'DW_TAG_pointer_type':
                o = self.pointee(d, '%s(%s)' % (f.name, base_))
                self.add((f.name, nm), {(o.key, 0)})
            elif d.get('kind') == 'DICompositeType':   # small struct passed in registers
                for mem, (off, bt) in self.m._members(d, '', 0).items():
                    b = dity(self.m, bt)
                    if b and b.get('tag') == 'DW_TAG_pointer_type':
                        o = self.pointee(b, '%s.%s' % (d.get('name') or tyname(self.m, di), mem))
                        self.add((f.name, nm), {(o.key, 0)})

    def val(self, fn, v):
        if v.k == 'local': return self.pts.get((fn, v.v), set())
        if v.k == 'global':
            if v.v in self.m.funcs: return {('fn:' + v.v, 0)}
            return {(self.globobj(v.v).key, 0)}
        if v.k == 'ce':
            if v.v == 'getelementptr':
                et, ops = v.x
                b = self.val(fn, ops[0])
                return self.gepset(fn, b, et, ops[1:])
            return self.val(fn, v.x[1][0])
        return set()

    def globobj(self, n):
        g = self.m.globals.get(n)
        key = 'global:' + n
        if key in self.objs: return self.objs[key]
        o = self.obj(key, 'global')
        if g is not None and g.init is not None: self.initglobal(o, g.init, 0)
        return o

    def initglobal(self, o, v, off):
        if v.k == 'agg':
            t = self.m.resolve(v.t)
            for i, e in enumerate(v.v):
                if t.k == 'struct': self.initglobal(o, e, off + self.m.field_off(t, i)[0])
                else: self.initglobal(o, e, off + i * self.m.sizeof(t.b))
        elif v.k in ('global', 'ce'):
            for p in self.val(None, v): self.addfield(o, off, p)

    def gepset(self, fn, b, et, idx):
        out = set()
        off, var = 0, None
        t = et
        for n, i in enumerate(idx):
            if n == 0: sz = self.m.sizeof(t)
            else:
                t = self.m.resolve(t)
                if t.k == 'struct':
                    o_, t = self.m.field_off(t, i.v); off += o_; continue
                sz = self.m.sizeof(t.b); t = t.b
            if i.k == 'int': off += sz * i.v
            else:
                import math
                var = sz if var is None else math.gcd(var, sz)
        for k, o in b:
            if k.startswith('fn:'): continue
            ob = self.objs[k]
            if o is None: out.add((k, None))
            elif var is None: out.add((k, self.norm(ob, o + off)))
            elif var < 8: out.add((k, None))       # byte or scalar arrays: no pointers are kept apart in there
            else:
                self.stride(ob, var)
                out.add((k, self.norm(ob, o + off)))
        return out

    def fieldsof(self, k, off):
        if k.startswith('fn:'): return set()
        o = self.objs[k]
        if o.kind == 'data': return {(self.obj('data:nested', 'data').key, None)}
        if off is None:
            r = set()
            for s in o.fields.values(): r |= s
            return r
        return o.fields.get(self.norm(o, off), set()) | o.fields.get(None, set())

    def copy(self, dst, src, n=None):
        """memory copy of n bytes (None: unknown)"""
        for dk, do in dst:
            if dk.startswith('fn:'): continue
            d = self.objs[dk]
            if d.kind == 'data': continue
            for sk, so in src:
                if sk.startswith('fn:'): continue
                s = self.objs[sk]
                if s.kind == 'data':
                    if n is None or n >= 8: self.addfield(d, None, (self.obj('data:nested', 'data').key, None))
                    continue
                for off, ps in list(s.fields.items()):
                    if do is None or so is None or off is None: t = None
                    else:
                        r = off - so
                        if s.stride: r %= s.stride
                        if r < 0 or (n is not None and r + 8 > n): continue
                        t = do + r
                    for p in list(ps): self.addfield(d, t, p)

    def ins(self, i):
        fn = i.fn.name
        op = i.op
        res = (fn, i.res) if i.res else None
        if op == 'alloca':
            o = self.obj('stack:%s%s' % (fn, i.res), 'stack', info=None)
            self.add(res, {(o.key, 0)})
        elif op == 'getelementptr':
            self.add(res, self.gepset(fn, self.val(fn, i.ops[0]), i.x, i.ops[1:]))
        elif op == 'insertvalue':
            a, v = i.ops
            if a.k == 'local':
                for k, s_ in self.agg(fn, a.v).items():
                    if k != i.x[0]: self.add((fn, i.res, k), s_)
            s_ = self.val(fn, v)
            self.add((fn, i.res, i.x[0]), set(s_))
        elif op == 'extractvalue':
            if i.ops[0].k == 'local': self.add(res, set(self.agg(fn, i.ops[0].v).get(i.x[0], ())))
        elif op in ('phi', 'select', 'freeze') and self.isagg(i.t):
            for v in (i.ops[1:] if op == 'select' else i.ops):
                if v.k == 'local':
                    for k, s_ in self.agg(fn, v.v).items(): self.add((fn, i.res, k), s_)
        elif op == 'load' and self.isagg(i.t):
            for n, (off, lt) in enumerate(self.leaves(i.t)):
                r = set()
                for k, o in self.val(fn, i.ops[0]): r |= self.fieldsof(k, None if o is None else o + off)
                self.add((fn, i.res, n), r)
        elif op == 'store' and self.isagg(i.ops[0].t):
            for k, o in self.val(fn, i.ops[1]): self.mark(self.stores, i, (k, o))
            if i.ops[0].k == 'local':
                a = self.agg(fn, i.ops[0].v)
                for n, (off, lt) in enumerate(self.leaves(i.ops[0].t)):
                    for k, o in self.val(fn, i.ops[1]):
                        if k.startswith('fn:'): continue
                        for p in a.get(n, ()): self.addfield(self.objs[k], None if o is None else o + off, p)
        elif op == 'ret' and i.ops and self.isagg(i.ops[0].t):
            if i.ops[0].k == 'local':
                for k, s_ in self.agg(fn, i.ops[0].v).items(): self.add((fn, 'ret', k), s_)
        elif op in ('bitcast', 'inttoptr', 'ptrtoint', 'freeze', 'addrspacecast', 'phi', 'select') or (self.i2p and op in ('add', 'sub', 'and', 'or') and i.t and i.t.k == 'int' and i.t.a == 64):
            r = set()
            ops = i.ops[1:] if op == 'select' else i.ops
            for v in ops:
                s = self.val(fn, v)
                if op in ('add', 'sub', 'and', 'or'): s = {(k, None) for k, o in s}
                r |= s
            if r: self.add(res, r)
        elif op == 'load':
            r = set()
            for k, o in self.val(fn, i.ops[0]):
                r |= self.fieldsof(k, o)
                if i not in self.reads: self.reads[i] = set()
                self.reads[i].add((k, o))
            if i.t.k == 'int': r = {(k, o) for k, o in r if k != 'data:nested'}
            if r and (i.t.k == 'ptr' or (i.t.k == 'int' and i.t.a == 64) or i.t.k in ('struct', 'named', 'arr')): self.add(res, r)
        elif op == 'store':
            v = self.val(fn, i.ops[0])
            for k, o in self.val(fn, i.ops[1]):
                self.mark(self.stores, i, (k, o))
                if k.startswith('fn:'): continue
                for p in list(v): self.addfield(self.objs[k], o, p)
        elif op == 'ret':
            if i.ops:
                s = self.val(fn, i.ops[0])
                if s: self.add((fn, 'ret'), s)
        elif op == 'call': self.call(i)
        elif op == 'asm': raise AnalysisBroken('inline assembly in %s' % fn)

    def isagg(self, t):
        return t is not None and self.m.resolve(t).k in ('struct', 'arr')

    def leaves(self, t):
        t = self.m.resolve(t)
        if t.k == 'struct': return [self.m.field_off(t, n) for n in range(len(t.a))]
        return [(n * self.m.sizeof(t.b), t.b) for n in range(t.a)]

    def agg(self, fn, r):
        return {k: set(self.pts[(fn, r, k)]) for k in range(8) if (fn, r, k) in self.pts}

    def mark(self, tab, i, e):
        s = tab.setdefault(i, set())
        if e not in s:
            s.add(e); self.changed = True

    def call(self, i):
        fn = i.fn.name
        if i.x.k == 'global': names = [i.x.v]
        else:
            names = []
            for k, o in self.val(fn, i.x):
                if k.startswith('fn:'): names.append(k[3:])
                elif self.objs[k].kind == 'callback': names.append(k)
                elif self.objs[k].kind == 'data': names.append('callback:' + k)
        for n in names:
            self.callees.setdefault(i, set()).add(n)
            if n.startswith('callback:'):
                self.external.setdefault(n, [])
                if i not in self.external[n]: self.external[n].append(i)
                self.callback(i, n)
                continue
            f = self.m.funcs.get(n)
            if f is not None and f.defined:
                self.enter(n, i)
                for (pn, t, a), v in zip(f.params, i.ops):
                    s = self.val(fn, v)
                    if 'byval' in a:
                        o = self.obj('byval:%s%s' % (n, pn), 'stack')
                        self.add((n, pn), {(o.key, 0)})
                        self.copy({(o.key, 0)}, s)
                    elif s: self.add((n, pn), s)
                if n in self.cut and n not in self.roots:
                    self.cutret(f, i)
                elif i.res and self.isagg(i.t):
                    for k, s_ in self.agg(n, 'ret').items(): self.add((fn, i.res, k), s_)
                elif i.res:
                    r = self.pts.get((n, 'ret'), set())
                    if r: self.add((fn, i.res), r)
            else: self.ext(i, n)

    def cutret(self, f, i):
        if not i.res or i.t is None or i.t.k != 'ptr': return
        d = dity(self.m, cret(self.m, f))
        if d and d.get('tag') == 'DW_TAG_pointer_type':
            o = self.pointee(d, f.name + '()')
            self.add((i.fn.name, i.res), {(o.key, 0)})

    def callback(self, i, n):
        """user supplied functions: allocators and handlers"""
        if i.res and i.t.k == 'ptr':
            o = self.obj('heap:%s:%s' % (i.fn.name, i.res), 'heap', info=i)
            self.add((i.fn.name, i.res), {(o.key, 0)})
            for v in i.ops[1:]:      # resized memory keeps its contents
                for k, off in self.val(i.fn.name, v):
                    if k.startswith('heap:') or k.startswith('type:') or k.startswith('data:'):
                        self.add((i.fn.name, i.res), {(k, off)})

    def ext(self, i, n):
        fn = i.fn.name
        self.external.setdefault(n, [])
        if i not in self.external[n]: self.external[n].append(i)
        d = EXT.get(n)
        if d is None:
            if PURE.match(n): return
            if n in NEVER or n in STATEFUL: return
            if i not in self.unknown_calls: self.unknown_calls.append(i)
            return
        for a in d.get('write', ()):
            for e in self.val(fn, i.ops[a]): self.mark(self.stores, i, e)
        if 'copy' in d:
            a, b = d['copy']
            ds, ss = self.val(fn, i.ops[a]), self.val(fn, i.ops[b])
            for e in ds: self.mark(self.stores, i, e)
            ln = i.ops[2]
            self.copy(set(ds), set(ss), ln.v if ln.k == 'int' else None)
        if 'ret' in d and i.res: self.add((fn, i.res), set(self.val(fn, i.ops[d['ret']])))
        if d.get('alloc') and i.res:
            o = self.obj('heap:%s:%s' % (fn, i.res), 'heap', info=i)
            self.add((fn, i.res), {(o.key, 0)})
            if 'realloc' in d:
                self.add((fn, i.res), set(self.val(fn, i.ops[d['realloc']])))
        if 'free' in d:
            for e in self.val(fn, i.ops[d['free']]): self.mark(self.frees, i, e)

    # ---------------- reporting
    def path(self, fn):
        """call path from a root to fn"""
        out = []
        while fn is not None:
            via = self.reach.get(fn)
            if via is None: out.append((('', 0, fn), fn)); break
            out.append((self.m.loc(via.dbg), fn))
            fn = via.fn.name
        return out[::-1]

    def member(self, key, off):
        """name of the field an access goes to"""
        o = self.objs.get(key)
        if o is None: return key
        if o.ditype and off is not None:
            st = dity(self.m, o.ditype)
            if st:
                for mem, (of, bt) in self.m._members(st, '', 0).items():
                    if of == off and not (dity(self.m, bt) or {}).get('elements'): return '%s.%s' % (key.split(':', 1)[1], mem)
        return key.split(':', 1)[-1]


class Restart(Exception):
    pass


if __name__ == '__main__':
    import time, sys
    t = time.time()
    m = load()
    pub = public(m)
    F = Flow(m, [n for n in pub if n in m.funcs])
    print(len(pub), len(F.reach), time.time() - t)
    print('external', sorted(F.external)); print('unknown', F.unknown_calls)
    seen = {}
    for i, es in F.stores.items():
        for k, o in es:
            if F.objs[k].kind not in ('stack',): seen.setdefault(F.member(k, o), set()).add(base(i.fn.name))
    for k in sorted(seen): print(k, sorted(seen[k]))
