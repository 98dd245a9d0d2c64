"""Compile /repo's library to LLVM IR with the library's own flags and parse
the textual IR into Python objects.  Nothing of protobluff is executed."""
import os, re, subprocess, tempfile, shutil, glob

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG, LINK, OPT = '/usr/bin/clang-18', '/usr/bin/llvm-link-18', '/usr/bin/opt-18'
CFLAGS = ['-std=c99', '-DNDEBUG', '-O0', '-Xclang', '-disable-O0-optnone', '-g']
PASSES = 'always-inline,sroa,mem2reg,simplifycfg,early-cse,dce,simplifycfg'


class AnalysisBroken(Exception):
    pass


# ------------------------------------------------------------------ building

def sources(parts=('core', 'message', 'util')):
    out = []
    for p in parts:
        out += sorted(glob.glob('%s/src/%s/*.c' % (REPO, p)))
    if not out:
        raise AnalysisBroken('no sources found under %s/src' % REPO)
    return out


def public_headers():
    return [h for h in ('core', 'message', 'util', 'descriptor')
            if os.path.exists('%s/include/protobluff/%s.h' % (REPO, h))]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       universal_newlines=True, **kw)
    if r.returncode:
        raise AnalysisBroken('command failed: %s\n%s' % (' '.join(cmd), r.stderr[-2000:]))
    return r.stdout


def build(extra=(), srcs=None, inline_tu=False, passes=PASSES, keep_all=False):
    """Return textual IR of the linked library."""
    tmp = tempfile.mkdtemp(prefix='sa-ir-')
    try:
        inc = ['-I%s/src' % REPO, '-I%s/include' % REPO]
        jobs, lls = [], []
        todo = list(srcs if srcs is not None else sources())
        if inline_tu:
            p = os.path.join(tmp, 'inline_tu.c')
            hs = sorted(glob.glob(REPO + '/include/protobluff/*/*.h')) + \
                sorted(glob.glob(REPO + '/src/core/*.h')) + \
                sorted(glob.glob(REPO + '/src/message/*.h')) + \
                sorted(glob.glob(REPO + '/src/util/*.h'))
            with open(p, 'w') as f:
                f.write('#include <stdint.h>\n#include <stddef.h>\n#include <alloca.h>\n'
                        '#include <protobluff/core/common.h>\n#undef PB_INLINE\n'
                        '#define PB_INLINE __attribute__((used)) static\n')
                for h in hs:
                    f.write('#include "%s"\n' % h)
            todo.insert(0, p)
        for i, s in enumerate(todo):
            o = os.path.join(tmp, '%d.ll' % i)
            lls.append(o)
            flags = list(CFLAGS)
            if s.endswith('inline_tu.c'):
                flags += ['-Wno-everything']
            cmd = [CLANG] + flags + list(extra) + inc + ['-w', '-S', '-emit-llvm', s, '-o', o]
            jobs.append((s, subprocess.Popen(cmd, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, universal_newlines=True)))
        for s, j in jobs:
            _, err = j.communicate()
            if j.returncode:
                raise AnalysisBroken('cannot compile %s:\n%s' % (s, err[-2000:]))
        allp, optp = os.path.join(tmp, 'all.ll'), os.path.join(tmp, 'opt.ll')
        run([LINK, '-S'] + lls + ['-o', allp])
        run([OPT, '-S', '-passes=' + passes, allp, '-o', optp])
        return open(optp).read()
    finally:
        shutil.rmtree(tmp)


# ------------------------------------------------------------------ tokens

TOK = re.compile(r'''
   \s+
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
 | (?P<meta>!(?:\w[-\w.]*|"(?:[^"\\]|\\.)*")?)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-f]+)
 | (?P<attr>\#\d+)
 | (?P<id>[A-Za-z_][\w.]*)
 | (?P<punct><\{|\}>|\.\.\.|[\[\]{}<>(),=*:|])
''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise AnalysisBroken('IR token error at %r' % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
    return out


# ------------------------------------------------------------------ types

class T:
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def __repr__(self):
        return '%s%s' % (self.k, '' if self.a is None else '(%r%s)' % (self.a, '' if self.b is None else ',%r' % (self.b,)))


VOID, PTR, LABEL, META = T('void'), T('ptr'), T('label'), T('metadata')
INTS = {}


def INT(w):
    if w not in INTS:
        INTS[w] = T('int', w)
    return INTS[w]


class Val:
    """k: local/global/int/null/undef/zero/agg/ce/str/fp/meta"""
    __slots__ = ('k', 't', 'v', 'x')

    def __init__(self, k, t, v=None, x=None):
        self.k, self.t, self.v, self.x = k, t, v, x

    def __repr__(self):
        return '<%s %s>' % (self.k, self.v)


class Ins:
    __slots__ = ('op', 'res', 't', 'ops', 'x', 'dbg', 'blk', 'idx', 'fn')

    def __init__(self, op, res, t, ops, x=None, dbg=None):
        self.op, self.res, self.t, self.ops, self.x, self.dbg = op, res, t, ops, x, dbg
        self.blk = self.idx = self.fn = None

    def __repr__(self):
        return '%s = %s %s %s' % (self.res, self.op, self.ops, self.x)


class Block:
    __slots__ = ('name', 'ins', 'preds', 'succs', 'fn')

    def __init__(self, name, fn):
        self.name, self.ins, self.preds, self.succs, self.fn = name, [], [], [], fn


class Function:
    def __init__(self, name):
        self.name = name
        self.params, self.ret, self.blocks, self.order = [], None, {}, []
        self.defined, self.linkage, self.dbg = False, 'external', None
        self.vararg = False
        self.loops = None
        self.file = None
        self.sret = None

    def instrs(self):
        for b in self.order:
            for i in self.blocks[b].ins:
                yield i


class Global:
    def __init__(self, name, t, init, const, linkage):
        self.name, self.t, self.init, self.const, self.linkage = name, t, init, const, linkage


PARAM_ATTRS = {'noundef', 'nonnull', 'nocapture', 'readonly', 'readnone', 'writeonly', 'signext',
               'zeroext', 'inreg', 'returned', 'noalias', 'immarg', 'swiftself', 'allocptr', 'writable',
               'dead_on_unwind', 'nofpclass', 'noinline', 'inbounds'}
PAREN_ATTRS = {'align', 'sret', 'byval', 'dereferenceable', 'dereferenceable_or_null', 'elementtype',
               'memory', 'range', 'byref', 'preallocated', 'inalloca', 'captures', 'initializes', 'allockind', 'allocsize'}
CCONV = {'fastcc', 'ccc', 'coldcc'}
LINKAGE = {'private', 'internal', 'external', 'common', 'weak', 'linkonce', 'linkonce_odr', 'weak_odr',
           'available_externally', 'appending', 'extern_weak'}
SKIP_HEAD = {'dso_local', 'dso_preemptable', 'local_unnamed_addr', 'unnamed_addr', 'hidden', 'protected',
             'default', 'thread_local', 'externally_initialized', 'nounwind'}


class Parser:
    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def peek(self, o=0):
        return self.t[self.i + o] if self.i + o < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def at(self, s):
        return self.i < len(self.t) and self.t[self.i][1] == s

    def acc(self, s):
        if self.at(s):
            self.i += 1
            return True
        return False

    def exp(self, s):
        if not self.acc(s):
            raise AnalysisBroken('IR parse: expected %r at %r' % (s, self.t[self.i:self.i + 8]))

    # types
    def type(self):
        k, v = self.next()
        if k == 'id':
            if v == 'void': t = VOID
            elif v == 'ptr':
                t = PTR
                if self.acc('addrspace'):
                    self.exp('('); self.next(); self.exp(')')
            elif v == 'label': t = LABEL
            elif v == 'metadata': t = META
            elif v in ('float', 'double', 'half', 'x86_fp80', 'fp128'): t = T('fp', v)
            elif re.match(r'i\d+$', v): t = INT(int(v[1:]))
            elif v == 'opaque': t = T('opaque')
            else:
                raise AnalysisBroken('IR type %r' % v)
        elif k == 'loc':
            t = T('named', v)
        elif v == '[':
            n = int(self.next()[1]); assert self.next()[1] == 'x'
            e = self.type(); self.exp(']')
            t = T('arr', n, e)
        elif v == '<':
            n = int(self.next()[1]); assert self.next()[1] == 'x'
            e = self.type(); self.exp('>')
            t = T('vec', n, e)
        elif v in ('{', '<{'):
            es = []
            end = '}' if v == '{' else '}>'
            while not self.acc(end):
                es.append(self.type()); self.acc(',')
            t = T('struct', es, v == '<{')
        else:
            raise AnalysisBroken('IR type token %r' % v)
        while True:
            if self.at('('):
                # function type
                self.next(); ps = []; va = False
                while not self.acc(')'):
                    if self.acc('...'): va = True
                    else:
                        ps.append(self.type()); self.attrs()
                    self.acc(',')
                t = T('fn', t, (ps, va))
            elif self.acc('*'):
                t = PTR
            else:
                return t

    def attrs(self):
        out = {}
        while True:
            k, v = self.peek()
            if k == 'id' and v in PARAM_ATTRS:
                self.next(); out[v] = True
            elif k == 'id' and v in PAREN_ATTRS:
                self.next()
                if self.acc('('):
                    st = self.i
                    if v in ('sret', 'byval', 'elementtype', 'byref'):
                        out[v] = self.type(); self.exp(')')
                    else:
                        d = 1
                        while d:
                            x = self.next()[1]
                            d += (x == '(') - (x == ')')
                        out[v] = self.t[st][1]
                else:
                    out[v] = self.next()[1]
            elif k == 'attr':
                self.next()
            elif k == 'str':
                self.next()
                if self.acc('='):
                    self.next()
            else:
                return out

    def value(self, t):
        k, v = self.next()
        if k == 'loc': return Val('local', t, v)
        if k == 'glob': return Val('global', t, v[1:].strip('"'))
        if k == 'num':
            if t.k == 'int': return Val('int', t, int(v))
            return Val('fp', t, v)
        if k == 'str':
            return Val('str', t, v)
        if k == 'meta':
            self.i -= 1
            self.skipmeta()
            return Val('meta', t)
        if k == 'id':
            if v == 'true': return Val('int', t, 1)
            if v == 'false': return Val('int', t, 0)
            if v == 'null': return Val('null', t)
            if v in ('undef', 'poison'): return Val('undef', t)
            if v == 'zeroinitializer': return Val('zero', t)
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw'): self.next()
                self.exp('(')
                et = self.type(); self.exp(',')
                ops = []
                while not self.acc(')'):
                    self.acc('inrange')
                    tt = self.type(); ops.append(self.value(tt)); self.acc(',')
                return Val('ce', t, 'getelementptr', (et, ops))
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.exp('(')
                tt = self.type(); o = self.value(tt); self.exp('to'); rt = self.type(); self.exp(')')
                return Val('ce', rt, v, (rt, [o]))
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
                while self.peek()[1] in ('nuw', 'nsw'): self.next()
                self.exp('(')
                ops = []
                while not self.acc(')'):
                    tt = self.type(); ops.append(self.value(tt)); self.acc(',')
                return Val('ce', t, v, (t, ops))
            raise AnalysisBroken('IR constant %r' % v)
        if v in ('{', '[', '<', '<{'):
            end = {'{': '}', '[': ']', '<': '>', '<{': '}>'}[v]
            es = []
            while not self.acc(end):
                tt = self.type(); es.append(self.value(tt)); self.acc(',')
            return Val('agg', t, es)
        raise AnalysisBroken('IR value %r' % v)

    def skipmeta(self):
        k, v = self.next()
        if self.at('('):
            d = 0
            while True:
                x = self.next()[1]
                d += (x == '(') - (x == ')')
                if d == 0: return
        if v == '!' and self.at('{'):
            while self.next()[1] != '}': pass

    def tv(self):
        t = self.type()
        a = self.attrs()
        if t.k == 'metadata':
            self.skipmeta()
            return Val('meta', t)
        v = self.value(t)
        v.x = v.x if v.x is not None else (a or None)
        return v


CASTS = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fptoui', 'fptosi', 'uitofp', 'sitofp',
         'fpext', 'fptrunc', 'addrspacecast'}
BINS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
        'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}


class Module:
    def __init__(self, text):
        self.structs, self.globals, self.funcs, self.meta = {}, {}, {}, {}
        self._di = {}
        self.parse(text)

    # ---- parsing
    def parse(self, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if not l or l[0] == ';':
                i += 1; continue
            if l.startswith('!'):
                m = re.match(r'!(\d+|[\w.]+) = (.*)$', l)
                if m: self.meta[m.group(1)] = m.group(2)
            elif l.startswith('%'):
                p = Parser(self, tokenize(l))
                name = p.next()[1]; p.exp('='); p.exp('type')
                self.structs[name] = p.type()
            elif l.startswith('@'):
                self.parse_global(l)
            elif l.startswith('declare') or l.startswith('define'):
                j = i
                if l.startswith('define'):
                    while lines[j] != '}': j += 1
                self.parse_func(lines[i:j + 1])
                i = j
            i += 1

    def strip_dbg(self, l):
        m = re.search(r', !dbg !(\d+)', l)
        dbg = m.group(1) if m else None
        l = re.sub(r'(, )?![\w.]+ !\d+', '', l)
        return l, dbg

    def parse_global(self, l):
        l, _ = self.strip_dbg(l)
        p = Parser(self, tokenize(l))
        name = p.next()[1][1:].strip('"'); p.exp('=')
        linkage = 'external'; const = None; decl = False
        while True:
            v = p.peek()[1]
            if v in LINKAGE:
                linkage = v; p.next()
                if v in ('external', 'extern_weak'): decl = True
            elif v == 'thread_local':
                p.next()
                if p.acc('('):
                    while not p.acc(')'): p.next()
            elif v in SKIP_HEAD: p.next()
            elif v in ('global', 'constant'):
                const = v == 'constant'; p.next(); break
            elif v == 'alias':
                return
            else: raise AnalysisBroken('global %r' % l)
        t = p.type()
        init = None
        if not decl and p.peek()[0] is not None and p.peek()[1] != ',':
            init = p.value(t)
        self.globals[name] = Global(name, t, init, const, linkage)

    def parse_func(self, lines):
        head = lines[0]
        m = re.search(r'!dbg !(\d+)', head)
        dbg = m.group(1) if m else None
        head = re.sub(r' !dbg !\d+', '', head)
        head = re.sub(r'\{\s*$', '', head)
        p = Parser(self, tokenize(head))
        defined = p.next()[1] == 'define'
        linkage = 'external'
        while True:
            k, v = p.peek()
            if v in LINKAGE: linkage = v; p.next()
            elif v in SKIP_HEAD or v in CCONV: p.next()
            elif k == 'id' and (v in PARAM_ATTRS or v in PAREN_ATTRS): p.attrs()
            else: break
        ret = p.type()
        if ret.k == 'fn':
            raise AnalysisBroken('fn ret')
        name = p.next()[1][1:].strip('"')
        f = Function(name)
        f.ret, f.linkage, f.defined, f.dbg = ret, linkage, defined, dbg
        p.exp('(')
        n = 0
        while not p.acc(')'):
            if p.acc('...'):
                f.vararg = True; continue
            t = p.type(); a = p.attrs()
            nm = None
            if p.peek()[0] == 'loc': nm = p.next()[1]
            else: nm = '%%%d' % n
            n += 1
            f.params.append((nm, t, a))
            if 'sret' in a: f.sret = a['sret']
            p.acc(',')
        self.funcs[name] = f
        if not defined: return
        first = True
        cur = None
        cont = []
        k = 1
        body = lines[1:-1]
        j = 0
        while j < len(body):
            l = body[j]; j += 1
            if not l.strip() or l.lstrip().startswith(';'): continue
            m = re.match(r'^([-\w.$]+|"[^"]*"):', l)
            if m:
                cur = Block('%' + m.group(1), f); f.blocks[cur.name] = cur; f.order.append(cur.name); first = False
                continue
            if first:
                cur = Block('%entry', f); f.order.append('%entry'); f.blocks['%entry'] = cur; first = False
            s = l.strip()
            if s.startswith('switch'):
                while not body[j - 1].rstrip().split(', !dbg')[0].endswith(']'):
                    s += ' ' + body[j].strip(); j += 1
            if '@llvm.dbg.' in s or '@llvm.experimental.noalias' in s or '@llvm.lifetime' in s:
                continue
            ins = self.parse_ins(s, f)
            ins.blk, ins.idx, ins.fn = cur, len(cur.ins), f
            cur.ins.append(ins)
        # entry block may have an implicit numeric name referenced in phi
        ent = f.blocks[f.order[0]]
        if ent.name == '%entry':
            f.entry_alias = '%%%d' % len(f.params)
        else:
            f.entry_alias = ent.name
        for b in f.blocks.values():
            for x in b.ins:
                if x.op == 'phi':
                    x.x = [('%entry' if (bb == f.entry_alias and bb not in f.blocks) else bb) for bb in x.x]
            term = b.ins[-1]
            ss = []
            if term.op == 'br': ss = list(term.x)
            elif term.op == 'switch': ss = [term.x[0]] + [z[1] for z in term.x[1]]
            for s_ in ss:
                if s_ not in b.succs: b.succs.append(s_)
        for b in f.blocks.values():
            for s_ in b.succs:
                f.blocks[s_].preds.append(b.name)

    def parse_ins(self, s, f):
        s, dbg = self.strip_dbg(s)
        toks = tokenize(s)
        p = Parser(self, toks)
        res = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            res = p.next()[1]; p.next()
        k, op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()[1]
        I = lambda *a: Ins(*a, dbg=dbg)
        if op in BINS:
            fl = []
            while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan'): fl.append(p.next()[1])
            t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
            return I(op, res, t, [a, b], fl)
        if op in CASTS:
            while p.peek()[1] in ('nneg', 'nuw', 'nsw'): p.next()
            a = p.tv(); p.exp('to'); t = p.type()
            return I(op, res, t, [a])
        if op == 'fneg':
            a = p.tv(); return I(op, res, a.t, [a])
        if op == 'alloca':
            p.acc('inalloca')
            t = p.type(); cnt = None
            while p.acc(','):
                if p.at('align'): p.next(); p.next()
                else: cnt = p.tv()
            return I('alloca', res, PTR, [cnt] if cnt else [], t)
        if op == 'load':
            p.acc('volatile'); p.acc('atomic')
            t = p.type(); p.exp(','); a = p.tv()
            return I('load', res, t, [a])
        if op == 'store':
            p.acc('volatile'); p.acc('atomic')
            v = p.tv(); p.exp(','); a = p.tv()
            return I('store', None, VOID, [v, a])
        if op == 'getelementptr':
            while p.peek()[1] in ('inbounds', 'nuw', 'nusw'): p.next()
            t = p.type(); ops = []
            while p.acc(','): ops.append(p.tv())
            return I('getelementptr', res, PTR, ops, t)
        if op == 'icmp' or op == 'fcmp':
            pred = p.next()[1]
            t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
            return I(op, res, INT(1), [a, b], pred)
        if op == 'select':
            c = p.tv(); p.exp(','); a = p.tv(); p.exp(','); b = p.tv()
            return I(op, res, a.t, [c, a, b])
        if op == 'phi':
            t = p.type(); vs, bs = [], []
            while True:
                p.exp('['); vs.append(p.value(t)); p.exp(','); bs.append(p.next()[1]); p.exp(']')
                if not p.acc(','): break
            return I('phi', res, t, vs, bs)
        if op == 'br':
            if p.at('label'):
                p.next(); return I('br', None, VOID, [], [p.next()[1]])
            c = p.tv(); p.exp(','); p.exp('label'); a = p.next()[1]; p.exp(','); p.exp('label'); b = p.next()[1]
            return I('br', None, VOID, [c], [a, b])
        if op == 'switch':
            c = p.tv(); p.exp(','); p.exp('label'); d = p.next()[1]; p.exp('[')
            cs = []
            while not p.acc(']'):
                v = p.tv(); p.exp(','); p.exp('label'); cs.append((v.v, p.next()[1]))
            return I('switch', None, VOID, [c], (d, cs))
        if op == 'ret':
            if p.at('void'): return I('ret', None, VOID, [])
            return I('ret', None, VOID, [p.tv()])
        if op == 'unreachable': return I('unreachable', None, VOID, [])
        if op == 'call':
            while True:
                k2, v2 = p.peek()
                if v2 in CCONV or v2 in ('fast', 'nnan', 'reassoc', 'nsz', 'arcp', 'contract', 'afn', 'ninf'): p.next()
                elif (k2 == 'id' and (v2 in PARAM_ATTRS or v2 in PAREN_ATTRS)): p.attrs()
                else: break
            t = p.type(); rt = t.a if t.k == 'fn' else t
            if p.at('asm'):
                return I('asm', res, rt, [])
            callee = p.value(PTR)
            p.exp('('); args = []
            while not p.acc(')'):
                args.append(p.tv()); p.acc(',')
            return I('call', res, rt, args, callee)
        if op == 'extractvalue':
            a = p.tv(); ix = []
            while p.acc(','): ix.append(int(p.next()[1]))
            return I(op, res, None, [a], ix)
        if op == 'insertvalue':
            a = p.tv(); p.exp(','); v = p.tv(); ix = []
            while p.acc(','): ix.append(int(p.next()[1]))
            return I(op, res, a.t, [a, v], ix)
        if op in ('insertelement', 'extractelement', 'shufflevector'):
            ops = [p.tv()]
            while p.acc(','): ops.append(p.tv())
            t = ops[0].t if op != 'extractelement' else ops[0].t.b
            if op == 'shufflevector': t = T('vec', ops[2].t.a, ops[0].t.b)
            return I(op, res, t, ops)
        if op == 'freeze':
            a = p.tv(); return I(op, res, a.t, [a])
        raise AnalysisBroken('unsupported IR instruction: %s' % s)

    # ---- layout
    def sizeof(self, t):
        if t.k == 'int': return max(1, (t.a + 7) // 8) if t.a not in (24, 48) else {24: 4, 48: 8}[t.a]
        if t.k == 'ptr': return 8
        if t.k == 'fp': return {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}[t.a]
        if t.k == 'arr': return t.a * self.sizeof(t.b)
        if t.k == 'vec': return t.a * self.sizeof(t.b)
        if t.k == 'named': return self.sizeof(self.structs[t.a])
        if t.k == 'struct':
            o, al = 0, 1
            for e in t.a:
                a = 1 if t.b else self.alignof(e)
                al = max(al, a)
                o = (o + a - 1) // a * a + self.sizeof(e)
            return (o + al - 1) // al * al
        if t.k == 'fn': return 1
        raise AnalysisBroken('sizeof %r' % t)

    def alignof(self, t):
        if t.k == 'int': return min(8, self.sizeof(t))
        if t.k == 'ptr': return 8
        if t.k == 'fp': return min(16, self.sizeof(t))
        if t.k == 'arr': return self.alignof(t.b)
        if t.k == 'vec': return self.sizeof(t)
        if t.k == 'named': return self.alignof(self.structs[t.a])
        if t.k == 'struct': return max([1] + [self.alignof(e) for e in t.a]) if not t.b else 1
        raise AnalysisBroken('alignof %r' % t)

    def resolve(self, t):
        while t.k == 'named': t = self.structs[t.a]
        return t

    def field_off(self, t, idx):
        """(offset, elem type) of element idx of struct type t"""
        t = self.resolve(t)
        o = 0
        for i, e in enumerate(t.a):
            a = 1 if t.b else self.alignof(e)
            o = (o + a - 1) // a * a
            if i == idx: return o, e
            o += self.sizeof(e)
        raise AnalysisBroken('field_off')

    def flatten(self, t, base=0):
        """scalar leaves of a type: list of (offset, type)"""
        t0 = self.resolve(t)
        if t0.k == 'struct':
            out = []
            for i in range(len(t0.a)):
                o, e = self.field_off(t0, i)
                out += self.flatten(e, base + o)
            return out
        if t0.k == 'arr':
            out = []
            es = self.sizeof(t0.b)
            for i in range(t0.a):
                out += self.flatten(t0.b, base + i * es)
            return out
        return [(base, t0)]

    # ---- debug info
    def di(self, n):
        n = str(n).lstrip('!')
        if n in self._di: return self._di[n]
        s = self.meta.get(n)
        if s is None: return None
        d = {'_': s}
        s2 = s
        m = re.match(r'(?:distinct )?!(DI\w+)\((.*)\)\s*$', s2)
        if m:
            d['kind'] = m.group(1)
            for mm in re.finditer(r'(\w+): ("(?:[^"\\]|\\.)*"|!\d+|[^,()]+(?:\([^)]*\))?)', m.group(2)):
                d[mm.group(1)] = mm.group(2).strip('"')
        else:
            m = re.match(r'(?:distinct )?!\{(.*)\}', s2)
            if m: d['list'] = [x.strip() for x in m.group(1).split(',') if x.strip()]
        self._di[n] = d
        return d

    def fnloc(self, f):
        """location of a function: its first instruction that belongs to the function itself"""
        first = None
        for b in f.order:
            for i in f.blocks[b].ins:
                if i.dbg:
                    l = self.loc(i.dbg)
                    first = first or l
                    if l[2] == f.name.split('.')[0]: return l
        return (first[0], first[1], f.name) if first else ('?', 0, f.name)

    def loc(self, dbg):
        """(file relative to repo, line, function name in source) for a !dbg id"""
        d = self.di(dbg) if dbg else None
        if not d or d.get('kind') != 'DILocation': return ('?', 0, '?')
        line = int(d.get('line', '0'))
        sc = d.get('scope')
        f = fn = None
        while sc:
            s = self.di(sc)
            if not s: break
            if not f and 'file' in s:
                f = self.di(s['file']).get('filename')
            if s.get('kind') == 'DISubprogram':
                fn = s.get('name'); break
            sc = s.get('scope')
        if f and f.startswith(REPO): f = f[len(REPO) + 1:]
        return (f or '?', line, fn or '?')

    def di_struct(self, name):
        """member layout {member: (byte offset, DI type id)} of a C typedef or
        struct, nested anonymous members flattened as a.b"""
        for k in self.meta:
            s = self.meta[k]
            if ('DICompositeType' in s and 'name: "%s"' % name in s and 'elements:' in s):
                return self._members(self.di(k), '', 0)
        # typedef of anonymous struct
        for k in self.meta:
            s = self.meta[k]
            if 'DW_TAG_typedef' in s and 'name: "%s"' % name in s:
                b = self.di(k).get('baseType')
                while b:
                    d = self.di(b)
                    if d.get('kind') == 'DICompositeType' and 'elements' in d:
                        return self._members(d, '', 0)
                    b = d.get('baseType')
        raise AnalysisBroken('no debug info for type %s' % name)

    def strip_ty(self, t):
        while t:
            d = self.di(t)
            if d.get('kind') == 'DIDerivedType' and d.get('tag') in (
                    'DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_restrict_type'):
                t = d.get('baseType')
            else: return t
        return t

    def _members(self, d, pre, base):
        out = {}
        for e in self.di(d['elements'])['list']:
            m = self.di(e)
            if not m or m.get('tag') != 'DW_TAG_member': continue
            off = base + int(m.get('offset', '0')) // 8
            nm = pre + m.get('name', '')
            bt = m.get('baseType')
            out[nm] = (off, bt)
            st = self.strip_ty(bt)
            if st:
                c = self.di(st)
                if c.get('kind') == 'DICompositeType' and 'elements' in c and c.get('tag') in ('DW_TAG_structure_type', 'DW_TAG_union_type'):
                    out.update(self._members(c, nm + '.' if m.get('name') else pre, off))
        return out

    def di_sizeof(self, name):
        for k in self.meta:
            s = self.meta[k]
            if 'DICompositeType' in s and 'name: "%s"' % name in s and 'elements:' in s:
                return int(self.di(k).get('size', '0')) // 8
        raise AnalysisBroken('no debug info for type %s' % name)

    def enums(self):
        if not hasattr(self, '_enums'):
            self._enums = {}
            for k, s in self.meta.items():
                if 'DIEnumerator' in s:
                    d = self.di(k)
                    self._enums[d['name']] = int(d['value'].split(',')[0])
        return self._enums


# ------------------------------------------------------------------ CFG helpers

def rpo(f):
    seen, out = set(), []
    stack = [(f.order[0], iter(f.blocks[f.order[0]].succs))]
    seen.add(f.order[0])
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s); stack.append((s, iter(f.blocks[s].succs))); break
        else:
            out.append(b); stack.pop()
    return out[::-1]


def dominators(f):
    order = rpo(f)
    idx = {b: i for i, b in enumerate(order)}
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in f.blocks[b].preds if p in idom]
            n = ps[0]
            for p in ps[1:]:
                a, c = p, n
                while a != c:
                    while idx[a] > idx[c]: a = idom[a]
                    while idx[c] > idx[a]: c = idom[c]
                n = a
            if idom.get(b) != n:
                idom[b] = n; ch = True
    return idom, idx


def loops(f):
    """natural loops: head -> set(blocks); error on irreducible flow"""
    if f.loops is not None: return f.loops
    idom, idx = dominators(f)

    def dom(a, b):
        while True:
            if a == b: return True
            if idom[b] == b: return False
            b = idom[b]
    res = {}
    for b in idx:
        for s in f.blocks[b].succs:
            if s in idx and idx[s] <= idx[b]:
                if not dom(s, b):
                    raise AnalysisBroken('irreducible loop in %s' % f.name)
                body = res.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x)
                    st += [p for p in f.blocks[x].preds if p in idx]
    f.loops = res
    return res


_cache = {}


def load(**kw):
    key = tuple(sorted((k, tuple(v) if isinstance(v, list) else v) for k, v in kw.items()))
    if key not in _cache:
        _cache[key] = Module(build(**kw))
    return _cache[key]


if __name__ == '__main__':
    import time
    t = time.time()
    m = load(inline_tu=True)
    print('funcs', len(m.funcs), sum(f.defined for f in m.funcs.values()), time.time() - t)
    print(m.di_struct('pb_cursor_t').keys())
    print(m.enums())
    for n, f in m.funcs.items():
        if f.defined: loops(f)
    print([n for n, f in m.funcs.items() if not f.defined])
