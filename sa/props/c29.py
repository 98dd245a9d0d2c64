import os, re
import api, flow, ir
from ir import AnalysisBroken


def sources(part):
    """C files the build puts into the library of a part (from its Makefile.am)"""
    p = '%s/src/%s/Makefile.am' % (ir.REPO, part)
    if not os.path.exists(p): raise AnalysisBroken('no ' + p)
    t = open(p).read().replace('\\\n', ' ')
    t = re.sub(r'(?m)^\s*#.*$', '', t)
    m = re.search(r'libprotobluff_%s_la_SOURCES\s*[+]?=\s*([^\n]*)' % part, t)
    if not m: raise AnalysisBroken('sources of libprotobluff-%s not found' % part)
    return ['%s/src/%s/%s' % (ir.REPO, part, x) for x in m.group(1).split() if x.endswith('.c')]


def linked(lib):
    """parts linked into an installed library"""
    t = open('%s/src/Makefile.am' % ir.REPO).read().replace('\\\n', ' ')
    t = re.sub(r'(?m)^\s*#.*$', '', t)
    m = re.search(r'%s_la_LIBADD\s*=\s*([^\n]*)' % lib, t)
    if not m: raise AnalysisBroken('libraries of %s not found' % lib)
    return re.findall(r'src/(\w+)/libprotobluff-\1\.la', m.group(1))


def hidden(mod_text):
    out = set()
    for l in mod_text.split('\n'):
        if l.startswith('define') and re.search(r'\b(hidden|internal|private)\b', l.split('@')[0]):
            m = re.search(r'@([-\w.$]+)\(', l); out.add(m.group(1))
    return out


def run(r, tier):
    F = api.functions()
    parts = ('core', 'message', 'util')
    mods, defs, hid = {}, {}, {}
    for p in parts:
        srcs = sources(p)
        for s in srcs:
            if not os.path.exists(s):
                r.add('C29', 'source %s of the library does not exist' % os.path.relpath(s, ir.REPO), ('src/%s/Makefile.am' % p, 0, ''))
        t = ir.build(srcs=[s for s in srcs if os.path.exists(s)])
        mods[p] = ir.Module(t); hid[p] = hidden(t)
        defs[p] = {n for n, f in mods[p].funcs.items() if f.defined and f.linkage != 'internal'} | {g.name for g in mods[p].globals.values() if g.init is not None and g.linkage not in ('internal', 'private')}
    libs = {'libprotobluff_lite': linked('libprotobluff_lite'), 'libprotobluff': linked('libprotobluff')}
    r.cov['libraries'] = {k: v for k, v in libs.items()}
    # 1. everything declared exists in the right library and is exported
    for n, e in sorted(F.items()):
        r.cov['declared'] = r.cov.get('declared', 0) + 1
        loc = (e['file'], e['line'], n)
        if e['static']:
            r.cov['inline'] = r.cov.get('inline', 0) + 1
            if not e['body']: r.add('C29', '%s is declared static but has no body' % n, loc)
            continue
        part = e['part'] if e['part'] in parts else 'core'
        if n not in defs[part]:
            other = [p for p in parts if n in defs[p]]
            r.add('C29', '%s is declared by a public header of %s but %s' % (n, part, 'defined in %s' % other[0] if other else 'not defined anywhere'), loc); continue
        r.cov['defined'] = r.cov.get('defined', 0) + 1
        if n in hid[part] or not e['visible']: r.add('C29', '%s is not exported' % n, loc)
        for lib in ('libprotobluff',) + (('libprotobluff_lite',) if part == 'core' else ()):
            if part not in libs[lib]: r.add('C29', '%s is part of %s, which %s does not contain' % (n, part, lib), loc)
    # 2. every library is closed: nothing undefined but the standard library
    STD = {n for n in flow.EXT if not n.startswith('llvm.')} | {'stderr', 'stdout', '__errno_location', 'strncmp', 'strnlen', 'memchr', 'strchr', 'bcmp', 'free', 'malloc', 'realloc', 'calloc', 'qsort', 'bsearch', '__assert_fail'}
    for lib, ps in libs.items():
        have = set().union(*[defs[p] for p in ps]) if ps else set()
        for p in ps:
            for f in mods[p].funcs.values():
                if not f.defined: continue
                for i in f.instrs():
                    for v in list(i.ops or []) + ([i.x] if i.op == 'call' else []):
                        for g in globs(v):
                            r.cov['references'] = r.cov.get('references', 0) + 1
                            if g.startswith('llvm.') or g in STD or g in have: continue
                            tgt = mods[p].funcs.get(g) or mods[p].globals.get(g)
                            if tgt is not None and (getattr(tgt, 'defined', False) or getattr(tgt, 'init', None) is not None): continue
                            r.add('C29', '%s uses %s, which %s does not contain' % (lib.replace('_', '-'), g, lib.replace('_', '-')), mods[p].loc(i.dbg) if i.dbg else ('?', 0, f.name))
            for g in mods[p].globals.values():
                if g.init is None: continue
                for x in globs(g.init):
                    r.cov['references'] += 1
                    if x in STD or x in have or (x in mods[p].funcs and mods[p].funcs[x].defined) or (x in mods[p].globals and mods[p].globals[x].init is not None): continue
                    r.add('C29', '%s refers to %s, which %s does not contain' % (g.name, x, lib.replace('_', '-')), ('src/' + p, 0, g.name))
    # 3. no symbol is defined twice in one library
    for lib, ps in libs.items():
        seen = {}
        for p in ps:
            for n in defs[p]:
                if n in seen: r.add('C29', '%s is defined in %s and in %s' % (n, seen[n], p), ('src/' + p, 0, n))
                seen[n] = p
    # 4. results that report failure of an action are not dropped silently
    for n, e in sorted(F.items()):
        if e['ret'] != 'pb_error_t': continue
        ptr = [t for _, t in e['params'] if t.rstrip().endswith('*') or '(*' in t]
        inspect = len(e['params']) == 1 and all(t.startswith('const ') for t in ptr)
        if inspect: r.cov['error_accessors'] = r.cov.get('error_accessors', 0) + 1; continue
        r.cov['must_check'] = r.cov.get('must_check', 0) + 1
        if not e['warn']: r.add('C29', 'the compiler does not warn when the error returned by %s is ignored' % n, (e['file'], e['line'], n))
    # 5. whatever generated code refers to is declared by the public headers
    known = set(F) | names()
    for path, line, lit in literals():
        lit = re.sub(r"\\\\[abfnrtv]", " ", lit)
        for w in re.findall(r'(?<![\w`$])(?:pb|PB)_\w+(?![\w`$])', lit):
            if w.endswith('_') or w == 'PB_H': continue
            r.cov['generated_references'] = r.cov.get('generated_references', 0) + 1
            if w not in known: r.add('C29', 'generated code refers to %s, which no public header declares' % w, (os.path.relpath(path, ir.REPO), line, w))
    r.minimum.update(declared=150, defined=65, inline=80, references=300, must_check=15, error_accessors=5, generated_references=80)
    r.cov['explanation'] = ('Syntax tree of all public headers against the intermediate representation of the sources each Makefile.am puts into a library: every declared operation is defined, exported and in the '
                            'right library; each installed library refers only to itself and the standard library; operations returning an error (other than accessors of one read-only handle) carry warn_unused_result.')
    r.assumptions += ['gcc or clang; libraries are assembled as src/Makefile.am says (the build files are read, not run)']


def globs(v):
    if v is None: return
    if v.k == 'global': yield v.v
    elif v.k == 'ce':
        for o in v.x[1]: yield from globs(o)
    elif v.k == 'agg':
        for o in v.v: yield from globs(o)


def names():
    """types, enumerators and macros of the public headers"""
    hs = sorted(x for d in ('', 'core/', 'message/', 'util/') for x in __import__('glob').glob(ir.REPO + '/include/protobluff/%s*.h' % d))
    text = ''.join('#include "%s"\n' % h for h in hs)
    out = set()
    d = api.ast(text)

    def walk(n):
        if n.get('kind') in ('TypedefDecl', 'RecordDecl', 'EnumDecl', 'EnumConstantDecl', 'VarDecl') and n.get('name'): out.add(n['name'])
        if n.get('kind') in ('TranslationUnitDecl', 'EnumDecl', 'LinkageSpecDecl'):
            for c in n.get('inner', []): walk(c)
    walk(d)
    import subprocess
    q = subprocess.run([ir.CLANG, '-std=c99', '-I' + ir.REPO + '/include', '-E', '-dM', '-x', 'c', '-'], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
    out |= set(re.findall(r'(?m)^#define (\w+)', q.stdout))
    return out


def literals():
    """string literals of the generator: (file, line, text)"""
    import glob
    fs = sorted(glob.glob(ir.REPO + '/src/generator/*.cc') + glob.glob(ir.REPO + '/src/generator/*.hh'))
    if not fs: raise AnalysisBroken('no generator sources')
    tok = re.compile(r'//[^\n]*|/\*.*?\*/|"((?:[^"\\\n]|\\.)*)"|\'(?:[^\'\\\n]|\\.)+\'', re.S)
    for f in fs:
        t = open(f).read()
        for m in tok.finditer(t):
            if m.group(1) is not None: yield f, t.count('\n', 0, m.start()) + 1, m.group(1)
