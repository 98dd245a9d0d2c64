"""The public interface as the compiler sees it: functions declared by the
public headers with their attributes (from clang's syntax tree)."""
import glob, json, os, subprocess, tempfile, shutil
import ir
from ir import AnalysisBroken


def ast(text, inc=None, std='c99'):
    tmp = tempfile.mkdtemp(prefix='sa-ast-')
    try:
        p = os.path.join(tmp, 'tu.c')
        open(p, 'w').write(text)
        r = subprocess.run([ir.CLANG, '-std=' + std, '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json'] + ['-I' + i for i in (inc or [ir.REPO + '/include'])] + [p],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
        if r.returncode: raise AnalysisBroken('the public headers do not compile:\n' + r.stderr[-1500:])
        return json.loads(r.stdout)
    finally:
        shutil.rmtree(tmp)


def files(d):
    """annotate every node with the file it is in (clang only prints changes)"""
    cur = [None]

    def loc(l):
        if not isinstance(l, dict): return
        if 'spellingLoc' in l or 'expansionLoc' in l:
            loc(l.get('spellingLoc')); loc(l.get('expansionLoc'))
        elif 'file' in l: cur[0] = l['file']

    def walk(n):
        for k, v in n.items():
            if k == 'loc':
                loc(v); n['_file'] = None
                n['_file_'] = cur[0]
            elif k == 'range':
                loc(v.get('begin')); loc(v.get('end'))
            elif k == 'inner':
                for c in v: walk2(c)

    def walk2(n):
        if n.get('kind') is None: return
        f = None
        for k in list(n.keys()):
            v = n[k]
            if k == 'loc':
                loc(v); f = cur[0]
            elif k == 'range':
                loc(v.get('begin')); loc(v.get('end'))
            elif k == 'inner':
                for c in v: walk2(c)
        n['_file'] = f
    walk2(d)


_cache = {}


def functions():
    """name -> dict(part, file, line, ret, inline, static, warn, visible, params)"""
    if 'f' in _cache: return _cache['f']
    hs = sorted(glob.glob(ir.REPO + '/include/protobluff/*.h')) + sorted(glob.glob(ir.REPO + '/include/protobluff/*/*.h'))
    if not hs: raise AnalysisBroken('no public headers')
    d = ast(''.join('#include "%s"\n' % h for h in hs))
    files(d)
    out = {}
    for n in d['inner']:
        if n['kind'] != 'FunctionDecl': continue
        f = n.get('_file') or ''
        if not f.startswith(ir.REPO + '/include/'): continue
        inner = n.get('inner', [])
        at = {c['kind'] for c in inner}
        l = n['loc']
        if 'line' not in l: l = l.get('expansionLoc', l)
        q = n['type']['qualType']
        part = os.path.relpath(f, ir.REPO + '/include/protobluff').split('/')[0]
        e = dict(part=part, file=os.path.relpath(f, ir.REPO), line=l.get('line', 0), ret=q.split('(')[0].strip(), type=q, inline=bool(n.get('inline')), static=n.get('storageClass') == 'static',
                 warn='WarnUnusedResultAttr' in at, visible=not any(c['kind'] == 'VisibilityAttr' and c.get('visibility') != 'default' for c in inner),
                 body='CompoundStmt' in at, params=[(c.get('name', ''), c['type']['qualType']) for c in inner if c['kind'] == 'ParmVarDecl'])
        if n['name'] in out:      # redeclaration inherits
            p = out[n['name']]
            p['warn'] |= e['warn']; p['body'] |= e['body']
        else: out[n['name']] = e
    _cache['f'] = out
    return out


if __name__ == '__main__':
    import time
    t = time.time(); F = functions(); print(len(F), time.time() - t)
    for n, e in F.items():
        if 'pb_error_t' == e['ret'] and not e['warn']: print('nowarn', n, e)
    import collections
    print(collections.Counter((e['part'], e['static']) for e in F.values()))
