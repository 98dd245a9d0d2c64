"""Exact integer polyhedra: a thin ctypes layer over libisl (the integer set
library that ships with gcc), used as the numeric abstract domain."""
import atexit
import ctypes as C
import marshal
import os
import subprocess
import sys

_l = C.CDLL('libisl.so.23')
P = C.c_void_p


def _f(name, res, *args):
    fn = getattr(_l, name)
    fn.restype, fn.argtypes = res, list(args)
    return fn


_ctx_alloc = _f('isl_ctx_alloc', P)
_opt_err = _f('isl_options_set_on_error', C.c_int, P, C.c_int)
_space = _f('isl_space_set_alloc', P, P, C.c_uint, C.c_uint)
_mat = _f('isl_mat_alloc', P, P, C.c_uint, C.c_uint)
_mset = _f('isl_mat_set_element_si', P, P, C.c_int, C.c_int, C.c_int)
_msetv = _f('isl_mat_set_element_val', P, P, C.c_int, C.c_int, P)
_mgetv = _f('isl_mat_get_element_val', P, P, C.c_int, C.c_int)
_mrows = _f('isl_mat_rows', C.c_int, P)
_mfree = _f('isl_mat_free', P, P)
_vstr = _f('isl_val_read_from_str', P, P, C.c_char_p)
_vint = _f('isl_val_int_from_si', P, P, C.c_long)
_vnum = _f('isl_val_get_num_si', C.c_long, P)
_vtos = _f('isl_val_to_str', P, P)
_vfree = _f('isl_val_free', P, P)
_bfrom = _f('isl_basic_set_from_constraint_matrices', P, P, P, P, C.c_int, C.c_int, C.c_int, C.c_int)
_bempty = _f('isl_basic_set_is_empty', C.c_int, P)
_bfree = _f('isl_basic_set_free', P, P)
_bproj = _f('isl_basic_set_project_out', P, P, C.c_int, C.c_uint, C.c_uint)
_sfromb = _f('isl_set_from_basic_set', P, P)
_sunion = _f('isl_set_union', P, P, P)
_sproj = _f('isl_set_project_out', P, P, C.c_int, C.c_uint, C.c_uint)
_shull = _f('isl_set_simple_hull', P, P)
_cvx = _f('isl_set_convex_hull', P, P)
_scopy = _f('isl_set_copy', P, P)
_saff = _f('isl_set_affine_hull', P, P)
_sfree = _f('isl_set_free', P, P)
_brem = _f('isl_basic_set_remove_divs', P, P)
_srem = _f('isl_set_remove_divs', P, P)
_bredund = _f('isl_basic_set_remove_redundancies', P, P)
_beq = _f('isl_basic_set_equalities_matrix', P, P, C.c_int, C.c_int, C.c_int, C.c_int)
_bineq = _f('isl_basic_set_inequalities_matrix', P, P, C.c_int, C.c_int, C.c_int, C.c_int)
_maxops = _f('isl_ctx_set_max_operations', None, P, C.c_ulong)
_resetops = _f('isl_ctx_reset_operations', None, P)
_reseterr = _f('isl_ctx_reset_error', None, P)
_libc = C.CDLL(None)
_cfree = _libc.free
_cfree.argtypes = [P]

ctx = _ctx_alloc()
_opt_err(ctx, 1)     # continue on error
SET, CST, DIV, PARAM = 3, 0, 4, 1
LIM = 1 << 30
stats = {'empty': 0, 'hull': 0, 'proj': 0}


class ISLError(Exception):
    pass


def _fill(rows, ncol):
    m = _mat(ctx, len(rows), ncol)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            if -LIM < v < LIM:
                m = _mset(m, i, j, v)
            elif -(1 << 62) < v < (1 << 62):
                m = _msetv(m, i, j, _vint(ctx, v))
            else:
                m = _msetv(m, i, j, _vstr(ctx, str(v).encode()))
    return m


def bset(n, eqs, ineqs):
    """basic set of n dims; rows are [c1..cn, const]"""
    sp = _space(ctx, 0, n)
    e = _fill(eqs, n + 1)
    i = _fill(ineqs, n + 1)
    b = _bfrom(sp, e, i, SET, DIV, PARAM, CST)
    if not b:
        _reseterr(ctx)
        raise ISLError('bset')
    return b


def is_empty(n, eqs, ineqs):
    stats['empty'] += 1
    b = bset(n, eqs, ineqs)
    r = _bempty(b)
    _bfree(b)
    if r < 0:
        _reseterr(ctx)
        raise ISLError('is_empty')
    return r == 1


def _getv(m, i, j):
    v = _mgetv(m, i, j)
    s = _vtos(v)
    r = int(C.string_at(s))
    _cfree(s)
    _vfree(v)
    return r


def rows(b, n):
    b = _brem(b)
    out = []
    for fn in (_beq, _bineq):
        m = fn(b, SET, DIV, PARAM, CST)
        k = _mrows(m)
        out.append([[_getv(m, i, j) for j in range(n + 1)] for i in range(k)])
        _mfree(m)
    _bfree(b)
    return out


def project(n, eqs, ineqs, keep):
    """project onto the first `keep` dims; over-approximates divs away"""
    stats['proj'] += 1
    b = bset(n, eqs, ineqs)
    b = _bproj(b, SET, keep, n - keep)
    b = _bredund(_brem(b))
    if not b:
        _reseterr(ctx)
        raise ISLError('project')
    return rows(b, keep)


_srv = None


def _server():
    global _srv
    if _srv is None or _srv.poll() is not None:
        _srv = subprocess.Popen([sys.executable, os.path.abspath(__file__), '--serve'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return _srv


def _stop():
    global _srv
    if _srv is not None:
        try:
            _srv.stdin.close(); _srv.stdout.close(); _srv.kill(); _srv.wait()
        except OSError: pass
        _srv = None


def hull(n, systems, keep):
    """convex hull, computed in a process of its own: the library's hull
    computation crashes on some inputs"""
    stats['hull'] += 1
    for mode in (1, 0):
        p = _server()
        if p is _srv and not getattr(p, 'registered', False):
            p.registered = True; atexit.register(_stop)
        try:
            b = marshal.dumps((n, systems, keep, mode))
            p.stdin.write(len(b).to_bytes(8, 'little') + b); p.stdin.flush()
            h = p.stdout.read(8)
            if len(h) == 8:
                r = marshal.loads(p.stdout.read(int.from_bytes(h, 'little')))
                if r is None: raise ISLError('hull')
                return r
        except (BrokenPipeError, EOFError): pass
        _stop()
        stats['hullcrash'] = stats.get('hullcrash', 0) + 1
    raise ISLError('hull')


def _serve():
    i, o = sys.stdin.buffer, sys.stdout.buffer
    while True:
        h = i.read(8)
        if len(h) < 8: return
        n, systems, keep, mode = marshal.loads(i.read(int.from_bytes(h, 'little')))
        try: r = _hull(n, systems, keep, 300000 if mode else 0)
        except ISLError: r = None
        b = marshal.dumps(r)
        o.write(len(b).to_bytes(8, 'little') + b); o.flush()


def _hull(n, systems, keep, ops=300000):
    """convex hull of the union of systems projected onto the first keep dims
    (falls back to the simple hull + affine hull when that is too expensive)"""
    s = None
    for eqs, ineqs in systems:
        b = bset(n, eqs, ineqs)
        b = _bproj(b, SET, keep, n - keep)
        b = _bredund(_brem(b))
        x = _sfromb(b)
        s = x if s is None else _sunion(s, x)
    s = _srem(s)
    _resetops(ctx)
    h = None
    if ops:
        _maxops(ctx, ops)
        h = _cvx(_scopy(s))
        if h: h = _bredund(_brem(h))
        _maxops(ctx, 0)
    if h:
        _sfree(s)
        return rows(h, keep)
    _reseterr(ctx)
    _resetops(ctx)
    stats['hullfb'] = stats.get('hullfb', 0) + 1
    a = _saff(_scopy(s))
    e1 = rows(a, keep)[0] if a else []
    h = _shull(s)
    h = _bredund(_brem(h))
    if not h:
        _reseterr(ctx)
        raise ISLError('hull')
    e, i = rows(h, keep)
    return e + e1, i


if __name__ == '__main__' and sys.argv[1:] == ['--serve']: _serve()
elif __name__ == '__main__':
    import time
    t = time.time()
    for i in range(2000):
        is_empty(6, [[1, -1, 0, 0, 0, 0, 3]], [[1, 0, -1, 0, 0, 0, 0], [0, 1, 0, 0, 0, -1, 5], [0, 0, 1, -1, 0, 0, 1 << 62], [0, 0, 0, 1, 0, -1, i]])
    print((time.time() - t) / 2000)
    print(hull(2, [([[1, 0, 0], [0, 1, 0]], []), ([[1, 0, -1], [0, 1, -2]], [])], 2))
    print(is_empty(1, [], [[2, -1], [-2, 1]]), is_empty(1, [], [[1, -1], [-1, 1]]))
    print(project(2, [], [[1, -1, 0], [-1, 0, 10], [0, 1, 0]], 1))
