"""Thin ctypes binding to libisl (installed as part of gcc): integer sets over
named parameters.  Every set used by the analyses is a parameter set."""
import ctypes as C, atexit, os, re

_lib = None
for _n in ("libisl.so.23", "libisl.so", "libisl.so.22", "libisl.so.21"):
    try:
        _lib = C.CDLL(_n)
        break
    except OSError:
        continue
if _lib is None:
    raise RuntimeError("libisl not found")
P = C.c_void_p


def _f(name, res, *args):
    f = getattr(_lib, name)
    f.restype = res
    f.argtypes = list(args)
    return f


_ctx_alloc = _f("isl_ctx_alloc", P)
_on_error = _f("isl_options_set_on_error", C.c_int, P, C.c_int)
_set_max = _f("isl_ctx_set_max_operations", None, P, C.c_ulong)
_reset_ops = _f("isl_ctx_reset_operations", None, P)
_reset_err = _f("isl_ctx_reset_error", None, P)
_read = _f("isl_set_read_from_str", P, P, C.c_char_p)
_copy = _f("isl_set_copy", P, P)
_free = _f("isl_set_free", P, P)
_inter = _f("isl_set_intersect", P, P, P)
_union = _f("isl_set_union", P, P, P)
_sub = _f("isl_set_subtract", P, P, P)
_compl = _f("isl_set_complement", P, P)
_coal = _f("isl_set_coalesce", P, P)
_empty = _f("isl_set_is_empty", C.c_int, P)
_subset = _f("isl_set_is_subset", C.c_int, P, P)
_equal = _f("isl_set_is_equal", C.c_int, P, P)
_disj = _f("isl_set_is_disjoint", C.c_int, P, P)
_dim = _f("isl_set_dim", C.c_int, P, C.c_int)
_dname = _f("isl_set_get_dim_name", C.c_char_p, P, C.c_int, C.c_uint)
_find = _f("isl_set_find_dim_by_name", C.c_int, P, C.c_int, C.c_char_p)
_proj = _f("isl_set_project_out", P, P, C.c_int, C.c_uint, C.c_uint)
_setname = _f("isl_set_set_dim_name", P, P, C.c_int, C.c_uint, C.c_char_p)
_tostr = _f("isl_set_to_str", P, P)
_nbs = _f("isl_set_n_basic_set", C.c_int, P)
_sample = _f("isl_set_sample_point", P, P)
_lexmin = _f("isl_set_lexmin", P, P)
_move = _f("isl_set_move_dims", P, P, C.c_int, C.c_uint, C.c_int, C.c_uint, C.c_uint)
_pt_void = _f("isl_point_is_void", C.c_int, P)
_pt_free = _f("isl_point_free", P, P)
_pt_val = _f("isl_point_get_coordinate_val", P, P, C.c_int, C.c_int)
_val_str = _f("isl_val_to_str", P, P)
_val_free = _f("isl_val_free", P, P)
_libc = C.CDLL(None)
_libc.free.argtypes = [P]
_detect = _f("isl_set_detect_equalities", P, P)
_rmred = _f("isl_set_remove_redundancies", P, P)
_shull = _f("isl_set_simple_hull", P, P)
_fromb = _f("isl_set_from_basic_set", P, P)
_gist = _f("isl_set_gist", P, P, P)
_remdiv = _f("isl_set_remove_divs", P, P)
_computediv = _f("isl_set_compute_divs", P, P)
_simple_hull = _f("isl_set_simple_hull", P, P)
_bs2set = _f("isl_set_from_basic_set", P, P)
_dropun = None

PARAM, SETD = 1, 3
ctx = _ctx_alloc()
_on_error(ctx, 1)
MAXOPS = 3000000
NOPS = 0


class IslError(Exception):
    pass


def _chk(p):
    if not p:
        _reset_err(ctx)
        raise IslError()
    return p


def _begin():
    global NOPS
    NOPS += 1
    _reset_ops(ctx)
    _set_max(ctx, MAXOPS)


def _b(r):
    if r < 0:
        _reset_err(ctx)
        raise IslError()
    return r == 1


class Set:
    __slots__ = ("p", "_e")

    def __init__(self, p):
        self.p = p
        self._e = None

    def __del__(self):
        try:
            if self.p:
                _free(self.p)
        except Exception:
            pass

    def __and__(a, b):
        if a is TRUE or b is FALSE:
            return b
        if b is TRUE or a is FALSE:
            return a
        _begin()
        return Set(_chk(_inter(_copy(a.p), _copy(b.p))))

    def __or__(a, b):
        if a is FALSE or b is TRUE:
            return b
        if b is FALSE or a is TRUE:
            return a
        _begin()
        return Set(_chk(_union(_copy(a.p), _copy(b.p))))

    def __sub__(a, b):
        if b is FALSE:
            return a
        if b is TRUE or a is FALSE:
            return FALSE
        _begin()
        return Set(_chk(_sub(_copy(a.p), _copy(b.p))))

    def __invert__(a):
        if a is TRUE:
            return FALSE
        if a is FALSE:
            return TRUE
        _begin()
        return Set(_chk(_compl(_copy(a.p))))

    def empty(a):
        if a is TRUE:
            return False
        if a._e is None:
            _begin()
            a._e = _b(_empty(a.p))
        return a._e

    def subset(a, b):
        if b is TRUE or a is FALSE:
            return True
        _begin()
        return _b(_subset(a.p, b.p))

    def disjoint(a, b):
        if a is FALSE or b is FALSE:
            return True
        _begin()
        return _b(_disj(a.p, b.p))

    def equal(a, b):
        _begin()
        return _b(_equal(a.p, b.p))

    def coalesce(a):
        if a is TRUE or a is FALSE:
            return a
        _begin()
        return Set(_chk(_coal(_copy(a.p))))

    def hull(a):
        if a is TRUE or a is FALSE:
            return a
        _begin()
        return Set(_chk(_fromb(_shull(_copy(a.p)))))

    def nbasic(a):
        return _nbs(a.p)

    def params(a):
        return [_dname(a.p, PARAM, i).decode() for i in range(_dim(a.p, PARAM))]

    def project(a, names):
        """existentially quantify the given parameters"""
        if a is TRUE or a is FALSE:
            return a
        p = None
        for n in names:
            q = p if p else a.p
            i = _find(q, PARAM, n.encode())
            if i >= 0:
                _begin()
                if p is None:
                    p = _copy(a.p)
                p = _chk(_proj(p, PARAM, i, 1))
        return Set(p) if p else a

    def keep(a, names):
        names = set(names)
        return a.project([n for n in a.params() if n not in names])

    def rename(a, mp):
        if a is TRUE or a is FALSE:
            return a
        p = None
        todo = [(o, n) for o, n in mp.items() if _find(a.p, PARAM, o.encode()) >= 0]
        if not todo:
            return a
        p = _copy(a.p)
        # two phases, so that swaps work
        for k, (o, n) in enumerate(todo):
            i = _find(p, PARAM, o.encode())
            p = _chk(_setname(p, PARAM, i, ("__tmp%d" % k).encode()))
        for k, (o, n) in enumerate(todo):
            i = _find(p, PARAM, ("__tmp%d" % k).encode())
            if _find(p, PARAM, n.encode()) >= 0:
                _free(p)
                raise IslError("rename clash")
            p = _chk(_setname(p, PARAM, i, n.encode()))
        return Set(p)

    def __str__(a):
        s = _tostr(a.p)
        r = C.string_at(s).decode()
        _libc.free(s)
        return r

    def sample(a, order=None, pretty=True):
        """an integer point as dict name->int, or None.  Tries to return a small one."""
        if a.empty():
            return None
        names = a.params()
        _begin()
        if pretty and names:
            q = _copy(a.p)
            n = len(names)
            # pad with 0-dim set: move all params into set dims
            try:
                q = _chk(_move(q, SETD, 0, PARAM, 0, n))
                _begin()
                pt = _sample(q)
            except IslError:
                pt = None
        else:
            pt = _sample(_copy(a.p))
            n = len(names)
        if not pt:
            _reset_err(ctx)
            return {}
        r = {}
        for i, nm in enumerate(names):
            v = _pt_val(pt, SETD if pretty else PARAM, i)
            if v:
                s = _val_str(v)
                r[nm] = int(C.string_at(s).decode())
                _libc.free(s)
                _val_free(v)
        _pt_free(pt)
        return r

    def detect(a):
        _begin()
        return Set(_chk(_detect(_copy(a.p))))


_cache = {}


def parse(names, cond):
    """set over the named parameters with the given condition text"""
    key = (tuple(names), cond)
    r = _cache.get(key)
    if r is None:
        _begin()
        r = Set(_chk(_read(ctx, ("[%s] -> { : %s }" % (",".join(names), cond)).encode())))
        if len(_cache) > 200000:
            _cache.clear()
        _cache[key] = r
    return r


TRUE = Set(_read(ctx, b"{ : }"))
FALSE = Set(_read(ctx, b"{ : 1 = 0 }"))
FALSE._e = True
TRUE._e = False
