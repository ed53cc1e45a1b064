"""Intrinsics of the contract language and the assumed contracts of library functions."""
import re
import z3
from sym import (Undecided, Fam, Ptr, PIte, Scaled, Agg, Log, same, Not, And, Or, Implies, zb, bv, isbv, fold, eqv, M64, InitBase)

STOP = object()
TABLE = {}


def ext(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def cstr(e, st, p):
    p = e.toptr(p)
    b = bytearray()
    while True:
        c = e.load_bits(st, e.padd(p, len(b)), 1)
        if not isinstance(c, int):
            raise Undecided("symbolic C string")
        if c == 0:
            return b.decode("latin1")
        b.append(c)


def as_term(e, v):
    return e.toint(v)


# ---------------------------------------------------------------- contract language
@ext("vf_in")
def vf_in(e, st, a, ins, name):
    n = cstr(e, st, a[0])
    if e.genstack:
        raise Undecided("vf_in inside a generator: use vf_in_at")
    if n not in e.inputs:
        e.inputs[n] = z3.BitVec("in:" + n, 64)
    return e.inputs[n]


@ext("vf_in_at")
def vf_in_at(e, st, a, ins, name):
    n = cstr(e, st, a[0])
    f = e.infns.get((n, 1))
    if f is None:
        f = z3.Function("in:" + n, z3.BitVecSort(64), z3.BitVecSort(64))
        e.infns[(n, 1)] = f
    return f(bv(e.toint(a[1])))


@ext("vf_in_at2")
def vf_in_at2(e, st, a, ins, name):
    n = cstr(e, st, a[0])
    f = e.infns.get((n, 2))
    if f is None:
        s = z3.BitVecSort(64)
        f = z3.Function("in:" + n, s, s, s)
        e.infns[(n, 2)] = f
    return f(bv(e.toint(a[1])), bv(e.toint(a[2])))


@ext("vf_size")
def vf_size(e, st, a, ins, name):
    v = vf_in(e, st, a, ins, name)
    e.axiom(z3.ULE(v, e.bound if e.bound is not None else (1 << 32)))
    e.__dict__.setdefault("o_bounds", [])
    if not any(x.eq(v) for x in e.o_bounds):
        e.o_bounds.append(v)
    return v


@ext("vf_assume")
def vf_assume(e, st, a, ins, name):
    c = e.tobool(a[0])
    if c is True:
        return None
    if c is False:
        return STOP
    st.pc = st.pc + (zb(c),)
    return None


@ext("vf_assert_")
def vf_assert(e, st, a, ins, name):
    c = e.tobool(a[0])
    n = cstr(e, st, a[1])
    e.oblige(st, c, n)
    return None


@ext("vf_reach")
def vf_reach(e, st, a, ins, name):
    """vacuity guard: this point must be reachable"""
    if e.quiet:
        return None
    n = cstr(e, st, a[0])
    r = e.check(list(st.pc), 20000)
    e.__dict__.setdefault("reach", []).append((n, str(r)))
    return None


@ext("vf_expose")
def vf_expose(e, st, a, ins, name):
    t = e.toint(a[0])
    if not any(same(t, x) for x in e.exposed):
        e.exposed.append(t)
    return None


@ext("vf_candidate")
def vf_candidate(e, st, a, ins, name):
    e.cands.append((e.fnname(a[0]), a[1]))
    return None


@ext("vf_fresh_u64")
def vf_fresh(e, st, a, ins, name):
    return e.fresh("any")


@ext("vf_fresh_bool")
def vf_freshb(e, st, a, ins, name):
    return e.fresh("anyb", 1)


@ext("vf_stop", "abort", "exit", "_ZSt9terminatev", "__cxa_throw", "__assert_fail", "vf_fatal", "_ZSt17__throw_bad_allocv",
     "_ZSt20__throw_length_errorPKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt25__throw_bad_function_callv",
     "_ZSt20__throw_system_errori", "__cxa_pure_virtual", "_ZSt16__throw_bad_castv", "__cxa_rethrow", "_Unwind_Resume",
     "_ZSt28__throw_bad_array_new_lengthv", "__cxa_bad_cast", "_ZSt21__throw_runtime_errorPKc", "_ZSt19__throw_logic_errorPKc",
     "_ZSt24__throw_invalid_argumentPKc")
def vf_stop(e, st, a, ins, name):
    return STOP


@ext("vf_shared")
def vf_shared(e, st, a, ins, name):
    """vf_shared(ptr, size, rely, guarantee)"""
    g = e.toptr(a[3])
    e.shared.append(([(e.toptr(a[0]), a[1])], e.fnname(a[2]), e.fnname(g) if isinstance(g, Ptr) else None))
    return None


@ext("vf_shared_part")
def vf_shared_part(e, st, a, ins, name):
    """one more part of the shared object declared last"""
    e.shared[-1][0].append((e.toptr(a[0]), a[1]))
    return None


@ext("vf_unshare")
def vf_unshare(e, st, a, ins, name):
    e.shared = []
    return None


@ext("vf_on_lock")
def vf_on_lock(e, st, a, ins, name):
    e.onlock.append((e.toptr(a[0]), e.fnname(a[1])))
    return None


@ext("vf_held")
def vf_held(e, st, a, ins, name):
    f, idx, off = e.norm(e.toptr(a[0]))
    v = held(e, st, f, idx, off)
    return v


def heldfam(e, f):
    k = ("held", f)
    h = e.famlist.get(k)
    if h is None:
        h = Fam("held." + f.name, f.ndim, "held")
        h.zero = True
        e.famlist[k] = h
    return h


def held(e, st, f, idx, off):
    return e.cell_get(st.mem, heldfam(e, f), idx, off)


@ext("vf_mutex_lock")
def mlock(e, st, a, ins, name):
    p = e.toptr(a[0])
    if not isinstance(p, Ptr):
        if isinstance(p, PIte):
            return None
        raise Undecided("lock of null mutex")
    f, idx, off = e.norm(p)
    h = held(e, st, f, idx, off)
    # 1: exclusive, 2 * n: shared n times (the reader preferring lock of the platform may be shared again)
    if same(a[1], 1):
        e.oblige(st, e.cmp("ne", h, 1), "a thread does not lock a mutex it already holds", "lock")
        e.cell_set(st.mem, heldfam(e, f), idx, off, e.binop("add", h, 2, 64))
    else:
        e.oblige(st, e.cmp("eq", h, 0), "a thread does not lock a mutex it already holds", "lock")
        e.cell_set(st.mem, heldfam(e, f), idx, off, 1)
    for m, fn in e.onlock:
        if isinstance(m, Ptr) and m.fam is f and same(m.off, off):
            r, s2 = e.call_fn(fn, [], st)
            if s2 is None:
                return STOP
            st.pc, st.mem = s2.pc, s2.mem
    return None


@ext("vf_mutex_unlock")
def munlock(e, st, a, ins, name):
    p = e.toptr(a[0])
    if isinstance(p, PIte):
        return None
    f, idx, off = e.norm(p)
    h = held(e, st, f, idx, off)
    if same(a[1], 1):
        e.oblige(st, e.cmp("uge", h, 2), "a thread unlocks only a mutex it holds", "lock")
        e.cell_set(st.mem, heldfam(e, f), idx, off, e.binop("sub", h, 2, 64))
    else:
        e.oblige(st, e.cmp("eq", h, 1), "a thread unlocks only a mutex it holds", "lock")
        e.cell_set(st.mem, heldfam(e, f), idx, off, 0)
    return None


@ext("vf_mutex_try_lock")
def mtry(e, st, a, ins, name):
    p = e.toptr(a[0])
    f, idx, off = e.norm(p)
    h = held(e, st, f, idx, off)
    e.oblige(st, e.cmp("eq", h, 0), "a thread does not try to lock a mutex it already holds", "lock")
    ok = e.fresh("try", 1)
    e.cell_set(st.mem, heldfam(e, f), idx, off, e.ite(ok, 1 if not same(a[1], 1) else 2, 0))
    return ok


@ext("vf_callback")
def vf_callback(e, st, a, ins, name):
    """ghost counter of calls of an opaque callable; the contract may also observe them"""
    f = e.famlist.get("cb")
    if f is None:
        f = Fam("callbacks", 1, "ghost")
        f.zero = True
        e.famlist["cb"] = f
    i = (e.toint(a[0]),)
    e.cell_set(st.mem, f, i, 0, e.binop("add", e.cell_get(st.mem, f, i, 0), 1, 64))
    h = e.p.func("vf_on_callback")
    if h is not None:
        r, s2 = e.call_fn(h, [a[0]], st)
        if s2 is None:
            return STOP
        st.pc, st.mem = s2.pc, s2.mem
    return None


@ext("vf_callback_count")
def vf_cbc(e, st, a, ins, name):
    f = e.famlist.get("cb")
    if f is None:
        return 0
    return e.cell_get(st.mem, f, (e.toint(a[0]),), 0)


@ext("vf_freeze")
def vf_freeze(e, st, a, ins, name):
    n = a[1]
    f, idx = e.new_fam("frozen", 0, "obj", 0, n)
    p = Ptr(f, idx, 0)
    copy(e, st, p, a[0], n)
    return p


# ---------------------------------------------------------------- regions
def region_of(e, v):
    """handle from an arbitrary word"""
    if isinstance(v, (Ptr, PIte)):
        return v
    k = "anonregion"
    f = e.famlist.get(k)
    if f is None:
        f = Fam(k, 2, "region")
        e.famlist[k] = f
    return Ptr(f, (v,), 0)


@ext("vf_region_fresh")
def region_fresh(e, st, a, ins, name):
    f, idx = e.new_fam("R", 1, "region")
    return Ptr(f, idx, 0)


@ext("vf_elt_")
def vf_elt(e, st, a, ins, name):
    r, i, size = a
    return elt(e, r, i, size)


def elt(e, r, i, size):
    if isinstance(r, PIte):
        return PIte([(g, elt(e, v, i, size)) for g, v in r.alts])
    r = region_of(e, r)
    f = r.fam
    if f.kind != "region" and f.kind != "unk":
        raise Undecided("not a sequence: %r" % (r,))
    if f.kind == "unk":
        return elt(e, region_of(e, r.idx[0]), i, size)
    if not f.stride:
        f.stride = size
    elif f.stride != size and f.name != "anonregion":
        raise Undecided("sequence used with two element sizes")
    return Ptr(f, r.idx + (e.toint(i),), 0)


def derived(e, src, mapping, snap, name):
    """new region whose element j is given by mapping(j) -> source index or None"""
    f, idx = e.new_fam(name, 1, "region")
    nd = len(idx)
    alts = e.alts(src)
    for g, r in alts:
        r = region_of(e, r)
        if r.fam.stride:
            f.stride = r.fam.stride

    def rd(eng, ix, off):
        j = ix[-1]
        res = None
        for cond, sj in mapping(j):
            v = None
            for g, r in alts:
                r = region_of(eng, r)
                if r.fam.stride and not f.stride:
                    f.stride = r.fam.stride
                x = eng.cell_get(snap, r.fam, r.idx + (fold(sj) if not isinstance(sj, int) else sj,), off)
                v = x if v is None else eng.ite(g, x, v)
            res = v if res is None else eng.ite(cond, v, res)
        return res
    f.derive = rd
    return Ptr(f, idx, 0)


@ext("vf_region_copy")
def region_copy(e, st, a, ins, name):
    snap = dict(st.mem)
    return derived(e, a[0], lambda j: [(True, j)], snap, "Rcopy")


@ext("vf_region_erase")
def region_erase(e, st, a, ins, name):
    snap = dict(st.mem)
    pos, cnt = e.toint(a[1]), e.toint(a[2])

    def mp(j):
        return [(True, e.binop("add", j, cnt, 64)), (e.cmp("ult", j, pos), j)]
    return derived(e, a[0], mp, snap, "Rerase")


@ext("vf_region_insert")
def region_insert(e, st, a, ins, name):
    snap = dict(st.mem)
    pos, cnt = e.toint(a[1]), e.toint(a[2])

    def mp(j):
        return [(True, e.binop("sub", j, cnt, 64)), (e.cmp("ult", j, pos), j)]
    return derived(e, a[0], mp, snap, "Rinsert")


def permuted(e, st, r, lo, n, pred, name):
    """region with the elements of r in an order that satisfies pred pairwise"""
    snap = dict(st.mem)
    e.fresh_n += 1
    pi = z3.Function("perm!%d" % e.fresh_n, z3.BitVecSort(64), z3.BitVecSort(64))
    inv = z3.Function("perminv!%d" % e.fresh_n, z3.BitVecSort(64), z3.BitVecSort(64))
    seen = set()

    def link(j):
        j = bv(j)
        if j.get_id() in seen:
            return
        seen.add(j.get_id())
        pj = pi(j)
        e.axiom(Implies(zb(e.cmp("ult", j, n)), And(zb(e.cmp("ult", pj, n)), inv(pj) == j)))
        e.axiom(Implies(zb(e.cmp("uge", j, n)), pj == j))

    def mp(j):
        link(j)
        return [(True, pi(bv(j)))]
    h = derived(e, r, mp, snap, name)
    # every element of r is somewhere in the result: follow exposed indices
    for k in e.exposed:
        kk = bv(k)
        e.axiom(Implies(zb(e.cmp("ult", kk, n)), And(zb(e.cmp("ult", inv(kk), n)), pi(inv(kk)) == kk)))
        link(inv(kk))
    e.__dict__.setdefault("perms", []).append((h, pi, inv, n))
    return h


@ext("vf_region_permute")
def region_permute(e, st, a, ins, name):
    return permuted(e, st, a[0], 0, e.toint(a[1]), None, "Rperm")


@ext("vf_small")
def small(e, st, a, ins, name):
    """the number is known and small"""
    return 1 if isinstance(a[0], int) and a[0] <= 3 else 0


@ext("vf_assume_all")
def assume_all(e, st, a, ins, name):
    e.add_universal(st, "all", region_alts(e, a[0]), e.toint(a[1]), a[2], a[3])
    return None


@ext("vf_assume_pairs")
def assume_pairs(e, st, a, ins, name):
    if isinstance(a[1], int) and a[1] <= 1:
        return None
    e.add_universal(st, "pair", region_alts(e, a[0]), e.toint(a[1]), a[2])
    return None


def region_alts(e, r):
    if isinstance(r, PIte):
        return PIte([(g, region_of(e, v)) for g, v in r.alts])
    return region_of(e, r)


@ext("vf_region_gen", "vf_region_gen_n")
def region_gen(e, st, a, ins, name):
    """vf_region_gen(elem size, generator(elem, index, ctx), ctx)"""
    fn = e.fnname(a[1])
    nm = fn.name[-30:]
    if e.genstack:
        raise Undecided("nested generator")
    f = Fam("G%d" % Fam.n, 1, "region", a[0])
    f.gen = (f, fn, a[2], dict(st.mem), 1)
    if len(a) > 3:
        f.genn = a[3]
    return Ptr(f, (), 0)


@ext("vf_array_gen")
def array_gen(e, st, a, ins, name):
    """vf_array_gen(array, n, elem size, generator, ctx)"""
    fn = e.fnname(a[3])
    f = Fam("G%d" % Fam.n, 1, "region", a[2])
    f.gen = (f, fn, a[4], dict(st.mem), 1)
    f.genn = a[1]
    q = e.subarray(e.toptr(a[0]), a[2], a[1], st, 0)
    if not isinstance(q, Ptr) or q.fam.kind != "region":
        raise Undecided("vf_array_gen of a small array")
    for o in range(0, a[2], 8):
        set_array(e, st, q, o, CopyBase(e, e.base_for(f, o), f, o, ()))
    return None


class PermBase:
    """element j of the range is element pi(j) of the previous content"""

    def __init__(self, eng, log, fam, outer, lo, n, link):
        self.eng, self.log, self.fam, self.outer, self.lo, self.n, self.link = eng, log, fam, outer, lo, n, link

    def read(self, idx):
        e = self.eng
        c = e.idxeq(idx[:-1], self.outer) if self.outer else True
        if c is False:
            return e.logread(self.log, idx)
        j = e.binop("sub", idx[-1], self.lo, 64)
        inr = And(c, e.cmp("ult", j, self.n))
        if inr is False:
            return e.logread(self.log, idx)
        k = fold(bv(self.link(j)) + bv(self.lo))
        if isinstance(idx[-1], int) or not re.search(r"perm|uniq", idx[-1].sexpr()):
            e.touch(self.fam, idx[:-1] + (k,))
        v = e.logread(self.log, idx[:-1] + (k,))
        return v if inr is True else e.ite(inr, v, e.logread(self.log, idx))


def range_of(e, b, end):
    b, end = e.toptr(b), e.toptr(end)
    if not (isinstance(b, Ptr) and isinstance(end, Ptr) and b.fam is end.fam and b.fam.kind == "region"):
        raise Undecided("range over alternatives")
    lo = b.idx[-1]
    return b, lo, e.binop("sub", end.idx[-1], lo, 64)


def new_perm(e, n):
    e.fresh_n += 1
    pi = z3.Function("perm!%d" % e.fresh_n, z3.BitVecSort(64), z3.BitVecSort(64))
    inv = z3.Function("perminv!%d" % e.fresh_n, z3.BitVecSort(64), z3.BitVecSort(64))
    seen = set()

    def link(j):
        j = bv(j)
        pj = pi(j)
        if j.get_id() not in seen:
            seen.add(j.get_id())
            e.axiom(Implies(zb(e.cmp("ult", j, n)), And(zb(e.cmp("ult", pj, n)), inv(pj) == j)))
        return pj
    return pi, inv, link


@ext("vf_sibling")
def sibling(e, st, a, ins, name):
    if not e.genstack:
        raise Undecided("vf_sibling outside of a generator")
    return Ptr(e.genfam, e.genidx[:-1] + (e.toint(a[0]),), 0)


@ext("vf_sort_range")
def sort_range(e, st, a, ins, name):
    b, lo, n = range_of(e, a[0], a[1])
    if isinstance(n, int) and n <= 1:
        return None
    pi, inv, link = new_perm(e, n)
    fam = b.fam
    for o in range(0, fam.stride, 8):
        k = (fam, o)
        st.mem[k] = Log(PermBase(e, st.mem.get(k) or e.base_for(*k), fam, b.idx[:-1], lo, n, link))
    for x in list(e.exposed):
        kk = e.binop("sub", x, lo, 64)
        kk = bv(kk)
        e.axiom(Implies(zb(e.cmp("ult", kk, n)), And(zb(e.cmp("ult", inv(kk), n)), pi(inv(kk)) == kk)))
        link(inv(kk))
        pos = fold(inv(kk) + bv(lo))
        if not any(same(pos, y) for y in e.exposed):
            e.exposed.append(pos)
    if not (isinstance(lo, int) and lo == 0):
        raise Undecided("sort of a part of a sequence")
    e.add_universal(st, "pair", Ptr(fam, b.idx[:-1], 0), n, a[2])
    return None


@ext("vf_unique_range")
def unique_range(e, st, a, ins, name):
    """the kept elements, in order, are a prefix: positions given by an increasing function"""
    b, lo, n = range_of(e, a[0], a[1])
    if isinstance(n, int) and n <= 1:
        return a[1]
    e.fresh_n += 1
    pi = z3.Function("uniq!%d" % e.fresh_n, z3.BitVecSort(64), z3.BitVecSort(64))
    pos = z3.Function("uniqpos!%d" % e.fresh_n, z3.BitVecSort(64), z3.BitVecSort(64))
    m = e.fresh("uniqn")
    e.axiom(z3.ULE(m, bv(n)))
    e.axiom((m == 0) == (bv(n) == 0))
    fam = b.fam
    snap = dict(st.mem)

    def link(j):
        j = bv(j)
        pj = pi(j)
        e.axiom(Implies(z3.ULT(j, m), And(zb(e.cmp("ult", pj, n)), z3.UGE(pj, j))))
        return pj
    # every element equals a kept one: follow exposed indices
    for x in list(e.exposed):
        x = bv(e.binop("sub", x, lo, 64))
        q = pos(x)
        c = And(*st.pc, zb(e.cmp("ult", x, n)))
        r = e.run_pred(e.fnname(a[2]), [Ptr(fam, b.idx[:-1] + (fold(x + bv(lo)),), 0), Ptr(fam, b.idx[:-1] + (fold(link(q) + bv(lo)),), 0)], snap, c)
        e.axiom(Implies(c, And(z3.ULT(q, m), zb(r))))
        q = fold(q + bv(lo))
        if not any(same(q, y) for y in e.exposed):
            e.exposed.append(q)
    for o in range(0, fam.stride, 8):
        k = (fam, o)
        st.mem[k] = Log(PermBase(e, st.mem.get(k) or e.base_for(*k), fam, b.idx[:-1], lo, m, link))
    return e.pmul(a[0], m, fam.stride)


# ---------------------------------------------------------------- strings
@ext("vf_str_bytes")
def str_bytes(e, st, a, ins, name):
    return e.str_bytes(st, a[0], e.toint(a[1]))


@ext("vf_str_cstr")
def str_cstr(e, st, a, ins, name):
    p = e.toptr(a[0])
    if isinstance(p, Ptr) and p.fam.kind == "str":
        return p.idx[0] if same(p.off, 0) else e.fresh("cstr")
    return e.strtok(cstr(e, st, p).encode("latin1"))


@ext("vf_str_len")
def str_len(e, st, a, ins, name):
    return e.str_len(e.toint(a[0]))


@ext("vf_str_data")
def str_data(e, st, a, ins, name):
    return Ptr(e.strfam, (e.toint(a[0]),), 0)


@ext("vf_str_concat")
def str_concat(e, st, a, ins, name):
    return e.str_concat(e.toint(a[0]), e.toint(a[1]))


@ext("vf_str_substr")
def str_substr(e, st, a, ins, name):
    n = e.toint(a[2])
    tok = e.toint(a[0])
    ln = e.str_len(tok)
    pos = e.toint(a[1])
    rest = e.binop("sub", ln, pos, 64)
    n = e.ite(e.cmp("ult", n, rest), n, rest)
    return e.str_bytes1(st, Ptr(e.strfam, (tok,), pos), n)


@ext("vf_str_less")
def str_less(e, st, a, ins, name):
    x, y = e.toint(a[0]), e.toint(a[1])
    if isinstance(x, int) and isinstance(y, int) and (x in e.strconst or x == 0) and (y in e.strconst or y == 0):
        return e.strconst.get(x, b"") < e.strconst.get(y, b"")
    return e.cmp("ult", x, y)


@ext("vf_str_of_u64")
def str_of_u64(e, st, a, ins, name):
    f = z3.Function("str_num", *([z3.BitVecSort(64)] * 3))
    g = z3.Function("str_unnum_%s" % a[1], z3.BitVecSort(64), z3.BitVecSort(64))
    r = f(bv(e.toint(a[0])), bv(e.toint(a[1])))
    if isinstance(a[1], int) and a[1] < 100:
        e.axiom(g(r) == bv(e.toint(a[0])))
        e.axiom(r != 0)
    return r


# ---------------------------------------------------------------- memory functions
def array_in(t, off, n):
    """element size of the array of n bytes at offset off of type t"""
    while t is not None:
        if t.kind == "array":
            es = t.size // t.n if t.n else 0
            if off == 0 and t.size == n and t.n > 32:
                return es
            if not es:
                return None
            off, t = off % es, t.elem
        elif t.kind == "struct":
            k = None
            for o, e in zip(t.offs, t.elems):
                if o <= off < o + max(e.size, 1):
                    k = (o, e)
            if k is None:
                return None
            off, t = off - k[0], k[1]
        else:
            return None
    return None


def stride_of(e, p, n):
    f, idx, off = e.norm(p)
    for (g, o, size), s in e.subs.items():
        if g is f and o == off and s.parent[2] * size == n:
            return size
    return array_in(f.ty, off, n) if f.ty is not None else None


class CopyBase:
    def __init__(self, eng, log, fam, off, outer):
        self.eng, self.log, self.fam, self.off, self.outer = eng, log, fam, off, outer

    def read(self, idx):
        self.eng.touch(self.fam, self.outer + idx[-1:])
        return self.eng.logread(self.log, self.outer + idx[-1:])


class OuterBase:
    """the array of one object of a family is replaced, the others stay"""

    def __init__(self, eng, outer, new, old):
        self.eng, self.outer, self.new, self.old = eng, outer, new, old

    def read(self, idx):
        c = self.eng.idxeq(idx[:-1], self.outer)
        if c is True:
            return self.new.read(idx)
        if c is False:
            return self.eng.logread(self.old, idx)
        return self.eng.ite(c, self.new.read(idx), self.eng.logread(self.old, idx))


def set_array(e, st, q, o, base):
    """replaces word o of every element of the array q points to"""
    k = (q.fam, o)
    if len(q.idx) == 1:
        st.mem[k] = Log(base)
    else:
        st.mem[k] = Log(OuterBase(e, q.idx[:-1], base, st.mem.get(k) or e.base_for(*k)))


def copy(e, st, d, s, n):
    n = e.toint(n)
    if not isinstance(n, int):
        n = fold(n)
    if not isinstance(n, int):
        raise Undecided("memcpy of symbolic length")
    if n == 0:
        return
    d, s = e.toptr(d), e.toptr(s)
    hits = []
    if e.shared and not e.quiet_interf:
        e.interfere(st, s, n)
        hits = e.shared_before(st, d, n)
    if n > 256 and isinstance(d, Ptr) and isinstance(s, Ptr):
        es = stride_of(e, d, n) or stride_of(e, s, n)
        if es is None and n > 4096:
            raise Undecided("memcpy of %d bytes" % n)
        if es is not None:
            ds, ss = e.subarray(d, es, n // es, st, 0), e.subarray(s, es, n // es, st, 0)
            logs = [st.mem.get((ss.fam, o)) or e.base_for(ss.fam, o) for o in range(0, es, 8)]
            for o, lg in zip(range(0, es, 8), logs):
                set_array(e, st, ds, o, CopyBase(e, lg, ss.fam, o, ss.idx[:-1]))
            for k in e.exposed:
                e.touch(ss.fam, ss.idx[:-1] + (k,))
            e.shared_after(st, hits)
            return
    vals = []
    o = 0
    while o < n:
        k = 8 if n - o >= 8 else 4 if n - o >= 4 else 2 if n - o >= 2 else 1
        r = None
        sal = [x for x in e.alts(s) if isinstance(x[1], Ptr)]
        for g, p in sal:
            v = e.load_bits(st, e.padd(p, o), k)
            r = v if r is None else e.ite(g, v, r, k * 8)
        vals.append((o, k, r))
        o += k
    for o, k, v in vals:
        al = [x for x in e.alts(d) if isinstance(x[1], Ptr)]
        for g, p in al:
            e.store_bits(st, e.padd(p, o), k, v, g if len(al) > 1 else True)
    e.shared_after(st, hits)


@ext("memcpy", "memmove", "llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "llvm.memcpy.inline.p0.p0.i64")
def memcpy(e, st, a, ins, name):
    copy(e, st, a[0], a[1], a[2])
    return a[0]


class ZeroBase:
    def read(self, idx):
        return 0


@ext("memset", "llvm.memset.p0.i64")
def memset(e, st, a, ins, name):
    d, v, n = e.toptr(a[0]), a[1], e.toint(a[2])
    if not isinstance(n, int):
        raise Undecided("memset of symbolic length")
    if not isinstance(v, int):
        raise Undecided("memset with symbolic byte")
    if not isinstance(d, Ptr):
        raise Undecided("memset through alternatives")
    f, idx, off = e.norm(d)
    if n > 256:
        es = stride_of(e, d, n)
        if es is not None and v == 0:
            q = e.subarray(d, es, n // es, st, 0)
            for o in range(0, es, 8):
                set_array(e, st, q, o, ZeroBase())
            return a[0]
    if n > 2048:
        # a large object is cleared as a whole
        if v != 0:
            raise Undecided("large memset")
        if not any(k[0] is f for k in st.mem) and f.kind == "obj":
            f.zero = True
            for k, s in e.subs.items():
                if k[0] is f:
                    s.zero = True
        else:
            raise Undecided("large memset of a used object")
        return a[0]
    o = 0
    pat = v * 0x0101010101010101
    while o < n:
        k = 8 if (off + o) % 8 == 0 and n - o >= 8 else 1
        e.store_bits(st, e.padd(d, o), k, pat & ((1 << (8 * k)) - 1))
        o += k
    # array members of the cleared object
    for k, s in list(e.subs.items()):
        if k[0] is f and off <= k[1] < off + n and v == 0:
            for o in range(0, s.stride, 8):
                set_array(e, st, Ptr(s, idx + (0,), 0), o, ZeroBase())
    return a[0]


@ext("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "aligned_alloc")
def op_new(e, st, a, ins, name):
    n = a[1] if name == "aligned_alloc" else a[0]
    f, idx = e.new_fam("new", 0, "obj", 0, n if isinstance(n, int) else 0)
    return Ptr(f, idx, 0)


@ext("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t")
def op_delete(e, st, a, ins, name):
    return None


@ext("memcmp", "bcmp")
def memcmp(e, st, a, ins, name):
    p, q = e.toptr(a[0]), e.toptr(a[1])
    n = e.toint(a[2])
    if isinstance(p, Ptr) and isinstance(q, Ptr) and p.fam.kind == "str" and q.fam.kind == "str" and same(p.off, 0) and same(q.off, 0):
        # comparing min(len) bytes: order of the common prefixes
        f = z3.Function("str_cmp", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(32))
        return f(bv(p.idx[0]), bv(q.idx[0]), bv(n))
    if isinstance(n, int):
        x = e.str_bytes(st, p, n)
        y = e.str_bytes(st, q, n)
        return e.ite(e.cmp("eq", x, y), 0, 1, 32)
    raise Undecided("memcmp")


@ext("strlen")
def strlen(e, st, a, ins, name):
    return len(cstr(e, st, a[0]))


# ---------------------------------------------------------------- atomics (16 byte library calls)
class _T:
    def __init__(self, w):
        self.kind, self.width, self.size = "int", w, w // 8


I128 = _T(128)


@ext("__atomic_load_16", "__atomic_load_8", "__atomic_load_4")
def at_load16(e, st, a, ins, name):
    t = _T(int(name.rsplit("_", 1)[1]) * 8)
    e.interfere(st, a[0], t.size)
    return split(e, e.load(st, a[0], t), ins)


def split(e, v, ins):
    if ins.ty.kind == "struct":
        if isinstance(v, int):
            return Agg([v & M64, v >> 64])
        return Agg([z3.Extract(63, 0, v), z3.Extract(127, 64, v)])
    return v


def joined(e, xs):
    if len(xs) == 1:
        return xs[0]
    lo, hi = e.toint(xs[0]), e.toint(xs[1])
    if isinstance(lo, int) and isinstance(hi, int):
        return lo | hi << 64
    return z3.Concat(bv(hi), bv(lo))


@ext("__atomic_store_16", "__atomic_store_8", "__atomic_store_4")
def at_store16(e, st, a, ins, name):
    t = _T(int(name.rsplit("_", 1)[1]) * 8)
    e.shared_write(st, a[0], t, joined(e, a[1:-1]))
    return None


@ext("__atomic_compare_exchange_16", "__atomic_compare_exchange_8")
def at_cas16(e, st, a, ins, name):
    t = _T(int(name.rsplit("_", 1)[1]) * 8)
    p, expp = a[0], a[1]
    new = joined(e, a[2:-2])
    e.interfere(st, p, t.size)
    old = e.load(st, p, t)
    exp = e.load(st, expp, t)
    ok = e.cmp("eq", old, exp, t.width)
    e.shared_write(st, p, t, e.ite(ok, new, old, t.width), ok)
    e.store(st, expp, t, e.ite(ok, exp, old, t.width))
    return ok


@ext("__atomic_load")
def at_load(e, st, a, ins, name):
    copy(e, st, a[2], a[1], a[0])
    return None


@ext("__atomic_store")
def at_store(e, st, a, ins, name):
    t = _T(a[0] * 8)
    e.shared_write(st, a[1], t, e.load(st, a[2], t))
    return None


@ext("__atomic_compare_exchange")
def at_cas(e, st, a, ins, name):
    t = _T(a[0] * 8)
    p, expp = a[1], a[2]
    e.interfere(st, p, t.size)
    old = e.load(st, p, t)
    exp = e.load(st, expp, t)
    new = e.load(st, a[3], t)
    ok = e.cmp("eq", old, exp, t.width)
    e.shared_write(st, p, t, e.ite(ok, new, old, t.width), ok)
    e.store(st, expp, t, e.ite(ok, exp, old, t.width))
    return ok


# ---------------------------------------------------------------- misc
def nop(e, st, a, ins, name):
    return e.havoc_ty(ins.ty, "ext") if ins.ty.kind != "void" else None


for n in ("llvm.lifetime.start.p0", "llvm.lifetime.end.p0", "llvm.dbg.declare", "llvm.dbg.value", "llvm.assume", "_mm_pause",
          "llvm.x86.sse2.pause", "__cxa_atexit", "__cxa_guard_release", "sched_yield", "usleep", "llvm.donothing", "pthread_self",
          "llvm.experimental.noalias.scope.decl", "__cxa_begin_catch", "__cxa_end_catch", "__cxa_free_exception", "llvm.trap",
          "_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt6chrono3_V212system_clock3nowEv", "nanosleep", "syscall", "clock_nanosleep"):
    TABLE[n] = nop


@ext("llvm.trap")
def trap(e, st, a, ins, name):
    return STOP


@ext("__cxa_guard_acquire")
def guard(e, st, a, ins, name):
    return 0


@ext("__cxa_allocate_exception")
def alloc_exc(e, st, a, ins, name):
    return op_new(e, st, a, ins, "malloc")


@ext("llvm.expect.i1", "llvm.expect.i64")
def expect(e, st, a, ins, name):
    return a[0]


@ext("llvm.threadlocal.address.p0", "llvm.launder.invariant.group.p0", "llvm.ptr.annotation.p0")
def ident(e, st, a, ins, name):
    return a[0]


@ext("llvm.is.constant.i64", "llvm.is.constant.i1")
def isconst(e, st, a, ins, name):
    return False


def minmax(e, st, a, ins, name):
    k = name.split(".")[1]
    w = ins.ty.width
    p = {"umax": "ugt", "umin": "ult", "smax": "sgt", "smin": "slt"}[k]
    return e.ite(e.cmp(p, a[0], a[1], w), a[0], a[1], w)


def overflow(e, st, a, ins, name):
    op = name.split(".")[1]
    w = ins.ty.elems[0].width
    x, y = bv(e.toint(a[0]), w), bv(e.toint(a[1]), w)
    if op == "uadd":
        r = x + y
        return Agg([fold(r), z3.ULT(r, x)])
    if op == "usub":
        return Agg([fold(x - y), z3.ULT(x, y)])
    if op == "umul":
        return Agg([fold(x * y), z3.Not(z3.BVMulNoOverflow(x, y, False))])
    raise Undecided(name)


def popcount(e, st, a, ins, name):
    v = e.toint(a[0])
    w = ins.ty.width
    if isinstance(v, int):
        return bin(v).count("1")
    r = z3.BitVecVal(0, w)
    for i in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, v))
    return r


def cttz(e, st, a, ins, name):
    v = e.toint(a[0])
    w = ins.ty.width
    if isinstance(v, int):
        return (v & -v).bit_length() - 1 if v else w
    r = bv(w, w)
    for i in range(w - 1, -1, -1):
        r = z3.If(z3.Extract(i, i, v) == 1, bv(i, w), r)
    return r


PREF_NOP = ("_ZNSo", "_ZStls", "_ZNSolsE", "_ZNSt8ios_base", "_ZNSt6localeC", "_ZNSt6localeD", "_ZNSt9basic_ios", "_ZNSt7__cxx11", "_ZNKSt7__cxx11",
            "_ZSt4endl", "_ZNSt15basic_streambuf", "_ZNSt19basic_ostream", "_ZNKSt9basic_ios", "_ZNSi", "_ZSt5flush", "_ZSt7setfill",
            "_ZNKSt5ctype", "_ZNSt10error_code", "_ZNSt3_V2", "_ZSt15system_category", "_ZNSt13random", "llvm.stacksave", "llvm.stackrestore",
            "_ZNSt6chrono", "_ZNSt11this_thread", "_ZSt3pow", "_ZNSt12__basic_file", "_ZStrs", "_ZSt9use_facet", "_ZNSt16")


def lookup(name):
    if name.startswith("llvm.umax") or name.startswith("llvm.umin") or name.startswith("llvm.smax") or name.startswith("llvm.smin"):
        return minmax
    if ".with.overflow" in name:
        return overflow
    if name.startswith("llvm.ctpop"):
        return popcount
    if name.startswith("llvm.cttz"):
        return cttz
    if name.startswith("llvm.memset"):
        return memset
    if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
        return memcpy
    return None


def default(name):
    if name.startswith(PREF_NOP):
        return nop
    if name in ("getpid", "gettid", "time", "clock_gettime", "rand", "pow", "log2", "ceil", "sched_getcpu", "perror", "printf", "puts"):
        return nop
    return None
