"""Verification condition generator: executes LLVM functions on symbolic state.

All paths are merged at join points, loops are cut with inductive invariants
(or unrolled when their trip count is concrete), calls are inlined unless the
contract file overrides them with a contract.  Every assertion becomes one
obligation `path condition => assertion` that z3 must discharge.
"""
import time
import z3
import llvm

M64 = (1 << 64) - 1


class Undecided(Exception):
    pass


class Fam:
    """A family of objects (ndim index dimensions); ndim 0 is one object."""
    __slots__ = ("name", "id", "ndim", "stride", "kind", "gen", "derive", "birth", "const", "size", "parent", "zero", "clone", "ty", "genn")
    n = 0

    def __init__(self, name, ndim=0, kind="obj", stride=0, size=0):
        Fam.n += 1
        self.id = Fam.n
        self.name, self.ndim, self.kind, self.stride, self.size = name, ndim, kind, stride, size
        self.gen = self.derive = self.const = self.parent = None
        self.birth = 0
        self.zero = False
        self.clone = None
        self.ty = None
        self.genn = None

    def __repr__(self):
        return "%s#%d" % (self.name, self.id)


class Ptr:
    __slots__ = ("fam", "idx", "off")

    def __init__(self, fam, idx, off):
        self.fam, self.idx, self.off = fam, idx, off

    def __repr__(self):
        return "&%r%s+%s" % (self.fam, list(self.idx) if self.idx else "", self.off)


class PIte:
    """guarded alternatives; value is a Ptr or int (0 is null)"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "PIte%r" % ([v for _, v in self.alts],)


class Scaled:
    __slots__ = ("term", "k")

    def __init__(self, term, k):
        self.term, self.k = term, k


class Agg:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Log:
    __slots__ = ("base", "ents")

    def __init__(self, base, ents=()):
        self.base, self.ents = base, ents


def isbv(x):
    return isinstance(x, z3.BitVecRef)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.fam is b.fam and same(a.off, b.off) and len(a.idx) == len(b.idx) and all(same(x, y) for x, y in zip(a.idx, b.idx))
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return a == b and isinstance(a, bool) == isinstance(b, bool)
    if isinstance(a, PIte) and isinstance(b, PIte):
        return len(a.alts) == len(b.alts) and all(same(g, h) and same(x, y) for (g, x), (h, y) in zip(a.alts, b.alts))
    if isinstance(a, Agg) and isinstance(b, Agg):
        return all(same(x, y) for x, y in zip(a.v, b.v))
    if isinstance(a, Scaled) and isinstance(b, Scaled):
        return a.k == b.k and same(a.term, b.term)
    if isinstance(a, Log) and isinstance(b, Log):
        return a.base is b.base and len(a.ents) == len(b.ents) and all(x is y for x, y in zip(a.ents, b.ents))
    return False


def Not(c):
    if c is True:
        return False
    if c is False:
        return True
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def And(*cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*cs):
    out = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Implies(a, b):
    return Or(Not(a), b)


def zb(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def bv(x, w=64):
    if isinstance(x, bool):
        return z3.BitVecVal(int(x), w)
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    return x


def mask(w):
    return (1 << w) - 1


def fold(e):
    """cheap simplification of index arithmetic"""
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return e


def eqv(a, b):
    """equality of two 64-bit (or same width) scalars"""
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return int(a) == int(b)
    if same(a, b):
        return True
    if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
        return zb(a) == zb(b)
    w = a.size() if isbv(a) else b.size()
    c = bv(a, w) == bv(b, w)
    if isinstance(c, bool):
        return c
    return c


class State:
    __slots__ = ("pc", "mem")

    def __init__(self, pc, mem):
        self.pc, self.mem = pc, mem

    def copy(self):
        return State(self.pc, dict(self.mem))


class Edge:
    __slots__ = ("tgt", "st", "phis")

    def __init__(self, tgt, st, phis):
        self.tgt, self.st, self.phis = tgt, st, phis


class LoopInfo:
    __slots__ = ("header", "blocks", "parent", "children")


class Frame:
    __slots__ = ("fn", "regs", "mod", "rets", "curloop")


class InitBase:
    """contents of a family cell before the verified code ran"""
    __slots__ = ("eng", "fam", "off", "fn")

    def __init__(self, eng, fam, off):
        self.eng, self.fam, self.off = eng, fam, off
        self.fn = None

    def read(self, idx):
        f = self.fam
        e = self.eng
        if f.derive is not None:
            return f.derive(e, idx, self.off)
        if f.gen is not None:
            v = e.run_gen(f, idx, self.off)
            if v is not None:
                return v
        if f.zero:
            return 0
        if self.fn is None:
            self.fn = z3.Function("m_%s_%d_%d" % (f.name, f.id, self.off), *([z3.BitVecSort(64)] * (len(idx) + 1)))
        return self.fn(*[bv(i) for i in idx])


class HavocBase:
    """contents after an arbitrary number of loop iterations"""
    __slots__ = ("eng", "shape", "fns", "name", "cache", "nd")

    def __init__(self, eng, name, shape, nd):
        self.eng, self.name, self.shape, self.nd = eng, name, shape, nd
        self.cache = {}

    def read(self, idx):
        key = tuple(i if isinstance(i, int) else ("t", i.get_id()) for i in idx)
        r = self.cache.get(key)
        if r is None:
            r = self.eng.shape_value(self.shape, self.name, idx)
            self.cache[key] = (r, idx)
            return r
        return r[0]


class FrontierBase:
    """contents after some iterations of a loop that writes only the element at
    its counter: elements from the counter on are as on entry"""
    __slots__ = ("eng", "counter", "entry", "rest", "cache")

    def __init__(self, eng, counter, entry, rest):
        self.eng, self.counter, self.entry, self.rest = eng, counter, entry, rest
        self.cache = {}

    def read(self, idx):
        i = idx[0]
        key = i if isinstance(i, int) else ("t", i.get_id())
        r = self.cache.get(key)
        if r is None:
            e = self.eng.logread(self.entry, idx)
            if same(i, self.counter):
                r = e
            else:
                r = self.eng.ite(z3.simplify(z3.UGE(bv(i), self.counter)), e, self.rest.read(idx))
            self.cache[key] = (r, idx)
            return r
        return r[0]


class Engine:
    def __init__(self, prog, opts):
        self.p = prog
        self.o = opts
        self.bound = opts.get("bound")            # None: proof; int: bounded mode
        self.solver = z3.Solver()
        self.solver.set("timeout", opts.get("feas_ms", 300))
        self.axioms = []
        self.obls = []
        self.quiet = 0
        self.fresh_n = 0
        self.gfam = {}
        self.ffam = {}
        self.cgcache = {}
        self.strconst = {}
        self.overrides = opts.get("overrides", {})
        self.inputs = {}
        self.infns = {}
        self.visited = {}
        self.externals = set()
        self.assumed = set()
        self.univ = []           # universal facts
        self.touched = {}        # fam -> {key: idx}
        self.famuniv = {}
        self.gencache = {}
        self.genidx = ()
        self.genstack = []
        self.loopstamp = 0
        self.exposed = []
        self.cands = []
        self.shared = []
        self.onlock = []
        self.callstack = []
        self.depth = 0
        self.nsolver = 0
        self.tsolver = 0.0
        self.addr_fns = {}
        self.strlen = z3.Function("str_len", z3.BitVecSort(64), z3.BitVecSort(64))
        self.strfam = Fam("str", 1, "str")
        self.strparts = {}  # concatenation -> (itself, left, right)
        self.strfixed = {}  # string -> (itself, its known length)
        self.famlist = {}
        self.subs = {}
        self.deadline = time.time() + opts.get("limit_s", 300)
        self.bounded_used = False
        self.stats = {"loops_cut": 0, "loops_unrolled": 0, "invariants": 0, "loop_vcs": 0}
        self.lenseen = set()
        self.feas_cache = {}
        self.nrec = None
        self.quiet_interf = False
        self.derived_exposed = []
        self.reach = []

    # ------------------------------------------------------------- utilities
    def fresh(self, name="v", w=64):
        self.fresh_n += 1
        if w == 1:
            return z3.Bool("%s!%d" % (name, self.fresh_n))
        return z3.BitVec("%s!%d" % (name, self.fresh_n), w)

    def axiom(self, c):
        if c is True:
            return
        c = zb(c)
        self.axioms.append(c)
        self.solver.add(c)

    def pcexpr(self, pc):
        return And(*pc)

    def timeleft(self):
        if time.time() > self.deadline:
            raise Undecided("time limit")

    def check(self, conds, ms):
        self.timeleft()
        self.nsolver += 1
        t = time.time()
        self.solver.set("timeout", ms)
        self.solver.push()
        for c in conds:
            self.solver.add(zb(c))
        r = self.solver.check()
        self.solver.pop()
        self.tsolver += time.time() - t
        return r

    def feasible(self, pc, extra=True):
        if extra is False:
            return False
        key = (tuple(c.get_id() for c in pc), extra.get_id() if extra is not True else 0)
        r = self.feas_cache.get(key)
        if r is not None and r[0] == 0:
            return False
        if r is not None and r[1] == len(self.axioms):
            return True
        ok = self.check(list(pc) + ([extra] if extra is not True else []), self.o.get("feas_ms", 300)) != z3.unsat
        self.feas_cache[key] = (1 if ok else 0, len(self.axioms), pc, extra)
        return ok

    # ------------------------------------------------------------- values
    def ite(self, c, a, b, w=64):
        if c is True:
            return a
        if c is False:
            return b
        if same(a, b):
            return a
        if isinstance(a, Agg) or isinstance(b, Agg):
            if not isinstance(a, Agg):
                return b
            if not isinstance(b, Agg):
                return a
            return Agg([self.ite(c, x, y, 64) for x, y in zip(a.v, b.v)])
        if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            if (isinstance(a, (Ptr, PIte)) or a == 0 if isinstance(a, int) else isinstance(a, (Ptr, PIte))) and \
               (isinstance(b, (Ptr, PIte)) or (isinstance(b, int) and b == 0)):
                return self.pite(c, a, b)
            return self.ite(c, self.toint(a), self.toint(b), 64)
        if isinstance(a, Scaled) or isinstance(b, Scaled):
            if isinstance(a, Scaled) and isinstance(b, Scaled) and a.k == b.k:
                return Scaled(self.ite(c, a.term, b.term), a.k)
            return self.ite(c, self.toint(a), self.toint(b))
        if a is None or b is None:
            return b if a is None else a
        if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
            if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
                if a is True and b is False:
                    return c
                if a is False and b is True:
                    return Not(c)
                if a is False:
                    return And(Not(c), b)
                if b is False:
                    return And(c, a)
                if a is True:
                    return Or(c, b)
                if b is True:
                    return Or(Not(c), a)
                return z3.If(c, zb(a), zb(b))
            if isinstance(a, z3.BoolRef) and isbv(b):
                a = z3.If(a, z3.BitVecVal(1, b.size()), z3.BitVecVal(0, b.size()))
            elif isinstance(b, z3.BoolRef) and isbv(a):
                b = z3.If(b, z3.BitVecVal(1, a.size()), z3.BitVecVal(0, a.size()))
            a = self.toint(a)
            b = self.toint(b)
        if isbv(a):
            w = a.size()
        elif isbv(b):
            w = b.size()
        # collapse If(c, x, If(c, y, z))
        if isbv(b) and z3.is_app_of(b, z3.Z3_OP_ITE) and b.arg(0).eq(c):
            b = b.arg(2)
        if isbv(a) and z3.is_app_of(a, z3.Z3_OP_ITE) and a.arg(0).eq(c):
            a = a.arg(1)
        if isbv(a) and isbv(b) and a.size() != b.size():
            w = max(a.size(), b.size())
            a, b = (z3.ZeroExt(w - x.size(), x) if x.size() < w else x for x in (a, b))
        return z3.If(c, bv(a, w), bv(b, w))

    def alts(self, v):
        if isinstance(v, PIte):
            return v.alts
        return [(True, v)]

    def pite(self, c, a, b):
        out = []
        nc = Not(c)
        for g, v in self.alts(a):
            out.append((And(c, g), v))
        for g, v in self.alts(b):
            g = And(nc, g)
            for k, (h, u) in enumerate(out):
                if isinstance(u, Ptr) and isinstance(v, Ptr) and u.fam is v.fam and same(u.off, v.off) and len(u.idx) == len(v.idx):
                    if same(u, v):
                        out[k] = (Or(h, g), u)
                    else:
                        out[k] = (Or(h, g), Ptr(u.fam, tuple(self.ite(h, x, y) for x, y in zip(u.idx, v.idx)), u.off))
                    break
                if isinstance(u, int) and isinstance(v, int) and u == v:
                    out[k] = (Or(h, g), u)
                    break
            else:
                out.append((g, v))
        if len(out) == 1:
            return out[0][1]
        return PIte(out)

    def toint(self, v):
        """as integer / bit-vector"""
        if isinstance(v, (int, z3.BitVecRef)) and not isinstance(v, bool):
            return v
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
        if isinstance(v, Ptr):
            return self.addr(v)
        if isinstance(v, PIte):
            r = None
            for g, x in v.alts:
                x = self.toint(x)
                r = x if r is None else z3.If(zb(g), bv(x), bv(r))
            return r
        if isinstance(v, Scaled):
            return fold(bv(v.term) * v.k)
        raise Undecided("not an integer: %r" % (v,))

    def addr(self, p):
        f = p.fam
        if len(p.idx) == 0:
            base = (f.id + 0x1000) << 28
            if isinstance(p.off, int):
                return base + p.off
            return bv(base) + p.off
        k = (f, len(p.idx))
        ent = self.addr_fns.get(k)
        if ent is None:
            n = len(p.idx)
            s = z3.BitVecSort(64)
            ent = (z3.Function("addr_%s_%d_%d" % (f.name, f.id, n), *([s] * (n + 1))),
                   [z3.Function("inv_%s_%d_%d_%d" % (f.name, f.id, n, i), s, s) for i in range(n)], set(), len(self.addr_fns) + 1)
            self.addr_fns[k] = ent
        fn, inv, seen, num = ent
        a = fn(*[bv(i) for i in p.idx])
        if a.get_id() not in seen:
            seen.add(a.get_id())
            for i, g in zip(p.idx, inv):
                self.axiom(g(a) == bv(i))
            # addresses of different families are different and never null
            self.axiom(z3.LShR(a, 44) == z3.BitVecVal(0x8000 + num, 64))
            self.axiom(z3.Extract(27, 0, a) == z3.BitVecVal(0, 28))
        if isinstance(p.off, int) and p.off == 0:
            return a
        return a + bv(p.off)

    def toptr(self, v):
        if isinstance(v, (Ptr, PIte)):
            return v
        if isinstance(v, int):
            return v
        if isinstance(v, Scaled):
            raise Undecided("pointer from scaled")
        if isbv(v):
            if z3.is_app_of(v, z3.Z3_OP_ITE):
                return self.pite(v.arg(0), self.toptr(fold(v.arg(1))), self.toptr(fold(v.arg(2))))
            if z3.is_bv_value(v):
                return v.as_long()
            return Ptr(self.unkfam(), (v,), 0)
        raise Undecided("not a pointer: %r" % (v,))

    def unkfam(self):
        f = self.famlist.get("unk")
        if f is None:
            f = Fam("unk", 1, "unk")
            self.famlist["unk"] = f
        return f

    def peq(self, a, b):
        """pointer equality"""
        res = []
        for g, x in self.alts(a):
            for h, y in self.alts(b):
                gh = And(g, h)
                if gh is False:
                    continue
                if isinstance(x, Ptr) and isinstance(y, Ptr):
                    if x.fam is y.fam:
                        if len(x.idx) != len(y.idx):
                            e = False
                        elif x.fam.kind == "unk":
                            e = eqv(bv(x.idx[0]) + bv(x.off), bv(y.idx[0]) + bv(y.off))
                        else:
                            e = And(*[eqv(i, j) for i, j in zip(x.idx, y.idx)])
                            if not (isinstance(x.off, int) and isinstance(y.off, int)):
                                e = And(e, eqv(x.off, y.off))
                            elif x.off != y.off:
                                e = False
                    elif x.fam.kind == "unk" or y.fam.kind == "unk":
                        e = eqv(self.addr1(x), self.addr1(y))
                    else:
                        e = False
                elif isinstance(x, Ptr) or isinstance(y, Ptr):
                    p, q = (x, y) if isinstance(x, Ptr) else (y, x)
                    if isinstance(q, int) and q == 0 and p.fam.kind != "unk":
                        e = False
                    else:
                        e = eqv(self.addr1(p), q)
                else:
                    e = eqv(x, y)
                res.append(And(gh, e))
        return Or(*res)

    def addr1(self, p):
        if p.fam.kind == "unk":
            return fold(bv(p.idx[0]) + bv(p.off)) if not (isinstance(p.off, int) and p.off == 0) else p.idx[0]
        return self.addr(p)

    # ------------------------------------------------------------- memory
    def base_for(self, fam, off):
        k = (fam, off)
        b = self.cgcache.get(k)
        if b is None:
            b = Log(InitBase(self, fam, off))
            self.cgcache[k] = b
        return b

    def idxeq(self, a, b):
        if a is b:
            return True
        cs = []
        for x, y in zip(a, b):
            if isinstance(x, int) and isinstance(y, int):
                if x != y:
                    return False
                continue
            e = eqv(x, y)
            if e is True:
                continue
            cs.append(e)
        if len(cs) > 0:
            c = z3.simplify(zb(And(*cs)))
            if z3.is_true(c):
                return True
            if z3.is_false(c):
                return False
            return c
        return True

    def logread(self, log, idx):
        out = []
        base = None
        for g, i, v in reversed(log.ents):
            e = self.idxeq(idx, i)
            if e is False:
                continue
            c = And(g, e)
            if c is False:
                continue
            if c is True:
                base = v
                break
            out.append((c, v))
        if base is None:
            base = log.base.read(idx)
        for c, v in reversed(out):
            base = self.ite(c, v, base)
        return base

    def cell_get(self, mem, fam, idx, off):
        k = (fam, off)
        v = mem.get(k)
        if fam.ndim == 0 and not idx:
            if v is None:
                v = self.initial_scalar(fam, off)
                # the initial value is a fact about the initial state
                self.scal_init = v
            return v
        if v is None:
            v = self.base_for(fam, off)
        self.touch(fam, idx)
        return self.logread(v, idx)

    def initial_scalar(self, fam, off):
        k = (fam, off)
        v = self.cgcache.get(k)
        if v is None:
            if fam.derive is not None:
                v = fam.derive(self, (), off)
            elif fam.zero:
                v = 0
            elif fam.const is not None:
                v = fam.const(off)
            else:
                v = self.fresh("m_%s_%d" % (fam.name[-40:], off))
            self.cgcache[k] = v
        return v

    def cell_set(self, mem, fam, idx, off, val, guard=True):
        k = (fam, off)
        if fam.const is not None:
            raise Undecided("store to constant %s" % fam.name)
        if fam.ndim == 0 and not idx:
            if guard is not True:
                val = self.ite(guard, val, self.cell_get(mem, fam, idx, off))
            mem[k] = val
            return
        log = mem.get(k)
        if log is None:
            log = self.base_for(fam, off)
        self.touch(fam, idx)
        ents = log.ents
        if guard is True:
            ents = tuple(e for e in ents if not (all(same(x, y) for x, y in zip(e[1], idx))))
        mem[k] = Log(log.base, ents + ((guard, idx, val),))

    def norm(self, p):
        """normalise a pointer into (fam, idx, off int)"""
        off = p.off
        f = p.fam
        if not isinstance(off, int):
            off = fold(off)
            if not isinstance(off, int):
                raise Undecided("symbolic offset into %r: %s" % (f, str(off)[:80]))
        if f.kind == "region" and len(p.idx) == f.ndim and f.stride and not (0 <= off < f.stride):
            soff = off - (1 << 64) if off >= 1 << 63 else off
            q, r = divmod(soff, f.stride)
            return f, p.idx[:-1] + (fold(bv(p.idx[-1]) + q),), r
        return f, p.idx, off

    def rd_word(self, mem, f, idx, off8):
        return self.cell_get(mem, f, idx, off8)

    def load_bits(self, st, p, nbytes):
        """load nbytes from a single Ptr"""
        if not isinstance(p, Ptr):
            return None
        f, idx, off = self.norm(p)
        if f.kind == "func":
            raise Undecided("load from code")
        if f.kind == "str":
            return self.str_load(idx[0], off, nbytes)
        if f.kind == "unk":
            raise Undecided("load through a pointer of unknown origin: %s" % str(p.idx[0])[:100])
        mem = st.mem
        a = off & ~7
        if off == a and nbytes == 8:
            v = self.cell_get(mem, f, idx, a)
            return v
        sh = (off - a) * 8
        if (off - a) + nbytes <= 8:
            v = self.cell_get(mem, f, idx, a)
            if isinstance(v, (Ptr, PIte)):
                v = self.toint(v)
            if isinstance(v, (bool, z3.BoolRef, Scaled)):
                v = self.toint(v)
            if isinstance(v, int):
                return (v >> sh) & mask(nbytes * 8)
            return self.extract(sh + nbytes * 8 - 1, sh, v)
        # spans several words
        total = None
        parts = []
        pos = off
        end = off + nbytes
        while pos < end:
            w = pos & ~7
            take = min(end, w + 8) - pos
            parts.append((self.load_bits(st, Ptr(f, idx, pos), take), take))
            pos += take
        if all(isinstance(v, int) for v, _ in parts):
            r, s = 0, 0
            for v, n in parts:
                r |= v << s
                s += n * 8
            return r
        for v, n in parts:
            x = bv(self.toint(v), n * 8)
            if x.size() != n * 8:
                x = z3.Extract(n * 8 - 1, 0, x)
            total = x if total is None else z3.Concat(x, total)
        return total

    def extract(self, hi, lo, v):
        """Extract with light simplification through If/Concat"""
        if lo == 0 and hi == v.size() - 1:
            return v
        r = z3.Extract(hi, lo, v)
        d = v.decl().kind()
        if d in (z3.Z3_OP_CONCAT, z3.Z3_OP_ZERO_EXT, z3.Z3_OP_BNUM, z3.Z3_OP_EXTRACT, z3.Z3_OP_BAND, z3.Z3_OP_BOR):
            r = z3.simplify(r)
            if z3.is_bv_value(r):
                return r.as_long()
        return r

    def store_bits(self, st, p, nbytes, val, guard=True):
        f, idx, off = self.norm(p)
        if f.kind in ("func", "str"):
            raise Undecided("store to %s" % f.kind)
        if f.kind == "unk":
            raise Undecided("store through a pointer of unknown origin")
        a = off & ~7
        if off == a and nbytes == 8:
            self.cell_set(st.mem, f, idx, a, val, guard)
            return
        if (off - a) + nbytes <= 8:
            old = self.toint(self.cell_get(st.mem, f, idx, a))
            v = self.toint(val)
            sh = (off - a) * 8
            m = mask(nbytes * 8)
            if isinstance(old, int) and isinstance(v, int):
                nv = (old & ~(m << sh) & M64) | ((v & m) << sh)
            else:
                w = nbytes * 8
                vv = bv(v, w)
                if vv.size() > w:
                    vv = z3.Extract(w - 1, 0, vv)
                o = bv(old)
                parts = []
                if sh + w < 64:
                    parts.append(z3.Extract(63, sh + w, o))
                parts.append(vv)
                if sh > 0:
                    parts.append(z3.Extract(sh - 1, 0, o))
                nv = z3.Concat(*parts) if len(parts) > 1 else parts[0]
                nv = fold(nv) if nv.num_args() < 4 and (isinstance(old, int) or isinstance(v, int)) else nv
            self.cell_set(st.mem, f, idx, a, nv, guard)
            return
        pos, end = off, off + nbytes
        v = self.toint(val)
        done = 0
        while pos < end:
            w = pos & ~7
            take = min(end, w + 8) - pos
            if isinstance(v, int):
                part = (v >> (done * 8)) & mask(take * 8)
            else:
                part = self.extract(done * 8 + take * 8 - 1, done * 8, v)
                if isbv(part):
                    part = fold(part)
            self.store_bits(st, Ptr(f, idx, pos), take, part, guard)
            pos += take
            done += take

    def load(self, st, pv, ty):
        if ty.kind == "struct":
            return Agg([self.load(st, self.padd(pv, o), t) for o, t in zip(ty.offs, ty.elems)])
        if ty.kind == "array":
            es = ty.size // max(ty.n, 1)
            return Agg([self.load(st, self.padd(pv, es * i), ty.elem) for i in range(ty.n)])
        n = ty.size
        pv = self.toptr(pv)
        alts = [(g, v) for g, v in self.alts(pv)]
        if len(alts) > 1:
            alts = self.prune_alts(st, alts)
        res = None
        for g, v in alts:
            if not isinstance(v, Ptr):
                if len(alts) == 1:
                    raise Undecided("null dereference in %s" % (self.callstack[-1] if self.callstack else "?"))
                continue
            x = self.load_bits(st, v, n)
            x = self.fit(x, ty)
            res = x if res is None else self.ite(g, x, res, ty.width)
        if res is None:
            raise Undecided("no valid target for load")
        return res

    def fit(self, x, ty):
        if ty.kind == "int":
            if ty.width == 1:
                if isinstance(x, int):
                    return bool(x & 1)
                if isinstance(x, (z3.BoolRef, bool)):
                    return x
                x = self.toint(x)
                e = z3.simplify(z3.Extract(0, 0, x) == 1)
                return True if z3.is_true(e) else False if z3.is_false(e) else e
            if isinstance(x, (bool, z3.BoolRef)):
                x = self.toint(x)
                return x if isinstance(x, int) else z3.Extract(ty.width - 1, 0, x) if ty.width < 64 else x
            if ty.width % 8 and isbv(x):
                return z3.Extract(ty.width - 1, 0, x)
            return x
        if ty.kind == "ptr":
            return self.toptr(x)
        if ty.kind == "fp":
            return x
        return x

    def prune_alts(self, st, alts):
        """drop alternatives that the path condition excludes"""
        out = []
        for g, v in alts:
            if not isinstance(v, Ptr):
                if self.quiet == 0 or True:
                    continue
            if g is not True and not self.feasible(st.pc, g):
                continue
            out.append((g, v))
        return out or alts

    def store(self, st, pv, ty, val):
        if ty.kind == "struct":
            for o, t, v in zip(ty.offs, ty.elems, val.v if isinstance(val, Agg) else [val] * len(ty.offs)):
                self.store(st, self.padd(pv, o), t, v)
            return
        if ty.kind == "array":
            es = ty.size // max(ty.n, 1)
            for i in range(ty.n):
                self.store(st, self.padd(pv, es * i), ty.elem, val.v[i] if isinstance(val, Agg) else val)
            return
        n = ty.size
        if val is None:
            val = self.fresh("undef")
        if ty.kind == "int" and ty.width == 1:
            val = int(val) if isinstance(val, bool) else z3.If(val, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if isinstance(val, z3.BoolRef) else val
        elif ty.kind == "int" and ty.width % 8 and isbv(val):
            val = z3.ZeroExt(8 - ty.width % 8, val)
        pv = self.toptr(pv)
        alts = self.alts(pv)
        if len(alts) > 1:
            alts = self.prune_alts(st, alts)
        for g, v in alts:
            if not isinstance(v, Ptr):
                if len(alts) == 1:
                    raise Undecided("null dereference (store) in %s" % (self.callstack[-1] if self.callstack else "?"))
                continue
            self.store_bits(st, v, n, val, g if len(alts) > 1 else True)

    def padd(self, pv, off):
        if off == 0 and isinstance(off, int):
            return pv
        if isinstance(pv, Ptr):
            if isinstance(pv.off, int) and isinstance(off, int):
                o = pv.off + off
                if o >= 1 << 63:
                    o -= 1 << 64
                f = pv.fam
                if f.kind == "region" and len(pv.idx) == f.ndim and f.stride and not (0 <= o < f.stride):
                    q, r = divmod(o, f.stride)
                    return Ptr(f, pv.idx[:-1] + (fold(bv(pv.idx[-1]) + q) if not isinstance(pv.idx[-1], int) else (pv.idx[-1] + q) & M64,), r)
                return Ptr(f, pv.idx, o)
            return Ptr(pv.fam, pv.idx, fold(bv(pv.off) + bv(off)))
        if isinstance(pv, PIte):
            return PIte([(g, self.padd(v, off) if isinstance(v, Ptr) else v) for g, v in pv.alts])
        if isinstance(pv, int):
            return (pv + off) & M64 if isinstance(off, int) else fold(bv(pv) + bv(off))
        if isbv(pv):
            return self.padd(self.toptr(pv), off)
        raise Undecided("pointer arithmetic on %r" % (pv,))

    def pmul(self, pv, idx, size):
        """pv + idx*size"""
        if isinstance(idx, Scaled):
            idx = self.toint(idx)
        if isinstance(idx, int):
            i = idx - (1 << 64) if idx >= 1 << 63 else idx
            return self.padd(pv, i * size)
        if isinstance(pv, Ptr):
            f = pv.fam
            if f.kind == "region" and len(pv.idx) == f.ndim and f.stride == size:
                return Ptr(f, pv.idx[:-1] + (fold(bv(pv.idx[-1]) + idx),), pv.off)
            if f.kind == "str" and size == 1:
                return Ptr(f, pv.idx, fold(bv(pv.off) + idx))
            return Ptr(f, pv.idx, fold(bv(pv.off) + idx * size))
        if isinstance(pv, PIte):
            return PIte([(g, self.pmul(v, idx, size) if isinstance(v, Ptr) else v) for g, v in pv.alts])
        raise Undecided("pointer arithmetic on %r" % (pv,))

    def subarray(self, pv, size, n, st, idx):
        """pointer to element idx of an array of n elements embedded in an object"""
        if isinstance(pv, PIte):
            return PIte([(g, self.subarray(v, size, n, st, idx) if isinstance(v, Ptr) else v) for g, v in pv.alts])
        if not isinstance(pv, Ptr):
            raise Undecided("array access through %r" % (pv,))
        if n > 32 and not (pv.fam.kind == "region" and pv.fam.parent is not None and pv.fam.stride == size and pv.fam.parent[1] == pv.off):
            f, ix, off = self.norm(pv)
            k = (f, off, size)
            s = self.subs.get(k)
            if s is None:
                s = Fam("%s.%d" % (f.name, off), len(ix) + 1, "region", size)
                s.parent = (f, off, n)
                s.zero = f.zero
                s.birth = f.birth
                if f.const is not None:
                    cf = f.const

                    def der(eng, idx2, o, cf=cf, off=off, size=size):
                        if not isinstance(idx2[-1], int):
                            raise Undecided("symbolic index into constant table")
                        return cf(off + idx2[-1] * size + o)
                    s.derive = der
                self.subs[k] = s
            return Ptr(s, ix + (idx,), 0)
        if isinstance(idx, int):
            return self.padd(pv, idx * size)
        alts = []
        for i in range(n):
            alts.append((eqv(idx, i), self.padd(pv, i * size)))
        return PIte(alts)

    # ------------------------------------------------------------- touch / universals
    def touch(self, fam, idx):
        u = self.famuniv.get(fam)
        t = self.touched.get(fam)
        if t is None:
            t = self.touched[fam] = {}
        key = tuple(i if isinstance(i, int) else ("t", i.get_id()) for i in idx)
        if key in t:
            return
        t[key] = idx
        if u:
            for f in list(u):
                self.inst(f, idx)

    def inst(self, fact, idx):
        kind, fam, outer, n, pred, ctx, mem, guard = fact
        if kind == "all":
            self.inst_all(fact, idx)
        else:
            for other in list(self.touched.get(fam, {}).values()):
                if other is idx:
                    continue
                self.inst_pair(fact, idx, other)

    def inst_all(self, fact, idx):
        kind, fam, outer, n, pred, ctx, mem, guard = fact
        o = self.idxeq(idx[:-1], outer)
        if o is False:
            return
        inb = self.cmp("ult", idx[-1], n)
        c = And(guard, o, inb)
        if c is False or (c is not True and z3.is_false(z3.simplify(c))):
            return
        r = self.run_pred(pred, [Ptr(fam, idx, 0), ctx], mem, c)
        self.axiom(Implies(c, r))

    def inst_pair(self, fact, a, b):
        kind, fam, outer, n, pred, ctx, mem, guard = fact
        o = And(self.idxeq(a[:-1], outer), self.idxeq(b[:-1], outer))
        if o is False:
            return
        for x, y in ((a, b), (b, a)):
            c = And(guard, o, self.cmp("ult", x[-1], y[-1]), self.cmp("ult", y[-1], n))
            if c is False or (c is not True and z3.is_false(z3.simplify(c))):
                continue
            r = self.run_pred(pred, [Ptr(fam, x, 0), Ptr(fam, y, 0)], mem, c)
            self.axiom(Implies(c, r))

    def run_pred(self, pred, args, mem, pc):
        """evaluates a boolean function on a snapshot of memory"""
        self.quiet += 1
        sc, self.nrec = self.nrec, None
        try:
            st = State((pc,) if pc is not True else (), dict(mem))
            r, _ = self.call_fn(pred, args, st)
        finally:
            self.quiet -= 1
            self.nrec = sc
        if r is None:
            return True
        return self.tobool(r)

    def tobool(self, r):
        if isinstance(r, (bool, z3.BoolRef)):
            return r
        if isinstance(r, int):
            return r & 1 == 1
        return z3.Extract(0, 0, r) == 1

    def add_universal(self, st, kind, reg, n, pred, ctx=None):
        for g, r in self.alts(reg):
            if not isinstance(r, Ptr):
                import externs
                r = externs.region_of(self, r)
            fam, outer = r.fam, r.idx
            guard = And(*(st.pc + ((g,) if g is not True else ())))
            fn = self.fnname(pred)
            # identical fact already known?
            for f in self.famuniv.get(fam, []):
                if f[0] == kind and f[4] is fn and all(same(x, y) for x, y in zip(f[2], outer)) and same(f[3], n) and kind == "pair" and same(f[7], guard) and self.mem_same(f[6], st.mem, fam):
                    break
            else:
                fact = (kind, fam, outer, n, fn, ctx, dict(st.mem), guard)
                self.famuniv.setdefault(fam, []).append(fact)
                ts = list(self.touched.get(fam, {}).values())
                for k, i in enumerate(ts):
                    if kind == "all":
                        self.inst_all(fact, i)
                    else:
                        for j in ts[k + 1:]:
                            self.inst_pair(fact, i, j)
                for e in self.exposed:
                    self.touch(fam, outer + (e,))

    def mem_same(self, a, b, fam):
        for k, v in b.items():
            if k[0] is fam and not same(a.get(k), v):
                return False
        return True

    # ------------------------------------------------------------- generators
    def run_gen(self, fam, idx, off):
        gfam, fn, ctx, mem, gnd = fam.gen
        gidx = idx[:gnd]
        key = (gfam,) + tuple(i if isinstance(i, int) else ("t", i.get_id()) for i in gidx)
        ent = self.gencache.get(key)
        if ent is None:
            if (gfam, key) in self.genstack:
                return None
            self.quiet_assume = True
            st = State((), dict(mem))
            self.genstack.append((gfam, key))
            sg, self.genidx = self.genidx, gidx
            scount, self.gencount = getattr(self, "gencount", 0), 0
            sgf, self.genfam = getattr(self, "genfam", None), gfam
            self.quiet += 1
            sc, self.nrec = self.nrec, None
            try:
                _, st2 = self.call_fn(fn, [Ptr(gfam, gidx, 0), gidx[-1], ctx], st)
            finally:
                self.quiet -= 1
                self.genstack.pop()
                self.genidx = sg
                self.gencount = scount
                self.genfam = sgf
                self.nrec = sc
            if st2 is None:
                raise Undecided("generator does not return")
            ent = (st2.mem, gidx, st2.pc)
            self.gencache[key] = ent
            # assumptions made by the generator hold for every element in range
            inb = True if gfam.genn is None else self.cmp("ult", gidx[-1], gfam.genn)
            for c in st2.pc:
                self.axiom(Implies(inb, c))
        gmem = ent[0]
        v = gmem.get((fam, off))
        if v is None:
            return None
        if isinstance(v, Log):
            for g, i, x in reversed(v.ents):
                e = self.idxeq(idx, i)
                if e is True and g is True:
                    return x
            # inner dimension chosen symbolically
            if v.ents:
                r = None
                if v.base is not None and not isinstance(v.base, InitBase):
                    r = v.base.read(idx)
                for g, i, x in v.ents:
                    c = And(g, self.idxeq(idx, i))
                    if c is False:
                        continue
                    r = x if c is True else self.ite(c, x, r if r is not None else self.fresh("gen"))
                return r
            return None
        return v

    def new_fam(self, name, ndim_extra, kind, stride=0, size=0):
        """allocates a family; inside a generator it is indexed by the generator's index"""
        if self.genstack:
            self.gencount += 1
            k = (self.genfam, self.gencount, name)
            f = self.famlist.get(k)
            nd = len(self.genidx)
            if f is None:
                f = Fam("%s.%s%d" % (self.genfam.name, name, self.gencount), nd + ndim_extra, kind, stride, size)
                g = self.genfam.gen
                f.gen = (g[0], g[1], g[2], g[3], g[4])
                self.famlist[k] = f
            return f, self.genidx
        f = Fam(name, ndim_extra, kind, stride, size)
        f.birth = self.loopstamp
        return f, ()

    # ------------------------------------------------------------- strings
    def strtok(self, b):
        if len(b) == 0:
            return 0
        h = 0xcbf29ce484222325
        for c in b:
            h = ((h ^ c) * 0x100000001b3) & M64
        self.strconst[h] = bytes(b)
        return h

    def str_len(self, tok):
        if isinstance(tok, int):
            if tok == 0:
                return 0
            if tok in self.strconst:
                return len(self.strconst[tok])
        elif tok.get_id() in self.strfixed:
            return self.strfixed[tok.get_id()][1]
        t = bv(tok)
        r = self.strlen(t)
        if t.get_id() not in self.lenseen:
            self.lenseen.add(t.get_id())
            self.axiom((r == 0) == (t == 0))
            self.axiom(z3.ULT(r, 1 << 32))
        return r

    def str_fixed(self, tok):
        """length of a string where it is a constant"""
        if isinstance(tok, int):
            n = self.str_len(tok)
            return n if isinstance(n, int) else None
        r = self.strfixed.get(tok.get_id())
        return r[1] if r else None

    def str_part(self, tok, off, n):
        """the part of a concatenation which n bytes from offset off lie in"""
        while not isinstance(tok, int) and isinstance(off, int):
            p = self.strparts.get(tok.get_id())
            k = self.str_fixed(p[1]) if p else None
            if k is None:
                break
            if off >= k:
                tok, off = p[2], off - k
            elif isinstance(n, int) and off + n <= k:
                tok = p[1]
            else:
                break
        return tok, off

    def str_load(self, tok, off, n):
        tok, off = self.str_part(tok, off, n)
        if isinstance(tok, int) and tok in self.strconst and isinstance(off, int):
            b = self.strconst[tok] + b"\0" * 16
            return int.from_bytes(b[off:off + n], "little")
        f = z3.Function("str_bytes_%d" % n, z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8 * n))
        return f(bv(tok), bv(off))

    def str_bytes(self, st, p, n):
        p = self.toptr(p)
        res = None
        alts = self.alts(p)
        for g, v in alts:
            r = self.str_bytes1(st, v, n)
            res = r if res is None else self.ite(g, r, res)
        return res

    def str_bytes1(self, st, p, n):
        if isinstance(n, int) and n == 0:
            return 0
        if not isinstance(p, Ptr):
            return 0
        if p.fam.kind == "str":
            tok, off = self.str_part(p.idx[0], p.off, n)
            ln = self.str_len(tok)
            if same(off, 0) and same(n, ln):
                return tok
            if isinstance(tok, int) and tok in self.strconst and isinstance(off, int) and isinstance(n, int):
                return self.strtok(self.strconst[tok][off:off + n])
            f = z3.Function("str_sub", *([z3.BitVecSort(64)] * 4))
            r = f(bv(tok), bv(off), bv(n))
            self.axiom(Implies(And(eqv(off, 0), eqv(n, ln)), r == bv(tok)))
            self.axiom(Implies(eqv(n, 0), r == 0))
            self.axiom(Implies(z3.ULE(bv(off) + bv(n), bv(ln)), bv(self.str_len(r)) == bv(n)))
            return r
        if not isinstance(n, int):
            n2 = fold(n)
            if not isinstance(n2, int):
                # n is len of a token, data elsewhere: give up on the contents
                return self.fresh("strbytes")
            n = n2
        if p.fam.const is not None and isinstance(p.off, int):
            f, idx, off = self.norm(p)
            b = bytes(self.toint(self.load_bits(st, Ptr(f, idx, off + i), 1)) for i in range(n))
            return self.strtok(b)
        # bytes of an object
        words = []
        for o in range(0, n, 8):
            k = min(8, n - o)
            words.append(bv(self.toint(self.load_bits(st, self.padd(p, o), k)), k * 8))
        f = z3.Function("str_enc_%d" % n, *([z3.BitVecSort(w.size()) for w in words] + [z3.BitVecSort(64)]))
        r = f(*words)
        if r.get_id() not in self.lenseen:
            self.lenseen.add(r.get_id())
            self.strfixed[r.get_id()] = (r, n)
            self.axiom(self.strlen(r) == n)
            self.axiom(r != 0)
            for k, w in enumerate(words):
                g = z3.Function("str_bytes_%d" % (w.size() // 8), z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(w.size()))
                self.axiom(g(r, z3.BitVecVal(8 * k, 64)) == w)
        return r

    def str_concat(self, a, b):
        if isinstance(a, int) and a == 0:
            return b
        if isinstance(b, int) and b == 0:
            return a
        if isinstance(a, int) and isinstance(b, int) and a in self.strconst and b in self.strconst:
            return self.strtok(self.strconst[a] + self.strconst[b])
        f = z3.Function("str_cat", *([z3.BitVecSort(64)] * 3))
        r = f(bv(a), bv(b))
        if r.get_id() not in self.lenseen:
            self.lenseen.add(r.get_id())
            self.strparts[r.get_id()] = (r, a, b)
            if self.str_fixed(a) is not None and self.str_fixed(b) is not None:
                self.strfixed[r.get_id()] = (r, self.str_fixed(a) + self.str_fixed(b))
            self.axiom(bv(self.strlen(r)) == bv(self.str_len(a)) + bv(self.str_len(b)))
            self.axiom(Implies(eqv(a, 0), r == bv(b)))
            self.axiom(Implies(eqv(b, 0), r == bv(a)))
            if isinstance(a, int) or isinstance(b, int):
                g = z3.Function("str_uncat_%d" % (a if isinstance(a, int) else b), z3.BitVecSort(64), z3.BitVecSort(64))
                self.axiom(g(r) == bv(b if isinstance(a, int) else a))
        return r

    # ------------------------------------------------------------- arithmetic
    def cmp(self, pred, a, b, w=64):
        if isinstance(a, Scaled) and isinstance(b, Scaled) and a.k == b.k and pred in ("eq", "ne"):
            return self.cmp(pred, a.term, b.term)
        if isinstance(a, Scaled) and isinstance(b, int) and b == 0 and pred in ("eq", "ne"):
            return self.cmp(pred, a.term, 0)
        if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            if pred in ("eq", "ne"):
                a2 = a if isinstance(a, (Ptr, PIte, int)) else self.toptr(a)
                b2 = b if isinstance(b, (Ptr, PIte, int)) else self.toptr(b)
                e = self.peq(a2, b2)
                return e if pred == "eq" else Not(e)
            # same region: compare indices
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.fam is b.fam and len(a.idx) == len(b.idx) and len(a.idx) > 0 \
                    and all(same(x, y) for x, y in zip(a.idx[:-1], b.idx[:-1])) and same(a.off, b.off) and a.fam.kind == "region":
                return self.cmp(pred, a.idx[-1], b.idx[-1])
            a, b = self.toint(a), self.toint(b)
        if isinstance(a, (z3.BoolRef,)) or isinstance(b, (z3.BoolRef,)):
            if not isinstance(a, (bool, z3.BoolRef)):
                a = self.tobool(a)
            if not isinstance(b, (bool, z3.BoolRef)):
                b = self.tobool(b)
            if pred == "eq":
                return b if a is True else Not(b) if a is False else a if b is True else Not(a) if b is False else a == b
            if pred == "ne":
                return Not(self.cmp("eq", a, b))
            a, b = self.toint(a), self.toint(b)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        a, b = self.toint(a), self.toint(b)
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == "s":
                h = 1 << (w - 1)
                sa = a - (1 << w) if a & h else a
                sb = b - (1 << w) if b & h else b
                return {"slt": sa < sb, "sle": sa <= sb, "sgt": sa > sb, "sge": sa >= sb}[pred]
            return {"eq": a == b, "ne": a != b, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b}[pred]
        if isbv(a):
            w = a.size()
        else:
            w = b.size()
        x, y = bv(a, w), bv(b, w)
        if x.eq(y):
            return pred in ("eq", "ule", "uge", "sle", "sge")
        if pred == "eq":
            r = self.cmp_eq(x, y)
        elif pred == "ne":
            r = Not(self.cmp_eq(x, y))
        elif pred == "ult":
            r = z3.ULT(x, y)
        elif pred == "ule":
            r = z3.ULE(x, y)
        elif pred == "ugt":
            r = z3.UGT(x, y)
        elif pred == "uge":
            r = z3.UGE(x, y)
        elif pred == "slt":
            r = x < y
        elif pred == "sle":
            r = x <= y
        elif pred == "sgt":
            r = x > y
        else:
            r = x >= y
        return r

    def cmp_eq(self, x, y):
        # x == const where x is an If over constants
        if z3.is_bv_value(x):
            x, y = y, x
        if z3.is_bv_value(y) and z3.is_app_of(x, z3.Z3_OP_ITE):
            a, b = x.arg(1), x.arg(2)
            if z3.is_bv_value(a) and z3.is_bv_value(b):
                ea, eb = a.as_long() == y.as_long(), b.as_long() == y.as_long()
                c = x.arg(0)
                return True if ea and eb else False if not ea and not eb else c if ea else Not(c)
        if z3.is_bv_value(y) and z3.is_app_of(x, z3.Z3_OP_ZERO_EXT):
            i = x.arg(0)
            if y.as_long() >> i.size():
                return False
            return self.cmp_eq(i, z3.BitVecVal(y.as_long(), i.size()))
        return x == y

    def binop(self, op, a, b, w):
        if w == 1:
            a, b = self.tobool(a), self.tobool(b)
            if op == "and":
                return And(a, b)
            if op == "or":
                return Or(a, b)
            if op in ("xor", "add", "sub"):
                return Not(self.cmp("eq", a, b)) if not (isinstance(a, bool) and isinstance(b, bool)) else a != b
            raise Undecided("i1 " + op)
        if op == "sub" and isinstance(a, (Ptr, PIte)) and isinstance(b, (Ptr, PIte)):
            d = self.pdiff(a, b)
            if d is not None:
                return d
        if isinstance(a, Scaled) and op in ("sdiv", "udiv") and isinstance(b, int) and b == a.k:
            return a.term
        if isinstance(a, Scaled) and op in ("ashr", "lshr") and isinstance(b, int) and (1 << b) == a.k:
            return a.term
        if isinstance(a, Scaled) and op in ("ashr", "lshr", "sdiv") and isinstance(b, int):
            d = b if op == "sdiv" else 1 << b
            if a.k % d == 0:
                return Scaled(a.term, a.k // d) if a.k // d != 1 else a.term
        if isinstance(a, (Ptr, PIte)) and op in ("add", "sub") and not isinstance(b, (Ptr, PIte)):
            # integer arithmetic on an address
            a = self.toint(a)
        a, b = self.toint(a), self.toint(b)
        m = mask(w)
        if isinstance(a, int) and isinstance(b, int):
            if op == "add":
                return (a + b) & m
            if op == "sub":
                return (a - b) & m
            if op == "mul":
                return (a * b) & m
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return (a << b) & m if b < w else 0
            if op == "lshr":
                return a >> b
            if op == "ashr":
                sa = a - (1 << w) if a >> (w - 1) else a
                return (sa >> b) & m
            if op == "udiv":
                if b == 0:
                    raise Undecided("division by zero")
                return a // b
            if op == "urem":
                if b == 0:
                    raise Undecided("division by zero")
                return a % b
            if op in ("sdiv", "srem"):
                sa = a - (1 << w) if a >> (w - 1) else a
                sb = b - (1 << w) if b >> (w - 1) else b
                q = abs(sa) // abs(sb)
                q = q if (sa < 0) == (sb < 0) else -q
                return (q & m) if op == "sdiv" else ((sa - q * sb) & m)
        if op in ("add", "or", "xor") and isinstance(a, int) and a == 0:
            return b
        if op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr") and isinstance(b, int) and b == 0:
            return a
        if op == "and" and (same(a, 0) or same(b, 0)):
            return 0
        if op == "and" and isinstance(b, int) and b == m:
            return a
        x, y = bv(a, w), bv(b, w)
        r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y,
             "or": lambda: x | y, "xor": lambda: x ^ y, "shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y),
             "ashr": lambda: x >> y, "udiv": lambda: z3.UDiv(x, y), "urem": lambda: z3.URem(x, y),
             "sdiv": lambda: x / y, "srem": lambda: z3.SRem(x, y)}[op]()
        if op in ("add", "sub", "and", "or", "shl", "lshr", "xor") and (isinstance(a, int) or isinstance(b, int)):
            return fold(r)
        return r

    def pdiff(self, a, b):
        aa, bb = self.alts(a), self.alts(b)
        res = None
        k0 = None
        for g, x in aa:
            for h, y in bb:
                if not (isinstance(x, Ptr) and isinstance(y, Ptr)) or x.fam is not y.fam or len(x.idx) != len(y.idx):
                    continue
                if x.fam.kind == "region" and len(x.idx) == x.fam.ndim and same(x.off, y.off):
                    d = fold(bv(x.idx[-1]) - bv(y.idx[-1]))
                    k = x.fam.stride
                    if isinstance(d, int) and len(aa) == 1 and len(bb) == 1:
                        return (d * k) & M64
                elif isinstance(x.off, int) and isinstance(y.off, int):
                    d, k = (x.off - y.off) & M64, 1
                else:
                    d, k = fold(bv(x.off) - bv(y.off)), 1
                if k0 is None:
                    k0 = k
                elif k0 != k:
                    return None
                res = d if res is None else self.ite(And(g, h), d, res)
        if res is None:
            return None
        return Scaled(res, k0) if k0 != 1 else res

    # ------------------------------------------------------------- constants
    def gptr(self, name, mod):
        if name in mod.aliases:
            name = mod.aliases[name]
        f = mod.funcs.get(name)
        if f is not None:
            k = name if f.decl or not self.islocal(f) else (mod.path, name)
            fam = self.ffam.get(k)
            if fam is None:
                fam = Fam(name, 0, "func")
                fam.size = mod
                self.ffam[k] = fam
            return Ptr(fam, (), 0)
        g = mod.globals.get(name)
        if g is None:
            raise Undecided("unknown global " + name)
        local = g.init is not None and llvm.GetLinkage(g.ptr) in (8, 9)
        k = (mod.path, name) if local else name
        fam = self.gfam.get(k)
        if fam is None:
            d = g if g.init is not None else self.p.gdefs.get(name, g)
            fam = Fam(name, 0, "global")
            fam.ty = d.mod.ty(d.ty)
            fam.size = fam.ty.size
            if d.const and d.init is not None and not name.startswith("_ZTV"):
                fam.const = self.const_reader(d)
            elif d.const and d.init is not None:
                fam.const = self.const_reader(d)
            self.gfam[k] = fam
        return Ptr(fam, (), 0)

    def islocal(self, f):
        return llvm.GetLinkage(f.ptr) in (8, 9)

    def const_reader(self, g):
        cells = {}
        state = {"done": False}

        def put(off, n, v):
            if isinstance(v, int):
                for i in range(n):
                    o = off + i
                    cells.setdefault(o & ~7, {})[o & 7] = (v >> (8 * i)) & 255
            else:
                cells[off] = v

        def walk(c, ty, off):
            k = c[0]
            if k == "i":
                put(off, ty.size, c[1])
            elif k == "zero":
                for i in range(0, ty.size):
                    put(off + i, 1, 0)
            elif k == "agg":
                t = c[1]
                for i, e in enumerate(c[2]):
                    if t.kind == "struct":
                        walk(e, t.elems[i], off + t.offs[i])
                    else:
                        walk(e, t.elem, off + i * (t.size // t.n))
            elif k in ("g", "cgep", "cexpr"):
                put(off, 8, self.constval(c, ty, g.mod))
            elif k == "undef":
                pass

        def rd(off):
            if not state["done"]:
                state["done"] = True
                walk(g.mod.const(g.init), g.mod.ty(g.ty), 0)
            v = cells.get(off)
            if v is None:
                return 0
            if isinstance(v, dict):
                return sum(b << (8 * i) for i, b in v.items())
            return v
        return rd

    def constval(self, c, ty, mod):
        k = c[0]
        if k == "i":
            return bool(c[1]) if c[2] == 1 else c[1]
        if k == "g":
            return self.gptr(c[1], mod)
        if k == "zero":
            t = c[1]
            return self.zeroval(t)
        if k == "undef":
            t = c[1]
            return self.undefval(t)
        if k == "agg":
            t = c[1]
            return Agg([self.constval(e, None, mod) for e in c[2]])
        if k == "cgep":
            b = self.constval(c[2][0], None, mod)
            return self.gep(None, b, c[1], [self.constval(e, None, mod) for e in c[2][1:]])
        if k == "cexpr":
            if c[1] in ("bitcast", "inttoptr", "ptrtoint", "addrspacecast"):
                return self.constval(c[3][0], None, mod)
            if c[1] in ("add", "sub"):
                return self.binop(c[1], self.toint(self.constval(c[3][0], None, mod)), self.toint(self.constval(c[3][1], None, mod)), 64)
        if k == "fp":
            return ("fp", c[1])
        raise Undecided("constant %s" % (str(c)[:80],))

    def zeroval(self, t):
        if t.kind == "int":
            return False if t.width == 1 else 0
        if t.kind == "ptr":
            return 0
        if t.kind == "struct":
            return Agg([self.zeroval(e) for e in t.elems])
        if t.kind == "array":
            return Agg([self.zeroval(t.elem) for _ in range(t.n)])
        if t.kind == "fp":
            return ("fp", "0")
        return 0

    def undefval(self, t):
        if t.kind == "int":
            return self.fresh("undef", t.width)
        if t.kind == "struct":
            return Agg([self.undefval(e) for e in t.elems])
        if t.kind == "array":
            return Agg([self.undefval(t.elem) for _ in range(t.n)])
        return 0

    # ------------------------------------------------------------- gep
    def gep(self, st, base, src, idxs):
        p = self.toptr(base)
        i0 = idxs[0]
        if not (isinstance(i0, int) and i0 == 0):
            p = self.pmul(p, i0, src.size if src.kind != "int" else (src.width + 7) // 8)
        t = src
        for i in idxs[1:]:
            if t.kind == "struct":
                p = self.padd(p, t.offs[i])
                t = t.elems[i]
            elif t.kind == "array":
                es = t.size // t.n if t.n else t.elem.size
                if isinstance(i, bool):
                    i = int(i)
                if isinstance(p, Ptr) and p.fam.kind == "region" and p.fam.parent is not None and p.fam.stride == es and t.n > 32:
                    p = self.pmul(p, i, es)
                elif t.n > 32 or not isinstance(i, int):
                    p = self.subarray(p, es, t.n, st, i)
                else:
                    p = self.padd(p, i * es)
                t = t.elem
            else:
                raise Undecided("gep into %r" % t)
        return p

    # ------------------------------------------------------------- CFG
    def analyse(self, fn):
        if fn.info is not None:
            return fn.info
        n = len(fn.blocks)
        succ = []
        for b in fn.blocks:
            t = b[-1]
            if t.op == "br":
                s = list(t.x)
            elif t.op == "switch":
                s = [t.x[0]] + [x for _, x in t.x[1]]
            elif t.op == "invoke":
                s = [t.x[2]]
            else:
                s = []
            succ.append(list(dict.fromkeys(s)))
        order, seen = [], [False] * n
        stack = [(0, iter(succ[0]))]
        seen[0] = True
        while stack:
            b, it = stack[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True
                    stack.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                pred[s].append(b)
        idom = {rpo[0]: rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                nw = ps[0]
                for p in ps[1:]:
                    a, c = p, nw
                    while a != c:
                        while num[a] > num[c]:
                            a = idom[a]
                        while num[c] > num[a]:
                            c = idom[c]
                    nw = a
                if idom.get(b) != nw:
                    idom[b] = nw
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == rpo[0]:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if num[s] <= num[b]:
                    if not dom(s, b):
                        raise Undecided("irreducible control flow in " + fn.name)
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(pred[x])
        fn.info = (rpo, succ, loops)
        return fn.info

    # ------------------------------------------------------------- merging
    def merge_states(self, a, b):
        """a, b: states with disjoint path conditions"""
        pa, pb = a.pc, b.pc
        k = 0
        while k < len(pa) and k < len(pb) and pa[k].eq(pb[k]):
            k += 1
        ra, rb = pa[k:], pb[k:]
        ca = And(*ra)
        cb = And(*rb)
        if ca is True or cb is True:
            # one path condition contains the other
            cond = Not(cb) if ca is True else ca
            pc = pa[:k]
        else:
            cond = ca
            if len(ra) == 1 and len(rb) == 1 and (ra[0].eq(Not(rb[0])) or Not(ra[0]).eq(rb[0])):
                pc = pa[:k]
            else:
                o = None
                # factor the complementary first conjunct
                if ra[0].eq(Not(rb[0])) or Not(ra[0]).eq(rb[0]):
                    cond = ra[0]
                o = Or(ca, cb)
                pc = pa[:k] + (o,)
        mem = {}
        ma, mb = a.mem, b.mem
        if ma is mb:
            mem = ma
        else:
            for key in ma.keys() | mb.keys():
                x, y = ma.get(key), mb.get(key)
                if x is y:
                    mem[key] = x
                    continue
                mem[key] = self.merge_cell(key, cond, x, y)
        return State(pc, mem), cond

    def merge_cell(self, key, cond, x, y):
        if isinstance(x, Log) or isinstance(y, Log):
            if x is None:
                x = self.base_for(*key)
            if y is None:
                y = self.base_for(*key)
            if same(x, y):
                return x
            if x.base is not y.base:
                # bases differ (loop havoc on one side): combine lazily
                return Log(IteBase(self, cond, x, y))
            i = 0
            while i < len(x.ents) and i < len(y.ents) and (x.ents[i] is y.ents[i]):
                i += 1
            ents = list(x.ents[:i])
            for g, ix, v in x.ents[i:]:
                ents.append((And(cond, g), ix, v))
            nc = Not(cond)
            for g, ix, v in y.ents[i:]:
                ents.append((And(nc, g), ix, v))
            # combine adjacent writes at the same index
            out = []
            for e in ents:
                for k in range(len(out) - 1, -1, -1):
                    o = out[k]
                    if all(same(p, q) for p, q in zip(o[1], e[1])) and not isinstance(o[0], bool) and not isinstance(e[0], bool) \
                            and k >= i and all(self.idxdisj(o2[1], e[1]) for o2 in out[k + 1:]):
                        out[k] = (Or(o[0], e[0]), o[1], self.ite(e[0], e[2], o[2]))
                        g = z3.simplify(out[k][0])
                        if z3.is_true(g):
                            out[k] = (True, out[k][1], out[k][2])
                        break
                else:
                    out.append(e)
            # entries shadowed: keep removals only when x and y both dropped them
            return Log(x.base, tuple(out))
        if x is None:
            x = self.init_key(key)
        if y is None:
            y = self.init_key(key)
        return self.ite(cond, x, y)

    def idxdisj(self, a, b):
        return self.idxeq(a, b) is False

    def init_key(self, key):
        if isinstance(key[0], Fam):
            return self.initial_scalar(key[0], key[1])
        return 0

    def merge_edges(self, edges, fr=None):
        e0 = edges[0]
        if len(edges) == 1:
            return e0
        st, phis = e0.st, e0.phis
        w = {}
        if fr is not None:
            for i in fr.fn.blocks[e0.tgt]:
                if i.op != "phi":
                    break
                w[i.res] = i.ty.width or 64
        for e in edges[1:]:
            st2, cond = self.merge_states(st, e.st)
            ph = {}
            for r in phis:
                ph[r] = self.ite(cond, phis[r], e.phis[r], w.get(r, 64))
            st, phis = st2, ph
        return Edge(e0.tgt, st, phis)

    # ------------------------------------------------------------- execution
    def fnname(self, v):
        v = self.toptr(v)
        if isinstance(v, Ptr) and v.fam.kind == "func":
            f = self.p.func(v.fam.name, v.fam.size)
            if f is None:
                raise Undecided("no body for " + v.fam.name)
            return f
        raise Undecided("call through unknown pointer %r" % (v,))

    def call_fn(self, fn, args, st):
        """returns (value, state) or (None, None) when no path returns"""
        if isinstance(fn, (Ptr, PIte)):
            fn = self.fnname(fn)
        self.depth += 1
        if self.depth > 120:
            raise Undecided("call depth in " + fn.name)
        if len(self.callstack) > 3 and self.callstack.count(fn.name) > self.o.get("recursion", 3):
            raise Undecided("recursion in " + fn.name)
        self.callstack.append(fn.name)
        self.visited[fn.name] = self.visited.get(fn.name, 0) + 1
        fr = Frame()
        fr.fn, fr.mod, fr.regs, fr.rets = fn, fn.mod, {}, []
        fr.curloop = None
        for p, a in zip(fn.params, args):
            fr.regs[p] = a
        rpo, succ, loops = self.analyse(fn)
        e = Edge(0, st, {})
        self.run_region(fr, None, 0, [e])
        self.callstack.pop()
        self.depth -= 1
        if not fr.rets:
            return None, None
        m = self.merge_edges([Edge(-1, s, {"ret": v}) for v, s in fr.rets])
        return m.phis["ret"], m.st

    def run_region(self, fr, loop, entry, in_edges):
        rpo, succ, loops = fr.fn.info
        blocks = loops[loop] if loop is not None else None
        pend = {entry: list(in_edges)}
        exits, backs = [], []
        started = False
        for b in rpo:
            if b not in pend:
                continue
            edges = pend.pop(b)
            if b in loops and b != loop:
                outs = self.run_loop(fr, b, edges)
            else:
                outs = self.run_block(fr, b, self.merge_edges(edges, fr))
            for e in outs:
                if loop is not None and e.tgt == loop:
                    backs.append(e)
                elif blocks is not None and e.tgt not in blocks:
                    exits.append(e)
                else:
                    pend.setdefault(e.tgt, []).append(e)
        if pend:
            raise Undecided("control flow order in " + fr.fn.name)
        return exits, backs

    def val(self, fr, c, ty=None):
        if c[0] == "r":
            return fr.regs[c[1]]
        return self.constval(c, ty, fr.mod)

    def edge(self, fr, b, tgt, st):
        phis = {}
        for i in fr.fn.blocks[tgt]:
            if i.op != "phi":
                break
            for v, pb in i.a:
                if pb == b:
                    phis[i.res] = self.val(fr, v, i.ty)
                    break
        return Edge(tgt, st, phis)

    def run_block(self, fr, b, e):
        st = e.st.copy()
        regs = fr.regs
        regs.update(e.phis)
        self.cur = st
        for ins in fr.fn.blocks[b]:
            op = ins.op
            if op == "phi":
                continue
            if op == "br":
                if not ins.a:
                    return [self.edge(fr, b, ins.x[0], st)]
                c = self.tobool(self.val(fr, ins.a[0]))
                return self.branch(fr, b, st, c, ins.x[0], ins.x[1])
            if op == "switch":
                return self.switch(fr, b, st, ins)
            if op == "ret":
                fr.rets.append((self.val(fr, ins.a[0]) if ins.a else None, st))
                return []
            if op in ("unreachable", "resume"):
                return []
            r = self.step(fr, ins, st)
            if r is False:
                return []
            if op == "invoke":
                return [self.edge(fr, b, ins.x[2], st)]
        raise Undecided("block without terminator")

    def branch(self, fr, b, st, c, t, f):
        if not isinstance(c, bool):
            c = z3.simplify(c) if self.small(c) else c
            if z3.is_true(c):
                c = True
            elif z3.is_false(c):
                c = False
        if c is True or t == f:
            return [self.edge(fr, b, t, st)]
        if c is False:
            return [self.edge(fr, b, f, st)]
        nc = Not(c)
        ft = self.feasible(st.pc, c)
        ff = self.feasible(st.pc, nc) if ft else True
        if ft and not ff:
            return [self.edge(fr, b, t, st)]
        if ff and not ft:
            return [self.edge(fr, b, f, st)]
        s2 = st.copy()
        e1 = self.edge(fr, b, t, st)
        e2 = self.edge(fr, b, f, s2)
        st.pc = st.pc + (c,)
        s2.pc = s2.pc + (nc,)
        return [e1, e2]

    @staticmethod
    def small(c):
        return True

    def switch(self, fr, b, st, ins):
        v = self.val(fr, ins.a[0])
        dflt, cases, ty = ins.x
        w = ty.width
        by = {}
        for cv, tgt in cases:
            by.setdefault(tgt, []).append(self.cmp("eq", v, cv[1], w))
        outs = []
        rest = []
        taken = False
        for tgt, cs in by.items():
            c = Or(*cs)
            if not isinstance(c, bool):
                c = z3.simplify(c)
                c = True if z3.is_true(c) else False if z3.is_false(c) else c
            if c is True:
                return [self.edge(fr, b, tgt, st)]
            if c is False:
                continue
            rest.append(Not(c))
            if tgt == dflt:
                continue
            if self.feasible(st.pc, c):
                s2 = st.copy()
                s2.pc = s2.pc + (c,)
                outs.append(self.edge(fr, b, tgt, s2))
        # default (also targets equal to default)
        others = [Not(Or(*cs)) for tgt, cs in by.items() if tgt != dflt]
        d = And(*others)
        if d is not False and (d is True or self.feasible(st.pc, d)):
            s2 = st.copy()
            if d is not True:
                s2.pc = s2.pc + (d,)
            outs.append(self.edge(fr, b, dflt, s2))
        return outs

    # ------------------------------------------------------------- instructions
    def step(self, fr, ins, st):
        op = ins.op
        regs = fr.regs
        if op in ("call", "invoke"):
            return self.do_call(fr, ins, st)
        if op == "load":
            p = self.val(fr, ins.a[0])
            if ins.x[1]:
                self.interfere(st, p, ins.ty.size)
            regs[ins.res] = self.load(st, p, ins.ty)
        elif op == "store":
            v = self.val(fr, ins.a[0], ins.x[0])
            p = self.val(fr, ins.a[1])
            if self.shared:
                self.shared_write(st, p, ins.x[0], v)
            else:
                self.store(st, p, ins.x[0], v)
        elif op == "alloca":
            f, idx = self.new_fam("st." + fr.fn.name[-24:], 0, "obj", 0, ins.x.size)
            f.ty = ins.x
            regs[ins.res] = Ptr(f, idx, 0)
        elif op == "getelementptr":
            base = self.val(fr, ins.a[0])
            idx = []
            for a, t in zip(ins.a[1:], ins.x[1]):
                v = self.val(fr, a)
                if isinstance(v, bool):
                    v = int(v)
                if t.width < 64:
                    v = self.cast("sext", v, t.width, 64)
                idx.append(v)
            regs[ins.res] = self.gep(st, base, ins.x[0], idx)
        elif op == "icmp":
            a, b = self.val(fr, ins.a[0]), self.val(fr, ins.a[1])
            ty = ins.x[1]
            r = self.cmp(ins.x[0], a, b, ty.width or 64)
            regs[ins.res] = r
        elif op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            regs[ins.res] = self.binop(op, self.val(fr, ins.a[0]), self.val(fr, ins.a[1]), ins.ty.width)
        elif op in ("zext", "sext", "trunc"):
            regs[ins.res] = self.cast(op, self.val(fr, ins.a[0]), ins.x.width, ins.ty.width)
        elif op in ("bitcast", "ptrtoint", "inttoptr", "freeze", "addrspacecast"):
            v = self.val(fr, ins.a[0])
            if op == "inttoptr":
                v = self.toptr(v)
            regs[ins.res] = v
        elif op == "select":
            c = self.tobool(self.val(fr, ins.a[0]))
            regs[ins.res] = self.ite(c, self.val(fr, ins.a[1]), self.val(fr, ins.a[2]), ins.ty.width or 64)
        elif op == "extractvalue":
            v = self.val(fr, ins.a[0])
            for i in ins.x[0]:
                v = v.v[i]
            regs[ins.res] = v
        elif op == "insertvalue":
            v = self.val(fr, ins.a[0])
            regs[ins.res] = self.insval(v, ins.x[0], self.val(fr, ins.a[1]))
        elif op == "cmpxchg":
            p, exp, new = (self.val(fr, a) for a in ins.a)
            ty = ins.ty.elems[0]
            self.interfere(st, p, ty.size)
            old = self.load(st, p, ty)
            ok = self.cmp("eq", old, exp, ty.width)
            if ins.x[2]:
                ok = And(ok, self.fresh("weak", 1))
            nv = self.ite(ok, new, old, ty.width)
            self.shared_write(st, p, ty, nv, ok)
            regs[ins.res] = Agg([old, ok])
        elif op == "atomicrmw":
            p, v = self.val(fr, ins.a[0]), self.val(fr, ins.a[1])
            self.interfere(st, p, ins.ty.size)
            old = self.load(st, p, ins.ty)
            if ins.x == "xchg":
                nv = v
            elif ins.x in ("add", "sub", "and", "or", "xor"):
                nv = self.binop(ins.x, old, v, ins.ty.width)
            else:
                raise Undecided("atomicrmw " + ins.x)
            self.shared_write(st, p, ins.ty, nv)
            regs[ins.res] = old
        elif op == "fence":
            pass
        elif op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "uitofp", "sitofp", "fpext", "fptrunc", "frem"):
            regs[ins.res] = ("fpx", op)
        elif op in ("fptoui", "fptosi"):
            regs[ins.res] = self.fresh("fp", ins.ty.width)
        elif op == "fcmp":
            regs[ins.res] = self.fresh("fcmp", 1)
        elif op == "landingpad":
            regs[ins.res] = Agg([0, 0])
        else:
            raise Undecided("instruction " + op)
        return True

    def insval(self, v, path, x):
        if not path:
            return x
        vs = list(v.v) if isinstance(v, Agg) else [0] * (path[0] + 1)
        while len(vs) <= path[0]:
            vs.append(0)
        vs[path[0]] = self.insval(vs[path[0]], path[1:], x)
        return Agg(vs)

    def cast(self, op, v, fw, tw):
        if isinstance(v, bool):
            v = int(v)
            if op == "sext":
                return mask(tw) if v else 0
        if isinstance(v, z3.BoolRef):
            if op == "trunc":
                return v
            return z3.If(v, z3.BitVecVal(1 if op == "zext" else mask(tw), tw), z3.BitVecVal(0, tw))
        if isinstance(v, (Ptr, PIte, Scaled)):
            if op != "trunc":
                return v
            v = self.toint(v)
        if isinstance(v, tuple):
            v = self.fresh("fp", fw)
        if isinstance(v, int):
            if op == "zext":
                return v
            if op == "trunc":
                return bool(v & 1) if tw == 1 else v & mask(tw)
            return (v - (1 << fw)) & mask(tw) if v >> (fw - 1) else v
        if op == "trunc":
            if tw == 1:
                if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_bv_value(v.arg(1)) and z3.is_bv_value(v.arg(2)):
                    return self.ite(v.arg(0), bool(v.arg(1).as_long() & 1), bool(v.arg(2).as_long() & 1))
                if z3.is_app_of(v, z3.Z3_OP_ZERO_EXT) or z3.is_app_of(v, z3.Z3_OP_EXTRACT) or z3.is_app_of(v, z3.Z3_OP_CONCAT):
                    e = z3.simplify(z3.Extract(0, 0, v) == 1)
                    return True if z3.is_true(e) else False if z3.is_false(e) else e
                return z3.Extract(0, 0, v) == 1
            r = z3.Extract(tw - 1, 0, v)
            if v.decl().kind() in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_CONCAT, z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ITE):
                r = z3.simplify(r) if v.decl().kind() != z3.Z3_OP_ITE else r
            return r
        if op == "zext":
            return z3.ZeroExt(tw - fw, v)
        return z3.SignExt(tw - fw, v)

    # ------------------------------------------------------------- interference
    def interfere(self, st, p, size):
        if not self.shared:
            return
        self.model_interference(st, p, size)

    def model_interference(self, st, p, size):
        for parts, rely, guar in self.shared:
            hit = Or(*[self.overlaps(p, size, sp, n) for sp, n in parts])
            if hit is False:
                continue
            # other threads act: the whole object takes a new value allowed by rely
            old = self.snapshot_obj(st, parts)
            for sp, n in parts:
                for o in range(0, n, 8):
                    v = self.fresh("env")
                    cur = self.load_bits(st, self.padd(sp, o), 8)
                    self.store_bits(st, self.padd(sp, o), 8, self.ite(hit, v, self.toint(cur)))
            r = self.run_pred(rely, [old, self.snapshot_obj(st, parts)], st.mem, True)
            st.pc = st.pc + ((r,) if r is not True else ())

    def snapshot_obj(self, st, parts):
        if len(parts) == 1 and False:
            return parts[0][0]
        f, idx = self.new_fam("snap", 0, "obj", 0, sum(n for _, n in parts))
        q = Ptr(f, idx, 0)
        pos = 0
        for p, n in parts:
            for o in range(0, n, 8):
                self.store_bits(st, self.padd(q, pos), 8, self.load_bits(st, self.padd(p, o), 8))
                pos += 8
        return q

    def overlaps(self, p, size, sp, n):
        p = self.toptr(p)
        res = []
        for g, x in self.alts(p):
            if not isinstance(x, Ptr):
                continue
            f, idx, off = self.norm(x)
            f2, idx2, off2 = self.norm(sp)
            if f is not f2:
                if f2.parent is not None and f2.parent[0] is f and off < f2.parent[1] + f2.stride * f2.parent[2] and f2.parent[1] < off + size:
                    res.append(And(g, self.idxeq(idx, idx2[:-1])))
                continue
            if off + size <= off2 or off2 + n <= off:
                continue
            res.append(And(g, self.idxeq(idx, idx2)))
        return Or(*res)

    def shared_write(self, st, p, ty, v, cond=True):
        hits = self.shared_before(st, p, ty.size, cond)
        self.store(st, p, ty, v)
        self.shared_after(st, hits)

    def shared_before(self, st, p, size, cond=True):
        hits = []
        for sh in self.shared:
            parts, rely, guar = sh
            if guar is None:
                continue
            hit = Or(*[self.overlaps(p, size, sp, n) for sp, n in parts])
            if hit is False:
                continue
            hits.append((sh, And(hit, cond), self.snapshot_obj(st, parts)))
        return hits

    def shared_after(self, st, hits):
        for (parts, rely, guar), hit, old in hits:
            r = self.run_pred(guar, [old, self.snapshot_obj(st, parts)], st.mem, True)
            self.oblige(st, Implies(hit, r), "guarantee of shared writes", "guar")

    # ------------------------------------------------------------- obligations
    def oblige(self, st, cond, name, kind="assert"):
        if self.quiet:
            return
        rec = {"name": name, "kind": kind, "fn": self.callstack[-1] if self.callstack else ""}
        t = time.time()
        if not isinstance(cond, bool):
            c2 = z3.simplify(cond)
            if z3.is_true(c2):
                cond = True
        if cond is True:
            rec["res"] = "proved"
            rec["how"] = "simplifier"
        else:
            neg = Not(cond)
            r = self.check(list(st.pc) + [neg], self.o.get("obl_ms", 20000))
            if r == z3.unsat:
                rec["res"] = "proved"
                rec["how"] = "z3"
            else:
                r2 = r
                if r == z3.unknown:
                    r2 = self.second_opinion(list(st.pc) + [neg])
                if r2 == z3.unsat:
                    rec["res"] = "proved"
                    rec["how"] = "z3-fresh"
                else:
                    rec["res"] = "failed" if r2 == z3.sat else "unknown"
                    rec["query"] = list(st.pc) + [neg]
                    rec["nax"] = len(self.axioms)
        rec["t"] = time.time() - t
        self.obls.append(rec)
        if rec["res"] != "proved" and cond is not False:
            st.pc = st.pc + (cond,)
        return rec["res"] == "proved"

    def second_opinion(self, conds):
        s = z3.SolverFor("QF_UFBV")
        s.set("timeout", self.o.get("obl_ms", 20000))
        for a in self.axioms:
            s.add(a)
        for c in conds:
            s.add(zb(c))
        t = time.time()
        r = s.check()
        self.tsolver += time.time() - t
        return r

    def get_model(self, rec):
        s = z3.Solver()
        s.set("timeout", self.o.get("obl_ms", 20000))
        for a in self.axioms:
            s.add(a)
        for c in rec["query"]:
            s.add(zb(c))
        if s.check() != z3.sat:
            return None
        return s.model()

    # ------------------------------------------------------------- calls
    def do_call(self, fr, ins, st):
        import externs
        callee = ins.x[0]
        if callee[0] == "asm":
            if ins.ty.kind != "void":
                fr.regs[ins.res] = self.havoc_ty(ins.ty, "asm")
            return True
        args = [self.val(fr, a, t) for a, t in zip(ins.a, ins.x[1])]
        if callee[0] == "g":
            name = callee[1]
            if name in fr.mod.aliases:
                name = fr.mod.aliases[name]
            return self.invoke_name(fr, ins, st, name, args, fr.mod)
        v = self.toptr(self.val(fr, callee))
        alts = [(g, x) for g, x in self.alts(v)]
        alts = [(g, x) for g, x in alts if isinstance(x, Ptr) and x.fam.kind == "func" and (g is True or self.feasible(st.pc, g))]
        if not alts:
            raise Undecided("indirect call to unknown target in %s" % fr.fn.name)
        if len(alts) == 1:
            x = alts[0][1]
            return self.invoke_name(fr, ins, st, x.fam.name, args, x.fam.size)
        raise Undecided("indirect call with several targets")

    def invoke_name(self, fr, ins, st, name, args, mod):
        import externs
        ov = self.overrides.get(name)
        if ov is not None and ov not in self.callstack:
            self.assumed.add(name)
            f = self.p.func(ov)
            if f is None:
                raise Undecided("missing contract function " + ov)
            r, s2 = self.call_fn(f, args, st)
            return self.after_call(fr, ins, st, r, s2)
        h = externs.TABLE.get(name) or externs.lookup(name)
        if h is not None:
            r = h(self, st, args, ins, name)
            if r is externs.STOP:
                return False
            if ins.ty.kind != "void":
                fr.regs[ins.res] = self.fit(r, ins.ty) if ins.ty.kind in ("int",) and not isinstance(r, Agg) else r
            return True
        f = self.p.func(name, mod)
        if f is None:
            self.externals.add(name)
            h = externs.default(name)
            if h is None:
                raise Undecided("external function " + name)
            r = h(self, st, args, ins, name)
            if r is externs.STOP:
                return False
            if ins.ty.kind != "void":
                fr.regs[ins.res] = r
            return True
        self.timeleft()
        r, s2 = self.call_fn(f, args, st)
        return self.after_call(fr, ins, st, r, s2)

    def after_call(self, fr, ins, st, r, s2):
        if s2 is None:
            return False
        st.pc, st.mem = s2.pc, s2.mem
        if ins.ty.kind != "void":
            fr.regs[ins.res] = r
        return True

    def havoc_ty(self, t, name="h"):
        if t.kind == "int":
            return self.fresh(name, t.width)
        if t.kind == "ptr":
            return Ptr(self.unkfam(), (self.fresh(name),), 0)
        if t.kind == "struct":
            return Agg([self.havoc_ty(e, name) for e in t.elems])
        if t.kind == "array":
            return Agg([self.havoc_ty(t.elem, name) for _ in range(t.n)])
        if t.kind == "fp":
            return ("fpx", name)
        return None

    # ------------------------------------------------------------- loops
    def run_loop(self, fr, h, edges):
        import loops
        return loops.run_loop(self, fr, h, edges)

    def shape_value(self, shape, name, idx=None):
        """an arbitrary value of the given shape.  shape: ('bv',w) | ('bool',) |
        ('ptr', [(fam, off, template idx with None for unknown)], maynull) | ('agg', [...])"""
        k = shape[0]
        if k == "bv":
            if idx is None:
                return self.fresh(name, shape[1])
            f = z3.Function("hv_%s" % name, *([z3.BitVecSort(64)] * len(idx) + [z3.BitVecSort(shape[1])]))
            return f(*[bv(i) for i in idx])
        if k == "bool":
            if idx is None:
                return self.fresh(name, 1)
            f = z3.Function("hvb_%s" % name, *([z3.BitVecSort(64)] * len(idx) + [z3.BoolSort()]))
            return f(*[bv(i) for i in idx])
        if k == "agg":
            return Agg([self.shape_value(s, "%s_%d" % (name, i), idx) for i, s in enumerate(shape[1])])
        if k == "const":
            return shape[1]
        if k == "scaled":
            return Scaled(self.shape_value(("bv", 64), name, idx), shape[1])
        opts = shape[1]
        vals = []
        for n, (fam, off, tmpl) in enumerate(opts):
            ix = []
            for d, t in enumerate(tmpl):
                ix.append(self.shape_value(("bv", 64), "%s_i%d_%d" % (name, n, d), idx) if t is None else t)
            vals.append(Ptr(fam, tuple(ix), off))
        if shape[2]:
            vals.append(0)
        if len(vals) == 1:
            return vals[0]
        sel = self.shape_value(("bv", 64), name + "_sel", idx)
        alts = []
        for n, v in enumerate(vals):
            alts.append((sel == n if n + 1 < len(vals) else z3.UGE(sel, n), v))
        return PIte(alts)


class IteBase:
    __slots__ = ("eng", "cond", "a", "b")

    def __init__(self, eng, cond, a, b):
        self.eng, self.cond, self.a, self.b = eng, cond, a, b

    def read(self, idx):
        return self.eng.ite(self.cond, self.eng.logread(self.a, idx), self.eng.logread(self.b, idx))
