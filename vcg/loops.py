"""Loops: concrete unrolling, or a cut with an inductive invariant found by
eliminating candidate predicates that do not hold on entry or are not preserved."""
import re
import time

import z3
from sym import (Undecided, Fam, Ptr, PIte, Scaled, Agg, Log, Edge, State, HavocBase, FrontierBase, same, Not, And, Or, Implies, zb,
                 bv, isbv, fold, eqv)


def run_loop(eng, fr, h, edges):
    m = eng.merge_edges(edges, fr)
    bounded = eng.bound is not None
    lim = eng.bound if bounded else eng.o.get("unroll", 0)
    ck = len(eng.obls)
    nret = len(fr.rets)
    outs, cur, sym, n = [], m, 0, 0
    key = (fr.fn.name, h)
    cutset = eng.__dict__.setdefault("cutset", set())
    if not (key in cutset and not bounded):
        while True:
            exits, backs = eng.run_region(fr, h, h, [cur])
            outs += exits
            if lim and not bounded:
                backs = [b for b in backs if eng.feasible(b.st.pc)]
            if not backs:
                eng.stats["loops_unrolled"] += 1
                return outs
            n += 1
            if exits or len(fr.rets) > nret + n * 0 and symbolic_exit(fr, nret):
                sym += 1
            if n >= 16 and not bounded and symbolic_phis(fr, h, backs):
                break
            if sym > lim:
                if bounded:
                    eng.bounded_used = True
                    return outs
                break
            if n > eng.o.get("max_unroll", 1500):
                raise Undecided("loop does not end in " + fr.fn.name)
            cur = eng.merge_edges(backs, fr)
        del eng.obls[ck:]
        del fr.rets[nret:]
        cutset.add(key)
    return cut(eng, fr, h, m)


def symbolic_phis(fr, h, backs):
    for b in backs:
        for v in b.phis.values():
            if isinstance(v, (bool, int)) or isinstance(v, Ptr) and all(isinstance(i, int) for i in v.idx):
                continue
            if isinstance(v, Scaled) or isinstance(v, (Agg, PIte)) or isbv(v) or isinstance(v, z3.BoolRef):
                return True
    return False


def symbolic_exit(fr, nret):
    return len(fr.rets) > nret


# ------------------------------------------------------------------ shapes
def shape_of(eng, v, stamp, w=64):
    if isinstance(v, bool) or isinstance(v, z3.BoolRef):
        return ("bool",)
    if isinstance(v, Agg):
        return ("agg", [shape_of(eng, x, stamp) for x in v.v])
    if isinstance(v, Scaled):
        return ("scaled", v.k)
    if isinstance(v, Ptr):
        return ptr_shape(eng, [v], stamp)
    if isinstance(v, PIte):
        return ptr_shape(eng, [x for _, x in v.alts], stamp)
    if isinstance(v, int):
        return ("int", v, w)
    if isbv(v):
        return ("bv", v.size())
    return ("bv", w)


def ptr_shape(eng, vs, stamp):
    opts, null = [], False
    for v in vs:
        if isinstance(v, int) and v == 0:
            null = True
        elif isinstance(v, Ptr):
            fam, idx = v.fam, v.idx
            if fam.birth >= stamp and fam.birth > 0:
                if fam.clone is None:
                    fam.clone = Fam(fam.name + "@prev", fam.ndim + 1, fam.kind, fam.stride, fam.size)
                fam, idx = fam.clone, (None,) + tuple(idx)
            add_opt(opts, fam, v.off, idx)
        else:
            return ("bv", 64)
    return ("ptr", opts, null)


def add_opt(opts, fam, off, idx):
    for n, (f, o, t) in enumerate(opts):
        if f is fam and same(o, off) and len(t) == len(idx):
            opts[n] = (f, o, tuple(x if (x is not None and y is not None and same(x, y)) else None for x, y in zip(t, idx)))
            return
    opts.append((fam, off, tuple(idx)))


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == "int" and b[0] == "int":
        return a if a[1] == b[1] else ("bv", max(a[2], b[2]))
    if a[0] == "int" and b[0] == "bv":
        return b
    if b[0] == "int" and a[0] == "bv":
        return a
    if a[0] == "int" and b[0] == "ptr":
        return ("ptr", b[1], True) if a[1] == 0 else ("bv", 64)
    if b[0] == "int" and a[0] == "ptr":
        return ("ptr", a[1], True) if b[1] == 0 else ("bv", 64)
    if a[0] == "int" and b[0] == "bool" or a[0] == "bool" and b[0] == "int":
        return ("bv", 64)
    if a[0] != b[0]:
        return ("bv", 64)
    if a[0] == "ptr":
        opts = list(a[1])
        for f, o, t in b[1]:
            add_opt(opts, f, o, t)
        return ("ptr", opts, a[2] or b[2])
    if a[0] == "agg":
        return ("agg", [join(x, y) for x, y in zip(a[1], b[1])])
    if a[0] == "bv":
        return a if a[1] >= b[1] else b
    if a[0] == "scaled":
        return a if a[1] == b[1] else ("bv", 64)
    return a


def concrete(s, modified=True):
    """shape usable by shape_value"""
    if s[0] == "int":
        return ("bv", s[2])
    if s[0] == "agg":
        return ("agg", [concrete(x) for x in s[1]])
    return s


def shape_eq(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "ptr":
        if a[2] != b[2] or len(a[1]) != len(b[1]):
            return False
        return all(x[0] is y[0] and same(x[1], y[1]) and all((p is None and q is None) or (p is not None and q is not None and same(p, q)) for p, q in zip(x[2], y[2]))
                   for x, y in zip(a[1], b[1]))
    if a[0] == "agg":
        return all(shape_eq(x, y) for x, y in zip(a[1], b[1]))
    return a == b


def wof(eng, ins_ty):
    return ins_ty.width if ins_ty is not None and ins_ty.kind == "int" else 64


def mem_shape(eng, key, entry, back, stamp):
    if isinstance(entry, Log) or isinstance(back, Log):
        if entry is None:
            entry = eng.base_for(*key)
        fam = key[0]
        nd = fam.ndim
        idx = tuple(eng.fresh("probe") for _ in range(nd))
        s = shape_of(eng, entry.base.read(idx), stamp)
        for lg in (entry, back):
            for g, i, v in lg.ents:
                s = join(s, shape_of(eng, v, stamp))
        return ("log", s, nd)
    if entry is None:
        entry = eng.init_key(key)
    s = join(shape_of(eng, entry, stamp), shape_of(eng, back, stamp))
    return s


def counter_at(front, phis, mem):
    where, r, path = front
    return getpath(phis[r] if where == "phi" else mem[r], path)


def havoc_mem(eng, mshape, n, front, entry, phis, mem):
    for k, s in mshape.items():
        if s[0] != "log":
            mem[k] = havoc_cell(eng, k, s, n)
    for k, s in mshape.items():
        if s[0] == "log":
            mem[k] = havoc_cell(eng, k, s, n)
            if k in front:
                mem[k] = Log(FrontierBase(eng, counter_at(front[k], phis, mem), entry.get(k) or eng.base_for(*k), mem[k].base))


def havoc_cell(eng, key, s, n):
    name = "L%d_%s_%s" % (n, key[0].name[-20:] if isinstance(key[0], Fam) else str(key[0]), key[1] if not isinstance(key[1], Fam) else key[1].id)
    if s[0] == "log":
        return Log(HavocBase(eng, name + "_%d" % eng.fresh_n, concrete(s[1]), s[2]))
    return eng.shape_value(concrete(s), name)


def restored(eng, key, old, new, pc):
    """every entry written has its old value again"""
    old = old or eng.base_for(*key)
    for ix in [i for _, i, _ in new.ents]:
        a, b = eng.logread(new, ix), eng.logread(old, ix)
        if same(a, b):
            continue
        if not isinstance(a, int) and not isbv(a) or not isinstance(b, int) and not isbv(b) or eng.feasible(pc, bv(a) != bv(b)):
            return False
    return True


def frontier(eng, phis, hph, back, head, mshape):
    """logs written only at a counter that goes up by at most one, and by one
    if they are written: {key: where the counter is}"""
    steps = {}
    vals = [("phi", i.res, hph[i.res], back.phis[i.res]) for i in phis] + \
           [("mem", k, head.mem[k], back.st.mem.get(k)) for k, s in mshape.items() if s[0] != "log"]
    for where, r, hv, bk in vals:
        if type(hv) is not type(bk):
            continue
        for path, t in scalars(eng, hv):
            b = getpath(bk, path)
            if isbv(t) and t.size() == 64 and isbv(b) and z3.is_const(t) and \
                    (same(z3.simplify(b), z3.simplify(t + 1)) or not eng.feasible(back.st.pc, And(b != t + 1, b != t))):
                steps[t.get_id()] = (where, r, path)
    out = {}
    if eng.o.get("trace", 0) > 1:
        print("LOOP steps", steps.values(), [(i.res, hph[i.res], back.phis[i.res]) for i in phis])
        for k, s in mshape.items():
            lg = back.st.mem.get(k)
            if isinstance(lg, Log):
                print("LOOP writes", k, {str(e[1])[:80] for e in lg.ents})
    for k, s in mshape.items():
        lg = back.st.mem.get(k)
        if s[0] != "log" or s[2] != 1 or not isinstance(lg, Log) or lg.base is not head.mem[k].base or not lg.ents:
            continue
        ids = {e[1][0].get_id() if isbv(e[1][0]) else None for e in lg.ents}
        c = steps.get(min(ids, key=str)) if len(ids) == 1 else None
        if c is not None:
            t, b = counter_at(c, hph, head.mem), counter_at(c, back.phis, back.st.mem)
            g = False
            for e in lg.ents:
                g = Or(g, e[0])
            if same(z3.simplify(b), z3.simplify(t + 1)) or not eng.feasible(back.st.pc, And(g, b != t + 1)):
                out[k] = c
    return out


def prune(eng, v, pc):
    """a pointer without the alternatives that the path excludes"""
    if not isinstance(v, PIte):
        return v
    alts = [(g, x) for g, x in v.alts if eng.feasible(pc, g)]
    if len(alts) == 1:
        return alts[0][1]
    return PIte(alts) if 0 < len(alts) < len(v.alts) else v


# ------------------------------------------------------------------ cut
def cut(eng, fr, h, m, fronts=True):
    eng.stats["loops_cut"] += 1
    eng.loopstamp += 1
    stamp = eng.loopstamp
    eng.fresh_n += 1
    phis = [i for i in fr.fn.blocks[h] if i.op == "phi"]
    pshape, mshape, front, nofront = {}, {}, {}, set()
    nret = len(fr.rets)
    for rnd in range(16):
        eng.fresh_n += 1
        rid = eng.fresh_n
        head = State(m.st.pc, dict(m.st.mem))
        hph = {}
        for i in phis:
            r = i.res
            if r in pshape:
                hph[r] = eng.shape_value(concrete(pshape[r]), "p%d_%s" % (rid, r))
            else:
                hph[r] = m.phis[r]
        havoc_mem(eng, mshape, rid, front, m.st.mem, hph, head.mem)
        eng.quiet += 1
        hi = eng.fresh_n
        sreg = dict(fr.regs)
        try:
            exits, backs = eng.run_region(fr, h, h, [Edge(h, State(head.pc, dict(head.mem)), dict(hph))])
        finally:
            eng.quiet -= 1
        qrets = fr.rets[nret:]
        del fr.rets[nret:]
        if not backs:
            if not mshape and not pshape:
                fr.regs.update(sreg)
                ex, bk = eng.run_region(fr, h, h, [Edge(h, State(head.pc, dict(head.mem)), dict(hph))])
                return ex
            break
        back = eng.merge_edges(backs, fr)
        for r in back.phis:
            back.phis[r] = prune(eng, back.phis[r], back.st.pc)
        for k, v in back.st.mem.items():
            if isinstance(v, PIte) and not same(v, head.mem.get(k)):
                back.st.mem[k] = prune(eng, v, back.st.pc)
        changed = False
        for i in phis:
            r = i.res
            bvv = back.phis[r]
            if same(bvv, hph[r]):
                continue
            w = wof(eng, i.ty)
            s = join(shape_of(eng, m.phis[r], stamp, w), shape_of(eng, bvv, stamp, w))
            if s[0] == "bv" and s[1] != w and i.ty.kind == "int":
                s = ("bv", w)
            if r in pshape:
                s = join(pshape[r], s)
                if shape_eq(s, pshape[r]):
                    continue
            pshape[r] = s
            changed = True
        for k, v in back.st.mem.items():
            hv = head.mem.get(k)
            if v is hv or same(v, hv):
                continue
            if isinstance(k[0], Fam) and k[0].birth >= stamp and k[0].birth > 0:
                continue
            if hv is None and isinstance(v, Log) and not v.ents and isinstance(v.base, type(eng.base_for(*k).base)):
                continue
            if isinstance(k[0], Fam) and k[0].name.startswith("held") and k not in mshape and isinstance(v, Log) and restored(eng, k, hv, v, back.st.pc):
                continue
            s = mem_shape(eng, k, m.st.mem.get(k), v, stamp)
            if k in mshape:
                s0 = mshape[k]
                if s0[0] == "log":
                    s = ("log", join(s0[1], s[1]), s[2])
                    if shape_eq(s[1], s0[1]):
                        continue
                else:
                    s = join(s0, s)
                    if shape_eq(s, s0):
                        continue
            if rnd > 8 and eng.o.get("trace"):
                print("LOOP unstable", k, s)
            mshape[k] = s
            changed = True
        if not changed:
            now = frontier(eng, phis, hph, back, head, mshape) if fronts else {}
            lost = {k for k in front if now.get(k) != front[k]}
            if not lost and all(k in front or k in nofront for k in now):
                break
            nofront |= lost
            front = {k: v for k, v in now.items() if k not in nofront}
    else:
        raise Undecided("loop shape does not stabilise in " + fr.fn.name)
    if not backs:
        inv = []
    else:
        inv = houdini(eng, fr, h, m, head, hph, back, exits, qrets, phis, mshape, pshape, rid, hi, front)
        for c in set(front.values()):
            if eng.check(list(back.st.pc) + list(inv) + [counter_at(c, hph, head.mem) == 2**64 - 1,
                                                         counter_at(c, back.phis, back.st.mem) == 0], 5000) != z3.unsat:
                fr.regs.clear()
                fr.regs.update(sreg)
                return cut(eng, fr, h, m, False)
    # final run from the invariant
    if inv:
        head.pc = head.pc + tuple(inv)
    fr.regs.update(sreg)
    exits, backs = eng.run_region(fr, h, h, [Edge(h, State(head.pc, dict(head.mem)), dict(hph))])
    if not exits and len(fr.rets) == nret:
        pass
    return exits


def atoms(e, out, seen, depth=0):
    if depth > 40 or e.get_id() in seen:
        return
    seen.add(e.get_id())
    k = e.decl().kind()
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ, z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ) \
            and e.num_args() == 2 and z3.is_bv(e.arg(0)):
        out.append((e.arg(0), e.arg(1), e))
    for c in e.children():
        if z3.is_bool(c):
            atoms(c, out, seen, depth + 1)


def freevars(e, cache):
    r = cache.get(e.get_id())
    if r is not None:
        return r[1]
    if z3.is_const(e):
        s = frozenset([e.decl().name()]) if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
    else:
        s = frozenset().union(*[freevars(c, cache) for c in e.children()]) if e.num_args() else frozenset()
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            s = s | {e.decl().name()}
    cache[e.get_id()] = (e, s)
    return s


def between(e, lo, hi, cache):
    """does the term depend on a symbol made in this interval?"""
    for n in freevars(zb(e), cache):
        if not n.startswith("in:"):
            x = re.search(r"[!_](\d+)$", n)
            if x and lo <= int(x.group(1)) <= hi:
                return True
    return False


def scalars(eng, v):
    """scalar components of a value: [(path, term)]"""
    if isinstance(v, (int, z3.BitVecRef, z3.BoolRef, bool)):
        return [((), v)]
    if isinstance(v, Ptr):
        return [((n,), i) for n, i in enumerate(v.idx)]
    if isinstance(v, Scaled):
        return [((), v.term)]
    return []


def getpath(v, path):
    if isinstance(v, Ptr):
        return v.idx[path[0]] if path else None
    if isinstance(v, Scaled):
        return v.term
    return v


def houdini(eng, fr, h, m, head, hph, back, exits, qrets, phis, mshape, pshape, rid, hi, front):
    # (description, at(phis, mem) -> Bool)
    cands = []
    headvars = set()
    cache = {}
    counters = []      # (name, head term, getter(phis, mem))
    bools = []

    def note(v, getter, name):
        for path, t in scalars(eng, v):
            if isinstance(t, (int, bool)):
                continue
            headvars.update(freevars(t, cache))
            if z3.is_bool(t):
                bools.append((name, t, lambda p, mm, g=getter, path=path: getpath(g(p, mm), path)))
            else:
                counters.append((name, t, lambda p, mm, g=getter, path=path: getpath(g(p, mm), path)))
        if isinstance(v, PIte):
            for g, x in v.alts:
                if not isinstance(g, bool):
                    headvars.update(freevars(g, cache))
    for i in phis:
        if i.res in pshape:
            note(hph[i.res], lambda p, mm, r=i.res: p[r], i.res)
    for k, s in mshape.items():
        if s[0] != "log":
            note(head.mem[k], lambda p, mm, k=k: mm.get(k) if k in mm else eng.init_key(k), str(k))
    # bound terms met in the loop's comparisons
    pairs = []
    seen = set()
    np = len(head.pc)
    for st in [e.st for e in exits] + [back.st] + [s for _, s in qrets]:
        for c in st.pc[np:]:
            atoms(c, pairs, seen)
    for a, b, at in list(pairs):
        la, lb = dleaves(a)[:4], dleaves(b)[:4]
        if len(la) + len(lb) > 2:
            for x in la:
                for y in lb:
                    pairs.append((x, y, at.decl()(x, y)))
    bounds = {}
    for _, t, g in counters:
        bounds[t.get_id()] = {}
    for a, b, _ in pairs:
        for x, y in ((a, b), (b, a)):
            if x.get_id() in bounds and y.size() == x.size():
                if not (freevars(y, cache) & headvars):
                    bounds[x.get_id()][y.get_id()] = y
    exposed = [e for e in eng.exposed]

    def rel(op, g, t):
        def f(p, mm):
            v = g(p, mm)
            if v is None:
                return True
            v = eng.toint(v) if not isinstance(v, (bool, z3.BoolRef)) else v
            w = t.size() if isbv(t) else 64
            if isbv(v) and v.size() != w:
                return True
            x, y = bv(v, w), bv(t, w)
            return {"ule": z3.ULE(x, y), "uge": z3.UGE(x, y), "eq": x == y, "ne": x != y}[op]
        return f
    guards = [(lambda p, mm: True)]
    for name, t, g in counters:
        if t.size() != 64:
            ent = g(m.phis, m.st.mem)
            if t.size() == 8:
                cands.append((name + " is a bool", rel("ule", g, z3.BitVecVal(1, 8))))
            if ent is not None and not isinstance(ent, (Ptr, PIte)):
                cands.append((name + " unchanged", rel("eq", g, bv(eng.toint(ent), t.size()))))
                if isinstance(ent, int) and ent == 0:
                    cands.append((name + " nonzero", rel("ne", g, bv(0, t.size()))))
            for y in list(bounds[t.get_id()].values())[:6]:
                for op in ("ule", "uge", "eq", "ne"):
                    cands.append(("%s %s bound" % (name, op), rel(op, g, y)))
            continue
        ent = g(m.phis, m.st.mem)
        bs = list(bounds[t.get_id()].values())[:6]
        bt = g(back.phis, back.st.mem)
        step = None
        if bt is not None and not isinstance(bt, (Ptr, PIte, Scaled)):
            d = z3.simplify(bv(bt) - t)
            if z3.is_bv_value(d):
                step = d.as_signed_long()
            elif isbv(bt):
                if eng.o.get("trace", 0) > 1: print("LOOP step", name, bt)
                # an iteration that does not move on
                ds = [z3.simplify(x - t) for x in leaves(bt, lambda z: False)]
                if all(z3.is_bv_value(x) and x.as_signed_long() in (0, 1) for x in ds):
                    step = 1
        if ent is not None and not isinstance(ent, (Ptr, PIte)):
            e = bv(eng.toint(ent))
            for op in ("uge", "ule", "eq"):
                cands.append(("%s %s entry" % (name, op), rel(op, g, e)))
        cands.append((name + " nonzero", rel("ne", g, z3.BitVecVal(0, 64))))
        # words whose uppermost bit is a mark
        cands.append((name + " uppermost bit clear", rel("ule", g, z3.BitVecVal((1 << 63) - 1, 64))))
        for y in bs + exposed:
            for op in ("ule", "uge", "eq", "ne"):
                cands.append(("%s %s bound" % (name, op), rel(op, g, y)))
        for y in eng.o_bounds if hasattr(eng, "o_bounds") else []:
            cands.append(("%s ule size" % name, rel("ule", g, y)))
        if step in (1, -1):
            for kx in exposed:
                if step == 1:
                    guards.append(lambda p, mm, g=g, kx=kx: z3.UGT(bv(eng.toint(g(p, mm))), bv(kx)))
                    guards.append(lambda p, mm, g=g, kx=kx: z3.ULE(bv(eng.toint(g(p, mm))), bv(kx)))
                else:
                    guards.append(lambda p, mm, g=g, kx=kx: z3.ULE(bv(eng.toint(g(p, mm))), bv(kx)))
                    guards.append(lambda p, mm, g=g, kx=kx: z3.UGT(bv(eng.toint(g(p, mm))), bv(kx)))
    # two counters moving together
    for a in range(len(counters)):
        for b in range(len(counters)):
            if a != b and counters[a][1].size() == 64 and counters[b][1].size() == 64 and len(counters) <= 6:
                ga, gb = counters[a][2], counters[b][2]
                cands.append(("%s ule %s" % (counters[a][0], counters[b][0]),
                              lambda p, mm, ga=ga, gb=gb: z3.ULE(bv(eng.toint(ga(p, mm))), bv(eng.toint(gb(p, mm))))))
    for name, t, g in bools:
        ent = g(m.phis, m.st.mem)
        for gd in guards:
            cands.append((name + " unchanged", lambda p, mm, g=g, gd=gd, ent=ent: Implies(gd(p, mm), eng.cmp("eq", g(p, mm), ent))))
    # flags that go with a value
    flags = [(nm, (lambda p, mm, g=g, w=t.size(): bv(eng.toint(g(p, mm)), w) == 0)) for nm, t, g in counters if t.size() == 8]
    flags += [(nm, (lambda p, mm, g=g: z3.Not(zb(g(p, mm))))) for nm, t, g in bools]
    for nm, fl in flags[:4]:
        for name, t, g in counters:
            if t.size() != 64 or len(counters) > 8:
                continue
            for pol in (True, False):
                cands.append(("%s nonzero with flag" % name, lambda p, mm, fl=fl, pol=pol, f=rel("ne", g, z3.BitVecVal(0, 64)): Implies(fl(p, mm) if pol else z3.Not(fl(p, mm)), f(p, mm))))
                ent = g(m.phis, m.st.mem)
                bt = g(back.phis, back.st.mem)
                if isbv(bt):
                    for y in leaves(bt, lambda z: False)[:4]:
                        if not freevars(y, cache) & headvars:
                            cands.append(("%s value with flag" % name, lambda p, mm, fl=fl, pol=pol, f=rel("eq", g, y): Implies(fl(p, mm) if pol else z3.Not(fl(p, mm)), f(p, mm))))
                if ent is not None and not isinstance(ent, (Ptr, PIte)):
                    cands.append(("%s entry with flag" % name, lambda p, mm, fl=fl, pol=pol, f=rel("eq", g, bv(eng.toint(ent))): Implies(fl(p, mm) if pol else z3.Not(fl(p, mm)), f(p, mm))))
    # what the loop compared about its current element, stated about element k
    consts = {}
    for _, t, g in counters:
        if z3.is_const(t):
            consts[t.decl().name()] = (t, g)
    conj = []
    todo = list(back.st.pc[np:])
    while todo and len(conj) < 24:
        c = todo.pop(0)
        if isinstance(c, bool):
            continue
        if z3.is_and(c):
            todo[:0] = c.children()
        elif z3.is_not(c) and z3.is_or(c.arg(0)):
            todo[:0] = [z3.Not(x) for x in c.arg(0).children()]
        else:
            conj.append(c)
    if eng.o.get("trace", 0) > 2:
        for c in conj:
            print("LOOP conj", freevars(c, cache) & headvars, " ".join(str(c).split())[:1500])
    # counters that advance by the same step
    stepped, ref = set(), None
    for name, t, g in counters:
        if t.size() != 64 or not z3.is_const(t):
            continue
        bt, ent = g(back.phis, back.st.mem), g(m.phis, m.st.mem)
        if bt is None or isinstance(bt, (Ptr, PIte, Scaled, Agg)) or ent is None or isinstance(ent, (Ptr, PIte, Scaled, Agg)):
            continue
        d = z3.simplify(bv(bt) - t)
        if z3.is_bv_value(d) and d.as_signed_long() == 1:
            stepped.add(t.decl().name())
            if ref is None:
                ref = (g, ent)
            else:
                cands.append(("%s together" % name, lambda p, mm, g=g, ent=ent, r=ref: bv(eng.toint(g(p, mm))) - bv(eng.toint(ent)) == bv(eng.toint(r[0](p, mm))) - bv(eng.toint(r[1]))))
    # counters that go down while another one goes up
    if ref is not None:
        for name, t, g in counters:
            bt, ent = g(back.phis, back.st.mem), g(m.phis, m.st.mem)
            if t.size() != 64 or not z3.is_const(t) or not isbv(bt) or ent is None or isinstance(ent, (Ptr, PIte, Scaled, Agg)):
                continue
            if any(z3.is_bv_value(d) and d.as_signed_long() == -1 for d in (z3.simplify(y - t) for y in leaves(bt, lambda z: False)[:4])):
                cands.append(("%s against" % name, lambda p, mm, g=g, ent=ent, r=ref: bv(eng.toint(g(p, mm))) - bv(eng.toint(ent)) == bv(eng.toint(r[1])) - bv(eng.toint(r[0](p, mm)))))
    for name, t, g in counters:
        if t.size() != 64 or not z3.is_const(t):
            continue
        bt = g(back.phis, back.st.mem)
        if bt is None or isinstance(bt, (Ptr, PIte, Scaled, Agg)):
            continue
        d = z3.simplify(bv(bt) - t)
        if not z3.is_bv_value(d) or d.as_signed_long() != 1:
            continue
        tn = t.decl().name()
        for kx in exposed if eng.o.get("auto", 1) else []:
            gd = (lambda p, mm, g=g, kx=kx: z3.UGT(bv(eng.toint(g(p, mm))), bv(kx)))
            ent = g(m.phis, m.st.mem)
            if not same(ent, 0):
                gd = (lambda p, mm, g0=gd, kx=kx, ent=ent: And(g0(p, mm), z3.UGE(bv(kx), bv(eng.toint(ent)))))
            # element k was as on entry when it was handled
            subs = []
            for k, s in mshape.items():
                if s[0] == "log":
                    for ix in list(eng.touched.get(k[0], {}).values())[:12]:
                        if any(isbv(i) and freevars(i, cache) & headvars for i in ix[:-1]):
                            continue
                        kix = ix[:-1] + (kx,)
                        a, b = eng.logread(head.mem[k], kix), eng.logread(m.st.mem.get(k) or eng.base_for(*k), kix)
                        if isbv(a) and isbv(b) and not any(same(a, x[0]) for x in subs):
                            subs.append((a, b))

            def atk(c):
                y = z3.substitute(c, (t, bv(kx)))
                y2 = z3.substitute(y, *subs) if subs else y
                return [y] if same(y, y2) else [y2, y]
            own, rels = [], []
            for a, b, at in pairs:
                fv = freevars(at, cache) & headvars
                if fv == {tn} and not (same(a, t) or same(b, t)):
                    own.append(atk(at)[0])
                else:
                    for x, y in ((a, b), (b, a)):
                        if z3.is_const(x) and x.decl().name() in consts and x.decl().name() != tn and freevars(y, cache) & headvars == {tn}:
                            rels.append((consts[x.decl().name()][1], z3.substitute(y, (t, bv(kx)))))
            for _, t2, g2 in counters:
                if t2.size() == 64 and not same(t2, t):
                    b2 = g2(back.phis, back.st.mem)
                    if isbv(b2):
                        for y in leaves(b2, lambda z: freevars(z, cache) & headvars == {tn}):
                            if freevars(y, cache) & headvars == {tn}:
                                y = z3.substitute(y, (t, bv(kx)))
                                if not any(r[0] is g2 and same(r[1], y) for r in rels):
                                    rels.append((g2, y))
            if eng.o.get("trace", 0) > 1: print("LOOP own", own, "rels", [str(y)[:80] for _, y in rels])
            # what every completed iteration found out about its element
            for c in conj:
                if freevars(c, cache) & headvars <= {tn}:
                    for y in atk(c):
                        cands.append(("iter", lambda p, mm, gd=gd, y=y: Implies(gd(p, mm), y)))
            own = own[:6]
            for o in own:
                cands.append(("own", lambda p, mm, gd=gd, o=o: Implies(gd(p, mm), o)))
                cands.append(("own", lambda p, mm, gd=gd, o=o: Implies(gd(p, mm), z3.Not(o))))
            conds = [z3.BoolVal(True)] + own + [z3.Not(o) for o in own]
            # what it stored at its own position
            for k, s in mshape.items():
                if s[0] != "log" or k not in back.st.mem:
                    continue
                fam = k[0]
                for ix in list(eng.touched.get(fam, {}).values())[:12]:
                    if isinstance(ix[-1], int) or any(isbv(i) and freevars(i, cache) & headvars for i in ix[:-1]):
                        continue
                    if not freevars(ix[-1], cache) & stepped:
                        continue
                    v = eng.logread(back.st.mem[k], ix)
                    if not isbv(v):
                        continue
                    kix = ix[:-1] + (kx,)
                    for lv in [v] + [x for x in leaves(v, lambda z: False) if not same(x, v)][:6]:
                        if freevars(lv, cache) & headvars - {tn}:
                            continue
                        for y in atk(lv):
                            for o in conds if not same(lv, v) else conds[:1]:
                                cands.append(("stored", lambda p, mm, gd=gd, y=y, k=k, kix=kix, o=o: Implies(And(gd(p, mm), o), eng.cmp("eq", eng.logread(mm.get(k) or eng.base_for(*k), kix), y))))
            for o1 in own[:4]:
                for o2 in own[:4]:
                    if o1 is not o2:
                        for x in (o1, z3.Not(o1)):
                            for y in (o2, z3.Not(o2)):
                                cands.append(("own pair", lambda p, mm, gd=gd, x=x, y=y: Implies(And(gd(p, mm), x), y)))
            for o in conds:
                for xg, y in rels[:6]:
                    for op in ("ule", "uge"):
                        f = rel(op, xg, y)
                        cands.append(("elem %s" % op, lambda p, mm, gd=gd, o=o, f=f: Implies(And(gd(p, mm), o), f(p, mm))))
                if not z3.is_true(o):
                    for nm2, t2, g2 in counters:
                        if t2.size() <= 8:
                            for cv in (0, 1):
                                f = rel("eq", g2, z3.BitVecVal(cv, t2.size()))
                                cands.append(("elem flag", lambda p, mm, gd=gd, o=o, f=f: Implies(And(gd(p, mm), o), f(p, mm))))
                    for nm2, t2, g2 in bools:
                        for cv in (False, True):
                            cands.append(("elem flag", lambda p, mm, gd=gd, o=o, g2=g2, cv=cv: Implies(And(gd(p, mm), o), zb(g2(p, mm)) == cv)))
    # values that stay as they were on entry until element k was handled
    for name, t, g in counters:
        ent = g(m.phis, m.st.mem)
        if ent is None or isinstance(ent, (Ptr, PIte)):
            continue
        e = bv(eng.toint(ent), t.size())
        for gd in guards[1:]:
            if t.size() == 64:
                cands.append((name + " nonzero*", lambda p, mm, gd=gd, f=rel("ne", g, z3.BitVecVal(0, 64)): Implies(gd(p, mm), f(p, mm))))
            cands.append((name + " unchanged*", lambda p, mm, g=g, gd=gd, e=e: Implies(gd(p, mm), bv(eng.toint(g(p, mm)), e.size()) == e)))
    # frame of modified family cells at the indices of interest
    for k, s in mshape.items():
        if s[0] != "log":
            v = head.mem[k]
            if isinstance(v, (PIte, Ptr)):
                ent = m.st.mem.get(k)
                if ent is None:
                    ent = eng.init_key(k)
                for gd in guards:
                    cands.append(("%s pointer unchanged" % (k,), lambda p, mm, k=k, ent=ent, gd=gd: Implies(gd(p, mm), eng.cmp("eq", mm[k], ent))))
            continue
        fam = k[0]
        n = 0
        for ix in list(eng.touched.get(fam, {}).values()):
            if any((not isinstance(i, int)) and (freevars(i, cache) & headvars or any("probe" in q for q in freevars(i, cache))) for i in ix):
                continue
            if any(isbv(i) and i.get_id() in loop_new(eng, m) for i in ix):
                continue
            n += 1
            if n > 8:
                break
            ev = eng.logread(m.st.mem.get(k) or eng.base_for(*k), ix)
            for gd in guards:
                cands.append(("%s unchanged at %s" % (k, str(ix)[:40]),
                              lambda p, mm, k=k, ix=ix, ev=ev, gd=gd: Implies(gd(p, mm), eng.cmp("eq", eng.logread(mm.get(k) or eng.base_for(*k), ix), ev))))
    # pointer phis
    for i in phis:
        if i.res in pshape and isinstance(hph[i.res], PIte):
            ent = m.phis[i.res]
            r = i.res
            for gd in guards:
                cands.append((r + " unchanged", lambda p, mm, r=r, ent=ent, gd=gd: Implies(gd(p, mm), eng.cmp("eq", p[r], ent))))
                cands.append((r + " nonnull", lambda p, mm, r=r, gd=gd: Implies(gd(p, mm), eng.cmp("ne", p[r], 0))))
    # predicates given with the contract
    for fn, ctx in eng.cands:
        memo = {}

        def pv(mm, fn=fn, ctx=ctx, memo=memo):
            x = memo.get(id(mm))
            if x is None:
                x = (eng.run_pred(fn, [ctx], mm, True), mm)
                memo[id(mm)] = x
            return x[0]
        for gd in guards:
            cands.append(("contract predicate", lambda p, mm, pv=pv, gd=gd: Implies(gd(p, mm), pv(mm))))
    # ---- elimination
    # a second arbitrary head: a predicate of the state does not mention the first one there
    h2 = eng.fresh_n
    eng.fresh_n += 1
    mem2 = dict(head.mem)
    hph2 = dict(hph)
    for i in phis:
        if i.res in pshape:
            hph2[i.res] = eng.shape_value(concrete(pshape[i.res]), "q%d_%s" % (eng.fresh_n, i.res))
    havoc_mem(eng, mshape, eng.fresh_n, front, m.st.mem, hph2, mem2)
    ents, heads, backs_, names = [], [], [], []
    for name, f in cands:
        try:
            e, hd, b = f(m.phis, m.st.mem), f(hph, head.mem), f(back.phis, back.st.mem)
        except Undecided:
            continue
        if hd is True or between(hd, hi + 1, h2, cache):
            continue
        try:
            if between(f(hph2, mem2), rid, h2, cache):
                continue
        except Undecided:
            continue
        ents.append(zb(e))
        heads.append(zb(hd))
        backs_.append(zb(b))
        names.append(name)
    alive = eliminate(eng, list(m.st.pc), [], ents, list(range(len(ents))))
    if eng.o.get("trace", 0) > 3:
        print("LOOPENT", [(n, i in alive) for i, n in enumerate(names)])
    prev = None
    while prev != len(alive):
        prev = len(alive)
        alive = eliminate(eng, list(back.st.pc), [heads[i] for i in alive], backs_, alive, recompute=heads)
        if eng.o.get("trace", 0) > 3:
            print("LOOPBK", [(n, i in alive) for i, n in enumerate(names)])
    if alive and eng.check(list(back.st.pc) + [heads[i] for i in alive], 5000) == z3.unsat and eng.check(list(back.st.pc), 5000) != z3.unsat \
            and eng.check(list(m.st.pc), 5000) != z3.unsat:
        raise Undecided("contradictory loop invariant in " + fr.fn.name)
    if eng.o.get("trace", 0) > 4:
        for i in alive:
            if names[i] in ("iter", "own", "stored", "contract predicate"):
                print("LOOP KEPT", names[i], " ".join(str(heads[i]).split())[:900])
    eng.stats["invariants"] += len(alive)
    eng.stats["loop_vcs"] += 2 * len(alive)
    if eng.o.get("trace"):
        print("LOOP", fr.fn.name[:60], h, "cands", len(cands), "kept", [names[i] for i in alive][:40])
    return [heads[i] for i in alive]


def leaves(e, stop, depth=0):
    if depth < 12 and z3.is_app_of(e, z3.Z3_OP_ITE) and not stop(e):
        return leaves(e.arg(1), stop, depth + 1) + leaves(e.arg(2), stop, depth + 1)
    return [e]


def dleaves(e, depth=0):
    """alternatives of a term, also below arithmetic"""
    if depth > 12:
        return [e]
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        return dleaves(e.arg(1), depth + 1) + dleaves(e.arg(2), depth + 1)
    k = e.decl().kind()
    if k in (z3.Z3_OP_EXTRACT, z3.Z3_OP_ZERO_EXT, z3.Z3_OP_BADD) and e.num_args() <= 2:
        cs = [dleaves(c, depth + 1)[:4] for c in e.children()]
        if all(len(c) == 1 for c in cs):
            return [e]
        if len(cs) == 1:
            return [z3.simplify(z3.substitute(e, (e.arg(0), c))) for c in cs[0]]
        return [z3.simplify(x + y) for x in cs[0] for y in cs[1]]
    return [e]


def loop_new(eng, m):
    return ()


def eliminate(eng, pc, assume, goals, alive, recompute=None):
    """largest subset of `alive` whose goals all follow from pc (and, when
    recompute is given, from the head versions of that same subset)"""
    alive = list(alive)
    for _ in range(400):
        if not alive:
            return alive
        eng.timeleft()
        conds = list(pc)
        if recompute is not None:
            conds += [recompute[i] for i in alive]
        conds.append(z3.Or([z3.Not(goals[i]) for i in alive]))
        t0 = time.time()
        r, mo = fresh_check(eng, conds, eng.o.get("inv_ms", 8000))
        if eng.o.get("trace", 0) > 2:
            print("ELIM", len(alive), r, round(time.time() - t0, 2))
        if r == z3.unsat:
            return alive
        if r != z3.sat:
            if eng.o.get("trace", 0) > 2:
                print("ONEBYONE", len(alive))
            return one_by_one(eng, pc, goals, alive, recompute)
        nxt = [i for i in alive if not z3.is_false(mo.eval(goals[i], model_completion=True))]
        if len(nxt) == len(alive):
            return one_by_one(eng, pc, goals, alive, recompute)
        alive = nxt
    return []


def fresh_check(eng, conds, ms):
    s = z3.SolverFor("QF_UFBV")
    s.set("timeout", ms)
    s.add(eng.axioms)
    s.add([zb(c) for c in conds])
    eng.nsolver += 1
    t = time.time()
    r = s.check()
    eng.tsolver += time.time() - t
    return r, s.model() if r == z3.sat else None


def one_by_one(eng, pc, goals, alive, recompute):
    while True:
        keep = []
        for i in alive:
            cs = list(pc) + ([recompute[j] for j in alive] if recompute is not None else []) + [z3.Not(goals[i])]
            if eng.check(cs, 1500) == z3.unsat or fresh_check(eng, cs, 4000)[0] == z3.unsat:
                keep.append(i)
        if len(keep) == len(alive) or recompute is None:
            return keep
        alive = keep
