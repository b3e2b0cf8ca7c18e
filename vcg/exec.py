"""Symbolic execution of the normalised IR against contracts; emits proof obligations."""
import re, z3, itertools, os, sys, time
import poly, rpoly, logic, ir
from poly import Poly, P, le, lt, ge, gt, eq, ne
from rpoly import RP, R, rlt, rle, req, rite
from logic import (And, Or, Not, Implies, Iff, Forall, Var, Region, Base, ConstMem, TableMem, Store, Havoc, Fill, rd,
                   Unsupported, TRUE, FALSE, pol_ite)
from ir import *

# ---------------------------------------------------------------- values
class IntV:
    __slots__ = ('p', 'n', 'b', 'lo', 'hi')
    def __init__(s, p, n, b=None): s.p, s.n, s.b = P(p), n, b     # b: z3 Bool when this is zext(bool)
    def __repr__(s): return 'i%d:%r' % (s.n, s.p)
class BoolV:
    __slots__ = ('c',)
    def __init__(s, c): s.c = c
    def __repr__(s): return 'b:%s' % s.c
class BVV:
    """bit-vector valued integer (status bytes)"""
    __slots__ = ('t', 'n')
    def __init__(s, t, n): s.t, s.n = t, n
    def __repr__(s): return 'bv%d:%s' % (s.n, s.t)
class PtrV:
    __slots__ = ('r', 'off')
    def __init__(s, r, off): s.r, s.off = r, P(off)
    def __repr__(s): return 'ptr(%s+%r)' % (s.r, s.off)
class NullV: pass
class StrV:
    """string object holding a known literal (or an abstract key)"""
    def __init__(s, v): s.v = v
    def __repr__(s): return 'str(%r)' % (s.v,)
class UndefV: pass
class OpaqueV:
    def __init__(s, d): s.d = d
class PackV:
    """several members of a struct moved as one wide integer"""
    def __init__(s, parts, n): s.parts, s.n = parts, n
class StructV:
    def __init__(s, f): s.f = f

class Cells:
    """memory object accessed at constant offsets only"""
    _n = 0
    def __init__(s, name, local=True):
        Cells._n += 1
        s.name = '%s#%d' % (name, Cells._n); s.local = local; s.size = None
    def __repr__(s): return s.name
class VecObj:
    """std::vector / accessor / buffer object: element region + length"""
    CUR = {}       # ghost state of the path being executed: a vector that was emptied and refilled has a new region there
    def __init__(s, name, region, n=None, stride=1):
        s.name, s.region0, s.n, s.stride = name, region, n, stride   # stride: region elements per vector element
        if region is not None: region.vec = s
    @property
    def region(s): return VecObj.CUR.get(('vreg', s), s.region0)
    @region.setter
    def region(s, r): s.region0 = r
    def __repr__(s): return 'vec(%s)' % s.name
class VecVec:
    """vector<vector<T>>: len region + data region (layout [S,1])"""
    def __init__(s, name, lens, data, n): s.name, s.lens, s.data, s.n = name, lens, data, n
class RowVec:
    def __init__(s, vv, i): s.vv, s.i = vv, i

class State:
    __slots__ = ('env', 'mem', 'cells', 'vecs', 'hyps', 'rec', 'tags', 'frames', 'trace', 'depth', 'ghost', 'unroll', 'block', 'loopctx', 'prods')
    def __init__(s):
        s.env = {}; s.mem = {}; s.cells = {}; s.vecs = {}; s.hyps = []; s.rec = {}; s.tags = {}; s.frames = []; s.trace = []
        s.depth = 0; s.ghost = {}; s.unroll = {}; s.loopctx = {}; s.prods = []
    def copy(s):
        n = State.__new__(State)
        n.env = dict(s.env); n.mem = dict(s.mem); n.cells = dict(s.cells); n.vecs = dict(s.vecs); n.hyps = list(s.hyps)
        n.rec = {k: dict(v) for k, v in s.rec.items()}; n.tags = {k: dict(v) for k, v in s.tags.items()}
        n.frames = list(s.frames); n.trace = list(s.trace); n.depth = s.depth; n.ghost = dict(s.ghost); n.unroll = dict(s.unroll)
        n.loopctx = dict(s.loopctx); n.prods = list(s.prods)
        return n
    def __getitem__(s, r): return s.mem[r]
    def prod(s, x, y):
        """note the product x*y; adds monotonicity lemma instances against earlier products sharing a factor"""
        x, y = P(x), P(y)
        if x.isconst() or y.isconst(): return
        for u, v in s.prods:
            if (u.same(x) and v.same(y)) or (u.same(y) and v.same(x)): return
        for u, v in s.prods:
            for c, p, q in ((u, v, y if u.same(x) else x if u.same(y) else None), (v, u, y if v.same(x) else x if v.same(y) else None)):
                if q is None: continue
                for m, n in ((p, q), (q, p)):
                    s.hyps.append(Implies(And(ge(c, 0), le(m, n)), le(c * m, c * n)))
                    s.hyps.append(Implies(And(ge(c, 0), lt(m, n)), le(c * m + c, c * n)))
        s.prods.append((x, y))
        s.hyps.append(Implies(And(ge(x, 0), ge(y, 0)), ge(x * y, 0)))
    def tag(s, name, p): s.tags.setdefault(name, {})[P(p).key()] = P(p)

class Snap:
    """immutable view of memory at a point"""
    def __init__(s, st): s.mem = dict(st.mem); s.cells = dict(st.cells); s.vecs = dict(st.vecs); s.ghost = dict(st.ghost)
    def __getitem__(s, r): return s.mem[r]
    def vlen(s, v): return s.vecs[v] if v in s.vecs else v.n

class Obl:
    __slots__ = ('fn', 'name', 'hyps', 'goal', 'rec', 'tags', 'trace', 'kind', 'res')
    def __init__(s, fn, name, hyps, goal, rec, tags, trace, kind):
        s.fn, s.name, s.hyps, s.goal, s.rec, s.tags, s.trace, s.kind, s.res = fn, name, hyps, goal, rec, tags, trace, kind, None

# ---------------------------------------------------------------- permutation facts
class Group:
    """a row of tuples spread over regions; sel(coords) -> (cond, j)"""
    def __init__(s, name, regions, rowphys, inrow, n):
        s.name, s.regions, s.rowphys, s.inrow, s.n = name, regions, rowphys, inrow, P(n)
        # rowphys(r, j) -> phys index;  inrow(r, phys) -> (cond, j poly)
        s.cols = [(r, lambda j, r=r: rowphys(r, j)) for r in regions]     # components of the tuple j

class Perm:
    """multiset of the group's tuples is the same in two snapshots"""
    def __init__(s, group, s0, s1, tag=None, elim=True): s.group, s.s0, s.s1, s.tag, s.elim = group, s0, s1, tag, elim

class Counter:
    """counts of an arbitrary fixed tuple w in the group's row, per memory state (finite differences along stores)"""
    def __init__(s):
        s.w = {}; s.base = {}
    def wit(s, g):
        k = tuple(id(r) for r, _ in g.cols)
        if k not in s.w:
            s.w[k] = [Poly.fresh('w_' + r.name) if r.sort == 'I' else RP.term(z3.Real(poly.fresh_name('w_' + r.name))) if r.sort == 'F'
                      else z3.BitVec(poly.fresh_name('w_' + r.name), 8) for r, _ in g.cols]
        return s.w[k]
    def count(s, g, snap):
        """z3 Int term for the number of row entries equal to w in snap"""
        nodes = [snap[r] for r in g.regions]
        bases = []; touched = []
        for r, n in zip(g.regions, nodes):
            while isinstance(n, Store):
                touched.append((r, r.phys(n.c))); n = n.prev
            bases.append(n)
        key = (tuple(id(r) for r in g.regions), g.name, g.n.key(), g.cols[0][1](P(0)).key(), len(g.cols), tuple(id(b) for b in bases))
        if key not in s.base:
            s.base[key] = (z3.Int(poly.fresh_name('cnt_' + g.name)), bases)
        N = s.base[key][0]
        # distinct touched row positions
        js = {}
        for r, p in touched:
            c, j = g.inrow(r, p)
            if z3.is_false(c): continue
            kk = j.key()
            js[kk] = (Or(js[kk][0], c) if kk in js else c, j)
        w = s.wit(g)
        bs = {r: b for r, b in zip(g.regions, bases)}
        terms = [N]; prev = []
        def iseq(mem, j):
            return And(*[logic.cell_eq(r, rd(mem(r), ph(j)), w[i]) for i, (r, ph) in enumerate(g.cols)])
        for c, j in js.values():
            fresh = And(c, *[Not(And(c2, eq(j, j2))) for c2, j2 in prev])
            prev.append((c, j))
            a = iseq(lambda r: snap[r], j); b = iseq(lambda r: bs[r], j)
            terms.append(z3.If(And(fresh, a), 1, 0) - z3.If(And(fresh, b), 1, 0))
        return z3.Sum(terms)

def perm_foralls(g, s0, s1, tag, st=None):
    """elimination: equal counts of every tuple <=> a bijection of positions (trusted lemma of finite combinatorics)"""
    pi = z3.Function(poly.fresh_name('pi'), z3.IntSort(), z3.IntSort()); sg = z3.Function(poly.fresh_name('sigma'), z3.IntSort(), z3.IntSort())
    # latest permutation: entry j of s1 was entry pi(j) of s0, entry j of s0 is entry sigma(j) of s1
    if st is not None: st.ghost['pi'], st.ghost['sigma'] = (lambda j: Poly.term(pi(P(j).t()))), (lambda j: Poly.term(sg(P(j).t())))
    def mk(f, finv, sa, sb):
        # sa[j] = sb[f(j)]
        def body(j):
            fj = Poly.term(f(j.t()))
            return And(le(0, fj), lt(fj, g.n), Poly.term(finv(fj.t())).t() == j.t(),
                       *[logic.cell_eq(r, rd(sa[r], ph(j)), rd(sb[r], ph(fj))) for r, ph in g.cols])
        return body
    src = g.src if hasattr(g, 'src') else []
    tg = tag or 'row'
    return [Forall([Var('j', src, tags=[tg], lo=0, hi=g.n)], mk(pi, sg, s1, s0), 'perm'),
            Forall([Var('j', src, tags=[tg], lo=0, hi=g.n)], mk(sg, pi, s0, s1), 'perm-inv')]

# ---------------------------------------------------------------- contracts
class LoopSpec:
    def __init__(s, name, vars=(), inv=None, variant=None, modifies=None, bv=(), ghost=None, hints=None, noterm=False, unroll=False, pre_hints=None, forget=False, after=None):
        s.forget, s.after = forget, after
        s.name, s.vars, s.inv, s.variant, s.modifies, s.bv = name, list(vars), inv, variant, modifies, set(bv)
        s.ghost, s.hints, s.noterm, s.unroll, s.pre_hints = ghost, hints, noterm, unroll, pre_hints

class Contract:
    name = None          # display name
    fn = None            # regex on demangled name
    mode = 'real'
    loops = []
    reads_confined = False
    timeout = 10000
    rounds = 2
    inline_only = False
    def make(s, E, st, f): """fresh symbolic arguments (list)"""; raise NotImplementedError
    def bind(s, E, st, args): """namespace from argument values"""; raise NotImplementedError
    def pre(s, a, S): return []
    def modifies(s, a, S): return []
    def post(s, a, S0, S1, ret): return []
    def result(s, E, a, st, f): """fresh result at call sites"""; return default_result(E, st, f.ret)
    def on_exit(s, E, st, a): pass
    def groups(s, a): return []
    def products(s, a): return []

class NS:
    def __init__(s, **k): s.__dict__.update(k)

def default_result(E, st, ty):
    if isinstance(ty, VoidT): return None
    return E.fresh_val(ty, 'ret')

# ---------------------------------------------------------------- engine
MAXPATHS = 4000
INTRINSICS = []   # (regex, handler)
def intrinsic(rx):
    def d(f):
        INTRINSICS.append((re.compile(rx), f)); return f
    return d

class Engine:
    def __init__(s, mod, contracts, budget=600):
        s.mod = mod; s.contracts = contracts; s.obls = []; s.cover = {}; s.npaths = 0
        s.deadline = time.time() + budget
        s.counter = Counter(); s.globals = {}; s.assumed = set(); s.used_contracts = set(); s.curfn = ''
        s.loopmap = {}; s.covered_loops = {}
        s.intr_used = set()
        s._ccache = {}; s._icache = {}; s._kcache = {}
    # ---- finding things
    def contract_for(s, name):
        if name in s._ccache: return s._ccache[name]
        dem = s.mod.dem.get(name.strip('@').strip('"'), name)
        r = None
        for c in s.contracts:
            if re.match(c.fn, strip_ret(dem)): r = c; break
        s._ccache[name] = r
        return r
    def intrinsic_for(s, name):
        own = getattr(s.contract, 'intrinsics', ())        # assumed library contracts of one unit
        if (id(own), name) in s._icache: return s._icache[(id(own), name)]
        dem = s.mod.dem.get(name.strip('@').strip('"'), name.strip('@'))
        d = strip_ret(dem); r = None
        for rx, h in list(own) + INTRINSICS:
            if rx.match(d): r = h; break
        s._icache[(id(own), name)] = r
        return r
    def find(s, contract):
        fs = [f for f in s.mod.funcs.values() if re.match(contract.fn, strip_ret(f.dem))]
        if len(fs) != 1: raise Unsupported('function for contract %s: %d candidates' % (contract.name, len(fs)))
        return fs[0]
    # ---- helpers
    def fresh_val(s, ty, name, bv=False, uns=None):
        ty = s.mod.ty(ty)
        if isinstance(ty, IntT):
            if ty.n == 1: return BoolV(z3.Bool(poly.fresh_name(name)))
            if bv: return BVV(z3.BitVec(poly.fresh_name(name), ty.n), ty.n)
            if uns is None: uns = ty.n in (8, 64)
            return IntV(Poly.fresh(name, 0, 2**ty.n - 1) if uns else Poly.fresh(name, -2**(ty.n-1), 2**(ty.n-1) - 1), ty.n)
        if isinstance(ty, FloatT):
            if s.mode == 'fp': return z3.FP(poly.fresh_name(name), fsort(ty))
            return RP.term(z3.Real(poly.fresh_name(name)))
        if isinstance(ty, PtrT): return OpaqueV(name)
        return UndefV()
    def oblige(s, st, name, goal, kind='assert'):
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        if not isinstance(goal, (Forall, Perm)) and z3.is_true(goal):
            s.trivial = getattr(s, 'trivial', 0) + 1
            s.trivial_names = getattr(s, 'trivial_names', {}); s.trivial_names[(s.curfn, name)] = s.trivial_names.get((s.curfn, name), 0) + 1
            return
        if isinstance(goal, Perm):
            save = logic.REC; logic.REC = st.rec
            try:
                c0 = s.counter.count(goal.group, goal.s0); c1 = s.counter.count(goal.group, goal.s1)
            finally: logic.REC = save
            goal = c0 == c1
        s.obls.append(Obl(s.curfn, name, list(st.hyps), goal, {k: dict(v) for k, v in st.rec.items()},
                          {k: dict(v) for k, v in st.tags.items()}, list(st.trace), kind))
    def oblige_with(s, st, name, hyps, goal, kind='lemma'):
        n = st.copy(); n.hyps += list(hyps)
        s.oblige(n, name, goal, kind)
    def assume(s, st, f, tag=None):
        if isinstance(f, (list, tuple)):
            for x in f: s.assume(st, x)
            return
        if isinstance(f, Perm):
            save = logic.REC; logic.REC = st.rec
            try:
                st.hyps.append(s.counter.count(f.group, f.s0) == s.counter.count(f.group, f.s1))
            finally: logic.REC = save
            # enclosing groups: cells outside the permuted row are unchanged, so their counts are equal too
            for g in getattr(s, 'groups', []):
                if [id(r) for r in g.regions] == [id(r) for r in f.group.regions] and s.sub_group(st, f.group, g) and s.only_row(f):
                    st.hyps.append(s.counter.count(g, f.s0) == s.counter.count(g, f.s1))
            if f.elim: st.hyps += perm_foralls(f.group, f.s0, f.s1, f.tag, st)
            return
        if isinstance(f, bool): f = z3.BoolVal(f)
        if not isinstance(f, Forall) and z3.is_true(f): return
        st.hyps.append(f)
    def instantiate(s, st, fa, *args):
        """ground instance of an assumed quantified fact"""
        save = logic.REC; logic.REC = {}
        try:
            g = []
            for v, q in zip(fa.vars, args):
                if v.lo is not None: g.append(le(v.lo, q))
                if v.hi is not None: g.append(lt(q, v.hi))
            f = Implies(And(*g), fa.body(*[P(x) for x in args]))
            if not z3.is_true(f): st.hyps.append(f)
        finally: logic.REC = save
    def sub_group(s, st, g1, g2):
        j = Poly.fresh('sk_g'); r, ph = g1.cols[0]
        return len(g1.cols) == len(g2.cols) and s.implied(st, Implies(And(le(0, j), lt(j, g1.n)), g2.inrow(r, ph(j))[0]), 2000)
    def only_row(s, f):
        """f.s1 differs from f.s0 only by one havoc per region, confined to the group's row"""
        for r in f.group.regions:
            n = f.s1[r]
            if n is f.s0[r]: continue
            if not (isinstance(n, Havoc) and n.prev is f.s0[r]): return False
            p = r.phys([Poly.fresh('sk_o') for _ in r.layout])
            c = Implies(n.pred(p), f.group.inrow(r, p)[0])
            if not z3.is_true(c) and logic.check_sat([z3.Not(c)], 2000)[0] != z3.unsat: return False
        return True
    def implied(s, st, c, timeout=300):
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = (len(st.hyps), id(st.hyps[-1]) if st.hyps else 0, c.get_id())
        r = s._kcache.get(k)
        if r is None:
            r = logic.implied(st.hyps, c, timeout); s._kcache[k] = r; s._kcache.setdefault('keep', []).append((c, st.hyps[-1] if st.hyps else None))
        return r
    def decide(s, st, c):
        """simplify a membership / aliasing condition met while reading memory"""
        if s.implied(st, c, 150): return TRUE
        if s.implied(st, Not(c), 150): return FALSE
        return c
    # ---- integer views
    def signed(s, st, v):
        n = v.n; lo, hi = v.p.interval()
        if hi is not None and hi < 2**(n-1): return v.p
        if lo is not None and lo >= 2**(n-1): return v.p - 2**n
        if s.implied(st, lt(v.p, 2**(n-1))): return v.p
        if s.implied(st, ge(v.p, 2**(n-1))): return v.p - 2**n
        return pol_ite(lt(v.p, 2**(n-1)), v.p, v.p - 2**n)
    def unsigned(s, st, v):
        n = v.n; lo, hi = v.p.interval()
        if lo is not None and lo >= 0: return v.p
        if hi is not None and hi < 0: return v.p + 2**n
        if s.implied(st, ge(v.p, 0)): return v.p
        if s.implied(st, lt(v.p, 0)): return v.p + 2**n
        return pol_ite(ge(v.p, 0), v.p, v.p + 2**n)
    def wrap(s, st, r, n):
        """value of mathematical r as n-bit integer (canonical poly)"""
        lo, hi = r.interval()
        if lo is not None and hi is not None:
            if lo >= -2**(n-1) and hi < 2**(n-1): return r
            if lo >= 0 and hi < 2**n: return r
        if s.implied(st, And(ge(r, 0), lt(r, 2**n))): return r
        if s.implied(st, And(ge(r, -2**(n-1)), lt(r, 2**(n-1)))): return r
        q = Poly.fresh('q'); x = Poly.fresh('wrap', 0, 2**n - 1)
        st.hyps.append(eq(x + q * (2**n), r))
        return x
    def norm_pol(s, x): return x
    # ---- operands
    def val(s, st, v, ty):
        if isinstance(v, Reg):
            if v.n not in st.env: raise Unsupported('undefined register ' + v.n)
            return st.env[v.n]
        if isinstance(v, CInt):
            t = s.mod.ty(ty)
            if isinstance(t, IntT) and t.n == 1: return BoolV(z3.BoolVal(bool(v.v)))
            return IntV(v.v, t.n)
        if isinstance(v, CFloat):
            t = s.mod.ty(ty)
            if s.mode == 'fp': return z3.FPVal(v.v, fsort(t)) if v.v == v.v and abs(v.v) != float('inf') else (z3.fpPlusInfinity(fsort(t)) if v.v > 0 else z3.fpMinusInfinity(fsort(t)) if v.v < 0 else z3.fpNaN(fsort(t)))
            if v.v == float('inf'): return RP.term(INF)
            if v.v != v.v: raise Unsupported('nan')
            return RP.const(__import__('fractions').Fraction(v.v))
        if isinstance(v, CNull): return NullV()
        if isinstance(v, CUndef): return UndefV()
        if isinstance(v, CZero):
            return s.zero(ty)
        if isinstance(v, Glob): return s.global_ptr(st, v.n)
        if isinstance(v, CGep):
            b = s.val(st, v.base, PtrT())
            return s.gep(st, v.ty, b, [(t, s.val(st, x, t)) for t, x in v.idx])
        if isinstance(v, CAgg): return StructV([s.val(st, x, t) for t, x in v.e])
        raise Unsupported('operand %r' % v)
    def zero(s, ty):
        t = s.mod.ty(ty)
        if isinstance(t, IntT): return BoolV(FALSE) if t.n == 1 else IntV(0, t.n)
        if isinstance(t, FloatT): return z3.FPVal(0.0, fsort(t)) if s.mode == 'fp' else RP.const(0)
        if isinstance(t, PtrT): return NullV()
        if isinstance(t, StructT): return StructV([s.zero(x) for x in t.f])
        if isinstance(t, ArrT): return StructV([s.zero(t.e) for _ in range(t.n)])
        raise Unsupported('zero of %r' % t)
    def global_ptr(s, st, n):
        h = getattr(s.contract, 'globals', None)
        if h and n in h: return h[n]
        if n in s.globals:
            o = s.globals[n]
        else:
            gi = s.mod.glob_init(n); o = None
            if gi:
                t, v, isconst = gi; tt = s.mod.ty(t)
                if isinstance(v, CStr): o = ('str', v.b)
                elif isconst and isinstance(tt, ArrT) and isinstance(v, CZero) and isinstance(s.mod.ty(tt.e), IntT) and s.mod.ty(tt.e).n == 8: o = ('str', bytes(tt.n))
                elif isconst and isinstance(tt, ArrT) and isinstance(v, CAgg):
                    et = s.mod.ty(tt.e)
                    if isinstance(et, IntT):
                        vals = [P(x.v % 2**et.n) for _, x in v.e]
                        r = Region('tbl' + n[:12], 'u%d' % et.n); o = (r, TableMem(r, vals))
                    elif isinstance(et, FloatT):
                        vals = [RP.const(__import__('fractions').Fraction(x.v if isinstance(x, CFloat) else 0)) for _, x in v.e]
                        r = Region('tbl' + n[:12], 'f32' if et.k == 'float' else 'f64'); o = (r, TableMem(r, vals))
            if o is None: o = ('opaque', n)
            s.globals[n] = o
        if o[0] == 'str': return PtrV(GStr(o[1]), 0)
        if o[0] == 'opaque': return OpaqueV(n)
        st.mem.setdefault(o[0], o[1])
        return PtrV(o[0], 0)
    def gep(s, st, gt, base, idx):
        if not isinstance(base, PtrV):
            if isinstance(base, OpaqueV): return OpaqueV(base.d)
            raise Unsupported('gep on %r' % (base,))
        off = base.off; t = gt
        for k, (it, iv) in enumerate(idx):
            if not isinstance(iv, IntV): raise Unsupported('gep index %r' % (iv,))
            if k == 0: off = off + s.signed(st, iv) * s.mod.size(t)
            else:
                tt = s.mod.ty(t)
                if isinstance(tt, StructT):
                    f = iv.p.cval(); off = off + s.mod.field_off(tt, f); t = tt.f[f]
                elif isinstance(tt, ArrT):
                    off = off + s.signed(st, iv) * s.mod.size(tt.e); t = tt.e
                else: raise Unsupported('gep into %r' % tt)
        return PtrV(base.r, off)
    # ---- threads: a worker touches only its own row of what workers write; the spawning thread waits before it touches shared data
    def thread_access(s, st, r, pred, write, what):
        """pred: p -> condition that cell p is accessed"""
        g = st.ghost
        if 'nlive' not in g or getattr(r, 'threads', False): return
        w = g.get('worker'); rows = getattr(s.contract, 'worker_regions', lambda a, st: {})(s.a, st)
        def inside(own):
            sk = r.phys([Poly.fresh('sk_t') for _ in r.layout])
            return Implies(pred(sk), own(sk))
        if w is not None:
            own = w.rows(st).get(r) if w.rows else None
            if write or r in rows: s.oblige(st, 'worker-own-row:%s:%s' % (what, r.name), inside(own) if own is not None else FALSE, 'thread')
        elif write or r in rows:
            s.oblige(st, 'main-waits:%s:%s' % (what, r.name), eq(g['nlive'], 0), 'thread')
    def thread_cell(s, st, c, what):
        g = st.ghost
        if 'nlive' not in g: return
        if g.get('worker') is not None:
            if c in g.get('captured', ()): s.oblige(st, 'worker-writes-shared-variable:%s' % c.name.split('#')[0], FALSE, 'thread')
        elif c in g.get('captured', ()):
            s.oblige(st, 'captured-variable-outlives-worker:%s:%s' % (what, str(getattr(c, 'name', c)).split('#')[0]), eq(g['nlive'], 0), 'thread')
    # ---- memory
    def elem_index(s, r, off):
        if r.esz == 1: return off
        q, m = off.divmod_const(r.esz)
        if m.m: raise Unsupported('misaligned access to %s: %r' % (r.name, off))
        return q
    def bounds(s, st, r, p, what):
        co = r.decode(p)
        for c, n, in zip(co, r.sizes):
            if n is None: continue
            s.oblige(st, 'bounds:%s:%s' % (what, r.name), And(le(0, c), lt(c, n)), 'safety')
    def cell_bounds(s, st, ptr, ty, what):
        r = ptr.r
        if r.size is None: return
        o = ptr.off.cval(); n = s.mod.size(s.mod.ty(ty))
        if not (0 <= o and o + n <= r.size): s.oblige(st, 'bounds:%s:%s' % (what, r.name.split('#')[0]), FALSE, 'safety')
    def load(s, st, ptr, ty):
        t = s.mod.ty(ty)
        if not isinstance(ptr, PtrV): raise Unsupported('load through %r' % (ptr,))
        r = ptr.r
        if isinstance(r, Cells):
            if not ptr.off.isconst(): raise Unsupported('symbolic offset into %s' % r)
            s.cell_bounds(st, ptr, ty, 'load')
            k = (r, ptr.off.cval())
            v = st.cells.get(k)
            if isinstance(t, StructT) and k not in st.cells or isinstance(t, StructT) and not isinstance(v, StructV):
                return StructV([s.load(st, PtrV(r, ptr.off + s.mod.field_off(t, q)), x) for q, x in enumerate(t.f)])
            if isinstance(t, IntT) and t.n > 8 and t.n % 8 == 0 and not (isinstance(v, (IntV, BVV)) and v.n == t.n) and not isinstance(v, PackV):
                parts = sorted((o[1] - k[1], x) for o, x in st.cells.items() if o[0] is r and isinstance(o[1], int) and k[1] <= o[1] < k[1] + t.n // 8)
                if len(parts) > 1 and parts[0][0] == 0: return PackV(parts, t.n)
            if v is None: raise Unsupported('load of unknown cell %s+%d' % k)
            return s.coerce(st, v, t)
        if isinstance(r, Region):
            p = s.elem_index(r, ptr.off)
            s.bounds(st, r, p, 'load')
            if isinstance(st.mem[r], TableMem): s.oblige(st, 'bounds:load:constant table', And(le(0, p), lt(p, len(st.mem[r].v))), 'safety')
            if 'nlive' in st.ghost: s.thread_access(st, r, lambda x: eq(x, p), False, 'load')
            if s.reads_confined:
                for reg, pred in st.frames[0]:
                    if reg is r: s.oblige(st, 'reads-own:%s' % r.name, pred(p), 'frame')
            save = logic.REC; logic.REC = st.rec; logic.DECIDE = lambda c: s.decide(st, c)
            try: v = rd(st.mem[r], p)
            finally: logic.REC = save; logic.DECIDE = None
            if r.sort == 'I':
                if not isinstance(t, IntT) or s.mod.size(t) != r.esz: raise Unsupported('load type %r from %s' % (t, r))
                return IntV(v, t.n)
            if r.sort == 'B': return BVV(v, 8)
            if not isinstance(t, FloatT): raise Unsupported('load type %r from %s' % (t, r))
            return v
        if isinstance(r, GStr):
            if ptr.off.isconst():
                i = ptr.off.cval()
                if isinstance(t, IntT) and t.n == 8: return IntV(r.b[i], 8)
        h = getattr(r, 'load', None)
        if h: return h(s, st, ptr, t)
        raise Unsupported('load from %r' % (r,))
    def coerce(s, st, v, t):
        if isinstance(v, IntV) and isinstance(t, IntT) and v.n != t.n:
            if t.n == 1: return BoolV(ne(v.p, 0))
            raise Unsupported('cell width')
        if isinstance(v, BoolV) and isinstance(t, IntT) and t.n == 8: return IntV(pol_ite(v.c, P(1), P(0)), 8, v.c)
        return v
    def store(s, st, ptr, v, ty):
        if not isinstance(ptr, PtrV): raise Unsupported('store through %r' % (ptr,))
        r = ptr.r
        if isinstance(r, Cells):
            if not ptr.off.isconst(): raise Unsupported('symbolic offset into %s' % r)
            s.cell_bounds(st, ptr, ty, 'store')
            if not r.local:
                ok = any(x is r for f in st.frames[-1:] for x, _ in f)
                if not ok: s.oblige(st, 'frame:%s' % r.name, FALSE, 'frame')
            if 'nlive' in st.ghost: s.thread_cell(st, r, 'store')
            if isinstance(v, PackV):
                for o, x in v.parts: st.cells[(r, ptr.off.cval() + o)] = x
                return
            st.cells[(r, ptr.off.cval())] = v
            return
        if isinstance(r, Region):
            p = s.elem_index(r, ptr.off)
            s.bounds(st, r, p, 'store')
            if 'nlive' in st.ghost: s.thread_access(st, r, lambda x: eq(x, p), True, 'store')
            if not r.local:
                for fr in st.frames:
                    preds = [pred(p) for reg, pred in fr if reg is r]
                    s.oblige(st, 'frame:%s' % r.name, Or(*preds) if preds else FALSE, 'frame')
            if r.sort == 'I':
                if isinstance(v, BVV): raise Unsupported('bv into int region')
                if not isinstance(v, IntV): raise Unsupported('store %r' % (v,))
                x = s.unsigned(st, v) if r.lo == 0 else s.signed(st, v)
            elif r.sort == 'B':
                x = v.t if isinstance(v, BVV) else z3.BitVecVal(v.p.cval(), 8) if v.p.isconst() else z3.Int2BV(v.p.t(), 8)
            else: x = v
            save = logic.REC; logic.REC = st.rec
            st.rec.setdefault(r, {})[p.key()] = p
            st.mem[r] = Store(r, st.mem[r], r.decode(p), x); logic.REC = save
            return
        h = getattr(r, 'store', None)
        if h: return h(s, st, ptr, v, ty)
        raise Unsupported('store to %r' % (r,))
    # ---- instructions
    def binop(s, st, i):
        a, b = (s.val(st, x, i.ty) for x in i.a)
        op = i.op; ty = s.mod.ty(i.ty); n = ty.n
        if isinstance(a, UndefV) or isinstance(b, UndefV): return UndefV()
        if n == 1:
            if op == 'xor': return BoolV(Not(Iff(a.c, b.c)))
            if op == 'and': return BoolV(And(a.c, b.c))
            if op == 'or': return BoolV(Or(a.c, b.c))
            raise Unsupported(op + ' i1')
        if isinstance(a, BVV) or isinstance(b, BVV) or (s.bvints and op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr') and not (a.p.isconst() and b.p.isconst())):
            return s.bvop(st, op, a, b, n)
        if isinstance(a, PtrV) or isinstance(b, PtrV): raise Unsupported('pointer arithmetic ' + op)
        fl = i.x['fl']
        if op in ('add', 'sub', 'mul'):
            if 'nsw' in fl:
                x, y = s.signed(st, a), s.signed(st, b)
            else: x, y = a.p, b.p
            if op == 'mul':
                if a.b is not None and not y.isconst(): r = pol_ite(a.b, y, P(0))
                elif b.b is not None and not x.isconst(): r = pol_ite(b.b, x, P(0))
                else:
                    h = getattr(s.contract, 'mul_hint', None)
                    if h: h(s, st, x, y)
                    r = None
                    if getattr(s.contract, 'split_mul', False):
                        for u, v in ((x, y), (y, x)):
                            t = v.t()
                            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(t.arg(1)) and z3.is_int_value(t.arg(2)):
                                r = pol_ite(t.arg(0), u * t.arg(1).as_long(), u * t.arg(2).as_long()); break
                    if r is None: st.prod(x, y); r = x * y
            else: r = x + y if op == 'add' else x - y
            if 'nsw' in fl:
                lo, hi = r.interval()
                if not (lo is not None and hi is not None and lo >= -2**(n-1) and hi < 2**(n-1)):
                    g = And(ge(r, -2**(n-1)), lt(r, 2**(n-1)))
                    if not s.implied(st, g):
                        s.oblige(st, 'no-overflow:%s' % op, g, 'safety'); st.hyps.append(g)
                return IntV(r, n)
            return IntV(s.wrap(st, r, n), n)
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            sg = op[0] == 's'
            x, y = (s.signed(st, a), s.signed(st, b)) if sg else (s.unsigned(st, a), s.unsigned(st, b))
            s.oblige(st, 'div-nonzero', ne(y, 0), 'safety')
            if x.isconst() and y.isconst() and y.cval():
                xa, ya = x.cval(), y.cval(); q = abs(xa) // abs(ya) * (1 if (xa < 0) == (ya < 0) else -1)
                return IntV(q if op[1:] == 'div' else xa - q * ya, n)
            if not (s.implied(st, ge(x, 0)) and s.implied(st, gt(y, 0))):
                if not sg: raise Unsupported('udiv sign')
                s.oblige(st, 'div-nonneg', And(ge(x, 0), gt(y, 0)), 'safety'); st.hyps.append(And(ge(x, 0), gt(y, 0)))
            q, r = s.divmod(st, x, y)
            return IntV(q if op[1:] == 'div' else r, n)
        if op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            if a.p.isconst() and b.p.isconst():
                x, y = a.p.cval(), b.p.cval(); ux, uy = x % 2**n, y % 2**n
                r = {'and': ux & uy, 'or': ux | uy, 'xor': ux ^ uy, 'shl': ux << uy if uy < 64 else 0, 'lshr': ux >> uy,
                     'ashr': (ux - 2**n if ux >= 2**(n-1) else ux) >> uy}[op] % 2**n
                if r >= 2**(n-1): r -= 2**n
                return IntV(r, n)
            if op == 'and' and b.p.isconst() and b.p.cval() > 0 and (b.p.cval() + 1) & b.p.cval() == 0:
                x = s.unsigned(st, a); m = b.p.cval() + 1
                if m == 2**32 and n == 64 and getattr(a, 'lo', None) is not None and getattr(a, 'hi', None) is None: return a
                lo, hi = x.interval()
                if lo is not None and hi is not None and 0 <= lo and hi < m:
                    r = IntV(x, n); r.lo = getattr(a, 'lo', None); return r
                q, r = s.divmod(st, x, P(m)); return IntV(r, n)
            if op == 'or' and getattr(b, 'hi', None) is not None: a, b = b, a
            if op == 'or' and getattr(a, 'hi', None) is not None and getattr(b, 'lo', None) is not None and getattr(a, 'lo', None) is None and getattr(b, 'hi', None) is None:
                r = IntV(s.wrap(st, a.p + b.p, n), n); r.hi, r.lo = a.hi, b.lo; return r
            if op == 'lshr' and b.p.isconst() and b.p.cval() == 32 and getattr(a, 'hi', None) is not None:
                r = IntV(s.unsigned(st, a.hi), n); r.lo = a.hi; return r
            if op in ('lshr', 'ashr') and b.p.isconst():
                x = s.unsigned(st, a) if op == 'lshr' else s.signed(st, a)
                if b.p.cval() == 0: return IntV(x, n)
                if op == 'ashr' and not s.implied(st, ge(x, 0)): raise Unsupported('ashr of negative')
                q, r = s.divmod(st, x, P(2**b.p.cval())); return IntV(q, n)
            if op == 'shl' and b.p.isconst():
                r = IntV(s.wrap(st, a.p * 2**b.p.cval(), n), n)
                if n == 64 and b.p.cval() == 32 and getattr(a, 'lo', None) is not None: r.hi = a.lo
                return r
            if op == 'or' and a.b is not None and b.b is not None:
                c = Or(a.b, b.b); return IntV(pol_ite(c, P(1), P(0)), n, c)
            if op == 'and' and a.b is not None and b.b is not None:
                c = And(a.b, b.b); return IntV(pol_ite(c, P(1), P(0)), n, c)
            h = getattr(s.contract, 'bitop', None)
            if h:
                r = h(s, st, op, a, b, n)
                if r is not None: return r
            raise Unsupported('%s on symbolic ints' % op)
        raise Unsupported(op)
    def divmod(s, st, x, y):
        """quotient/remainder atoms for 0<=x, 0<y (functional in x,y)"""
        q = Poly.term(DIV(x.t(), y.t()), 0); r = Poly.term(MOD(x.t(), y.t()), 0)
        lo, hi = x.interval(); l2, h2 = y.interval()
        if hi is not None:
            qa = poly.atom_of(DIV(x.t(), y.t()), 0, hi if (l2 is None or l2 < 1) else hi // l2)
        if h2 is not None: poly.atom_of(MOD(x.t(), y.t()), 0, h2 - 1)
        st.hyps.append(And(eq(y * q + r, x), ge(q, 0), ge(r, 0), lt(r, y)))
        st.tag('div', q)
        return q, r
    def tobv(s, st, v, n):
        if isinstance(v, BVV): return v.t
        if isinstance(v, BoolV): return z3.If(v.c, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
        if v.p.isconst(): return z3.BitVecVal(v.p.cval(), n)
        if v.b is not None: return z3.If(v.b, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
        return z3.Int2BV(v.p.t(), n)
    def bvop(s, st, op, a, b, n):
        x, y = s.tobv(st, a, n), s.tobv(st, b, n)
        r = {'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y),
             'ashr': lambda: x >> y, 'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y}.get(op)
        if r is None: raise Unsupported('bv ' + op)
        return BVV(z3.simplify(r()), n)
    def icmp(s, st, i):
        a, b = (s.val(st, x, i.ty) for x in i.a); pr = i.x['pred']
        if isinstance(a, (NullV, PtrV, OpaqueV)) or isinstance(b, (NullV, PtrV, OpaqueV)):
            if pr not in ('eq', 'ne', 'ult', 'ule', 'ugt', 'uge'): raise Unsupported('ptr cmp')
            if isinstance(a, NullV) and isinstance(b, NullV): r = TRUE
            elif isinstance(a, NullV) or isinstance(b, NullV):
                o = b if isinstance(a, NullV) else a
                if isinstance(o, PtrV): r = FALSE
                else: raise Unsupported('null cmp of opaque')
            elif isinstance(a, PtrV) and isinstance(b, PtrV) and a.r is b.r:
                x, y = a.off, b.off
                return BoolV({'eq': eq, 'ne': ne, 'ult': lt, 'ule': le, 'ugt': gt, 'uge': ge}[pr](x, y))
            else: raise Unsupported('cmp of %r %r' % (a, b))
            return BoolV(r if pr == 'eq' else Not(r))
        if isinstance(a, BoolV) or isinstance(b, BoolV):
            if pr == 'eq': return BoolV(Iff(a.c, b.c))
            if pr == 'ne': return BoolV(Not(Iff(a.c, b.c)))
            raise Unsupported('bool cmp')
        if isinstance(a, UndefV) or isinstance(b, UndefV): raise Unsupported('icmp undef')
        n = s.mod.ty(i.ty).n
        if isinstance(a, BVV) or isinstance(b, BVV):
            x, y = s.tobv(st, a, n), s.tobv(st, b, n)
            return BoolV(z3.simplify({'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
                          'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y,
                          'sgt': lambda: x > y, 'sge': lambda: x >= y}[pr]()))
        if pr in ('eq', 'ne'):
            if a.b is not None and b.p.isconst() and b.p.cval() in (0, 1):
                c = a.b if b.p.cval() == 1 else Not(a.b)
                return BoolV(c if pr == 'eq' else Not(c))
            # same canonical view
            la, ha = a.p.interval(); lb, hb = b.p.interval()
            if (la is not None and la >= 0 and lb is not None and lb >= 0) : x, y = a.p, b.p
            elif (ha is not None and ha < 2**(n-1) and hb is not None and hb < 2**(n-1)): x, y = a.p, b.p
            else: x, y = s.signed(st, a), s.signed(st, b)
            return BoolV(eq(x, y) if pr == 'eq' else ne(x, y))
        x, y = (s.signed(st, a), s.signed(st, b)) if pr[0] == 's' else (s.unsigned(st, a), s.unsigned(st, b))
        return BoolV({'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[pr[1:]](x, y))
    def fcmp(s, st, i):
        a, b = (s.val(st, x, i.ty) for x in i.a); pr = i.x['pred']
        if s.mode == 'fp':
            o = Not(Or(z3.fpIsNaN(a), z3.fpIsNaN(b)))
            base = {'eq': lambda: z3.fpEQ(a, b), 'ne': lambda: z3.Not(z3.fpEQ(a, b)), 'lt': lambda: z3.fpLT(a, b), 'le': lambda: z3.fpLEQ(a, b),
                    'gt': lambda: z3.fpGT(a, b), 'ge': lambda: z3.fpGEQ(a, b)}
            if pr == 'ord': return BoolV(o)
            if pr == 'uno': return BoolV(Not(o))
            c = base[pr[1:]]()
            return BoolV(And(o, c) if pr[0] == 'o' else Or(Not(o), c))
        s.assumed.add('floating-point values are not NaN')
        if pr == 'ord': return BoolV(TRUE)
        if pr == 'uno': return BoolV(FALSE)
        p = pr[1:]
        st.ghost['fcmp'] = (a, b)
        fk = getattr(s.contract, 'fork_fcmp', None)
        r = s.fcmp_real(p, a, b)
        if fk and not z3.is_true(r.c) and not z3.is_false(r.c) and fk(s, st): raise Fork(r.c, (BoolV(TRUE), BoolV(FALSE)))
        return r
    def fcmp_real(s, p, a, b):
        return BoolV({'eq': lambda: req(a, b), 'ne': lambda: Not(req(a, b)), 'lt': lambda: rlt(a, b), 'le': lambda: rle(a, b),
                      'gt': lambda: rlt(b, a), 'ge': lambda: rle(b, a)}[p]())
    def fbin(s, st, i):
        v = [s.val(st, x, i.ty) for x in i.a]; op = i.op
        if any(isinstance(x, UndefV) for x in v): return UndefV()
        if s.mode == 'fp':
            rm = z3.RNE()
            if op == 'fneg': return z3.fpNeg(v[0])
            return {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](rm, v[0], v[1])
        if op == 'fneg': return -v[0]
        a, b = v
        if op == 'fadd': return a + b
        if op == 'fsub': return a - b
        if op == 'fmul': return a * b
        if op == 'fdiv': return s.fdiv(st, a, b)
        raise Unsupported(op)
    def fdiv(s, st, a, b):
        r = rpoly.rdiv(a, b)
        if isinstance(r, tuple):
            r, (b, inv) = r
            st.hyps.append(Implies(Not(req(b, 0)), req(b * inv, 1)))
        return r
    def cast(s, st, i):
        v = s.val(st, i.a[0], i.x['from']); op = i.op; t = s.mod.ty(i.ty); ft = s.mod.ty(i.x['from'])
        if isinstance(v, UndefV): return UndefV()
        if op in ('zext', 'sext'):
            if isinstance(v, BoolV):
                if z3.is_true(v.c): return IntV(1 if op == 'zext' else -1, t.n)
                if z3.is_false(v.c): return IntV(0, t.n)
                if op == 'sext': raise Unsupported('sext bool')
                return IntV(pol_ite(v.c, P(1), P(0)), t.n, v.c)
            if isinstance(v, BVV):
                return BVV(z3.simplify(z3.ZeroExt(t.n - v.n, v.t) if op == 'zext' else z3.SignExt(t.n - v.n, v.t)), t.n)
            r = IntV(s.unsigned(st, v) if op == 'zext' else s.signed(st, v), t.n, v.b)
            if op == 'zext' and (v.n, t.n) == (32, 64): r.lo = v           # a pair of ints in one register
            return r
        if op == 'trunc':
            if isinstance(v, IntV) and t.n == 32 and getattr(v, 'lo', None) is not None: return v.lo
            if isinstance(v, BVV):
                if t.n == 1: return BoolV(z3.simplify(z3.Extract(0, 0, v.t) == 1))
                return BVV(z3.simplify(z3.Extract(t.n - 1, 0, v.t)), t.n)
            if v.b is not None: return BoolV(v.b) if t.n == 1 else IntV(v.p, t.n, v.b)
            if t.n == 1:
                if v.p.isconst(): return BoolV(z3.BoolVal(bool(v.p.cval() & 1)))
                lo, hi = v.p.interval()
                if lo == 0 and hi == 1: return BoolV(eq(v.p, 1))
                q, r = s.divmod(st, s.unsigned(st, v), P(2)); return BoolV(eq(r, 1))
            return IntV(s.wrap(st, v.p, t.n), t.n)
        if op in ('sitofp', 'uitofp'):
            if s.mode == 'fp':
                if isinstance(v, BoolV):
                    one = -1.0 if op == 'sitofp' else 1.0
                    return z3.If(v.c, z3.FPVal(one, fsort(t)), z3.FPVal(0.0, fsort(t)))
                if v.b is not None: return z3.If(v.b, z3.FPVal(1.0, fsort(t)), z3.FPVal(0.0, fsort(t)))
                if isinstance(v, IntV) and v.p.isconst(): return z3.FPVal(v.p.cval(), fsort(t))
                if isinstance(v, BVV): return (z3.fpSignedToFP if op == 'sitofp' else z3.fpUnsignedToFP)(z3.RNE(), v.t, fsort(t))
                raise Unsupported('int to fp')
            c = v.c if isinstance(v, BoolV) else v.b
            if c is not None:
                if z3.is_true(c): return RP.const(1)
                if z3.is_false(c): return RP.const(0)
                r = rite(c, RP.const(1), RP.const(0)); r = RP(dict(r.m)); r.flag = c
                return r
            if isinstance(v, BVV): raise Unsupported('bv to fp')
            x = s.signed(st, v) if op == 'sitofp' else s.unsigned(st, v)
            return itof(x)
        if op in ('fptosi', 'fptoui'):
            if s.mode == 'fp': raise Unsupported('fptosi in fp mode')
            x = FTOI(v.t()); p = Poly.term(x)
            st.hyps.append(Implies(rle(0, v), And(rle(itof(p), v), rlt(v, itof(p) + 1), ge(p, 0))))
            lo, hi = (-2**(t.n-1), 2**(t.n-1)) if op == 'fptosi' else (0, 2**t.n)
            g = And(rlt(lo - 1, v), rlt(v, hi))
            s.oblige(st, 'fptoint-range', g, 'safety'); st.hyps.append(And(ge(p, lo), lt(p, hi)))
            return IntV(p, t.n)
        if op in ('fpext', 'fptrunc'):
            if s.mode == 'fp': return z3.fpFPToFP(z3.RNE(), v, fsort(t))
            return v
        if op == 'ptrtoint':
            if not isinstance(v, PtrV): raise Unsupported('ptrtoint')
            return PtrInt(v)
        if op == 'bitcast': return v
        raise Unsupported(op)
    def select(s, st, i):
        c = s.val(st, i.a[0], IntT(1)); a = s.val(st, i.a[1], i.ty); b = s.val(st, i.a[2], i.ty)
        if getattr(s.contract, 'fold_select', False):
            if s.implied(st, c.c): return a
            if s.implied(st, Not(c.c)): return b
        return s.choose(st, c.c, a, b)
    def choose(s, st, c, a, b):
        if z3.is_true(c): return a
        if z3.is_false(c): return b
        if isinstance(a, BoolV): return BoolV(z3.simplify(z3.If(c, a.c, b.c)))
        if isinstance(a, BVV) or isinstance(b, BVV):
            n = a.n
            return BVV(z3.If(c, s.tobv(st, a, n), s.tobv(st, b, n)), n)
        if isinstance(a, IntV):
            bb = None
            if a.p.isconst() and b.p.isconst() and {a.p.cval(), b.p.cval()} == {0, 1}: bb = c if a.p.cval() == 1 else Not(c)
            la, ha = a.p.interval(); lb, hb = b.p.interval(); n = a.n
            x, y = a.p, b.p
            if not ((la is not None and la >= 0 and lb is not None and lb >= 0) or (ha is not None and ha < 2**(n-1) and hb is not None and hb < 2**(n-1))):
                x, y = s.signed(st, a), s.signed(st, b)
            return IntV(pol_ite(c, x, y), n, bb)
        if isinstance(a, RP):
            if getattr(s.contract, 'fork_select', False): raise Fork(c)
            return rite(c, a, b)
        if s.mode == 'fp' and isinstance(a, z3.FPRef): return z3.If(c, a, b)
        raise Fork(c)
    # ---- calls
    def call(s, st, f, i):
        name = i.x['callee']
        if not name.startswith('@'): raise Unsupported('indirect call')
        if name.startswith('@llvm.'):
            return s.llvm(st, name, i)
        c = s.contract_for(name)
        args = None
        if c is None or c.inline_only:
            h = s.intrinsic_for(name)
            if h is not None:
                args = [s.val(st, x, t) for t, x in i.x['args']]
                s.intr_used.add(short(strip_ret(s.mod.dem.get(name.strip('@').strip('"'), name))))
                return h(s, st, args, i)
            if name in s.mod.funcs and s.depth < 12:
                return s.inline(st, s.mod.funcs[name], [s.val(st, x, t) for t, x in i.x['args']])
            raise Unsupported('call to %s' % short(s.mod.dem.get(name.strip('@').strip('"'), name)))
        args = [s.val(st, x, t) for t, x in i.x['args']]
        return s.apply(st, c, args, s.mod.funcs.get(name), i)
    def apply(s, st, c, args, f, i=None, loc=''):
        s.used_contracts.add(c.name)
        a = c.bind(s, st, args)
        S0 = Snap(st)
        save = logic.REC; logic.REC = st.rec
        try:
            for nm, g in c.pre(a, S0): s.oblige(st, 'pre(%s):%s' % (c.name, nm), g, 'pre')
            mods = c.modifies(a, S0)
            for r, pred in mods:
                s.check_submod(st, r, pred, c.name)
            for r, pred in mods:
                if isinstance(r, Cells):
                    for k in [k for k in st.cells if k[0] is r]:
                        st.cells[k] = s.refresh(st.cells[k], c.name)
                else:
                    st.mem[r] = Havoc(r, st.mem[r], pred, r.newfn(c.name.split('::')[-1]))
            hv = getattr(c, 'havoc_extra', None)
            if hv: hv(s, st, a)
            ret = c.result(s, a, st, f) if f is not None else None
            S1 = Snap(st)
            for nm, g in c.post(a, S0, S1, ret): s.assume(st, g)
            ae = getattr(c, 'after_call', None)
            if ae: ae(s, st, a, S0, S1, ret)
        finally: logic.REC = save
        return ret
    def refresh(s, v, name):
        if isinstance(v, IntV): return IntV(Poly.fresh(name, 0, 2**v.n - 1) if v.n in (8, 64) else Poly.fresh(name, -2**(v.n-1), 2**(v.n-1) - 1), v.n)
        if isinstance(v, BoolV): return BoolV(z3.Bool(poly.fresh_name(name)))
        if isinstance(v, BVV): return BVV(z3.BitVec(poly.fresh_name(name), v.n), v.n)
        if isinstance(v, RP): return RP.term(z3.Real(poly.fresh_name(name)))
        return UndefV()
    def check_submod(s, st, r, pred, who):
        if 'nlive' in st.ghost and isinstance(r, Region): s.thread_access(st, r, pred, True, who)
        if isinstance(r, Cells):
            if r.local: return
            if not any(x is r for f in st.frames[-1:] for x, _ in f): s.oblige(st, 'frame(%s):%s' % (who, r.name), FALSE, 'frame')
            return
        if r.local: return
        for fr in st.frames:
            preds = [q for reg, q in fr if reg is r]
            if not preds:
                s.oblige(st, 'frame(%s):%s' % (who, r.name), FALSE, 'frame'); continue
            sk = Poly.fresh('sk_frame')
            # coordinates of an arbitrary cell
            if len(r.layout) > 1: sk = r.phys([Poly.fresh('sk_c') for _ in r.layout])
            s.oblige(st, 'frame(%s):%s' % (who, r.name), Implies(And(pred(sk), *inr(r, sk)), Or(*[q(sk) for q in preds])), 'frame')
    def llvm(s, st, name, i):
        if name.startswith('@llvm.lifetime.end') and 'nlive' in st.ghost:
            v = s.val(st, i.x['args'][1][1], PtrT())
            if isinstance(v, PtrV): s.thread_cell(st, v.r, 'lifetime')
            return None
        if any(name.startswith('@llvm.' + x) for x in ('lifetime', 'dbg', 'assume', 'experimental', 'invariant', 'stacksave', 'stackrestore')): return None
        args = [s.val(st, x, t) for t, x in i.x['args']]
        if name.startswith('@llvm.memcpy') or name.startswith('@llvm.memmove'): return s.memcpy(st, *args[:3])
        if name.startswith('@llvm.memset'): return s.memset(st, *args[:3])
        if name.startswith('@llvm.fmuladd') or name.startswith('@llvm.fma'): return args[0] * args[1] + args[2]
        if name.startswith('@llvm.trunc'): return s.ftrunc(st, args[0])
        if name.startswith('@llvm.floor'): return s.floor(st, args[0])
        if name.startswith('@llvm.umul.with.overflow'):
            r = s.unsigned(st, args[0]) * s.unsigned(st, args[1]); n = args[0].n
            return StructV([IntV(s.wrap(st, r, n), n), BoolV(ge(r, 2**n))])
        for nm, f in (('umax', (s.unsigned, ge)), ('umin', (s.unsigned, le)), ('smax', (s.signed, ge)), ('smin', (s.signed, le))):
            if name.startswith('@llvm.' + nm):
                x, y = f[0](st, args[0]), f[0](st, args[1]); return IntV(pol_ite(f[1](x, y), x, y), args[0].n)
        if name.startswith('@llvm.abs'):
            x = s.signed(st, args[0]); return IntV(pol_ite(ge(x, 0), x, -x), args[0].n)
        if name.startswith('@llvm.minnum') or name.startswith('@llvm.maxnum'):
            c = rlt(args[1], args[0]) if 'min' in name else rlt(args[0], args[1]); return rite(c, args[1], args[0])
        if name.startswith('@llvm.trap'): return None
        raise Unsupported('llvm intrinsic ' + name)
    def floor(s, st, x):
        if s.mode == 'fp': return z3.fpRoundToIntegral(z3.RTN(), x)
        p = Poly.term(FLOOR(x.t())); q = itof(p)
        st.hyps.append(And(rle(q, x), rlt(x, q + 1), Implies(rle(0, x), ge(p, 0))))
        st.ghost['trunc'] = q; st.ghost['trunc_arg'] = x
        return q
    def ftrunc(s, st, x):
        if s.mode == 'fp': return z3.fpRoundToIntegral(z3.RTZ(), x)
        q = itof(Poly.term(TRUNC(x.t())))
        st.hyps.append(And(Implies(rle(0, x), And(rle(0, q), rle(q, x), rlt(x, q + 1))), Implies(rle(x, 0), And(rle(q, 0), rle(x, q), rlt(q - 1, x)))))
        st.ghost['trunc'] = q; st.ghost['trunc_arg'] = x
        return q
    def memcpy(s, st, dst, src, n):
        if not n.p.isconst(): raise Unsupported('memcpy of symbolic size')
        n = n.p.cval()
        if isinstance(src, PtrV) and isinstance(src.r, Cells):
            if not src.off.isconst(): raise Unsupported('memcpy offset')
            b = src.off.cval()
            items = sorted((k[1], v) for k, v in st.cells.items() if k[0] is src.r and b <= k[1] < b + n)
            for o, v in items:
                s.store(st, PtrV(dst.r, dst.off + (o - b)), v, None)
            return None
        if isinstance(src, PtrV) and isinstance(src.r, Region):
            e = src.r.esz
            if n % e: raise Unsupported('memcpy size')
            ty = {'I': lambda: IntT(8 * e), 'B': lambda: IntT(8), 'F': lambda: FloatT('float' if e == 4 else 'double')}[src.r.sort]()
            vals = [s.load(st, PtrV(src.r, src.off + k * e), ty) for k in range(n // e)]
            for k, v in enumerate(vals): s.store(st, PtrV(dst.r, dst.off + k * e), v, ty)
            return None
        items = s.const_items(src.d) if isinstance(src, OpaqueV) else None
        if items is not None and isinstance(dst, PtrV) and isinstance(dst.r, Cells):
            for o, v in items:
                if o < n: st.cells[(dst.r, dst.off.cval() + o)] = s.zero(v[0]) if v[1] is None else s.val(st, v[1], v[0])
            return None
        raise Unsupported('memcpy from %r' % (src,))
    def const_items(s, n):
        """scalars of a constant aggregate: [(byte offset, (type, value))] or None"""
        gi = s.mod.glob_init(n)
        if not gi or not gi[2]: return None
        out = []
        def walk(t, v, b):
            t = s.mod.ty(t)
            if isinstance(t, (ArrT, StructT)):
                if not isinstance(v, CAgg):
                    if isinstance(t, ArrT): 
                        for k in range(t.n): walk(t.e, None, b + k * s.mod.size(t.e))
                    else:
                        for k, x in enumerate(t.f): walk(x, None, b + s.mod.field_off(t, k))
                    return
                for k, (et, x) in enumerate(v.e): walk(et, x, b + (k * s.mod.size(t.e) if isinstance(t, ArrT) else s.mod.field_off(t, k)))
            else: out.append((b, (t, v)))
        walk(gi[0], gi[1], 0)
        return out
    def memset(s, st, dst, v, n):
        if isinstance(dst.r, Region):
            if not (v.p.isconst() and v.p.cval() == 0): raise Unsupported('memset value')
            r = dst.r
            if r.local and dst.off.isconst() and dst.off.cval() == 0:
                z = {'I': P(0), 'F': RP.const(0), 'B': z3.BitVecVal(0, 8)}[r.sort]
                st.mem[r] = ConstMem(r, z); return None
        if isinstance(dst.r, Cells) and n.p.isconst() and n.p.cval() <= 64 and v.p.isconst() and v.p.cval() == 0:
            # fields typed lazily
            st.cells[(dst.r, 'zero')] = (dst.off.cval(), n.p.cval()); return None
        raise Unsupported('memset')
    def inline(s, st, f, args):
        """execute callee in place (single-path callee or raise)"""
        f.parse()
        raise InlineCall(f, args)
    # ---- loops
    def match_loops(s, f, specs):
        """assign specs to loop headers (textual order, constant-trip loops are unrolled)"""
        hs = [h for h in f.loop_order if not s.const_trip(f, h)]
        if len(hs) != len(specs):
            raise Unsupported('%s: %d loops for %d loop contracts' % (f.name[:60], len(hs), len(specs)))
        return dict(zip(hs, specs))
    def const_trip(s, f, h):
        lim = getattr(s.contract, 'unroll_limit', 16)
        defs = {i.res: i for b in f.order for i in f.blocks[b] if i.res}
        body = f.loops[h]
        # exit conditions
        for b in body:
            t = f.blocks[b][-1]
            if t.op != 'br' or len(t.x['t']) != 2: continue
            if all(x in body for x in t.x['t']): continue
            c = t.a[0]
            if not isinstance(c, Reg) or c.n not in defs: continue
            ci = defs[c.n]
            if ci.op != 'icmp': continue
            def root(v, d=0):
                if isinstance(v, CInt): return ('c', v.v)
                if isinstance(v, Reg) and v.n in defs and d < 6:
                    i = defs[v.n]
                    if i.op == 'phi' and i in f.blocks[h]:
                        ent = [x for x, p in i.x['inc'] if p not in body]
                        upd = [x for x, p in i.x['inc'] if p in body]
                        if len(ent) == 1 and isinstance(ent[0], CInt) and all(step(u, i.res) for u in upd): return ('p', ent[0].v)
                        return None
                    if i.op in ('zext', 'sext', 'trunc', 'add') : return root(i.a[0], d + 1)
                return None
            def step(v, name, d=0):
                if isinstance(v, Reg) and v.n in defs and d < 5:
                    i = defs[v.n]
                    if v.n == name: return True
                    if i.op in ('zext', 'sext', 'trunc'): return step(i.a[0], name, d + 1)
                    if i.op in ('add', 'sub') and isinstance(i.a[1], CInt): return step(i.a[0], name, d + 1)
                return False
            ra, rb = root(ci.a[0]), root(ci.a[1])
            if ra and rb and {ra[0], rb[0]} == {'c', 'p'} and abs(ra[1] - rb[1]) <= lim * 8 and abs(ra[1] - rb[1]) <= lim:
                return True
        # pointer loops over a constant array
        return False

class Fork(Exception):
    def __init__(s, c, vals=None): s.c, s.vals = c, vals
class InlineCall(Exception):
    def __init__(s, f, args): s.f, s.args = f, args
class PtrInt:
    def __init__(s, p): s.p = p
class GStr:
    def __init__(s, b): s.b = b
    def __repr__(s): return 'gstr(%r)' % s.b

DIV = z3.Function('idiv', z3.IntSort(), z3.IntSort(), z3.IntSort())
MOD = z3.Function('imod', z3.IntSort(), z3.IntSort(), z3.IntSort())
FTOI = z3.Function('ftoi', z3.RealSort(), z3.IntSort())
FLOOR = z3.Function('rfloor', z3.RealSort(), z3.IntSort())
TRUNC = z3.Function('rtrunc', z3.RealSort(), z3.IntSort())
INF = z3.Real('inf')

def itof(p):
    """integer poly as real"""
    p = P(p); r = RP.const(0)
    for k, c in p.m.items():
        x = RP.const(c)
        for a in k: x = x * RP.term(z3.ToReal(poly.ATOMS[a].term))
        r = r + x
    return r

def fsort(t): return z3.Float32() if t.k == 'float' else z3.Float64()
def short(d, n=140): return d if len(d) < n else d[:n] + '...'
def inr(r, p):
    return [And(le(0, c), lt(c, n)) for c, n in zip(r.decode(p), r.sizes) if n is not None]

def strip_ret(d):
    """demangled name without the return type of templates"""
    m = re.match(r'((?:\w+::)+operator )(?!new|delete)[a-z]', d)
    if m: return d                      # conversion operators have no return type
    # find top-level space before the function name
    depth = 0; cut = 0
    par = None
    i = 0
    while i < len(d):
        ch = d[i]
        if ch == '<' and not d[max(0, i-8):i].endswith('operator'): depth += 1
        elif ch == '>' and depth and not (i and d[i-1] == '-'): depth -= 1
        elif ch == '(' and depth == 0:
            if d.startswith('(anonymous namespace)', i): i += len('(anonymous namespace)'); continue
            break
        elif ch == ' ' and depth == 0 and not d[:i].endswith('operator') and not d[:i].endswith('operator new'):
            cut = i + 1
        i += 1
    r = d[cut:]
    while r[:1] in '*&': r = r[1:]
    return r
