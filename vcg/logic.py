"""Formulas, memory, prover."""
import z3, time, itertools
import poly, rpoly
from rpoly import RP, rlt, rle, req, rite
from poly import Poly, P, le, lt, ge, gt, eq, ne, ATOMS, MONO

class Unsupported(Exception):
    """outside the reach of the verifier (extraction / fragment problem, never a violation)"""

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

def And(*a):
    l = []
    for x in a:
        if isinstance(x, (list, tuple)): x = And(*x)
        if isinstance(x, bool): x = z3.BoolVal(x)
        if z3.is_false(x): return FALSE
        if not z3.is_true(x): l.append(x)
    return TRUE if not l else l[0] if len(l) == 1 else z3.And(l)
def Or(*a):
    l = []
    for x in a:
        if isinstance(x, (list, tuple)): x = Or(*x)
        if isinstance(x, bool): x = z3.BoolVal(x)
        if z3.is_true(x): return TRUE
        if not z3.is_false(x): l.append(x)
    return FALSE if not l else l[0] if len(l) == 1 else z3.Or(l)
def Not(x):
    return FALSE if z3.is_true(x) else TRUE if z3.is_false(x) else z3.Not(x)
def Implies(a, b): return Or(Not(a), b)
def Iff(a, b):
    if z3.is_true(a): return b
    if z3.is_true(b): return a
    if z3.is_false(a): return Not(b)
    if z3.is_false(b): return Not(a)
    return a == b

def pol_ite(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a.same(b): return a
    la, ha = a.interval(); lb, hb = b.interval()
    lo = None if la is None or lb is None else min(la, lb)
    hi = None if ha is None or hb is None else max(ha, hb)
    return Poly.term(z3.If(c, a.t(), b.t()), lo, hi)

class Forall:
    """forall vars. body.  vars: list of Var."""
    def __init__(s, vars, body, name='', maxgen=None):
        s.vars, s.body, s.name, s.maxgen = vars, body, name, maxgen
class Var:
    """quantified integer; instantiated with indices harvested from `src`, a list of (region, base, stride)
    and `extra` polys / tag names."""
    def __init__(s, name, src=(), extra=(), tags=(), lo=None, hi=None):
        s.name, s.src, s.extra, s.tags, s.lo, s.hi = name, list(src), list(extra), list(tags), lo, hi

class PermGoal:
    """multiset of tuples (reg_0[b+j],...,reg_m[b+j]), 0<=j<n is preserved between two log positions"""
    def __init__(s, regions, base, size, start, end=None, stride=1):
        s.regions, s.base, s.size, s.start, s.end, s.stride = regions, P(base), P(size), start, end, stride

# ---------------------------------------------------------------- memory
KINDS = {  # kind: (sort, lo, hi, bytes)
    'i8': ('I', -2**7, 2**7 - 1, 1), 'u8': ('I', 0, 255, 1), 'i16': ('I', -2**15, 2**15 - 1, 2), 'u16': ('I', 0, 2**16 - 1, 2),
    'i32': ('I', -2**31, 2**31 - 1, 4), 'u32': ('I', 0, 2**32 - 1, 4), 'i64': ('I', -2**63, 2**63 - 1, 8), 'u64': ('I', 0, 2**64 - 1, 8),
    'f32': ('F', None, None, 4), 'f64': ('F', None, None, 8), 'bv8': ('B', None, None, 1),
}
CURGEN = 0; GEN = {}
DECIDE = None
REC = None    # access recorder: set of (region, phys poly)

class Region:
    def __init__(s, name, kind, layout=None, sizes=None, count=None, base=None):
        """layout: strides (polys), last is 1.  sizes: extent per coordinate (None = unchecked)."""
        s.name, s.kind = name, kind
        s.sort, s.lo, s.hi, s.esz = KINDS[kind]
        s.layout = [P(x) for x in (layout or [1])]
        s.sizes = [None if x is None else P(x) for x in (sizes or [None] * len(s.layout))]
        s.base = P(base) if base is not None else None   # coordinates are relative to this physical offset
        s.local = False
    def __repr__(s): return s.name
    def decode(s, p):
        if s.base is not None: p = p - s.base
        if len(s.layout) == 1 and s.layout[0].isconst() and s.layout[0].cval() == 1: return (p,)
        out = []; r = p
        for st in s.layout[:-1]:
            d = r.divide_by(st)
            if d is None: raise Unsupported('cannot decode index %r of %s' % (p, s.name))
            q, r = d
            out.append(q)
        out.append(r)
        return tuple(out)
    def phys(s, coords):
        r = P(0)
        for c, st in zip(coords, s.layout): r = r + P(c) * st
        return r + s.base if s.base is not None else r
    def newfn(s, tag):
        so = {'I': z3.IntSort(), 'F': z3.RealSort(), 'B': z3.BitVecSort(8)}[s.sort]
        return z3.Function(poly.fresh_name('%s@%s' % (s.name, tag)), *([z3.IntSort()] * len(s.layout) + [so]))

class Base:
    __slots__ = ('r', 'fn', 'facts')
    def __init__(s, r, fn, facts=None): s.r, s.fn, s.facts = r, fn, facts
    def read(s, c):
        return app(s.r, s.fn, c)
class ConstMem:
    __slots__ = ('r', 'v')
    def __init__(s, r, v): s.r, s.v = r, v
    def read(s, c): return s.v
class TableMem:
    __slots__ = ('r', 'v', 'd')
    def __init__(s, r, v): s.r, s.v = r, v
    def read(s, c):
        i = c[0]
        if i.isconst():
            k = i.cval()
            return s.v[k] if 0 <= k < len(s.v) else s.v[-1]      # outside: the load itself has failed its bounds obligation
        res = s.v[-1]
        for k in range(len(s.v) - 2, -1, -1):
            res = ite(s.r, eq(i, k), s.v[k], res)
        return res
class Store:
    __slots__ = ('prev', 'c', 'v', 'r')
    def __init__(s, r, prev, c, v): s.r, s.prev, s.c, s.v = r, prev, c, v
    def read(s, c):
        # iterative over store chain
        conds = []; n = s
        while isinstance(n, Store):
            k = And(*[eq(a, b) for a, b in zip(c, n.c)])
            if DECIDE is not None and not z3.is_true(k) and not z3.is_false(k): k = DECIDE(k)
            if z3.is_true(k):
                res = n.v; break
            if not z3.is_false(k): conds.append((k, n.v))
            n = n.prev
        else:
            res = n.read(c)
        for k, v in reversed(conds):
            res = ite(s.r, k, v, res)
        return res
class Havoc:
    """cells with pred(phys) take new values fn; the others keep prev (frame by construction)"""
    __slots__ = ('r', 'prev', 'pred', 'fn')
    def __init__(s, r, prev, pred, fn): s.r, s.prev, s.pred, s.fn = r, prev, pred, fn
    def read(s, c):
        k = s.pred(s.r.phys(c))
        if DECIDE is not None and not z3.is_true(k) and not z3.is_false(k): k = DECIDE(k)
        if z3.is_true(k): return app(s.r, s.fn, c)
        if z3.is_false(k): return s.prev.read(c)
        return ite(s.r, k, app(s.r, s.fn, c), s.prev.read(c))

class Fill:
    """cells with pred(phys) take the value val(coords); the others keep prev"""
    __slots__ = ('r', 'prev', 'pred', 'val')
    def __init__(s, r, prev, pred, val): s.r, s.prev, s.pred, s.val = r, prev, pred, val
    def read(s, c):
        k = s.pred(s.r.phys(c))
        if DECIDE is not None and not z3.is_true(k) and not z3.is_false(k): k = DECIDE(k)
        if z3.is_true(k): return s.val(c)
        if z3.is_false(k): return s.prev.read(c)
        return ite(s.r, k, s.val(c), s.prev.read(c))

def ite(r, k, a, b):
    if r.sort == 'I': return pol_ite(k, a, b)
    if r.sort == 'F': return rite(k, a, b)
    if z3.is_true(k): return a
    if z3.is_false(k): return b
    return z3.If(k, a, b)

def app(r, fn, c):
    t = fn(*[x.t() for x in c])
    if r.sort == 'I': return Poly.term(t, r.lo, r.hi)
    if r.sort == 'F': return RP.term(t)
    return t

def rd(node, p):
    """read region node at physical element index"""
    p = P(p)
    if REC is not None:
        d = REC.setdefault(node.r, {}); k = p.key()
        if k not in d:
            d[k] = p
            if CURGEN: GEN[(id(node.r), k)] = CURGEN
    return node.read(node.r.decode(p))

def cell_eq(r, a, b):
    return eq(a, b) if r.sort == 'I' else req(a, b) if r.sort == 'F' else a == b

# ---------------------------------------------------------------- prover
class Stats:
    def __init__(s): s.queries = 0; s.time = 0.0; s.by = {}
STATS = Stats()

_info = {}
def collect(f, acc_atoms, acc_monos):
    """find atoms with bounds and monomials in z3 formula"""
    stack = [f]; seen = set()
    while stack:
        x = stack.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        a = poly._byterm.get(i)
        if a is not None and a.term.eq(x): acc_atoms.add(a.id)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int(x):
            k = MONO_BY.get(i)
            if k is None and len(MONO) != len(MONO_BY):
                for kk, m in MONO.items(): MONO_BY[m.get_id()] = kk
                k = MONO_BY.get(i)
            if k is not None: acc_monos.add(k)
        stack.extend(x.children())
MONO_BY = {}

_ccache = {}
def collected(f):
    k = f.get_id(); r = _ccache.get(k)
    if r is None or not r[0].eq(f):
        a, m = set(), set(); collect(f, a, m)
        r = (f, a, m); _ccache[k] = r
    return r
def axioms(fs):
    atoms, monos = set(), set()
    for f in fs:
        _, a, m = collected(f)
        atoms |= a; monos |= m
    for k in list(monos): atoms.update(k)
    out = []
    if monos:
        # keep closure: sub-monomials
        todo = list(monos)
        while todo:
            k = todo.pop()
            if len(k) > 2:
                sub = k[1:]
                if sub not in MONO: poly.mono(sub)
                if sub not in monos: monos.add(sub); todo.append(sub)
        out += poly.mono_lemmas(sorted(monos))
        for k, m in MONO.items(): MONO_BY[m.get_id()] = k
    for i in atoms:
        a = ATOMS[i]
        b = _bcache.get(i)
        if b is None or b[0] is not a.term or b[1] != (a.lo, a.hi):
            l = []
            if a.lo is not None: l.append(a.term >= a.lo)
            if a.hi is not None: l.append(a.term <= a.hi)
            b = _bcache[i] = (a.term, (a.lo, a.hi), l)
        out += b[2]
    return out
_bcache = {}

def check_sat(fs, timeout=8000):
    s = z3.Solver(); s.set('timeout', timeout)
    ax = axioms(fs)
    for f in fs: s.add(f)
    for f in ax: s.add(f)
    t = time.time(); r = s.check(); STATS.queries += 1; dt = time.time() - t; STATS.time += dt
    STATS.by['z3'] = STATS.by.get('z3', 0) + 1
    return r, s

def ground(hyps): return [h for h in hyps if not isinstance(h, (Forall, PermGoal))]

def implied(hyps, cond, timeout=400):
    if z3.is_true(cond): return True
    if z3.is_false(cond): return False
    r, _ = check_sat(ground(hyps) + [z3.Not(cond)], timeout)
    return r == z3.unsat

def feasible(hyps, timeout=400):
    r, _ = check_sat(ground(hyps), timeout)
    return r != z3.unsat

MAXINST = 6000

def instances(fa, rec, tags, done, maxgen=2):
    """yield ground instances of fa for harvested indices"""
    cands = []
    for v in fa.vars:
        c = {}
        def add(q, g):
            k = q.key()
            if k not in c or c[k][1] > g: c[k] = (q, g)
        for src in v.src:
            if src[0] == 'coord':       # a coordinate of every cell read so far
                for p in list(rec.get(src[1], {}).values()):
                    try: q = src[1].decode(p)[src[2]]
                    except Unsupported: continue
                    add(q, GEN.get((id(src[1]), p.key()), 0))
                continue
            reg, base, stride = src[:3]
            for p in list(rec.get(reg, {}).values()):
                d = (p - P(base)).divide_by(P(stride))
                if d is None: continue
                q, r = d
                if not (isinstance(stride, int) and stride == 1) and not (r.isconst() and (len(src) > 3 or r.cval() == 0 or isinstance(stride, int))): continue
                if any(len(k) > 1 for k in q.m): continue
                add(q, GEN.get((id(reg), p.key()), 0))
        for e in v.extra: add(P(e), 0)
        for tg in v.tags:
            for p in tags.get(tg, {}).values(): add(p, GEN.get((tg, p.key()), 0))
        cl = []
        for q, g in c.values():
            if v.lo is not None and z3.is_false(le(v.lo, q)): continue
            if v.hi is not None and z3.is_false(lt(q, v.hi)): continue
            cl.append((q, g))
        cands.append(cl)
    if len(fa.vars) > 1:
        lim = fa.maxgen if fa.maxgen is not None else 1
        tups = [t for t in itertools.product(*cands) if sum(g for _, g in t) <= lim]
    else:
        lim = fa.maxgen if fa.maxgen is not None else maxgen
        tups = [(t,) for t in cands[0] if t[1] <= lim]
    if len(tups) > MAXINST:
        tups.sort(key=lambda t: (sum(g for _, g in t), sum(len(q.m) for q, _ in t)))
        tups = tups[:MAXINST]
    global CURGEN
    for tup in tups:
        k = (id(fa), tuple(p.key() for p, _ in tup))
        if k in done: continue
        done.add(k)
        g = []
        for v, (q, _) in zip(fa.vars, tup):
            if v.lo is not None: g.append(le(v.lo, q))
            if v.hi is not None: g.append(lt(q, v.hi))
        g = And(*g)
        if z3.is_false(g): continue
        gen = max(x for _, x in tup)
        CURGEN = gen + 1
        try:
            b = fa.body(*[q for q, _ in tup])
        except Unsupported:
            continue
        finally: CURGEN = 0
        for (q, gq), v in zip(tup, fa.vars):
            for tg in v.tags:
                d = tags.setdefault(tg, {})
                if q.key() not in d:
                    d[q.key()] = q
                    if gq: GEN[(tg, q.key())] = gq
        f = Implies(g, b)
        if not z3.is_true(f): yield f

class Result:
    def __init__(s, ok, reason, model=None, secs=0.0, ninst=0, backend='z3'):
        s.ok, s.reason, s.model, s.secs, s.ninst, s.backend = ok, reason, model, secs, ninst, backend

def prove(hyps, goal, rec0, tags0, rounds=2, timeout=10000, extra_foralls=()):
    """validity of hyps => goal; sound: quantified hypotheses are only weakened to instances.
    First the quantified facts are instantiated only at terms of the goal, then at every term of the path."""
    global REC
    t0 = time.time()
    save = REC; GEN.clear()
    rec = {}; REC = rec; tags = {}
    try:
        gs = []
        if isinstance(goal, Forall):
            sk = []
            for v in goal.vars:
                x = Poly.fresh('sk_' + v.name)
                sk.append(x)
                if v.lo is not None: gs.append(le(v.lo, x))
                if v.hi is not None: gs.append(lt(x, v.hi))
                for tg in v.tags: tags.setdefault(tg, {})[x.key()] = x
                tags.setdefault('skolem', {})[x.key()] = x
            gs.append(Not(goal.body(*sk)))
        else:
            gs.append(Not(goal))
        if any(z3.is_false(x) for x in gs): return Result(True, 'trivial', secs=time.time() - t0)
        base = ground(hyps) + gs
        fas = [h for h in hyps if isinstance(h, Forall)] + list(extra_foralls)
        r, s = check_sat(base, min(timeout, 2500))
        if r == z3.unsat: return Result(True, 'proved', secs=time.time() - t0)
        n = 0
        if not fas:
            if r == z3.sat: return Result(False, 'sat', s.model(), time.time() - t0, 0)
        # stage 1: goal-directed; then with the terms the contract tagged
        fs = list(base); done = set()
        for stage in (1, 2):
            if stage == 2:
                if not any(tags0.values()): break
                for k, d in tags0.items():
                    for kk, v in d.items():
                        tags.setdefault(k, {}).setdefault(kk, v); GEN.pop((k, kk), None)
            for rnd in range((rounds if stage == 1 else 1) if fas else 0):
                new = []
                for fa in fas: new += list(instances(fa, rec, tags, done))
                if not new: break
                n += len(new); fs += new
                r, s = check_sat(fs, min(timeout, 3000))
                if r == z3.unsat: return Result(True, 'proved', secs=time.time() - t0, ninst=n)
        # stage 3: all terms of the path
        for k, d in rec0.items():
            for kk, v in d.items():
                rec.setdefault(k, {}).setdefault(kk, v); GEN.pop((id(k), kk), None)
        for k, d in tags0.items():
            for kk, v in d.items():
                tags.setdefault(k, {}).setdefault(kk, v); GEN.pop((k, kk), None)
        for rnd in range(rounds + 1):
            new = []
            if rnd < rounds:
                for fa in fas: new += list(instances(fa, rec, tags, done))
            n += len(new); fs += new
            last = rnd == rounds - 1 or not new
            r, s = check_sat(fs, timeout if last else min(timeout, 2500))
            if r == z3.unsat: return Result(True, 'proved', secs=time.time() - t0, ninst=n)
            if last: break
        if r == z3.sat:
            return Result(False, 'sat', s.model(), time.time() - t0, n)
        # second back end
        if cvc5_unsat(fs, timeout):
            return Result(True, 'proved', secs=time.time() - t0, ninst=n, backend='cvc5')
        return Result(False, 'unknown', None, time.time() - t0, n)
    finally:
        REC = save

def cvc5_unsat(fs, timeout):
    try:
        import cvc5
        s = z3.Solver()
        for f in fs + axioms(fs): s.add(f)
        txt = s.to_smt2()
        slv = cvc5.Solver(); slv.setOption('tlimit-per', str(timeout)); slv.setLogic('ALL')
        ip = cvc5.InputParser(slv); ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt.replace('(check-sat)', ''), 'q')
        sm = ip.getSymbolManager()
        while True:
            c = ip.nextCommand()
            if c.isNull(): break
            c.invoke(slv, sm)
        r = slv.checkSat()
        STATS.by['cvc5'] = STATS.by.get('cvc5', 0) + 1
        return r.isUnsat()
    except Exception:
        return False
