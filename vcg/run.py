"""Path driver, loop cuts, obligation discharge."""
import os, sys, time, json, re, itertools, traceback
import z3, poly, rpoly, logic
from exec import *

def base_name(n):
    n = n.lstrip('%').strip('"')
    n = re.sub(r'(\.addr|\.sroa|\.i+|\.lcssa|\.ph|\.reload|\.\d+)+$', '', n)
    n = re.sub(r'\.(addr|sroa|lcssa|\d+|i)\b', '', n)
    return n.rstrip('0123456789') if re.match(r'.*[a-z_]\d+$', n) and False else n

class Roles(dict):
    """loop variable of every role; shift: the contract's counter is the code's counter plus this (tried when the direct reading fails)"""
    shift = None

class LoopView:
    """access to loop variables by role"""
    def __init__(s, E, st, roles, entry): s.E, s.st, s.roles, s.entry = E, st, roles, entry
    def has(s, n): return n in s.roles
    def raw(s, n):
        if n not in s.roles: raise Unsupported('no loop variable ' + n)
        return s.st.env[s.roles[n]]
    def __call__(s, n, signed=True):
        v = s.raw(n)
        if isinstance(v, IntV):
            x = s.E.signed(s.st, v) if signed else s.E.unsigned(s.st, v); d = getattr(s.roles, 'shift', None)
            return x + d[1] if d and d[0] == n else x
        return v.c if isinstance(v, BoolV) else v.t if isinstance(v, BVV) else v
    def u(s, n): return s(n, False)
    def idx(s, n):
        """position of a counter or an element pointer relative to the loop's start"""
        v = s.raw(n); o = s.entry.env[s.roles[n]]
        if isinstance(v, PtrV):
            if not isinstance(o, PtrV) or v.r is not o.r: raise Unsupported('pointer %s leaves its array' % n)
            return s.E.elem_index(v.r, v.off - o.off)
        return s(n) - s.E.signed(s.st, o)
    def nat(s, n): return s(n, s.raw(n).n >= 32)      # narrow counters are unsigned
    def bv(s, n):
        v = s.raw(n); return s.E.tobv(s.st, v, v.n)
    def cell(s, name):
        """current value of a local variable kept in memory (its address is taken)"""
        c = [v for k, v in s.st.cells.items() if k[0].name.split('#')[0] == name and k[1] == 0]
        if len(c) != 1: raise Unsupported('no variable ' + name)
        return s.E.signed(s.st, c[0])
    def bound(s, n):
        """what the loop's header compares the counter with"""
        reg = s.roles.get(n); f = s.E.f
        h = [b for b in f.loops if any(i.op == 'phi' and i.res == reg for i in f.blocks[b])]
        if not h: raise Unsupported('no loop variable ' + n)
        names = {reg}; out = []
        for i in f.blocks[h[0]]:
            if i.op in ('sext', 'zext', 'trunc') and isinstance(i.a[0], Reg) and i.a[0].n in names: names.add(i.res)
            if i.op == 'icmp':
                a = [isinstance(x, Reg) and x.n in names for x in i.a[:2]]
                if a[0] != a[1]: out.append((i, i.a[1] if a[0] else i.a[0]))
        if len(out) != 1: raise Unsupported('no single bound of ' + n)
        i, x = out[0]; v = s.E.val(s.st, x, i.ty)
        return s.E.unsigned(s.st, v) if i.x['pred'][0] == 'u' else s.E.signed(s.st, v)
    def outer(s, loop):
        """view of an enclosing loop's variables"""
        for h, sp in s.E.loopspec.items():
            if sp.name == loop and h in s.st.loopctx: return LoopView(s.E, s.st, s.st.loopctx[h].roles, s.st.loopctx[h].entry)
        raise Unsupported('no enclosing loop ' + loop)

class Restart(Exception):
    def __init__(s, k): s.k = k

class Driver(Engine):
    def verify(s, contract, f=None):
        """generate all obligations of one function against its contract"""
        s.contract = contract; s.mode = contract.mode; s.reads_confined = contract.reads_confined
        s.bvints = getattr(contract, 'bvints', False); s.depth = 0
        rpoly.NONLINEAR[0] = getattr(contract, 'nonlinear', False)
        f = f or s.find(contract); f.parse()
        s.varying = getattr(s, 'varying', {}).get(f.name) and {f.name: s.varying[f.name]} or {f.name: set()}
        s.localvecs = {}
        base = len(s.obls); triv = getattr(s, 'trivial', 0)
        for _ in range(40):
            try: return s.verify1(contract, f)
            except Restart as e:
                s.varying[f.name].add(e.k); del s.obls[base:]; s.trivial = triv
        raise Unsupported('too many restarts')
    def verify1(s, contract, f):
        s.curfn = contract.name; s.npaths = 0; s.f = f; s.localvecs = {}
        s.loopspec = s.match_loops(f, contract.loops)
        st = State(); st.block = f.order[0]; VecObj.CUR = st.ghost
        args = contract.make(s, st, f)
        if len(args) != len(f.params): raise Unsupported('%s: %d parameters, contract has %d' % (contract.name, len(f.params), len(args)))
        for (t, n, _), v in zip(f.params, args): st.env[n] = v
        a = contract.bind(s, st, args)
        s.a = a; s.groups = contract.groups(a)
        for x, y in contract.products(a): st.prod(x, y)
        S0 = Snap(st); s.S0 = S0
        logic.REC = st.rec
        pre = contract.pre(a, S0)
        for nm, g in pre: s.assume(st, g)
        st.frames = [contract.modifies(a, S0)]
        logic.REC = None
        # vacuity: precondition satisfiable
        r, _ = logic.check_sat(logic.ground(st.hyps), 5000)
        s.cover[contract.name + ':pre'] = str(r)
        if r == z3.unsat: raise Unsupported('contradictory precondition of ' + contract.name)
        s.exits = 0
        s.explore(f, st)
        if s.exits == 0 and not getattr(contract, 'noreturn', False): raise Unsupported('no path of %s reaches its end' % contract.name)
        s.cover[contract.name + ':exits'] = s.exits
        return a
    def explore(s, f, st):
        work = [(st, f.order[0], None, 0)]
        while work:
            if time.time() > s.deadline: raise Unsupported('symbolic execution out of time')
            st, blk, prev, idx = work.pop()
            try:
                work += s.block(f, st, blk, prev, idx)
            except Fork: raise
    def block(s, f, st, blk, prev, idx):
        """execute from blk[idx]; returns successor work items"""
        VecObj.CUR = st.ghost
        ins = f.blocks[blk]
        if idx == 0:
            st.trace.append(blk)
            if blk in f.loops:
                r = s.header(f, st, blk, prev)
                if r is not None: return r
            else: s.phis(f, st, blk, prev)
        k = idx
        if k == 0:
            while ins[k].op == 'phi': k += 1
        while k < len(ins):
            i = ins[k]; op = i.op
            if op in ('br', 'switch', 'ret', 'unreachable', 'invoke'): return s.term(f, st, blk, i)
            try:
                v = s.inst(st, f, i)
            except Fork as fk:
                out = []
                for c, which in ((fk.c, 1), (Not(fk.c), 2)):
                    n = st.copy(); n.hyps.append(c)
                    if not logic.feasible(n.hyps): continue
                    n.env[i.res] = s.val(n, i.a[which], i.ty) if fk.vals is None else fk.vals[which - 1]
                    out.append((n, blk, prev, k + 1))
                return out
            if i.res: st.env[i.res] = v
            k += 1
        raise Unsupported('block without terminator')
    def inst(s, st, f, i):
        op = i.op
        if op in BIN: return s.binop(st, i)
        if op in FBIN or op == 'fneg': return s.fbin(st, i)
        if op == 'icmp': return s.icmp(st, i)
        if op == 'fcmp': return s.fcmp(st, i)
        if op in CAST: return s.cast(st, i)
        if op == 'select': return s.select(st, i)
        if op == 'freeze': return s.val(st, i.a[0], i.ty)
        if op == 'getelementptr':
            b = s.val(st, i.a[0], PtrT())
            return s.gep(st, i.x['gt'], b, [(t, s.val(st, x, t)) for t, x in i.x['idx']])
        if op == 'load': return s.load(st, s.val(st, i.a[0], PtrT()), i.ty)
        if op == 'store':
            s.store(st, s.val(st, i.a[1], PtrT()), s.val(st, i.a[0], i.ty), i.ty); return None
        if op == 'alloca': return s.alloca(st, i)
        if op == 'call': return s.call(st, f, i)
        if op == 'extractvalue':
            v = s.val(st, i.a[0], i.ty)
            for k in i.x['idx']: v = v.f[k]
            return v
        if op == 'insertvalue':
            v = s.val(st, i.a[0], i.ty); w = s.val(st, i.a[1], i.x['vt'])
            t = s.mod.ty(i.ty)
            if isinstance(v, UndefV): v = StructV([UndefV() for _ in t.f])
            v = StructV(list(v.f)); v.f[i.x['idx'][0]] = w
            return v
        raise Unsupported('instruction ' + i.line.strip()[:80])
    def alloca(s, st, i):
        t = s.mod.ty(i.ty)
        h = getattr(s.contract, 'alloca', None)
        if h:
            r = h(s, st, i, t)
            if r is not None: return r
        if isinstance(i.ty, NamedT) and re.match(r'%"?class\.std::vector\b', i.ty.n):
            v = s.localvecs.get((s.curfn, i.res))       # element type and contents come from the constructor
            if v is None: v = s.localvecs[(s.curfn, i.res)] = VecObj(i.res.strip('%'), None)
            return PtrV(v, 0)
        if isinstance(t, ArrT) and t.n > 16 and isinstance(s.mod.ty(t.e), IntT):
            r = Region(i.res.strip('%'), 'u%d' % s.mod.ty(t.e).n, sizes=[t.n]); r.local = True
            st.mem[r] = Base(r, r.newfn('uninit'))
            return PtrV(r, 0)
        c = Cells(i.res.strip('%'))
        c.ty = i.ty
        if not i.a:
            try: c.size = s.mod.size(t)
            except Exception: c.size = None
        return PtrV(c, 0)
    def phis(s, f, st, blk, prev):
        new = {}
        for i in f.blocks[blk]:
            if i.op != 'phi': break
            for v, b in i.x['inc']:
                if b == prev: new[i.res] = s.val(st, v, i.ty); break
            else: raise Unsupported('phi without edge')
        st.env.update(new)
    # ---- terminators
    def term(s, f, st, blk, i):
        if i.op == 'ret':
            s.ret(st, s.val(st, i.a[0], i.ty) if i.a else None)
            return []
        if i.op == 'unreachable':
            h = getattr(s.contract, 'on_unreachable', None)
            if h: h(s, st, s.a)
            else: s.oblige(st, 'unreachable', FALSE, 'safety')
            return []
        if i.op == 'switch':
            v = s.val(st, i.a[0], i.ty); out = []; neg = []
            for cv, t in i.x['c']:
                c = s.eqc(st, v, cv)
                if z3.is_false(c): continue
                out += s.goto(f, st, blk, t, And(c, *neg)); neg.append(Not(c))
                if z3.is_true(c): return out
            out += s.goto(f, st, blk, i.x['d'], And(*neg))
            return out
        if len(i.x['t']) == 1: return s.goto(f, st, blk, i.x['t'][0], TRUE)
        c = s.val(st, i.a[0], IntT(1))
        if isinstance(c, UndefV): raise Unsupported('branch on undef')
        c = c.c
        if not z3.is_true(c) and not z3.is_false(c):
            sc = z3.simplify(c)
            if z3.is_true(sc) or z3.is_false(sc): c = sc
        return s.goto(f, st, blk, i.x['t'][1], Not(c)) + s.goto(f, st, blk, i.x['t'][0], c)
    def eqc(s, st, v, cv):
        if isinstance(v, BVV): return z3.simplify(v.t == z3.BitVecVal(cv, v.n))
        lo, hi = v.p.interval()
        if cv < 0 and lo is not None and lo >= 0: cv += 2**v.n
        return eq(v.p, cv)
    def goto(s, f, st, blk, t, cond):
        if z3.is_false(cond): return []
        n = st.copy()
        if not z3.is_true(cond):
            n.hyps.append(cond)
            if not logic.feasible(n.hyps): return []
        s.npaths += 1
        if s.npaths > MAXPATHS: raise Unsupported('too many paths')
        return [(n, t, blk, 0)]
    def ret(s, st, v):
        s.exits += 1
        save = logic.REC; logic.REC = st.rec
        try:
            s.contract.on_exit(s, st, s.a)
            S1 = Snap(st)
            for nm, g in s.contract.post(s.a, s.S0, S1, v): s.oblige(st, 'post:' + nm, g, 'post')
        finally: logic.REC = save
    # ---- loops
    def header(s, f, st, h, prev):
        spec = s.loopspec.get(h)
        body = f.loops[h]
        frm_in = prev in body
        if spec is None:
            s.phis(f, st, h, prev)
            st.unroll[h] = st.unroll.get(h, 0) + 1 if frm_in else 1
            if st.unroll[h] > getattr(s.contract, 'unroll_limit', 16) + 2: raise Unsupported('constant-trip loop does not end')
            return None
        s.phis(f, st, h, prev)
        ctx = st.loopctx.get(h)
        save = logic.REC; logic.REC = st.rec
        try:
            if frm_in:
                if ctx is None: raise Unsupported('back edge without entry')
                L = LoopView(s, st, ctx.roles, ctx.entry)
                for k, v in ctx.const.items():
                    if not s.same(st, st.env[k], v): raise Restart((h, k))
                    st.env[k] = v
                for k, v in ctx.ccells.items():
                    if k not in st.cells or not s.same(st, st.cells[k], v): raise Restart((h, k[0].name.split('#')[0], k[1]))
                    st.cells[k] = v
                new = {s.objname(o) for o in st.ghost.get('captured', ())} - {s.objname(o) for o in ctx.captured}
                if new: raise Restart((h, 'captured', tuple(sorted(new))))
                S = Snap(st)
                s.loop_frame(st, ctx, spec)
                for v, n in ctx.vecs.items():
                    if v.name in ctx.veclocal and v not in ctx.free and not (v in st.vecs and s.implied(st, eq(P(st.vecs[v]), P(n)), 1000)): raise Unsupported('length of %s changes in loop %s' % (v.name, spec.name))
                if spec.hints: spec.hints(s, st, s.a, L, s.S0, S)
                for nm, g in spec.inv(s.a, L, s.S0, S, ctx.entry):
                    s.oblige(st, 'inv(%s) kept:%s' % (spec.name, nm), g, 'inv')
                for x, y, g in s.lockstep(f, st, h, ctx.entry, ctx.const): s.oblige(st, 'inv(%s) kept:%s moves with %s' % (spec.name, x, y), g, 'inv')
                if spec.variant and not spec.noterm:
                    new = [P(x) for x in spec.variant(s.a, L, S)]
                    old = ctx.variant
                    c = FALSE; pre = TRUE
                    for o, n in zip(old, new):
                        c = Or(c, And(pre, lt(n, o), le(0, o))); pre = And(pre, eq(o, n))
                    s.oblige(st, 'terminates(%s)' % spec.name, c, 'term')
                return []
            # entry
            roles = s.roles(f, st, h, spec)
            entry = Snap(st); entry.env = dict(st.env)
            L = LoopView(s, st, roles, entry)
            if spec.pre_hints: spec.pre_hints(s, st, s.a, L, s.S0, entry)
            for nm, g in spec.inv(s.a, L, s.S0, entry, entry):
                s.oblige(st, 'inv(%s) entry:%s' % (spec.name, nm), g, 'inv')
            # havoc
            if spec.forget == 'inv': st.hyps = [x for x in st.hyps if getattr(x, 'origin', None) != 'inv']
            elif spec.forget: st.hyps = [x for x in st.hyps if not isinstance(x, Forall)]
            mods = spec.modifies(s.a, s.S0, entry) if spec.modifies else st.frames[0]
            for r, pred in mods:
                if isinstance(r, Cells): continue
                # outside the function's frame nothing has changed since entry
                prev = st.mem[r] if spec.modifies or r not in s.S0.mem else s.S0.mem[r]
                if not spec.modifies and len([1 for x, _ in mods if x is r]) > 1: prev = st.mem[r]
                st.mem[r] = Havoc(r, prev, pred, r.newfn(spec.name))
            ccells = {}
            free = s.havoc_locals(f, st, h, mods, ccells)
            if 'nlive' in st.ghost and s.has_threads(f, h):
                st.ghost['nlive'] = Poly.fresh('nlive', 0)
                cap = set(st.ghost.get('captured', ()))
                for key in s.varying[f.name]:
                    if key[0] == h and key[1] == 'captured':
                        cap |= {v.r for v in st.env.values() if isinstance(v, PtrV) and s.objname(v.r) in key[2]}
                st.ghost['captured'] = frozenset(cap)
            const = {}
            for i in f.blocks[h]:
                if i.op != 'phi': break
                old = st.env[i.res]
                bn = base_name(i.res)
                role = [k for k, v in roles.items() if v == i.res]
                # a variable the loop contract does not mention: assumed unchanged, checked at every back edge, else havocked
                if not role and (h, i.res) not in s.varying[f.name] and not isinstance(old, UndefV):
                    const[i.res] = old; continue
                if isinstance(old, (PtrV, OpaqueV, NullV)):
                    st.env[i.res] = s.havoc_ptr(st, old, i)
                    continue
                st.env[i.res] = s.fresh_val(i.ty, bn, bv=any(r in spec.bv for r in role) or isinstance(old, BVV), uns=s.is_unsigned(f, i.res))
            if spec.ghost: spec.ghost(s, st)
            for x, y, g in s.lockstep(f, st, h, entry, const): s.assume(st, g)
            L = LoopView(s, st, roles, entry); S = Snap(st)
            inv = spec.inv(s.a, L, s.S0, S, entry)
            for nm, g in inv:
                if isinstance(g, Forall): g.origin = 'inv'
                s.assume(st, g)
            if spec.after: spec.after(s, st, s.a, L, S, dict(inv))
            class C: pass
            c = C(); c.ccells, c.captured = ccells, frozenset(st.ghost.get('captured', ())); c.roles, c.entry, c.const, c.free = roles, entry, const, free
            c.vecs = dict(st.vecs); c.veclocal = {v.name for v in st.vecs if isinstance(v, VecObj) and v.region is not None and v.region.local}
            c.snap = S; c.env = dict(st.env); c.mem = dict(st.mem); c.mods = list(mods) if spec.modifies else None
            c.variant = [P(x) for x in spec.variant(s.a, L, S)] if spec.variant else []
            st.loopctx[h] = c
            if not spec.variant and not spec.noterm: raise Unsupported('loop %s without variant' % spec.name)
            if not logic.feasible(st.hyps): 
                s.cover.setdefault('dead-loop', []).append(s.curfn + ':' + spec.name)
            else: s.cover[s.curfn + ':loop:' + spec.name] = 'reachable'
        finally: logic.REC = save
        return None
    def lockstep(s, f, st, h, entry, skip):
        """counters and element pointers that move by constants move together: (goal) per pair"""
        defs = {i.res: i for b in f.loops[h] for i in f.blocks[b] if i.res}; out = []
        for i in f.blocks[h]:
            if i.op != 'phi': break
            if i.res in skip: continue
            v, o = st.env.get(i.res), entry.env.get(i.res); steps = set()
            for x, b in i.x['inc']:
                if b not in f.loops[h]: continue
                d = defs.get(x.n) if isinstance(x, Reg) else None; c = None
                if d is not None and d.op in ("add", "getelementptr") and isinstance(d.a[0], Reg) and d.a[0].n == i.res:
                    if d.op == 'add' and isinstance(v, IntV): c = d.a[1]
                    if d.op == 'getelementptr' and len(d.x['idx']) == 1: c = d.x['idx'][0][1]
                steps.add(c.v if isinstance(c, CInt) else None)
            if len(steps) != 1 or None in steps: continue
            if isinstance(v, IntV) and isinstance(o, IntV): pos = lambda v=v, o=o: s.signed(st, v) - s.signed(st, o)
            elif isinstance(v, PtrV) and isinstance(o, PtrV) and v.r is o.r and isinstance(v.r, Region): pos = lambda v=v, o=o: s.elem_index(v.r, v.off - o.off)
            else: continue
            out.append((i.res, pos, steps.pop()))
        if len(out) < 2: return []
        out = [(r, pos(), c) for r, pos, c in out]
        return [(a[0], b[0], eq(a[1] * b[2], b[1] * a[2])) for a, b in zip(out, out[1:])]
    def same(s, st, x, y):
        if x is y: return True
        if isinstance(x, IntV) and isinstance(y, IntV): return s.implied(st, eq(s.signed(st, x), s.signed(st, y)), 1000)
        if isinstance(x, BoolV) and isinstance(y, BoolV): return s.implied(st, Iff(x.c, y.c), 1000)
        if isinstance(x, BVV) and isinstance(y, BVV): return s.implied(st, x.t == y.t, 1000)
        if isinstance(x, PtrV) and isinstance(y, PtrV): return x.r is y.r and s.implied(st, eq(x.off, y.off), 1000)
        if isinstance(x, RP) and isinstance(y, RP): return s.implied(st, req(x, y), 1000)
        if isinstance(x, z3.FPRef) and isinstance(y, z3.FPRef): return x.eq(y)
        if isinstance(x, NullV) and isinstance(y, NullV): return True
        if isinstance(x, StrV) and isinstance(y, StrV): return x.v == y.v
        return False
    def is_unsigned(s, f, r):
        """which representative range reads best: by the instructions that use the register"""
        u = g = 0
        for b in f.order:
            for i in f.blocks[b]:
                if not any(isinstance(x, Reg) and x.n == r for x in i.a): continue
                if i.op == 'zext' or i.op == 'icmp' and i.x['pred'][0] == 'u': u += 1
                if i.op == 'sext' or i.op == 'icmp' and i.x['pred'][0] == 's' or 'nsw' in i.x.get('fl', ()): g += 1
        return None if u == g else u > g
    def loop_frame(s, st, ctx, spec):
        """everything the iteration wrote lies inside the loop's modifies clause"""
        for r, n in st.mem.items():
            if r not in ctx.mem: continue
            if ctx.mods is None and not r.local: continue      # confined by the function's own frame
            top = ctx.mem[r]
            if n is top or r in ctx.free: continue
            preds = [q for x, q in ctx.mods or [] if x is r]
            while n is not top:
                if isinstance(n, Store): p = r.phys(n.c); g = Or(*[q(p) for q in preds])
                elif isinstance(n, (Havoc, Fill)):
                    p = r.phys([Poly.fresh('sk_c') for _ in r.layout])
                    g = Implies(And(n.pred(p), *inr(r, p)), Or(*[q(p) for q in preds]))
                else: raise Unsupported('frame of loop %s' % spec.name)
                s.oblige(st, 'frame(%s):%s' % (spec.name, r.name), g, 'frame')
                n = n.prev
    def havoc_ptr(s, st, old, i):
        if isinstance(old, PtrV) and isinstance(old.r, Region):
            v = Poly.fresh('pidx'); st.ghost[('pidx', i.res)] = v
            return PtrV(old.r, old.off + v * old.r.esz)
        raise Unsupported('pointer phi %s' % i.res)
    def objname(s, o): return str(getattr(o, 'name', o)).split('#')[0]
    def has_threads(s, f, h):
        return any(i.op == 'call' and i.x['callee'].startswith(('@verif_spawn', '@verif_join')) for b in f.loops[h] for i in f.blocks[b])
    def havoc_locals(s, f, st, h, mods, ccells):
        """local objects whose address is used by a store or call inside the loop"""
        body = f.loops[h]; touched = set()
        defs = {i.res: i for b in f.order for i in f.blocks[b] if i.res}
        def root(v, d=0):
            if not isinstance(v, Reg) or d > 12: return
            i = defs.get(v.n)
            if i is None:
                x = st.env.get(v.n)
                if isinstance(x, PtrV) and isinstance(x.r, Cells): touched.add(x.r)
                return
            if i.op == 'alloca':
                x = st.env.get(v.n)
                if x is not None: touched.add(x.r)
            elif i.op == 'getelementptr': root(i.a[0], d + 1)
            elif i.op == 'select': root(i.a[1], d + 1); root(i.a[2], d + 1)
            elif i.op == 'phi':
                for x, _ in i.x['inc']: root(x, d + 3)
        for b in body:
            for i in f.blocks[b]:
                if i.op == 'store': root(i.a[1])
                elif i.op in ('call', 'invoke') and not i.x['callee'].startswith(('@llvm.lifetime', '@llvm.dbg')):
                    for _, x in i.x['args']: root(x)
        free = set()
        # vectors whose length the body changes
        for b in body:
            for i in f.blocks[b]:
                if i.op != 'call' or not i.x['callee'].startswith('@_ZNSt6vector'): continue
                d = strip_ret(s.mod.dem.get(i.x['callee'].strip('@').strip('"'), ''))
                if not re.match(r'std::vector<.*>::(push_back|emplace_back|resize|clear|assign|pop_back|insert|erase|operator=)(<.*>)?\(', d): continue
                a0 = i.x['args'][0][1]; v = st.env.get(a0.n) if isinstance(a0, Reg) else None
                if v is None or not isinstance(v, PtrV) or not isinstance(v.r, VecObj): continue
                o = v.r
                if o.region is None or not o.region.local or o in st.ghost.get('fixedlen', ()): continue
                st.vecs[o] = Poly.fresh('len_' + o.name.split('#')[0], 0, 2**62); free.add(o)
                st.mem[o.region] = Havoc(o.region, st.mem[o.region], lambda p: TRUE, o.region.newfn('loop')); free.add(o.region)
        for o in touched:
            if o in free or isinstance(o, VecObj) and o.region in free: continue
            if isinstance(o, Cells):
                # assumed unchanged, checked at every back edge, else havocked
                for k in [k for k in st.cells if k[0] is o]:
                    if (h, o.name.split('#')[0], k[1]) in s.varying[f.name]: st.cells[k] = s.refresh(st.cells[k], o.name)
                    else: ccells[k] = st.cells[k]
            elif isinstance(o, Region) and o.local:
                if not any(r is o for r, _ in mods):
                    free.add(o); st.mem[o] = Havoc(o, st.mem[o], lambda p: TRUE, o.newfn('loop'))
            elif isinstance(o, VecObj) and o.region is not None and o.region.local and not any(r is o.region for r, _ in mods) and s.loopspec[h].modifies is None:
                free.add(o.region); st.mem[o.region] = Havoc(o.region, st.mem[o.region], lambda p: TRUE, o.region.newfn('loop'))
        return free
    def roles(s, f, st, h, spec):
        ph = [i for i in f.blocks[h] if i.op == 'phi']
        names = {}
        for i in ph: names.setdefault(base_name(i.res), []).append(i.res)
        roles = Roles(); left = []
        opt = [v[:-1] for v in spec.vars if v.endswith('?')]      # variables the compiler may have folded away
        want = [v for v in spec.vars if not v.endswith('?')]
        for v in want + (opt if len(ph) >= len(want) + len(opt) else []):
            if v in names and len(names[v]) == 1: roles[v] = names[v][0]
            else: left.append(v)
        if left:
            free = [i for i in ph if i.res not in roles.values()]
            ov = s.rolemap.get((s.curfn, spec.name)) if hasattr(s, 'rolemap') else None
            cand = [tuple(c) for c in itertools.permutations([i.res for i in free], len(left))] if len(free) >= len(left) else []
            if not cand:
                # a role may be constant in the loop: not a phi
                raise Unsupported('loop %s: no variables for %s' % (spec.name, left))
            k = s.choice.get((s.curfn, spec.name), 0) if hasattr(s, 'choice') else 0
            s.choices = getattr(s, 'choices', {}); s.choices[(s.curfn, spec.name)] = len(cand)
            for v, r in zip(left, cand[min(k, len(cand) - 1)]): roles[v] = r
        d = getattr(s, 'shifts', {}).get((s.curfn, spec.name))
        if d and spec.vars: roles.shift = (spec.vars[0], d)
        s.seen_loops = getattr(s, 'seen_loops', {}); s.seen_loops[(s.curfn, spec.name)] = 1
        return roles

# ---------------------------------------------------------------- discharge
MAXBAD = 16
SEM = None   # limits solver processes over all concurrently verified functions
def discharge(obls, contracts, jobs=None, timeout=None, deadline=None, verbose=False):
    """prove all obligations in forked workers; fills o.res = (ok, reason, secs, ninst, backend)"""
    jobs = jobs or min(8, os.cpu_count() or 4)
    opt = {c.name: c for c in contracts}
    if not obls: return
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    n = min(jobs, len(obls))
    nxt = ctx.Value('i', 0); nbad = ctx.Value('i', 0)
    pipes = []
    for w in range(n):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            out = os.fdopen(wr, 'w')
            try:
                while True:
                    with nxt.get_lock():
                        k = nxt.value; nxt.value += 1
                    if k >= len(obls): break
                    o = obls[k]; c = opt.get(o.fn)
                    if deadline and time.time() > deadline:
                        res = (False, 'out of time', 0, 0, 'none', '')
                    elif nbad.value >= MAXBAD: res = (False, 'skipped', 0, 0, 'none', '%d obligations of this function failed before' % MAXBAD)
                    else:
                        if SEM is not None: SEM.acquire()
                        try:
                            rpoly.NONLINEAR[0] = getattr(c, 'nonlinear', False)
                            to = timeout or getattr(c, 'timeout', 10000)
                            full = to
                            if deadline: to = max(500, min(to, int(1000 * (deadline - time.time()))))
                            q = logic.prove(o.hyps, o.goal, o.rec, o.tags, rounds=getattr(c, 'rounds', 2), timeout=to)
                            m = ''
                            if not q.ok and q.model is not None:
                                try: m = str(q.model)[:3000]
                                except Exception: m = '?'
                            res = (q.ok, 'out of time' if q.reason == 'unknown' and to < full else q.reason, round(q.secs, 3), q.ninst, q.backend, m)
                            if not q.ok:
                                with nbad.get_lock(): nbad.value += 1
                        except Unsupported as e: res = (False, 'unknown', 0, 0, 'none', 'unsupported: %s' % e)
                        except Exception as e: res = (False, 'unknown', 0, 0, 'none', 'error: ' + traceback.format_exc()[-800:])
                        finally:
                            if SEM is not None: SEM.release()
                    out.write(json.dumps([k, res]) + '\n'); out.flush()
            finally:
                out.flush(); os._exit(0)
        os.close(wr); pipes.append((pid, r))
    for pid, r in pipes:
        with os.fdopen(r) as fh:
            for line in fh:
                try: k, res = json.loads(line); obls[k].res = res
                except Exception: pass
        os.waitpid(pid, 0)
    for o in obls:
        if o.res is None: o.res = (False, 'unknown', 0, 0, 'none', 'worker died')
