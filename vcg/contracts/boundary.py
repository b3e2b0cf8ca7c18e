"""C05: boundary::compute, host and device overload.

Ghost state: pos/n (the recorded successors form one cycle of length n, pos numbers it) and PS (for one arbitrary
ordered pair (U,V) of planes: PS(i) = signed number of triangles among the first i that contain the edge U->V)."""
from lib import *
from run import *
I = z3.IntSort()
UNDEF = 255

def ifn(name): return z3.Function(poly.fresh_name(name), I, I)
def capp(f, x): return Poly.term(f(P(x).t()))
def ite(c, x, y): return pol_ite(c, P(x), P(y))

def cyc(a, S, e): return rd(S[a.C], a.c0 + P(e))
def tri(a, S, r, k): return rd(S[a.R], a.r0 + 3 * P(r) + k)
def defd(a, S, e): return ne(cyc(a, S, e), UNDEF)
def evar(a, name, extra=()): return Var(name, [(a.C, a.c0, 1)], lo=0, hi=a.nd, extra=extra, tags=['plane'])
def rvarr(a, name, lo=0, hi=None): return Var(name, [(a.R, a.r0, 3)], lo=lo, hi=a.n if hi is None else hi, tags=['row'])
def weight(a, S, r):
    """signed multiplicity of the directed edge (U,V) in triangle r"""
    t = [tri(a, S, r, k) for k in range(3)]; w = P(0)
    for k in range(3):
        x, y = t[k], t[(k + 1) % 3]
        w = w + ite(And(eq(x, a.U), eq(y, a.V)), 1, 0) - ite(And(eq(x, a.V), eq(y, a.U)), 1, 0)
    return w
def chain(a, S): return ite(eq(cyc(a, S, a.U), a.V), 1, 0) - ite(eq(cyc(a, S, a.V), a.U), 1, 0)

def cycle_facts(a, S, g):
    """the defined entries of the row form exactly one directed cycle; pos: numbering, prd: predecessor"""
    pos, prd, n = g['pos'], g['prd'], g['n']
    def body(e):
        s = cyc(a, S, e)
        return Implies(ne(s, UNDEF), And(le(0, s), lt(s, a.B), lt(e, a.B), defd(a, S, s), le(0, pos(e)), lt(pos(e), n), eq(prd(s), e),
                eq(pos(s), ite(eq(pos(e) + 1, n), 0, pos(e) + 1))))
    def inv(e):
        return Implies(defd(a, S, e), And(le(0, prd(e)), lt(prd(e), a.nd), eq(cyc(a, S, prd(e)), e)))
    return [('entries: undefined or a plane that is itself in the cycle', Forall([evar(a, 'e')], body)),
            ('every plane of the cycle has a predecessor', Forall([evar(a, 'e')], inv)),
            ('at least two planes on the cycle', ge(n, 2)),
            ('one cycle', Forall([evar(a, 'x'), evar(a, 'y')], lambda x, y: Implies(And(defd(a, S, x), defd(a, S, y), eq(pos(x), pos(y))), eq(x, y))))]
def chain_facts(a, S, g, j):
    PS = g['PS']
    return [('edge count starts at 0', eq(PS(P(0)), 0)),
            ('edge count of each triangle', Forall([Var('r', [(a.R, a.r0, 3)], tags=['row'], lo=0, hi=j, extra=[0, P(j) - 1])], lambda r: eq(PS(r + 1), PS(r) + weight(a, S, r)))),
            ('cycle is the algebraic boundary of the triangles', eq(chain(a, S), PS(j)))]
def ghost_fresh():
    pos, prd, PS = ifn('pos'), ifn('prd'), ifn('PS')
    return dict(pos=lambda e: capp(pos, e), prd=lambda e: capp(prd, e), PS=lambda i: capp(PS, i), n=Poly.fresh('ncyc'))

def cyc_inst(E, st, facts, e):
    for k in ('entries: undefined or a plane that is itself in the cycle', 'every plane of the cycle has a predecessor'): E.instantiate(st, facts[k], e)

def head_value(head, S):
    p = S.cells[(head.r, head.off.cval())].p
    lo, hi = p.interval()
    return p if hi is not None and hi < 2**15 else ite(lt(p, 2**15), p, p - 2**16)

class BoundaryCompute(Contract):
    timeout = 20000; rounds = 2
    def __init__(s, kind):
        s.kind = kind; s.name = 'boundary::compute[%s]' % kind
        s.fn = r'boundary::compute<int, unsigned char>\(' + (r'unsigned char\*' if kind == 'host' else r'sycl::local_accessor')
        s.loops = s.mkloops()
    def make(s, E, st, f):
        c0, nd, r0, n = ivar(E, 'dr_offs', 32, 0, 2**31 - 1), ivar(E, 'dr_size', 32, 0, 2**16), ivar(E, 'r_offs', 32, 0, 2**31 - 1), ivar(E, 'r_size', 32, 0, 2**26)
        C = region(st, 'cycle', 'u8', sizes=[nd.p], base=c0.p); R = region(st, 'R', 'u8', sizes=[3 * n.p], base=r0.p)
        if s.kind == 'host': cp, rp = PtrV(C, 0), PtrV(R, 0)
        else: cp, rp = PtrV(VecObj('cycle', C), 0), PtrV(VecObj('R', R), 0)
        return [cp, c0, nd, struct_ptr(st, 'head', [(0, ivar(E, 'head', 16, -2**15, 2**15 - 1))]), rp, r0, n]
    def bind(s, E, st, args):
        a = NS(E=E, C=reg(args[0]), c0=E.signed(st, args[1]), nd=E.signed(st, args[2]), head=args[3], R=reg(args[4]), r0=E.signed(st, args[5]), n=E.signed(st, args[6]))
        if isinstance(args[0], PtrV) and isinstance(args[0].r, Region): a.c0 = a.c0 + args[0].off
        if isinstance(args[4], PtrV) and isinstance(args[4].r, Region): a.r0 = a.r0 + args[4].off
        # every plane number in the triangles is below B (the caller's bound, or an arbitrary one)
        a.B = st.ghost.get('plane_bound')
        if a.B is None: a.B = Poly.var(poly.fresh_name('B'), 0, 255)
        # an arbitrary ordered pair of planes
        a.U, a.V = Poly.var(poly.fresh_name('U'), 0, 254), Poly.var(poly.fresh_name('V'), 0, 254)
        st.hyps.append(And(lt(a.U, a.B), lt(a.V, a.B)))
        for x in (a.U, a.V): st.tag('plane', x)
        st.tag('row', P(0))
        return a
    def pre(s, a, S):
        return [('sizes', And(ge(a.n, 1), ge(a.nd, 1), le(a.nd, 2**16), le(a.B, a.nd), le(a.B, 255), ge(a.c0, 0), ge(a.r0, 0), lt(a.c0 + a.nd, 2**31), lt(a.r0 + 3 * a.n, 2**31), le(a.n, 2**26))),
                ('row is all undefined', Forall([evar(a, 'e')], lambda e: eq(cyc(a, S, e), UNDEF))),
                ('triangles name three different planes of the row', Forall([rvarr(a, 'r')], lambda r: s.tri_ok(a, S, r)))]
    def tri_ok(s, a, S, r):
        t = [tri(a, S, r, k) for k in range(3)]
        return And(*[lt(x, a.B) for x in t], ne(t[0], t[1]), ne(t[1], t[2]), ne(t[0], t[2]))
    def modifies(s, a, S):
        return [(a.C, in_range(a.c0, a.nd)), (a.R, in_range(a.r0 + 3, 3 * a.n - 3)), (a.head.r, None)]
    def havoc_extra(s, E, st, a): st.ghost.update(ghost_fresh(), bhead=a.head)
    def post(s, a, S0, S1, ret):
        ok = eq(ret.p, 0)
        def when(g):
            if isinstance(g, Forall): return Forall(g.vars, lambda *x, g=g: Implies(ok, g.body(*x)), g.name)
            return Implies(ok, g)
        h = s.headv(a, S1)
        fs = cycle_facts(a, S1, S1.ghost) + chain_facts(a, S1, S1.ghost, a.n) + [('head is on the cycle', And(le(0, h), lt(h, a.nd), defd(a, S1, h)))]
        out = [('success or unreachable', Or(eq(ret.p, 0), eq(ret.p, 1)))]
        if not (ret.p.isconst() and ret.p.cval() == 1): out += [(nm, when(g)) for nm, g in fs]
        out += [('triangles keep their planes', Forall([rvarr(a, 'r')], lambda r: s.tri_ok(a, S1, r))),
                ('triangles only reordered', Perm(rows(a), S0, S1, elim=False))]
        return out
    def headv(s, a, S): return head_value(a.head, S)
    def result(s, E, a, st, f): st.ghost['bstat'] = Poly.fresh('bstatus', 0, 255); return IntV(st.ghost['bstat'], 8)
    def groups(s, a): return [rows(a)]
    def mkloops(s):
        def outer(a, L, S0, S, E0):
            j, w = L('j'), L('swap_j'); h = s.headv(a, S)
            g = S.ghost
            return [('cursors', And(le(1, j), le(j, w), le(w, a.n))),
                    ('head is on the cycle', And(le(0, h), lt(h, a.nd), defd(a, S, h)))] + cycle_facts(a, S, g) + chain_facts(a, S, g, j) + [
                    ('triangles keep their planes', Forall([rvarr(a, 'r')], lambda r: s.tri_ok(a, S, r))),
                    ('triangles only reordered', Perm(rows(a), S0, S, elim=False))]
        def entry_ghost(E, st, a, L, S0, S):
            t = [tri(a, S, P(0), k) for k in range(3)]
            pos = lambda e: ite(eq(e, t[0]), 0, ite(eq(e, t[1]), 1, 2))
            prd = lambda e: ite(eq(e, t[0]), t[2], ite(eq(e, t[1]), t[0], t[1]))
            w0 = weight(a, S, P(0))
            PS = lambda i: ite(le(i, 0), 0, w0)
            S.ghost.update(pos=pos, prd=prd, n=P(3), PS=PS)
        def back_ghost(E, st, a, L, S0, S):
            # witnesses from the previous numbering, by which kind of step was taken
            ctx = [c for h, c in st.loopctx.items() if E.loopspec[h].name == 'triangles'][0]
            H = ctx.snap; g = H.ghost; pos, prd, n, PS = g['pos'], g['prd'], g['n'], g['PS']
            j = E.signed(st, ctx.env[ctx.roles['j']])
            t = [tri(a, S, j, k) for k in range(3)]
            C = lambda e: cyc(a, H, e); D = lambda e: cyc(a, S, e)
            npos, nprd, nn, step = pos, prd, n, None
            for v in t: st.tag('plane', v)
            for k in range(3):
                x, y, z = t[k], t[(k + 1) % 3], t[(k + 2) % 3]
                if E.implied(st, And(eq(C(y), x), eq(D(y), z), eq(D(z), x)), 2000):      # z inserted between y and x
                    npos = lambda e: ite(eq(e, z), pos(y) + 1, ite(gt(pos(e), pos(y)), pos(e) + 1, pos(e)))
                    nprd = lambda e: ite(eq(e, z), y, ite(eq(e, x), z, prd(e)))
                    nn = n + 1; step = 'insert'; break
                if E.implied(st, And(eq(C(x), z), eq(C(z), y), eq(D(z), UNDEF), eq(D(x), y)), 2000):   # z removed between x and y
                    npos = lambda e: ite(gt(pos(e), pos(z)), pos(e) - 1, pos(e))
                    nprd = lambda e: ite(eq(e, y), x, prd(e))
                    nn = n - 1; step = 'remove'; break
            if step is None:
                for lp, v in (('check1', 'edge_i'), ('check2', 'edge_j')):
                    try: st.tag('plane', L.outer(lp)(v))
                    except (Unsupported, KeyError): pass
            if step is None and S[a.C] is not H[a.C]:
                same = Forall([evar(a, 'e')], lambda e: eq(cyc(a, S, e), cyc(a, H, e)))
                E.oblige(st, 'lemma: rejected triangle leaves the cycle as it was', same, 'lemma')
                E.assume(st, same)
            wj = weight(a, S, j)
            S.ghost.update(pos=npos, prd=nprd, n=nn, PS=lambda i: ite(gt(i, j), PS(j) + wj, PS(i)))
            st.tag('row', j); st.tag('row', L('swap_j'))
        def outer_ghost(E, st): st.ghost.update(ghost_fresh())
        def remember(a, L, S):
            return [a.n - L('j'), L('swap_j') - L('j')]
        def walk(a, L, S0, S, E0):
            e = L.u('edge'); c = L('counter'); T = L.outer('triangles'); j = T('j'); b = L.bv('stat')
            out = [('edge is on the cycle', And(le(0, e), lt(e, a.nd), defd(a, S, e))), ('counter', And(le(0, c), le(c, a.n + 2)))]
            for m in range(3):
                x, y = tri(a, S, j, m), tri(a, S, j, (m + 1) % 3)
                out.append(('shared edge %d' % m, Implies(z3.Extract(m, m, b) == 1, eq(cyc(a, S, y), x))))
            out.append(('status bits', z3.ULT(b, z3.BitVecVal(8, 8))))
            return out
        def after_outer(E, st, a, L, S, inv):
            j = L('j'); h = s.headv(a, S)
            E.instantiate(st, inv['triangles keep their planes'], j)
            for e in [tri(a, S, j, k) for k in range(3)] + [h]: cyc_inst(E, st, inv, e)
        def after_walk(E, st, a, L, S, inv):
            e = L.u('edge')
            cyc_inst(E, st, dict(cycle_facts(a, S, S.ghost)), e)
        nodup = lambda a, S, x, y: Implies(And(defd(a, S, x), defd(a, S, y)), ne(cyc(a, S, x), cyc(a, S, y)))
        def dup1(a, L, S0, S, E0):
            i = L('edge_i')
            return [('cursor', And(le(0, i), le(i, a.nd))),
                    ('no two equal successors so far', Forall([Var('x', [(a.C, a.c0, 1)], lo=0, hi=i, tags=['plane']), evar(a, 'y')],
                        lambda x, y: Implies(lt(x, y), nodup(a, S, x, y))))]
        def dup2(a, L, S0, S, E0):
            i = L.outer('check1')('edge_i'); j = L('edge_j')
            return [('cursor', And(lt(i, j), le(j, a.nd))),
                    ('no equal successor so far', Forall([Var('y', [(a.C, a.c0, 1)], lo=i + 1, hi=j, tags=['plane'])], lambda y: nodup(a, S, i, y)))]
        nothing = lambda a, S0, entry: []
        only_head = nothing
        return [LoopSpec('triangles', ['j', 'swap_j'], outer, remember, ghost=outer_ghost, hints=back_ghost, pre_hints=entry_ghost, after=after_outer),
                LoopSpec('walk', ['edge', 'counter', 'stat'], walk, lambda a, L, S: [a.n + 3 - L('counter')], modifies=nothing, bv=['stat'], after=after_walk),
                LoopSpec('check1', ['edge_i'], dup1, lambda a, L, S: [a.nd - L('edge_i')], modifies=nothing),
                LoopSpec('check2', ['edge_j'], dup2, lambda a, L, S: [a.nd - L('edge_j')], modifies=nothing)]

def rows(a):
    """the triangles as a row of 3-tuples"""
    def inrow(r, p):
        q, c = (p - a.r0).divide_by(P(3))
        return And(le(0, q), lt(q, a.n)), q
    g = Group('triangles', [a.R], lambda r, j: a.r0 + 3 * P(j), inrow, a.n)
    g.cols = [(a.R, lambda j, k=k: a.r0 + 3 * P(j) + k) for k in range(3)]
    g.src = [(a.R, a.r0, 3)]
    return g

def contracts(): return [BoundaryCompute('host'), BoundaryCompute('device')]
