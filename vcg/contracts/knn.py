"""C02 (and C12): knni::compute, host overload and the two device overloads (row and column heap layout).

Ghost state: D(p) squared distance of point p to the query, C(p,c) grid cell coordinates of point p (the grid
precondition is C01's postcondition), W(p) the heap slot that holds p."""
from lib import *
from run import *
from contracts import heap as H
I, RS = z3.IntSort(), z3.RealSort()
UND = -32
BIG = 2**30

def rfn(f): return lambda *x: RP.term(f(*[P(y).t() for y in x]))
def ifn(f): return lambda *x: Poly.term(f(*[P(y).t() for y in x]))

class Knn(Contract):
    timeout = 20000; rounds = 3; reads_confined = True
    def __init__(s, kind):
        s.kind = kind
        s.name = 'knni::compute[%s]' % {'vec': 'host', 'acc': 'device,row', 'dev': 'device,column'}[kind]
        tail = {'vec': r'\(int, int, std::vector', 'acc': r'\(int, int, sycl::accessor.*> const&, args::knn', 'dev': r'\(int, int, sycl::accessor.*> const&, int, args::knn'}[kind]
        s.fn = r'knni::compute<int, float>' + tail
        s.loops = s.mkloops()
    fork_fcmp = staticmethod(lambda E, st: any(E.loopspec[h].name == 'p' for h in st.loopctx) and not getattr(st, 'x', None))
    def grmax(s): return 255 if s.kind == 'dev' else 1290
    def make(s, E, st, f):
        i, index = ivar(E, 'i', 32, 0, BIG), ivar(E, 'index', 32, 0, BIG)
        N, M = ivar(E, 'xyzsize', 32, 0, BIG // 2), ivar(E, 'refsize', 32, 0, BIG // 2)
        k, gr = ivar(E, 'k', 32, 1, 65535), ivar(E, 'gr', 32, 1, s.grmax())
        if s.kind == 'vec':
            xyz = vec(st, 'xyzset', 'f32', layout=[3, 1], sizes=[N.p, 3], stride=3); ref = vec(st, 'refset', 'f32', layout=[3, 1], sizes=[M.p, 3], stride=3)
        else:
            xyz = vec(st, 'xyzset', 'f32', layout=[N.p, 1], sizes=[3, N.p]); ref = vec(st, 'refset', 'f32', layout=[M.p, 1], sizes=[3, M.p])
        ids = vec(st, 'id', 'i32', sizes=[M.p]); off = vec(st, 'offset', 'i32', sizes=[gr.p * gr.p * gr.p + 1])
        st.prod(gr.p, gr.p); st.prod(gr.p * gr.p, gr.p)
        args = struct_ptr(st, 'args', [(0, k), (4, gr)])
        if s.kind == 'dev':
            hs = ivar(E, 'hoffs', 32, 1, BIG)
            hid = vec(st, 'heap_id', 'i32', layout=[hs.p, 1], sizes=[k.p, hs.p]); hpq = vec(st, 'heap_pq', 'f32', layout=[hs.p, 1], sizes=[k.p, hs.p])
            return [i, index, xyz, N, ids, off, ref, M, hid, hpq, hs, args]
        n = k.p * i.p + k.p
        hid = vec(st, 'heap_id', 'i32', sizes=[n]); hpq = vec(st, 'heap_pq', 'f32', sizes=[n])
        return [i, index, xyz, N, ids, off, ref, ivar(E, 'refsize_argument', 32, -2**31, 2**31 - 1) if s.kind == 'vec' else M, hid, hpq, args]
    def bind(s, E, st, args):
        sg = lambda j: E.signed(st, args[j])
        a = NS(E=E, kind=s.kind, i0=sg(0), index=sg(1), xyz=reg(args[2]), N=sg(3), ids=reg(args[4]), off=reg(args[5]), ref=reg(args[6]), M=sg(7), id=reg(args[8]), pq=reg(args[9]))
        if s.kind == 'vec': a.M = a.ref.sizes[0]          # a chunk passes its own size as refsize: the host code must not depend on it
        sp = args[-1]
        a.k = E.signed(st, field(E, st, sp, 0)); a.gr = E.signed(st, field(E, st, sp, 4))
        a.n = a.k
        if s.kind == 'dev': a.s, a.i = sg(10), a.i0
        else: a.h0 = a.k * a.i0
        gr = a.gr
        idv = rd(st.mem[a.ids], a.index)
        T = lambda f, x, y: Poly.term(f(x.t(), y.t()), 0)
        a.q = [T(MOD, idv, gr), T(MOD, T(DIV, idv, gr), gr), T(DIV, idv, gr * gr)]
        a.idv = idv
        a.Q = [rd(st.mem[a.ref], (3 * a.index + c) if s.kind == 'vec' else a.M * c + a.index) for c in range(3)]
        a.gl = RP.term(rpoly.RDIV(z3.RealVal(1), itof(gr).t()))
        st.hyps.append(Implies(ge(gr, 1), rlt(0, a.gl)))            # a reciprocal keeps the sign
        a.D = rfn(z3.Function(poly.fresh_name('D'), I, RS))
        a.C = [ifn(z3.Function(poly.fresh_name('C%d' % c), I, I)) for c in range(3)]
        a.inf = RP.term(z3.Real(poly.fresh_name('unset_distance')))
        return a
    def X(s, a, S, p, c): return rd(S[a.xyz], (3 * P(p) + c) if s.kind == 'vec' else a.N * c + P(p))
    def cid(s, a, z, y, x): return a.gr * a.gr * P(z) + a.gr * P(y) + P(x)
    def at(s, a, p, z, y, x): return And(eq(a.C[0](p), x), eq(a.C[1](p), y), eq(a.C[2](p), z))
    def pt(s, a, name='p'): return Var(name, tags=['pt'], lo=0, hi=a.N)
    def pre(s, a, S):
        gr = a.gr
        dist = lambda p: sum(((s.X(a, S, p, c) - a.Q[c]) * (s.X(a, S, p, c) - a.Q[c]) for c in range(3)), RP.const(0))
        room = And(le(0, a.i), lt(a.i, a.s), lt(a.s * a.k + a.i, 2**31)) if s.kind == 'dev' else lt(a.k * a.i0 + a.k, 2**31)
        g = a.gl
        cv = lambda n: Var(n, tags=[n], lo=0, hi=gr)
        off = lambda c: rd(S[a.off], c)
        def grid(z, y, x, p):
            c = s.cid(a, z, y, x)
            return Iff(And(le(off(c), p), lt(p, off(c + 1))), And(le(0, p), lt(p, a.N), s.at(a, p, z, y, x)))
        a.ddef = Forall([s.pt(a)], lambda p: req(a.D(p), dist(p)))
        a.grid = Forall([cv('z'), cv('y'), cv('x'), Var('p', tags=['pt'])], grid, maxgen=9)
        return [('sizes', And(ge(a.k, 1), le(a.k, 65535), ge(gr, 1), le(gr, s.grmax()), lt(gr * gr * gr, 2**31 - 1), ge(a.index, 0), lt(a.index, a.M), ge(a.i0, 0), ge(a.N, 0), room)),
                ('query cell', And(ge(a.idv, 0), *[And(le(0, a.q[c]), lt(a.q[c], gr), rle(itof(a.q[c]) * g, a.Q[c]), rlt(a.Q[c], itof(a.q[c]) * g + g)) for c in range(3)])),
                ('query in the unit cube', And(*[And(rlt(0, x), rlt(x, 1)) for x in a.Q])),
                ('cells of points', Forall([s.pt(a)], lambda p: And(*[And(le(0, a.C[c](p)), lt(a.C[c](p), gr), rle(itof(a.C[c](p)) * g, s.X(a, S, p, c)), rlt(s.X(a, S, p, c), itof(a.C[c](p)) * g + g)) for c in range(3)]))),
                ('offset table', a.grid),
                ('offsets ascend', Forall([cv('z'), cv('y'), cv('x')], lambda z, y, x: And(le(0, off(s.cid(a, z, y, x))), le(off(s.cid(a, z, y, x)), off(s.cid(a, z, y, x) + 1)), le(off(s.cid(a, z, y, x) + 1), a.N)), maxgen=9)),
                ('distance (definition)', a.ddef),
                ('unset distance is larger than any distance', Forall([s.pt(a)], lambda p: rlt(a.D(p), a.inf))),
                ('heap row is unset', s.mark(Forall([H.rowvar(a, 'j', 0, a.k)], lambda j: And(eq(s.Hd(a, S, j), UND), req(H.pqat(a, S, j), a.inf)))))]
    def mark(s, f): f.origin = 'inv'; return f
    def Hd(s, a, S, j): return rd(S[a.id], H.row(a, j))
    def modifies(s, a, S): return [(a.id, H.inrow(a, a.k)), (a.pq, H.inrow(a, a.k))]
    def groups(s, a): return [H.group(a, a.k)]
    def products(s, a): return [(a.s, a.k)] if s.kind == 'dev' else [(a.k, a.i0)]
    def havoc_extra(s, E, st, a): s.fresh_ghost(E, st)
    def fresh_ghost(s, E, st):
        W = z3.Function(poly.fresh_name('W'), I, I); st.ghost['W'] = ifn(W)
    def entries(s, a, S, vis):
        def e(j):
            h, v = s.Hd(a, S, j), H.pqat(a, S, j)
            return Or(And(eq(h, UND), req(v, a.inf)), And(le(0, h), lt(h, a.N), ne(h, a.index), vis(h), req(v, a.D(h))))
        return [('slots: unset, or another point with its distance', Forall([H.rowvar(a, 'j', 0, a.k)], e)),
                ('no point twice', Forall([H.rowvar(a, 'i', 0, a.k), H.rowvar(a, 'j', 0, a.k)], lambda i, j: Implies(And(ne(i, j), ne(s.Hd(a, S, i), UND)), ne(s.Hd(a, S, i), s.Hd(a, S, j))), maxgen=2))]
    def kept(s, a, S, vis, far):
        W = S.ghost['W']
        return ('every visited point is kept or no nearer than the farthest kept', Forall([s.pt(a)],
            lambda p: Implies(And(ne(p, a.index), vis(p)), Or(And(le(0, W(p)), lt(W(p), a.k), eq(s.Hd(a, S, W(p)), p)), rle(far, a.D(p))))))
    def facts(s, a, S, vis):
        return s.entries(a, S, vis) + [s.kept(a, S, vis, H.pqat(a, S, P(0))),
            ('heap order', Forall([H.rowvar(a, 'j', 0, a.k)], lambda j: H.heap_ok(a, S, j, a.k))),
            ('root is largest', Forall([H.rowvar(a, 'j', 0, a.k)], lambda j: rle(H.pqat(a, S, j), H.pqat(a, S, P(0)))))]
    def post(s, a, S0, S1, ret):
        T = lambda p: TRUE
        W = S1.ghost['W']; last = H.pqat(a, S1, a.k - 1)
        return s.entries(a, S1, T) + [
            ('nearest first', Forall([H.rowvar(a, 'i', 0, a.k), H.rowvar(a, 'j', 0, a.k)], lambda i, j: Implies(lt(i, j), rle(H.pqat(a, S1, i), H.pqat(a, S1, j))))),
            ('every point left out is no nearer than any returned', Forall([s.pt(a)], lambda p: Implies(ne(p, a.index), Or(And(le(0, W(p)), lt(W(p), a.k), eq(s.Hd(a, S1, W(p)), p)), rle(last, a.D(p))))))]
    def on_exit(s, E, st, a):
        W, sg = st.ghost['W'], st.ghost.get('sigma')
        if sg is not None: st.ghost['W'] = lambda p: sg(W(p))
        # pruning lemma on the path that stops early
        r = None
        for h, sp in E.loopspec.items():
            if sp.name == 'r' and h in st.loopctx: r = LoopView(E, st, st.loopctx[h].roles, None).nat('r')
        if r is None: return
        root, T = st.ghost.get('fcmp', (None, None))
        if T is None: return
        m = None
        for v in list(st.env.values()):
            if isinstance(v, RP) and not v.isconst():
                c = itof(r) * a.gl + v
                if (c * c).same(T): m = c; break
        if m is None: return
        S0 = E.S0
        for x, y, n, rem in st.ghost.get('fmods', []):
            for c in range(3): st.hyps += [pos_product(itof(n - a.q[c] - 1), a.gl), pos_product(itof(a.q[c] - n - 1), a.gl)]
        st.hyps.append(pos_product(itof(r), a.gl))
        def lemma(p):
            out = []
            for c in range(3):
                d = s.X(a, S0, p, c) - a.Q[c]; C = a.C[c](p)
                out += [pos_product(itof(C - a.q[c] - r - 1), a.gl), pos_product(itof(a.q[c] - r - 1 - C), a.gl),
                        pos_product(d - m, d + m), pos_product(-d - m, m - d), rle(0, d * d)]
            return And(*out)
        st.hyps.append(Forall([s.pt(a)], lemma))
        g = Forall([s.pt(a)], lambda p: Implies(Not(s.box(a, p, r + 1)), rle(T, a.D(p))))
        E.oblige(st, 'lemma: points outside the searched cells are beyond the bound', g, 'lemma')
        E.assume(st, g)
    def box(s, a, p, r): return And(*[And(gt(a.C[c](p), a.q[c] - r), lt(a.C[c](p), a.q[c] + r)) for c in range(3)])
    def mkloops(s):
        def vis_at(a, L, level):
            names = ['r', 'z', 'y', 'x', 'p'][:level]
            v = {n: (L.nat(n) if n in L.roles else L.outer(n).nat(n)) for n in names}
            r = v['r']; C = a.C
            def vis(q):
                out = [s.box(a, q, r)]
                if level >= 2:
                    o = [lt(C[2](q), v['z'])]
                    if level >= 3: o.append(And(eq(C[2](q), v['z']), lt(C[1](q), v['y'])))
                    if level >= 4: o.append(And(eq(C[2](q), v['z']), eq(C[1](q), v['y']), lt(C[0](q), v['x'])))
                    out.append(And(s.box(a, q, r + 1), Or(*o)))
                if level >= 5: out.append(And(s.at(a, q, v['z'], v['y'], v['x']), lt(q, v['p'])))
                return Or(*out)
            return v, vis
        def mk(level):
            nm = ['r', 'z', 'y', 'x', 'p'][level - 1]
            def inv(a, L, S0, S, E0):
                v, vis = vis_at(a, L, level)
                if level == 1: cursor = And(le(0, v['r']), le(v['r'], a.gr))
                elif level < 5:
                    c = {'z': 2, 'y': 1, 'x': 0}[nm]; x = v[nm]
                    cursor = And(le(0, x), le(x, a.gr), le(a.q[c] - v['r'], x), le(x, a.q[c] + v['r'] + 1))
                else:
                    c = s.cid(a, v['z'], v['y'], v['x']); o0, o1 = rd(S[a.off], c), rd(S[a.off], c + 1)
                    cursor = And(le(o0, v['p']), le(v['p'], o1))
                return [('cursor', cursor)] + s.facts(a, S, vis)
            def variant(a, L, S):
                v, _ = vis_at(a, L, level)
                if level < 5: return [a.gr + 1 - v[nm]]
                return [rd(S[a.off], s.cid(a, v['z'], v['y'], v['x']) + 1) - v['p']]
            def after(E, st, a, L, S, invd):
                v, vis = vis_at(a, L, level); gr = a.gr
                for n in 'zyx':
                    if n in v: st.tag(n, v[n])
                if 'p' in v: st.tag('pt', v['p']); E.instantiate(st, a.grid, v['z'], v['y'], v['x'], v['p']); E.instantiate(st, a.ddef, v['p'])
                if nm == 'z': st.prod(gr * gr, v['z'])
                if nm == 'y': st.prod(gr, v['y'])
            def hints(E, st, a, L, S0, S):
                if level != 5: return
                ctx = [c for h, c in st.loopctx.items() if E.loopspec[h].name == 'p'][0]
                p0 = LoopView(E, NS(env=ctx.env, rec=st.rec), ctx.roles, ctx.entry)('p'); W, sg = ctx.snap.ghost['W'], st.ghost.get('sigma')
                if not E.implied(st, rlt(a.D(p0), H.pqat(a, ctx.snap, P(0))), 2000):
                    S.ghost['W'] = st.ghost['W'] = W; return
                if sg is None: return
                S.ghost['W'] = lambda q: pol_ite(eq(q, p0), sg(P(0)), sg(W(q)))
                st.tag('row', P(0)); st.tag('row', sg(P(0))); st.tag('row', st.ghost['pi'](P(0)))
                st.ghost['W'] = S.ghost['W']
                order = Forall([H.rowvar(a, 'j', 0, a.k)], lambda j: H.heap_ok(a, S, j, a.k))
                E.oblige(st, 'lemma: heap order after insertion', order, 'lemma')
                H.root_max(E, st, a, S, a.k, [order])
            return LoopSpec(nm, [nm], inv, variant, forget='inv', ghost=s.fresh_ghost, after=after, hints=hints,
                            pre_hints=(lambda E, st, a, L, S0, S: (s.fresh_ghost(E, st), S.ghost.update(st.ghost))) if level == 1 else None)
        return [mk(l) for l in range(1, 6)]

def contracts(): return [Knn('vec'), Knn('acc'), Knn('dev')] + [k(x) for x in ('vec', 'acc', 'dev') for k in (H.Maxheapify, H.Sort)]
