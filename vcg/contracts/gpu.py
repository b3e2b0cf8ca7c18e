"""C12: __gpu__tesellate: the device run's chunks, buffers, kernels and the transposition of its results.

Same shape as contracts/cpu.py: per-point work through summaries (candidates KNR(q,.), neighbours CCR(q,.), state byte fin), here in the
device layout (slot g is column g of the working arrays).  A kernel is executed work item by work item; the frames of two items are
disjoint (column g, rows g of P and T, the state of point indices[g], row l of the local array), so the order does not matter."""
import re
from lib import *
from run import *
from contracts.knn import ifn
from contracts.cpu import GetKnn, GetCc, FillUse, Tess, local, at, UND, BIG, I, B8
KIND = ['i32', 'f32', 'u8', 'bv8']

def bname(v):
    if not (isinstance(v, PtrV) and isinstance(v.r, Cells) and v.off.isconst() and v.off.cval() == 0): raise Unsupported('buffer object %r' % (v,))
    return v.r.name.split('#')[0].split('.')[0]
def newreg(st, name, kind, n, layout=None, sizes=None):
    r = Region(name, kind, layout, sizes or [n]); r.local = True
    w = VecObj(name, r, None, 1); st.vecs[w] = n
    return r
@intrinsic(r'verif_buffer$')
def i_buffer(E, st, args, i):
    name = bname(args[0]); n = E.unsigned(st, args[1])
    r = newreg(st, name, KIND[E.signed(st, args[2]).cval()], n)
    st.mem[r] = Base(r, r.newfn('uninit')); st.ghost[('flat', name)] = r
    return PtrV(r, 0)
@intrinsic(r'verif_discard$')
def i_discard(E, st, args, i):
    """accessor with no_init: the old contents are gone"""
    name = bname(args[0]); r = E.load(st, args[0], PtrT()).r
    if not r.local: raise Unsupported('no_init access to the caller\'s array')
    st.mem[r] = Havoc(r, st.mem[r], lambda p: TRUE, r.newfn('discarded')); st.ghost[('view', name)] = None; st.ghost['pending'] = name
    return PtrV(r, 0)
@intrinsic(r'verif_access$')
def i_access(E, st, args, i):
    name = bname(args[0]); p = E.load(st, args[0], PtrT()); v = st.ghost.get(('view', name))
    if v is None and name in getattr(E.contract, 'COLUMNS', ()):
        v = st.ghost[('view', name)] = E.contract.columns(E, st, name, p.r)
    return PtrV(v, 0) if v is not None else p
@intrinsic(r'verif_local$')
def i_local(E, st, args, i):
    r = newreg(st, 'local memory', 'u8', E.unsigned(st, args[0])); st.mem[r] = Base(r, r.newfn('uninit')); return PtrV(r, 0)
@intrinsic(r'verif_local_id$')
def i_local_id(E, st, args, i):
    n = E.unsigned(st, args[1]); l = Poly.fresh('local_id', 0)
    E.oblige(st, 'work groups are not empty', ge(n, 1), 'safety'); E.assume(st, And(le(0, l), lt(l, n)))
    return IntV(l, 64)
@intrinsic(r'std::vector<.*>::vector<(int|cc::state)\*, void>\(')
def i_range_ctor(E, st, args, i):
    v = args[0].r; b, e = args[1], args[2]
    if not (isinstance(v, VecObj) and isinstance(b, PtrV) and isinstance(e, PtrV) and b.r is e.r and isinstance(b.r, Region) and b.off.isconst() and b.off.cval() == 0): raise Unsupported('vector from a range')
    r0 = b.r; n = E.elem_index(r0, e.off) if len(r0.layout) == 1 else None
    if n is None:
        q, m = divmod_bytes(e.off, r0.esz)
        n = q
    E.oblige(st, 'range:%s' % r0.name, And(le(0, n), le(n, vlen(E, st, r0.vec))), 'safety')
    r = Region(v.name, r0.kind, r0.layout if len(r0.layout) > 1 else None, r0.sizes if len(r0.layout) > 1 else None); r.local = True; r.vec = v
    if v.region0 is None: v.region0 = r
    src = st.mem[r0]; zero = RP.const(0) if r.sort == 'F' else z3.BitVecVal(0, 8) if r.sort == 'B' else P(0)
    st.ghost[('vreg', v)] = r; st.vecs[v] = n
    st.mem[r] = Fill(r, ConstMem(r, zero), lambda p: TRUE, lambda c: rd(src, r.phys(c)))
def divmod_bytes(off, esz):
    q, m = P(off).divide_by(P(esz)) if not P(off).isconst() else (P(P(off).cval() // esz), P(0))
    return q, m
@intrinsic(r'std::vector<cc::state, .*>::operator=\(std::vector<.*>&&\)')
def i_states_assign(E, st, args, i):
    d, v = vobj(args[0]), vobj(args[1])
    if d.region.local or v.region is None: raise Unsupported('vector assignment')
    E.oblige(st, 'length kept:%s' % d.name, eq(vlen(E, st, d), vlen(E, st, v)), 'safety')
    E.check_submod(st, d.region, lambda p: TRUE, 'assignment'); src = st.mem[v.region]
    st.mem[d.region] = Fill(d.region, st.mem[d.region], lambda p: TRUE, lambda c: rd(src, d.region.phys(c)))
    return args[0]

class PrintDevice(Contract):
    name = 'print_device'; fn = r'^print_device\('; trusted_here = True
    def bind(s, E, st, args): return NS(E=E)

def acc(E, st, v):
    p = E.load(st, v, PtrT())
    if not (isinstance(p, PtrV) and isinstance(p.r, Region) and p.off.isconst() and p.off.cval() == 0): raise Unsupported('accessor %r' % (p,))
    return p.r
def colpred(r, g): return (r, lambda p: eq(r.decode(p)[1], g))
def is_column_view(r): return len(r.layout) == 2
class KnnDev(Contract):
    name = 'knni::compute (per point, device)'; fn = r'knni::compute<int, float>\(int, int, sycl::accessor<.*, int, args::knn'; trusted_here = True
    def bind(s, E, st, args):
        sg = lambda j: E.signed(st, args[j])
        a = NS(E=E, G=E.a, g=sg(0), index=sg(1), xyz=acc(E, st, args[2]), N=sg(3), ids=acc(E, st, args[4]), off=acc(E, st, args[5]), ref=acc(E, st, args[6]), M=sg(7), id=acc(E, st, args[8]), pq=acc(E, st, args[9]), stride=sg(10))
        a.k, a.gr = E.signed(st, field(E, st, args[11], 0)), E.signed(st, field(E, st, args[11], 4))
        return a
    def j(s, a, r): return Var('j', [('coord', r, 0)], tags=['j'], lo=0, hi=a.G.k)
    def points(s, a, S):
        G = a.G
        if a.xyz is not a.ref or a.xyz.name.split('#')[0].split('.')[0] != 'xyzset': return FALSE
        return Forall([Var('i', [('coord', a.xyz, 1)], tags=['q'], lo=0, hi=G.M)], lambda i: And(*[req(rd(S[a.xyz], a.xyz.phys([P(c), P(i)])), rd(S[G.xyz], G.xyz.phys([P(i), P(c)]))) for c in range(3)]))
    def pre(s, a, S):
        G = a.G; ok = all(is_column_view(r) for r in (a.id, a.pq)) and a.ids is G.ids and a.off is G.off and a.id is not a.pq
        if not ok: return [('the inputs are the caller\'s', FALSE)]
        W = a.id.layout[0]
        return [('the points are the caller\'s', s.points(a, S)), ('parameters', And(eq(a.k, G.k), eq(a.gr, G.gr), eq(a.N, G.M), eq(a.M, G.M), le(a.gr, 255))),
                ('index', And(le(0, a.index), lt(a.index, G.M))), ('slot', And(le(0, a.g), lt(a.g, W), eq(a.stride, W), eq(a.pq.layout[0], W))),
                ('row is unset', Forall([s.j(a, a.id)], lambda j: And(eq(at(S, a.id, j, a.g), UND), rle(RP.const(4), at(S, a.pq, j, a.g)))))]
    def modifies(s, a, S): return [colpred(a.id, a.g), colpred(a.pq, a.g)]
    def post(s, a, S0, S1, ret): return [('candidates of the point', Forall([s.j(a, a.id)], lambda j: eq(at(S1, a.id, j, a.g), a.G.KNR(a.index, j))))]

class CCDev(Contract):
    name = 'cci::compute (per point, device)'; fn = r'cci::compute<int, float, unsigned char>\(int, int, int, sycl::accessor'; trusted_here = True
    def bind(s, E, st, args):
        g, l, index, states, Pr, T, dR, knn, koffs, dknn, xyz, N, ref, M, ar = args; sg = lambda x: E.signed(st, x); A = lambda x: acc(E, st, x)
        a = NS(E=E, G=E.a, g=sg(g), l=sg(l), index=sg(index), st=A(states), P=A(Pr), T=A(T), dR=A(dR), id=A(knn), stride=sg(koffs), dk=A(dknn), xyz=A(xyz), N=sg(N), ref=A(ref), M=sg(M))
        a.nP, a.nT, a.nR, a.nS = [vlen(E, st, r.vec) for r in (a.P, a.T, a.dR, a.st)]
        a.k, a.pm, a.tm = [sg(field(E, st, ar, o)) for o in (0, 4, 8)]
        for x in (a.G.pm, a.G.tm): st.prod(x, a.g); st.prod(x, a.g + 1)
        st.prod(a.G.pm, a.l); st.prod(a.G.pm, a.l + 1)
        return a
    j = KnnDev.j; points = KnnDev.points
    def pre(s, a, S):
        G = a.G
        if not (all(is_column_view(r) for r in (a.id, a.dk)) and a.st is S.ghost.get(('flat', 'bstates')) and len({a.P, a.T, a.dR, a.id, a.dk, a.st, a.xyz}) == 7): return [('the inputs are the caller\'s', FALSE)]
        W = a.id.layout[0]
        return [('the points are the caller\'s', s.points(a, S)), ('parameters', And(eq(a.k, G.k), eq(a.pm, G.pm), eq(a.tm, G.tm), eq(a.N, G.M), eq(a.M, G.M))),
                ('index', And(le(0, a.index), lt(a.index, G.M), lt(a.index, a.nS))), ('slot', And(le(0, a.g), lt(a.g, W), eq(a.stride, W), eq(a.dk.layout[0], W))),
                ('rows of planes and vertices', And(le(4 * G.pm * (a.g + 1), a.nP), le(3 * G.tm * (a.g + 1), a.nT))), ('row of local memory', And(le(0, a.l), le(G.pm * (a.l + 1), a.nR))),
                ('row holds the candidates of the point', Forall([s.j(a, a.id)], lambda j: eq(at(S, a.id, j, a.g), G.KNR(a.index, j)))),
                ('no plane belongs to a neighbour yet', Forall([s.j(a, a.dk)], lambda j: eq(at(S, a.dk, j, a.g), UND)))]
    def modifies(s, a, S):
        blk = lambda w, i: (lambda p: And(le(w * i, p), lt(p, w * (i + 1))))
        return [(a.st, lambda p: eq(p, a.index)), (a.P, blk(4 * a.G.pm, a.g)), (a.T, blk(3 * a.G.tm, a.g)), (a.dR, blk(a.G.pm, a.l)), colpred(a.id, a.g), colpred(a.dk, a.g)]
    def post(s, a, S0, S1, ret):
        G = a.G
        return [('neighbours of the point', Forall([s.j(a, a.id)], lambda j: eq(at(S1, a.id, j, a.g), G.CCR(a.index, j)))),
                ('state of the point', rd(S1[a.st], a.index) == G.fin(rd(S0[a.st], a.index), a.index))]

class GpuTess(Tess):
    name = '__gpu__tesellate'; fn = r"votess::__gpu__tesellate<int, float, unsigned char>\((?!.*::'lambda)"
    COLUMNS = ('bheap_id', 'bheap_pq', 'bdknn')
    def make(s, E, st, f):
        iv = lambda n, lo, hi: Poly.var(poly.fresh_name(n), lo, hi)
        M = iv('refsize', 1, BIG); k, gr, pm, tm = iv('k', 1, 65535), iv('gr', 1, 255), iv('p_maxsize', 1, 65535), iv('t_maxsize', 1, 32767)
        nd, use, ch = iv('gpu_ndsize', -2**31, 2**31 - 1), iv('use_chunking', 0, 1), iv('chunksize', -2**31, 2**31 - 1)
        for x in (k, pm, tm): st.prod(x, M)
        st.prod(nd, pm)
        return [vec(st, '_xyzset', 'f32', M, [3, 1], [M, 3], 3), vec(st, 'id', 'i32', M, sizes=[M]), vec(st, 'offset', 'i32', iv('noffset', 0, 2**40)), vec(st, '_refset', 'f32', M, [3, 1], [M, 3], 3), vecvec(st, 'tmpnn', M), vec(st, 'states', 'bv8', M, sizes=[M]),
                mkargs(st, 'args', dict(k=k, knn_grid_resolution=gr, cc_p_maxsize=pm, cc_t_maxsize=tm, gpu_ndsize=nd, use_chunking=use, chunksize=ch))]
    def bind(s, E, st, args):
        a = Tess.bind(s, E, st, args); a.nd = a.o.get(st, 'gpu_ndsize'); return a
    def pre(s, a, S):
        return [('sizes', And(le(1, a.M), le(a.M, BIG), eq(a.N, a.M), le(1, a.k), le(a.k, 65535), le(1, a.gr), le(a.gr, 255), le(1, a.pm), le(a.pm, 65535), le(1, a.tm), le(a.tm, 32767), le(0, a.use), le(a.use, 1),
                              lt(a.M * a.k, 2**31), lt(4 * a.M * a.pm, 2**31), lt(3 * a.M * a.tm, 2**31), Implies(gt(a.nd, 0), lt(a.nd * a.pm, 2**31)), eq(a.tmprows, a.M), eq(a.nstates, a.M), lt(3 * a.M, 2**31)))]
    def vec_layout(s, E, st, name, n):
        name = name.split('#')[0].split('.')[0]
        return ([E.a.M, 1], [3, E.a.M]) if name == 'xyzset' else ([E.a.k, 1], None) if name == 'knn' else None
    def done(s, a, S, r, upto, q): return rd(S[r], q) == z3.If(lt(q, upto), a.fin(z3.BitVecVal(0, 8), q), z3.BitVecVal(0, 8))
    def dstates(s, a, S, upto):
        r = S.ghost[('flat', 'bstates')]
        return ('device state of a point', Forall([Var('q', [(r, 0, 1)], tags=['q'], lo=0, hi=a.M)], lambda q: s.done(a, S, r, upto, q)))
    def hstates(s, a, S, upto, when=TRUE): return ('state of a point', Forall([Var('q', [(a.st, 0, 1)], tags=['q'], lo=0, hi=a.M)], lambda q: Implies(when, s.done(a, S, a.st, upto, q))))
    def post(s, a, S0, S1, ret): return s.answer(a, S1, a.M) + [s.hstates(a, S1, a.M)]
    # ---- a working array seen as columns, one per slot of the chunk
    def columns(s, E, st, name, flat):
        a = E.a; W = s.width(E, st); n = vlen(E, st, flat.vec)
        st.prod(a.k, W); st.prod(a.k, st.ghost['T'].rows)
        E.oblige(st, 'columns fit:%s' % name, And(le(0, W), le(a.k * W, n)), 'safety')
        r = newreg(st, name + ' columns', flat.kind, n, [W, 1], [a.k, W]); src = st.mem[flat]
        st.mem[r] = Fill(r, ConstMem(r, RP.const(0) if r.sort == 'F' else P(0)), lambda p: TRUE, lambda c: rd(src, r.phys(c)))
        # monotonicity of the product, as st.prod gives it, for every row j
        E.assume(st, Forall([Var('j', [('coord', r, 0)], tags=['j'], lo=0, hi=a.k)], lambda j: Implies(ge(W, 0), And(ge(W * j, 0), le(W * j + W, W * a.k)))))
        return r
    def width(s, E, st):
        """the chunk's number of points, as a single symbol from here on"""
        W = st.ghost.get('W')
        if W is not None: return W
        T = st.ghost['T']; h, ctx = [(h, c) for h, c in st.loopctx.items() if E.loopspec[h].name == 'run'][0]
        run = LoopView(E, st, ctx.roles, ctx.entry)('run'); want = pol_ite(eq(run, T.nruns - 1), a_(E).M - run * T.c, T.c) if T.many else a_(E).M
        found = []
        for k, v in list(st.env.items()):
            if isinstance(v, IntV) and v.n in (32, 64) and not v.p.isconst() and E.implied(st, eq(v.p, want), 500): found.append((st.env, k, v))
        for k, v in list(st.cells.items()):
            if isinstance(v, IntV) and v.n in (32, 64) and not v.p.isconst() and E.implied(st, eq(v.p, want), 500): found.append((st.cells, k, v))
        if not found: raise Unsupported('no variable holds the size of the chunk')
        W = Poly.fresh('width', 0, BIG); E.assume(st, eq(W, want))
        for d, k, v in found: d[k] = IntV(W, v.n)
        st.ghost['W'] = W; st.prod(a_(E).k, W)
        for x in (a_(E).pm, a_(E).tm): st.prod(x, W); st.prod(x, T.rows)
        return W
    @property
    def loops(s):
        def resolve(E, st, a, L, S0, S):
            pick = lambda c, x, y: x if E.implied(st, c, 2000) else y if E.implied(st, Not(c), 2000) else None
            T = NS(); T.c = pick(ne(a.use, 0), a.ch, a.M + 1)
            if T.c is None: raise Unsupported('chunk size on this path')
            T.many = pick(And(gt(T.c, 0), lt(T.c, a.M)), True, False)
            if T.many is None: raise Unsupported('number of runs on this path')
            T.rows = T.c if T.many else a.M; T.nruns = L.bound('run')
            st.ghost['T'] = T; S.ghost['T'] = T
            h = [h for h, sp in E.loopspec.items() if sp.name == 'run'][0]      # the states may be read back in every run, or once at the end
            T.back = any(i.op == 'call' and re.search(r'vector<cc::state, .*>::operator=\(', E.mod.dem.get(str(i.x['callee']).strip('@').strip('"'), '')) for b in E.f.loops[h] for i in E.f.blocks[b])
            for x in (a.k, 4 * a.pm, 3 * a.tm): st.prod(x, T.rows)
            if T.many: st.prod(T.c, T.nruns); st.prod(T.c, T.nruns - 1)
        U = lambda a, T, run: pol_ite(lt(run, T.nruns), run * T.c, a.M)
        def inv_flat(a, L, S0, S, E0):
            i = L('i'); x = local(S, 'xyzset').region
            return [('cursor', And(le(0, i), le(i, a.M))), ('length', eq(S.vlen(local(S, 'xyzset')), 3 * a.M)),
                    ('coordinates', Forall([Var('q', [('coord', x, 1)], tags=['q'], lo=0, hi=i)], lambda q: And(*[req(rd(S[x], x.phys([P(c), P(q)])), rd(S[a.xyz], a.xyz.phys([P(q), P(c)]))) for c in range(3)])))]
        def inv_fill(a, L, S0, S, E0):
            i = L.u('item'); n = S.ghost['pending']; r = S.ghost[('flat', n)]
            if n == 'bindices': run, T = L.outer('run')('run'), S.ghost['T']
            val = {'bstates': lambda x, q: x == z3.BitVecVal(0, 8), 'bheap_id': lambda x, q: eq(x, UND), 'bdknn': lambda x, q: eq(x, UND), 'bheap_pq': lambda x, q: rle(RP.const(4), x),
                   'bindices': lambda x, q: eq(x, run * T.c + q)}.get(n)
            return [('cursor', And(le(0, i), le(i, S.vlen(r.vec))))] + ([('filled:%s' % n, Forall([Var('p', [('coord', r, 0)], tags=['slot'] if n == 'bindices' else [], lo=0, hi=i)], lambda q: val(rd(S[r], q), q), maxgen=9))] if val else [])
        def mod_fill(a, S0, S): return [(S.ghost[('flat', S.ghost['pending'])], lambda p: TRUE)]
        def var_fill(a, L, S): return [S.vlen(S.ghost[('flat', S.ghost['pending'])].vec) - L.u('item')]
        flats = lambda S: [v for k, v in S.ghost.items() if isinstance(k, tuple) and k[0] == 'flat']
        def inv_run(a, L, S0, S, E0):
            T = S.ghost['T']; run = L('run')
            out = [('cursor', And(le(0, run), le(run, T.nruns))), ('chunks cover the points', And(ge(T.nruns, 1), le((T.nruns - 1) * T.c, a.M), le(a.M, T.nruns * T.c)) if T.many else eq(T.nruns, 1)),
                   ('sizes', And(*[eq(S.vlen(S.ghost[('flat', n)].vec), k * T.rows) for n, k in (('bindices', 1), ('bheap_id', a.k), ('bheap_pq', a.k), ('bdknn', a.k), ('bP', 4 * a.pm), ('bT', 3 * a.tm))] + [eq(S.vlen(S.ghost[('flat', 'bstates')].vec), a.M)]))]
            return out + s.answer(a, S, U(a, T, run)) + [s.dstates(a, S, U(a, T, run))] + ([s.hstates(a, S, U(a, T, run), ge(run, 1))] if T.back else [])
        def aft_run(E, st, a, L, S, d):
            T = S.ghost['T']; run = L('run'); st.prod(T.c, run)
            if T.many: st.prod(T.c, T.nruns); st.prod(T.c, T.nruns - 1); st.prod(T.c, run + 1)
            st.ghost['slot_of'] = lambda q: P(q) - run * T.c; st.ghost['W'] = None
        def mod_run(a, S0, S): return [(a.lens, lambda p: TRUE), (a.data, lambda p: TRUE), (a.st, lambda p: TRUE)] + [(r, lambda p: TRUE) for r in flats(S)]
        views = lambda S: [S.ghost[('view', n)] for n in s.COLUMNS]
        def lname(S): return [v.region for v in S.vecs if v.name == 'local memory' and v.region in S.mem][-1:]
        def inv_items(a, L, S0, S, E0):
            g = L.u('gitem'); hid, pq, dk = views(S); W = S.ghost['W']; ix = S.ghost[('flat', 'bindices')]; T = S.ghost['T']; run = L.outer('run')('run')
            rv = lambda lo, hi: Var('r', [('coord', hid, 1), ('coord', dk, 1)], tags=['slot'], lo=lo, hi=hi); jv = Var('j', [('coord', hid, 0), ('coord', dk, 0)], tags=['j'], lo=0, hi=a.k)
            return [('cursor', And(le(0, g), le(g, W))),
                    ('columns before are finished', Forall([rv(0, g), jv], lambda r, j: eq(at(S, hid, j, r), a.CCR(run * T.c + r, j)), maxgen=9)),
                    ('columns after are unset', Forall([rv(g, W), jv], lambda r, j: And(eq(at(S, hid, j, r), UND), rle(RP.const(4), at(S, pq, j, r)), eq(at(S, dk, j, r), UND)), maxgen=9)),
                    s.dstates(a, S, run * T.c + g)]
        def aft_items(E, st, a, L, S, d):
            g = L.u('gitem'); st.tag('slot', g); st.tag('q', L.outer('run')('run') * S.ghost['T'].c + g)
        def mod_items(a, S0, S): return [(r, lambda p: TRUE) for r in views(S) + [S.ghost[('flat', n)] for n in ('bP', 'bT', 'bstates')] + lname(S)]
        def tr(S): return None, local(S, 'knn').region
        def pick_order(E, st, a, L, S0, S):
            """the transposition may run over slots first or over neighbours first"""
            W = st.ghost['W']; n = L.bound('si')
            sw = not E.implied(st, eq(n, W), 2000) and E.implied(st, eq(n, a.k), 2000)
            st.ghost['swap'] = S.ghost['swap'] = sw
        def inv_si(a, L, S0, S, E0):
            i = L('si'); _, kn = tr(S); W = S.ghost['W']; T = S.ghost['T']; run = L.outer('run')('run'); sw = S.ghost['swap']
            return [('cursor', And(le(0, i), le(i, a.k if sw else W))), ('rows before are transposed', Forall([Var('r', [('coord', kn, 0)], tags=['slot'], lo=0, hi=W if sw else i), Var('j', [('coord', kn, 1)], tags=['j'], lo=0, hi=i if sw else a.k)], lambda r, j: eq(at(S, kn, r, j), a.CCR(run * T.c + r, j)), maxgen=9))]
        def inv_ki(a, L, S0, S, E0):
            i = L.outer('si')('si'); kk = L('ki'); _, kn = tr(S); T = S.ghost['T']; run = L.outer('run')('run'); W = S.ghost['W']
            far = Forall([Var('r', [('coord', kn, 0)], tags=['slot'], lo=0, hi=kk)], lambda r: eq(at(S, kn, r, i), a.CCR(run * T.c + r, i))) if S.ghost['swap'] else Forall([Var('j', [('coord', kn, 1)], tags=['j'], lo=0, hi=kk)], lambda j: eq(at(S, kn, i, j), a.CCR(run * T.c + i, j)))
            return inv_si(a, L.outer('si'), S0, S, E0)[1:] + [('cursor', And(le(0, kk), le(kk, W if S.ghost['swap'] else a.k))), ('row so far', far)]
        def hint_s(st, a, x): st.tag('slot', x); st.prod(a.k, x); st.prod(a.k, x + 1)
        def hint_k(st, a, x, W): st.tag('j', x); st.prod(W, x); st.prod(W, x + 1); st.prod(W, a.k)
        def aft_si(E, st, a, L, S, d): hint_k(st, a, L('si'), S.ghost['W']) if S.ghost['swap'] else hint_s(st, a, L('si'))
        def aft_ki(E, st, a, L, S, d): hint_s(st, a, L('ki')) if S.ghost['swap'] else hint_k(st, a, L('ki'), S.ghost['W'])
        mod_kn = lambda a, S0, S: [(tr(S)[1], lambda p: TRUE)]
        fill = lambda n: LoopSpec('fill %d' % n, ['item'], inv_fill, var_fill, modifies=mod_fill)
        return [LoopSpec('flatten', ['i'], inv_flat, lambda a, L, S: [a.M - L('i')], modifies=lambda a, S0, S: [(local(S, 'xyzset').region, lambda p: TRUE)], after=lambda E, st, a, L, S, d: st.tag('q', L('i'))), fill(0),
                LoopSpec('run', ['run'], inv_run, lambda a, L, S: [S.ghost['T'].nruns - L('run')], pre_hints=resolve, after=aft_run, modifies=mod_run)] + [fill(n) for n in range(1, 5)] + \
               [LoopSpec('items', ['gitem'], inv_items, lambda a, L, S: [S.ghost['W'] - L.u('gitem')], after=aft_items, modifies=mod_items),
                LoopSpec('si', ['si'], inv_si, lambda a, L, S: [(a.k if S.ghost['swap'] else S.ghost['W']) - L('si')], pre_hints=pick_order, after=aft_si, modifies=mod_kn), LoopSpec('ki', ['ki'], inv_ki, lambda a, L, S: [(S.ghost['W'] if S.ghost['swap'] else a.k) - L('ki')], after=aft_ki, modifies=mod_kn)]
def a_(E): return E.a

def contracts(): return [GpuTess(), KnnDev(), CCDev(), GetKnn(), GetCc(), FillUse(), PrintDevice()]
