"""C11 (C13, C15): __cpu__tesellate: work split over chunks and threads, and the assembly of its results.

The per-point work is used through summaries: for fixed inputs the candidate row of point Q is KNR(Q,.), the neighbour
row is CCR(Q,.), and the state byte s becomes (s & ~CLR(Q)) | SET(Q).  Nothing in these depends on the slot, the chunk or
the thread.  (Why that is so: the contracts of knni::compute and cci::compute confine their reads and writes to row i of
the working vectors, to states[index] and to the constant inputs, see C02 / C04; the row starts out unset.)"""
from lib import *
from run import *
from contracts.knn import ifn
from contracts import asm
import exec as X_
I, B8 = z3.IntSort(), z3.BitVecSort(8)
UND = -32
BIG = 2**29
INF = RP.term(X_.INF)

def local(S, name):
    c = [v for v in S.vecs if isinstance(v, VecObj) and v.region is not None and v.name.split('#')[0].split('.')[0] == name]
    if len(c) != 1: raise Unsupported('no vector ' + name)
    return c[0]
def maybe(S, name):
    try: return local(S, name)
    except Unsupported: return None
def at(S, r, i, j): return rd(S[r], r.phys([P(i), P(j)]))
def fits(i, n, k):
    """row i of width k lies in a vector of length n"""
    q, r = P(n).divide_by(k)
    return lt(i, q) if not r.m else le((P(i) + 1) * k, n)
def rowpred(r, i): return (r, lambda p: eq(r.decode(p)[0], i))

class GetKnn(Contract):
    name = 'vtargs::get_knn'; fn = r'votess::vtargs::get_knn\('; trusted_here = True
    def bind(s, E, st, args): return NS(E=E, o=args[0].r)
    def val(s, st, a, k): return IntV(a.o.get(st, k), 32)
    def pre(s, a, S): return [('parameters fit int', And(*[And(le(-2**31, a.o.get(S, k)), lt(a.o.get(S, k), 2**31)) for k in s.keys])) ]
    keys = ('k', 'knn_grid_resolution')
    def result(s, E, a, st, f): return PackV([(0, s.val(st, a, 'k')), (4, s.val(st, a, 'knn_grid_resolution'))], 64)
    def post(s, a, S0, S1, ret): return []
class GetCc(GetKnn):
    name = 'vtargs::get_cc'; fn = r'votess::vtargs::get_cc\('; keys = ('k', 'cc_p_maxsize', 'cc_t_maxsize')
    def result(s, E, a, st, f): return StructV([PackV([(0, s.val(st, a, 'k')), (4, s.val(st, a, 'cc_p_maxsize'))], 64), s.val(st, a, 'cc_t_maxsize')])

class KnnSum(Contract):
    name = 'knni::compute (per point)'; fn = r'knni::compute<int, float>\(int, int, std::vector'; trusted_here = True
    def bind(s, E, st, args):
        sg = lambda j: E.signed(st, args[j])
        a = NS(E=E, G=E.a, i=sg(0), index=sg(1), N=sg(3), id=reg(args[8]), pq=reg(args[9]), nid=vlen(E, st, vobj(args[8])), npq=vlen(E, st, vobj(args[9])))
        a.inputs = [reg(args[j]) for j in (2, 4, 5, 6)]
        a.k = E.signed(st, field(E, st, args[-1], 0)); a.gr = E.signed(st, field(E, st, args[-1], 4))
        return a
    def j(s, a, r): return Var('j', [('coord', r, 1)], tags=['j'], lo=0, hi=a.k)
    def pre(s, a, S):
        G = a.G.cur(S)
        same = all(x is y for x, y in zip(a.inputs, (G.xyz, G.ids, G.off, G.ref)))
        return [('the inputs are the caller\'s', TRUE if same else FALSE), ('parameters', And(eq(a.k, G.k), eq(a.gr, G.gr), eq(a.N, G.N))),
                ('index', And(le(0, a.index), lt(a.index, G.M))), ('slot', And(le(0, a.i), fits(a.i, a.nid, G.k), fits(a.i, a.npq, G.k))),
                ('row is unset', Forall([s.j(a, a.id)], lambda j: And(eq(at(S, a.id, a.i, j), UND), req(at(S, a.pq, a.i, j), INF))))]
    def modifies(s, a, S): return [rowpred(a.id, a.i), rowpred(a.pq, a.i)]
    def post(s, a, S0, S1, ret):
        G = a.G.cur(S0)
        return [('candidates of the point', Forall([s.j(a, a.id)], lambda j: eq(at(S1, a.id, a.i, j), G.KNR(a.index, j))))]

class CCSum(Contract):
    name = 'cci::compute (per point)'; fn = r'cci::compute<int, float, unsigned char>\(int, int, std::vector'; trusted_here = True
    def bind(s, E, st, args):
        i, index, states, Pr, T, dR, knn, dknn, xyz, N, ref, M, ar = args
        sg = lambda x: E.signed(st, x)
        a = NS(E=E, G=E.a, i=sg(i), index=sg(index), st=reg(states), P=reg(Pr), T=reg(T), dR=reg(dR), knn=reg(knn), dk=reg(dknn), N=sg(N), inputs=[reg(xyz), reg(ref)])
        a.zero = all(x.off.isconst() and x.off.cval() == 0 for x in (Pr, T, dR))
        a.nk, a.nd = vlen(E, st, vobj(knn)), vlen(E, st, vobj(dknn))
        a.nP, a.nT, a.nR = [vlen(E, st, r.vec) for r in (a.P, a.T, a.dR)]
        a.k, a.pm, a.tm = [sg(field(E, st, ar, o)) for o in (0, 4, 8)]
        return a
    j = KnnSum.j
    def pre(s, a, S):
        G = a.G.cur(S)
        same = a.inputs[0] is G.xyz and a.inputs[1] is G.ref and a.st is G.st and a.zero and len({a.P, a.T, a.dR, a.knn, a.dk}) == 5
        rows = [fits(a.i, n, k) for n, k in ((a.nk, G.k), (a.nd, G.k), (a.nP, 4 * G.pm), (a.nT, 3 * G.tm), (a.nR, G.pm))]
        return [('the inputs are the caller\'s', TRUE if same else FALSE), ('parameters', And(eq(a.k, G.k), eq(a.pm, G.pm), eq(a.tm, G.tm), eq(a.N, G.N))),
                ('index', And(le(0, a.index), lt(a.index, G.M))), ('slot', And(le(0, a.i), *rows)),
                ('row holds the candidates of the point', Forall([s.j(a, a.knn)], lambda j: eq(at(S, a.knn, a.i, j), G.KNR(a.index, j)))),
                ('no plane belongs to a neighbour yet', Forall([s.j(a, a.dk)], lambda j: eq(at(S, a.dk, a.i, j), UND)))]
    def modifies(s, a, S): return [(a.st, lambda p: eq(p, a.index))] + [rowpred(r, a.i) for r in (a.P, a.T, a.dR, a.knn, a.dk)]
    def post(s, a, S0, S1, ret):
        G = a.G.cur(S0)
        return [('neighbours of the point', Forall([s.j(a, a.knn)], lambda j: eq(at(S1, a.knn, a.i, j), G.CCR(a.index, j)))),
                ('state of the point', rd(S1[a.st], a.index) == G.fin(rd(S0[a.st], a.index), a.index))]

class Split(Contract):
    """rows of the working vectors, and the loops that hand them to threads"""
    timeout = 20000; rounds = 4; fold_select = True
    SPAWN = 'i'
    WORK = ('heap_id', 'heap_pq', 'dknn', 'P', 'T', 'dR')
    def inputs(s, E, st, iv):
        M, N = (Poly.var(poly.fresh_name(x), 0, BIG) for x in ('refsize', 'xyzsize'))
        k, gr, pm, tm = iv('k', 1, 65535), iv('gr', 1, 1290), iv('p_maxsize', 1, 65535), iv('t_maxsize', 1, 32767)
        st.ghost['nlive'] = P(0)
        for x in (k, pm, tm): st.prod(x, M)
        return M, N, dict(k=k, knn_grid_resolution=gr, cc_p_maxsize=pm, cc_t_maxsize=tm), [vec(st, 'xyzset', 'f32', N, [3, 1], [N, 3], 3), vec(st, 'id', 'i32', M, sizes=[M]), vec(st, 'offset', 'i32'),
                vec(st, 'refset', 'f32', M, [3, 1], [M, 3], 3), vecvec(st, 'tmpnn', M), vec(st, 'states', 'bv8', M, sizes=[M])]
    def bind0(s, E, st, args):
        o = args[6].r; g = lambda k: o.get(st, k); vv = vobj(args[4])
        a = NS(E=E, o=o, xyz=reg(args[0]), ids=reg(args[1]), off=reg(args[2]), ref=reg(args[3]), lens=vv.lens, data=vv.data, st=reg(args[5]), M=vlen(E, st, vobj(args[3])), N=vlen(E, st, vobj(args[0])))
        a.k, a.gr, a.pm, a.tm, a.nt, a.use, a.ch = [g(x) for x in ('k', 'knn_grid_resolution', 'cc_p_maxsize', 'cc_t_maxsize', 'cpu_nthreads', 'use_chunking', 'chunksize')]
        a.tmprows, a.nstates = P(vv.n), vlen(E, st, vobj(args[5]))
        a.fn = lambda n, d, res: z3.Function(poly.fresh_name(n), *([I] * d + [res]))
        return a
    def modifies(s, a, S): return [(a.lens, lambda p: TRUE), (a.data, lambda p: TRUE), (a.st, lambda p: TRUE)]
    # ---- what the answer says about point Q
    def row(s, a, S, q): return rd(S[a.lens], q)
    def cell(s, a, S, q, j): return rd(S[a.data], a.data.phys([P(q), P(j)]))
    def Q(s, a, hi=None): return Var('q', [(a.lens, 0, 1)], tags=['q'], lo=0, hi=a.M if hi is None else hi)
    # ---- rows of the working vectors
    def vec_layout(s, E, st, name, n):
        if not hasattr(E.a, 'cur'): return None
        a = E.a.cur(st); k = {'heap_id': a.k, 'heap_pq': a.k, 'dknn': a.k, 'P': 4 * a.pm, 'T': 3 * a.tm, 'dR': a.pm}.get(name.split('#')[0].split('.')[0])
        return None if k is None else ([k, 1], None)
    def worker_regions(s, a, st):
        return {**{v.region: 1 for n in s.WORK for v in [maybe(st, n)] if v is not None}, a.st: 1}
    def wrows(s, a, S, pred, stpred): return [(local(S, n).region, (lambda r: lambda p: pred(r.decode(p)[0]))(local(S, n).region)) for n in s.WORK] + [(a.st, stpred)]
    def slots(s, a, S, T, lim):
        hid, hpq, dk, ix = (local(S, n).region for n in ('heap_id', 'heap_pq', 'dknn', 'indices')); G = a.cur(S)
        rv = lambda lo, hi: Var('r', [('coord', hid, 0), ('coord', dk, 0)], tags=['slot'], lo=lo, hi=hi)
        jv = Var('j', [('coord', hid, 1), ('coord', dk, 1)], tags=['j'], lo=0, hi=G.k)
        F = Forall([rv(0, lim), jv], lambda r, j: eq(at(S, hid, r, j), G.CCR(rd(S[ix], r), j)), maxgen=9)
        U = Forall([rv(lim, T.rows), jv], lambda r, j: And(eq(at(S, hid, r, j), UND), req(at(S, hpq, r, j), INF), eq(at(S, dk, r, j), UND)), maxgen=9)
        return [('rows before are finished', F), ('rows after are unset', U)]
    def worker_loops(s, outer):
        def nf(a, T, i, sub): return pol_ite(lt(i, T.n), i * T.ts, pol_ite(ge(sub, T.n * T.ts - T.ts), sub, T.n * T.ts - T.ts))
        def hint_spawn(E, st, a, L, S0, S):
            T = NS(**S.ghost['T'].__dict__); T.ts = None
            for v in st.env.values():
                if isinstance(v, IntV) and not v.p.isconst():
                    t = v.p.t()
                    if z3.is_app(t) and t.decl().eq(X_.DIV) and t.arg(1).eq(T.n.t()): T.ts = v.p
            if T.ts is None: raise Unsupported('rows per thread')
            st.ghost['T'] = S.ghost['T'] = T
            st.prod(T.ts, T.n); st.prod(T.ts, T.n - 1)
            s.before_spawn(E, st, a, L, S, T)
        def inv_spawn(a, L, S0, S, E0):
            T = S.ghost['T']; i = L.u(s.SPAWN); sub = L.cell('subsize'); th = local(S, 'threads')
            lim = nf(a, T, i, sub)
            return [('cursor', And(le(0, i), le(i, T.n))), ('workers so far', eq(S.ghost['nlive'], i)), ('one thread object each', eq(S.vlen(th), T.n)),
                    ('thread objects', Forall([Var('t', [(th.region, 0, 1)], tags=['thread'], lo=0, hi=T.n)], lambda t: eq(rd(S[th.region], t), pol_ite(lt(t, i), P(1), P(0)))))] \
                   + s.slots(a, S, T, lim) + [s.progress(a, L, S0, S, T, lim, sub)]
        def aft_spawn(E, st, a, L, S, d):
            T = S.ghost['T']; i = L.u(s.SPAWN)
            st.prod(T.ts, i); st.prod(T.ts, i + 1); st.tag('thread', i); st.ghost['free'] = nf(a, T, i, L.cell('subsize'))
        def mod_spawn(a, S0, S): return s.wrows(a, S, lambda r: TRUE, lambda p: TRUE) + [(local(S, 'threads').region, lambda p: TRUE)]
        def wv(a, L, S):
            T = S.ghost['T']; i = L.outer('spawn').u(s.SPAWN); sub = L.cell('subsize')
            return T, i, sub, i * T.ts, pol_ite(ne(i, T.n - 1), i * T.ts + T.ts, sub)
        def inv_work(a, L, S0, S, E0):
            T, i, sub, t0, t1 = wv(a, L, S); idx = L.u('idx')
            return [('cursor', And(le(t0, idx), Or(eq(idx, t0), le(idx, t1)), lt(i, T.n)))] + s.slots(a, S, T, idx) + [s.progress(a, L, S0, S, T, idx, sub)]
        def aft_work(E, st, a, L, S, d):
            T, i, sub, t0, t1 = wv(a, L, S); idx = L.u('idx'); ix = local(S, 'indices').region; free = st.ghost['free']
            st.tag('slot', idx)
            st.tag('q', rd(st.mem[ix], idx))
            def rows(st2):
                own = {r: p for r, p in s.wrows(a, st2, lambda r: And(eq(r, idx), ge(r, free)), lambda p: eq(p, rd(st2.mem[ix], idx)))}
                return own
            if st.ghost.get('worker') is not None: st.ghost['worker'] = NS(rows=rows)
        def mod_work(a, S0, S): return s.wrows(a, S, lambda r: TRUE, lambda p: TRUE)
        def inv_join(a, L, S0, S, E0):
            T = S.ghost['T']; t = L.idx('__begin3'); th = local(S, 'threads')
            return [('cursor', And(le(0, t), le(t, T.n))), ('workers left', eq(S.ghost['nlive'], T.n - t)),
                    ('thread objects', Forall([Var('t', [(th.region, 0, 1)], tags=['thread'], lo=0, hi=T.n)], lambda x: eq(rd(S[th.region], x), pol_ite(lt(x, t), P(0), P(1)))))]
        return [LoopSpec('spawn', [s.SPAWN], inv_spawn, lambda a, L, S: [S.ghost['T'].n - L.u(s.SPAWN)], pre_hints=hint_spawn, after=aft_spawn, modifies=mod_spawn),
                LoopSpec('worker', ['idx'], inv_work, lambda a, L, S: [a.M + 1 - L.u('idx')], after=aft_work, modifies=mod_work),
                LoopSpec('join', ['__begin3'], inv_join, lambda a, L, S: [S.ghost['T'].n - L.idx('__begin3')], modifies=lambda a, S0, S: [(local(S, 'threads').region, lambda p: TRUE)])]

class Tess(Split):
    name = '__cpu__tesellate'; fn = r"votess::__cpu__tesellate<int, float, unsigned char>\((?!.*::'lambda)"
    SPAWN = 'i161'
    def make(s, E, st, f):
        iv = lambda n, lo, hi: Poly.var(poly.fresh_name(n), lo, hi)
        M, N, p, args = s.inputs(E, st, iv)
        nt, use, ch = iv('cpu_nthreads', 0, 2**31 - 1), iv('use_chunking', 0, 1), iv('chunksize', -2**31, 2**31 - 1)
        return args + [mkargs(st, 'args', dict(p, cpu_nthreads=nt, use_chunking=use, chunksize=ch))]
    def bind(s, E, st, args):
        a = s.bind0(E, st, args)
        a.KNR, a.CCR = ifn(a.fn('candidate', 2, I)), ifn(a.fn('neighbour', 2, I))
        A, C = a.fn('flags_set', 1, B8), a.fn('flags_cleared', 1, B8)
        a.fin = lambda b, q: (b & ~C(P(q).t())) | A(P(q).t())
        a.cur = lambda S: a
        return a
    def pre(s, a, S):
        return [('sizes', And(le(0, a.M), le(a.M, BIG), le(1, a.k), le(a.k, 65535), le(1, a.pm), le(a.pm, 65535), le(1, a.tm), le(a.tm, 32767), le(0, a.nt), lt(a.nt, 2**31), le(0, a.use), le(a.use, 1),
                              lt(a.M * a.k, 2**31), lt(4 * a.M * a.pm, 2**31), lt(3 * a.M * a.tm, 2**31), eq(a.tmprows, a.M), eq(a.nstates, a.M)))]
    def answer(s, a, S, upto):
        def length(q):
            l = s.row(a, S, q); return And(le(0, l), le(l, a.k), Implies(lt(l, a.k), eq(a.CCR(q, l), UND)))
        return [('row of a point ends at its first undefined neighbour', Forall([s.Q(a, upto)], length)),
                ('row of a point holds its neighbours', Forall([s.Q(a, upto), Var('j', tags=['j'], lo=0)], lambda q, j: Implies(lt(j, s.row(a, S, q)), And(ne(a.CCR(q, j), UND), eq(s.cell(a, S, q, j), a.CCR(q, j))))))]
    def states(s, a, S0, S, upto):
        st0 = lambda q: rd(S0[a.st], q)
        return ('state of a point', Forall([Var('q', [(a.st, 0, 1)], tags=['q'], lo=0, hi=a.M)], lambda q: rd(S[a.st], q) == z3.If(lt(q, upto), a.fin(st0(q), q), st0(q))))
    def post(s, a, S0, S1, ret): return s.answer(a, S1, a.M) + [s.states(a, S0, S1, a.M)]
    def progress(s, a, L, S0, S, T, lim, sub):
        return s.states(a, S0, S, L.outer('run')('run') * T.c + pol_ite(lt(lim, sub), lim, sub))
    def before_spawn(s, E, st, a, L, S, T):
        ix = local(S, 'indices').region; run = L.outer('run')('run'); sub = L.cell('subsize')
        g = Forall([Var('r', [('coord', ix, 0)], tags=['slot'], lo=0, hi=T.rows)], lambda r: Or(And(lt(r, sub), eq(rd(S[ix], r), run * T.c + r)), And(ge(r, sub), ge(run, 1), eq(rd(S[ix], r), run * T.c - T.c + r))))
        E.oblige(st, 'lemma: slot r names the r-th point of the chunk', g, 'lemma'); E.assume(st, g)
    @property
    def loops(s):
        def resolve(E, st, a, L, S0, S):
            imp = lambda g: E.implied(st, g, 2000)
            pick = lambda c, x, y: x if imp(c) else y if imp(Not(c)) else None
            T = NS()
            T.c = pick(ne(a.use, 0), a.ch, a.M + 1)
            if T.c is None: raise Unsupported('chunk size on this path')
            many = And(gt(T.c, 0), lt(T.c, a.M)); T.many = pick(many, True, False)
            hc = st.ghost.get('hc')
            T.n = pick(ne(a.nt, 0), a.nt, hc)
            if T.many is None or T.n is None: raise Unsupported('number of runs on this path')
            T.rows = T.c if T.many else a.M
            T.nruns = L.bound('run')
            st.ghost['T'] = T; S.ghost['T'] = T
            for x in (a.k, 4 * a.pm, 3 * a.tm): st.prod(x, T.rows)
            if T.many: st.prod(T.c, T.nruns); st.prod(T.c, T.nruns - 1)
        def U(a, T, run): return pol_ite(lt(run, T.nruns), run * T.c, a.M)
        def inv_run(a, L, S0, S, E0):
            T = S.ghost['T']; run = L('run'); ix = local(S, 'indices').region
            out = [('cursor', And(le(0, run), le(run, T.nruns))), ('chunks cover the points', And(ge(T.nruns, 1), le((T.nruns - 1) * T.c, a.M), le(a.M, T.nruns * T.c)) if T.many else eq(T.nruns, 1)), ('no worker runs', eq(S.ghost['nlive'], 0)), ('chunk size', Implies(lt(run, T.nruns), eq(L.cell('subsize'), T.rows))),
                   ('sizes', And(eq(S.vlen(local(S, 'indices')), T.rows), *[eq(S.vlen(local(S, n)), k * T.rows) for n, k in (('heap_id', a.k), ('heap_pq', a.k), ('dknn', a.k), ('P', 4 * a.pm), ('T', 3 * a.tm), ('dR', a.pm))])),
                   ('indices of the chunk before', Forall([Var('r', [('coord', ix, 0)], tags=['slot'], lo=0, hi=T.rows)], lambda r: Implies(And(ge(run, 1), lt(run, T.nruns)), eq(rd(S[ix], r), run * T.c - T.c + r)) if T.many else TRUE))]
            return out + s.answer(a, S, U(a, T, run)) + [s.states(a, S0, S, U(a, T, run))]
        def aft_run(E, st, a, L, S, d):
            T = S.ghost['T']; run = L('run')
            st.prod(T.c, run)
            if T.many: st.prod(T.c, T.nruns); st.prod(T.c, T.nruns - 1); st.prod(T.c, run + 1)
            st.ghost['slot_of'] = lambda q: P(q) - run * T.c
        def inv_ix(a, L, S0, S, E0):
            T = S.ghost['T']; run = L.outer('run')('run'); i = L.idx('i'); sub = L.cell('subsize'); ix = local(S, 'indices').region
            return [('cursor', And(le(0, i), le(i, sub))),
                    ('indices', Forall([Var('r', [('coord', ix, 0)], tags=['slot'], lo=0, hi=T.rows)], lambda r: And(Implies(lt(r, i), eq(rd(S[ix], r), run * T.c + r)), Implies(And(ge(r, i), ge(run, 1)), eq(rd(S[ix], r), run * T.c - T.c + r))))),
                    ('first chunk is whole', Implies(eq(run, 0), eq(sub, T.rows)))]
        allw = lambda a, S0, S: [(a.lens, lambda p: TRUE), (a.data, lambda p: TRUE)] + s.wrows(a, S, lambda r: TRUE, lambda p: TRUE) + [(local(S, 'indices').region, lambda p: TRUE)]
        return [LoopSpec('run', ['run'], inv_run, lambda a, L, S: [S.ghost['T'].nruns - L('run')], pre_hints=resolve, after=aft_run, modifies=allw),
                LoopSpec('indices', ['i'], inv_ix, lambda a, L, S: [L.cell('subsize') - L.idx('i')], modifies=lambda a, S0, S: [(local(S, 'indices').region, lambda p: TRUE)])] + s.worker_loops('run')

def bit(b, m): return (b & m) != 0
SEC, POV, TOV = 1, 16, 32
PLIM, TLIM = 254, 16383            # beyond these a plane or triangle number would not fit its type

class Recompute(Split):
    """C13.  Ghost state: CNT counts the unresolved points below an index; POS(Q) is Q's slot in the list of points still
    unresolved; LK/LP/LT(Q) are the parameters Q was last computed with; w is a slot that ran out of a capacity."""
    name = '__cpu__recompute'; fn = r"votess::__cpu__recompute<int, float, unsigned char>\((?!.*::'lambda)"
    SPAWN = 'i178'; split_mul = True
    def make(s, E, st, f):
        iv = lambda n, lo, hi: Poly.var(poly.fresh_name(n), lo, hi)
        M, N, p, args = s.inputs(E, st, iv)
        s.cap = [iv('k_bound', 1, 65536), iv('p_bound', 508, 65535), iv('t_bound', 32766, 32767)]
        for x in s.cap: st.prod(M, x)
        return args + [mkargs(st, 'args', dict(p, cpu_nthreads=iv('cpu_nthreads', 0, 2**31 - 1)))]
    def mul_hint(s, E, st, x, y):
        if x.isconst() or y.isconst(): return
        for c in s.cap: st.prod(x, c)
    def bind(s, E, st, args):
        a = s.bind0(E, st, args)
        K3, C5 = ifn(a.fn('candidate', 3, I)), ifn(a.fn('neighbour', 5, I)); A, C = a.fn('flags_set', 4, B8), a.fn('flags_cleared', 4, B8)
        a.C5 = C5; a.A = lambda k, p, t, q: A(*[P(x).t() for x in (k, p, t, q)])
        def cur(S):
            k, pm, tm = (a.o.get(S, x) for x in ('k', 'cc_p_maxsize', 'cc_t_maxsize'))
            z = lambda q: [P(x).t() for x in (k, pm, tm, q)]
            return NS(xyz=a.xyz, ids=a.ids, off=a.off, ref=a.ref, st=a.st, M=a.M, N=a.N, gr=a.gr, k=k, pm=pm, tm=tm,
                      KNR=lambda q, j: K3(k, q, j), CCR=lambda q, j: C5(k, pm, tm, q, j), fin=lambda b, q: (b & ~C(*z(q))) | A(*z(q)))
        a.cur = cur
        a.CNT = ifn(a.fn('unresolved_below', 1, I))
        return a
    def un0(s, a, S0, q): return Not(bit(rd(S0[a.st], q), SEC))
    def pre(s, a, S):
        KX, PX, TX = s.cap
        a.cnt = Forall([Var('q', [(a.st, 0, 1)], tags=['q'], lo=0, hi=a.M)], lambda q: eq(a.CNT(q + 1), a.CNT(q) + pol_ite(s.un0(a, S, q), P(1), P(0))))
        return [('sizes', And(le(0, a.M), le(a.M, 65536), le(1, a.k), le(a.k, 65535), le(1, a.pm), le(1, a.tm), le(0, a.nt), lt(a.nt, 2**31), eq(a.tmprows, a.M), eq(a.nstates, a.M),
                              le(a.k, KX), le(a.M, KX), le(a.pm, PX), le(a.tm, TX), lt(a.M * KX, 2**31), lt(4 * a.M * PX, 2**31), lt(3 * a.M * TX, 2**31))),
                ('count (definition)', eq(a.CNT(0), 0)), ('count (definition)', a.cnt)]
    # ---- the list of unresolved points
    def ixv(s, ix, hi, lo=0, name='r'): return Var(name, [('coord', ix, 0)], tags=['slot'], lo=lo, hi=hi)
    def qv(s, a): return Var('q', [(a.lens, 0, 1), (a.st, 0, 1)], tags=['q'], lo=0, hi=a.M)
    def inlist(s, ixn, pos, sub, q): p = pos(q); return And(le(0, p), lt(p, sub), eq(rd(ixn, p), q))
    def known(s, a, S, q):
        """row q is what the parameters it was last computed with give"""
        g = S.ghost; l = s.row(a, S, q); k, p, t = g['LK'](q), g['LP'](q), g['LT'](q)
        return And(le(0, l), le(l, k), Implies(lt(l, k), eq(a.C5(k, p, t, q, l), UND)))
    def knownj(s, a, S, q, j):
        g = S.ghost; k, p, t = g['LK'](q), g['LP'](q), g['LT'](q)
        return Implies(lt(j, s.row(a, S, q)), And(ne(a.C5(k, p, t, q, j), UND), eq(s.cell(a, S, q, j), a.C5(k, p, t, q, j))))
    def flags(s, a, S, q): g = S.ghost; return a.A(g['LK'](q), g['LP'](q), g['LT'](q), q)
    def untouched(s, a, S0, S):
        jv = Var('j', tags=['j'], lo=0)
        return [('rows of resolved points keep their length', Forall([s.qv(a)], lambda q: Implies(Not(s.un0(a, S0, q)), eq(s.row(a, S, q), s.row(a, S0, q))))),
                ('rows of resolved points keep their contents', Forall([s.qv(a), jv], lambda q, j: Implies(Not(s.un0(a, S0, q)), eq(s.cell(a, S, q, j), s.cell(a, S0, q, j)))))]
    def post(s, a, S0, S1, ret):
        g = S1.ghost
        def final(q):
            f = s.flags(a, S1, q)
            return Or(bit(f, SEC), And(ge(g['LK'](q), a.M - 1), Not(And(bit(f, POV), le(g['LP'](q), PLIM))), Not(And(bit(f, TOV), le(g['LT'](q), TLIM)))))
        need = lambda q: And(s.un0(a, S0, q), ge(a.M, 2))
        return s.untouched(a, S0, S1) + [
            ('every other point is resolved, or nothing is left to try', Forall([s.qv(a)], lambda q: Implies(need(q), final(q)))),
            ('its row ends at its first undefined neighbour', Forall([s.qv(a)], lambda q: Implies(need(q), s.known(a, S1, q)))),
            ('its row holds its neighbours', Forall([s.qv(a), Var('j', tags=['j'], lo=0)], lambda q, j: Implies(need(q), s.knownj(a, S1, q, j))))]
    # ---- worker loops
    def before_spawn(s, E, st, a, L, S, T):
        ix = local(S, 'indices').region; sub = L.cell('subsize'); T.rows = sub; sc = S.ghost['scan']; POS, CN = S.ghost['POS'], sc.CN
        pos2 = lambda q: CN(POS(q)); T.pos = pos2; st.ghost['slot_of'] = S.ghost['slot_of'] = pos2
        g = Forall([s.ixv(ix, sub)], lambda r: And(le(0, rd(S[ix], r)), lt(rd(S[ix], r), a.M), eq(pos2(rd(S[ix], r)), r)))
        E.oblige(st, 'lemma: the list names each point once', g, 'lemma'); E.assume(st, g)
        h = Forall([s.qv(a)], lambda q: Iff(s.inlist(S[ix], pos2, sub, q), And(s.inlist(sc.ix0, POS, sc.sub, q), Not(bit(rd(sc.st0, q), SEC)))))
        E.oblige(st, 'lemma: the list keeps exactly the unresolved points', h, 'lemma'); E.assume(st, h)
    def progress(s, a, L, S0, S, T, lim, sub):
        ix = local(S, 'indices').region; G = a.cur(S)
        return ('state of a point', Forall([Var('q', [(a.st, 0, 1)], tags=['q'], lo=0, hi=a.M)], lambda q: rd(S[a.st], q) == z3.If(And(s.inlist(S[ix], T.pos, sub, q), lt(T.pos(q), lim)), G.fin(z3.BitVecVal(0, 8), q), z3.BitVecVal(0, 8))))
    def after_fill(s, E, st, a):
        T = st.ghost['T']; ix = local(st, 'indices').region; node = st.mem[ix]; G = a.cur(st); g = st.ghost
        inl = lambda q: s.inlist(node, T.pos, T.rows, q)
        upd = lambda v, f: (lambda q: pol_ite(inl(q), v, f(q)))
        g['LK'], g['LP'], g['LT'] = upd(G.k, g['LK']), upd(G.pm, g['LP']), upd(G.tm, g['LT'])
        g['POS'] = T.pos; g['first'] = P(0)
    @property
    def loops(s):
        IX = lambda S: local(S, 'indices').region
        def inv_count(a, L, S0, S, E0):
            t = L.idx('__begin2')
            return [('cursor', And(le(0, t), le(t, a.M))), ('count', And(eq(L.cell('subsize'), a.CNT(t)), le(0, a.CNT(t)), le(a.CNT(t), t)))]
        def aft_count(E, st, a, L, S, d): E.instantiate(st, a.cnt, L.idx('__begin2'))
        def inv_build(a, L, S0, S, E0):
            i, cur, ix = L('i'), L('cur'), IX(S)
            return [('cursor', And(le(0, i), le(i, a.M), eq(cur, a.CNT(i)), le(0, cur), le(cur, i), eq(S.vlen(local(S, 'indices')), a.M))),
                    ('listed points are unresolved', Forall([s.ixv(ix, cur)], lambda r: And(le(0, rd(S[ix], r)), lt(rd(S[ix], r), i), s.un0(a, S0, rd(S[ix], r)), eq(a.CNT(rd(S[ix], r)), r)))),
                    ('unresolved points are listed', Forall([s.qv(a)], lambda q: Implies(And(lt(q, i), s.un0(a, S0, q)), And(le(0, a.CNT(q)), lt(a.CNT(q), cur), eq(rd(S[ix], a.CNT(q)), q)))))]
        def aft_build(E, st, a, L, S, d): i = L('i'); st.tag('q', i); st.tag('slot', L('cur')); E.instantiate(st, a.cnt, i)
        def vals(S, a): return [a.o.get(S, x) for x in ('k', 'cc_p_maxsize', 'cc_t_maxsize')]
        def pre_while(E, st, a, L, S0, S):
            n = a.nt if E.implied(st, ne(a.nt, 0), 2000) else st.ghost.get('hc')
            if n is None: raise Unsupported('number of threads')
            g = dict(POS=a.CNT, first=P(1), LK=lambda q: P(0), LP=lambda q: P(0), LT=lambda q: P(0), w=P(0), T=NS(n=n), n0=S.vlen(local(S, 'indices')))
            st.ghost.update(g); S.ghost.update(g)
        def gh_while(E, st):
            a = E.a
            for n in ('POS', 'LK', 'LP', 'LT'): st.ghost[n] = ifn(z3.Function(poly.fresh_name(n), I, I))
            st.ghost['first'] = Poly.var(poly.fresh_name('first'), 0, 1); st.ghost['w'] = Poly.fresh('w')
            for key, c in (('k', 'k'), ('cc_p_maxsize', 'p_maxsize'), ('cc_t_maxsize', 't_maxsize')):
                st.ghost[('arg', a.o, key)] = LoopView(E, st, {}, None).cell(c)
        def inv_while(a, L, S0, S, E0):
            g = S.ghost; k, pm, tm = vals(S, a); ix = IX(S); sub = L.cell('subsize'); POS, first = g['POS'], g['first']; KX, PX, TX = s.cap
            inl = lambda q: s.inlist(S[ix], POS, sub, q); fst = eq(first, 1); stq = lambda q: rd(S[a.st], q)
            jv = Var('j', tags=['j'], lo=0); w = g['w']; fw = stq(rd(S[ix], w))
            return [('no worker runs', eq(g['nlive'], 0)), ('round', And(le(0, first), le(first, 1))),
                    ('list', And(le(0, sub), le(sub, g['n0']), le(g['n0'], a.M), eq(S.vlen(local(S, 'indices')), g['n0']))),
                    ('parameters', And(eq(L.cell('k'), k), eq(L.cell('p_maxsize'), pm), eq(L.cell('t_maxsize'), tm), le(1, k), le(k, KX), le(k, 65535), le(1, pm), le(pm, PX), le(1, tm), le(tm, TX), Implies(Not(fst), And(le(k, a.M - 1), ge(a.M, 2))))),
                    ('listed points', Forall([s.ixv(ix, sub)], lambda r: And(le(0, rd(S[ix], r)), lt(rd(S[ix], r), a.M), eq(POS(rd(S[ix], r)), r)))),
                    ('only points that were unresolved are listed', Forall([s.qv(a)], lambda q: Implies(inl(q), s.un0(a, S0, q)))),
                    ('first round: all of them', Forall([s.qv(a)], lambda q: Implies(fst, And(stq(q) == rd(S0[a.st], q), Implies(s.un0(a, S0, q), inl(q)))))),
                    ('later: what each was last computed with', Forall([s.qv(a)], lambda q: Implies(And(Not(fst), s.un0(a, S0, q)), And(Implies(inl(q), And(eq(g['LK'](q), k), eq(g['LP'](q), pm), eq(g['LT'](q), tm), stq(q) == s.flags(a, S, q))), Implies(Not(inl(q)), bit(s.flags(a, S, q), SEC)))))),
                    ('later: rows', Forall([s.qv(a)], lambda q: Implies(And(Not(fst), s.un0(a, S0, q)), s.known(a, S, q)))),
                    ('later: row contents', Forall([s.qv(a), jv], lambda q, j: Implies(And(Not(fst), s.un0(a, S0, q)), s.knownj(a, S, q, j)))),
                    ('later: something is left to try', Or(fst, lt(k, a.M - 1), And(le(0, w), lt(w, sub), Or(And(bit(fw, POV), le(pm, PLIM)), And(bit(fw, TOV), le(tm, TLIM)))))),
                    ] + s.untouched(a, S0, S)
        def var_while(a, L, S):
            k, pm, tm = vals(S, a); m = lambda x: pol_ite(ge(x, 0), x, P(0))
            return [S.ghost['first'], m(a.M - 1 - k) + m(PLIM + 1 - pm) + m(TLIM + 1 - tm)]
        def aft_while(E, st, a, L, S, d): st.tag('slot', S.ghost['w']); st.tag('q', rd(S[IX(S)], S.ghost['w']))
        def pre_scan(E, st, a, L, S0, S):
            ix = IX(S); CN = ifn(z3.Function(poly.fresh_name('kept_below'), I, I)); sc = NS(CN=CN, ix0=S[ix], st0=S[a.st], sub=L.cell('subsize'))
            sc.kept = lambda r: Not(bit(rd(sc.st0, rd(sc.ix0, r)), SEC))
            sc.df = Forall([s.ixv(ix, sc.sub)], lambda r: eq(CN(r + 1), CN(r) + pol_ite(sc.kept(r), P(1), P(0))))
            st.hyps += [eq(CN(0), 0), sc.df]            # definition of CN
            st.ghost['scan'] = S.ghost['scan'] = sc
        def inv_scan(a, L, S0, S, E0):
            sc = S.ghost['scan']; ix = IX(S); i, cur, up, ut = L('i85'), L('cur84'), L.u('update_p_maxsize'), L.u('update_t_maxsize'); POS = S.ghost['POS']; CN = sc.CN
            fl = lambda r: rd(sc.st0, rd(sc.ix0, r))
            def kept(r):
                q = rd(S[ix], r); p = POS(q)
                return And(le(0, q), lt(q, a.M), le(0, p), lt(p, i), eq(rd(sc.ix0, p), q), sc.kept(p), eq(CN(p), r))
            return [('cursor', And(le(0, i), le(i, sc.sub), le(0, cur), le(cur, i), eq(cur, CN(i)), le(up, 1), le(ut, 1))),
                    ('rest of the list', Forall([s.ixv(ix, sc.sub, i)], lambda r: eq(rd(S[ix], r), rd(sc.ix0, r)))),
                    ('kept points', Forall([s.ixv(ix, cur)], kept)),
                    ('unresolved points are kept', Forall([s.ixv(ix, i)], lambda r: Implies(sc.kept(r), And(le(0, CN(r)), lt(CN(r), cur), eq(rd(S[ix], CN(r)), rd(sc.ix0, r)))))),
                    ('exhausted capacities are noticed', Forall([s.ixv(ix, i)], lambda r: And(Implies(bit(fl(r), POV), eq(up, 1)), Implies(bit(fl(r), TOV), eq(ut, 1)))))]
        def aft_scan(E, st, a, L, S, d):
            i = L('i85'); sc = S.ghost['scan']; st.tag('slot', i); st.tag('slot', L('cur84')); E.instantiate(st, sc.df, i)
        def inv_reset(a, L, S0, S, E0):
            i = L('i113'); return [('cursor', And(le(0, i), le(i, a.M))), ('cleared', Forall([Var('q', [(a.st, 0, 1)], tags=['q'], lo=0, hi=i)], lambda q: rd(S[a.st], q) == 0))]
        def exhausted(a, S, r):
            k, pm, tm = vals(S, a); f = rd(S[a.st], rd(S[IX(S)], r))
            return Or(And(bit(f, POV), le(pm, PLIM)), And(bit(f, TOV), le(tm, TLIM)))
        def inv_retry(a, L, S0, S, E0):
            i, c = L('i213'), L.u('can_retry'); w = S.ghost['w']; k = vals(S, a)[0]; sub = L.cell('subsize')
            return [('cursor', And(le(0, i), le(i, sub), le(c, 1))),
                    ('a retry has a reason', Implies(eq(c, 1), Or(lt(k, a.M - 1), And(le(0, w), lt(w, i), exhausted(a, S, w))))),
                    ('no retry only if nothing is left to try', Implies(eq(c, 0), And(ge(k, a.M - 1)))),
                    ('no slot ran out of a capacity that can grow', Forall([s.ixv(IX(S), i)], lambda r: Implies(eq(c, 0), Not(exhausted(a, S, r)))))]
        def gh_retry(E, st): st.ghost['w'] = Poly.fresh('w')
        def hint_retry(E, st, a, L, S0, S):
            ctx = [c for h, c in st.loopctx.items() if E.loopspec[h].name == 'retry'][0]
            i0 = E.signed(st, ctx.env[ctx.roles['i213']]); w = ctx.snap.ghost['w']
            st.ghost['w'] = S.ghost['w'] = pol_ite(exhausted(a, S, i0), i0, w); st.tag('slot', i0)
        everything = lambda a, S0, S: [(a.lens, lambda p: TRUE), (a.data, lambda p: TRUE), (a.st, lambda p: TRUE), (IX(S), lambda p: TRUE)]
        only = lambda *f: (lambda a, S0, S: [(x(a, S), lambda p: TRUE) for x in f])
        ixr, str_ = (lambda a, S: IX(S)), (lambda a, S: a.st)
        return [LoopSpec('count', ['__begin2'], inv_count, lambda a, L, S: [a.M - L.idx('__begin2')], after=aft_count, modifies=only()),
                LoopSpec('build', ['i', 'cur'], inv_build, lambda a, L, S: [a.M - L('i')], after=aft_build, modifies=only(ixr)),
                LoopSpec('while', [], inv_while, var_while, pre_hints=pre_while, ghost=gh_while, after=aft_while, modifies=everything),
                LoopSpec('scan', ['update_t_maxsize', 'update_p_maxsize', 'cur84', 'i85'], inv_scan, lambda a, L, S: [S.ghost['scan'].sub - L('i85')], pre_hints=pre_scan, after=aft_scan, modifies=only(ixr)),
                LoopSpec('reset', ['i113'], inv_reset, lambda a, L, S: [a.M - L('i113')], modifies=only(str_))] + s.worker_loops('while') + \
               [LoopSpec('retry', ['can_retry', 'i213'], inv_retry, lambda a, L, S: [L.cell('subsize') - L('i213')], ghost=gh_retry, hints=hint_retry, after=lambda E, st, a, L, S, d: st.tag('slot', L('i213')), modifies=only())]

class FillUse(asm.Fill_):
    trusted_here = True
    def after_call(s, E, st, a, S0, S1, ret):
        h = getattr(E.contract, 'after_fill', None)
        if h: h(E, st, E.a)
def contracts(): return [Tess(), Recompute(), KnnSum(), CCSum(), GetKnn(), GetCc(), FillUse()]
