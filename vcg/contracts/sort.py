"""C01: xyzset::sort (and the validators of xyzset).

Ghost state: C(p,c) the grid cell coordinates of input point p, d_k(q) the k-th byte of the cell id of input point q,
orig/oinv the permutation built so far, and for each counting pass c(e,i) = number of earlier entries with key e and
t(e,i) = number of earlier entries with key below e (defined by recursion, their laws are proved by induction)."""
from lib import *
from run import *
I = z3.IntSort()
def ifn(name, n=1):
    f = z3.Function(poly.fresh_name(name), *([I] * (n + 1)))
    return lambda *x: Poly.term(f(*[P(y).t() for y in x]))
def inst(fa, *args):
    g = []
    for v, q in zip(fa.vars, args):
        if v.lo is not None: g.append(le(v.lo, q))
        if v.hi is not None: g.append(lt(q, v.hi))
    return Implies(And(*g), fa.body(*[P(x) for x in args]))

def fix(fa, k, x):
    """fa with its k-th variable set to x"""
    v = fa.vars[k]; g = And(*([le(v.lo, x)] if v.lo is not None else []), *([lt(x, v.hi)] if v.hi is not None else []))
    return Forall(fa.vars[:k] + fa.vars[k + 1:], lambda *y: Implies(g, fa.body(*y[:k], P(x), *y[k:])))

class Lemmas:
    """ground lemma obligations over a small set of hypotheses; induction over one variable"""
    def __init__(s, E, st, base): s.E, s.st, s.base = E, st, base
    def emit(s, name, hyps, goal):
        n = State(); n.hyps = list(s.base) + list(hyps); n.trace = list(s.st.trace)
        s.E.oblige(n, 'lemma: ' + name, goal, 'lemma')
    def fresh(s, vars):
        xs = [Poly.fresh('x_' + v.name) for v in vars]; g = []
        for v, x in zip(vars, xs):
            if v.lo is not None: g.append(le(v.lo, x))
            if v.hi is not None: g.append(lt(x, v.hi))
        return xs, g
    def all(s, name, vars, body, using):
        """forall vars. body, from the instances using(*vars)"""
        xs, g = s.fresh(vars)
        s.emit(name, g + list(using(*xs)), body(*xs))
        return Forall(vars, body)
    def induct(s, name, vars, body, using, lo=0, hi=None, base_using=None):
        """induction over the last variable, lo <= x <= hi (its Var range must be [lo, hi])"""
        xs, g = s.fresh(vars[:-1])
        s.emit(name + ' (base)', g + list((base_using or (lambda *x: []))(*xs)), body(*xs, P(lo)))
        x = Poly.fresh('x_' + vars[-1].name)
        g2 = [le(lo, x)] + ([lt(x, hi)] if hi is not None else [])
        s.emit(name + ' (step)', g + g2 + [body(*xs, x)] + list(using(*xs, x)), body(*xs, x + 1))
        return Forall(vars, body)

class Counting:
    """c(e,i) = #{j<i: key(j)=e}, t(e,i) = #{j<i: key(j)<e} for 0<=i<=n, 0<=e<=R; 0 <= key < R"""
    def __init__(s, L, nm, key, keyfacts, n, R):
        s.key, s.n, s.R = key, n, R
        s.c, s.t = ifn('c_' + nm, 2), ifn('t_' + nm, 2)
        b = lambda x: pol_ite(x, P(1), P(0))
        ev = lambda: Var('e', tags=['dig'], lo=0, hi=R + 1)
        iv = lambda hi: Var('i', tags=['ix'], lo=0, hi=hi)
        c, t = s.c, s.t
        s.zero = Forall([ev()], lambda e: And(eq(c(e, 0), 0), eq(t(e, 0), 0)))
        s.rec = Forall([ev(), iv(n)], lambda e, i: And(eq(c(e, i + 1), c(e, i) + b(eq(key(i), e))), eq(t(e, i + 1), t(e, i) + b(lt(key(i), e)))))
        kf = keyfacts                  # kf(i): ground facts giving 0 <= key(i) < R
        s.range = L.induct(nm + ': counts are between 0 and i', [ev(), iv(n + 1)], lambda e, i: And(le(0, c(e, i)), le(c(e, i), i), le(0, t(e, i)), le(t(e, i), i)),
                           lambda e, i: [inst(s.rec, e, i)], hi=n, base_using=lambda e: [inst(s.zero, e)])
        s.split = L.induct(nm + ': below e+1 = below e plus equal e', [Var('e', tags=['dig'], lo=0, hi=R), iv(n + 1)], lambda e, i: eq(t(e + 1, i), t(e, i) + c(e, i)),
                           lambda e, i: [inst(s.rec, e, i), inst(s.rec, e + 1, i)], hi=n, base_using=lambda e: [inst(s.zero, e), inst(s.zero, e + 1)])
        s.full = L.induct(nm + ': every key is below R', [iv(n + 1)], lambda i: And(eq(t(R, i), i), eq(t(P(0), i), 0)),
                          lambda i: [inst(s.rec, R, i), inst(s.rec, 0, i)] + kf(i), hi=n, base_using=lambda: [inst(s.zero, R), inst(s.zero, 0)])
        s.mono = L.induct(nm + ': counts grow with i', [ev(), Var('i', tags=['ix'], lo=0), Var('j', tags=['ix'], lo=0, hi=n + 1)],
                          lambda e, i, j: Implies(le(i, j), And(le(c(e, i), c(e, j)), le(t(e, i), t(e, j)))),
                          lambda e, i, j: [inst(s.rec, e, j)], hi=n, base_using=lambda e, i: [])
        s.emono = L.induct(nm + ': counts grow with the key', [Var('e', tags=['dig'], lo=0), Var('f', tags=['dig'], lo=0, hi=R + 1)],
                           lambda e, f: Implies(le(e, f), le(t(e, n), t(f, n))),
                           lambda e, f: [inst(s.split, f, n), inst(s.range, f, n)], hi=R)
        s.facts = [s.zero, s.rec, s.range, s.split, s.full]
    def pos(s, i): return s.t(s.key(i), s.n) + s.c(s.key(i), i)
    def place(s, L, nm, kf):
        """counting sort destinations: inside [0,n), ordered by (key, index)"""
        n, key, c, t, pos = s.n, s.key, s.c, s.t, s.pos
        iv = lambda v: Var(v, tags=['ix'], lo=0, hi=n)
        s.inr = L.all(nm + ': destinations are inside', [iv('i')], lambda i: And(le(0, pos(i)), lt(pos(i), t(key(i) + 1, n)), lt(pos(i), n)),
                      lambda i: kf(i) + [inst(s.range, key(i), i), inst(s.range, key(i), n), inst(s.rec, key(i), i), inst(s.mono, key(i), i + 1, n), inst(s.split, key(i), n),
                                         inst(s.emono, key(i) + 1, s.R), inst(s.full, n)])
        s.order = L.all(nm + ': destinations are ordered by key, then index', [iv('i'), iv('j')],
                        lambda i, j: Implies(Or(lt(key(i), key(j)), And(eq(key(i), key(j)), lt(i, j))), lt(pos(i), pos(j))),
                        lambda i, j: kf(i) + kf(j) + [inst(s.inr, i), inst(s.inr, j), inst(s.emono, key(i) + 1, key(j)), inst(s.mono, key(i), i + 1, j), inst(s.rec, key(i), i),
                                                      inst(s.range, key(j), j), Implies(eq(key(i), key(j)), And(eq(c(key(i), j), c(key(j), j)), eq(t(key(i), n), t(key(j), n))))])
        s.inj = L.all(nm + ': destinations are different', [iv('i'), iv('j')], lambda i, j: Implies(ne(i, j), ne(pos(i), pos(j))),
                      lambda i, j: [inst(s.order, i, j), inst(s.order, j, i)])

class Sort(Contract):
    timeout = 20000; rounds = 2; unroll_limit = 32
    passes = 4
    def __init__(s, real='float'):
        s.kind = {'float': 'f32', 'double': 'f64'}[real]
        s.name = 'xyzset::sort<%s>' % real; s.fn = r'xyzset::sort<int, %s>\(' % real
        s.loops = s.mkloops()
    def make(s, E, st, f):
        n = Poly.var(poly.fresh_name('n'), 0, 2**31 - 2)
        gr = ivar(E, 'gr', 32, 1, 1290)
        st.prod(gr.p, gr.p); st.prod(gr.p * gr.p, gr.p)
        return [struct_ptr(st, 'result', [], local=True), vec(st, 'xyzset', s.kind, n=n, layout=[3, 1], sizes=[n, 3], stride=3), struct_ptr(st, 'args', [(0, gr)])]
    def bind(s, E, st, args):
        a = NS(E=E, X=reg(args[1]), n=P(args[1].r.n), gr=E.signed(st, field(E, st, args[2], 0)))
        a.K = a.gr * a.gr * a.gr
        a.gl = E.fdiv(st, RP.const(1), itof(a.gr))
        st.hyps.append(Implies(ge(a.gr, 1), rlt(0, a.gl)))            # a reciprocal keeps the sign
        a.C = [ifn('C%d' % c) for c in range(3)]
        a.d = [ifn('d%d' % k) for k in range(s.passes)]
        return a
    def x(s, a, S, p, c): return rd(S[a.X], 3 * P(p) + c)
    def pt(s, a, v='p'): return Var(v, [(a.X, 0, 3)], tags=['ix'], lo=0, hi=a.n)
    def pre(s, a, S):
        g = a.gl
        a.unit = Forall([s.pt(a)], lambda p: And(*[And(rlt(0, s.x(a, S, p, c)), rlt(s.x(a, S, p, c), 1)) for c in range(3)]))
        # definition: for 0 < x < 1 the grid cell exists and is unique
        a.cell = Forall([s.pt(a)], lambda p: And(*[And(le(0, a.C[c](p)), lt(a.C[c](p), a.gr), rle(itof(a.C[c](p)) * g, s.x(a, S, p, c)), rlt(s.x(a, S, p, c), itof(a.C[c](p)) * g + g)) for c in range(3)]))
        return [('sizes', And(ge(a.gr, 1), le(a.gr, 1290), ge(a.n, 0), lt(a.n, 2**31 - 1))), ('points in the open unit cube', a.unit), ('grid cells (definition)', a.cell)]
    def modifies(s, a, S): return [(a.X, lambda p: TRUE)]
    def cid(s, a, q): return a.C[0](q) + a.gr * a.C[1](q) + a.gr * a.gr * a.C[2](q)
    # ---- vectors of the function
    def vecs(s, E):
        v = [v for (f, _), v in E.localvecs.items() if v.region is not None]
        ints = [x for x in v if x.region.sort == 'I']; tup = [x for x in v if x.stride == 3]
        return ints, tup
    def mkloops(s):
        def base_start(E, st, a, L, S0, S):
            a.base = list(st.hyps)
            ids = [v for v, n in st.vecs.items() if v.region is not None and v.region.sort == 'I' and s.implied_len(E, st, n, a.n)]
            if not ids: raise Unsupported('no id vector')
            a.ID = ids[0].region
        def init(a, L, S0, S, E0):
            i = L.u('i')
            return [('cursor', And(le(0, i), le(i, a.n))),
                    ('ids of the points so far', Forall([Var('p', [(a.ID, 0, 1)], tags=['ix'], lo=0, hi=i)], lambda p: And(eq(rd(S[a.ID], p), s.cid(a, p)), le(0, s.cid(a, p)), lt(s.cid(a, p), a.K))))]
        def after_init(E, st, a, L, S, inv):
            i = L.u('i'); gr, g = a.gr, a.gl
            E.instantiate(st, a.cell, i); E.instantiate(st, a.unit, i)
            inv = None
            for c in range(3):
                x = s.x(a, E.S0, i, c); C = itof(a.C[c](i))
                q = E.fdiv(st, x, g); v = RP.term(rpoly.RDIV(z3.RealVal(1), g.t()))
                f = E.floor(st, q)
                rec = [Implies(req(g * v, 1), req(x * g * v, x)), Implies(req(itof(gr) * g, 1), req(itof(gr) * g * v, v)), Implies(req(g * v, 1), req(itof(gr) * g * v, itof(gr))),
                       Implies(And(rlt(x, 1), rlt(0, v)), rlt(x * v, v)), Implies(rlt(0, g), rlt(0, v)), Implies(And(rlt(0, x), rlt(0, v)), rlt(0, x * v)),
                       pos_product(q - f, g), spos_product(f + 1 - q, g), pos_product(C - f - 1, g), pos_product(f - C - 1, g)]
                st.hyps += rec
                isc = Implies(lt(i, a.n), And(req(f, C), rle(0, q), rlt(q, itof(gr))))
                E.oblige(st, 'lemma: the quotient by the cell length is the cell', isc, 'lemma')
                st.hyps.append(isc)
            c0, c1, c2 = [a.C[c](i) for c in range(3)]
            for u, v in ((c1, gr), (c2, gr), (c2 * gr, gr)): st.prod(u, v)
            G = gr - 1
            # cx+1 <= gr, cy+1 <= gr, cz+1 <= gr, multiplied by gr and gr*gr
            g0 = And(le(0, i), lt(i, a.n))
            st.hyps += [Implies(g0, And(le(0, gr * c1), le(gr * c1 + gr, gr * gr), le(0, gr * c2), le(gr * c2 + gr, gr * gr), le(0, gr * gr * c2), le(gr * gr * c2 + gr * gr, gr * gr * gr)))]
            st.tag('ix', i)
        # ---- one counting pass
        def begin_pass(E, st, a, L, S0, S):
            k = st.ghost.get('pass', 0)
            if k: s.end_pass(E, st, a, k - 1)
            else: s.first(E, st, a)
            s.begin(E, st, a, k); st.ghost['pass'] = k + 1
        def G(S): return S.ghost['cnt']
        def cntv(a, S, v='e'): return Var(v, [(a.CNT, 0, 1)], tags=['dig'], lo=0, hi=256)
        def find_cnt(E, st, a):
            rs = [r for r in st.mem if r.local and getattr(r, 'vec', None) is None and r.kind == 'u64']
            if len(rs) != 1: raise Unsupported('digit counters')
            a.CNT = rs[0]
        def count_pre(E, st, a, L, S0, S):
            find_cnt(E, st, a); begin_pass(E, st, a, L, S0, S)
            S.ghost.update(st.ghost)
        def count(a, L, S0, S, E0):
            i = L.u('i'); g = G(S)
            return [('cursor', And(le(0, i), le(i, a.n))), ('counts so far', Forall([cntv(a, S)], lambda e: And(eq(rd(S[a.CNT], e), g.c(e, i)), le(g.c(e, i), i))))]
        def digit(E, st, a, i):
            """the byte of id[i] this pass looks at, as the code computes it"""
            k = st.ghost['pass'] - 1; v = rd(st.mem[a.ID], i)
            g = st.ghost['cnt']; f = st.ghost['facts']
            E.instantiate(st, f['perm'], i); q = st.ghost['orig'](i)
            E.instantiate(st, f['digits'], q)
            if k: v, _ = E.divmod(st, v, P(256**k))
            lo, hi = v.interval()
            if hi is None or hi > 255: _, v = E.divmod(st, v, P(256))
            E.oblige(st, 'lemma: digit', Implies(And(le(0, i), lt(i, a.n)), eq(v, g.key(i))), 'lemma')
            st.hyps.append(Implies(And(le(0, i), lt(i, a.n)), eq(v, g.key(i))))
            st.tag('dig', g.key(i)); st.tag('ix', i); st.tag('ix', i + 1)
            return v
        def after_count(E, st, a, L, S, inv):
            i = L.u('i'); d = digit(E, st, a, i); g = G(S)
            for x in (d, g.key(i)): E.instantiate(st, inv['counts so far'], x)
            E.instantiate(st, g.rec, g.key(i), i); E.instantiate(st, g.range, g.key(i), i)
            E.assume(st, [fix(g.rec, 1, i), fix(g.range, 1, i)])
        def prefix(a, L, S0, S, E0):
            i = L('i'); g = G(S)
            return [('cursor', And(le(1, i), le(i, 256))),
                    ('running sums', Forall([cntv(a, S)], lambda e: And(eq(rd(S[a.CNT], e), pol_ite(lt(e, i), g.t(e + 1, a.n), g.c(e, a.n))))))]
        def after_prefix(E, st, a, L, S, inv):
            i = L('i'); g = G(S)
            for e in (i - 1, i):
                E.instantiate(st, inv['running sums'], e); E.instantiate(st, g.split, e, a.n); E.instantiate(st, g.range, e, a.n)
            E.instantiate(st, g.range, i + 1, a.n); st.tag('ix', a.n); st.tag('dig', i)
        def prefix_pre(E, st, a, L, S0, S):
            g = st.ghost['cnt']
            E.instantiate(st, g.split, 0, a.n); E.instantiate(st, g.full, a.n); st.tag('ix', a.n)
        def scatter(a, L, S0, S, E0):
            i = L('i'); g = G(S); gh = S.ghost
            jv = lambda: Var('j', tags=['ix'], lo=i + 1, hi=a.n)
            return [('cursor', And(le(-1, i), lt(i, a.n))),
                    ('next free place', Forall([cntv(a, S)], lambda e: eq(rd(S[a.CNT], e), g.t(e, a.n) + g.c(e, i + 1)))),
                    ('ids placed', Forall([jv()], lambda j: eq(rd(S[a.TID], g.pos(j)), gh['V'](j)))),
                    ('points placed', Forall([jv()], lambda j: And(*[req(rd(S[a.TX], 3 * g.pos(j) + c), gh['PX'](j, c)) for c in range(3)])))]
        def scatter_pre(E, st, a, L, S0, S):
            ints, tup = s.vecs(E)
            t = [v.region for v in ints if v.region is not a.ID and v in st.vecs and s.implied_len(E, st, st.vecs[v], a.n) and not (P(st.vecs[v]).isconst())]
            if not t or not tup: raise Unsupported('scratch vectors')
            a.TID, a.TX = t[-1], tup[0].region
            g = st.ghost['cnt']
            st.tag('ix', a.n); st.tag('ix', P(-1) + a.n)
        def after_scatter(E, st, a, L, S, inv):
            i = L('i'); d = digit(E, st, a, i); g = G(S)
            for x in (d, g.key(i)): E.instantiate(st, inv['next free place'], x)
            E.instantiate(st, g.rec, g.key(i), i)
            for e in (i, i + 1, a.n): E.instantiate(st, g.range, g.key(i), e)
            E.instantiate(st, g.inr, i)
            E.assume(st, [fix(g.rec, 1, i), fix(g.inj, 0, i)])
        def scatter_hints(E, st, a, L, S0, S): pass
        # ---- offset table
        def ocount_pre(E, st, a, L, S0, S):
            s.end_pass(E, st, a, st.ghost['pass'] - 1)
            off = [v for v in st.vecs if v.region is not None and v.region.sort == 'I' and E.implied(st, eq(P(st.vecs[v]), a.K + 1), 1000) and v.region not in (a.ID, getattr(a, 'TID', None))]
            if len(off) != 1: raise Unsupported('offset vector')
            a.OFF = off[0].region
            f = st.ghost['facts']; V = st.ghost['V']; orig = st.ghost['orig']
            key = lambda i: V(i) + 1
            kf = lambda i: [inst(f['perm'], i), inst(f['ids'], orig(i))]
            Lm = Lemmas(E, st, a.base)
            g = Counting(Lm, 'offsets', key, kf, a.n, a.K + 1)
            up = lambda lo, hi, v='i': Var(v, tags=['ix'], lo=lo, hi=hi)
            cv = lambda: Var('c', tags=['cell'], lo=0, hi=a.K + 1)
            # sortedness: off(c) separates the ids below c from the rest
            g.low = Lm.induct('ids below c come first', [cv(), Var('p', tags=['ix'], lo=0, hi=a.n), up(0, a.n + 1)],
                lambda c, p, i: Implies(And(lt(V(p), c), le(i, p + 1)), eq(g.t(c + 1, i), i)),
                lambda c, p, i: [inst(g.rec, c + 1, i), inst(f['sorted'], i, p)], hi=a.n, base_using=lambda c, p: [inst(g.zero, c + 1)])
            g.high = Lm.induct('ids from c on come last', [cv(), Var('p', tags=['ix'], lo=0, hi=a.n), up(0, a.n + 1)],
                lambda c, p, i: Implies(And(le(c, V(p)), le(p, i)), eq(g.t(c + 1, i), g.t(c + 1, p))),
                lambda c, p, i: [inst(g.rec, c + 1, i), inst(f['sorted'], p, i)], hi=a.n, base_using=lambda c, p: [])
            g.sep = Lm.all('ids below c are exactly those before off(c)', [cv(), Var('p', tags=['ix'], lo=0, hi=a.n)],
                lambda c, p: Iff(lt(p, g.t(c + 1, a.n)), lt(V(p), c)),
                lambda c, p: [inst(g.low, c, p, p + 1), inst(g.high, c, p, a.n), inst(g.range, c + 1, p), inst(g.mono, c + 1, p + 1, a.n)])
            st.ghost['cnt'] = g
            for h in [g.zero, g.full, fix(g.range, 1, a.n), fix(g.split, 1, a.n)]: E.assume(st, h)
            S.ghost.update(st.ghost)
        def offv(a, v='e'): return Var(v, [(a.OFF, 0, 1)], tags=['dig'], lo=0, hi=a.K + 1)
        def ocount(a, L, S0, S, E0):
            i = L.u('i'); g = G(S)
            return [('cursor', And(le(0, i), le(i, a.n))), ('entries so far', Forall([offv(a)], lambda e: And(eq(rd(S[a.OFF], e), g.c(e, i)), le(g.c(e, i), i))))]
        def after_ocount(E, st, a, L, S, inv):
            i = L.u('i'); g = G(S); f = S.ghost['facts']; V = S.ghost['V']
            E.instantiate(st, f['perm'], i); E.instantiate(st, f['ids'], S.ghost['orig'](i))
            E.instantiate(st, inv['entries so far'], g.key(i)); E.instantiate(st, g.rec, g.key(i), i); E.instantiate(st, g.range, g.key(i), i)
            E.assume(st, [fix(g.rec, 1, i), fix(g.range, 1, i)])
            st.tag('dig', g.key(i))
        def oprefix(a, L, S0, S, E0):
            i = L.u('i'); u = L('update'); g = G(S)
            return [('cursor', And(le(0, i), le(i, a.K + 1))), ('sum so far', eq(u, g.t(i, a.n))),
                    ('running sums', Forall([offv(a)], lambda e: eq(rd(S[a.OFF], e), pol_ite(lt(e, i), g.t(e + 1, a.n), g.c(e, a.n)))))]
        def after_oprefix(E, st, a, L, S, inv):
            i = L.u('i'); g = G(S)
            E.instantiate(st, inv['running sums'], i)
            for e in (i, i + 1): E.instantiate(st, g.range, e, a.n)
            E.instantiate(st, g.split, i, a.n); E.instantiate(st, g.full, a.n); st.tag('ix', a.n); st.tag('dig', i)
        def oprefix_pre(E, st, a, L, S0, S):
            E.instantiate(st, st.ghost['cnt'].full, a.n); st.tag('ix', a.n)
        all_ = lambda *names: lambda a, S0, entry: [(getattr(a, n), lambda p: TRUE) for n in names]
        return [LoopSpec('init', ['i'], init, lambda a, L, S: [a.n - L.u('i')], modifies=all_('ID'), pre_hints=base_start, after=after_init),
                LoopSpec('count', ['i'], count, lambda a, L, S: [a.n - L.u('i')], modifies=all_('CNT'), pre_hints=count_pre, after=after_count),
                LoopSpec('prefix', ['i'], prefix, lambda a, L, S: [256 - L('i')], modifies=all_('CNT'), pre_hints=prefix_pre, after=after_prefix),
                LoopSpec('scatter', ['i'], scatter, lambda a, L, S: [L('i') + 1], modifies=all_('CNT', 'TID', 'TX'), pre_hints=scatter_pre, after=after_scatter),
                LoopSpec('ocount', ['i'], ocount, lambda a, L, S: [a.n - L.u('i')], modifies=all_('OFF'), pre_hints=ocount_pre, after=after_ocount),
                LoopSpec('oprefix', ['i', 'update'], oprefix, lambda a, L, S: [a.K + 1 - L.u('i')], modifies=all_('OFF'), pre_hints=oprefix_pre, after=after_oprefix)]
    def implied_len(s, E, st, n, m): return E.implied(st, eq(P(n), m), 1000)
    # ---- ghost steps between the passes
    def lo(s, a, k, q):
        r = P(0)
        for j in range(k): r = r + a.d[j](q) * 256**j
        return r
    def first(s, E, st, a):
        node = st.mem[a.ID]; S0 = E.S0
        V0 = lambda q: rd(node, q)
        qv = lambda v='q': Var(v, [(a.ID, 0, 1)], tags=['ix'], lo=0, hi=a.n)
        ids = Forall([qv()], lambda q: And(eq(V0(q), s.cid(a, q)), le(0, V0(q)), lt(V0(q), a.K)))
        E.oblige(st, 'ids of all points', ids, 'lemma')
        # definition: the bytes of a non-negative int
        digits = Forall([qv()], lambda q: And(eq(V0(q), s.lo(a, s.passes, q)), *[And(le(0, a.d[k](q)), le(a.d[k](q), 255)) for k in range(s.passes)]))
        one = lambda p: P(p)
        st.ghost.update(V0=V0, orig=one, oinv=one, V=V0, PX=lambda p, c: s.x(a, S0, p, c), pass_=0)
        f = {'ids': ids, 'digits': digits}
        f['perm'] = Forall([qv('p')], lambda p: And(le(0, p), lt(p, a.n)))
        f['order'] = Forall([qv('p'), qv('q')], lambda p, q: TRUE)
        st.ghost['facts'] = f
        a.base = a.base + [And(ge(a.n, 0))]
        st.hyps = list(a.base); s.carry(E, st, a, f)
    def carry(s, E, st, a, f):
        for h in f.values(): E.assume(st, h)
        E.assume(st, a.unit); E.assume(st, a.cell)
    def begin(s, E, st, a, k):
        f = st.ghost['facts']; orig = st.ghost['orig']
        key = lambda i: a.d[k](orig(i))
        kf = lambda i: [inst(f['perm'], i), inst(f['digits'], orig(i))]
        L = Lemmas(E, st, [h for h in a.base if not isinstance(h, Forall)])
        g = Counting(L, 'pass %d' % k, key, kf, a.n, P(256))
        g.place(L, 'pass %d' % k, kf); g.kf = kf
        st.ghost['cnt'] = g
        for h in [g.zero, g.full, g.inr, fix(g.range, 1, a.n), fix(g.split, 1, a.n)]: E.assume(st, h)
    def end_pass(s, E, st, a, k):
        g, f, gh = st.ghost['cnt'], st.ghost['facts'], st.ghost
        orig, oinv, V, PX = gh['orig'], gh['oinv'], gh['V'], gh['PX']
        inv = ifn('inv')
        pv = lambda v='p': Var(v, [(a.ID, 0, 1)], tags=['ix'], lo=0, hi=a.n)
        # finite combinatorics (trusted): an injective map of [0,n) into itself has an inverse
        E.assumed.add('an injective map of [0,n) into itself is a bijection')
        bij = Forall([pv()], lambda p: And(le(0, inv(p)), lt(inv(p), a.n), eq(g.pos(inv(p)), p)))
        bij2 = Forall([pv()], lambda p: eq(inv(g.pos(p)), p))
        E.assume(st, bij); E.assume(st, bij2)
        nid, nx = st.mem[a.ID], st.mem[a.X]
        NV = lambda p: rd(nid, p); NX = lambda p, c: rd(nx, 3 * P(p) + c)
        norig = lambda p: orig(inv(p)); noinv = lambda q: g.pos(oinv(q))
        moved = Forall([pv()], lambda p: And(eq(NV(p), V(inv(p))), *[req(NX(p, c), PX(inv(p), c)) for c in range(3)]))
        x = Poly.fresh('p'); gd = And(le(0, x), lt(x, a.n))
        n = st.copy(); n.hyps.append(gd); E.instantiate(n, bij, x)
        for h in list(n.hyps):
            if isinstance(h, Forall) and getattr(h, 'origin', None) == 'inv' and len(h.vars) == 1 and h.vars[0].name == 'j': E.instantiate(n, h, inv(x))
        E.oblige(n, 'pass %d: every position holds the entry moved there' % k, moved.body(x), 'lemma')
        # facts about the new arrangement
        bs = [h for h in a.base if not isinstance(h, Forall)]
        L = Lemmas(E, st, bs)
        f2 = {'ids': f['ids'], 'digits': f['digits']}
        V0 = gh['V0']; S0 = E.S0
        mk = lambda O, OI, W, WX: Forall([pv()], lambda p: And(le(0, O(p)), lt(O(p), a.n), eq(OI(O(p)), p), eq(W(p), V0(O(p))), *[req(WX(p, c), s.x(a, S0, O(p), c)) for c in range(3)]))
        old = mk(orig, oinv, V, PX) if k else Forall([pv()], lambda p: TRUE)
        f2['perm'] = L.all('pass %d: still a permutation' % k, [pv()], mk(norig, noinv, NV, NX).body,
                           lambda p: [inst(bij, p), inst(moved, p), inst(f['perm'], inv(p))])
        f2['perm-inv'] = L.all('pass %d: onto' % k, [pv('q')], lambda q: And(le(0, noinv(q)), lt(noinv(q), a.n), eq(norig(noinv(q)), q)),
                               lambda q: ([inst(f['perm-inv'], q)] if 'perm-inv' in f else []) + [inst(g.inr, oinv(q)), inst(bij2, oinv(q))])
        f2['order'] = L.all('pass %d: ordered by the bytes so far, then input order' % k, [pv('p'), pv('q')],
            lambda p, q: s.before(a, k + 1, norig, p, q),
            lambda p, q: [inst(bij, p), inst(bij, q), inst(g.order, inv(p), inv(q)), inst(g.order, inv(q), inv(p)), s.before(a, k, orig, inv(p), inv(q)) if not k else inst(f['order'], inv(p), inv(q)),
                          inst(f['perm'], inv(p)), inst(f['perm'], inv(q)), inst(f['digits'], norig(p)), inst(f['digits'], norig(q))])
        if k == s.passes - 1:
            f2['sorted'] = L.all('ids ascend', [pv('p'), pv('q')], lambda p, q: Implies(le(p, q), And(le(NV(p), NV(q)), Implies(And(lt(p, q), eq(NV(p), NV(q))), lt(norig(p), norig(q))))),
                lambda p, q: [inst(f2['order'], p, q), inst(f2['perm'], p), inst(f2['perm'], q), inst(f['digits'], norig(p)), inst(f['digits'], norig(q)), Implies(eq(p, q), eq(NV(p), NV(q)))])
        st.ghost.update(orig=norig, oinv=noinv, V=NV, PX=NX, facts=f2)
        st.hyps = list(a.base); s.carry(E, st, a, f2)
    def before(s, a, k, O, p, q):
        """p before q: lexicographic in (lower k bytes of the id, input position)"""
        x, y = s.lo(a, k, O(p)), s.lo(a, k, O(q))
        return Implies(lt(p, q), Or(lt(x, y), And(eq(x, y), lt(O(p), O(q)))))
    def post(s, a, S0, S1, ret):
        gh = S1.ghost
        if 'pair' not in gh or 'facts' not in gh: return [('result', FALSE)]
        (ir, inode, il), (orr, onode, ol) = gh['pair']
        orig, oinv, g = gh['orig'], gh['oinv'], gh['cnt']
        pv = lambda v='p': Var(v, [(ir, 0, 1)], tags=['ix'], lo=0, hi=a.n)
        cv = lambda hi: Var('c', [(orr, 0, 1)], tags=['dig', 'cell'], lo=0, hi=hi)
        ID = lambda p: rd(inode, p); OFF = lambda c: rd(onode, c)
        return [('one id per point', eq(il, a.n)), ('resolution^3+1 offsets', eq(ol, a.K + 1)),
                ('points are permuted', Forall([pv()], lambda p: And(le(0, orig(p)), lt(orig(p), a.n), eq(oinv(orig(p)), p), *[req(s.x(a, S1, p, c), s.x(a, S0, orig(p), c)) for c in range(3)]))),
                ('no point is lost', Forall([pv('q')], lambda q: And(le(0, oinv(q)), lt(oinv(q), a.n), eq(orig(oinv(q)), q)))),
                ('id is the cell of the point', Forall([pv()], lambda p: And(eq(ID(p), s.cid(a, orig(p))), le(0, ID(p)), lt(ID(p), a.K)))),
                ('ids ascend, input order inside a cell', Forall([pv('p'), pv('q')], lambda p, q: Implies(lt(p, q), And(le(ID(p), ID(q)), Implies(eq(ID(p), ID(q)), lt(orig(p), orig(q))))))),
                ('offsets start at 0 and end at n', And(eq(OFF(P(0)), 0), eq(OFF(a.K), a.n))),
                ('offsets ascend within the points', Forall([cv(a.K)], lambda c: And(le(0, OFF(c)), le(OFF(c), OFF(c + 1)), le(OFF(c + 1), a.n)))),
                ('points of a cell are those between its offsets', Forall([cv(a.K), pv()], lambda c, p: Iff(And(le(OFF(c), p), lt(p, OFF(c + 1))), eq(ID(p), c))))]
    def on_exit(s, E, st, a):
        g = st.ghost.get('cnt')
        if g is None: return
        if 'pair' not in st.ghost: return
        r, node, _ = st.ghost['pair'][1]
        # the table holds off(c) = t(c+1, n)
        OFF = lambda c: rd(node, c)
        tab = Forall([Var('c', [(r, 0, 1)], tags=['dig'], lo=0, hi=a.K + 1)], lambda c: eq(OFF(c), g.t(c + 1, a.n)))
        E.instantiate(st, g.full, a.n)
        E.oblige(st, 'offset table holds the number of smaller ids', tab, 'lemma')
        L = Lemmas(E, st, a.base)
        cv = lambda hi: Var('c', [(r, 0, 1)], tags=['dig', 'cell'], lo=0, hi=hi)
        pv = lambda: Var('p', [(st.ghost['pair'][0][0], 0, 1)], tags=['ix'], lo=0, hi=a.n)
        V = st.ghost['V']
        asc = L.all('offsets ascend', [cv(a.K)], lambda c: And(le(0, OFF(c)), le(OFF(c), OFF(c + 1)), le(OFF(c + 1), a.n)),
              lambda c: [inst(tab, c), inst(tab, c + 1), inst(g.emono, c + 1, c + 2), inst(g.range, c + 1, a.n), inst(g.range, c + 2, a.n)])
        ends = [inst(tab, P(0)), inst(tab, a.K), inst(g.full, a.n), inst(g.split, P(0), a.n), inst(g.range, P(0), a.n)]
        L.emit('no id is below 0', ends + [s.none0(a, g, st, L)], And(eq(OFF(P(0)), 0), eq(OFF(a.K), a.n)))
        cells = L.all('points of a cell', [cv(a.K), pv()], lambda c, p: Iff(And(le(OFF(c), p), lt(p, OFF(c + 1))), eq(V(p), c)),
              lambda c, p: [inst(tab, c), inst(tab, c + 1), inst(g.sep, c, p), inst(g.sep, c + 1, p)])
        f = st.ghost['facts']
        st.hyps = list(a.base) + [asc, cells, eq(OFF(P(0)), 0), eq(OFF(a.K), a.n)]; s.carry(E, st, a, f)
    def none0(s, a, g, st, L):
        """no key is 0"""
        f, orig = st.ghost['facts'], st.ghost['orig']
        z = L.induct('no id is negative', [Var('i', lo=0, hi=a.n + 1)], lambda i: eq(g.t(P(1), i), 0),
                     lambda i: [inst(g.rec, P(1), i), inst(f['perm'], i), inst(f['ids'], orig(i))], hi=a.n, base_using=lambda: [inst(g.zero, P(1))])
        return inst(z, a.n)

def spos_product(u, v):
    return Implies(And(rlt(0, u), rlt(0, v)), rlt(0, u * v))

class Validate(Contract):
    """the validators answer exactly whether the property holds"""
    timeout = 10000
    def __init__(s, what):
        s.what = what; s.name = 'xyzset::validate_' + what
        s.fn = {'xyzset': r'xyzset::validate_xyzset<float>\(', 'id': r'xyzset::validate_id<int>\(', 'sort': r'xyzset::validate_sort<int, float>\('}[what]
        s.loops = s.mkloops()
    def make(s, E, st, f):
        n = Poly.var(poly.fresh_name('n'), 0, 2**31 - 2)
        xyz = lambda: vec(st, 'xyzset', 'f32', n=n, layout=[3, 1], sizes=[n, 3], stride=3)
        if s.what == 'xyzset': return [xyz()]
        return [vec(st, 'id', 'i32', n=n, sizes=[n])]
    def bind(s, E, st, args):
        a = NS(E=E, n=P(args[0].r.n))
        if s.what == 'id': a.ID = reg(args[0])
        else: a.X = reg(args[0])
        return a
    def good(s, a, S, p):
        if s.what == 'id': return le(rd(S[a.ID], p - 1), rd(S[a.ID], p))
        return And(*[And(rlt(0, rd(S[a.X], 3 * p + c)), rlt(rd(S[a.X], 3 * p + c), 1)) for c in range(3)])
    def first(s): return 1 if s.what == 'id' else 0
    def v(s, a, hi): return Var('p', [(a.ID, 0, 1)] if s.what == 'id' else [(a.X, 0, 3)], tags=['ix'], lo=s.first(), hi=hi)
    def mkloops(s):
        def inv(a, L, S0, S, E0):
            i = L.u('i')
            return [('cursor', And(le(s.first(), i), Or(le(i, a.n), eq(i, s.first())))), ('good so far', Forall([s.v(a, i)], lambda p: s.good(a, S, p)))]
        def after(E, st, a, L, S, inv): st.ghost['i'] = L.u('i')
        return [LoopSpec('points', ['i'], inv, lambda a, L, S: [a.n - L.u('i')], modifies=lambda a, S0, e: [], after=after)]
    def post(s, a, S0, S1, ret):
        if not z3.is_false(ret.c) and not z3.is_true(ret.c): ok = ret.c
        else: ok = ret.c
        i = S1.ghost['i']
        return [('true only if every entry is good', Forall([s.v(a, a.n)], lambda p: Implies(ok, s.good(a, S0, p)))),
                ('false only if some entry is bad', Or(ok, And(le(s.first(), i), lt(i, a.n), Not(s.good(a, S0, i)))))]

def contracts(): return [Sort('float'), Sort('double'), Validate('xyzset'), Validate('id')]
