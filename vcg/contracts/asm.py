"""C14: assembling the neighbour lists: tmpnn_fill (rows of the answer table) and tmpnn_getdnn (flat list plus offsets)."""
from lib import *
from run import *
from contracts.knn import ifn
I = z3.IntSort()
UND = -32
BIG = 2**30

class Fill_(Contract):
    name = 'tmpnn_fill'; fn = r'votess::tmpnn_fill<int>\('; timeout = 20000; rounds = 3
    def make(s, E, st, f):
        M, n, size, k = (ivar(E, x, w, lo, BIG) for x, w, lo in (('rows', 64, 0), ('slots', 64, 0), ('size', 64, 0), ('k', 32, 0)))
        tmp = vecvec(st, 'tmpnn', M.p); ix = vec(st, 'indices', 'i32', n=n.p, sizes=[n.p])
        st.prod(k.p, n.p)
        knn = vec(st, 'knn', 'i32', n=k.p * n.p, sizes=[k.p * n.p])
        return [tmp, ix, size, knn, mkargs(st, 'args', {'k': k.p})]
    def bind(s, E, st, args):
        vv = vobj(args[0])
        a = NS(E=E, lens=vv.lens, data=vv.data, M=P(vv.n), ix=reg(args[1]), nslots=vlen(E, st, vobj(args[1])), size=E.unsigned(st, args[2]), knn=reg(args[3]), nknn=vlen(E, st, vobj(args[3])))
        a.k = args[4].r.get(st, 'k')
        h = st.ghost.get('slot_of')
        a.inv = h or ifn(z3.Function(poly.fresh_name('slot_of'), I, I))
        st.prod(a.k, a.size)
        return a
    def row(s, a, S, q): return rd(S[a.lens], q)
    def cell(s, a, S, q, j): return rd(S[a.data], a.data.phys([P(q), P(j)]))
    def K(s, a, S, r, j): return rd(S[a.knn], a.k * P(r) + P(j))
    def slot(s, a, name='s', hi=None): return Var(name, [(a.ix, 0, 1)], tags=['slot'], lo=0, hi=a.size if hi is None else hi)
    def listed(s, a, S, q, lo=0):
        v = a.inv(q); return And(le(lo, v), lt(v, a.size), eq(rd(S[a.ix], v), q))
    def rowvar(s, a, name='q'): return Var(name, [(a.lens, 0, 1)], tags=['q'], lo=0, hi=a.M)
    def pre(s, a, S):
        return [('candidate rows exist', le(a.k * a.size, a.nknn)),
                ('sizes', And(le(0, a.size), le(a.size, a.nslots), le(0, a.k), lt(a.k, 2**31), le(a.nslots, BIG), le(a.M, BIG))),
                ('each slot names its own row', Forall([s.slot(a)], lambda r: And(le(0, rd(S[a.ix], r)), lt(rd(S[a.ix], r), a.M), eq(a.inv(rd(S[a.ix], r)), r))))]
    def modifies(s, a, S): return [(a.lens, lambda p: TRUE), (a.data, lambda p: TRUE)]
    def done(s, a, S, r):
        q = rd(S[a.ix], r); l = s.row(a, S, q)
        return And(le(0, l), le(l, a.k), Implies(lt(l, a.k), eq(s.K(a, S, r, l), UND)))
    def facts(s, a, S0, S, upto, skip=None):
        jv = Var('j', tags=['j'], lo=0)
        def copied(r, j):
            q = rd(S[a.ix], r)
            return Implies(lt(j, s.row(a, S, q)), And(ne(s.K(a, S, r, j), UND), eq(s.cell(a, S, q, j), s.K(a, S, r, j))))
        return [('row lengths', Forall([s.slot(a, hi=upto)], lambda r: s.done(a, S, r))),
                ('row contents', Forall([s.slot(a, hi=upto), jv], copied)),
                ('other rows keep their length', Forall([s.rowvar(a)], lambda q: Implies(Not(And(s.listed(a, S, q), lt(a.inv(q), upto + (1 if skip else 0)))), eq(s.row(a, S, q), s.row(a, S0, q))))),
                ('other rows keep their contents', Forall([s.rowvar(a), Var('j', tags=['j'], lo=0)], lambda q, j: Implies(Not(And(s.listed(a, S, q), lt(a.inv(q), upto + (1 if skip else 0)))), eq(s.cell(a, S, q, j), s.cell(a, S0, q, j)))))]
    def post(s, a, S0, S1, ret):
        def copied(q, j):
            r = a.inv(q)
            return Implies(And(s.listed(a, S1, q), lt(j, s.row(a, S1, q))), And(ne(s.K(a, S1, r, j), UND), eq(s.cell(a, S1, q, j), s.K(a, S1, r, j))))
        def length(q):
            r = a.inv(q); l = s.row(a, S1, q)
            return Implies(s.listed(a, S1, q), And(le(0, l), le(l, a.k), Implies(lt(l, a.k), eq(s.K(a, S1, r, l), UND))))
        return [('a listed row ends at the first undefined entry', Forall([s.rowvar(a)], length)),
                ('a listed row holds the entries before it', Forall([s.rowvar(a), Var('j', tags=['j'], lo=0)], copied))] + s.facts(a, S0, S1, a.size)[2:]
    def tags(s, E, st, a, L, S, names):
        for n in names: st.tag('slot', n)
    @property
    def loops(s):
        def inv0(a, L, S0, S, E0): return [('cursor', And(le(0, L.u('i')), le(L.u('i'), a.size)))] + s.facts(a, S0, S, L.u('i'))
        def aft(E, st, a, L, S, d):
            i = L.u('i') if 'i' in L.roles else L.outer('rows').u('i')
            st.tag('slot', i); st.prod(a.k, i); st.prod(a.k, i + 1)
            st.tag('q', rd(S[a.ix], i))
            for n in ('j', 'j16'):
                if n in L.roles: st.tag('j', L.nat(n) if L.raw(n).n == 32 else L.u(n))
        def inv1(a, L, S0, S, E0):
            i = L.outer('rows').u('i'); j, n = L('j'), L.u('nsize')
            return [('count', And(eq(n, j), le(0, j), le(j, a.k))),
                    ('counted entries are defined', Forall([Var('t', [(a.knn, a.k * i, 1)], tags=['j'], lo=0, hi=j)], lambda t: ne(s.K(a, S, i, t), UND)))]
        def inv2(a, L, S0, S, E0):
            i = L.outer('rows').u('i'); j = L.u('j16'); q = rd(S[a.ix], i); l = s.row(a, S, q)
            return [('cursor', And(le(0, j), le(j, l), le(l, a.k))),
                    ('copied', Forall([Var('t', [(a.knn, a.k * i, 1)], tags=['j'], lo=0, hi=j)], lambda t: eq(s.cell(a, S, q, t), s.K(a, S, i, t)))),
                    ('length', s.done(a, S, i)),
                    ('defined', Forall([Var('t', [(a.knn, a.k * i, 1)], tags=['j'], lo=0, hi=l)], lambda t: ne(s.K(a, S, i, t), UND)))] + s.facts(a, S0, S, i, skip=True)
        mod2 = lambda a, S0, S: [(a.data, lambda p: TRUE)]
        return [LoopSpec('rows', ['i'], inv0, lambda a, L, S: [a.size - L.u('i')], after=aft),
                LoopSpec('count', ['nsize', 'j'], inv1, lambda a, L, S: [a.k - L('j')], after=aft, modifies=lambda a, S0, S: []),
                LoopSpec('copy', ['j16'], inv2, lambda a, L, S: [s.row(a, S, rd(S[a.ix], L.outer('rows').u('i'))) - L.u('j16')], after=aft, modifies=mod2, forget='inv')]

class GetDnn(Contract):
    name = 'tmpnn_getdnn'; fn = r'votess::tmpnn_getdnn<int>\('; timeout = 20000; rounds = 3
    def make(s, E, st, f):
        M = Poly.var(poly.fresh_name('rows'), 0, BIG)
        return [struct_ptr(st, 'result', []), vecvec(st, 'tmpnn', M)]
    def bind(s, E, st, args):
        vv = vobj(args[1])
        a = NS(E=E, res=args[0].r, lens=vv.lens, data=vv.data, M=P(vv.n))
        a.DL, a.PX = (ifn(z3.Function(poly.fresh_name(n), I, I)) for n in ('defined_len', 'prefix'))
        return a
    def row(s, a, S, q): return rd(S[a.lens], q)
    def cell(s, a, S, q, j): return rd(S[a.data], a.data.phys([P(q), P(j)]))
    def q(s, a, hi=None, name='q'): return Var(name, [(a.lens, 0, 1)], tags=['q'], lo=0, hi=a.M if hi is None else hi)
    def pre(s, a, S):
        a.px = Forall([s.q(a)], lambda q: eq(a.PX(q + 1), a.PX(q) + a.DL(q)))
        a.dl = Forall([s.q(a)], lambda q: And(le(0, a.DL(q)), le(a.DL(q), s.row(a, S, q)), le(s.row(a, S, q), BIG), Or(eq(a.DL(q), s.row(a, S, q)), eq(s.cell(a, S, q, a.DL(q)), UND))))
        a.dd = Forall([s.q(a), Var('j', tags=['j'], lo=0)], lambda q, j: Implies(lt(j, a.DL(q)), ne(s.cell(a, S, q, j), UND)))
        return [('sizes', And(le(0, a.M), le(a.M, BIG))), ('prefix sums (definition)', eq(a.PX(0), 0)), ('prefix sums (definition)', a.px),
                ('defined length (definition)', a.dl), ('defined entries (definition)', a.dd), ('total fits', lt(a.PX(a.M), 2**31))]
    def modifies(s, a, S): return [(a.lens, lambda p: TRUE), (a.res, None)]
    def vecs(s, E, st):
        out = {}
        for v in st.vecs:
            if isinstance(v, VecObj): out[v.name.strip('_').split('.')[0]] = v
        return out
    def out(s, a, S): return S.ghost.get(('moved', a.res, 0)), S.ghost.get(('moved', a.res, 24))
    def post(s, a, S0, S1, ret):
        l, o = s.out(a, S1)
        if l is None or o is None: return [('the result holds both vectors', FALSE)]
        rdl = lambda i: rd(l[1], i); rdo = lambda i: rd(o[1], i)
        return [('one offset per row plus the end', eq(o[2], a.M + 1)), ('list holds every row once', eq(l[2], a.PX(a.M))),
                ('offsets are the prefix sums', Forall([Var('m', tags=['q'], lo=0, hi=a.M + 1)], lambda m: eq(rdo(m), a.PX(m)))),
                ('row contents in place', Forall([Var('q', tags=['q'], lo=0, hi=a.M), Var('j', tags=['j'], lo=0)], lambda q, j: Implies(lt(j, a.DL(q)), eq(rdl(a.PX(q) + j), s.cell(a, S0, q, j)))))]
    @property
    def loops(s):
        def lo(a, S):
            v = {x.name.strip('_').split('.')[0]: x for x in S.vecs if isinstance(x, VecObj)}
            return v['list'], v['offs']
        def common(a, S0, S, i, full):
            l, o = lo(a, S); px, dl = a.PX, a.DL
            out = [('rows left are untouched', Forall([s.q(a)], lambda q: Implies(ge(q, i), eq(s.row(a, S, q), s.row(a, S0, q))))),
                   ('rows before end before', Forall([s.q(a, i)], lambda q: And(le(px(q) + dl(q), px(i)), le(0, px(q))))),
                   ('list so far', Forall([s.q(a, i), Var('j', tags=['j'], lo=0)], lambda q, j: Implies(lt(j, dl(q)), eq(rd(S[l.region], px(q) + j), s.cell(a, S0, q, j)))))]
            return out
        def inv0(a, L, S0, S, E0):
            i = L('i'); l, o = lo(a, S)
            return [('cursor', And(le(0, i), le(i, a.M), eq(S.vlen(l), a.PX(i)), eq(S.vlen(o), a.M + 1), le(0, a.PX(i)))),
                    ('counts', Forall([Var('m', [(o.region, 0, 1)], tags=['q'], lo=0, hi=a.M + 1)], lambda m: eq(rd(S[o.region], m), pol_ite(And(ge(m, 1), le(m, i)), a.DL(m - 1), P(0)))))] + common(a, S0, S, i, False)
        def aft(E, st, a, L, S, d):
            try: i = L('i') if 'i' in L.roles else L.outer('rows')('i')
            except Unsupported: i = L('i30')
            for x in (i, i - 1, i + 1): st.tag('q', x)
            E.instantiate(st, a.px, i); E.instantiate(st, a.px, i - 1); E.instantiate(st, a.dl, i)
            if 'it' in L.roles: st.tag('j', L.idx('it')); E.instantiate(st, a.dd, i, L.idx('it'))
        def inv1(a, L, S0, S, E0):
            i = L.outer('rows')('i'); l, o = lo(a, S); t = L.idx('it')
            return [('cursor', And(le(0, t), le(t, a.DL(i)), eq(S.vlen(l), a.PX(i) + t), eq(S.vlen(o), a.M + 1))),
                    ('row so far', Forall([Var('j', tags=['j'], lo=0, hi=t)], lambda j: eq(rd(S[l.region], a.PX(i) + j), s.cell(a, S0, i, j)))),
                    ('counts', Forall([Var('m', [(o.region, 0, 1)], tags=['q'], lo=0, hi=a.M + 1)], lambda m: eq(rd(S[o.region], m), pol_ite(And(ge(m, 1), le(m, i)), a.DL(m - 1), pol_ite(eq(m, i + 1), t, P(0))))))] + common(a, S0, S, i, False)
        def inv2(a, L, S0, S, E0):
            i = L('i30'); l, o = lo(a, S)
            return [('cursor', And(le(1, i), le(i, a.M + 1))),
                    ('sums', Forall([Var('m', [(o.region, 0, 1)], tags=['q'], lo=0, hi=a.M + 1)], lambda m: eq(rd(S[o.region], m), pol_ite(lt(m, i), a.PX(m), a.DL(m - 1)))))]
        return [LoopSpec('rows', ['i'], inv0, lambda a, L, S: [a.M - L('i')], after=aft),
                LoopSpec('row', ['it'], inv1, lambda a, L, S: [s.row(a, S, L.outer('rows')('i')) - L.idx('it')], after=aft, forget='inv', modifies=lambda a, S0, S: [(lo(a, S)[1].region, lambda p: TRUE)]),
                LoopSpec('sums', ['i30'], inv2, lambda a, L, S: [a.M + 1 - L('i30')], after=aft, modifies=lambda a, S0, S: [(lo(a, S)[1].region, lambda p: TRUE)])]

def contracts(): return [Fill_(), GetDnn()]
