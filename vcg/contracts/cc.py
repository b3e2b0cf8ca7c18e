"""C04 (C07, C12, C15): cci::compute, host overload and the device overload with column layout.

Callees are used through their contracts: boundary::compute (C05), and the geometric primitives, whose results are
functions of their arguments (BIS, ISX, DOT, SRU, REACH; what those functions are is C06 / C07).
Ghost state: cut(t), rad(t) for a triangle t of the current cell; pos/prd/n of the boundary cycle; wit(m) a final
triangle that names neighbour m's plane; src/rank the order preserving numbering of the kept neighbours."""
from lib import *
from run import *
from contracts import boundary as B
I, RS, BS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
UND = -32
BIG = 2**29
NAMES = dict(SEC=1, INF=2, NVERT=4, NNEIGH=8, POV=16, TOV=32, OCC=64)
UFS = {}
def uf(name, n, res=RS):
    if name not in UFS: UFS[name] = z3.Function('cc_' + name, *([RS] * n + [res]))
    return UFS[name]
def call(name, args, res=RS):
    t = uf(name, len(args), res)(*[x.t() for x in args])
    return RP.term(t) if res is RS else t
def ifn(name, n=1):
    f = z3.Function(poly.fresh_name(name), *([I] * (n + 1)))
    return lambda *x: Poly.term(f(*[P(y).t() for y in x]))
def ite(c, x, y): return pol_ite(c, P(x), P(y))
def fresh_fn(name, n, res):
    f = z3.Function(poly.fresh_name(name), *([I] * n + [res]))
    return lambda *x: (RP.term if res is RS else (lambda t: t))(f(*[P(y).t() for y in x]))
def dist2(p, v): return sum(((p[c] - v[c]) * (p[c] - v[c]) for c in range(3)), RP.const(0))

# ---------------------------------------------------------------- pure callees
class Pure(Contract):
    """dst arguments receive fixed functions of the remaining arguments (proved in the unit of primitives)"""
    trusted_here = True
    def __init__(s, name, fn, ndst, nargs): s.name, s.fn, s.ndst, s.nargs = name, fn, ndst, nargs
    def bind(s, E, st, args): return NS(E=E, args=args)
    def vals(s, a): return a.args[s.ndst:]
    def havoc_extra(s, E, st, a):
        for c in range(s.ndst):
            E.store(st, a.args[c], call(s.short() + str(c), s.vals(a)), FloatT('float'))
        if s.name == 'sr::is_reached': st.ghost['asked'] = call('is_reached', s.vals(a), BS)
    def short(s): return s.name.split('::')[-1]
    def result(s, E, a, st, f):
        if s.ndst: return None
        if s.name == 'sr::is_reached': return BoolV(call('is_reached', s.vals(a), BS))
        return call(s.short(), s.vals(a))
    def post(s, a, S0, S1, ret):
        if s.name == 'sr::update':
            p, v, r = a.args[:3], a.args[3:6], a.args[6]
            d = call('dist', list(p) + list(v))
            return [('largest so far', And(rle(r, ret), rle(d, ret), Or(req(ret, r), req(ret, d))))]
        return []
    def pre(s, a, S):
        if s.name == 'sr::is_reached' and 'cover' in S.ghost: return S.ghost['cover'](a.args, S)
        return []

def pures():
    return [Pure('planes::bisect', r'planes::bisect<float>\(', 4, 6), Pure('planes::intersect', r'planes::intersect<float>\(', 4, 12),
            Pure('planes::dot', r'planes::dot<float>\(', 0, 8), Pure('sr::update', r'sr::update<float>\(', 0, 7), Pure('sr::is_reached', r'sr::is_reached<float>\(', 0, 7)]

CUBE_P = [[1, 0, 0, 0], [-1, 0, 0, 1], [0, 1, 0, 0], [0, -1, 0, 1], [0, 0, 1, 0], [0, 0, -1, 1]]
# the corners of the unit cube: each names one plane per axis, counter-clockwise seen from outside
CUBE_T = {(2, 5, 0), (5, 3, 0), (1, 5, 2), (5, 1, 3), (4, 2, 0), (4, 0, 3), (2, 4, 1), (4, 3, 1)}

class CC(Contract):
    timeout = 20000; rounds = 2; reads_confined = True
    def __init__(s, kind):
        s.kind = kind; s.host = kind == 'host'
        s.name = 'cci::compute[%s]' % kind
        s.fn = r'cci::compute<int, float, unsigned char>\(int, int, ' + (r'std::vector' if s.host else r'int, ')
        s.loops = s.mkloops()
    # ---- arguments
    def make(s, E, st, f):
        i, index = ivar(E, 'i', 32, 0, BIG), ivar(E, 'index', 32, 0, BIG)
        N, M = ivar(E, 'xyzsize', 32, 0, BIG), ivar(E, 'refsize', 32, 0, BIG)
        k, pm, tm = ivar(E, 'k', 32, 0, 65535), ivar(E, 'p_maxsize', 32, 0, 65535), ivar(E, 't_maxsize', 32, 0, 32767)
        args = struct_ptr(st, 'args', [(0, k), (4, pm), (8, tm)])
        states = vec(st, 'states', 'bv8', sizes=[M.p])
        T = region(st, 'T', 'u8', layout=[3, 1], sizes=[tm.p, 3], base=3 * tm.p * i.p)
        if s.host:
            Pr = region(st, 'P', 'f32', layout=[4, 1], sizes=[pm.p, 4], base=4 * pm.p * i.p)
            dR = region(st, 'dR', 'u8', sizes=[pm.p], base=pm.p * i.p)
            knn = PtrV(VecObj('knn', region(st, 'knn', 'i32', sizes=[k.p], base=k.p * i.p)), 0)
            dknn = PtrV(VecObj('dknn', region(st, 'dknn', 'i32', sizes=[k.p], base=k.p * i.p)), 0)
            xyz = vec(st, 'xyzset', 'f32', layout=[3, 1], sizes=[N.p, 3], stride=3); ref = vec(st, 'refset', 'f32', layout=[3, 1], sizes=[M.p, 3], stride=3)
            return [i, index, states, PtrV(Pr, 0), PtrV(T, 0), PtrV(dR, 0), knn, dknn, xyz, N, ref, ivar(E, 'refsize_argument', 32, -2**31, 2**31 - 1), args]
        li, ko = ivar(E, 'l_i', 32, 0, BIG), ivar(E, 'koffs', 32, 1, BIG)
        Pr = region(st, 'P', 'f32', layout=[4 * ko.p, ko.p, 1], sizes=[pm.p, 4, ko.p])
        dR = region(st, 'dR', 'u8', sizes=[pm.p], base=pm.p * li.p)
        acc = lambda n, r: PtrV(VecObj(n, r), 0)
        knn = acc('knn', region(st, 'knn', 'i32', layout=[ko.p, 1], sizes=[k.p, ko.p])); dknn = acc('dknn', region(st, 'dknn', 'i32', layout=[ko.p, 1], sizes=[k.p, ko.p]))
        xyz = vec(st, 'xyzset', 'f32', layout=[N.p, 1], sizes=[3, N.p]); ref = vec(st, 'refset', 'f32', layout=[M.p, 1], sizes=[3, M.p])
        return [i, li, index, states, acc('P', Pr), acc('T', T), acc('dR', dR), knn, ko, dknn, xyz, N, ref, M, args]
    def bind(s, E, st, args):
        sg = lambda x: E.signed(st, x)
        if s.host: i, index, states, Pr, T, dR, knn, dknn, xyz, N, ref, M, ar = args; li = i; ko = None
        else: i, li, index, states, Pr, T, dR, knn, ko, dknn, xyz, N, ref, M, ar = args
        a = NS(E=E, i=sg(i), li=sg(li), index=sg(index), st=reg(states), P=reg(Pr), T=reg(T), dR=reg(dR), knn=reg(knn), dknn=reg(dknn), xyz=reg(xyz), N=sg(N), ref=reg(ref), M=sg(M))
        if s.host: a.M = a.ref.sizes[0]          # a chunk passes its own size as refsize: the host code must not depend on it
        a.ko = sg(ko) if ko is not None else None
        a.k, a.pm, a.tm = [sg(field(E, st, ar, o)) for o in (0, 4, 8)]
        a.t0 = 3 * a.tm * a.i; a.d0 = a.pm * a.li
        a.p = [rd(st.mem[a.ref], (3 * a.index + c) if s.host else a.M * c + a.index) for c in range(3)]
        return a
    def products(s, a): return [(a.tm, a.i), (a.pm, a.li), (a.pm, a.i), (a.k, a.i)] if s.host else [(a.tm, a.i), (a.pm, a.li), (a.ko, a.k), (a.ko, a.pm), (a.ko, a.pm - 6)]
    # ---- reading memory
    def Pc(s, a, S, j, c): return rd(S[a.P], (4 * a.pm * a.i + 4 * P(j) + c) if s.host else (4 * a.ko * P(j) + a.ko * c + a.i))
    def pl(s, a, S, j): return [s.Pc(a, S, j, c) for c in range(4)]
    def tri(s, a, S, r): return [rd(S[a.T], a.t0 + 3 * P(r) + c) for c in range(3)]
    def kp(s, a, m): return (a.k * a.i + P(m)) if s.host else (a.ko * P(m) + a.i)
    def kn(s, a, S, m): return rd(S[a.knn], s.kp(a, m))
    def dk(s, a, S, m): return rd(S[a.dknn], s.kp(a, m))
    def state(s, a, S): return rd(S[a.st], a.index)
    def X(s, a, S, q): return [rd(S[a.xyz], (3 * P(q) + c) if s.host else a.N * c + P(q)) for c in range(3)]
    def rv(s, a, name, hi, lo=0): return Var(name, [(a.T, a.t0, 3)], lo=lo, hi=hi, tags=['row'])
    def kv(s, a, name, lo=0, hi=None): return Var(name, [(r, s.kp(a, 0), 1 if s.host else a.ko) for r in (a.knn, a.dknn)], tags=['nb'], lo=lo, hi=a.k if hi is None else hi)
    def bis(s, a, q):
        x = s.X(a, a.E.S0, q)
        return [call('bisect%d' % c, x + a.p) for c in range(4)]
    def tri_ok(s, a, S, r, b):
        t = s.tri(a, S, r)
        return And(*[lt(x, b) for x in t], ne(t[0], t[1]), ne(t[1], t[2]), ne(t[0], t[2]))
    # ---- frames
    def krow(s, a, r, lo, hi):
        def pred(p):
            c = r.decode(p)
            return And(le(lo, c[0]), lt(c[0], hi), *([] if s.host else [eq(c[1], a.i)]))
        return (r, pred)
    def prow(s, a):
        if s.host: return (a.P, lambda p: And(le(4 * a.pm * a.i, p), lt(p, 4 * a.pm * a.i + 4 * a.pm)))
        return (a.P, lambda p: eq(a.P.decode(p)[2], a.i))
    def trow(s, a, lo=0): return (a.T, in_range(a.t0 + 3 * P(lo), 3 * a.tm - 3 * P(lo)))
    def drow(s, a): return (a.dR, in_range(a.d0, a.pm))
    def stc(s, a): return (a.st, lambda p: eq(p, a.index))
    def modifies(s, a, S): return [s.stc(a), s.prow(a), s.trow(a), s.drow(a), s.krow(a, a.knn, 0, a.k), s.krow(a, a.dknn, 0, a.k)]
    def pre(s, a, S):
        room = And(lt(3 * a.tm * a.i + 3 * a.tm, 2**31), lt(a.pm * a.li + a.pm, 2**31))
        if s.host: room = And(room, lt(4 * a.pm * a.i + 4 * a.pm, 2**31), lt(a.k * a.i + a.k, 2**31))
        else: room = And(room, ge(a.ko, 1), lt(a.i, a.ko), lt(a.ko * a.k + a.i, 2**31), lt(4 * a.ko * a.pm + 4 * a.ko, 2**31), lt(3 * a.N, 2**31), lt(3 * a.M, 2**31))
        a.knnok = Forall([s.kv(a, 'm')], lambda m: Or(eq(s.kn(a, S, m), UND), And(le(0, s.kn(a, S, m)), lt(s.kn(a, S, m), a.N))))
        return [('sizes', And(le(0, a.i), le(0, a.li), le(0, a.index), lt(a.index, a.M), le(0, a.k), le(a.k, 65535), le(0, a.pm), le(a.pm, 65535), le(0, a.tm), le(a.tm, 32767), room)),
                ('candidates are points or undefined', a.knnok),
                ('no plane belongs to a neighbour yet', Forall([s.kv(a, 'm')], lambda m: eq(s.dk(a, S, m), UND)))]
    # ---- the invariant of the cell between two neighbours
    def cell(s, a, S, nb, ps, ts):
        out = [('sizes', And(le(0, nb), le(nb, a.k), le(6, ps), le(ps, a.pm), le(ps, 255), le(0, ts), le(ts, a.tm))),
               ('triangles name three different planes', Forall([s.rv(a, 'r', ts)], lambda r: s.tri_ok(a, S, r, ps))),
               ('planes 0..5 are the unit cube', And(*[req(s.Pc(a, S, P(j), c), CUBE_P[j][c]) for j in range(6) for c in range(4)])),
               ('plane numbers of neighbours', Forall([s.kv(a, 'm')], lambda m: Or(eq(s.dk(a, S, m), UND), And(lt(m, nb), le(6, s.dk(a, S, m)), lt(s.dk(a, S, m), ps))))),
               ('each plane belongs to one neighbour', Forall([s.kv(a, 'm'), s.kv(a, 'n')], lambda m, n: Implies(And(lt(m, n), ne(s.dk(a, S, m), UND), ne(s.dk(a, S, n), UND)), lt(s.dk(a, S, m), s.dk(a, S, n))))),
               ('a plane is the bisector with its neighbour', Forall([s.kv(a, 'm')], lambda m: Implies(ne(s.dk(a, S, m), UND),
                    And(ne(s.kn(a, a.E.S0, m), UND), *[req(x, y) for x, y in zip(s.pl(a, S, s.dk(a, S, m)), s.bis(a, s.kn(a, a.E.S0, m)))])))),
               ('no error flag changes', s.state(a, S) & ~(8 | 64) == s.state(a, a.E.S0) & ~(8 | 64))]
        return out
    def trirows(s, a, n):
        def inrow(r, p):
            q, c = (p - a.t0).divide_by(P(3))
            return And(le(0, q), lt(q, n)), q
        g = Group('triangles', [a.T], lambda r, j: a.t0 + 3 * P(j), inrow, n)
        g.cols = [(a.T, lambda j, k=k: a.t0 + 3 * P(j) + k) for k in range(3)]
        g.src = [(a.T, a.t0, 3)]
        return g
    def nobody(s, a, S, r, m):
        return And(*[ne(x, s.dk(a, S, m)) for x in s.tri(a, S, r)])
    def mkloops(s):
        # ---------------- neighbours
        def nb_inv(a, L, S0, S, E0): return s.cell(a, S, L('neighbor'), L.nat('p_size'), L.nat('t_size'))
        def nb_pre(E, st, a, L, S0, S):
            T = [tuple(x.cval() if x.isconst() else None for x in s.tri(a, S, P(r))) for r in range(8)]
            rot = lambda t: {t, t[1:] + t[:1], t[2:] + t[:2]}
            ok = all(None not in t and any(x in CUBE_T for x in rot(t)) for t in T) and len({frozenset(t) for t in T}) == 8
            E.oblige(st, 'first cell is the unit cube', And(ok, eq(L.nat('t_size'), 8), eq(L.nat('p_size'), 6)), 'post')
            st.tag('row', P(0))
        def nb_after(E, st, a, L, S, inv):
            nb = L('neighbor')
            st.ghost.update(hdr=S, nb=nb, ps=L.nat('p_size'), ts=L.nat('t_size'), part=None, fan=None, asked=None, bstat=None, q=s.kn(a, S, nb))
            E.instantiate(st, a.knnok, nb); st.tag('nb', nb)
            for k in ('plane numbers of neighbours', 'a plane is the bisector with its neighbour'): pass
        def nb_hints(E, st, a, L, S0, S):
            s.step(E, st, a, S, L.nat('p_size'), L.nat('t_size'))
        def nb_mod(a, S0, e): return [s.stc(a), s.prow(a), s.trow(a), s.drow(a), s.krow(a, a.dknn, 0, a.k)]
        # ---------------- split the triangles by the new plane
        def measure(a, S, t):
            """vertex of the triangle t, its side of the bisector and its squared distance"""
            pls = sum((s.pl(a, S, x) for x in t), [])
            v = [call('intersect%d' % c, pls) for c in range(4)]
            return v
        def pt_pre(E, st, a, L, S0, S):
            H = st.ghost['hdr']
            if L.has('t_size'): E.oblige(st, 'every triangle is tested', eq(L.nat('t_size'), st.ghost['ts']), 'lemma')
            g = dict(cut=fresh_fn('cut', 3, BS), rad=fresh_fn('rad', 3, RS), H=Snap(st))
            st.ghost['m'] = g; S.ghost['m'] = g
        def pt_inv(a, L, S0, S, E0):
            g = S.ghost['m']; H = S.ghost['hdr']; N = S.ghost['ts']; ps = S.ghost['ps']
            ti, ts, rs = L('t_index'), L.nat('t_size'), L.nat('r_size'); sr = L('sradius')
            seen = lambda r: Or(lt(r, ti), ge(r, ts))
            return [('cursors', And(le(0, ti), le(ti, ts), eq(ts + rs, N), le(0, rs))),
                    ('triangles name three different planes', Forall([s.rv(a, 'r', N)], lambda r: s.tri_ok(a, S, r, ps))),
                    ('cut off exactly the vertices beyond the bisector', Forall([s.rv(a, 'r', N)], lambda r: And(Implies(lt(r, ti), Not(g['cut'](*s.tri(a, S, r)))), Implies(ge(r, ts), g['cut'](*s.tri(a, S, r)))))),
                    ('radius covers the vertices seen', And(rle(0, sr))),
                    ('radius covers every vertex seen', Forall([s.rv(a, 'r', N)], lambda r: Implies(seen(r), rle(g['rad'](*s.tri(a, S, r)), sr)))),
                    ('triangles only reordered', Perm(s.trirows(a, N), H, S, elim=False))]
        def pt_after(E, st, a, L, S, inv):
            g = st.ghost['m']; ti = L('t_index'); H = g['H']
            E.instantiate(st, inv['triangles name three different planes'], ti)
            t = s.tri(a, S, ti); v = measure(a, S, t)
            q = st.ghost['q']; b = s.bis(a, q)
            # definitions at the triangle under the cursor
            st.hyps.append(Iff(g['cut'](*t), rlt(0, call('dot', v + b))))
            st.hyps.append(req(g['rad'](*t), call('dist', a.p + v[:3])))
            st.ghost['part'] = NS(S=S, ti=ti, ts=L.nat('t_size'), rs=L.nat('r_size'), sr=L('sradius'), inv=inv)
            N = st.ghost['ts']
            def cover(args, S2):
                x = s.X(a, E.S0, q)
                pt = st.ghost['part'] if False else S2.ghost['part']
                same = And(*[req(u, w) for u, w in zip(args[:6], a.p + x)])
                return [('asked for this point and this neighbour', same),
                        ('radius covers every vertex of the cell', Forall([s.rv(a, 'r', N)], lambda r: rle(g['rad'](*s.tri(a, pt.S, r)), args[6])))]
            st.ghost['cover'] = cover
            st.tag('row', ti)
        def pt_hints(E, st, a, L, S0, S): st.tag('row', L('t_index')); st.tag('row', L.nat('t_size'))
        # ---------------- reset the edge list
        def fl_inv(a, L, S0, S, E0):
            j = L('j')
            return [('cursor', And(le(0, j), le(j, a.pm))), ('reset so far', Forall([Var('e', [(a.dR, a.d0, 1)], tags=['plane'], lo=0, hi=j)], lambda e: eq(rd(S[a.dR], a.d0 + e), 255)))]
        def fl_pre(E, st, a, L, S0, S):
            st.ghost['plane_bound'] = st.ghost['ps']
        # ---------------- join the boundary to the new plane
        def head(L, S): return L('head') if L.has('head') else B.head_value(S.ghost['bhead'], S)
        def fan_pre(E, st, a, L, S0, S):
            gh = st.ghost
            f = NS(ts0=L.nat('t_size'), first=head(L, S), pos=gh['pos'], prd=gh['prd'], n=gh['n'], D=S, new=gh['ps'])
            gh['fan'] = f; S.ghost['fan'] = f
            st.tag('plane', f.first)
        def cyc(a, S, e): return rd(S[a.dR], a.d0 + P(e))
        def wrap(f, m): return ite(lt(f.pos(f.first) + m, f.n), f.pos(f.first) + m, f.pos(f.first) + m - f.n)
        def fan_row(a, f, S, r):
            """row r of the fan: the edge number r-ts0 of the cycle, joined to the new plane"""
            t = s.tri(a, S, r)
            return And(lt(t[0], f.new), lt(t[1], f.new), ne(t[0], t[1]), eq(t[2], f.new), ne(cyc(a, f.D, t[0]), 255), eq(t[1], cyc(a, f.D, t[0])), eq(f.pos(t[0]), wrap(f, P(r) - f.ts0)))
        def fan_inv(a, L, S0, S, E0):
            f = S.ghost['fan']; ts, h = L.nat('t_size'), head(L, S); q = ts - f.ts0
            return [('cursor', And(le(0, q), lt(q, f.n), le(ts, a.tm))),
                    ('head is on the cycle', And(le(0, h), lt(h, f.new), ne(cyc(a, S, h), 255), eq(f.pos(h), wrap(f, q)))),
                    ('one triangle per boundary edge', Forall([s.rv(a, 'r', ts, f.ts0)], lambda r: fan_row(a, f, S, r)))]
        def fan_after(E, st, a, L, S, inv):
            h = head(L, S); f = st.ghost['fan']
            for x in st.hyps:
                if isinstance(x, Forall) and getattr(x, 'cyc', False): E.instantiate(st, x, h)
            st.tag('plane', h); st.tag('plane', cyc(a, S, h)); st.tag('row', L.nat('t_size'))
            bc = B.evar
            na = NS(C=a.dR, c0=a.d0, nd=a.pm, B=f.new)
            facts = dict(B.cycle_facts(na, S, dict(pos=f.pos, prd=f.prd, n=f.n)))
            for e in (h, f.first):
                for k in ('entries: undefined or a plane that is itself in the cycle', 'every plane of the cycle has a predecessor'):
                    E.instantiate(st, facts[k], e)
            E.instantiate(st, facts['one cycle'], cyc(a, S, h), f.first)
        # ---------------- keep the neighbours whose plane is left
        def bound_reg(E, f, h, role_reg):
            """the loop-invariant operand of the loop's exit comparison"""
            defs = {i.res: i for b in f.order for i in f.blocks[b] if i.res}
            for b in f.loops[h]:
                for i in f.blocks[b]:
                    if i.op != 'icmp': continue
                    def rt(v, d=0):
                        if not isinstance(v, Reg): return None
                        x = defs.get(v.n)
                        if x is not None and x.op in ('zext', 'sext', 'trunc') and d < 4: return rt(x.a[0], d + 1)
                        return v.n
                    l, r = rt(i.a[0]), rt(i.a[1])
                    if l == role_reg and r: return r
                    if r == role_reg and l: return l
            return None
        def ft_pre(E, st, a, L, S0, S):
            # the number of triangles of the finished cell
            hs = [h for h, sp in E.loopspec.items() if sp.name == 'match']
            ph = [i.res for i in E.f.blocks[hs[0]] if i.op == 'phi']
            regs = [r for r in (bound_reg(E, E.f, hs[0], x) for x in ph) if r]
            if not regs or regs[0] not in st.env: raise Unsupported('number of triangles in the last loop')
            v = st.env[regs[0]]
            ts = E.unsigned(st, v) if v.n < 32 else E.signed(st, v)
            st.ghost['ts1'] = ts
            wit = ifn('wit'); w = Poly.fresh('w')
            st.ghost.update(wit=wit, w=w)
            # why clipping stopped
            b0, b1 = s.state(a, S0), s.state(a, S)
            if st.ghost.get('part') is None:
                E.oblige(st, 'stops only at the end of the valid candidates', Or(ge(st.ghost['nb'], a.k), eq(st.ghost['q'], UND)), 'post')
                E.oblige(st, 'security radius flag is set only when the test held', b1 & 1 == b0 & 1, 'post')
            elif st.ghost.get('asked') is None:
                if not any(i.op == 'call' and 'is_reached' in i.x['callee'] for b in E.f.blocks.values() for i in b): raise Unsupported('security radius test')
                E.oblige(st, 'stops early only when the security radius is reached', FALSE, 'post')
            else:
                E.oblige(st, 'stops early only when the security radius is reached', st.ghost['asked'], 'post')
                E.oblige(st, 'security radius flag says that the radius was reached', b1 & 1 == 1, 'post')
            if st.ghost.get('part') is not None: s.step(E, st, a, S, None, ts)
            else: E.oblige(st, 'the finished cell is the last one', eq(ts, st.ghost['ts']), 'post')
            na, H = a, S
            # the cell handed to the last part
            st.ghost['fin'] = S; S.ghost.update(st.ghost)
            st.hyps.append(And(le(0, ts), le(ts, a.tm))) if E.implied(st, And(le(0, ts), le(ts, a.tm)), 2000) else E.oblige(st, 'number of triangles', And(le(0, ts), le(ts, a.tm)), 'lemma')
        def match(a, S, r, m): return Not(s.nobody(a, S, r, m))
        def ft_inv(a, L, S0, S, E0):
            d = L('di'); g = S.ghost; ts = g['ts1']; wit = g['wit']
            K0 = lambda m: s.kn(a, S0, m); K = lambda m: s.kn(a, S, m)
            return [('cursor', And(le(0, d), le(d, a.k))),
                    ('kept neighbours bound a triangle', Forall([s.kv(a, 'm')], lambda m: Implies(And(lt(m, d), ne(K(m), UND)), And(eq(K(m), K0(m)), le(0, wit(m)), lt(wit(m), ts), match(a, S, wit(m), m))))),
                    ('dropped neighbours bound none', Forall([s.kv(a, 'm'), s.rv(a, 'r', ts)], lambda m, r: Implies(And(lt(m, d), eq(K(m), UND), ne(K0(m), UND)), s.nobody(a, S, r, m)))),
                    ('others not looked at yet', Forall([s.kv(a, 'm')], lambda m: Implies(ge(m, d), eq(K(m), K0(m)))))]
        def ft_ghost(E, st): st.ghost['wit'] = ifn('wit')
        def ft_after(E, st, a, L, S, inv):
            d = L('di'); E.instantiate(st, inv['others not looked at yet'], d); st.tag('nb', d); st.ghost['di'] = d
        def ft_hints(E, st, a, L, S0, S):
            d = st.ghost['di']; w = st.ghost['w']; ts = st.ghost['ts1']; wit = st.ghost['wit']
            try: ti = LoopView(E, st, [c for h, c in st.loopctx.items() if E.loopspec[h].name == 'match'][0].roles, None)('ti')
            except (IndexError, Unsupported, KeyError): ti = w
            wf = ite(And(le(0, ti), lt(ti, ts), match(a, S, ti, d)), ti, w)
            S.ghost['wit'] = lambda m: ite(eq(m, d), wf, wit(m))
            st.tag('row', wf); st.tag('row', w); st.tag('row', ti)
        def mt_inv(a, L, S0, S, E0):
            ti = L('ti'); d = S.ghost['di']; ts = S.ghost['ts1']; w = S.ghost['w']
            none = lambda c: Forall([s.rv(a, 'r', ts)], lambda r: Implies(And(c, lt(r, ti)), s.nobody(a, S, r, d)))
            out = [('cursor', And(le(0, ti), le(ti, ts)))]
            if L.has('flag'):
                f = L('flag')
                if not isinstance(f, z3.BoolRef): out.append(('a flag', And(le(0, f), le(f, 1)))); f = ne(f, 0)
                out += [('no triangle so far', none(f)), ('a triangle was found', Or(f, And(le(0, w), lt(w, ti), match(a, S, w, d))))]
            else: out.append(('no triangle so far', none(TRUE)))
            return out
        def mt_ghost(E, st): st.ghost['w'] = Poly.fresh('w')
        def mt_hints(E, st, a, L, S0, S):
            ctx = [c for h, c in st.loopctx.items() if E.loopspec[h].name == 'match'][0]
            w = st.ghost['w']; ti = E.signed(st, ctx.env[ctx.roles['ti']])
            if 'flag' in ctx.roles:
                f = ctx.env[ctx.roles['flag']]; f = f.c if isinstance(f, BoolV) else ne(f.p, 0)
                S.ghost['w'] = ite(f, ti, w)
            st.tag('row', ti)
        # ---------------- close the gaps
        def cp_pre(E, st, a, L, S0, S):
            st.ghost['F'] = S
            S.ghost.update(src=lambda j: P(j), rank=lambda m: P(m)); st.ghost.update(src=S.ghost['src'], rank=S.ghost['rank'])
            S.ghost['F'] = S
        def cp_ghost(E, st): st.ghost.update(src=ifn('src'), rank=ifn('rank'))
        def cp_facts(a, S, F, d, c):
            src, rank = S.ghost['src'], S.ghost['rank']; K = lambda j: s.kn(a, S, j); Fk = lambda m: s.kn(a, F, m)
            return [('kept so far, in order', Forall([s.kv(a, 'j', 0, c)], lambda j: And(le(j, src(j)), lt(src(j), d), ne(Fk(src(j)), UND), eq(K(j), Fk(src(j))), eq(rank(src(j)), j)))),
                    ('order preserved', Forall([s.kv(a, 'i', 0, c), s.kv(a, 'j', 0, c)], lambda i, j: Implies(lt(i, j), lt(src(i), src(j))))),
                    ('none forgotten', Forall([s.kv(a, 'm', 0, d)], lambda m: Implies(ne(Fk(m), UND), And(le(0, rank(m)), lt(rank(m), c), eq(src(rank(m)), m)))))]
        def cp_inv(a, L, S0, S, E0):
            d, c = L('di'), L('dnn_counter'); F = S.ghost['F']
            return [('cursors', And(le(0, c), le(c, d), le(d, a.k)))] + cp_facts(a, S, F, d, c) + [
                    ('rest not moved yet', Forall([s.kv(a, 'm')], lambda m: Implies(ge(m, d), eq(s.kn(a, S, m), s.kn(a, F, m)))))]
        def cp_after(E, st, a, L, S, inv):
            d, c = L('di'), L('dnn_counter')
            E.instantiate(st, inv['rest not moved yet'], d); st.tag('nb', d); st.tag('nb', c)
            st.ghost['count'] = c; st.ghost['cd'] = d; S.ghost.update(count=c)
        def cp_hints(E, st, a, L, S0, S):
            c0 = st.ghost['count']; d0 = st.ghost['cd']; src, rank = st.ghost['src'], st.ghost['rank']
            kept = gt(L('dnn_counter'), c0)
            S.ghost['src'] = lambda j: ite(And(kept, eq(j, c0)), d0, src(j)); S.ghost['rank'] = lambda m: ite(And(kept, eq(m, d0)), c0, rank(m))
        def pd_inv(a, L, S0, S, E0):
            d = L('di'); c = S.ghost['count']
            return [('cursor', And(le(c, d), le(d, a.k))), ('tail is undefined', Forall([s.kv(a, 'm', 0)], lambda m: Implies(And(le(c, m), lt(m, d)), eq(s.kn(a, S, m), UND))))]
        def pd_pre(E, st, a, L, S0, S): st.ghost['C'] = S
        nothing = lambda a, S0, e: []
        s.cp_facts = cp_facts; s.fan_row = fan_row
        return [LoopSpec('neighbor', ['neighbor', 'p_size', 't_size'], nb_inv, lambda a, L, S: [a.k - L('neighbor')], modifies=nb_mod, pre_hints=nb_pre, after=nb_after, hints=nb_hints),
                LoopSpec('partition', ['t_index', 't_size', 'r_size', 'sradius'], pt_inv, lambda a, L, S: [L.nat('t_size') - L('t_index')], modifies=lambda a, S0, e: [s.trow(a)], pre_hints=pt_pre, after=pt_after, hints=pt_hints),
                LoopSpec('fill', ['j'], fl_inv, lambda a, L, S: [a.pm - L('j')], modifies=lambda a, S0, e: [s.drow(a)], pre_hints=fl_pre),
                LoopSpec('fan', ['t_size', 'head?'], fan_inv, lambda a, L, S: [a.tm - L.nat('t_size')], modifies=lambda a, S0, e: [s.trow(a, e.ghost['fan'].ts0)], pre_hints=fan_pre, after=fan_after),
                LoopSpec('filter', ['di'], ft_inv, lambda a, L, S: [a.k - L('di')], modifies=lambda a, S0, e: [s.krow(a, a.knn, 0, a.k)], pre_hints=ft_pre, after=ft_after, hints=ft_hints, ghost=ft_ghost),
                LoopSpec('match', ['ti', 'flag?'], mt_inv, lambda a, L, S: [S.ghost['ts1'] - L('ti')], modifies=nothing, hints=mt_hints, ghost=mt_ghost),
                LoopSpec('compaction', ['di', 'dnn_counter'], cp_inv, lambda a, L, S: [a.k - L('di')], modifies=lambda a, S0, e: [s.krow(a, a.knn, 0, a.k)], pre_hints=cp_pre, after=cp_after, hints=cp_hints, ghost=cp_ghost),
                LoopSpec('pad', ['di'], pd_inv, lambda a, L, S: [a.k - L('di')], modifies=lambda a, S0, e: [s.krow(a, a.knn, e.ghost['count'], a.k)], pre_hints=pd_pre)]
    def step(s, E, st, a, S, ps, ts):
        """one neighbour processed: what the cell became"""
        gh = st.ghost; pt, f, H = gh['part'], gh['fan'], gh['hdr']; N = gh['ts']; m = gh['m']
        row = lambda r: s.rv(a, 'r', r)
        E.oblige(st, 'step: every triangle was tested', ge(pt.ti, pt.ts), 'post')
        if f is None:
            E.oblige(st, 'step: a bisector that cuts nothing changes nothing', And(eq(pt.rs, 0), eq(ts, N), *([eq(ps, gh['ps'])] if ps is not None else [])), 'post')
            return
        E.oblige(st, 'step: kept triangles stay', Forall([s.rv(a, 'r', pt.ts)], lambda r: And(*[eq(x, y) for x, y in zip(s.tri(a, S, r), s.tri(a, pt.S, r))])), 'post')
        E.oblige(st, 'step: one new triangle per boundary edge', And(eq(ts, pt.ts + f.n), gt(pt.rs, 0), *([eq(ps, gh['ps'] + 1)] if ps is not None else [])), 'post')
        E.oblige(st, 'step: new triangles join the boundary to the new plane', Forall([s.rv(a, 'r', ts, pt.ts)], lambda r: s.fan_row(a, f, S, r)), 'post')
        b = s.bis(a, gh['q'])
        E.oblige(st, 'step: new plane is the bisector', And(*[req(x, y) for x, y in zip(s.pl(a, S, gh['ps']), b)], eq(s.dk(a, S, gh['nb']), gh['ps'])), 'post')
    def on_exit(s, E, st, a): pass
    def post(s, a, S0, S1, ret):
        b0, b1 = s.state(a, S0), s.state(a, S1)
        same = Forall([s.kv(a, 'm')], lambda m: eq(s.kn(a, S1, m), s.kn(a, S0, m)))
        bit = lambda n: (b1 & NAMES[n]) != 0
        g = S1.ghost
        if 'C' not in g:
            small = And(Implies(lt(a.pm, 6), bit('POV')), Implies(lt(a.tm, 8), bit('TOV')))
            pt, fan, bs = g.get('part'), g.get('fan'), g.get('bstat')
            new = lambda n: And(bit(n), (b0 & NAMES[n]) == 0)
            why = [('error exit: planes overflow only when there is no room', Implies(new('POV'), Or(lt(a.pm, 6), And(gt(pt.rs, 0), Or(ge(g['ps'], a.pm), ge(g['ps'], 255))) if pt is not None else FALSE))),
                   ('error exit: triangles overflow only when there is no room', Implies(new('TOV'), Or(lt(a.tm, 8), gt(fan.ts0 + fan.n, a.tm) if fan is not None else FALSE))),
                   ('error exit: boundary failure only when there was one', Implies(new('INF'), ne(bs, 0) if bs is not None else FALSE)),
                   ('error exit: the security radius is not reported reached', b1 & 1 == b0 & 1)]
            return why + [('error exit: candidates untouched', same), ('error exit: flag says why', Or(bit('POV'), bit('TOV'), And(bit('INF'), bit('OCC')))), ('error exit: capacity below the unit cube', small),
                    ('error exit: no other flag changes', b1 & 4 == b0 & 4), ('flags other than the per-neighbour ones are only added', b0 & ~b1 & ~72 == 0)]
        c = g['count']; F, fin = g['F'], g['fin']; ts, wit = g['ts1'], g['wit']
        K1 = lambda j: s.kn(a, S1, j); K0 = lambda j: s.kn(a, S0, j); src, rank = g['src'], g['rank']
        bounds = lambda m: And(le(0, wit(m)), lt(wit(m), ts), Not(s.nobody(a, S1, wit(m), m)))
        return [('result: neighbours first, in candidate order', Forall([s.kv(a, 'j', 0, c)], lambda j: And(le(0, src(j)), lt(src(j), a.k), eq(K1(j), K0(src(j))), ne(K1(j), UND)))),
                ('result: order preserved', Forall([s.kv(a, 'i', 0, c), s.kv(a, 'j', 0, c)], lambda i, j: Implies(lt(i, j), lt(src(i), src(j))))),
                ('result: rest is undefined', Forall([s.kv(a, 'm')], lambda m: Implies(ge(m, c), eq(K1(m), UND)))),
                ('result: each neighbour bounds a triangle of the cell', Forall([s.kv(a, 'j', 0, c)], lambda j: bounds(src(j)))),
                ('result: every candidate that bounds a triangle is a neighbour', Forall([s.kv(a, 'm'), s.rv(a, 'r', ts)], lambda m, r: Implies(And(ne(K0(m), UND), Not(s.nobody(a, S1, r, m))), And(le(0, rank(m)), lt(rank(m), c), eq(src(rank(m)), m))))),
                ('result: planes are bisectors', Forall([s.kv(a, 'm')], lambda m: Implies(ne(s.dk(a, S1, m), UND), And(*[req(x, y) for x, y in zip(s.pl(a, S1, s.dk(a, S1, m)), s.bis(a, K0(m)))])))),
                ('result: only the security flag may change', b1 & ~(1 | 8 | 64) == b0 & ~(1 | 8 | 64)), ('flags other than the per-neighbour ones are only added', b0 & ~b1 & ~72 == 0)]

def contracts(): return [CC('host'), CC('device')] + pures() + [B.BoundaryCompute('host'), B.BoundaryCompute('device')]
