"""Loop-free functions: utils (C18), planes / distance (C06), sr (C07), status bits (C08)."""
from lib import *
from run import *
F32, F64 = z3.Float32(), z3.Float64()

class Leaf(Contract):
    """args: string of kinds per parameter: f/d float, i int32, b bv8, p:<kind> pointer to one value"""
    def __init__(s, name, fn, params, post, pre=None, mode='real', hints=None, timeout=20000, bvints=False):
        s.name, s.fn, s.params, s._post, s._pre, s.mode, s._hints, s.timeout, s.bvints = name, fn, params.split(), post, pre, mode, hints, timeout, bvints
    def one(s, E, st, k, j):
        nm = 'x%d' % j
        if k in ('f', 'd'):
            if s.mode == 'fp': return z3.FP(poly.fresh_name(nm), F32 if k == 'f' else F64)
            return RP.term(z3.Real(poly.fresh_name(nm)))
        if k == 'i': return ivar(E, nm, 32, -2**31, 2**31 - 1)
        if k == 'b': return BVV(z3.BitVec(poly.fresh_name(nm), 8), 8)
        if k == 'B': return BVV(z3.BitVec(poly.fresh_name(nm), 32), 32)
        raise Unsupported(k)
    def make(s, E, st, f):
        out = []
        for j, k in enumerate(s.params):
            if k[0] == 'p':
                out.append(struct_ptr(st, 'obj%d' % j, [(0, s.one(E, st, k[1], j))]))
            else: out.append(s.one(E, st, k, j))
        return out
    def bind(s, E, st, args):
        a = NS(args=args, E=E, st=st); return a
    def val(s, a, S, j):
        v = a.args[j]
        return S.cells.get((v.r, v.off.cval())) if isinstance(v, PtrV) else v
    def pre(s, a, S): return s._pre(lambda j: s.val(a, S, j)) if s._pre else []
    def modifies(s, a, S): return [(v.r, None) for v in a.args if isinstance(v, PtrV)]
    def on_exit(s, E, st, a):
        if s._hints: s._hints(E, st, lambda j: s.val(a, E.S0, j))
    def post(s, a, S0, S1, ret): return s._post(lambda j: s.val(a, S0, j), lambda j: s.val(a, S1, j), ret)

def finite(v, *js): return [('finite', And(*[Not(Or(z3.fpIsInf(v(j)), z3.fpIsNaN(v(j)))) for j in js]))]
def isv(a, b): return z3.fpEQ(a, b)

def minmax():
    out = []
    for nm, cmp in (('bmax', z3.fpGEQ), ('bmin', z3.fpLEQ)):
        out.append(Leaf('utils::%s<float>' % nm, r'utils::%s<float>\(float, float\)' % nm, 'f f',
            lambda o, n, r, cmp=cmp: [('one of the arguments', Or(isv(r, o(0)), isv(r, o(1)))), ('bounds both', And(cmp(r, o(0)), cmp(r, o(1))))],
            lambda v: finite(v, 0, 1), mode='fp'))
        out.append(Leaf('utils::%s<float,3>' % nm, r'utils::%s<float>\(float, float, float\)' % nm, 'f f f',
            lambda o, n, r, cmp=cmp: [('one of the arguments', Or(isv(r, o(0)), isv(r, o(1)), isv(r, o(2)))), ('bounds all', And(cmp(r, o(0)), cmp(r, o(1)), cmp(r, o(2))))],
            lambda v: finite(v, 0, 1, 2), mode='fp'))
        out[-1].needs = nm
        ic = ge if nm == 'bmax' else le
        sg = lambda x: x.p
        out.append(Leaf('utils::%s<int>' % nm, r'utils::%s<int>\(int, int\)' % nm, 'i i',
            lambda o, n, r, ic=ic: [('one of the arguments', Or(eq(r.p, o(0).p), eq(r.p, o(1).p))), ('bounds both', And(ic(r.p, o(0).p), ic(r.p, o(1).p)))]))
        out.append(Leaf('utils::%s<int,3>' % nm, r'utils::%s<int>\(int, int, int\)' % nm, 'i i i',
            lambda o, n, r, ic=ic: [('one of the arguments', Or(*[eq(r.p, o(j).p) for j in range(3)])), ('bounds all', And(*[ic(r.p, o(j).p) for j in range(3)]))]))
    return out

def powers():
    out = []
    for t, k in (('float', 'f'), ('double', 'd')):
        out.append(Leaf('utils::square<%s>' % t, r'utils::square<%s>\(' % t, k, lambda o, n, r: [('x*x', req(r, o(0) * o(0)))]))
        out.append(Leaf('utils::cube<%s>' % t, r'utils::cube<%s>\(' % t, k, lambda o, n, r: [('x*x*x', req(r, o(0) * o(0) * o(0)))]))
    return out

def fmod_hints(E, st, v):
    """r = x - q*y with q = trunc(x/y): multiply the bounds of q by |y|"""
    x, y = v(0), v(1); q = st.ghost.get('trunc')
    if q is None: return
    # x = y*t (t = x/y), frac = t - q in (-1,1) with the sign of t: y*frac is the remainder
    t = st.ghost['trunc_arg']
    pr = y * (t - q)
    st.hyps.append(Implies(Not(req(y, 0)), req(y * t, x)))
    # sign and size of a product (lemma instances of real arithmetic)
    f = t - q
    st.hyps += [Implies(And(rlt(0, y), rle(0, f), rlt(f, 1)), And(rle(0, pr), rlt(pr, y))),
                Implies(And(rlt(0, y), rle(f, 0), rlt(-1, f)), And(rle(pr, 0), rlt(-y, pr))),
                Implies(And(rlt(y, 0), rle(0, f), rlt(f, 1)), And(rle(pr, 0), rlt(y, pr))),
                Implies(And(rlt(y, 0), rle(f, 0), rlt(-1, f)), And(rle(0, pr), rlt(pr, -y)))]
    # sign of t from the signs of x and y (x = y*t)
    st.hyps += [Implies(And(rlt(0, y), rle(0, x)), rle(0, t)), Implies(And(rlt(0, y), rle(x, 0)), rle(t, 0)),
                Implies(And(rlt(y, 0), rle(0, x)), rle(t, 0)), Implies(And(rlt(y, 0), rle(x, 0)), rle(0, t))]

class Fmod(Leaf):
    def __init__(s, t, k):
        super().__init__('utils::bfmod<%s>' % t, r'utils::bfmod<%s>\(' % t, k + ' ' + k, None, lambda v: [('nonzero', Not(req(v(1), 0)))], hints=fmod_hints)
    def post(s, a, S0, S1, ret):
        x, y = a.args; q = a.st2.ghost.get('trunc')
        ay = rite(rle(0, y), y, -y)
        if q is None: raise Unsupported('bfmod without a rounding to an integer')
        return [('differs from x by a whole multiple of y', req(ret, x - q * y)), ('smaller than |y|', And(rlt(ret, ay), rlt(-ay, ret))),
                ('sign of x', And(Implies(rle(0, x), rle(0, ret)), Implies(rle(x, 0), rle(ret, 0))))]
    def on_exit(s, E, st, a): a.st2 = st; super().on_exit(E, st, a)

def swaps():
    def p(e): return lambda o, n, r: [('first gets second', e(n(0), o(1))), ('second gets first', e(n(1), o(0)))]
    ie = lambda a, b: eq(a.p, b.p) if isinstance(a, IntV) else a.t == b.t
    return [Leaf('utils::swap<int>', r'utils::swap<int>', 'pi pi', p(ie)), Leaf('utils::swap<uint8_t>', r'utils::swap<unsigned char>', 'pb pb', p(ie)),
            Leaf('utils::swap<float>', r'utils::swap<float>', 'pf pf', p(lambda a, b: a == b), mode='fp')]

# ---- geometry (ideal arithmetic)
def det(v):
    a1, b1, c1, d1, a2, b2, c2, d2, a3, b3, c3, d3 = [v(4 + j) for j in range(12)]
    return a1 * (b2 * c3 - b3 * c2) - b1 * (a2 * c3 - a3 * c2) + c1 * (a2 * b3 - a3 * b2)
def isect_hints(E, st, v):
    d = det(v); inv = RP.term(rpoly.RDIV(z3.RealVal(1), d.t()))
    # multiply det*inv = 1 by the offsets
    for m in (v(7), v(11), v(15)): st.hyps.append(Implies(And(Not(req(d, 0)), req(d * inv, 1)), req(m * d * inv, m)))
def isect_post(o, n, r):
    d = det(o); nz = Not(req(d, 0))
    on = lambda k: req(o(4 * k) * n(0) + o(4 * k + 1) * n(1) + o(4 * k + 2) * n(2) + o(4 * k + 3), 0)
    return [('on plane %d' % k, Implies(nz, on(k))) for k in (1, 2, 3)] + [
            ('degenerate gives the origin', Implies(req(d, 0), And(req(n(0), 0), req(n(1), 0), req(n(2), 0)))),
            ('homogeneous coordinate', req(n(3), 1))]
def bis_post(o, n, r):
    X = [rvar('X%d' % j) for j in range(3)]
    p = [o(4 + j) for j in range(3)]; q = [o(7 + j) for j in range(3)]
    val = n(0) * X[0] + n(1) * X[1] + n(2) * X[2] + n(3)
    d = lambda a: sum(((X[j] - a[j]) * (X[j] - a[j]) for j in range(3)), RP.const(0))
    mid = [(p[j] + q[j]) * RP.const('1/2') for j in range(3)]
    at = lambda a: n(0) * a[0] + n(1) * a[1] + n(2) * a[2] + n(3)
    dpq = sum(((p[j] - q[j]) * (p[j] - q[j]) for j in range(3)), RP.const(0))
    return [('normal is the difference', And(*[req(n(j), p[j] - q[j]) for j in range(3)])), ('through the midpoint', req(at(mid), 0)),
            ('value is half the difference of squared distances, for every point', req(val * 2, d(q) - d(p))),
            ('first point on the positive side', req(at(p) * 2, dpq))]
def dist(o, b=0):
    return sum(((o(b + j) - o(b + 3 + j)) * (o(b + j) - o(b + 3 + j)) for j in range(3)), RP.const(0))

def planes():
    l = planes_()
    l[0].fork_select = True
    return l
def planes_():
    return [Leaf('planes::intersect', r'planes::intersect<float>', 'pf pf pf pf ' + 'f ' * 12, isect_post, hints=isect_hints),
            Leaf('planes::dot', r'planes::dot<float>', 'f ' * 8, lambda o, n, r: [('plane at point', req(r, sum((o(j) * o(4 + j) for j in range(4)), RP.const(0))))]),
            Leaf('planes::bisect', r'planes::bisect<float>', 'pf pf pf pf ' + 'f ' * 6, bis_post),
            Leaf('xyzset::get_distance', r'xyzset::get_distance<float>', 'f ' * 6, lambda o, n, r: [('squared Euclidean distance', req(r, dist(o)))])]

def reach_post(o, n, r):
    d = dist(o); R2 = o(6)
    # for every vertex v within the radius and every point f at least as far as the neighbour: v is strictly nearer to p than to f
    p = [o(j) for j in range(3)]; v = [rvar('v%d' % j) for j in range(3)]; f = [rvar('f%d' % j) for j in range(3)]
    sq = lambda a, b: sum(((a[j] - b[j]) * (a[j] - b[j]) for j in range(3)), RP.const(0))
    w = [(f[j] - p[j]) - (v[j] - p[j]) * 2 for j in range(3)]
    sos = sum((x * x for x in w), RP.const(0))           # a sum of squares is not negative
    return [('reached exactly beyond four times the radius', Iff(r.c, rlt(R2 * 4, d))),
            ('no farther point cuts a vertex within the radius',
             Implies(And(rle(0, sos), r.c, rle(sq(v, p), R2), rle(d, sq(f, p))), rlt(sq(v, p), sq(v, f))))]
def sradius():
    return [Leaf('sr::update', r'sr::update<float>', 'f ' * 7, lambda o, n, r: [('maximum of radius and distance', And(rle(o(6), r), rle(dist(o), r), Or(req(r, o(6)), req(r, dist(o)))))]),
            Leaf('sr::is_reached', r'sr::is_reached<float>', 'f ' * 7, reach_post)]

# ---- status bits (bit-precise)
def bit(v, k): return z3.Extract(k, k, v.t) == 1
def isat(v, k): return v.t == k
NB = 8
def at_bit(v, s): return Or(*[And(isat(s, k), bit(v, k)) for k in range(NB)])
def flag(v): return [('a flag', z3.ULT(v(1).t, 7))]
def status():
    st = r'cc::state::'
    return [
        Leaf('cc::state::state', st + r'state\(', 'pb', lambda o, n, r: [('no flag set', n(0).t == 0) if isinstance(n(0), BVV) else ('no flag set', eq(n(0).p, 0))]),
        Leaf('cc::state::get', st + r'get\(', 'pb b', lambda o, n, r: [('the flag', Iff(r.c, at_bit(o(0), o(1)))), ('changes nothing', n(0).t == o(0).t)], flag),
        Leaf('cc::state::set_true', st + r'set_true\(', 'pb b', lambda o, n, r: [('flag %d' % k, Iff(bit(n(0), k), Or(isat(o(1), k), bit(o(0), k)))) for k in range(NB)], flag),
        Leaf('cc::state::set_false', st + r'set_false\(', 'pb b', lambda o, n, r: [('flag %d' % k, Iff(bit(n(0), k), And(Not(isat(o(1), k)), bit(o(0), k)))) for k in range(NB)], flag),
        Leaf('cc::state::reset', st + r'reset\(', 'pb', lambda o, n, r: [('no flag set', n(0).t == 0) if isinstance(n(0), BVV) else ('no flag set', eq(n(0).p, 0))]),
    ]
def edge(v): return [('an edge', z3.ULT(v(1).t, 3)), ('a record', z3.ULT(v(0).t, 8))]
def rec8(v): return [('a record', z3.ULT(v(0).t, 8))]
def asint(r, k): return r.t == k if isinstance(r, BVV) else eq(r.p, k)
def vstatus():
    st = r'boundary::vstatus::'
    def count(o, n, r):
        c = z3.Sum([z3.If(bit(o(0), k), 1, 0) for k in range(3)])
        return [('number of marked edges', Or(*[And(c == k, asint(r, k)) for k in range(4)])), ('changes nothing', n(0).t == o(0).t)]
    def pos(o, n, r):
        b = [bit(o(0), k) for k in range(3)]
        out = []
        for k in range(3):
            one = And(b[k], Not(b[(k + 1) % 3]), Not(b[(k + 2) % 3])); two = And(Not(b[k]), b[(k + 1) % 3], b[(k + 2) % 3])
            out.append(('attached at edge %d' % k, Implies(one, asint(r, k)))); out.append(('free edge %d' % k, Implies(two, asint(r, (k + 0) % 3))))
        return out + [('changes nothing', n(0).t == o(0).t)]
    return [Leaf('boundary::vstatus::vstatus', st + r'vstatus\(', 'pb', lambda o, n, r: [('no edge marked', n(0).t == 0) if isinstance(n(0), BVV) else ('no edge marked', eq(n(0).p, 0))]),
            Leaf('boundary::vstatus::get', st + r'get\(', 'pb B', lambda o, n, r: [('the edge', And(*[Implies(And(isat(o(1), k)), Or(And(bit(o(0), k), asint(r, 1)), And(Not(bit(o(0), k)), asint(r, 0)))) for k in range(3)])), ('changes nothing', n(0).t == o(0).t)], edge),
            Leaf('boundary::vstatus::set_true', st + r'set_true\(', 'pb B', lambda o, n, r: [('edge %d' % k, Iff(bit(n(0), k), Or(isat(o(1), k), bit(o(0), k)))) for k in range(8)], edge),
            Leaf('boundary::vstatus::get_nshared_edges', st + r'get_nshared_edges\(', 'pb', count, rec8),
            Leaf('boundary::vstatus::get_shared_position', st + r'get_shared_position\(', 'pb', pos, rec8)]

def contracts(): return minmax() + powers() + [Fmod('float', 'f'), Fmod('double', 'd')] + swaps() + planes() + sradius() + status() + vstatus()
