"""C03 (and C12): heap::swap is inlined; heap::maxheapify and heap::sort under contract, all three memory layouts."""
from lib import *
from run import *

BIG = 2**30

class Layout:
    """where row entry j lives"""
    def __init__(s, kind): s.kind = kind
    rx = {'vec': r'\(std::vector<int', 'acc': r'\(sycl::accessor<int.*unsigned long\)', 'dev': r'\(sycl::accessor<int.*, int\)'}

def row(a, j):  # physical index of entry j
    return a.s * P(j) + a.i if a.kind == 'dev' else a.h0 + P(j)
def pqat(a, S, j): return rd(S[a.pq], row(a, j))
def rowvar(a, name, lo, hi, extra=()):
    src = [(a.pq, a.i, a.s), (a.id, a.i, a.s)] if a.kind == 'dev' else [(a.pq, a.h0, 1), (a.id, a.h0, 1)]
    return Var(name, src, lo=lo, hi=hi, extra=extra, tags=['row'])
def group(a, n):
    return strided_group('heap', [a.id, a.pq], a.s, a.i, n) if a.kind == 'dev' else linear_group('heap', [a.id, a.pq], a.h0, n)
def inrow(a, n):
    if a.kind == 'dev':
        def pred(p):
            q, r = p.divide_by(a.s)
            return And(eq(r, a.i), le(0, q), lt(q, n))
        return pred
    return in_range(a.h0, n)

def heap_ok(a, S, j, n):
    """entry j dominates its children below n"""
    l, r = 2 * P(j) + 1, 2 * P(j) + 2
    return And(Implies(lt(l, n), rle(pqat(a, S, l), pqat(a, S, j))), Implies(lt(r, n), rle(pqat(a, S, r), pqat(a, S, j))))

class HeapBase(Contract):
    reads_confined = True
    def __init__(s, kind):
        s.kind = kind
        s.name = 'heap::%s[%s]' % (s.what, {'vec': 'host', 'acc': 'device,row', 'dev': 'device,column'}[kind])
        s.fn = r'heap::%s<int, float>' % s.what + Layout.rx[kind]
        s.loops = s.mkloops()
    def mkargs(s, E, st):
        if s.kind == 'dev':
            stv = ivar(E, 's', 32, 1, BIG); col = ivar(E, 'i', 32, 0, BIG)
            k = ivar(E, 'k', 32, 0, 2**16)
            # rows*stride fits int: the caller's array has that many elements
            idr = vec(st, 'heap_id', 'i32', layout=[stv.p, 1], sizes=[k.p, stv.p]); pq = vec(st, 'heap_pq', 'f32', layout=[stv.p, 1], sizes=[k.p, stv.p])
            return [idr, pq, stv, col, k]
        h0 = ivar(E, 'h0', 64, 0, BIG); n = ivar(E, 'n', 64, 0, BIG)
        idr = vec(st, 'heap_id', 'i32'); pq = vec(st, 'heap_pq', 'f32')
        N = h0.p + n.p
        idr.r.region.sizes = [N]; pq.r.region.sizes = [N]
        return [idr, pq, h0, n]
    def common(s, E, st, args):
        a = NS(kind=s.kind, id=reg(args[0]), pq=reg(args[1]))
        if s.kind == 'dev': a.s, a.i, a.n = E.signed(st, args[2]), E.signed(st, args[3]), E.signed(st, args[4])
        else: a.h0, a.n = E.unsigned(st, args[2]), E.unsigned(st, args[3])
        return a
    def common_pre(s, a):
        if s.kind == 'dev':
            return [('size', And(ge(a.n, 0), le(a.n, 2**16), le(1, a.s), le(0, a.i), lt(a.i, a.s), lt(a.s * a.n + a.i, 2**31)))]
        return [('size', And(ge(a.n, 0), le(a.n, BIG), ge(a.h0, 0), le(a.h0, 2**31)))]
    def groups(s, a): return [group(a, a.n)]
    def products(s, a): return [(a.s, a.n)] if s.kind == 'dev' else []
    def modifies(s, a, S): return [(a.id, inrow(a, a.n)), (a.pq, inrow(a, a.n))]

class Maxheapify(HeapBase):
    what = 'maxheapify'
    def make(s, E, st, f):
        args = s.mkargs(E, st)
        return args + [ivar(E, 'idx', 32 if s.kind == 'dev' else 64, 0, 2**16 if s.kind == 'dev' else BIG)]
    def bind(s, E, st, args):
        a = s.common(E, st, args)
        a.i0 = E.signed(st, args[5]) if s.kind == 'dev' else E.unsigned(st, args[4])
        return a
    def pre(s, a, S):
        return s.common_pre(a) + [
            ('start in row', And(le(0, a.i0), Or(lt(a.i0, a.n), And(eq(a.n, 0), eq(a.i0, 0))))),
            ('nodes below are heaps', Forall([rowvar(a, 'j', a.i0 + 1, a.n)], lambda j: heap_ok(a, S, j, a.n)))]
    def post(s, a, S0, S1, ret):
        return [('heap order from start', Forall([rowvar(a, 'j', a.i0, a.n)], lambda j: heap_ok(a, S1, j, a.n))),
                ('row permuted', Perm(group(a, a.n), S0, S1))]
    def mkloops(s):
        var = 'idx' if s.kind == 'dev' else 'i'
        def inv(a, L, S0, S, E0):
            cur = L(var) if s.kind == 'dev' else L.u(var)
            return [('cursor', And(le(a.i0, cur), Or(lt(cur, a.n), And(eq(a.n, 0), eq(cur, 0))))),
                    ('heap elsewhere', Forall([rowvar(a, 'j', a.i0, a.n, [cur])], lambda j: Or(eq(j, cur), heap_ok(a, S, j, a.n)))),
                    ('parent dominates grandchildren', Forall([rowvar(a, 'j', a.i0, a.n, [cur])],
                        lambda j: Implies(Or(eq(2 * j + 1, cur), eq(2 * j + 2, cur)),
                            And(Implies(lt(2 * cur + 1, a.n), rle(pqat(a, S, 2 * cur + 1), pqat(a, S, j))),
                                Implies(lt(2 * cur + 2, a.n), rle(pqat(a, S, 2 * cur + 2), pqat(a, S, j))))))),
                    ('row permuted', Perm(group(a, a.n), S0, S, elim=False))]
        return [LoopSpec('sift', [var], inv, lambda a, L, S: [a.n - (L(var) if s.kind == 'dev' else L.u(var))])]

class Sort(HeapBase):
    what = 'sort'
    def make(s, E, st, f): return s.mkargs(E, st)
    def bind(s, E, st, args): return s.common(E, st, args)
    def pre(s, a, S): return s.common_pre(a)
    def post(s, a, S0, S1, ret):
        return [('non-decreasing', Forall([rowvar(a, 'x', 0, a.n), rowvar(a, 'y', 0, a.n)],
                    lambda x, y: Implies(lt(x, y), rle(pqat(a, S1, x), pqat(a, S1, y))))),
                ('row permuted', Perm(group(a, a.n), S0, S1))]
    def mkloops(s):
        var = 'idx' if s.kind == 'dev' else 'i'
        def inv1(a, L, S0, S, E0):
            i = L(var)
            return [('cursor', And(le(-1, i), lt(2 * i + 1, a.n), lt(i, BIG))),
                    ('heaps above cursor', Forall([rowvar(a, 'j', i + 1, a.n)], lambda j: heap_ok(a, S, j, a.n))),
                    ('row permuted', Perm(group(a, a.n), S0, S, elim=False))]
        def inv2(a, L, S0, S, E0):
            i = L(var)
            return [('cursor', And(le(-1, i), lt(i, a.n), lt(i, BIG))),
                    ('heap below cursor', Forall([rowvar(a, 'j', 0, i + 1)], lambda j: heap_ok(a, S, j, i + 1))),
                    ('root is largest', Forall([rowvar(a, 'j', 0, i + 1)], lambda j: rle(pqat(a, S, j), pqat(a, S, P(0))))),
                    ('tail sorted', Forall([rowvar(a, 'x', i + 1, a.n), rowvar(a, 'y', i + 1, a.n)],
                        lambda x, y: Implies(lt(x, y), rle(pqat(a, S, x), pqat(a, S, y))))),
                    ('tail above heap', Forall([rowvar(a, 'x', 0, i + 1), rowvar(a, 'y', i + 1, a.n)],
                        lambda x, y: rle(pqat(a, S, x), pqat(a, S, y)))),
                    ('row permuted', Perm(group(a, a.n), S0, S, elim=False))]
        def hints(E, st, a, L, S0, S):
            i = L(var)
            root_max(E, st, a, S, i + 1)
        return [LoopSpec('build', [var], inv1, lambda a, L, S: [L(var) + 1]),
                LoopSpec('extract', [var], inv2, lambda a, L, S: [L(var) + 1], hints=hints, pre_hints=root_max_entry, forget=True)]

def root_max(E, st, a, S, n, known=None):
    """lemma: in a heap of n entries the root is largest (induction over the parent chain)"""
    j = Poly.fresh('ind_j', 0)
    par = Poly.fresh('ind_par', 0)
    def body(j): return Implies(And(le(0, j), lt(j, n)), rle(pqat(a, S, j), pqat(a, S, P(0))))
    step = [le(1, j), lt(j, n), Or(eq(2 * par + 1, j), eq(2 * par + 2, j)), body(par)]; goal = body(j); base = st
    if known is not None: base = st.copy(); base.hyps = logic.ground(st.hyps) + known
    E.oblige_with(base, 'lemma root-max: step', step, goal)
    E.assume(st, Forall([rowvar(a, 'j', 0, n)], lambda j: rle(pqat(a, S, j), pqat(a, S, P(0)))))
def root_max_entry(E, st, a, L, S0, S): root_max(E, st, a, S, a.n)

def contracts(): return [k(x) for x in ('vec', 'acc', 'dev') for k in (Maxheapify, Sort)]
