"""C19: votess::tesellate composes the stages.  Each stage is used through its contract; here only what it is handed and what
it may change matters.  Ghost state: the tables of the one sort, the stages run so far, and the buffer behind std::cout."""
from lib import *
from exec import Contract, LoopSpec
import logic, poly
from contracts.cpu import GetKnn

BIG = 2**29
STAGES = ('gpu', 'cpu', 'recompute')
def same_data(E, r, m0, m1, n):
    if m0 is m1: return TRUE
    if len(r.layout) == 2: return Forall([Var('p', [(r, 0, 1)], lo=0, hi=n), Var('c', [(r, 1, 1)], lo=0, hi=3)], lambda p, c: req(rd(m0, 3 * p + c), rd(m1, 3 * p + c)))
    return Forall([Var('p', [(r, 0, 1)], lo=0, hi=n)], lambda p: eq(rd(m0, p), rd(m1, p)))
def argvals(st, p):
    o = st.ghost.get(('argscopy', p.r), p.r) if isinstance(p, PtrV) else None
    if isinstance(o, dict): return o
    if not isinstance(o, ArgsObj): raise Unsupported('parameters %r' % (p,))
    return {k: st.ghost[('arg', o, k)] for k in ArgsObj.KEYS}

class GetXyz(GetKnn):
    name = 'vtargs::get_xyzset'; fn = r'votess::vtargs::get_xyzset\('; keys = ('knn_grid_resolution',)
    def result(s, E, a, st, f): return s.val(st, a, 'knn_grid_resolution')
class SortStage(Contract):
    name = 'xyzset::sort (stage)'; fn = r'xyzset::sort<int, float>\('; trusted_here = True
    def bind(s, E, st, args): return NS(E=E, G=E.a, res=args[0], X=reg(args[1]), gr=E.signed(st, field(E, st, args[2], 0)))
    def pre(s, a, S): return [('the points are sorted once', TRUE if S.ghost.get('sorted') is None else FALSE), ('the caller\'s points are sorted', TRUE if a.X is a.G.X else FALSE), ('grid resolution', eq(a.gr, a.G.vals['knn_grid_resolution']))]
    def modifies(s, a, S): return [(a.X, lambda p: TRUE)]
    def havoc_extra(s, E, st, a):
        out = [a.X, st.mem[a.X]]
        for off, nm, n in ((0, 'id', a.G.n), (24, 'offset', Poly.var(poly.fresh_name('noffset'), 0, 2**31))):
            r = region(st, nm, 'i32', sizes=[n]); v = VecObj(nm, r, n); r.vec = v; st.vecs[v] = n
            if not isinstance(a.res, PtrV) or not isinstance(a.res.r, Cells): raise Unsupported('result of the sort')
            st.ghost[('emb', a.res.r, a.res.off.cval() + off)] = v; out += [v, st.mem[r]]
        st.ghost['sorted'] = out
    def result(s, E, a, st, f): return None
class Check_(Contract):
    trusted_here = True
    def __init__(s, which): s.name, s.fn = 'xyzset::validate_' + which, r'xyzset::validate_%s<' % which
    def bind(s, E, st, args): return NS(E=E)
class Found(Contract):
    name = 'device_found'; fn = r'(votess::)?device_found\('; trusted_here = True
    def bind(s, E, st, args): return NS(E=E)
    def result(s, E, a, st, f): return BoolV(a.E.a.found)
class Stage(Contract):
    trusted_here = True
    def __init__(s, which): s.which = which; s.name = 'stage ' + which; s.fn = r'votess::%s<int, float, unsigned char>\(' % {'gpu': '__gpu__tesellate', 'cpu': '__cpu__tesellate', 'recompute': '__cpu__recompute'}[which]
    def bind(s, E, st, args):
        a = NS(E=E, G=E.a, v=args, x=vobj(args[0]), id=vobj(args[1]), off=vobj(args[2]), ref=vobj(args[3]), tmp=vobj(args[4]), st=vobj(args[5]), vals=argvals(st, args[6]))
        if not isinstance(a.tmp, VecVec): raise Unsupported('answer table')
        a.len = lambda o: vlen(E, st, o)
        return a
    def pre(s, a, S):
        G = a.G; t = S.ghost['trace']; srt = S.ghost.get('sorted')
        if srt is None: return [('the points are sorted first', FALSE)]
        X, mX, vi, mi, vo, mo = srt; c = lambda b: TRUE if b else FALSE
        out = [('points and reference points are the sorted points', c(a.x.region is X and a.ref.region is X)), ('the points are as the sort left them', same_data(G.E, X, S[X], mX, G.n))]
        for v, w, m, what in ((a.id, vi, mi, 'cell numbers'), (a.off, vo, mo, 'offsets')):
            out += [('the %s are those of the sort' % what, eq(a.len(v), S.vlen(w))), ('the %s are as the sort left them' % what, same_data(G.E, v.region, S[v.region], m, S.vlen(w)))]
        out += [('one answer row per point', eq(a.tmp.n, G.n)), ('one state per point', eq(a.len(a.st), G.n)),
                ('the parameters are the caller\'s', And(*[eq(a.vals[k], G.vals[k]) for k in ArgsObj.KEYS if k != 'dev_suppress_stdout'])),
                ('stage order', c(s.which == 'recompute' and len(t) == 1 and t[0] != 'recompute' or s.which != 'recompute' and not t))]
        if s.which != 'recompute':
            r = a.st.region; m = S[r]; out += [('states are reset', Forall([Var('p', [(r, 0, 1)], lo=0, hi=G.n)], lambda p: rd(m, p) == z3.BitVecVal(0, 8)))]
        else: out += s.unchanged(a, S)
        return out
    @staticmethod
    def unchanged(a, S):
        o = S.ghost['out']; c = lambda b: TRUE if b else FALSE
        if a.tmp is not o[0] or a.st is not o[3]: return [('the first pass\'s answer and states are handed on', FALSE)]
        st_ = a.st.region; n = a.G.n; ar = Forall([Var('p', [(st_, 0, 1)], lo=0, hi=n)], lambda p: rd(S[st_], p) == rd(o[4], p)) if S[st_] is not o[4] else TRUE
        return [('the first pass\'s answer is handed on', c(S[a.tmp.lens] is o[1] and S[a.tmp.data] is o[2])), ('the first pass\'s states are handed on', ar)]
    def modifies(s, a, S): return [(r, lambda p: TRUE) for r in (a.tmp.lens, a.tmp.data, a.st.region)]
    def havoc_extra(s, E, st, a): st.ghost['trace'] = st.ghost['trace'] + (s.which,); st.ghost['out'] = (a.tmp, st.mem[a.tmp.lens], st.mem[a.tmp.data], a.st, st.mem[a.st.region])
    def result(s, E, a, st, f): return None
class Collect(Contract):
    name = 'tmpnn_getdnn (stage)'; fn = r'votess::tmpnn_getdnn<int>\('; trusted_here = True
    def bind(s, E, st, args): return NS(E=E, G=E.a, res=args[0], tmp=vobj(args[1]))
    def pre(s, a, S):
        if not S.ghost['trace'] or not isinstance(a.tmp, VecVec): return [('a pass has run', FALSE)]
        o = S.ghost['out']; return [('the answer is the one the last pass left', TRUE if a.tmp is o[0] and S[a.tmp.lens] is o[1] and S[a.tmp.data] is o[2] else FALSE), ('one row per point', eq(a.tmp.n, a.G.n)),
                                   ('collected once', TRUE if 'result' not in S.ghost else FALSE)]
    def havoc_extra(s, E, st, a): st.ghost['result'] = a.res.r
    def result(s, E, a, st, f): return None

def fns():
    R = []
    def fn(rx):
        def d(f): R.append((re.compile(rx), f)); return f
        return d
    @fn(r'std::vector<std::vector<int.*>::vector\(unsigned long, std::allocator<std::vector<int')
    def _(E, st, args, i):
        n = E.unsigned(st, args[1]); v = vecvec(st, args[0].r.name, n).r; v.lens.local = v.data.local = True
        st.mem[v.lens] = ConstMem(v.lens, P(0)); st.ghost[('vv', args[0].r)] = v
    @fn(r'std::vector<std::vector<int.*>::~vector')
    def _(E, st, args, i): return None
    @fn(r'std::vector<cc::state.*>::vector\(unsigned long, (cc::state const&, )?std::allocator<')
    def _(E, st, args, i):
        v = args[0].r; E.assumed.add('cc::state() is the reset state (C08)')
        n = E.unsigned(st, args[1]); r = Region(v.name, 'bv8', None, [n]); r.local = True; v.region = r; r.vec = v; st.vecs[v] = n
        st.mem[r] = ConstMem(r, z3.BitVecVal(0, 8))
        if len(args) == 4: raise Unsupported('states filled with a value')
    @fn(r'std::unordered_map<.*>::unordered_map\(std::unordered_map<.*> const&\)')
    def _(E, st, args, i): st.ghost[('argscopy', args[0].r)] = dict(argvals(st, args[1]))
    @fn(r'std::unordered_map<.*>::~unordered_map|operator delete|std::allocator<.*>::~?allocator')
    def _(E, st, args, i): return None
    @fn(r'operator new\(')
    def _(E, st, args, i): return PtrV(Cells('object'), 0)
    @fn(r'std::__cxx11::basic_o?stringstream<.*>::basic_o?stringstream\(\)')
    def _(E, st, args, i): st.ghost[('sbuf', args[0].r, args[0].off.cval())] = PtrV(Cells('temporary buffer'), 0)
    @fn(r'std::__cxx11::basic_o?stringstream<.*>::rdbuf\(')
    def _(E, st, args, i):
        b = st.ghost.get(('sbuf', args[0].r, args[0].off.cval()))
        if b is None: raise Unsupported('stream buffer')
        return b
    @fn(r'std::__cxx11::basic_o?stringstream<.*>::~basic_o?stringstream\(')
    def _(E, st, args, i):
        b = st.ghost.get(('sbuf', args[0].r, args[0].off.cval()))
        if b is None: raise Unsupported('stream buffer')
        E.oblige(st, 'std::cout does not keep a destroyed buffer', FALSE if st.ghost['cout'].r is b.r else TRUE, 'safety')
    @fn(r'std::__cxx11::basic_o?stringstream<.*>::str\(\) const')
    def _(E, st, args, i): return None
    @fn(r'std::__cxx11::basic_string<.*>::(size|length)\(')
    def _(E, st, args, i): return IntV(Poly.var(poly.fresh_name('characters'), 0, 2**31), 64)
    @fn(r'std::__cxx11::basic_string<.*>::empty\(')
    def _(E, st, args, i): return BoolV(z3.Bool(poly.fresh_name('empty')))
    @fn(r'std::basic_ios<.*>::rdbuf\(')
    def _(E, st, args, i):
        if not isinstance(args[0], PtrV) or args[0].r is not COUT: raise Unsupported('rdbuf of another stream')
        old = st.ghost['cout']
        if len(args) > 1:
            if not isinstance(args[1], PtrV): raise Unsupported('buffer %r' % (args[1],))
            st.ghost['cout'] = args[1]
        return old
    @fn(r'std::(basic_)?ostream(<.*?>)?::(operator<<|_M_insert<|flush)|std::(endl|flush|operator<< ?)<|std::operator<<')
    def _(E, st, args, i): return args[0]
    return R
COUT = Cells('std::cout', False)
class Tess(Contract):
    name = 'tesellate'; fn = r'votess::tesellate<int, float>\('; timeout = 20000; rounds = 2; intrinsics = fns(); globals = {'@_ZSt4cout': PtrV(COUT, 0)}
    def make(s, E, st, f):
        n = Poly.var(poly.fresh_name('points'), 0, BIG); vt = Cells('vtable'); st.cells[(COUT, 0)] = PtrV(vt, 0); st.cells[(vt, -24)] = IntV(P(8), 64)
        st.ghost.update(trace=(), cout=PtrV(Cells('caller\'s buffer', False), 0))
        iv = lambda x, lo, hi: Poly.var(poly.fresh_name(x), lo, hi)
        return [struct_ptr(st, 'answer', [], local=True), vec(st, 'xyzset', 'f32', n, [3, 1], [n, 3], 3), mkargs(st, 'args', dict(use_recompute=iv('use_recompute', 0, 1), use_chunking=iv('use_chunking', 0, 1), dev_suppress_stdout=iv('quiet', 0, 1))), IntV(iv('device', 0, 1), 32)]
    def bind(s, E, st, args): return NS(E=E, res=args[0].r, X=reg(args[1]), n=P(args[1].r.n), vals=argvals(st, args[2]), dev=args[3].p, found=z3.Bool(poly.fresh_name('gpu_found')))
    def modifies(s, a, S): return [(a.X, lambda p: TRUE)]
    def post(s, a, S0, S1, ret):
        t = S1.ghost['trace']; c = lambda b: TRUE if b else FALSE; gpu = And(eq(a.dev, 1), a.found)
        srt = S1.ghost.get('sorted')
        return [('a first pass runs', c(t and t[0] != 'recompute')), ('the selected device runs it, or the host when there is none', (gpu if t[:1] == ('gpu',) else Not(gpu))),
                ('recompute runs exactly when requested', Iff(ne(a.vals['use_recompute'], 0), c('recompute' in t))),
                ('the answer is returned', c(S1.ghost.get('result') is a.res)), ('the caller\'s points stay as sorted', same_data(a.E, a.X, S1[a.X], srt[1], a.n) if srt else FALSE),
                ('standard output is connected as before', c(S1.ghost['cout'].r is S0.ghost['cout'].r and S1.ghost['cout'].off.same(S0.ghost['cout'].off)))]
    @property
    def loops(s):
        def states(S):
            v = [v for v in S.vecs if isinstance(v, VecObj) and v.region is not None and v.region.sort == 'B']
            if len(v) != 1: raise Unsupported('states')
            return v[0].region
        def inv0(a, L, S0, S, E0):
            i, r = L.u('i'), states(S); return [('cursor', And(le(0, i), le(i, a.n))), ('reset so far', Forall([Var('p', [(r, 0, 1)], lo=0, hi=a.n)], lambda p: rd(S[r], p) == z3.BitVecVal(0, 8)))]
        cs = ['n_sr_nreached', 'n_inf_boundary', 'n_nvalid_vertices', 'n_nvalid_neighbor', 'n_p_overflow', 'n_t_overflow', 'n_error']
        def inv1(a, L, S0, S, E0):
            i = L.idx('__begin2'); return [('cursor', And(le(0, i), le(i, a.n)))] + [('count', And(le(0, L(x)), le(L(x), i))) for x in cs]
        return [LoopSpec('reset', ['i'], inv0, lambda a, L, S: [a.n - L.u('i')], modifies=lambda a, S0, S: [(states(S), lambda p: TRUE)]),
                LoopSpec('summary', ['__begin2'] + cs, inv1, lambda a, L, S: [a.n - L.idx('__begin2')], modifies=lambda a, S0, S: [])]

def contracts(): return [Tess(), GetXyz(), SortStage(), Check_('xyzset'), Check_('id'), Check_('offset'), Found()] + [Stage(x) for x in STAGES] + [Collect()]
