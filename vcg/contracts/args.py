"""C10: the parameter set, through clients that store and read (every member of vtargs and vtargref is inlined).

Texts are integers: literals are distinct numbers, TXT(n) is the decimal text of n, and NUM(t) is the number a text starts
with, if it starts with one (ISN(t)).  The standard map is its has/value functions.  A store client shows the whole new map,
so any history of stores and loads follows by induction."""
from lib import *
from exec import Contract
import logic, poly

I = z3.IntSort()
TXT, NUM = z3.Function('text_of', I, I), z3.Function('number_of', I, I)
ISN = z3.Function('starts_with_number', I, z3.BoolSort())
CAT = z3.Function('concatenation', I, I, I)
DEFAULTS = dict(k=64, cpu_nthreads=0, gpu_ndsize=1, chunksize=8196, use_chunking=0, use_recompute=0, knn_grid_resolution=16, cc_p_maxsize=32, cc_t_maxsize=32, dev_suppress_stdout=1)
LIT = {}
def lit(x): return P(LIT.setdefault(x, len(LIT)))
for k in sorted(DEFAULTS): lit(k)
def txt(st, n):
    t = TXT(P(n).t()); st.hyps.append(z3.And(NUM(t) == P(n).t(), ISN(t)))
    return Poly.term(t)
def num(c): return Poly.term(NUM(P(c).t()))
class MapEntry:
    def __init__(s, m, code): s.m, s.code = m, code
    def __repr__(s): return 'entry of %r' % (s.m,)
class MapEnd:
    def __init__(s, m): s.m = m
def mkey(p):
    if isinstance(p, PtrV) and isinstance(p.r, Cells) and p.off.isconst(): return ('map', p.r, p.off.cval())
    raise Unsupported('map %r' % (p,))
def getmap(st, p):
    m = st.ghost.get(mkey(p) if isinstance(p, PtrV) else p)
    if m is None: raise Unsupported('map %r' % (p,))
    return m
def rdstr(st, p):
    if isinstance(p, PtrV) and isinstance(p.r, GStr): return lit(str_of(st, p))
    if isinstance(p, PtrV) and isinstance(p.r, MapEntry) and p.off.isconst():
        if p.off.cval() == 0: return p.r.code
        if p.off.cval() == 32: return getmap(st, p.r.m)[1](p.r.code)
    if isinstance(p, PtrV) and isinstance(p.r, Cells) and p.off.isconst():
        v = st.cells.get((p.r, ('str', p.off.cval())))
        if isinstance(v, StrV): return v.v if isinstance(v.v, Poly) else lit(v.v)
    raise Unsupported('string %r' % (p,))
def wrstr(E, st, p, c):
    if isinstance(p, PtrV) and isinstance(p.r, MapEntry) and p.off.isconst() and p.off.cval() == 32:
        has, val = getmap(st, p.r.m); k = p.r.code
        if not p.r.m[1].local: E.oblige(st, 'only the addressed set is written', Or(*[TRUE for x, _ in st.frames[-1] if x is p.r.m[1]]), 'frame')
        st.ghost[p.r.m] = (has, lambda x: pol_ite(eq(x, k), c, val(x))); return
    if isinstance(p, PtrV) and isinstance(p.r, Cells) and p.off.isconst():
        if not p.r.local: raise Unsupported('store to the caller\'s string')
        st.cells[(p.r, ('str', p.off.cval()))] = StrV(P(c)); return
    raise Unsupported('string %r' % (p,))
STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
UM = r'std::unordered_map<' + STR + r', votess::vtargref.*?>::'
NI = r'std::__detail::_Node_(const_)?iterator<.*>::'
def fns():
    R = []
    def fn(rx):
        def d(f): R.append((re.compile(rx), f)); return f
        return d
    @fn(STR + r'::basic_string(<.*?>)?\(char const\*')
    def _(E, st, args, i): wrstr(E, st, args[0], rdstr(st, args[1]))
    @fn(STR + r'::(basic_string|operator=)\(' + STR + r'( const&|&&)|' + STR + r'::operator=\(char const\*')
    def _(E, st, args, i): wrstr(E, st, args[0], rdstr(st, args[1])); return args[0]
    @fn(STR + r'::basic_string\(\)')
    def _(E, st, args, i): wrstr(E, st, args[0], lit(''))
    @fn(STR + r'::~basic_string|std::__cxx11::basic_[io]?stringstream<.*>::~basic|std::allocator<char>::~?allocator|' + UM + '~unordered_map')
    def _(E, st, args, i): return None
    @fn(r'std::operator\+<')
    def _(E, st, args, i): wrstr(E, st, args[0], Poly.term(CAT(rdstr(st, args[1]).t(), rdstr(st, args[2]).t())))
    @fn(r'std::__cxx11::to_string\((int|long|unsigned long|unsigned int)\)')
    def _(E, st, args, i): wrstr(E, st, args[0], txt(st, E.unsigned(st, args[1]) if 'unsigned' in dem_of(E, i) else E.signed(st, args[1])))
    @fn(r'std::operator==<|' + STR + '::compare')
    def _(E, st, args, i):
        if 'compare' in dem_of(E, i): raise Unsupported('string order')
        return BoolV(eq(rdstr(st, args[0]), rdstr(st, args[1])))
    # ---- streams: one token
    @fn(r'std::__cxx11::basic_o?stringstream<.*>::basic_o?stringstream\(\)')
    def _(E, st, args, i): st.ghost[('oss', args[0].r)] = None
    @fn(r'std::(basic_)?ostream(<.*?>)?::(operator<<\(|_M_insert<)(int|long|unsigned long|unsigned int|bool|short)\b|std::operator<< ?<.*>\(std::basic_ostream<.*>&, (char const\*|.*basic_string<.*> const&)\)')
    def _(E, st, args, i):
        k = ('oss', args[0].r if isinstance(args[0], PtrV) else None)
        if k not in st.ghost or st.ghost[k] is not None: raise Unsupported('output')
        d = E.mod.dem[i.x['callee'].strip('@').strip('"')]
        if 'std::operator<<' in d: st.ghost[k] = rdstr(st, args[1])
        elif isinstance(args[1], BoolV): st.ghost[k] = txt(st, pol_ite(args[1].c, P(1), P(0)))
        else: st.ghost[k] = txt(st, E.unsigned(st, args[1]) if re.search(r'[<(]unsigned', d) else E.signed(st, args[1]))
        return args[0]
    @fn(r'std::__cxx11::basic_o?stringstream<.*>::str\(\)')
    def _(E, st, args, i):
        v = st.ghost.get(('oss', args[1].r)); wrstr(E, st, args[0], lit('') if v is None else v)
    @fn(r'std::__cxx11::basic_i?stringstream<.*>::basic_i?stringstream\(' + STR + ' const&')
    def _(E, st, args, i):
        vt = Cells('vtable'); st.cells[(vt, -24)] = IntV(P(0), 64); st.cells[(args[0].r, args[0].off.cval())] = PtrV(vt, 0)
        st.ghost[('iss', args[0].r)] = rdstr(st, args[1]); st.ghost[('isok', args[0].r)] = TRUE
    @fn(r'std::(basic_)?istream(<.*?>)?::(operator>>\(|_M_extract<)(int|long|unsigned long|unsigned int|bool)&?[>)]')
    def _(E, st, args, i):
        r = args[0].r; c = st.ghost.get(('iss', r))
        if c is None: raise Unsupported('input')
        ty = re.search(r'(?:operator>>\(|_M_extract<)(int|long|unsigned long|unsigned int|bool)', dem_of(E, i)).group(1)
        v = num(c); isn = ISN(P(c).t())
        if ty == 'bool': ok = And(isn, le(0, v), le(v, 1)); n = 8
        elif ty in ('int', 'long'): n = 32 if ty == 'int' else 64; ok = And(isn, le(-2**(n - 1), v), lt(v, 2**(n - 1)))
        else: n = 32 if ty == 'unsigned int' else 64; ok = And(isn, lt(-2**n, v), lt(v, 2**n))       # negative numbers wrap
        x = Poly.var(poly.fresh_name('parsed'), 0 if ty[0] in 'ub' else -2**(n - 1), 1 if ty == 'bool' else 2**n - 1 if ty[0] == 'u' else 2**(n - 1) - 1)
        st.hyps.append(Implies(And(ok, ge(v, 0)) if ty[0] == 'u' else ok, eq(x, v)))
        if ty[0] == 'u': st.hyps.append(Implies(And(ok, lt(v, 0)), eq(x, v + 2**n)))
        E.store(st, args[1], IntV(x, n), IntT(n))
        st.ghost[('isok', r)] = And(st.ghost[('isok', r)], ok); st.ghost[('iss', r)] = None
        return args[0]
    @fn(r'std::basic_ios<.*>::(operator!|operator bool|good|fail|bad)\(')
    def _(E, st, args, i):
        ok = st.ghost.get(('isok', args[0].r)) if isinstance(args[0], PtrV) else None; d = dem_of(E, i)
        if ok is None or '::good(' in d: raise Unsupported('state of a stream')
        if '::bad(' in d: return BoolV(FALSE)       # a failed conversion sets failbit only
        return BoolV(z3.Not(ok) if re.search(r'operator!|fail', d) else ok)
    # ---- the map
    @fn(UM + r'unordered_map\(\)')
    def _(E, st, args, i): st.ghost[mkey(args[0])] = (lambda c: FALSE, lambda c: lit(''))
    @fn(UM + r'(unordered_map|operator=)\(std::unordered_map<.*> const&\)')
    def _(E, st, args, i): st.ghost[mkey(args[0])] = getmap(st, args[1]); return args[0]
    @fn(UM + r'operator\[\]\(')
    def _(E, st, args, i):
        m = mkey(args[0]); has, val = getmap(st, m); c = rdstr(st, args[1])
        st.ghost[m] = (lambda x: Or(has(x), eq(x, c)), lambda x: pol_ite(And(eq(x, c), Not(has(c))), lit(''), val(x)))
        return PtrV(MapEntry(m, c), 32)
    @fn(UM + r'find\(')
    def _(E, st, args, i):
        m = mkey(args[0]); c = rdstr(st, args[1]); raise Fork(getmap(st, m)[0](c), [PtrV(MapEntry(m, c), 0), PtrV(MapEnd(m), 0)])
    @fn(UM + r'(count|contains)\(')
    def _(E, st, args, i):
        h = getmap(st, args[0])[0](rdstr(st, args[1])); return BoolV(h) if 'contains' in dem_of(E, i) else IntV(pol_ite(h, P(1), P(0)), 64)
    @fn(UM + r'c?end\(')
    def _(E, st, args, i): return PtrV(MapEnd(mkey(args[0])), 0)
    @fn(r'std::__detail::operator(==|!=)\(')
    def _(E, st, args, i):
        x, y = (E.load(st, p, PtrT()) for p in args)
        if not all(isinstance(v, PtrV) and isinstance(v.r, (MapEntry, MapEnd)) for v in (x, y)): raise Unsupported('iterators')
        ex, ey = isinstance(x.r, MapEnd), isinstance(y.r, MapEnd)
        if not ex and not ey: c = eq(x.r.code, y.r.code)
        else: c = TRUE if ex and ey else FALSE
        return BoolV(Not(c) if '!=' in dem_of(E, i) else c)
    @fn(NI + r'operator(->|\*)\(')
    def _(E, st, args, i):
        v = E.load(st, args[0], PtrT())
        if isinstance(v, PtrV) and isinstance(v.r, MapEnd): E.oblige(st, 'the end of the map is not dereferenced', FALSE, 'safety'); raise Unsupported('end of the map')
        if not isinstance(v, PtrV) or not isinstance(v.r, MapEntry): raise Unsupported('iterator %r' % (v,))
        return v
    @fn(r'__cxa_allocate_exception')
    def _(E, st, args, i): return PtrV(Cells('exception'), 0)
    @fn(r'std::(invalid_argument|out_of_range|logic_error|runtime_error)::\1\(')
    def _(E, st, args, i): return None
    @fn(r'__cxa_throw')
    def _(E, st, args, i): st.ghost['threw'] = True
    return R
FNS = fns()

class Args(Contract):
    rounds = 1; timeout = 20000; intrinsics = FNS
    def __init__(s, name, fn, params): s.name, s.fn, s.params = 'parameters: ' + name, fn + r'\(', params
    def make(s, E, st, f):
        args = []; s.vals = {}
        for p in s.params:
            if p == 'a':
                c = Cells('a', False); args.append(PtrV(c, 0)); V = z3.Function(poly.fresh_name('text_stored'), I, I); s.cell = c
                st.ghost[('map', c, 0)] = (lambda k: Or(*[eq(k, lit(x)) for x in sorted(DEFAULTS)]), lambda k: Poly.term(V(P(k).t())))
            elif p[0] == 'k':
                c = Cells(p, False); s.vals[p] = Poly.var(poly.fresh_name(p), 0, 2**40); st.cells[(c, ('str', 0))] = StrV(s.vals[p]); args.append(PtrV(c, 0))
            elif p == 'int': s.vals['v'] = Poly.var(poly.fresh_name('v'), -2**31, 2**31 - 1); args.append(IntV(s.vals['v'], 32))
            elif p == 'size': s.vals['v'] = Poly.var(poly.fresh_name('v'), 0, 2**64 - 1); args.append(IntV(s.vals['v'], 64))
            elif p == 'bool': b = z3.Bool(poly.fresh_name('v')); s.vals['v'] = pol_ite(b, P(1), P(0)); args.append(BoolV(b))
        return args
    def bind(s, E, st, args): return NS(E=E, m=('map', s.cell, 0) if 'a' in s.params else None, any=Poly.var(poly.fresh_name('any_key'), 0, 2**40), **s.vals)
    def pre(s, a, S): return []
    def modifies(s, a, S): return [(s.cell, lambda p: TRUE)] if getattr(s, 'writes', False) else []
    def documented(s, k): return Or(*[eq(k, lit(x)) for x in sorted(DEFAULTS)])
    def fits(s, t, ty):
        v = num(t); lo, hi = {'int': (-2**31, 2**31), 'size': (-2**64 + 1, 2**64), 'bool': (0, 2)}[ty]
        return And(ISN(P(t).t()), le(lo, v), lt(v, hi))
    def same_map(s, a, S0, S1, upd=None):
        """the set after the call: every key, not only the one looked at"""
        (h0, v0), (h1, v1) = S0.ghost[a.m], S1.ghost[a.m]; x = a.any
        want = v0(x) if upd is None else pol_ite(eq(x, upd[0]), Poly.term(TXT(P(upd[1]).t())), v0(x))
        return [('the same keys', Iff(h0(x), h1(x))), ('stored: that key only' if upd else 'nothing is stored', Implies(h1(x), eq(v1(x), want)))]
    def throws(s, a, S0): return FALSE
    def on_unreachable(s, E, st, a):
        E.oblige(st, 'ends only by an exception', TRUE if st.ghost.get('threw') else FALSE, 'safety')
        save = logic.REC; logic.REC = st.rec; E.oblige(st, 'rejects only unknown keys and incompatible values', s.throws(a, E.S0), 'post'); logic.REC = save
    def rv(s, ret): return pol_ite(ret.c, P(1), P(0)) if isinstance(ret, BoolV) else ret.p
    def is_(s, ret, v): return eq(s.rv(ret), v) if s.ty != 'int' else Or(eq(s.rv(ret), v), eq(s.rv(ret), v + 2**32))

class Default(Args):
    ty = 'int'
    def val(s, k):
        r = P(0)
        for x, d in DEFAULTS.items(): r = pol_ite(eq(k, lit(x)), P(d), r)
        return r
    def throws(s, a, S0): return Not(s.documented(a.k1))
    def post(s, a, S0, S1, ret): return [('unknown keys are rejected', s.documented(a.k1)), ('the documented default', s.is_(ret, s.val(a.k1)))]
class Get(Args):
    def __init__(s, name, fn, ty): super().__init__(name, fn, ['a', 'k1']); s.ty = ty
    def text(s, a, S0): return S0.ghost[a.m][1](a.k1)
    def throws(s, a, S0): return Or(Not(s.documented(a.k1)), Not(s.fits(s.text(a, S0), s.ty)))
    def post(s, a, S0, S1, ret):
        t = s.text(a, S0); v = num(t)
        return [('unknown keys are rejected', s.documented(a.k1)), ('incompatible values are rejected', s.fits(t, s.ty)), ('the value stored', Implies(ge(v, 0), s.is_(ret, v)) if s.ty == 'size' else s.is_(ret, v))] + s.same_map(a, S0, S1)
class Put(Args):
    writes = True
    def __init__(s, name, fn, ty): super().__init__(name, fn, ['a', 'k1', ty, 'k2']); s.ty = ty
    def want(s, a, S0): return pol_ite(eq(a.k1, a.k2), a.v, num(S0.ghost[a.m][1](a.k2)))
    def fit2(s, a, S0): return Or(eq(a.k1, a.k2), s.fits(S0.ghost[a.m][1](a.k2), s.ty))
    def throws(s, a, S0): return Or(Not(s.documented(a.k1)), Not(s.documented(a.k2)), Not(s.fit2(a, S0)))
    def post(s, a, S0, S1, ret):
        w = s.want(a, S0)
        return [('unknown keys are rejected', And(s.documented(a.k1), s.documented(a.k2))), ('incompatible values are rejected', s.fit2(a, S0)),
                ('the value last stored', Implies(ge(w, 0), s.is_(ret, w)) if s.ty == 'size' else s.is_(ret, w))] + s.same_map(a, S0, S1, s.upd(a))
    def upd(s, a): return (a.k1, a.v)
class CopyStore(Put):
    writes = False
    def want(s, a, S0): return num(S0.ghost[a.m][1](a.k2))
    def fit2(s, a, S0): return s.fits(S0.ghost[a.m][1](a.k2), s.ty)
    def upd(s, a): return None
class CopyRead(CopyStore):
    writes = True
    def upd(s, a): return (a.k1, a.v)
class Field(Args):
    ty = 'int'
    def __init__(s, name, fn, key, keys): super().__init__(name, fn, ['a']); s.key, s.keys = key, keys
    def all(s, a, S0): return And(*[s.fits(S0.ghost[a.m][1](lit(k)), 'int') for k in s.keys])
    def throws(s, a, S0): return Not(s.all(a, S0))
    def post(s, a, S0, S1, ret): return [('the value of its own key', s.is_(ret, num(S0.ghost[a.m][1](lit(s.key)))))] + s.same_map(a, S0, S1)

def contracts():
    kg, cc = ('k', 'knn_grid_resolution'), ('k', 'cc_p_maxsize', 'cc_t_maxsize')
    return [Default('defaults', 'client_default', ['k1']), Get('read', 'client_read_int', 'int'), Get('read (const)', 'client_read_const', 'int'), Get('get<int>', 'client_get_int', 'int'),
            Get('get<bool>', 'client_get_bool', 'bool'), Get('get<size_t>', 'client_get_size', 'size'),
            Put('store int, read', 'client_store_int', 'int'), Put('store bool, read', 'client_store_bool', 'bool'), Put('store size_t, read', 'client_store_size', 'size'),
            CopyStore('store to a copy', 'client_copy_store', 'int'), CopyRead('store after a copy', 'client_copy_read', 'int'),
            Field('sort settings', 'client_xyzset', 'knn_grid_resolution', kg[1:]), Field('neighbour search: k', 'client_knn_k', 'k', kg), Field('neighbour search: grid', 'client_knn_gr', 'knn_grid_resolution', kg),
            Field('clipping: k', 'client_cc_k', 'k', cc), Field('clipping: planes', 'client_cc_p', 'cc_p_maxsize', cc), Field('clipping: triangles', 'client_cc_t', 'cc_t_maxsize', cc)]
