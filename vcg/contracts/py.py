"""C20: the Python binding.  The registrations of the module (which Python name is bound to which function) are a contract on the module's
initialiser; each bound function has its own.  pybind11 is a stand-in header: what a Python object is and how it converts is assumed here
(a bool is an int, conversion of an int that does not fit raises, a registered function is what the Python name calls)."""
from lib import *
from exec import Contract, OpaqueV
import logic, poly
from contracts.args import Args, Get, FNS, TXT, ISN, NUM, lit, txt, rdstr, wrstr, getmap, mkey, STR, DEFAULTS
from contracts.dnn import Base_
INV = r'(?:pybind11_init_pyvotess\(pybind11::module_&\)::.*::__invoke|(?:\(anonymous namespace\)::)?(?!votess::|std::|pybind11::)\w+(?:::\w+)*)\('
BIG = 2**30

def pyfns():
    R = []
    def fn(rx):
        def d(f): R.append((re.compile(rx), f)); return f
        return d
    def obj(st, p):
        o = st.ghost.get(('py', p.r)) if isinstance(p, PtrV) else None
        if o is None: raise Unsupported('Python object %r' % (p,))
        return o
    @fn(r'pybind11::isinstance<pybind11::(int_|float_|str|bool_)>\(')
    def _(E, st, args, i): return BoolV(getattr(obj(st, args[0]), 'is' + re.search(r'isinstance<pybind11::(\w+?)_?>', dem_of(E, i)).group(1)))
    def convert(E, st, ok):
        """a failed conversion raises: allowed only where the contract allows an exception"""
        E.contract.on_raise(E, st, ok); E.assume(st, ok)
    @fn(r'pybind11::object::cast<(bool|short|unsigned short|int|unsigned int|long|unsigned long|float)>\(\)')
    def _(E, st, args, i):
        o = obj(st, args[0]); t = re.search(r'cast<([\w ]+)>\(\)', dem_of(E, i)).group(1)
        if t == 'float':
            convert(E, st, Or(o.isfloat, o.isint)); v = E.fresh_val(FloatT('float'), 'as_float'); st.ghost['float'] = (v, o); return v
        if t == 'bool': convert(E, st, o.isint); return BoolV(ne(o.n, 0))
        w = {'short': 16, 'int': 32, 'long': 64}[t.split()[-1]]; lo, hi = (0, 2**w) if 'unsigned' in t else (-2**(w - 1), 2**(w - 1))
        convert(E, st, And(o.isint, le(lo, o.n), lt(o.n, hi))); x = Poly.var(poly.fresh_name('as_int'), lo, hi - 1); E.assume(st, eq(x, o.n)); return IntV(x, w)
    @fn(r'pybind11::object::cast<' + STR + r'>\(\)')
    def _(E, st, args, i): o = obj(st, args[1]); convert(E, st, o.isstr); wrstr(E, st, args[0], o.text)
    @fn(r'std::(basic_)?ostream(<.*?>)?::operator<<\(float\)')
    def _(E, st, args, i):
        k = ('oss', args[0].r); v = st.ghost.get('float')
        if k not in st.ghost or st.ghost[k] is not None or v is None or v[0] is not args[1]: raise Unsupported('output of a number')
        E.oblige(st, 'a number written as text is the Python float', v[1].isfloat, 'post'); st.ghost[k] = v[1].f; return args[0]
    @fn(r'pybind11::(index|value|key|type)_error::\w+\(')
    def _(E, st, args, i): st.ghost['kind'] = re.search(r'pybind11::(\w+)_error', dem_of(E, i)).group(1)
    @fn(r'votess::tesellate<int, float>\(')
    def _(E, st, args, i):
        a = E.a
        if args[0].r is not a.res or 'ran' in st.ghost: raise Unsupported('the result of a run')
        E.oblige(st, 'runs on the points given', TRUE if args[1].r is a.xyz else FALSE, 'post')
        E.oblige(st, 'runs on the device given', eq(E.unsigned(st, args[3]), a.dev), 'post')
        (h0, v0), (h1, v1) = E.S0.ghost[a.m], getmap(st, args[2]); x = a.any
        E.oblige(st, 'runs with the parameters given', And(Iff(h0(x), h1(x)), Implies(h0(x), eq(v0(x), v1(x)))), 'post'); st.ghost['ran'] = True
    S = lambda st, p: str_of(st, p)
    def rec(st, *x): st.ghost['reg'] = st.ghost['reg'] + [x]
    def num_(E, st, v):
        p = E.signed(st, v)
        if not p.isconst(): raise Unsupported('registered value')
        return p.cval()
    @fn(r'verif_py_value$')
    def _(E, st, args, i): rec(st, 'value', S(st, args[0]), S(st, args[1]), num_(E, st, args[2]))
    @fn(r'verif_py_init$')
    def _(E, st, args, i): rec(st, 'init', S(st, args[0]), '', num_(E, st, args[1]))
    @fn(r'verif_py_keep$')
    def _(E, st, args, i): rec(st, 'keep', S(st, args[0]), S(st, args[1]), (num_(E, st, args[2]), num_(E, st, args[3])))
    @fn(r'verif_py_arg$')
    def _(E, st, args, i): rec(st, 'arg', S(st, args[0]), S(st, args[1]), S(st, args[2]))
    @fn(r'verif_py_default$')
    def _(E, st, args, i): rec(st, 'default', S(st, args[0]), S(st, args[1]), (S(st, args[2]), num_(E, st, args[3])))
    @fn(r'verif_py_function$')
    def _(E, st, args, i):
        f = args[2].d if isinstance(args[2], OpaqueV) else None
        if not isinstance(f, str): raise Unsupported('bound function %r' % (args[2],))
        f = f.strip('@').strip('"')
        rec(st, 'function', S(st, args[0]), S(st, args[1]), strip_ret(E.mod.dem.get(f, f)))
    return R
ALL = pyfns() + FNS
from exec import strip_ret

class PyArgs(Args):
    intrinsics = ALL
    def on_raise(s, E, st, ok):
        save = logic.REC; logic.REC = st.rec
        E.oblige(st, 'a conversion fails only for values it must reject', Or(ok, s.throws(E.a, E.S0)), 'post'); s.untouched(E, st, ok); logic.REC = save
    def untouched(s, E, st, ok=FALSE):
        for n, g in s.same_map(E.a, E.S0, st): E.oblige(st, 'exception: ' + n, Or(ok, g), 'post')
    def on_unreachable(s, E, st, a): super().on_unreachable(E, st, a); save = logic.REC; logic.REC = st.rec; s.untouched(E, st); logic.REC = save
class SetItem(PyArgs):
    writes = True; ty = 'int'
    def __init__(s): Args.__init__(s, '', '', ['a', 'k1']); s.name = 'vtargs.__setitem__'; s.fn = INV + r'votess::vtargs&, ' + STR + r'( const&)?, pybind11::object( const&)?\)'
    def make(s, E, st, f):
        args = Args.make(s, E, st, f); c = Cells('value', False)
        b = lambda n: z3.Bool(poly.fresh_name(n))
        o = NS(isint=b('is_int'), isfloat=b('is_float'), isstr=b('is_str'), isbool=b('is_bool'), n=Poly.var(poly.fresh_name('number'), -2**80, 2**80), f=Poly.var(poly.fresh_name('text_of_float'), 0, 2**40), text=Poly.var(poly.fresh_name('text'), 0, 2**40))
        E.assume(st, And(Implies(o.isbool, And(o.isint, le(0, o.n), le(o.n, 1))), Not(And(o.isint, o.isfloat)), Not(And(o.isint, o.isstr)), Not(And(o.isfloat, o.isstr))))
        st.ghost[('py', c)] = o; s.o = o
        return args + [PtrV(c, 0)]
    def throws(s, a, S0): o = s.o; return Or(Not(s.documented(a.k1)), Not(Or(o.isint, o.isfloat, o.isstr)), And(o.isint, Not(And(le(-2**31, o.n), lt(o.n, 2**31)))))
    def post(s, a, S0, S1, ret):
        o = s.o; (h0, v0), (h1, v1) = S0.ghost[a.m], S1.ghost[a.m]; x = a.any
        want = pol_ite(o.isint, Poly.term(TXT(o.n.t())), pol_ite(o.isfloat, o.f, o.text))
        return [('unknown keys are rejected', s.documented(a.k1)), ('other types are rejected', Or(o.isint, o.isfloat, o.isstr)), ('the same keys', Iff(h0(x), h1(x))),
                ('that parameter holds the value, the others are kept', Implies(h1(x), eq(v1(x), pol_ite(eq(x, a.k1), want, v0(x)))))]
class GetItem(PyArgs, Get):
    def __init__(s): Get.__init__(s, '', '', 'int'); s.name = 'vtargs.__getitem__'; s.fn = INV + r'votess::vtargs( const)?&, ' + STR + r'( const&)?\)'

class Index(Base_):
    """an index outside raises IndexError, and only such an index raises"""
    intrinsics = ALL
    def __init__(s): pass
    def inside(s, a, S): return And(le(0, a.i), lt(a.i, s.count(a, S)))
    def on_unreachable(s, E, st, a):
        save = logic.REC; logic.REC = st.rec
        E.oblige(st, 'ends only by an exception', TRUE if st.ghost.get('threw') else FALSE, 'safety')
        E.oblige(st, 'an index inside is answered', Not(s.inside(a, E.S0)), 'post'); E.oblige(st, 'the exception is IndexError', TRUE if st.ghost.get('kind') == 'index' else FALSE, 'post'); logic.REC = save
    def container(s, E, st):
        M, n = Poly.var(poly.fresh_name('rows'), 0, BIG), Poly.var(poly.fresh_name('listed'), 0, BIG); c = Cells('container', False)
        L, O = vec(st, 'list', 'i32', n, sizes=[n]), vec(st, 'offs', 'i32', M + 1, sizes=[M + 1])
        st.ghost[('emb', c, 0)] = L.r; st.ghost[('emb', c, 24)] = O.r; st.vecs[L.r] = n; st.vecs[O.r] = M + 1
        s.c, s.L, s.O, s.M, s.n = c, L, O, M, n
        return c
    def bind(s, E, st, args):
        a = NS(E=E, list=s.L.r.region, offs=s.O.r.region, n=s.n, M=s.M, i=E.signed(st, args[-1]), res=args[0]); return a
    def idx(s): return IntV(Poly.var(poly.fresh_name('index'), -2**31, 2**31 - 1), 32)
class RowOf(Index):
    name = 'dnn.__getitem__'; fn = INV + r'votess::dnn<int>( const)?&, int\)'
    def make(s, E, st, f): c = s.container(E, st); s.res = Cells('row'); return [PtrV(s.res, 0), PtrV(c, 0), s.idx()]
    def count(s, a, S): return a.M
    def post(s, a, S0, S1, ret):
        v = [x for (c, o), x in sorted(((k, x) for k, x in S1.cells.items() if isinstance(k, tuple) and k[0] is s.res), key=lambda t: str(t[0][1]))]
        ptr = [x for x in v if isinstance(x, PtrV)]; num = [x for x in v if isinstance(x, IntV)]
        if len(ptr) != 2 or len(num) != 1: raise Unsupported('representation of a row')
        at = lambda p: ('l' if p.r is s.L.r or p.r is s.c and p.off.cval() == 0 else 'o' if p.r is s.O.r or p.r is s.c and p.off.cval() == 24 else '?')
        return [('an index outside is rejected', s.inside(a, S0)), ('the row of this container', TRUE if sorted(map(at, ptr)) == ['l', 'o'] else FALSE), ('the row asked for', eq(num[0].p, a.i))]
class ElementOf(Index):
    name = 'Proxy.__getitem__'; fn = INV + r'votess::dnn<int>::proxy( const)?&, int\)'
    def make(s, E, st, f):
        c = s.container(E, st); s.r = Poly.var(poly.fresh_name('row'), 0, BIG)
        return [struct_ptr(st, 'row', [(0, PtrV(c, 0)), (8, PtrV(c, 24)), (16, IntV(s.r, 64))]), s.idx()]
    def pre(s, a, S): return Base_.pre(s, a, S) + [('row', And(le(0, s.r), lt(s.r, a.M)))]
    def hints(s, E, st, a): st.tag('row', s.r)
    def count(s, a, S): return s.o(a, S, s.r + 1) - s.o(a, S, s.r)
    def post(s, a, S0, S1, ret):
        p = s.o(a, S0, s.r) + a.i
        if isinstance(ret, PtrV): g = eq(ret.off, 4 * p) if ret.r is a.list else FALSE
        else: g = Or(eq(ret.p, s.el(a, S0, p)), eq(ret.p, s.el(a, S0, p) + 2**32))
        return [('an index outside is rejected', s.inside(a, S0)), ('the element asked for', g)]

class Run(PyArgs):
    def __init__(s): Args.__init__(s, '', '', ['a']); s.name = 'tesellate (Python)'; s.fn = INV + r'std::vector<std::array<float, 3ul>.*>( const)?&, votess::vtargs( const&|&)?, (const )?(enum )?votess::device\)'
    def make(s, E, st, f):
        n = Poly.var(poly.fresh_name('points'), 0, BIG); s.res = Cells('result'); a = Args.make(s, E, st, f)
        s.xyz = vec(st, 'xyzset', 'f32', n, [3, 1], [n, 3], 3); s.dev = Poly.var(poly.fresh_name('device'), 0, 2**31 - 1)
        return [PtrV(s.res, 0), s.xyz] + a + [IntV(s.dev, 32)]
    def bind(s, E, st, args): a = Args.bind(s, E, st, args); a.res, a.xyz, a.dev = s.res, s.xyz.r, s.dev; return a
    def post(s, a, S0, S1, ret): return [('the run takes place', TRUE if S1.ghost.get('ran') else FALSE)]

BOUND = {('vtargs', '__setitem__'): SetItem, ('vtargs', '__getitem__'): GetItem, ('dnn', '__getitem__'): RowOf, ('Proxy', '__getitem__'): ElementOf, ('', 'tesellate'): Run}
MEMBERS = {('Proxy', 'size'): 'votess::dnn<int>::proxy::size() const', ('dnn', 'size'): 'votess::dnn<int>::size() const', ('dnn', 'print'): 'votess::dnn<int>::print() const', ('dnn', 'savetxt'): 'votess::dnn<int>::savetxt('}
class Module(Contract):
    name = 'module pyvotess'; fn = r'pybind11_init_pyvotess\(pybind11::module_&\)$'; intrinsics = ALL
    def make(s, E, st, f): st.ghost['reg'] = []; return [PtrV(Cells('module', False), 0)]
    def bind(s, E, st, args): return NS(E=E)
    def pre(s, a, S): return []
    def modifies(s, a, S): return []
    def truth(s, E, which):
        f = [f for f in E.mod.funcs.values() if f.dem.startswith('verif_device_%s(' % which)][0]
        m = re.search(r'ret i32 (\d+)', '\n'.join(f.raw))
        return int(m.group(1))
    def post(s, a, S0, S1, ret):
        E, R = a.E, S1.ghost['reg']; b = lambda x: TRUE if x else FALSE
        get = lambda kind, cls, name: [x[3] for x in R if x[:3] == (kind, cls, name)]
        out = [('device.%s' % w, b(get('value', 'device', w) == [s.truth(E, w)])) for w in ('cpu', 'gpu')]
        sp = [c() for c in BOUND.values()]
        for k, c in BOUND.items():
            f = get('function', *k); n = c().fn
            if not f or not (re.match(n, f[-1]) or re.match(INV, f[-1]) and any(re.match(o.fn, f[-1]) for o in sp)): out.append(('%s.%s is bound' % k, FALSE if not f else None)); continue
            out.append(('%s.%s is bound to its function' % k, b(re.match(n, f[-1]) is not None)))
        for k, m in MEMBERS.items():
            f = get('function', *k); out.append(('%s.%s is bound to the container\'s' % k, FALSE if not f else b(f[-1].startswith(m)) if f[-1].startswith('votess::') else None))
        out += [('a row keeps its container alive', b((0, 1) in get('keep', 'dnn', '__getitem__'))), ('arguments of tesellate', b(get('arg', '', 'tesellate') == ['xyzset', 'args', 'device'])),
                ('the default device is the GPU', b(get('default', '', 'tesellate') == [('device', s.truth(E, 'gpu'))])), ('empty parameter sets can be made', b(0 in get('init', 'vtargs', ''))), ('containers can be made', b(2 in get('init', 'dnn', '')))]
        if any(g is None for _, g in out): raise Unsupported('what is bound to a name: ' + ', '.join(n for n, g in out if g is None))
        return out

def contracts(): return [Module(), SetItem(), GetItem(), RowOf(), ElementOf(), Run()]
