"""C16: the command line program.  main is verified with parse_args inlined.

getopt_long is its documented behaviour (some documented option, with its argument, or the end); the ghost `want` holds what the
options seen so far ask for.  Strings are integer codes as in C10 (NUM: the number a text starts with).  The input file is LINES
lines; line i has the three numbers VAL(i,c) readable when OK(i,c).  tesellate is its contract (C19): here only what it is
handed matters."""
from lib import *
from exec import Contract, LoopSpec
from contracts.args import lit, NUM, DEFAULTS, STR
from contracts.top import argvals
import logic, poly

I = z3.IntSort()
VAL = z3.Function('number_in_line', I, I, z3.RealSort()); OK = z3.Function('readable_in_line', I, I, z3.BoolSort())
OPTS = {'i': ('infile', 1, 'infile'), 'k': ('k-init', 1, 'k'), 'g': ('grid-resolution', 1, 'knn_grid_resolution'), 't': ('cpu-nthreads', 1, 'cpu_nthreads'), 'd': ('gpu-ndsize', 1, 'gpu_ndsize'),
        'c': ('chunksize', 1, 'chunksize'), 'u': ('use-chunking', 0, 'use_chunking'), 'r': ('use-recompute', 0, 'use_recompute'), 'p': ('p-maxsize', 1, 'cc_p_maxsize'), 'm': ('t-maxsize', 1, 'cc_t_maxsize'),
        'x': ('use-device', 1, 'device'), 'h': ('help', 0, None), 'v': ('version', 0, None)}
KEYS = ArgsObj.KEYS
OPTARG, COUT, CERR = Cells('optarg', False), Cells('std::cout', False), Cells('std::cerr', False)
def num(c): return Poly.term(NUM(P(c).t()))
class Tok:
    """a zero-terminated text whose content is the code"""
    def __init__(s, code): s.code = code
    def __repr__(s): return 'token'
def at(p):
    if isinstance(p, PtrV) and isinstance(p.r, Cells) and p.off.isconst(): return (p.r, p.off.cval())
    raise Unsupported('object %r' % (p,))
def text(st, p):
    if isinstance(p, PtrV) and isinstance(p.r, GStr): return lit(str_of(st, p))
    if isinstance(p, PtrV) and isinstance(p.r, Tok): return p.r.code
    v = st.ghost.get(('text',) + at(p))
    if v is None: raise Unsupported('string %r' % (p,))
    return v
def settext(st, p, c): st.ghost[('text',) + at(p)] = c
def argsobj(st, p):
    if isinstance(p, PtrV) and isinstance(p.r, ArgsObj): return p.r
    o = st.ghost.get(('args',) + at(p))
    if o is None: raise Unsupported('parameters %r' % (p,))
    return o
def copyargs(st, dst, src):
    o = argsobj(st, src); n = ArgsObj('parameters'); st.ghost[('args',) + at(dst)] = n
    for k in KEYS: st.ghost[('arg', n, k)] = st.ghost[('arg', o, k)]
def stream(st, p):
    s = st.ghost.get(('stream',) + at(p))
    if s is None: raise Unsupported('stream %r' % (p,))
    return s
def mkstream(st, p, s):
    vt = Cells('vtable'); st.cells[(vt, -24)] = IntV(P(0), 64); r, o = at(p); st.cells[(r, o)] = PtrV(vt, 0); st.ghost[('stream', r, o)] = s
def table(E, st, p):
    """entries (name, has_arg, flag is null, val) of a getopt_long table"""
    if isinstance(p, OpaqueV):
        it = E.const_items(p.d)
        if it is None: raise Unsupported('option table')
        g = {o: (E.zero(t) if v is None else E.val(st, v, t)) for o, (t, v) in it}; get = lambda o: g.get(o)
    else:
        r, b = at(p); get = lambda o: st.cells.get((r, b + o))
    out = []
    for k in range(64):
        nm, ha, fl, v = (get(32 * k + o) for o in (0, 8, 16, 24))
        if nm is None: raise Unsupported('option table')
        if isinstance(nm, NullV): return out
        if not all(isinstance(x, IntV) and x.p.isconst() for x in (ha, v)): raise Unsupported('option table')
        out.append((str_of(st, nm), ha.p.cval(), isinstance(fl, NullV), v.p.cval()))
    raise Unsupported('option table')

def fns():
    R = []
    def fn(rx):
        def d(f): R.append((re.compile(rx), f)); return f
        return d
    # ---- options
    @fn(r'getopt_long$')
    def _(E, st, args, i):
        short = str_of(st, args[2]); tab = table(E, st, args[3]); c = lambda b: TRUE if b else FALSE
        sa = {short[j]: (2 if short[j + 1:j + 3] == '::' else 1 if short[j + 1:j + 2] == ':' else 0) for j in range(len(short)) if short[j] != ':'}
        for ch, (nm, n, _) in sorted(OPTS.items()):
            E.oblige(st, 'option -%s %s' % (ch, 'takes a value' if n else 'takes no value'), c(sa.get(ch) == n), 'pre')
            e = [x for x in tab if x[0] == nm]
            E.oblige(st, 'option --%s is -%s' % (nm, ch), c(len(e) == 1 and e[0][1:] == (n, True, ord(ch))), 'pre')
        if args[0] is not E.argv[0] or args[1] is not E.argv[1]: E.oblige(st, 'the program\'s own arguments are parsed', FALSE, 'pre')
        o = Poly.var(poly.fresh_name('opt'), -1, 255); code = Poly.var(poly.fresh_name('optarg'), -2**62, 2**62); v = num(code); w = dict(st.ghost['want'])
        st.hyps.append(Or(eq(o, -1), eq(o, ord('?')), *[eq(o, ord(x)) for x in OPTS])); st.hyps.append(And(le(-2**31, v), lt(v, 2**31)))
        for ch, (_, n, key) in OPTS.items():
            if key is None: continue
            new = code if key == 'infile' else pol_ite(eq(code, lit('cpu')), P(0), pol_ite(eq(code, lit('gpu')), P(1), w['device'])) if key == 'device' else v if n else P(1)
            w[key] = pol_ite(eq(o, ord(ch)), new, w[key])
        st.ghost['want'] = w; st.cells[(OPTARG, 0)] = PtrV(Tok(code), 0); st.ghost['parsed'] = eq(o, -1)
        return IntV(o, 32)
    @fn(r'(__isoc23_)?strtol$|atoi$|atol$')
    def _(E, st, args, i):
        if not isinstance(args[0], PtrV): raise Unsupported('number of %r' % (args[0],))
        if len(args) > 1 and not (isinstance(args[1], NullV) and args[2].p.isconst() and args[2].p.cval() == 10): raise Unsupported('strtol')
        return IntV(num(text(st, args[0])), 32 if i.x['callee'] == '@atoi' else 64)
    @fn(r'std::(__cxx11::)?sto(i|l)\(')
    def _(E, st, args, i): raise Unsupported('stoi throws')
    @fn(r'strcmp$')
    def _(E, st, args, i):
        r = Poly.var(poly.fresh_name('order'), -2**31, 2**31 - 1); st.hyps.append(Iff(eq(r, 0), eq(text(st, args[0]), text(st, args[1])))); return IntV(r, 32)
    # ---- strings
    @fn(STR + r'::basic_string(<.*?>)?\(char const\*')
    def _(E, st, args, i): settext(st, args[0], text(st, args[1])); st.cells[(args[0].r, ('str', args[0].off.cval()))] = StrV(str_of(st, args[1])) if isinstance(args[1].r, GStr) else UndefV()
    @fn(STR + r'::(basic_string|operator=)\(' + STR + r'( const&|&&)|' + STR + r'::operator=\(char const\*')
    def _(E, st, args, i): settext(st, args[0], text(st, args[1])); return args[0]
    @fn(STR + r'::basic_string\(\)')
    def _(E, st, args, i): settext(st, args[0], lit(''))
    @fn(STR + r'::~basic_string|std::__cxx11::basic_[io]?stringstream<.*>::~basic|std::basic_i?fstream<.*>::~basic|std::basic_i?fstream<.*>::close|std::allocator<char>::~?allocator|std::__new_allocator|votess::(vtargs|dnn<int>)::~|std::(tuple|_Tuple_impl)<.*>::~|std::vector<.*>::~vector')
    def _(E, st, args, i): return None
    @fn(r'std::operator(==|!=)<')
    def _(E, st, args, i):
        c = eq(text(st, args[0]), text(st, args[1])); return BoolV(Not(c) if 'operator!=' in dem_of(E, i) else c)
    @fn(STR + r'::empty\(')
    def _(E, st, args, i): return BoolV(eq(text(st, args[0]), lit('')))
    @fn(STR + r'::c_str\(')
    def _(E, st, args, i): return PtrV(Tok(text(st, args[0])), 0)
    # ---- parameters
    @fn(r'votess::vtargs::vtargs\(\)')
    def _(E, st, args, i):
        E.assumed.add('vtargs() holds the documented defaults (C10)')
        o = ArgsObj('parameters'); st.ghost[('args',) + at(args[0])] = o
        for k in KEYS: st.ghost[('arg', o, k)] = P(DEFAULTS[k])
    @fn(r'votess::vtargs::(vtargs|operator=)\(votess::vtargs( const&|&&)\)')
    def _(E, st, args, i): copyargs(st, args[0], args[1]); return args[0]
    @fn(r'votess::vtargs::operator\[\]\(')
    def _(E, st, args, i):
        o = argsobj(st, args[0]); key = str_of(st, args[1])
        E.oblige(st, 'known-parameter:%s' % key, TRUE if key in KEYS else FALSE, 'pre')
        if key not in KEYS: raise Unsupported('parameter ' + key)
        return PtrV(ArgRef(o, key), 0)
    @fn(r'std::make_tuple<|std::tuple<.*>::tuple<')
    def _(E, st, args, i):
        if len(args) != 4: raise Unsupported('tuple')
        r = at(args[0])[0]; e = [PtrV(Cells('tuple.%d' % k), 0) for k in range(3)]
        settext(st, e[0], text(st, args[1])); copyargs(st, e[1], args[2]); st.cells[(e[2].r, 0)] = E.load(st, args[3], IntT(32)); st.ghost[('tuple', r)] = e
    @fn(r'std::get<(\d)')
    def _(E, st, args, i):
        e = st.ghost.get(('tuple', at(args[0])[0]))
        if e is None: raise Unsupported('tuple')
        return e[int(re.search(r'std::get<(\d)', dem_of(E, i)).group(1))]
    # ---- input
    @fn(r'std::basic_i?fstream<.*>::basic_i?fstream\(')
    def _(E, st, args, i):
        if len(args) > 2 and not (isinstance(args[2], IntV) and args[2].p.isconst() and args[2].p.cval() & ~12 == 0): raise Unsupported('mode of the input file')
        E.oblige(st, 'the file named by the options is opened', eq(text(st, args[1]), st.ghost['want']['infile']), 'pre')
        mkstream(st, args[0], ('file', E.a.opened)); st.ghost['tried'] = TRUE
    @fn(r'std::getline<')
    def _(E, st, args, i):
        s = stream(st, args[0])
        if len(args) > 2 or s[0] != 'file': raise Unsupported('getline')
        cur = st.ghost['cursor']; has = And(s[1], lt(cur, E.a.lines)); st.ghost[('stream',) + at(args[0])] = ('file', has); st.ghost['cursor'] = pol_ite(has, cur + 1, cur)
        st.ghost[('text',) + at(args[1])] = Tok(cur); return args[0]
    @fn(r'std::__cxx11::basic_i?stringstream<.*>::basic_i?stringstream\(' + STR + ' const&')
    def _(E, st, args, i):
        t = st.ghost.get(('text',) + at(args[1]))
        if not isinstance(t, Tok): raise Unsupported('text to read from')
        mkstream(st, args[0], ('line', TRUE, t.code, 0))
    @fn(r'std::(basic_)?istream(<.*?>)?::(operator>>\(|_M_extract<)float')
    def _(E, st, args, i):
        s = stream(st, args[0])
        if s[0] != 'line': raise Unsupported('numbers read straight from the file')
        _, ok, ln, c = s
        if c > 2: raise Unsupported('more than three numbers of a line')
        ok1 = And(ok, OK(P(ln).t(), z3.IntVal(c))); x = z3.Real(poly.fresh_name('read')); st.hyps.append(Implies(ok1, x == VAL(P(ln).t(), z3.IntVal(c))))
        E.store(st, args[1], RP.term(x), FloatT('float')); st.ghost[('stream',) + at(args[0])] = ('line', ok1, ln, c + 1); return args[0]
    @fn(r'std::basic_ios<.*>::(operator!|operator bool|fail)\(|std::basic_i?fstream<.*>::is_open\(')
    def _(E, st, args, i):
        s = stream(st, args[0]); d = dem_of(E, i)
        if 'is_open' in d: return BoolV(E.a.opened)
        return BoolV(Not(s[1]) if re.search(r'operator!|fail', d) else s[1])
    @fn(r'std::array<float, 3ul>::(operator\[\]|at|data)\(')
    def _(E, st, args, i): return args[0] if len(args) == 1 else PtrV(args[0].r, args[0].off + E.unsigned(st, args[1]) * 4)
    @fn(r'std::vector<std::array<float, 3ul>.*>::vector\(\)')
    def _(E, st, args, i):
        v = args[0].r; r = Region(v.name, 'f32', [3, 1], [None, 3]); r.local = True; st.mem[r] = Base(r, r.newfn('empty')); v.region = r; v.stride = 3; r.vec = v; st.vecs[v] = P(0)
    @fn(r'std::vector<std::array<float, 3ul>.*>::(push_back|emplace_back)(<.*>)?\(')
    def _(E, st, args, i):
        v = vobj(args[0]); n = st.vecs[v]; ty = FloatT('float'); x = [E.load(st, PtrV(args[1].r, args[1].off + 4 * c), ty) for c in range(3)]
        st.vecs[v] = n + 1
        for c in range(3): E.store(st, PtrV(v.region, (3 * n + c) * 4), x[c], ty)
    # ---- output
    @fn(r'std::(basic_)?ostream(<.*?>)?::(operator<<|_M_insert<|flush)|std::(endl|flush|operator<< ?)<|std::operator<<')
    def _(E, st, args, i):
        if isinstance(args[0], PtrV) and args[0].r is CERR: st.ghost['reported'] = TRUE
        return args[0]
    return R

class Tess(Contract):
    name = 'tesellate (stage)'; fn = r'votess::tesellate<int, float>\('; trusted_here = True
    def bind(s, E, st, args):
        v = vobj(args[1])
        if v.region is None: raise Unsupported('points')
        return NS(E=E, G=E.a, res=args[0], X=v.region, n=st.vecs[v], o=argsobj(st, args[2]), dev=E.signed(st, args[3]))
    def pre(s, a, S):
        w = S.ghost['want']; r = a.X; m = S[r]; g = lambda k: S.ghost[('arg', a.o, k)]
        return [('run once', TRUE if 'dnn' not in S.ghost else FALSE), ('all lines of the file are read', eq(a.n, a.G.lines)),
                ('the points are those of the file, in order', Forall([Var('p', [(r, 0, 1)], tags=['line'], lo=0, hi=a.G.lines), Var('c', [(r, 1, 1)], tags=['column'], lo=0, hi=3)], lambda p, c: m_eq(m, p, c))),
                ('the options have all been read', S.ghost['parsed']), ('the selected device is used', eq(a.dev, w['device']))] + \
               [('parameter %s is what the options ask for' % k, Or(eq(w['k'], 0), eq(g(k), w[k])) if k == 'k' else eq(g(k), w[k])) for k in KEYS]
    def modifies(s, a, S): return [(a.X, lambda p: TRUE)]
    def havoc_extra(s, E, st, a): st.ghost['dnn'] = at(a.res)
    def result(s, E, a, st, f): return None
def m_eq(m, p, c): return req(rd(m, 3 * p + c), RP.term(VAL(P(p).t(), P(c).t())))
class Print(Contract):
    name = 'dnn::print (stage)'; fn = r'votess::dnn<int>::print\('; trusted_here = True
    def bind(s, E, st, args): return NS(E=E, d=at(args[0]))
    def pre(s, a, S): return [('the result is printed, once', TRUE if S.ghost.get('dnn') == a.d and not S.ghost.get('printed') else FALSE)]
    def havoc_extra(s, E, st, a): st.ghost['printed'] = True
    def result(s, E, a, st, f): return None

class Main(Contract):
    name = 'main'; fn = r'main$'; timeout = 20000; rounds = 2; intrinsics = fns(); globals = {'@optarg': PtrV(OPTARG, 0), '@_ZSt4cout': PtrV(COUT, 0), '@_ZSt4cerr': PtrV(CERR, 0)}
    def make(s, E, st, f):
        argv = struct_ptr(st, 'argv', [(0, PtrV(Tok(Poly.var(poly.fresh_name('program'), -2**62, 2**62)), 0))])
        w = {k: P(DEFAULTS[k]) for k in KEYS}; w.update(infile=lit(''), device=P(0))
        st.ghost.update(want=w, cursor=P(0), parsed=FALSE, tried=FALSE, reported=FALSE)
        E.argv = [IntV(Poly.var(poly.fresh_name('argc'), 0, 2**31 - 1), 32), argv]
        return E.argv
    def bind(s, E, st, args): return NS(E=E, opened=z3.Bool(poly.fresh_name('opened')), lines=Poly.var(poly.fresh_name('lines'), 0, 2**29))
    @staticmethod
    def good(i): return z3.And(*[OK(P(i).t(), z3.IntVal(c)) for c in range(3)])
    def post(s, a, S0, S1, ret):
        r = ret.p if isinstance(ret, IntV) else None
        if r is None: raise Unsupported('exit status')
        w, cur = S1.ghost['want'], S1.ghost['cursor']; zero = eq(r, 0); c = lambda b: TRUE if b else FALSE
        noname, bad = eq(w['infile'], lit('')), And(lt(0, cur), Not(s.good(cur - 1)))
        return [('the result is computed and printed on success', Implies(zero, c(S1.ghost.get('printed')))), ('a missing input is an error', Implies(noname, Not(zero))), ('an unreadable input is an error', Implies(Not(a.opened), Not(zero))),
                ('a malformed line is an error', Implies(zero, Forall([Var('p', [(X, 0, 1) for X in S1.mem if X.name.startswith('xyzset')], tags=['line'], lo=0, hi=a.lines)], lambda p: s.good(p)))),
                ('the options are all read', S1.ghost['parsed']), ('an error has a reason', Or(zero, noname, And(S1.ghost['tried'], Not(a.opened)), bad)), ('an error is reported', Or(zero, S1.ghost['reported'])), ('exit status', And(le(0, r), lt(r, 256)))]
    @property
    def loops(s):
        def parsed(S):
            o = [k for k in S.ghost if isinstance(k, tuple) and k[0] == 'args']; t = [k for k in S.ghost if isinstance(k, tuple) and k[0] == 'text' and 'infile' in k[1].name]
            if len(o) != 1 or len(t) != 1: raise Unsupported('variables of the option parser')
            return S.ghost[o[0]], S.ghost[t[0]]
        def gh_opts(E, st):
            for k in list(st.ghost):
                if isinstance(k, tuple) and k[0] == 'text': st.ghost[k] = Poly.var(poly.fresh_name('text'), -2**62, 2**62)
                if isinstance(k, tuple) and k[0] == 'arg': st.ghost[k] = Poly.var(poly.fresh_name('arg_' + k[2]), -2**31, 2**31 - 1)
            st.ghost['want'] = {k: Poly.var(poly.fresh_name('want_' + k), -2**62 if k == 'infile' else -2**31, 2**62 if k == 'infile' else 2**31 - 1) for k in st.ghost['want']}
            st.ghost['parsed'] = z3.Bool(poly.fresh_name('parsed'))
        def inv_opts(a, L, S0, S, E0):
            o, t = parsed(S); w = S.ghost['want']; d = L('device') if L.has('device') else L.cell('device.i' if any(k[0].name.split('#')[0] == 'device.i' for k in L.st.cells) else 'device')
            return [('%s is what the options so far ask for' % k, eq(S.ghost[('arg', o, k)], w[k])) for k in KEYS] + [('the input file is what the options so far ask for', eq(t, w['infile'])), ('the device is what the options so far ask for', And(eq(d, w['device']), le(0, d), le(d, 1)))]
        def points(S):
            v = [v for v in S.vecs if isinstance(v, VecObj) and v.region is not None and v.stride == 3]
            if len(v) != 1: raise Unsupported('points')
            return v[0]
        def gh_lines(E, st):
            for k in list(st.ghost):
                if isinstance(k, tuple) and k[0] == 'text': st.ghost[k] = Poly.var(poly.fresh_name('text'), -2**62, 2**62)
                if isinstance(k, tuple) and k[0] == 'stream': st.ghost[k] = (st.ghost[k][0], z3.Bool(poly.fresh_name('ok'))) + st.ghost[k][2:]
            st.ghost['cursor'] = Poly.var(poly.fresh_name('cursor'), 0, 2**29)
        def inv_lines(a, L, S0, S, E0):
            v = points(S); r = v.region; m = S[r]; cur = S.ghost['cursor']; f = [S.ghost[k] for k in S.ghost if isinstance(k, tuple) and k[0] == 'stream' and S.ghost[k][0] == 'file']
            if len(f) != 1: raise Unsupported('input file')
            return [('cursor', And(le(0, cur), le(cur, a.lines))), ('one point per line', eq(S.vlen(v), cur)), ('the file is readable', And(f[0][1], a.opened)), ('the lines are well formed', Forall([Var('p', [(r, 0, 1)], tags=['line'], lo=0, hi=a.lines)], lambda p: Implies(lt(p, cur), s.good(p)))),
                    ('the points are those of the lines', Forall([Var('p', [(r, 0, 1)], tags=['line'], lo=0, hi=a.lines), Var('c', [(r, 1, 1)], tags=['column'], lo=0, hi=3)], lambda p, c: Implies(lt(p, cur), m_eq(m, p, c))))]
        def aft(E, st, a, L, S, d):
            st.tag('line', S.ghost['cursor'])
            for c in range(3): st.tag('column', c)
        return [LoopSpec('options', ['device?'], inv_opts, None, noterm=True, ghost=gh_opts, modifies=lambda a, S0, S: []),
                LoopSpec('lines', [], inv_lines, lambda a, L, S: [a.lines - S.ghost['cursor']], ghost=gh_lines, after=aft, modifies=lambda a, S0, S: [])]

def contracts(): return [Main(), Tess(), Print()]
