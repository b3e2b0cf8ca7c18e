"""Assumed contracts of library members (std::vector, SYCL accessors, ...) and helpers for writing contracts."""
from exec import *
import exec as X

def vobj(v):
    if isinstance(v, PtrV) and isinstance(v.r, VecObj) and ('vv', v.r) in VecObj.CUR: return VecObj.CUR[('vv', v.r)]       # a vector of vectors made by the function
    if isinstance(v, PtrV) and isinstance(v.r, (VecObj, VecVec, RowVec)): return v.r
    if isinstance(v, PtrV) and isinstance(v.r, Cells) and v.off.isconst():         # a vector inside an object
        o = VecObj.CUR.get(('emb', v.r, v.off.cval()))
        if o is not None: return o
    raise Unsupported('not a vector object: %r' % (v,))

def vlen(E, st, v):
    if isinstance(v, RowVec):
        save = logic.REC; logic.REC = st.rec
        r = rd(st.mem[v.vv.lens], v.i); logic.REC = save
        return r
    if v in st.vecs: return st.vecs[v]
    if v.n is None: raise Unsupported('length of %s unknown' % v)
    return P(v.n)

@intrinsic(r'(std::vector<.*>|sycl::(local_)?(host_)?accessor<.*>)::(operator\[\]|at)(<.*>)?\(')
def i_index(E, st, args, i):
    v = vobj(args[0])
    ix = args[1]
    if isinstance(ix, PtrV):   # sycl::id<1> by address
        ix = E.load(st, ix, IntT(64))
    idx = E.unsigned(st, ix) if ix.n == 64 else E.signed(st, ix)
    if isinstance(v, VecVec):
        E.oblige(st, 'bounds:row:%s' % v.name, And(le(0, idx), lt(idx, v.n)), 'safety')
        return PtrV(RowVec(v, idx), 0)
    if isinstance(v, RowVec):
        E.oblige(st, 'bounds:rowelem:%s' % v.vv.name, And(le(0, idx), lt(idx, vlen(E, st, v))), 'safety')
        d = v.vv.data
        return PtrV(d, d.phys([v.i, idx]) * d.esz)
    r = v.region
    if any(x is None for x in r.sizes):
        E.oblige(st, 'bounds:index:%s' % v.name, And(le(0, idx), lt(idx, vlen(E, st, v))), 'safety')
    return PtrV(r, idx * (r.esz * v.stride))

@intrinsic(r'std::vector<.*>::size\(|sycl::buffer<.*>::size\(')
def i_size(E, st, args, i): return IntV(vlen(E, st, vobj(args[0])), 64)

@intrinsic(r'std::vector<.*>::empty\(')
def i_empty(E, st, args, i): return BoolV(eq(vlen(E, st, vobj(args[0])), 0))

@intrinsic(r'std::vector<.*>::(data|begin|cbegin)\(')
def i_data(E, st, args, i):
    v = vobj(args[0])
    if isinstance(v, RowVec):
        d = v.vv.data; return PtrV(d, d.phys([v.i, P(0)]) * d.esz)
    return PtrV(v.region, 0)

@intrinsic(r'std::vector<.*>::(end|cend)\(')
def i_end(E, st, args, i):
    v = vobj(args[0])
    if isinstance(v, RowVec):
        d = v.vv.data; return PtrV(d, d.phys([v.i, vlen(E, st, v)]) * d.esz)
    return PtrV(v.region, vlen(E, st, v) * (v.region.esz * v.stride))

# ---- vectors created by the function itself
ELEM = [(r'int', 'i32', 1), (r'unsigned char', 'u8', 1), (r'float', 'f32', 1), (r'double', 'f64', 1), (r'unsigned long', 'u64', 1), (r'unsigned int', 'u32', 1),
        (r'std::verif_thread', 'u8', 1), (r'std::array<float, 3ul>', 'f32', 3), (r'std::array<double, 3ul>', 'f64', 3)]
def vec_elem(dem):
    m = re.match(r'std::vector<(.*?), std::allocator<', dem)
    for rx, k, stride in ELEM:
        if m and re.fullmatch(rx, m.group(1)): return k, stride
    raise Unsupported('vector element type: ' + short(dem))
def vec_init(E, st, v, dem, n, fill):
    kind, stride = vec_elem(dem)
    if v.region is None:
        h = getattr(E.contract, 'vec_layout', None)
        lay = h(E, st, v.name, n) if h and stride == 1 else None       # rows the contract sees in a flat vector
        if lay: v.region = Region(v.name, kind, *lay)
        else: v.region = Region(v.name, kind, [stride, 1] if stride > 1 else None, [None, stride] if stride > 1 else None)
        v.region.local = True; v.region.vec = v; v.stride = stride
    if 'verif_thread' in dem: v.region.threads = True
    st.vecs[v] = n
    z = RP.const(0) if v.region.sort == 'F' else P(0)
    st.mem[v.region] = ConstMem(v.region, z if fill is None else fill)
def dem_of(E, i): return strip_ret(E.mod.dem[i.x['callee'].strip('@').strip('"')])
@intrinsic(r'std::vector<.*>::vector\((unsigned long, )?(.* const&, )?std::allocator<.*> const&\)|std::vector<.*>::vector\(\)')
def i_vec_ctor(E, st, args, i):
    d = dem_of(E, i)
    if isinstance(args[0], PtrV) and isinstance(args[0].r, Cells) and args[0].off.isconst() and d.endswith('vector()'):
        k, stride = vec_elem(d); r = Region('empty', k, [stride, 1] if stride > 1 else None, [None, stride] if stride > 1 else None); r.local = True
        w = VecObj('empty', r, None, stride); st.mem[r] = ConstMem(r, RP.const(0) if r.sort == 'F' else P(0)); st.vecs[w] = P(0); st.ghost[('emb', args[0].r, args[0].off.cval())] = w
        return
    v = vobj(args[0])
    if d.endswith('vector()'): return vec_init(E, st, v, d, P(0), None)
    fill = None
    if re.search(r'vector\(unsigned long, ', d) is None: raise Unsupported('vector constructor ' + short(d))
    if len(args) == 4:
        k, stride = vec_elem(d)
        if stride > 1: raise Unsupported('fill of tuples')
        fill = E.load(st, args[2], {'i32': IntT(32), 'u8': IntT(8), 'f32': FloatT('float'), 'f64': FloatT('double'), 'u64': IntT(64)}[k])
        if isinstance(fill, IntV): fill = E.unsigned(st, fill) if k[0] == 'u' else E.signed(st, fill)
    vec_init(E, st, v, d, E.unsigned(st, args[1]), fill)
@intrinsic(r'std::vector<.*>::~vector\(|std::allocator<.*>::~?allocator\(|std::pair<.*>::~pair')
def i_nop(E, st, args, i):
    v = args[0].r if args and isinstance(args[0], PtrV) else None
    if isinstance(v, VecObj) and 'nlive' in st.ghost:
        E.thread_cell(st, v, 'destructor')
        if getattr(v.region, 'threads', False):
            save = logic.REC; logic.REC = st.rec
            E.oblige(st, 'no running thread is destroyed', Forall([Var('j', [(v.region, 0, 1)], tags=['thread'], lo=0, hi=vlen(E, st, v))], lambda j: eq(rd(st.mem[v.region], j), 0)), 'thread'); logic.REC = save
    return None
def row_setlen(E, st, v, n):
    E.store(st, PtrV(v.vv.lens, v.i * 8), IntV(n, 64), IntT(64))
@intrinsic(r'std::vector<.*>::clear\(')
def i_clear(E, st, args, i):
    v = vobj(args[0])
    if isinstance(v, RowVec): return row_setlen(E, st, v, P(0))
    if not isinstance(v, VecObj) or v.region is None or not v.region.local: raise Unsupported('clear of an argument')
    st.vecs[v] = P(0)
@intrinsic(r'std::vector<.*>::(shrink_to_fit|reserve)\(')
def i_noop(E, st, args, i): return None
@intrinsic(r'std::vector<.*>::(push_back|emplace_back<[^<>,]*&>)\(')
def i_push_back(E, st, args, i):
    v = vobj(args[0])
    if not isinstance(v, VecObj) or v.region is None or not v.region.local or v.stride != 1: raise Unsupported('push_back on %s' % v)
    r, n = v.region, vlen(E, st, v)
    ty = FloatT('float' if r.esz == 4 else 'double') if r.sort == 'F' else IntT(8 * r.esz)
    x = E.load(st, args[1], ty)
    st.vecs[v] = n + 1
    E.store(st, PtrV(r, n * r.esz), x, ty)
@intrinsic(r'std::vector<.*>::vector\(std::vector<.*>&&\)')
def i_vec_move(E, st, args, i):
    """the destination takes the contents, the source is left empty"""
    d, v = args[0], vobj(args[1])
    if not isinstance(v, VecObj) or v.region is None: raise Unsupported('move of %r' % v)
    if isinstance(d, PtrV) and isinstance(d.r, Cells):
        if not v.region.local: vec_copy(E, st, d, v, '%s+%d' % (d.r.name, d.off.cval())); st.vecs[v] = P(0); return
        st.ghost[('moved', d.r, d.off.cval())] = (v.region, st.mem[v.region], vlen(E, st, v)); st.vecs[v] = P(0); return
    raise Unsupported('vector move constructor')
def vec_copy(E, st, dst, v, name):
    """a vector inside an object becomes a copy of v"""
    r0 = v.region; r = Region(name, r0.kind, r0.layout if len(r0.layout) > 1 else None, [None] * len(r0.layout) if len(r0.layout) > 1 else None)
    r.local = True; w = VecObj(name, r, None, v.stride); src = st.mem[r0]
    st.mem[r] = Fill(r, ConstMem(r, RP.const(0) if r.sort == 'F' else P(0)), lambda p: TRUE, lambda c: rd(src, r.phys(c)))
    st.vecs[w] = vlen(E, st, v); st.ghost[('emb', dst.r, dst.off.cval())] = w
    st.ghost['fixedlen'] = frozenset(st.ghost.get('fixedlen', ())) | {w}
@intrinsic(r'std::vector<.*>::vector\(std::vector<.*> const&\)')
def i_vec_copy(E, st, args, i):
    d, v = args[0], vobj(args[1])
    if isinstance(d, PtrV) and isinstance(d.r, Cells) and isinstance(v, VecObj) and d.off.isconst(): return vec_copy(E, st, d, v, '%s+%d' % (d.r.name, d.off.cval()))
    raise Unsupported('vector copy constructor')
@intrinsic(r'std::vector<.*>::resize\(unsigned long(, .* const&)?\)')
def i_resize(E, st, args, i):
    v = vobj(args[0])
    if isinstance(v, RowVec):
        if len(args) > 2: raise Unsupported('row resize with a fill value')
        old, n, d = vlen(E, st, v), E.unsigned(st, args[1]), v.vv.data
        def pred(p):
            co = d.decode(p); return And(eq(co[0], v.i), le(old, co[1]), lt(co[1], n))
        E.check_submod(st, d, pred, 'resize')
        st.mem[d] = Fill(d, st.mem[d], pred, lambda c: P(0))
        return row_setlen(E, st, v, n)
    if not isinstance(v, VecObj) or v.region is None or not v.region.local: raise Unsupported('resize of an argument')
    old, n = vlen(E, st, v), E.unsigned(st, args[1]); r = v.region
    h = getattr(E.contract, 'vec_layout', None)
    lay = h(E, st, v.name, n) if h and v.stride == 1 and old.isconst() and old.cval() == 0 else None
    if lay:            # emptied and refilled: rows of a new width
        r = Region(v.name, r.kind, *lay); r.local = True; r.vec = v; st.ghost[('vreg', v)] = r
    if r.sort == 'F': x = E.load(st, args[2], FloatT('float' if r.esz == 4 else 'double')) if len(args) > 2 else RP.const(0)
    else:
        x = E.load(st, args[2], IntT(8 * r.esz)) if len(args) > 2 else IntV(0, 8 * r.esz)
        x = E.unsigned(st, x) if r.lo == 0 else E.signed(st, x)
    if old.isconst() and old.cval() == 0: st.mem[r] = ConstMem(r, x)
    else: st.mem[r] = Fill(r, st.mem[r], lambda p: ge(r.decode(p)[0], old), lambda c: x)
    st.vecs[v] = n
@intrinsic(r'std::vector<.*>::assign\(unsigned long, .* const&\)')
def i_assign(E, st, args, i):
    if isinstance(vobj(args[0]), RowVec): raise Unsupported('assign to a row')
    i_clear(E, st, args[:1], i); i_resize(E, st, args, i)
@intrinsic(r'std::fill<')
def i_fill(E, st, args, i):
    b, e, x = args
    if not all(isinstance(y, PtrV) and isinstance(y.r, Region) for y in (b, e)) or b.r is not e.r: raise Unsupported('std::fill on %r' % (args,))
    r = b.r; sb, se = E.elem_index(r, b.off), E.elem_index(r, e.off)
    E.oblige(st, 'fill-range:%s' % r.name, And(le(0, sb), le(sb, se), le(se, vlen(E, st, r.vec) * r.vec.stride)), 'safety')
    v = E.load(st, x, FloatT('float' if r.esz == 4 else 'double') if r.sort == 'F' else IntT(8 * r.esz))
    if r.sort == 'I': v = E.unsigned(st, v) if r.lo == 0 else E.signed(st, v)
    whole = sb.isconst() and sb.cval() == 0 and se.same(vlen(E, st, r.vec) * r.vec.stride)
    pred = (lambda p: TRUE) if whole else (lambda p: And(le(sb, p), lt(p, se)))
    E.check_submod(st, r, pred, 'std::fill')
    st.mem[r] = Fill(r, st.mem[r], pred, lambda c: v)
@intrinsic(r'verif_spawn_begin')
def i_spawn_begin(E, st, args, i):
    c = args[0].r
    E.oblige(st, 'worker does not start threads', TRUE if st.ghost.get('worker') is None else FALSE, 'thread')
    cap = {v.r for k, v in st.cells.items() if k[0] is c and isinstance(v, PtrV)}
    st.ghost['captured'] = frozenset(st.ghost.get('captured', frozenset()) | cap)
    st.ghost['nlive'] = st.ghost['nlive'] + 1
    st.ghost['worker'] = NS(rows=None)
@intrinsic(r'verif_spawn_end')
def i_spawn_end(E, st, args, i): st.ghost['worker'] = None
@intrinsic(r'verif_join')
def i_join(E, st, args, i): st.ghost['nlive'] = st.ghost['nlive'] - 1
@intrinsic(r'verif_terminate')
def i_terminate(E, st, args, i): E.oblige(st, 'std::terminate is not reached', FALSE, 'thread')
@intrinsic(r'verif_hardware_concurrency')
def i_hc(E, st, args, i):
    E.assumed.add('std::thread::hardware_concurrency() is at least 1')
    if 'hc' not in st.ghost: st.ghost['hc'] = Poly.var(poly.fresh_name('hardware_concurrency'), 1, 2**31)
    return IntV(st.ghost['hc'], 32)
@intrinsic(r'std::(basic_)?ostream(<.*?>)?::(operator<<|_M_insert<)|std::(endl|flush|operator<< ?)<|std::operator<<')
def i_ostream(E, st, args, i):
    h = getattr(E.contract, 'output', None)
    if h:
        d = E.mod.dem[i.x['callee'].strip('@').strip('"')]; sink = args[0].d if isinstance(args[0], OpaqueV) else args[0].r
        if re.search(r'std::(endl|flush)<', d): tok = '\n' if 'endl<' in d else ''
        elif re.search(r'_Setw|_Setfill|_Setprecision|_Setbase', d): tok = ''
        elif re.search(r'\(std::basic_ostream<.*>&, char const\*\)', d): tok = str_of(st, args[1])
        elif re.search(r'\(std::basic_ostream<.*>&, char\)', d):
            if not args[1].p.isconst(): raise Unsupported('output of an unknown character')
            tok = chr(args[1].p.cval() % 256)
        elif re.search(r'operator<<\((int|long|short)\)$', d): tok = E.signed(st, args[1])
        elif re.search(r'operator<<\(unsigned (int|long|short)\)$', d): tok = E.unsigned(st, args[1])
        else: tok = None
        h(E, st, sink, tok)
    return args[0]
class VTab(Cells): pass
@intrinsic(r'std::basic_(o|i)?fstream<.*>::basic_')
def i_fstream(E, st, args, i):
    vt = Cells('vtable'); st.cells[(vt, -24)] = IntV(P(248), 64); st.cells[(args[0].r, args[0].off.cval())] = PtrV(vt, 0)
    st.ghost[('open', args[0].r)] = z3.Bool(poly.fresh_name('file_opens'))
@intrinsic(r'std::basic_(o|i)?fstream<.*>::(~basic_|close)')
def i_fclose(E, st, args, i): return None
@intrinsic(r'std::basic_(o|i)?fstream<.*>::is_open|std::basic_ios<.*>::(operator!|operator bool|good|fail|bad)\(')
def i_fok(E, st, args, i):
    ok = st.ghost.get(('open', args[0].r)) if isinstance(args[0], PtrV) else None
    if ok is None: raise Unsupported('state of a stream')
    d = dem_of(E, i)
    return BoolV(z3.Not(ok) if re.search(r'operator!|fail|bad', d) else ok)
@intrinsic(r'std::copy<')
def i_copy(E, st, args, i):
    b, e, d = args
    if not all(isinstance(x, PtrV) and isinstance(x.r, Region) for x in args) or b.r is not e.r: raise Unsupported('std::copy between %r' % (args,))
    R, D = b.r, d.r
    if R.sort != D.sort or len(R.layout) > 1 and not all(x.same(y) for x, y in zip(R.layout, D.layout)): raise Unsupported('std::copy layout')
    sb, se, db = E.elem_index(R, b.off), E.elem_index(R, e.off), E.elem_index(D, d.off)
    n = se - sb
    E.oblige(st, 'copy-range:%s' % R.name, ge(n, 0), 'safety')
    for r, end in ((R, se), (D, db + n)):
        if getattr(r, 'vec', None) is None: raise Unsupported('std::copy outside a vector')
        E.oblige(st, 'bounds:copy:%s' % r.name, le(end, vlen(E, st, r.vec) * r.vec.stride), 'safety')
    pred = lambda p: And(le(db, p), lt(p, db + n))
    E.check_submod(st, D, pred, 'std::copy')
    src, delta = st.mem[R], sb - db
    if R is D: raise Unsupported('std::copy within one vector')
    def val(c):
        return rd(src, D.phys(c) + delta)
    st.mem[D] = Fill(D, st.mem[D], pred, val)
    return PtrV(D, d.off + n * D.esz)
@intrinsic(r'std::make_pair<(std::vector<.*>&(, )?){2}>\(')
def i_make_pair(E, st, args, i):
    vs = [vobj(x) for x in args[1:3]]
    st.ghost['pair'] = [(v.region, st.mem[v.region], vlen(E, st, v)) for v in vs]

def refval(E, st, p, i):
    v = E.load(st, p, i if isinstance(i, (IntT, FloatT)) else IntT(32))
    return v
@intrinsic(r'std::(min|max)<int>\(int const&, int const&\)')
def i_minmax(E, st, args, i):
    x, y = (E.signed(st, E.load(st, p, IntT(32))) for p in args)
    mx = 'std::max' in strip_ret(E.mod.dem[i.x['callee'].strip('@').strip('"')])
    return struct_ptr(st, 'minmax', [(0, IntV(pol_ite(ge(x, y) if mx else le(x, y), x, y), 32))], local=True)
@intrinsic(r'std::(min|max)<float>\(float const&, float const&\)')
def i_fminmax(E, st, args, i):
    x, y = (E.load(st, p, FloatT('float')) for p in args)
    mx = 'std::max' in strip_ret(E.mod.dem[i.x['callee'].strip('@').strip('"')])
    return struct_ptr(st, 'minmax', [(0, rite(rle(y, x) if mx else rle(x, y), x, y))], local=True)
@intrinsic(r'std::(min|max)<float>\(std::initializer_list<float>\)')
def i_minmax_list(E, st, args, i):
    if not args[1].p.isconst(): raise Unsupported('min of a list of unknown length')
    mx = 'std::max' in strip_ret(E.mod.dem[i.x['callee'].strip('@').strip('"')])
    r = None
    for k in range(args[1].p.cval()):
        v = E.load(st, PtrV(args[0].r, args[0].off + 4 * k), FloatT('float'))
        r = v if r is None else rite(rlt(r, v) if mx else rlt(v, r), v, r)
    return r
FQUOT = z3.Function('fmod_quotient', z3.RealSort(), z3.RealSort(), z3.IntSort())
@intrinsic(r'(std|sycl)::fmod(<float>)?\(float, float\)')
def i_fmod(E, st, args, i):
    """x = n*y + r with 0 <= r < y, for x >= 0 and y > 0"""
    x, y = args
    n = Poly.term(FQUOT(x.t(), y.t())); r = RP.term(z3.Real(poly.fresh_name('fmod')))
    E.oblige(st, 'fmod-domain', And(rle(0, x), rlt(0, y)), 'safety')
    st.hyps.append(And(req(x, itof(n) * y + r), rle(0, r), rlt(r, y)))
    st.ghost.setdefault('fmods', []); st.ghost['fmods'] = st.ghost['fmods'] + [(x, y, n, r)]
    return r
def pos_product(u, v):
    """ordered field: u >= 0 and v >= 0 give u*v >= 0"""
    return Implies(And(rle(0, u), rle(0, v)), rle(0, u * v))

# ---- strings, parameters (vtargs) and streams
def str_of(st, p):
    if isinstance(p, PtrV) and isinstance(p.r, GStr) and p.off.isconst(): return p.r.b[p.off.cval():].split(b'\0')[0].decode('latin1')
    if isinstance(p, PtrV) and isinstance(p.r, Cells):
        v = st.cells.get((p.r, ('str', p.off.cval())))
        if isinstance(v, StrV): return v.v
    raise Unsupported('string %r' % (p,))
@intrinsic(r'std::__cxx11::basic_string<.*>::basic_string<.*>\(char const\*, std::allocator<char> const&\)')
def i_str_ctor(E, st, args, i): st.cells[(args[0].r, ('str', args[0].off.cval()))] = StrV(str_of(st, args[1]))
@intrinsic(r'std::__cxx11::basic_string<.*>::~basic_string\(')
def i_str_dtor(E, st, args, i): return None
class ArgsObj:
    """vtargs: known keys with their current numeric values (ghost)"""
    KEYS = ('k', 'cpu_nthreads', 'gpu_ndsize', 'chunksize', 'use_chunking', 'use_recompute', 'knn_grid_resolution', 'cc_p_maxsize', 'cc_t_maxsize', 'dev_suppress_stdout')
    def __init__(s, name): s.name = name
    def __repr__(s): return 'args(%s)' % s.name
    def get(s, S, key): return S.ghost[('arg', s, key)]
class ArgRef:
    def __init__(s, obj, key): s.obj, s.key = obj, key
def mkargs(st, name, vals):
    """vals: key -> Poly"""
    o = ArgsObj(name)
    for k in ArgsObj.KEYS: st.ghost[('arg', o, k)] = P(vals[k]) if k in vals else Poly.var(poly.fresh_name('arg_' + k), -2**31, 2**31 - 1)
    return PtrV(o, 0)
@intrinsic(r'votess::vtargs::operator\[\]\(')
def i_args_index(E, st, args, i):
    o = args[0].r if isinstance(args[0], PtrV) else None
    if not isinstance(o, ArgsObj): raise Unsupported('vtargs object %r' % (args[0],))
    key = str_of(st, args[1])
    E.oblige(st, 'known-parameter:%s' % key, TRUE if key in ArgsObj.KEYS else FALSE, 'pre')
    if key not in ArgsObj.KEYS: raise Unsupported('parameter ' + key)
    return PtrV(ArgRef(o, key), 0)
@intrinsic(r'votess::vtargref::(operator [a-z ]+|get)<([a-z ]+)>\(')
def i_arg_get(E, st, args, i):
    """the value last assigned, read back as T (assumed contract: decimal text round-trips for values of T)"""
    a = args[0].r
    if not isinstance(a, ArgRef): raise Unsupported('vtargref %r' % (args[0],))
    ty = re.search(r'<([a-z ]+)>\(', dem_of(E, i)).group(1); v = st.ghost[('arg', a.obj, a.key)]
    lo, hi, n = {'int': (-2**31, 2**31, 32), 'unsigned long': (0, 2**64, 64), 'unsigned int': (0, 2**32, 32), 'bool': (0, 2, 1), 'long': (-2**63, 2**63, 64)}.get(ty, (None, None, None))
    if lo is None: raise Unsupported('parameter as ' + ty)
    E.oblige(st, 'parameter-range:%s' % a.key, And(le(lo, v), lt(v, hi)), 'pre')
    return BoolV(ne(v, 0)) if n == 1 else IntV(v, n)
@intrinsic(r'votess::vtargref::operator=<([a-z ]+)>\(')
def i_arg_set(E, st, args, i):
    a = args[0].r
    if not isinstance(a, ArgRef): raise Unsupported('vtargref %r' % (args[0],))
    ty = re.search(r'operator=<([a-z ]+)>\(', dem_of(E, i)).group(1)
    n = {'int': 32, 'unsigned long': 64, 'bool': 8, 'unsigned int': 32}.get(ty)
    if n is None: raise Unsupported('parameter from ' + ty)
    v = E.load(st, args[1], IntT(n))
    if isinstance(v, BoolV): v = IntV(pol_ite(v.c, P(1), P(0)), 8)
    st.ghost[('arg', a.obj, a.key)] = E.signed(st, v) if ty == 'int' else E.unsigned(st, v)
    return args[0]

# ---- helpers for contracts
def vecvec(st, name, n, kind='i32'):
    """vector<vector<T>>: lengths and rows; a row's entries lie 2^40 virtual cells apart from the next row's"""
    lens = region(st, name + '.len', 'u64', sizes=[n]); data = region(st, name + '.row', kind, [2**40, 1], [n, None])
    return PtrV(VecVec(name, lens, data, n), 0)
def ivar(E, name, n, lo, hi): return IntV(Poly.var(poly.fresh_name(name), lo, hi), n)
def rvar(name): return RP.term(z3.Real(poly.fresh_name(name)))
def region(st, name, kind, layout=None, sizes=None, base=None):
    r = Region(name, kind, layout, sizes, base=base)
    st.mem[r] = Base(r, r.newfn('pre'))
    return r
def vec(st, name, kind, n=None, layout=None, sizes=None, stride=1):
    r = region(st, name, kind, layout, sizes)
    return PtrV(VecObj(name, r, n, stride), 0)
def reg(v):
    """region behind a vector / accessor / pointer argument"""
    if isinstance(v, PtrV) and isinstance(v.r, VecObj): return v.r.region
    if isinstance(v, PtrV) and isinstance(v.r, Region):
        return v.r
    raise Unsupported('expected a vector or array, got %r' % (v,))
def struct_ptr(st, name, fields, local=False):
    """fields: list of (byte offset, value)"""
    c = Cells(name, local)
    for o, v in fields: st.cells[(c, o)] = v
    return PtrV(c, 0)
def field(E, st, p, off, n=32):
    return E.load(st, PtrV(p.r, p.off + off), IntT(n))
def linear_group(name, regions, base, n, src_region=None):
    g = Group(name, regions, lambda r, j: P(base) + P(j), lambda r, p: (And(le(base, p), lt(p, P(base) + P(n))), p - P(base)), n)
    g.src = [(r, base, 1) for r in regions]
    return g
def strided_group(name, regions, s, i, n):
    """entry j at physical s*j+i, layout [s,1] (columns i)"""
    def inrow(r, p):
        q, rem = p.divide_by(P(s))
        return And(eq(rem, i), le(0, q), lt(q, n)), q
    g = Group(name, regions, lambda r, j: P(s) * P(j) + P(i), inrow, n)
    g.src = [(r, i, s) for r in regions]
    return g
def in_range(base, n): return lambda p: And(le(base, p), lt(p, P(base) + P(n)))
