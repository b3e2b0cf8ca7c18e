"""C09: the jagged container, through clients that construct one and use it (every member is inlined).

Rows are given by offs: offs[0] = 0, nondecreasing, last = length of the list.  Output is judged as text: the ghost state of
the stream holds the line or row that is open, the number of elements so far, and for element e the row it was written to."""
from lib import *
from exec import Contract, LoopSpec
from run import Snap
import poly
from contracts.asm import ifn

I = z3.IntSort()
BIG = 2**30
class Base_(Contract):
    rounds = 2; timeout = 20000
    def __init__(s, name, fn): s.name, s.fn = 'dnn: ' + name, fn
    def make(s, E, st, f):
        M, n = Poly.var(poly.fresh_name('rows'), 0, BIG), Poly.var(poly.fresh_name('listed'), 0, BIG)
        args = [vec(st, 'list', 'i32', n, sizes=[n]), vec(st, 'offs', 'i32', M + 1, sizes=[M + 1])]
        return args + s.extra(E, st)
    def extra(s, E, st): return []
    def bind(s, E, st, args):
        a = NS(E=E, list=reg(args[0]), offs=reg(args[1]), n=P(args[0].r.n), M=P(args[1].r.n) - 1)
        s.more(E, st, a, args[2:]); return a
    def more(s, E, st, a, x): pass
    def o(s, a, S, i): return rd(S[a.offs], i)
    def el(s, a, S, i): return rd(S[a.list], i)
    def pre(s, a, S):
        a.mono = Forall([Var('r', [(a.offs, 0, 1)], tags=['row'], lo=0, hi=a.M)], lambda r: And(le(0, s.o(a, S, r)), le(s.o(a, S, r), s.o(a, S, r + 1)), le(s.o(a, S, r + 1), a.n)))
        return [('offsets', And(eq(s.o(a, S, 0), 0), eq(s.o(a, S, a.M), a.n))), ('offsets', a.mono)]
    def modifies(s, a, S): return []

class Size(Base_):
    def __init__(s, name, fn): super().__init__(name, fn)
    def post(s, a, S0, S1, ret): return [('one row per offset pair', eq(ret.p, a.M))]
class SizeMoved(Size):
    def modifies(s, a, S): return [(a.list, lambda p: TRUE), (a.offs, lambda p: TRUE)]
class SizeDefault(Contract):
    name = 'dnn: size of a default container'; fn = r'client_size_default\('
    def make(s, E, st, f): return []
    def bind(s, E, st, args): return NS(E=E)
    def pre(s, a, S): return []
    def modifies(s, a, S): return []
    def post(s, a, S0, S1, ret): return [('no rows', eq(ret.p, 0))]
def idx(E, st, name, n): return IntV(Poly.var(poly.fresh_name(name), 0, BIG), n)
class Row(Base_):
    def extra(s, E, st): return [idx(E, st, 'i', 32)]
    def more(s, E, st, a, x): a.i = E.signed(st, x[0])
    def pre(s, a, S): return super().pre(a, S) + [('row', And(le(0, a.i), lt(a.i, a.M)))]
    def hints(s, E, st, a): st.tag('row', a.i)
    def post(s, a, S0, S1, ret): return [('length of the row', eq(ret.p, s.o(a, S0, a.i + 1) - s.o(a, S0, a.i)))]
class Read(Row):
    def extra(s, E, st): return [idx(E, st, 'i', 32), idx(E, st, 'j', 64)]
    def more(s, E, st, a, x): a.i, a.j = E.signed(st, x[0]), E.unsigned(st, x[1])
    def pre(s, a, S): return super().pre(a, S) + [('element', And(le(0, a.j), lt(a.j, s.o(a, S, a.i + 1) - s.o(a, S, a.i))))]
    def post(s, a, S0, S1, ret): return [('the element', eq(s.E_s(a, ret), s.el(a, S0, s.o(a, S0, a.i) + a.j)))]
    def E_s(s, a, ret): return ret.p
class ReadMoved(Read):
    def modifies(s, a, S): return [(a.list, lambda p: TRUE), (a.offs, lambda p: TRUE)]
class Write(Read):
    def extra(s, E, st): return [idx(E, st, 'i', 32), idx(E, st, 'j', 64), ivar(E, 'v', 32, -2**31, 2**31 - 1), idx(E, st, 'i2', 32), idx(E, st, 'j2', 64)]
    def more(s, E, st, a, x): a.i, a.j, a.v, a.i2, a.j2 = E.signed(st, x[0]), E.unsigned(st, x[1]), E.signed(st, x[2]), E.signed(st, x[3]), E.unsigned(st, x[4])
    def pre(s, a, S):
        o = lambda i: s.o(a, S, i)
        # monotone offsets, between the two rows read and written (from the neighbouring pairs by induction)
        return super().pre(a, S) + [('second row', And(le(0, a.i2), lt(a.i2, a.M))), ('second element', And(le(0, a.j2), lt(a.j2, o(a.i2 + 1) - o(a.i2)))),
                                    ('rows do not overlap (induction on the offsets)', And(Implies(lt(a.i, a.i2), le(o(a.i + 1), o(a.i2))), Implies(lt(a.i2, a.i), le(o(a.i2 + 1), o(a.i)))))]
    def post(s, a, S0, S1, ret):
        same = And(eq(a.i, a.i2), eq(a.j, a.j2))
        return [('the element written, and only that one, changes', eq(ret.p, pol_ite(same, a.v, s.el(a, S0, s.o(a, S0, a.i2) + a.j2))))]
class WriteRow(Read):
    def extra(s, E, st): return [idx(E, st, 'i', 32), idx(E, st, 'j', 64), ivar(E, 'v', 32, -2**31, 2**31 - 1), idx(E, st, 'i2', 32)]
    def more(s, E, st, a, x): a.i, a.j, a.v, a.i2 = E.signed(st, x[0]), E.unsigned(st, x[1]), E.signed(st, x[2]), E.signed(st, x[3])
    def pre(s, a, S): return super().pre(a, S) + [('second row', And(le(0, a.i2), lt(a.i2, a.M)))]
    def post(s, a, S0, S1, ret): return [('lengths stay', eq(ret.p, s.o(a, S0, a.i2 + 1) - s.o(a, S0, a.i2)))]

class Text(Base_):
    """print and savetxt"""
    def __init__(s, name, fn, fmt): super().__init__(name, fn); s.fmt = fmt
    def extra(s, E, st):
        st.ghost.update(d=P(0), R=P(0), n=P(0), sep=P(1), V=lambda e: P(0), W=lambda e: P(-1))
        return [] if s.fmt == 'print' else [PtrV(Cells('fname', False), 0)]
    def sink(s, x): return x == '@_ZSt4cout' if s.fmt == 'print' else isinstance(x, Cells) and x.name.split('#')[0].split('.')[0] == 'fp' or isinstance(x, Cells) and ('open', x) in VecObj.CUR
    def output(s, E, st, sink, tok):
        if isinstance(sink, str) and 'cerr' in sink: return
        if not s.sink(sink): raise Unsupported('output to %r' % (sink,))
        g = st.ghost
        if tok is None: raise Unsupported('output of this type')
        if isinstance(tok, Poly):
            E.oblige(st, 'elements are separated', eq(g['sep'], 1), 'output')
            if s.fmt == 'print': E.oblige(st, 'elements are inside a row', eq(g['d'], 2), 'output')
            V, W, n, r = g['V'], g['W'], g['n'], (g['R'] - 1 if s.fmt == 'print' else g['R'])
            g['V'] = lambda e: pol_ite(eq(e, n), tok, V(e)); g['W'] = lambda e: pol_ite(eq(e, n), r, W(e)); g['n'] = n + 1; g['sep'] = P(0)
            return
        for ch in tok:
            if s.fmt == 'print':
                if ch == '{': g['R'] = g['R'] + pol_ite(eq(g['d'], 1), P(1), P(0)); g['d'] = g['d'] + 1; g['sep'] = P(1)
                elif ch == '}': E.oblige(st, 'braces match', ge(g['d'], 1), 'output'); g['d'] = g['d'] - 1; g['sep'] = P(1)
                elif ch == ',': g['sep'] = P(1)
                elif ch not in ' \n\t': E.oblige(st, 'only rows are written', FALSE, 'output')
            else:
                if ch == '\n': g['R'] = g['R'] + 1; g['sep'] = P(1)
                elif ch in ' \t,': g['sep'] = P(1)
                else: E.oblige(st, 'only rows are written', FALSE, 'output')
    def ev(s, a, hi): return Var('e', [(a.list, 0, 1)], tags=['elem'], lo=0, hi=hi)
    def written(s, a, S0, S, n):
        g = S.ghost; V, W = g['V'], g['W']
        def place(e): w = W(e); return And(eq(V(e), s.el(a, S0, e)), le(0, w), lt(w, a.M), le(s.o(a, S0, w), e), lt(e, s.o(a, S0, w + 1)))
        return ('each element so far is in its own row', Forall([s.ev(a, n)], place))
    def post(s, a, S0, S1, ret):
        g = S1.ghost; ok = [v for k, v in g.items() if isinstance(k, tuple) and k[0] == 'open']
        if s.fmt != 'print' and len(ok) != 1: return [('the file is opened', FALSE)]
        c = ok[0] if ok else TRUE
        W = s.written(a, S0, S1, a.n)[1]
        return [('one row per point', Implies(c, eq(g['R'], a.M))), ('every element once', Implies(c, eq(g['n'], a.n)))] + ([('braces match', eq(g['d'], 0))] if s.fmt == 'print' else []) + [
                ('each element is in its own row', Forall(W.vars, lambda e: Implies(c, W.body(e))))]
    @property
    def loops(s):
        def gh(*names):
            def f(E, st):
                for n in names:
                    if n in 'VW': st.ghost[n] = ifn(z3.Function(poly.fresh_name(n), I, I))
                    else: st.ghost[n] = Poly.fresh('ghost_' + n, 0)
            return f
        pr = s.fmt == 'print'; base = 1 if pr else 0
        def row(a, S, c): return And(eq(S.ghost['R'], c - 1 + base), *([eq(S.ghost['d'], 2)] if pr else []))
        def inv0(a, L, S0, S, E0):
            c, i, g = L.u('counter'), L('index'), S.ghost
            return [('cursor', And(eq(L.idx('__begin0'), i), le(0, i), le(i, a.n), eq(g['n'], i))), ('counter', And(le(1, c), Or(le(c, a.M), And(eq(c, 1), eq(a.M, 0))))), ('row', row(a, S, c)),
                    ('position', And(le(s.o(a, S0, c - 1), i), Implies(ge(a.M, 1), le(i, s.o(a, S0, c))))), ('separated', Or(eq(g['sep'], 1), eq(i, a.n))), s.written(a, S0, S, i)]
        def aft(E, st, a, L, S, d):
            c = L.u('counter')
            for x in (c, c - 1, a.M - 1): st.tag('row', x); E.instantiate(st, a.mono, x)
            try: st.tag('elem', (L if L.has('index') else L.outer('elements'))('index'))
            except Unsupported: pass
        def inv1(a, L, S0, S, E0):
            c, i = L.u('counter'), L.outer('elements')('index')
            return [('counter', And(le(1, c), le(c, a.M))), ('row', row(a, S, c)), ('position', And(le(s.o(a, S0, c - 1), i), le(i, s.o(a, S0, c)))), ('separated', eq(S.ghost['sep'], 1))]
        def inv2(a, L, S0, S, E0):
            c = L.u('counter')
            return [('counter', And(le(1, c), Or(le(c, a.M + 1 - base), And(eq(a.M, 0), eq(c, 1))))), ('row', row(a, S, c))]
        no = lambda a, S0, S: []
        return [LoopSpec('elements', ['__begin0', 'counter', 'index'], inv0, lambda a, L, S: [a.n - L('index')], ghost=gh('d', 'R', 'n', 'sep', 'V', 'W'), after=aft, modifies=no),
                LoopSpec('empty rows', ['counter'], inv1, lambda a, L, S: [a.M + 1 - L.u('counter')], ghost=gh('d', 'R', 'sep'), after=aft, modifies=no),
                LoopSpec('last rows', ['counter'], inv2, lambda a, L, S: [a.M + 1 - L.u('counter')], ghost=gh('d', 'R', 'sep'), after=aft, modifies=no)]

def contracts():
    return [Size('size', r'client_size\('), SizeMoved('size (moved in)', r'client_size_moved\('), SizeDefault(), Row('row length', r'client_row\('), Read('read', r'client_read\('), ReadMoved('read (moved in)', r'client_read_moved\('),
            Write('write', r'client_write\('), WriteRow('row length after a write', r'client_write_row\('), Text('print', r'client_print\(', 'print'), Text('savetxt', r'client_savetxt\(', 'savetxt')]
