"""Ideal (real) arithmetic terms: polynomials with rational coefficients over z3 Real atoms.

Floating-point operations of the code are read as operations on reals (the
assumption is stated wherever a contract uses this mode).  Products of atoms are
uninterpreted (rmul) unless NONLINEAR is set, then they are z3 products."""
import z3
from fractions import Fraction as Fr

ATOMS = []; _byterm = {}; _keep = []
NONLINEAR = [False]
RMUL = z3.Function('rmul', z3.RealSort(), z3.RealSort(), z3.RealSort())
RDIV = z3.Function('rdiv', z3.RealSort(), z3.RealSort(), z3.RealSort())
MONOS = {}            # key -> z3 term (opaque products), for lemmas
LIM = 400

def reset():
    ATOMS.clear(); _byterm.clear(); _keep.clear(); MONOS.clear(); NONLINEAR[0] = False

def atom(t):
    k = t.get_id(); a = _byterm.get(k)
    if a is None:
        a = len(ATOMS); ATOMS.append(t); _byterm[k] = a; _keep.append(t)
    return a

class RP:
    __slots__ = ('m', '_t', 'flag')
    def __init__(s, m): s.m = m; s._t = None; s.flag = None   # flag: z3 Bool when the value is (Real)bool
    @staticmethod
    def const(c):
        c = Fr(c)
        return RP({(): c} if c else {})
    @staticmethod
    def var(name): return RP({(atom(z3.Real(name)),): Fr(1)})
    @staticmethod
    def term(t):
        if isinstance(t, RP): return t
        if z3.is_rational_value(t): return RP.const(Fr(t.numerator_as_long(), t.denominator_as_long()))
        return RP({(atom(t),): Fr(1)})
    def isconst(s): return not s.m or (len(s.m) == 1 and () in s.m)
    def cval(s): return s.m.get((), Fr(0))
    def __add__(s, o):
        o = R(o); m = dict(s.m)
        for k, c in o.m.items():
            v = m.get(k, 0) + c
            if v: m[k] = v
            else: m.pop(k, None)
        return RP(m)
    __radd__ = __add__
    def __neg__(s): return RP({k: -c for k, c in s.m.items()})
    def __sub__(s, o): return s + (-R(o))
    def __rsub__(s, o): return R(o) - s
    def __mul__(s, o):
        o = R(o)
        if s.flag is not None and o.flag is None: return rite(s.flag, o, RP.const(0))
        if o.flag is not None and s.flag is None: return rite(o.flag, s, RP.const(0))
        if len(s.m) * len(o.m) > LIM:
            return RP.term(RMUL(s.t(), o.t()))
        m = {}
        for k1, c1 in s.m.items():
            for k2, c2 in o.m.items():
                k = tuple(sorted(k1 + k2)); v = m.get(k, 0) + c1 * c2
                if v: m[k] = v
                else: m.pop(k, None)
        return RP(m)
    __rmul__ = __mul__
    def key(s): return tuple(sorted(s.m.items()))
    def same(s, o): return s.m == R(o).m
    def t(s):
        if s._t is None or NONLINEAR[0] != s._t[0]:
            parts = []
            for k, c in sorted(s.m.items()):
                cv = z3.RealVal(str(c))
                if not k: parts.append(cv); continue
                if NONLINEAR[0]:
                    x = ATOMS[k[0]]
                    for a in k[1:]: x = x * ATOMS[a]
                else:
                    x = ATOMS[k[0]]
                    for a in k[1:]: x = RMUL(x, ATOMS[a])
                    if len(k) > 1: MONOS[k] = x
                parts.append(x if c == 1 else cv * x)
            r = z3.RealVal(0) if not parts else parts[0] if len(parts) == 1 else z3.Sum(parts)
            s._t = (NONLINEAR[0], r)
        return s._t[1]
    def __repr__(s): return str(s.t())

def R(x):
    if isinstance(x, RP): return x
    if isinstance(x, (int, float, Fr)): return RP.const(Fr(x))
    return RP.term(x)

def rite(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a.same(b): return a
    return RP.term(z3.If(c, a.t(), b.t()))

def rdiv(a, b):
    a, b = R(a), R(b)
    if b.isconst() and b.cval() != 0:
        return RP({k: c / b.cval() for k, c in a.m.items()})
    # a / b = a * (1/b)
    inv = RP.term(RDIV(z3.RealVal(1), b.t()))
    return a * inv, (b, inv)

def _c(d, op):
    if d.isconst():
        c = d.cval()
        return z3.BoolVal({'<': c < 0, '<=': c <= 0, '==': c == 0}[op])
    pos = RP({k: c for k, c in d.m.items() if c > 0}); neg = RP({k: -c for k, c in d.m.items() if c < 0})
    a, b = pos.t(), neg.t()
    return a < b if op == '<' else a <= b if op == '<=' else a == b
def rlt(a, b): return _c(R(a) - R(b), '<')
def rle(a, b): return _c(R(a) - R(b), '<=')
def req(a, b): return _c(R(a) - R(b), '==')
