"""Integer terms as polynomials over atoms (z3 Int terms).

Every machine integer is a mathematical Int term; products of atoms are kept as
monomials and become opaque constants in queries (with monotonicity lemma
instances), so queries stay linear."""
import z3

class Atom:
    __slots__ = ('id', 'term', 'lo', 'hi')
    def __init__(s, id, term, lo, hi):
        s.id, s.term, s.lo, s.hi = id, term, lo, hi

ATOMS = []            # id -> Atom
_byterm = {}          # z3 ast id -> Atom
_keep = []
MONO = {}             # tuple(ids) -> z3 const
_fresh = [0]

def reset():
    ATOMS.clear(); _byterm.clear(); MONO.clear(); _keep.clear(); _mcache.clear(); _fresh[0] = 0

def atom_of(term, lo=None, hi=None):
    k = term.get_id()
    a = _byterm.get(k)
    if a is None:
        a = Atom(len(ATOMS), term, lo, hi)
        ATOMS.append(a); _byterm[k] = a; _keep.append(term)
    else:
        if lo is not None and (a.lo is None or lo > a.lo): a.lo = lo
        if hi is not None and (a.hi is None or hi < a.hi): a.hi = hi
    return a

def fresh_name(base):
    _fresh[0] += 1
    return '%s!%d' % (base, _fresh[0])

class Poly:
    __slots__ = ('m', '_t', '_h')
    def __init__(s, m):
        s.m = m; s._t = None; s._h = None
    @staticmethod
    def const(c):
        return Poly({(): c} if c else {})
    @staticmethod
    def var(name, lo=None, hi=None):
        return Poly({(atom_of(z3.Int(name), lo, hi).id,): 1})
    @staticmethod
    def fresh(base, lo=None, hi=None):
        return Poly.var(fresh_name(base), lo, hi)
    @staticmethod
    def term(t, lo=None, hi=None):
        """z3 Int term -> Poly"""
        if z3.is_int_value(t):
            return Poly.const(t.as_long())
        return Poly({(atom_of(t, lo, hi).id,): 1})
    def isconst(s):
        return not s.m or (len(s.m) == 1 and () in s.m)
    def cval(s):
        return s.m.get((), 0)
    def __add__(s, o):
        o = P(o)
        m = dict(s.m)
        for k, c in o.m.items():
            v = m.get(k, 0) + c
            if v: m[k] = v
            else: m.pop(k, None)
        return Poly(m)
    __radd__ = __add__
    def __neg__(s):
        return Poly({k: -c for k, c in s.m.items()})
    def __sub__(s, o):
        return s + (-P(o))
    def __rsub__(s, o):
        return P(o) - s
    def __mul__(s, o):
        o = P(o)
        m = {}
        for k1, c1 in s.m.items():
            for k2, c2 in o.m.items():
                k = tuple(sorted(k1 + k2))
                v = m.get(k, 0) + c1 * c2
                if v: m[k] = v
                else: m.pop(k, None)
        return Poly(m)
    __rmul__ = __mul__
    def key(s):
        if s._h is None:
            s._h = tuple(sorted(s.m.items()))
        return s._h
    def __eq__(s, o):
        raise TypeError('use eq()')
    def __hash__(s):
        return hash(s.key())
    def same(s, o):
        return s.key() == P(o).key()
    def t(s):
        """z3 term"""
        if s._t is None:
            parts = []
            for k, c in sorted(s.m.items()):
                if not k:
                    parts.append(z3.IntVal(c)); continue
                x = ATOMS[k[0]].term if len(k) == 1 else mono(k)
                parts.append(x if c == 1 else z3.IntVal(c) * x)
            s._t = z3.IntVal(0) if not parts else parts[0] if len(parts) == 1 else z3.Sum(parts)
        return s._t
    def interval(s):
        lo = hi = 0
        for k, c in s.m.items():
            l, h = 1, 1
            for a in k:
                al, ah = ATOMS[a].lo, ATOMS[a].hi
                cand = []
                if l is None or h is None or al is None or ah is None:
                    # only handle nonnegative
                    if l is not None and al is not None and l >= 0 and al >= 0:
                        l, h = l * al, (None if (h is None or ah is None) else h * ah)
                    else:
                        l = h = None
                        break
                else:
                    cand = [l * al, l * ah, h * al, h * ah]
                    l, h = min(cand), max(cand)
            if c < 0:
                l, h = h, l
            lo = None if (lo is None or l is None) else lo + c * l
            hi = None if (hi is None or h is None) else hi + c * h
        return lo, hi
    def atoms(s):
        r = set()
        for k in s.m: r.update(k)
        return r
    def divmod_const(s, d):
        """(quotient poly, remainder poly) by positive int d: monomials with divisible coefficients go to q."""
        q, r = {}, {}
        for k, c in s.m.items():
            if k == ():
                if c // d: q[k] = c // d
                if c % d: r[k] = c % d
            elif c % d == 0: q[k] = c // d
            else: r[k] = c
        return Poly(q), Poly(r)
    def divide_by(s, st):
        """(quotient, remainder) by stride polynomial st (single monomial * coefficient, or sum of such)."""
        st = P(st)
        if st.isconst():
            return s.divmod_const(st.cval())
        if len(st.m) != 1:
            # multi-term stride: try exact equality multiples only
            return None
        (mk, mc), = st.m.items()
        q, r = {}, {}
        for k, c in s.m.items():
            if tuple(k) == tuple(mk) and c % mc and mc > 0:      # constant multiple of the stride plus a rest
                q[()] = q.get((), 0) + c // mc; r[k] = c % mc; continue
            kk = list(k); ok = c % mc == 0
            if ok:
                for a in mk:
                    if a in kk: kk.remove(a)
                    else: ok = False; break
            if ok: q[tuple(kk)] = q.get(tuple(kk), 0) + c // mc
            else: r[k] = c
        return Poly(q), Poly(r)
    def __repr__(s):
        return str(z3.simplify(s.t())) if s.m else '0'
    def subst_ok(s):
        return True

def mono(k):
    m = MONO.get(k)
    if m is None:
        m = z3.Int('mul<%s>' % ','.join(str(ATOMS[a].term) if z3.is_const(ATOMS[a].term) else '#%d' % a for a in k))
        MONO[k] = m
    return m

def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, bool): raise TypeError
    if isinstance(x, int): return Poly.const(x)
    if isinstance(x, z3.ArithRef): return Poly.term(x)
    raise TypeError('not an int: %r' % (x,))

def _cmp(a, b, op):
    d = P(a) - P(b)
    lo, hi = d.interval()
    if op == '<=':
        if hi is not None and hi <= 0: return z3.BoolVal(True)
        if lo is not None and lo > 0: return z3.BoolVal(False)
        return _lin(d, '<=')
    if op == '==':
        if not d.m: return z3.BoolVal(True)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0): return z3.BoolVal(False)
        return _lin(d, '==')

def _lin(d, op):
    # move negatives to the right for readable terms
    pos = Poly({k: c for k, c in d.m.items() if c > 0})
    neg = Poly({k: -c for k, c in d.m.items() if c < 0})
    return pos.t() <= neg.t() if op == '<=' else pos.t() == neg.t()

def le(a, b): return _cmp(a, b, '<=')
def lt(a, b): return _cmp(P(a) + 1, b, '<=')
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)
def eq(a, b): return _cmp(a, b, '==')
def ne(a, b):
    r = eq(a, b)
    return z3.BoolVal(False) if z3.is_true(r) else z3.BoolVal(True) if z3.is_false(r) else z3.Not(r)

_mcache = {}
def _mono1(k):
    lo, hi = Poly({k: 1}).interval()
    c = _mcache.get(k)
    if c is not None and c[0] == (lo, hi): return c[1]
    m = MONO[k]; A = ATOMS[k[0]].term; B = ATOMS[k[1]].term if len(k) == 2 else mono(k[1:])
    out = []
    if lo is not None: out.append(m >= lo)
    if hi is not None: out.append(m <= hi)
    out += [z3.Implies(z3.And(A >= 0, B >= 0), m >= 0), z3.Implies(z3.And(A >= 1, B >= 0), m >= B), z3.Implies(z3.And(B >= 1, A >= 0), m >= A),
            z3.Implies(z3.Or(A == 0, B == 0), m == 0), z3.Implies(A == 1, m == B), z3.Implies(B == 1, m == A)]
    _mcache[k] = ((lo, hi), out)
    return out
def _mono2(k1, k2):
    """products sharing all but one factor"""
    c = _mcache.get((k1, k2))
    if c is not None: return c
    out = []
    if len(k1) == len(k2):
        for s in set(k1):
            if s not in k2: continue
            r1 = list(k1); r1.remove(s); r2 = list(k2); r2.remove(s)
            r1, r2 = tuple(r1), tuple(r2)
            if r1 == r2: continue
            S = ATOMS[s].term; A, B = (ATOMS[r[0]].term if len(r) == 1 else mono(r) for r in (r1, r2))
            out += [z3.Implies(z3.And(S >= 0, A <= B), MONO[k1] <= MONO[k2]), z3.Implies(z3.And(S >= 0, A + 1 <= B), MONO[k1] + S <= MONO[k2])]
            if len(r1) == 1: break
    _mcache[(k1, k2)] = out
    return out
def mono_lemmas(used):
    """Lemma instances (valid in integer arithmetic) about the opaque products in `used`."""
    ks = list(used); out = []
    for k in ks: out += _mono1(k)
    for k1 in ks:
        for k2 in ks:
            if k1 != k2: out += _mono2(k1, k2)
    return out
