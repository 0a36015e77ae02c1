"""Terms, definitional constraints and the incremental solver used while exploring."""
import math
import time
import z3

KEEP = []          # keeps every term alive so that get_id() stays unique
DEF = {}           # variable id -> [constraints that define / bound it] (cheap, linear)
DEFX = {}          # variable id -> [exact constraints] used when a counterexample is validated
VARS = {}          # variable id -> variable
_vc = {}
STAT = dict(checks=0, time=0.0, sat=0, unsat=0, unknown=0, finals=0, final_time=0.0)
U128 = 2 ** 128
U64 = 2 ** 64
STRMAX = 256 ** 32


class Inconclusive(Exception):
    pass


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def keep(e):
    KEEP.append(e)
    return e


KEYARGS = {}       # 'tbl[k3]' -> ('tbl', (key terms))
_fn = {}


def _mkterm(name, sort):
    """a plain constant, or - for names of the form tbl[kN].path - the application of an uninterpreted function to the
    key terms, so that equal keys have equal contents"""
    j = name.find('[k')
    if j >= 0:
        e = name.index(']', j) + 1
        base, args = KEYARGS[name[:e]]
        if args:
            full = base + '#' + name[e:]
            k = (full, len(args), sort)
            f = _fn.get(k)
            if f is None:
                f = _fn[k] = z3.Function(full, *([z3.IntSort()] * len(args)), z3.IntSort() if sort == 'i' else z3.BoolSort())
            return f(*args)
        name = base + '#' + name[e:]
    return z3.Int(name) if sort == 'i' else z3.Bool(name)


def keyname(base, args):
    args = tuple(args)
    k = (base,) + tuple(a.get_id() if is_sym(a) else ('c', a) for a in args)
    n = _kn.get(k)
    if n is None:
        n = _kn[k] = f'{base}[k{len(_kn)}]'
        for a in args:
            if is_sym(a):
                KEEP.append(a)
        KEYARGS[n] = (base, args)
    return n


_kn = {}


def intvar(name, lo=None, hi=None):
    v = _mkterm(name, 'i')
    i = v.get_id()
    if i not in VARS:
        VARS[i] = v
        KEEP.append(v)
        d = []
        if lo is not None:
            d.append(v >= lo)
        if hi is not None:
            d.append(v < hi)
        DEF[i] = d
        RNG[i] = (lo, None if hi is None else hi - 1)
    return v


RNG = {}           # term id -> (least, greatest) value known statically (None: unbounded)


def rng(x):
    """static interval of an integer term"""
    if not is_sym(x):
        return (x, x)
    i = x.get_id()
    r = RNG.get(i)
    if r is not None:
        return r
    k = x.decl().kind()
    r = (None, None)
    if z3.is_int_value(x):
        r = (x.as_long(), x.as_long())
    elif k == z3.Z3_OP_ADD:
        rs = [rng(c) for c in x.children()]
        r = (None if any(a is None for a, _ in rs) else sum(a for a, _ in rs), None if any(b is None for _, b in rs) else sum(b for _, b in rs))
    elif k == z3.Z3_OP_SUB and x.num_args() == 2:
        (a, b), (c, d) = rng(x.arg(0)), rng(x.arg(1))
        r = (None if a is None or d is None else a - d, None if b is None or c is None else b - c)
    elif k == z3.Z3_OP_ITE:
        (a, b), (c, d) = rng(x.arg(1)), rng(x.arg(2))
        r = (None if a is None or c is None else min(a, c), None if b is None or d is None else max(b, d))
    elif k == z3.Z3_OP_MUL and x.num_args() == 2:
        (a, b), (c, d) = rng(x.arg(0)), rng(x.arg(1))
        if a is not None and c is not None and a >= 0 and c >= 0:
            r = (a * c, None if b is None or d is None else b * d)
    KEEP.append(x)
    RNG[i] = r
    return r


def boolvar(name):
    v = _mkterm(name, 'b')
    i = v.get_id()
    if i not in VARS:
        VARS[i] = v
        KEEP.append(v)
        DEF[i] = []
    return v


def define(v, *cs):
    DEF.setdefault(v.get_id(), []).extend(c for c in cs if c is not True)


def define_exact(v, *cs):
    DEFX.setdefault(v.get_id(), []).extend(cs)


def varsof(e):
    i = e.get_id()
    r = _vc.get(i)
    if r is not None:
        return r
    stack = [e]
    while stack:
        x = stack[-1]
        xi = x.get_id()
        if xi in _vc:
            stack.pop()
            continue
        ch = x.children()
        pend = [c for c in ch if c.get_id() not in _vc]
        if pend:
            stack.extend(pend)
            continue
        s = set()
        for c in ch:
            s |= _vc[c.get_id()]
        if xi in VARS:
            s.add(xi)
        KEEP.append(x)
        _vc[xi] = frozenset(s)
        stack.pop()
    return _vc[i]


def defs_for(vs, done, exact=False):
    out = []
    work = [v for v in vs if v not in done]
    done.update(work)
    while work:
        v = work.pop()
        cs = DEF.get(v, ())
        if exact:
            cs = list(cs) + DEFX.get(v, [])
        for c in cs:
            out.append(c)
            for w in varsof(c):
                if w not in done:
                    done.add(w)
                    work.append(w)
    return out


def And(*xs):
    ys = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        ys.append(x)
    if not ys:
        return True
    if len(ys) == 1:
        return ys[0]
    return keep(z3.And(*ys))


def Or(*xs):
    ys = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        ys.append(x)
    if not ys:
        return False
    if len(ys) == 1:
        return ys[0]
    return keep(z3.Or(*ys))


def Not(x):
    if x is True:
        return False
    if x is False:
        return True
    if z3.is_not(x):
        return x.arg(0)
    return keep(z3.Not(x))


def Implies(a, b):
    return Or(Not(a), b)


def If(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, bool) and isinstance(b, bool):
            if a == b:
                return a
            return c if a else Not(c)
        if a is True:
            return Or(c, b)
        if a is False:
            return And(Not(c), b)
        if b is True:
            return Or(Not(c), a)
        return And(c, a)
    if not is_sym(a) and not is_sym(b):
        if a == b:
            return a
        a = z3.IntVal(a)
        b = z3.IntVal(b)
    elif is_sym(a) and is_sym(b) and a.eq(b):
        return a
    return keep(z3.If(c, a, b))


def Eq(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, bool):
            a, b = b, a
        return a if b else Not(a)
    if not is_sym(a) and not is_sym(b):
        return a == b
    if is_sym(a) and is_sym(b) and a.eq(b):
        return True
    return keep(a == b)


import operator as _o


def _cmp(op):
    def f(a, b):
        if is_sym(a) != is_sym(b):
            # decided by static intervals?
            la, ha = rng(a)
            lb, hb = rng(b)
            if op is _o.lt or op is _o.le:
                if ha is not None and lb is not None and op(ha, lb):
                    return True
                if la is not None and hb is not None and not op(la, hb):
                    return False
            else:
                if la is not None and hb is not None and op(la, hb):
                    return True
                if ha is not None and lb is not None and not op(ha, lb):
                    return False
        r = op(a, b)
        if isinstance(r, bool):
            return r
        if a is b or (is_sym(a) and is_sym(b) and a.eq(b)):
            return op(0, 0)
        return keep(r)
    return f


Lt, Le, Gt, Ge = _cmp(_o.lt), _cmp(_o.le), _cmp(_o.gt), _cmp(_o.ge)


class Incr:
    """Solver whose assertion stack follows the path condition of the state being explored."""

    def __init__(self, timeout=8000):
        self.s = z3.Solver()
        self.s.set('timeout', timeout)
        self.levels = []     # (constraint id, set of vars defined at this level)
        self.done = set()

    def _sync(self, pc):
        n = 0
        L = self.levels
        while n < len(L) and n < len(pc) and L[n][0] == pc[n].get_id():
            n += 1
        k = len(L) - n
        if k:
            self.s.pop(k)
            for _, vs in L[n:]:
                self.done -= vs
            del L[n:]
        for c in pc[n:]:
            self._push(c)

    def _push(self, c):
        self.s.push()
        before = set(self.done)
        ds = defs_for(varsof(c), self.done)
        for d in ds:
            self.s.add(d)
        self.s.add(c)
        self.levels.append((c.get_id(), self.done - before))

    def check(self, pc, c):
        t = time.time()
        self._sync(pc)
        self._push(c)
        r = self.s.check()
        STAT['checks'] += 1
        m = None
        if r == z3.sat:
            STAT['sat'] += 1
            m = self.s.model()
        elif r == z3.unsat:
            STAT['unsat'] += 1
        else:
            STAT['unknown'] += 1
        STAT['time'] += time.time() - t
        return r, m


def lemmas(done, cap=400):
    """congruence and monotonicity between the products and quotients of a query"""
    out = []
    ps = [PROD[i] for i in done if i in PROD]
    for i, (a, b, p) in enumerate(ps):
        for c, d, q in ps[i + 1:]:
            for x, y, u, v in ((a, b, c, d), (a, b, d, c), (b, a, c, d), (b, a, d, c)):
                if x.eq(u) and len(out) < cap:
                    out.append(z3.Implies(y == v, p == q))
                    out.append(z3.Implies(y <= v, p <= q))
                    out.append(z3.Implies(y >= v, p >= q))
                    break
    qs = [QUOT[i] for i in done if i in QUOT]
    for i, (a, b, p) in enumerate(qs):
        for c, d, q in qs[i + 1:]:
            same = (b.eq(d) if is_sym(b) and is_sym(d) else not is_sym(b) and not is_sym(d) and b == d)
            if same and len(out) < cap:
                out.append(z3.Implies(a == c, p == q))
                out.append(z3.Implies(a <= c, p <= q))
                out.append(z3.Implies(a >= c, p >= q))
    return out


def solve(constraints, exact=True, timeout=20000, extra=(), seed=0):
    """One stand-alone query: are the constraints satisfiable?  Returns ('sat', model) | ('unsat', None) | ('unknown', None)."""
    t = time.time()
    cs = []
    for c in constraints:
        if c is True:
            continue
        if c is False:
            return 'unsat', None
        cs.append(c)
    vs = set()
    for c in cs:
        vs |= varsof(c)
    done = set()
    ds = defs_for(vs, done, exact)
    s = z3.Solver()
    s.set('timeout', timeout)
    if seed:
        s.set('random_seed', seed)
    for c in cs:
        s.add(c)
    for d in ds:
        s.add(d)
    for d in extra:
        s.add(d)
    for d in lemmas(done):
        s.add(d)
    r = s.check()
    STAT['finals'] += 1
    STAT['final_time'] += time.time() - t
    if r == z3.sat:
        return 'sat', s.model()
    if r == z3.unsat:
        return 'unsat', None
    return 'unknown', None


_prods = {}
PROD = {}          # product variable -> (factor, factor, product)
QUOT = {}          # quotient variable -> (dividend, divisor, quotient)


def _terms(x):
    """a term as a list of (constant factor, atom) summands, or None when it has no such shape"""
    if not is_sym(x):
        return [(x, None)]
    k = x.decl().kind()
    if z3.is_int_value(x):
        return [(x.as_long(), None)]
    if k == z3.Z3_OP_ADD:
        return [t for c in x.children() for t in _terms(c)]
    if k == z3.Z3_OP_SUB:
        ch = x.children()
        return _terms(ch[0]) + [(-c, a) for y in ch[1:] for c, a in _terms(y)]
    if k == z3.Z3_OP_UMINUS:
        return [(-c, a) for c, a in _terms(x.arg(0))]
    if k == z3.Z3_OP_MUL and x.num_args() == 2:
        a, b = x.arg(0), x.arg(1)
        if z3.is_int_value(b):
            a, b = b, a
        if z3.is_int_value(a):
            return [(a.as_long() * c, t) for c, t in _terms(b)]
    return [(1, x)]


_itn = {}


def _ites(x):
    """number of leaves behind the conditionals of a term (minus one)"""
    if not is_sym(x):
        return 0
    i = x.get_id()
    r = _itn.get(i)
    if r is None:
        k = x.decl().kind()
        if k == z3.Z3_OP_ITE:
            r = 1 + _ites(x.arg(1)) + _ites(x.arg(2))
        elif k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL):
            r = sum(_ites(c) for c in x.children())
        else:
            r = 0
        KEEP.append(x)
        _itn[i] = r
    return r


ITEMAX = 24


def mul(a, b):
    """a*b.  Products are brought to a normal form: sums are distributed, conditionals are pulled out, and a product of two
    atoms is a term whose exact meaning is added on demand."""
    if not is_sym(a) and not is_sym(b):
        return a * b
    if not is_sym(a):
        a, b = b, a
    if not is_sym(b):
        if b == 0:
            return 0
        if b == 1:
            return a
        if a.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS) or coef(a)[0] != 1:
            r = 0
            for c, t in _terms(a):
                x = c * b if t is None else keep(t * (c * b)) if c * b != 1 else t
                r = x if not is_sym(r) and r == 0 else keep(r + x) if is_sym(r) or is_sym(x) else r + x
            return r
        return keep(a * b)
    ka = tuple(sorted((a.get_id(), b.get_id())))
    if ka in _full:
        return _full[ka]
    keep(a)
    keep(b)
    if _ites(a) + _ites(b) <= ITEMAX:
        for x, y in ((a, b), (b, a)):
            if x.decl().kind() == z3.Z3_OP_ITE:
                r = If(keep(x.arg(0)), mul(_int(x.arg(1)), y), mul(_int(x.arg(2)), y))
                _full[ka] = r
                return r
    ta, tb = _terms(a), _terms(b)
    if len(ta) * len(tb) > 16:
        r = _atommul(a, b)
    else:
        r = 0
        for c, x in ta:
            for d, y in tb:
                if x is None or y is None:
                    p = y if x is None else x
                    p = 1 if p is None else p
                else:
                    p = _atommul(keep(x), keep(y)) if not (_split(x) or _split(y)) else mul(keep(x), keep(y))
                p = mul(p, abs(c * d)) if is_sym(p) else p * abs(c * d)
                neg = c * d < 0
                if not is_sym(r) and not is_sym(p):
                    r = r - p if neg else r + p
                elif not is_sym(r) and r == 0 and not neg:
                    r = p
                else:
                    r = keep(r - p) if neg else keep(r + p)
    _full[ka] = r
    return r


def _split(x):
    return x.decl().kind() == z3.Z3_OP_ITE and _ites(x) <= ITEMAX


def _int(x):
    return x.as_long() if z3.is_int_value(x) else keep(x)


_full = {}
_prods = {}
PROD = {}          # product variable -> (factor, factor, product)
QUOT = {}          # quotient variable -> (dividend, divisor, quotient)


def factors(x):
    """atoms of a product variable (an atom that is itself a product is expanded)"""
    p = _mono.get(x.get_id())
    return p if p is not None else (x,)


_mono = {}


def _atommul(a, b):
    fs = tuple(sorted(factors(a) + factors(b), key=lambda t: t.get_id()))
    k = tuple(t.get_id() for t in fs)
    if k in _prods:
        return _prods[k]
    p = intvar('mul!' + '!'.join(map(str, k)), 0)
    (la, ha), (lb, hb) = rng(a), rng(b)
    if la is not None and lb is not None and ha is not None and hb is not None and la >= 0 and lb >= 0:
        RNG[p.get_id()] = (la * lb, ha * hb)
    define(p, z3.Implies(a == 0, p == 0), z3.Implies(b == 0, p == 0), z3.Implies(a == 1, p == b), z3.Implies(b == 1, p == a),
           z3.Implies(z3.And(a >= 1, b >= 1), z3.And(p >= a, p >= b)))
    define_exact(p, p == a * b)
    _prods[k] = p
    _mono[p.get_id()] = fs
    PROD[p.get_id()] = (a, b, p)
    return p


def coef(x):
    """(constant factor, rest) of a term"""
    if is_sym(x) and x.decl().kind() == z3.Z3_OP_MUL and x.num_args() == 2:
        a, b = x.arg(0), x.arg(1)
        if z3.is_int_value(b):
            a, b = b, a
        if z3.is_int_value(a) and a.as_long() > 0:
            c, r = coef(b)
            return a.as_long() * c, keep(r)
    return 1, x


_quots = {}


def div(a, b):
    """floor(a/b), a >= 0, b > 0"""
    if not is_sym(a) and not is_sym(b):
        return a // b
    if not is_sym(b) and b == 1:
        return a
    if not is_sym(b) and b > 0:
        c, r = coef(a)
        g = math.gcd(c, b)
        if g > 1:
            return div(mul(c // g, r), b // g)
    k = (a.get_id() if is_sym(a) else ('c', a), b.get_id() if is_sym(b) else ('c', b))
    if k in _quots:
        return _quots[k]
    if is_sym(a):
        keep(a)
    if is_sym(b):
        keep(b)
    q = intvar(f'div!{k[0]}!{k[1]}', 0)
    if is_sym(b):
        qb = mul(q, b)
        define(q, z3.Implies(b > 0, z3.And(qb <= a, a < qb + b)))
    else:
        define(q, z3.And(q * b <= a, a < q * b + b))
        la, ha = rng(a)
        if la is not None and la >= 0:
            RNG[q.get_id()] = (la // b, None if ha is None else ha // b)
    _quots[k] = q
    QUOT[q.get_id()] = (a, b, q)
    return q


def ceildiv(a, b):
    if not is_sym(a) and not is_sym(b):
        return -((-a) // b)
    if not is_sym(b) and b > 0:
        c, r = coef(a)
        g = math.gcd(c, b)
        if g > 1:
            return ceildiv(mul(c // g, r), b // g)
    return div(keep(a + (b - 1)) if is_sym(a) or is_sym(b) else a + b - 1, b)


def rem(a, b):
    if not is_sym(a) and not is_sym(b):
        return a % b
    return keep(a - mul(div(a, b), b))


def strcode(s):
    """Order-preserving code of a concrete string (strings up to 32 bytes; longer ones are compared on a prefix plus a hash)."""
    b = s.encode() if isinstance(s, str) else bytes(s)
    if len(b) > 32:
        import hashlib
        b = b[:16] + hashlib.blake2b(b, digest_size=16).digest()
    r = int.from_bytes(b.ljust(32, b'\0'), 'big')
    if isinstance(s, str):
        LIT.setdefault(r, s)
    return r


LIT = {}           # codes of the texts seen so far
