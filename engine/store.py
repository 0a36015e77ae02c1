"""Contract storage at the level of cw-storage-plus tables.

A table's pre-state is an arbitrary function from keys to optional values (uninterpreted functions of the key terms, so
equal keys hold equal rows); writes are kept as a log.  Index queries yield rows in index order: the next row is a fresh
key together with the universal fact that no other stored row would come first, instantiated on every key mentioned.
"""
import z3
from sym import *
import sym
from core import E, L, Str, Bts, R, M, X, F, O, SymV, Mux, Outs, Abort, Unsupported, NoMerge, ERR, UNIT


class Tab:
    __slots__ = ('ns', 'ty', 'log', 'univ', 'keys', 'kty')

    def __init__(self, ns, ty, log=(), univ=(), keys=(), kty=None):
        self.ns, self.ty, self.log, self.univ, self.keys, self.kty = ns, ty, log, univ, keys, kty

    def with_(self, **k):
        t = Tab(self.ns, self.ty, self.log, self.univ, self.keys, self.kty)
        for a, b in k.items():
            setattr(t, a, b)
        return t


class W:
    """one write: key, old (present, value), new (present, value)"""
    __slots__ = ('key', 'op', 'ov', 'np', 'nv')

    def __init__(self, key, op, ov, np, nv):
        self.key, self.op, self.ov, self.np, self.nv = key, op, ov, np, nv


def code(s):
    return strcode(s.c) if isinstance(s.c, str) else s.c


def flat(en, v):
    """key value -> tuple of integer terms"""
    if isinstance(v, (R, X)):
        return flat(en, v.v)
    if isinstance(v, Str):
        return (code(v),)
    if isinstance(v, bool) or isinstance(v, z3.BoolRef):
        return (If(v, 1, 0),)
    if isinstance(v, int) or is_sym(v):
        return (v,)
    if type(v) is tuple:
        r = ()
        for x in v:
            r += flat(en, x)
        return r
    if isinstance(v, Bts):
        return (en.models.bytes_code(en, v),)
    if isinstance(v, E):
        r = (v.v,)
        for x in v.f:
            r += flat(en, x)
        return r
    if isinstance(v, L):
        r = ()
        for x in v.t:
            r += flat(en, x)
        return r
    if isinstance(v, (SymV, Mux)):
        t = enum_ty(en, v)
        if t is not None:
            d = en.disc(v)
            r = (d,)
            for i in range(len(t['v'])):
                f = en.fields(v, i)
                if f:
                    for x in f:
                        for y in flat(en, x):
                            r += (If(Eq(d, i), y, 0),)
            return r
    raise Unsupported(f'key {v!r}')


def enum_ty(en, v):
    if isinstance(v, SymV):
        t = en.ty(v.ty)
        return t if t['k'] == 'enum' else None
    if isinstance(v, Mux):
        return enum_ty(en, v.a) or enum_ty(en, v.b)
    return None


def eqkey(a, b):
    if len(a) != len(b):
        return False
    return And(*[Eq(x, y) for x, y in zip(a, b)])


def lexlt(a, b):
    """a < b lexicographically"""
    r = False
    for x, y in reversed(list(zip(a, b))):
        r = Or(Lt(x, y), And(Eq(x, y), r))
    return r


def ns_of(en, v):
    """namespace of an Item / Map / IndexedMap / MultiIndex value"""
    if isinstance(v, Bts):
        b = b''
        for p in v.p:
            if p[0] == 'b':
                b += p[1]
            elif p[0] == 's' and isinstance(p[1].c, str):
                b += p[1].c.encode()
            else:
                raise Unsupported('symbolic namespace')
        return b.decode()
    if isinstance(v, Str):
        if isinstance(v.c, str):
            return v.c
        raise Unsupported('symbolic namespace')
    if isinstance(v, (R, X)):
        return ns_of(en, v.v)
    if isinstance(v, E):
        return ns_of(en, v.f[0])
    if type(v) is tuple:
        return ns_of(en, v[0])
    raise Unsupported(f'namespace of {v!r}')


def tab(en, st, ns, ty=None, kty=None):
    t = st.tabs.get(ns)
    if ty is not None and ns not in en.nsty:
        en.nsty[ns] = ty
    if kty is not None:
        en.ktys[ns] = kty
    if t is None:
        if ty is None:
            raise Unsupported(f'unknown table {ns}')
        t = Tab(ns, ty, kty=kty)
        st.tabs[ns] = t
    elif ty is not None and t.ty != ty and t.ty is not None:
        raise Unsupported(f'namespace {ns} used with two value types')
    if t.ty is None:
        t = st.tabs[ns] = t.with_(ty=ty)
    return t


_prec = {}


def pre(en, ns, ty, key):
    """(present, value) of the pre-state row at key"""
    kn = keyname('T:' + ns, key)
    k = (id(en), kn, ty)
    r = _prec.get(k)
    if r is not None:
        return r
    p = boolvar(kn + '!present')
    v = en.mk(kn, ty)
    if en.row_inv:
        cs = [c for c in en.row_inv(en, ns, ty, key, v) if c is not True]
        if cs:
            vs = set()
            collect_vars(en, v, vs)
            g = [Implies(p, c) for c in cs]
            for x in set([p.get_id()]) | vs:
                sym.DEF.setdefault(x, []).extend(g)
    _prec[k] = (p, v)
    return p, v


def collect_vars(en, v, out):
    if is_sym(v):
        out |= varsof(v)
    elif isinstance(v, Str):
        if is_sym(v.c):
            out |= varsof(v.c)
    elif type(v) is tuple:
        for x in v:
            collect_vars(en, x, out)
    elif isinstance(v, (R, X)):
        collect_vars(en, v.v, out)
    elif isinstance(v, (E,)):
        for x in v.f:
            collect_vars(en, x, out)
    elif isinstance(v, L):
        for x in v.t:
            collect_vars(en, x, out)


def touch(en, st, ns, key):
    """register a key of a table: instantiate the universal facts collected so far"""
    t = st.tabs[ns]
    ids = tuple(x.get_id() if is_sym(x) else ('c', x) for x in key)
    for i, _ in t.keys:
        if i == ids:
            return
    t = st.tabs[ns] = t.with_(keys=t.keys + ((ids, key),))
    for u in t.univ:
        c = u(en, st, key)
        st.add(c)


def lookup(en, st, ns, ty, key, kty=None):
    """current (present, value)"""
    t = tab(en, st, ns, ty, kty)
    touch(en, st, ns, key)
    p, v = pre(en, ns, ty, key)
    for w in t.log:
        c = eqkey(key, w.key)
        if c is False:
            continue
        if c is not True:
            if not en.feasible(st, c):
                continue
            if not en.feasible(st, Not(c)):
                c = True
        if c is True:
            p, v = w.np, w.nv
            continue
        np_ = If(c, w.np, p)
        if w.nv is None:
            nv = v
        elif v is None:
            nv = w.nv
        else:
            nv = en.mux(c, w.nv, v)
        p, v = np_, nv
    return p, v


def write(en, st, ns, ty, key, val, kty=None):
    op, ov = lookup(en, st, ns, ty, key, kty)
    t = st.tabs[ns]
    st.tabs[ns] = t.with_(log=t.log + (W(key, op, ov, val is not None, val),))


def tabskel(en, s):
    r = []
    for ns in sorted(s.tabs):
        t = s.tabs[ns]
        r.append((ns, tuple((en.ckey(tuple(w.key)), w.np if isinstance(w.np, bool) else 'p') for w in t.log), tuple(map(id, t.univ)),
                  tuple(sorted(map(str, (i for i, _ in t.keys)))) if t.univ else ()))
    return tuple(x for x in r if x[1] or x[2] or x[3])


def mergetabs(en, c, a, b):
    if a is b:
        return b
    r = dict(b)
    for ns in set(a) | set(b):
        ta, tb = a.get(ns), b.get(ns)
        if ta is tb:
            continue
        if tb is None:
            r[ns] = ta
            continue
        if ta is None:
            continue
        log = []
        for wa, wb in zip(ta.log, tb.log):
            if wa is wb:
                log.append(wb)
                continue
            op = If(c, wa.op, wb.op)
            ov = wb.ov if wa.ov is wb.ov else (None if wa.ov is None or wb.ov is None else en.mux(c, wa.ov, wb.ov))
            nv = wb.nv if wa.nv is wb.nv else (None if wa.nv is None or wb.nv is None else en.mux(c, wa.nv, wb.nv))
            log.append(W(wb.key, op, ov, If(c, wa.np, wb.np), nv))
        keys = {i: k for i, k in ta.keys}
        keys.update({i: k for i, k in tb.keys})
        r[ns] = tb.with_(log=tuple(log), keys=tuple(keys.items()))
    return r


# ------------------------------------------------------------------------------------------------ index queries
class RangeIt:
    """iterator over rows of a table in (index key, primary key) order"""
    __slots__ = ('ns', 'ty', 'idx', 'prefix', 'lo', 'hi', 'desc', 'done', 'mode', 'pkmk', 'n', 'stop', 'plo', 'phi', 'npre', 'kty')

    def __init__(self, **k):
        for a, b in k.items():
            setattr(self, a, b)

    def with_(self, **k):
        r = RangeIt(**{a: getattr(self, a) for a in self.__slots__})
        for a, b in k.items():
            setattr(r, a, b)
        return r

    def ckey(self, en):
        return ('rangeit', self.ns, self.idx and self.idx[0], en.ckey(tuple(self.prefix)), en.ckey(tuple(self.lo or ())),
                en.ckey(tuple(self.hi or ())), en.ckey(self.desc), en.ckey(tuple(tuple(x) for x in self.done)), self.mode, self.n, self.stop)


def full_key(en, st, it, key, val):
    """sort key of a row: (index components..., pk components...)"""
    if it.idx is None:
        return tuple(key)
    ik = idx_eval(en, st, it.idx, key, val)
    return tuple(ik) + tuple(key)


_ic = {}


def idx_eval(en, st, idx, key, val):
    name, fn = idx
    k = (id(en), name, en.ckey(val))
    r = _ic.get(k)
    if r is not None:
        return r
    s2 = st.fork()
    s2.pc, s2.pcs, s2.model = (), frozenset(), None          # the cached result must not depend on the path
    pk = R(O('pk', *key))
    inst, args = en.fnval(fn, [pk, R(val)])
    outs = en.call(s2, inst, args, None)
    if not outs:
        raise Unsupported('index function aborts')
    if len(outs) == 1:
        r = flat(en, outs[0][1])
    else:
        vals = [flat(en, v) for _, v in outs]
        r = list(vals[-1])
        for (s, _), v in list(zip(outs, vals))[:-1]:
            c = And(*s.pc)
            r = [If(c, x, y) for x, y in zip(v, r)]
        r = tuple(r)
    _ic[k] = r
    return r


def in_range(en, st, it, fk):
    """is the sort key inside prefix and bounds"""
    n = len(it.prefix)
    cs = [eqkey(fk[:n], it.prefix)]
    rest = fk[n:]
    for b, isl in ((it.lo, True), (it.hi, False)):
        if b is None:
            continue
        kind, bk = b
        r = rest[:len(bk)]
        if len(bk) > len(rest):
            raise Unsupported('bound longer than key')
        if isl:
            c = Not(lexlt(r, bk))
            if kind == 'ex':
                # cw-storage-plus: an exclusive start is the key extended by one byte
                c = lexlt(bk, r) if len(bk) == len(rest) else Or(lexlt(bk, r), eqkey(bk, r))
        else:
            if kind == 'in':
                c = Not(lexlt(bk, r)) if len(bk) == len(rest) else lexlt(r, bk)
                if len(bk) != len(rest):
                    raise Unsupported('short inclusive end bound')
            else:
                c = lexlt(r, bk)
        cs.append(c)
    for b, isl in ((it.plo, True), (it.phi, False)):
        if b is None:
            continue
        kind, bk = b
        r = rest[:len(bk)]
        if isl:
            cs.append(Not(lexlt(r, bk)) if kind == 'in' else lexlt(bk, r))
        else:
            cs.append(Not(lexlt(bk, r)) if kind == 'in' else lexlt(r, bk))
    return And(*cs)


def range_next(en, st, ref, it):
    """-> [(state, None | (key, val))], the iterator behind ref is advanced"""
    def advance(s, new):
        en.put(s, ref, O('range', new))
    if it.stop:
        return [(st, None)]
    t = tab(en, st, it.ns, it.ty)
    bound = en.bounds['rows']
    k = len(it.done)

    def cand_pre(en_, s, key):
        """pre-state row at key is a candidate of this query (not overwritten, in range, after the rows already returned)"""
        p, v = pre(en_, it.ns, it.ty, key)
        cs = [p]
        for w in t.log:
            cs.append(Not(eqkey(key, w.key)))
        fk = full_key(en_, s, it, key, v)
        cs.append(in_range(en_, s, it, fk))
        return And(*cs), fk

    def before(a, b):
        c = lexlt(a, b)
        d = lexlt(b, a)
        if it.desc is True:
            return d
        if it.desc is False:
            return c
        return If(it.desc, d, c)

    def after_done(fk):
        if not it.done:
            return True
        return before(it.done[-1], fk)

    res = []
    # overlay rows: last write to each key wins
    over = []
    for i, w in enumerate(t.log):
        if w.nv is None:
            continue
        later = [Not(eqkey(w.key, x.key)) for x in t.log[i + 1:]]
        fk = full_key(en, st, it, w.key, w.nv)
        over.append((w, And(w.np, *later, in_range(en, st, it, fk), after_done(fk)), fk))

    def univ_none(en_, s, key):
        c, fk = cand_pre(en_, s, key)
        return Not(And(c, after_done(fk)))

    # 1. exhausted
    s0 = st.fork()
    ok = k >= en.bounds.get('minrows', 0)
    for _, c, _ in over if ok else ():
        if not en.assume(s0, Not(c)):
            ok = False
            break
    if ok:
        s0.tabs[it.ns] = s0.tabs[it.ns].with_(univ=s0.tabs[it.ns].univ + (univ_none,))
        for _, key in s0.tabs[it.ns].keys:
            if not en.assume(s0, univ_none(en, s0, key)):
                ok = False
                break
    if ok:
        advance(s0, it.with_(stop=True))
        res.append((s0, None))
    tot = st.misc.get('nrows', 0)
    if k < bound and tot >= en.bounds.get('total', 10 ** 9):
        en.notes = getattr(en, 'notes', set())
        en.notes.add(f"rows returned by all index queries of a message <= {en.bounds['total']}")
        return res
    if k >= bound:
        en.notes = getattr(en, 'notes', set())
        en.notes.add(f'rows per index query <= {bound}')
        return res
    # 2. a pre-state row
    s1 = st.fork()
    n = len(KEYS_FRESH.setdefault((id(en), it.ns), []))
    pk = it.pkmk(en, f'row!{it.ns}!{it.n}!{k}')
    key = flat(en, pk)
    p, v = pre(en, it.ns, it.ty, key)
    page = en.bounds.get('page')
    if page:
        # long pages: the rows are chained by their order; one condition covers every other key
        t1 = s1.tabs[it.ns]
        s1.tabs[it.ns] = t1.with_(univ=tuple(u for u in t1.univ if getattr(u, 'page', None) != it.n))
    touch(en, s1, it.ns, key)
    c, fk = cand_pre(en, s1, key)
    good = en.assume(s1, And(c, after_done(fk)))
    if good:
        def univ_first(en_, s, key2, fk=fk):
            c2, fk2 = cand_pre(en_, s, key2)
            return Not(And(c2, after_done(fk2), before(fk2, fk)))
        for _, c2, fk2 in over:
            if not en.assume(s1, Not(And(c2, before(fk2, fk)))):
                good = False
                break
        if good and page:
            rowkeys = tuple(tuple(x)[-len(key):] for x in it.done) + (tuple(key),)

            def univ_page(en_, s, key2, fk=fk, rowkeys=rowkeys):
                c2, fk2 = cand_pre(en_, s, key2)
                return Not(And(c2, before(fk2, fk), *[Not(eqkey(key2, x)) for x in rowkeys]))
            univ_page.page = it.n
            rowids = {tuple(map(rawid, x)) for x in rowkeys}
            s1.tabs[it.ns] = s1.tabs[it.ns].with_(univ=s1.tabs[it.ns].univ + (univ_page,))
            for _, key2 in s1.tabs[it.ns].keys:
                if tuple(map(rawid, key2)) not in rowids and not en.assume(s1, univ_page(en, s1, key2)):
                    good = False
                    break
        elif good:
            s1.tabs[it.ns] = s1.tabs[it.ns].with_(univ=s1.tabs[it.ns].univ + (univ_first,))
            for _, key2 in s1.tabs[it.ns].keys:
                if not en.assume(s1, univ_first(en, s1, key2)):
                    good = False
                    break
    if good:
        s1.misc['nrows'] = tot + 1
        advance(s1, it.with_(done=it.done + (fk,)))
        res.append((s1, (pk, v)))
    # 3. a row written earlier in this message
    for w, c, fk in over:
        s2 = st.fork()
        good = en.assume(s2, c)
        if good:
            for w3, c3, fk3 in over:
                if w3 is not w and not en.assume(s2, Not(And(c3, before(fk3, fk)))):
                    good = False
        if good:
            def univ_first2(en_, s, key2, fk=fk):
                c2, fk2 = cand_pre(en_, s, key2)
                return Not(And(c2, after_done(fk2), before(fk2, fk)))
            s2.tabs[it.ns] = s2.tabs[it.ns].with_(univ=s2.tabs[it.ns].univ + (univ_first2,))
            for _, key2 in s2.tabs[it.ns].keys:
                if not en.assume(s2, univ_first2(en, s2, key2)):
                    good = False
                    break
        if good:
            advance(s2, it.with_(done=it.done + (fk,)))
            res.append((s2, (unflat(en, it, w.key), w.nv)))
    return res


def rawid(x):
    return ('ast', x.get_id()) if hasattr(x, 'get_id') else x


KEYS_FRESH = {}


def unflat(en, it, key):
    pk = it.pkmk(en, None)
    ks = list(key)

    def go(v):
        if isinstance(v, Str):
            return Str(ks.pop(0))
        if type(v) is tuple:
            return tuple(go(x) for x in v)
        return ks.pop(0)
    return go(pk)
