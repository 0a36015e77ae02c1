"""Typed views of explored outcomes: what the property specifications are written against."""
import os
import re
import time
import z3
import sym
from sym import *
import store
import models
import core
from core import E, L, Str, Bts, R, M, X, F, O, SymV, Mux, Outs, Abort, Unsupported, State
import driver

DEC = 10 ** 18


def plus(*xs):
    r = 0
    for x in xs:
        if not is_sym(x) and not is_sym(r):
            r = r + x
        elif not is_sym(x) and x == 0:
            pass
        elif not is_sym(r) and r == 0:
            r = x
        else:
            r = keep(r + x)
    return r


def minus(a, b):
    if not is_sym(b) and b == 0:
        return a
    r = a - b
    return keep(r) if is_sym(r) else r


def strip(v):
    while isinstance(v, (R, X)):
        v = v.v
    return v


def lit(s):
    return strcode(s)


class V:
    """a value together with its Rust type"""
    __slots__ = ('en', 'v', 't')

    def __init__(self, en, v, t):
        self.en = en
        v = strip(v)
        ty = en.ty(t)
        while True:
            if ty['k'] in ('ref', 'ptr'):
                t = ty['e']
            elif ty['k'] == 'struct' and ty.get('p', '').startswith(('alloc::boxed::Box', 'core::ptr::')) and ty.get('args'):
                t = ty['args'][0]
            else:
                break
            ty = en.ty(t)
        self.v, self.t = v, t

    @property
    def ty(self):
        return self.en.ty(self.t)

    def f(self, path):
        """field by (dotted) name"""
        cur = self
        for name in path.split('.'):
            t = cur.ty
            if t['k'] == 'tuple':
                i = int(name)
                cur = V(self.en, cur.v[i], t['f'][i])
                continue
            if t['k'] != 'struct':
                raise Unsupported(f"field {name} of {t['n']}")
            for i, (fn, ft) in enumerate(t['v'][0]['f']):
                if fn == name:
                    cur = V(self.en, self.en.field(cur.v, i), ft)
                    break
            else:
                raise Unsupported(f"no field {name} in {t['n']}")
        return cur

    def has(self, name):
        t = self.ty
        return t['k'] == 'struct' and any(fn == name for fn, _ in t['v'][0]['f'])

    @property
    def i(self):
        """number term"""
        v = strip(self.v)
        while type(v) is tuple and len(v) == 1:
            v = strip(v[0])
        if isinstance(v, (int, bool)) or is_sym(v):
            return v
        raise Unsupported(f'number {v!r}')

    @property
    def s(self):
        """code of a text"""
        v = strip(self.v)
        while type(v) is tuple and len(v) == 1:
            v = strip(v[0])
        if isinstance(v, Str):
            return store.code(v)
        if isinstance(v, Bts):
            return models.bytes_code(self.en, v)
        raise Unsupported(f'text {v!r}')

    def is_(self, name):
        """condition: the enum value has this variant"""
        return Eq(self.en.disc(self.v), self.en.variant(self.t, name))

    def as_(self, name, i=0):
        """payload field i (index or name) of the variant"""
        k = self.en.variant(self.t, name)
        fs = self.ty['v'][k]['f']
        if isinstance(i, str):
            i = [fn for fn, _ in fs].index(i)
        p = self.en.fields(self.v, k)
        if p is None:
            return None
        return V(self.en, p[i], fs[i][1])

    @property
    def some(self):
        return self.is_('Some')

    @property
    def val(self):
        return self.as_('Some')

    def vec(self):
        """[(condition, [V])] alternatives of a vector"""
        ety = self.ty['args'][0]
        return [(c, [V(self.en, x, ety) for x in l.t]) for c, l in vec_cases(self.en, self.v)]

    def flat(self):
        return store.flat(self.en, self.v)


def vec_cases(en, v):
    v = strip(v)
    if isinstance(v, L):
        return [(True, v)]
    if isinstance(v, SymV):
        ety = en.ty(v.ty)['args'][0]
        n = models.vecmax(en, v.name)
        ln = intvar(v.name + '.#len', 0, n + 1)
        return [(Eq(ln, i), L(tuple(en.mk(f'{v.name}[{k}]', ety) for k in range(i)))) for i in range(n + 1)]
    if isinstance(v, Mux):
        return [(And(v.c, c), l) for c, l in vec_cases(en, v.a)] + [(And(Not(v.c), c), l) for c, l in vec_cases(en, v.b)]
    raise Unsupported(f'vector {v!r}')


def valeq(en, ty, a, b):
    """equality of two values of one type (structural)"""
    a, b = strip(a), strip(b)
    if a is b:
        return True
    t = en.ty(ty)
    k = t['k']
    if isinstance(a, Str) and isinstance(b, Str):
        return models.streq(a, b)
    if k in ('bool', 'int', 'char'):
        return Eq(a, b)
    if k == 'tuple':
        return And(*[valeq(en, x, p, q) for x, p, q in zip(t['f'], a, b)])
    if k in ('ref', 'ptr'):
        return valeq(en, t['e'], a, b)
    if k == 'struct':
        p = t['p']
        if p == core.ADT_STRING:
            return models.streq(a, b)
        if p.startswith('alloc::boxed::Box'):
            return valeq(en, t['args'][0], a, b)
        if p.startswith('alloc::vec::Vec'):
            r = False
            for c1, x in vec_cases(en, a):
                for c2, y in vec_cases(en, b):
                    if len(x.t) == len(y.t):
                        r = Or(r, And(c1, c2, *[valeq(en, t['args'][0], m, n) for m, n in zip(x.t, y.t)]))
            return r
        if p.startswith('core::marker::PhantomData'):
            return True
        return And(*[valeq(en, ft, en.field(a, i), en.field(b, i)) for i, (fn, ft) in enumerate(t['v'][0]['f'])])
    if k == 'enum':
        da, db = en.disc(a), en.disc(b)
        cs = [Eq(da, db)]
        for i, v in enumerate(t['v']):
            if not v['f']:
                continue
            x, y = en.fields(a, i), en.fields(b, i)
            if x is None or y is None:
                continue
            c = And(*[valeq(en, ft, p, q) for (fn, ft), p, q in zip(v['f'], x, y)])
            cs.append(Implies(And(Eq(da, i), Eq(db, i)), c))
        return And(*cs)
    raise Unsupported(f"equality at {t['n']}")


def veq(a, b):
    return valeq(a.en, a.t, a.v, b.v)


def opt_eq(o, cond, val):
    """option text o is Some(val) when cond, None otherwise"""
    return And(Eq(o.some, cond), Implies(cond, Eq(o.val.s, val) if o.val is not None else False))


# ---------------------------------------------------------------------------------------------------- messages
class Msg:
    """one message sent by the contract.  kind: send | burn | exec | other"""
    __slots__ = ('guard', 'kind', 'to', 'coins', 'body', 'bodyty', 'reply', 'id', 'raw', 'en')

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))

    def coin(self, d):
        """amount of denomination d carried by the message"""
        tot = 0
        for c, l in self.coins:
            s = plus(*[If(Eq(x.f('denom').s, d), x.f('amount').i, 0) for x in l])
            tot = plus(tot, If(And(self.guard, c), s, 0))
        return tot

    def is_exec(self, name):
        """condition + payload of a contract message by enum variant name"""
        if self.kind != 'exec' or self.bodyty is None:
            return False
        t = self.en.ty(self.bodyty)
        if t['k'] != 'enum':
            return False
        for i, v in enumerate(t['v']):
            if v['n'] == name:
                return And(self.guard, Eq(self.en.disc(self.body), i))
        return False

    def arg(self, variant, field):
        return V(self.en, self.body, self.bodyty).as_(variant, field)


def enum_cases(en, v):
    """[(condition, variant index, fields)] of an enum value"""
    v = strip(v)
    if isinstance(v, E):
        return [(True, v.v, v.f)]
    if isinstance(v, Mux):
        return [(And(v.c, c), i, f) for c, i, f in enum_cases(en, v.a)] + [(And(Not(v.c), c), i, f) for c, i, f in enum_cases(en, v.b)]
    if isinstance(v, SymV):
        n = len(en.ty(v.ty)['v'])
        return [(Eq(en.disc(v), i), i, en.fields(v, i)) for i in range(n)]
    raise Unsupported(f'enum {v!r}')


def bin_cases(en, v):
    """[(condition, type, value)] of a Binary built by to_json_binary"""
    v = strip(v)
    while type(v) is tuple and len(v) == 1:
        v = strip(v[0])
    if isinstance(v, O) and v.k == 'json':
        return [(True, v.d[0], v.d[1])]
    if isinstance(v, Mux):
        return [(And(v.c, c), t, x) for c, t, x in bin_cases(en, v.a)] + [(And(Not(v.c), c), t, x) for c, t, x in bin_cases(en, v.b)]
    return [(True, None, v)]


def decode_submsg(en, sm):
    """SubMsg V -> [Msg]"""
    msg = sm.f('msg')
    reply = sm.f('reply_on')
    ident = sm.f('id').i
    out = []
    ct = msg.ty
    for c, i, f in enum_cases(en, msg.v):
        if c is False:
            continue
        vn = ct['v'][i]['n']
        inner = V(en, f[0], ct['v'][i]['f'][0][1]) if f else None
        if vn == 'Bank':
            bt = inner.ty
            for c2, j, g in enum_cases(en, inner.v):
                bn = bt['v'][j]['n']
                names = [n for n, _ in bt['v'][j]['f']]
                tys = [t for _, t in bt['v'][j]['f']]
                m = Msg(en=en, guard=And(c, c2), kind='send' if bn == 'Send' else 'burn' if bn == 'Burn' else 'other', reply=reply, id=ident, raw=inner)
                if m.kind == 'other':
                    raise Unsupported(f'bank message {bn}')
                m.coins = V(en, g[names.index('amount')], tys[names.index('amount')]).vec()
                m.to = V(en, g[names.index('to_address')], tys[names.index('to_address')]).s if bn == 'Send' else None
                out.append(m)
        elif vn == 'Wasm':
            wt = inner.ty
            for c2, j, g in enum_cases(en, inner.v):
                wn = wt['v'][j]['n']
                if wn != 'Execute':
                    raise Unsupported(f'wasm message {wn}')
                names = [n for n, _ in wt['v'][j]['f']]
                tys = [t for _, t in wt['v'][j]['f']]
                for c3, bty, body in bin_cases(en, g[names.index('msg')]):
                    m = Msg(en=en, guard=And(c, c2, c3), kind='exec', reply=reply, id=ident, raw=inner)
                    m.to = V(en, g[names.index('contract_addr')], tys[names.index('contract_addr')]).s
                    m.coins = V(en, g[names.index('funds')], tys[names.index('funds')]).vec()
                    m.body, m.bodyty = body, bty
                    out.append(m)
        elif vn == 'Custom':
            # StargazeMsgWrapper { route, msg_data: StargazeMsg, version }
            sd = inner.f('msg_data')
            st_ = sd.ty
            for c2, j, g in enum_cases(en, sd.v):
                names = [n for n, _ in st_['v'][j]['f']]
                tys = [t for _, t in st_['v'][j]['f']]
                m = Msg(en=en, guard=And(c, c2), kind='custom', reply=reply, id=ident, raw=sd)
                m.to = st_['v'][j]['n']
                m.coins = V(en, g[names.index('amount')], tys[names.index('amount')]).vec() if 'amount' in names else []
                out.append(m)
        else:
            raise Unsupported(f'message {vn}')
    return out


# ---------------------------------------------------------------------------------------------------- outcomes
class NoTable(Exception):
    pass


def coins_inv(l):
    """normal form of a list of coins: positive amounts, denominations strictly increasing"""
    cs = []
    for x in l.t:
        cs.append(keep(x[1][0] > 0))
    for a, b in zip(l.t, l.t[1:]):
        cs.append(keep(a[0].c < b[0].c))
    return cs


class Out:
    """one explored outcome of a message"""

    def __init__(self, cx, st, ret, k):
        self.cx, self.en, self.k = cx, cx.en, k
        self.st = st
        self.ret = V(cx.en, ret, cx.entry.ret)
        self.ok = self.ret.is_('Ok')
        self._msgs = None

    @property
    def pc(self):
        return self.st.pc

    @property
    def resp(self):
        return self.ret.as_('Ok')

    @property
    def answer(self):
        """the value a query returns"""
        r = self.resp
        cases = bin_cases(self.en, r.v)
        v = cases[-1][2]
        for c, t, x in reversed(cases[:-1]):
            v = self.en.mux(c, x, v)
        return V(self.en, v, cases[-1][1])

    @property
    def msgs(self):
        if self._msgs is None:
            r = []
            for c, l in self.resp.f('messages').vec():
                for sm in l:
                    for m in decode_submsg(self.en, sm):
                        m.guard = And(c, m.guard)
                        r.append(m)
            self._msgs = r
        return self._msgs

    # -------------------------------------------------------------- storage
    def tyof(self, ns):
        ty = self.cx.tables.get(ns)
        if ty is None:
            ty = self.en.nsty.get(ns)
            if ty is None:
                raise NoTable(ns)
            self.cx.tables[ns] = ty
        return ty

    def table(self, ns):
        cx = self.cx
        ty = self.tyof(ns)
        t = self.st.tabs.get(ns)
        if t is None or t.ty is None:
            t = store.tab(self.en, self.st, ns, ty)
        return t

    def touch(self, ns, key):
        """facts about the row at this key known from the index queries of the path"""
        self.table(ns)
        store.touch(self.en, self.st, ns, tuple(key))

    def pre(self, ns, *key):
        self.touch(ns, key)
        ty = self.tyof(ns)
        p, v = store.pre(self.en, ns, ty, tuple(key))
        return p, V(self.en, v, ty)

    def post(self, ns, *key):
        p, v = self.pre(ns, *key)
        v = v.v
        for w in self.log(ns):
            c = store.eqkey(tuple(key), w.key)
            if c is False:
                continue
            p = If(c, w.np, p)
            if w.nv is not None:
                v = self.en.mux(c, w.nv, v)
        return p, V(self.en, v, self.tyof(ns))

    def log(self, ns):
        t = self.st.tabs.get(ns)
        return t.log if t is not None else ()

    def V(self, ns, v):
        return V(self.en, v, self.tyof(ns))

    def writes(self, ns):
        """[(key, old present, old V | None, new present, new V | None)]"""
        return [(w.key, w.op, self.V(ns, w.ov) if w.ov is not None else None, w.np, self.V(ns, w.nv) if w.nv is not None else None)
                for w in self.log(ns)]

    def untouched(self, *nss):
        """no write to these tables changes anything"""
        cs = []
        for ns in nss:
            for k, op, ov, np, nv in self.writes(ns):
                same = Not(Or(op, np))
                if ov is not None and nv is not None:
                    same = Or(same, And(op, np, veq(ov, nv)))
                cs.append(same)
        return And(*cs)

    def total(self, ns, fn):
        """change of the sum of fn(row) over a table"""
        t = 0
        for k, op, ov, np, nv in self.writes(ns):
            if nv is not None:
                t = plus(t, If(np, fn(nv), 0))
            if ov is not None:
                t = minus(t, If(op, fn(ov), 0))
        return t

    # -------------------------------------------------------------- environment
    def queries(self):
        """[(kind, contract code, message type, message value, ok condition, answer V)] asked on this path"""
        r = []
        seen = set()
        for nm in self.st.misc.get('~q', ()):
            if nm in seen:
                continue
            seen.add(nm)
            kind, addr, msgty, msg, rty = self.en.queries[nm]
            r.append((kind, store.code(addr), msgty, msg, boolvar(nm + '!ok'), V(self.en, self.en.mk(nm, rty), rty)))
        return r

    def asked(self, variant, kind='smart'):
        """queries of one message variant: [(contract, field getter, ok, answer)]"""
        r = []
        for k, addr, mt, msg, okc, ans in self.queries():
            if k != kind or mt is None:
                continue
            mv = V(self.en, msg, mt)
            t = mv.ty
            if t['k'] != 'enum':
                continue
            for i, v in enumerate(t['v']):
                if v['n'] == variant:
                    c = Eq(self.en.disc(mv.v), i)
                    if c is not False:
                        r.append((addr, (lambda name, mv=mv: mv.as_(variant, name)), And(c, okc), ans, And(c, Not(okc))))
        return r

    def paid(self, d):
        """coins of denomination d leaving the contract"""
        return plus(*[m.coin(d) for m in self.msgs])

    def sent(self, to, d):
        """coins of denomination d sent to an address by bank messages"""
        return plus(*[If(Eq(m.to, to), m.coin(d), 0) for m in self.msgs if m.kind == 'send'])

    def nft_moves(self, coll, tok):
        """[(guard, recipient)] transfers of one NFT"""
        r = []
        for m in self.msgs:
            c = m.is_exec('TransferNft')
            if c is False:
                continue
            g = And(c, Eq(m.to, coll), Eq(m.arg('TransferNft', 'token_id').s, tok))
            if g is not False:
                r.append((g, m.arg('TransferNft', 'recipient').s))
        return r


def count(conds):
    return plus(*[If(c, 1, 0) for c in conds])


class Ctx:
    """exploration of one message of one contract"""

    def __init__(self, contract, entry, variant, bounds=None):
        self.contract, self.entryname, self.variant = contract, entry, variant
        self.en = driver.session(dict(contract.bounds, **(bounds or {})))
        en = self.en
        en.vecbound.update(contract.vecbound)
        en.vecinv = contract.vecinv
        en.row_inv = contract.row_inv
        en.query_inv = contract.query_inv
        en.ctx = self
        self.tables = {ns: self.findty(p) for ns, p in contract.tables.items()}
        self.assume = []

    def findty(self, p):
        if p is None:
            return None
        if isinstance(p, tuple):
            if p[0] == 'ok':           # ('ok', function path): the success type of a function
                t = self.en.sv.find(p[1])
                return None if t is None else self.en.ty(self.en.sv.sig(t)[-1])['args'][0]
            base, *path = p            # (type path, field, field...)
            t = self.findty(base)
            for f in path:
                t = dict(self.en.ty(t)['v'][0]['f'])[f]
            return t
        t = self.en.sv.find(p)
        if t is None:
            raise Unsupported(f'no type {p}')
        return t

    def explore(self):
        en = self.en
        self.entry = driver.setup(en, self.entryname, self.variant)
        t = time.time()
        st = State()
        for c in self.contract.assume(self):
            st.add(c)
        if en.bounds.get('page'):
            for c in self.contract.pagepin(self, en.bounds['page']):
                st.add(c)
        res = en.run(self.entry.inst, self.entry.args, st)
        self.t_explore = time.time() - t
        self.outs = [Out(self, s, v, k) for k, (s, v) in enumerate(res)]
        self.aborts = en.aborts
        return self

    # -------------------------------------------------------------- message and environment
    def has(self, name):
        e = self.entry
        return isinstance(e.msg, E) and name in [fn for fn, _ in self.en.ty(e.msgty)['v'][e.msg.v]['f']]

    def m(self, name):
        e = self.entry
        if isinstance(e.msg, E):
            t = self.en.ty(e.msgty)['v'][e.msg.v]['f']
            i = [fn for fn, _ in t].index(name)
            return V(self.en, e.msg.f[i], t[i][1])
        v = V(self.en, e.msg, e.msgty)
        return v.f(name)

    def typeof_arg(self, i):
        return self.en.sv.sig(self.entry.inst)[i]

    @property
    def env(self):
        for i, t in enumerate(self.en.sv.sig(self.entry.inst)[:-1]):
            if self.en.ty(t)['n'].endswith('types::Env'):
                return V(self.en, self.entry.env, t)

    @property
    def info(self):
        for i, t in enumerate(self.en.sv.sig(self.entry.inst)[:-1]):
            if self.en.ty(t)['n'].endswith('MessageInfo'):
                return V(self.en, self.entry.info, t)

    @property
    def sender(self):
        return self.info.f('sender').s

    @property
    def me(self):
        return self.env.f('contract.address').s

    @property
    def now(self):
        """block time in nanoseconds"""
        return self.env.f('block.time').i

    def funds(self, d):
        """amount of denomination d attached"""
        tot = 0
        for c, l in self.info.f('funds').vec():
            tot = plus(tot, If(c, plus(*[If(Eq(x.f('denom').s, d), x.f('amount').i, 0) for x in l]), 0))
        return tot

    def funds_assume(self):
        """normal form of attached coins, for paths that never look at them"""
        r = []
        if self.info is None:
            return r
        fv = self.info.f('funds')
        for c, l in fv.vec():
            for k in self.contract.vecinv(fv.v.name if isinstance(fv.v, SymV) else 'info.funds', L(tuple(x.v for x in l))):
                r.append(Implies(c, k))
        return r

    def funds_single(self):
        """[(condition that exactly one coin is attached, coin)]"""
        return [(c, l[0]) for c, l in self.info.f('funds').vec() if len(l) == 1]

    def no_funds(self):
        r = False
        for c, l in self.info.f('funds').vec():
            if not l:
                r = Or(r, c)
        return r

    def skolem(self, name, what='s'):
        if what == 's':
            return intvar('sk!' + name, 0, STRMAX)
        return intvar('sk!' + name, 0, what)


# ---------------------------------------------------------------------------------------------------- list queries
def opt_num(opts, f):
    if opts.val is None:
        return 10
    l = opts.val.f(f)
    if l.val is None:
        return 10
    return If(And(opts.some, l.some), l.val.i, 10)


def minimum(a, b):
    return If(Le(a, b), a, b)


def listing(cx, o, ns, match, key, idof, same, limit, desc, offset=(), bounds=(), cap=100, answer=None):
    """the statement about a list query: the answer is the first `limit` matching rows strictly after the offset.

    match(row, tablekey), key(row, tablekey): sort key; idof(answer row): table key; offset: [(condition, sort key)];
    bounds: [(condition, sort key, 'min' | 'max', strict)]"""
    lim = minimum(limit, cap)

    def before(a, b):
        return If(desc, store.lexlt(b, a), store.lexlt(a, b))

    def inside(k):
        cs = [Implies(c, before(b, k)) for c, b in offset]
        for c, b, which, strict in bounds:
            lo, hi = (b, k) if which == 'min' else (k, b)
            cs.append(Implies(c, store.lexlt(lo, hi) if strict else Not(store.lexlt(hi, lo))))
        return And(*cs)
    kl = cx.contract.keylen.get(ns, 1)
    sk = tuple(cx.skolem(f'row{i}', w) for i, w in enumerate(('s',) * kl if isinstance(kl, int) else kl))
    p, row = o.pre(ns, *sk)
    want = And(p, match(row, sk), inside(key(row, sk)))
    if cx.en.bounds.get('page'):
        # long pages: only their length is judged (the scan keeps just the order of the rows it returned)
        for c, rows in (answer or o.answer).vec():
            yield 'at most the limit', Implies(c, Le(len(rows), lim))
            if rows:
                tk = idof(rows[-1])
                behind = And(want, before(key(o.pre(ns, *tk)[1], tk), key(row, sk)))
                yield 'a page with more entries behind it is full', Implies(And(c, behind), Ge(len(rows), lim))
        return
    for c, rows in (answer or o.answer).vec():
        yield 'at most the limit', Implies(c, Le(len(rows), lim))
        ks = []
        for r in rows:
            tk = idof(r)
            p_, stored = o.pre(ns, *tk)
            k = key(stored, tk)
            ks.append(k)
            yield 'only stored entries', Implies(c, And(p_, same(r, stored)))
            yield 'only matching entries', Implies(c, And(match(stored, tk), inside(k)))
        for a, b in zip(ks, ks[1:]):
            yield 'strictly sorted', Implies(c, before(a, b))
        isin = Or(*[store.eqkey(idof(r), sk) for r in rows])
        missed = And(c, want, Not(isin))
        # a missing match is only allowed behind a full page
        yield 'no matching entry is skipped', Implies(missed, And(Ge(len(rows), lim), before(ks[-1], key(row, sk)) if rows else True))


def cargo_version(crate):
    """the version in a crate's manifest"""
    top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    repo = re.search(r'path\s*=\s*"([^"]*?)/contracts/', open(top + '/harness/Cargo.toml').read()).group(1)
    s = open(f'{repo}/{crate}/Cargo.toml').read()
    m = re.search(r'^version\s*=\s*"([^"]+)"', s, re.M)
    if m is None:
        m = re.search(r'\[workspace\.package\][^\[]*?^version\s*=\s*"([^"]+)"', open(repo + '/Cargo.toml').read(), re.M | re.S)
    return m.group(1)


PAGES = ('default', 'max')


def page_bounds(page):
    """a query whose answer is a long page: the default limit, or one above the maximum"""
    n = {'default': 10, 'max': 100}[page]
    return dict(page=page, rows=n + 1, minrows=n)


def pin_options(page, opts, limit):
    """no limit given, or one of at least the maximum"""
    if page == 'default':
        return [Not(And(opts, limit.some))]
    return [opts, limit.some, Ge(limit.val.i, 150)]


def addresses_valid(o):
    """every address whose validity the path asked about is well-formed"""
    vs = {}
    for c in o.st.pc:
        if sym.is_sym(c):
            for v in map(sym.VARS.get, sym.varsof(c)):
                if str(v).startswith('ADDR') and '!valid' in str(v):
                    vs[str(v)] = v
    return And(*vs.values())


def answers(*needed):
    """condition on rejected queries: whenever its addresses are well-formed and the given items are stored, a query is answered"""
    def fails(cx, o):
        yield 'every query is answered', Not(And(addresses_valid(o), *[o.pre(n)[0] for n in needed]))
    return fails


def version_record(name, crate, inst, migr, namespaces):
    """instantiation and migration record the contract's name and version, migration does nothing else, nothing else touches the record"""
    version = cargo_version(crate)

    def cond(cx, o):
        marks = o.st.misc.get('cw2', ())
        if cx.entryname in (inst, migr):
            yield 'the contract and its version are recorded', And(Eq(marks[-1][0], sym.strcode(name)), Eq(marks[-1][1], sym.strcode(version))) if marks else False
        else:
            yield 'nothing else changes the recorded version', not marks
        if cx.entryname == migr:
            yield 'an upgrade changes nothing else', o.untouched(*namespaces)
            yield 'an upgrade sends nothing', not o.msgs
    return cond


def never(cx, o):
    yield 'never refused', False
