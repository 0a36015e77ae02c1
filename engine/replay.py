"""Concrete runs of the real, natively compiled contracts from solver models: a path (or a counterexample) becomes one call
with concrete storage, message, environment and query answers, and what the call does is compared with what the encoding
says it does."""
import base64
import hashlib
import json
import os
import random
import subprocess
import time
import z3
import sym
from sym import *
import core
from core import E, L, Str, Bts, R, M, X, F, O, SymV, Mux, Unsupported
import store
import models
import driver

DEC = 10 ** 18


class Cycle(Exception):
    """a text that is part of what it is derived from"""


class Clash(Exception):
    """one text code for two texts derived in different ways"""


class NoReplay(Exception):
    """the model cannot be turned into a concrete run"""


def snake(n):
    r = ''
    for i, ch in enumerate(n):
        if ch.isupper():
            r += ('_' if i else '') + ch.lower()
        else:
            r += ch
    return r


def dec_text(n):
    w, f = divmod(n, DEC)
    return str(w) if not f else f'{w}.' + f'{f:018d}'.rstrip('0')


def p_last(t):
    return t['p'].split('::')[-1]


def strip(v):
    while isinstance(v, (R, X)):
        v = v.v
    return v


class Conc:
    """evaluation of engine values under one model"""

    def __init__(self, en, model, texts):
        self.en, self.m, self.texts = en, model, texts
        self.out = None          # collects string terms when set

    def i(self, t):
        if not is_sym(t):
            return int(t) if not isinstance(t, bool) else t
        v = self.m.eval(t, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return v.as_long()

    def b(self, c):
        return c if isinstance(c, bool) else bool(self.i(c))

    def s(self, c):
        if isinstance(c, str):
            return c
        if self.out is not None:
            self.out.append(c)
            self.i(c)
            return ''
        n = self.i(c)
        if n in self.texts:
            return self.texts[n]
        return decode(n)

    def raw(self, v):
        """bytes of a byte string"""
        b = b''
        for p in v.p:
            if p[0] == 'b':
                b += p[1]
            elif p[0] == 's':
                b += self.s(store.code(p[1])).encode()
            elif p[0] == 'i':
                b += self.i(p[1]).to_bytes(p[2], 'big')
            else:
                raise NoReplay('bytes')
        return b

    def json(self, ty, v):
        en = self.en
        v = strip(v)
        t = en.ty(ty)
        k = t['k']
        if isinstance(v, Mux) and not (k in ('enum',)):
            return self.json(ty, v.a if self.b(v.c) else v.b)
        if isinstance(v, O) and v.k == 'json':
            return {'~json': self.json(v.d[0], v.d[1])}
        if k in ('ref', 'ptr'):
            return self.json(t['e'], v)
        if k == 'bool':
            return self.b(v)
        if k == 'int':
            return str(self.i(v)) if t['bits'] == 128 else self.i(v)
        if isinstance(v, Str):
            return self.s(store.code(v))
        if k == 'tuple':
            return None if not t['f'] else [self.json(x, y) for x, y in zip(t['f'], v)]
        if k == 'struct':
            p = t['p']
            last = p.split('::')[-1]
            if p.startswith('cosmwasm_std::'):
                if last in ('Uint128', 'Uint64', 'Timestamp', 'Decimal', 'Uint256', 'Uint512', 'Int64', 'Int128'):
                    while type(v) is tuple:
                        v = strip(v[0])
                    n = self.i(v)
                    return dec_text(n) if last == 'Decimal' else str(n)
                if last == 'Binary':
                    x = strip(v[0]) if type(v) is tuple else v
                    while type(x) is tuple and len(x) == 1:
                        x = strip(x[0])
                    if isinstance(x, Mux):
                        return self.json(ty, (x.a if self.b(x.c) else x.b,))
                    if isinstance(x, O) and x.k == 'json':
                        return {'~json': self.json(x.d[0], x.d[1])}
                    if isinstance(x, SymV):
                        return ''
                    if isinstance(x, Bts):
                        return base64.b64encode(self.raw(x)).decode()
                    raise NoReplay(f'binary {x!r}')
                if last in ('Addr', 'CanonicalAddr'):
                    return self.s(store.code(strip(v[0])))
                if last == 'Event':
                    return None
                if last == 'Empty':
                    return {}
            if p == core.ADT_STRING:
                while type(v) is tuple and len(v) == 1:
                    v = strip(v[0])
                if isinstance(v, Bts):
                    return self.raw(v).decode('latin1')
                return self.s(store.code(v))
            if p.startswith('alloc::vec::Vec'):
                return [self.json(t['args'][0], x) for x in self.items(v)]
            if p.startswith('alloc::boxed::Box'):
                return self.json(t['args'][0], v)
            if p.startswith('core::marker::PhantomData'):
                return None
            fs = t['v'][0]['f']
            if t['v'][0].get('c') == 't':
                xs = [self.json(ft, self.fld(v, i)) for i, (fn, ft) in enumerate(fs)]
                return xs[0] if len(xs) == 1 else xs
            return {fn: self.json(ft, self.fld(v, i)) for i, (fn, ft) in enumerate(fs) if not self.phantom(ft)}
        if k == 'enum':
            i, fv = self.variant(v)
            vr = t['v'][i]
            if t['p'].startswith('core::option::Option'):
                return None if not fv else self.json(vr['f'][0][1], fv[0])
            name = snake(vr['n'])
            if p_last(t) == 'SubMsgResult' and name == 'err':
                name = 'error'
            if vr['c'] == 'u':
                return name
            if vr['c'] == 't':
                xs = [self.json(ft, x) for (fn, ft), x in zip(vr['f'], fv)]
                return {name: xs[0] if len(xs) == 1 else xs}
            return {name: {fn: self.json(ft, x) for (fn, ft), x in zip(vr['f'], fv)}}
        if k == 'array':
            return [self.json(t['e'], x) for x in v.t]
        raise NoReplay(f"json of {t['n']}")

    def phantom(self, ty):
        t = self.en.ty(ty)
        return t['k'] == 'struct' and t['p'].startswith('core::marker::PhantomData')

    def fld(self, v, i):
        v = strip(v)
        while isinstance(v, Mux):
            v = strip(v.a if self.b(v.c) else v.b)
        return self.en.field(v, i)

    def variant(self, v):
        """(variant index, payload)"""
        v = strip(v)
        while isinstance(v, Mux):
            v = strip(v.a if self.b(v.c) else v.b)
        if isinstance(v, E):
            return v.v, v.f
        i = self.i(self.en.disc(v))
        return i, self.en.fields(v, i) or ()

    def items(self, v):
        v = strip(v)
        while isinstance(v, Mux):
            v = strip(v.a if self.b(v.c) else v.b)
        if isinstance(v, L):
            return list(v.t)
        if isinstance(v, SymV):
            ety = self.en.ty(v.ty)['args'][0]
            n = self.i(intvar(v.name + '.#len', 0, models.vecmax(self.en, v.name) + 1))
            return [self.en.mk(f'{v.name}[{k}]', ety) for k in range(n)]
        if isinstance(v, Bts):
            return list(self.raw(v))
        raise NoReplay(f'vector {v!r}')


def decode(n):
    if n == 0:
        return ''
    if n in sym.LIT:
        return sym.LIT[n]
    b = n.to_bytes(32, 'big').rstrip(b'\0')
    try:
        return b.decode()
    except UnicodeDecodeError:
        raise NoReplay(f'text code {n}')


# ------------------------------------------------------------------------------------------------ raw storage keys
def comps(en, kty):
    """encodings of the components of a key type"""
    t = en.ty(kty)
    if t['k'] in ('ref', 'ptr'):
        return comps(en, t['e'])
    if t['k'] == 'tuple':
        return [c for x in t['f'] for c in comps(en, x)]
    if t['k'] == 'int':
        return [t['bits'] // 8]
    return ['s']


def enc(kinds, vals):
    r = []
    for k, x in zip(kinds, vals):
        r.append(x.encode() if k == 's' else x.to_bytes(k, 'big'))
    return r


def lp(b):
    return len(b).to_bytes(2, 'big') + b


def rawkey(ns, parts):
    if not parts:
        return ns.encode()
    return lp(ns.encode()) + b''.join(lp(p) for p in parts[:-1]) + parts[-1]


class Case:
    """one path of an exploration together with extra constraints, made concrete"""

    def __init__(self, cx, o, status):
        self.cx, self.o, self.en, self.status = cx, o, cx.en, status

    # -------------------------------------------------------------- gathering
    def tabs(self):
        return {ns: t for ns, t in self.o.st.tabs.items() if t.ty is not None}

    def inputs(self, cv):
        """walk over everything that becomes input of the run"""
        en, cx = self.en, self.cx
        out = {}
        sig = en.sv.sig(cx.entry.inst)[:-1]
        for a, t in zip(cx.entry.args, sig):
            n = en.ty(t)['n']
            if 'deps::Deps' in n:
                continue
            key = 'env' if n.endswith('types::Env') else 'info' if n.endswith('MessageInfo') else 'msg'
            out[key] = cv.json(t, a)
        rows = {}
        for ns, t in self.tabs().items():
            ks = {}
            for _, key in t.keys:
                p, v = store.pre(en, ns, t.ty, key)
                kk = tuple(cv.s(x) if k == 's' else cv.i(x) for k, x in zip(self.kinds(ns, t, key), key))
                if cv.out is not None:
                    cv.json(t.ty, v)
                    self.idxrows(cv, ns, t, key, v)
                    ks[len(ks)] = None
                elif cv.b(p):
                    ks[kk] = (cv.json(t.ty, v), self.idxrows(cv, ns, t, key, v))
            rows[ns] = ks
        out['rows'] = rows
        qs = []
        for nm in dict.fromkeys(self.o.st.misc.get('~q', ())):
            kind, addr, msgty, msg, rty = en.queries[nm]
            okc = cv.b(boolvar(nm + '!ok'))
            ans = cv.json(rty, en.mk(nm, rty)) if okc or cv.out is not None else None
            if kind == 'info' and ans is not None:
                ans = dict(ans)
            qs.append(dict(kind=kind, contract=cv.s(store.code(addr)), msg=cv.json(msgty, msg) if msgty is not None else None, ok=ans if okc else None))
        out['queries'] = qs
        inv = []
        for k, c in en.addrs.items():
            if not self.relevant(c):
                continue
            if not cv.b(models.validaddr(en, c)):
                inv.append(cv.s(c))
        out['invalid'] = inv
        if cv.b(boolvar('cw2!stored')):
            out['cw2'] = (cv.s(intvar('cw2!contract', 0, STRMAX)), cv.s(intvar('cw2!version', 0, STRMAX)))
        return out

    def relevant(self, c):
        return not is_sym(c) or varsof(c) <= self.vs

    def kinds(self, ns, t, key):
        if not key:
            return []
        if t.kty is not None:
            return comps(self.en, t.kty)
        for tt in (self.en.ktys.get(ns),):
            if tt is not None:
                return comps(self.en, tt)
        kt = getattr(self.cx.contract, 'keys', {}).get(ns)
        if kt is not None:
            return list(kt)
        raise NoReplay(f'key type of {ns}')

    def idxrows(self, cv, ns, t, key, v):
        r = []
        idxs = dict(self.en.idxfns.get(ns, {}))
        for (pns, iname), (ik, _, _, fn) in self.en.usedidx.items():
            if pns == ns and self.en.indexes.get(ns) is None:
                idxs.setdefault(iname, (ik, fn))
        for iname, (ik, fn) in idxs.items():
            parts = store.idx_eval(self.en, self.o.st, (iname, fn), key, v)
            kk = comps(self.en, ik)
            r.append((iname, kk, [cv.s(x) if k == 's' else cv.i(x) for k, x in zip(kk, parts)]))
        return r

    def effects(self, cv):
        """what the encoding says happens: (data, writes)"""
        en = self.en
        data = None
        writes = []
        if self.status == 'ok':
            resp = self.o.resp
            if self.cx.entryname.endswith('query::query'):
                x = strip(resp.v)
                while type(x) is tuple and len(x) == 1:
                    x = strip(x[0])
                while isinstance(x, Mux):
                    x = strip(x.a if cv.b(x.c) else x.b)
                    while type(x) is tuple and len(x) == 1:
                        x = strip(x[0])
                if not (isinstance(x, O) and x.k == 'json'):
                    raise NoReplay('query answer')
                data = cv.json(x.d[0], x.d[1])
            else:
                f = resp.f('messages')
                data = cv.json(f.t, f.v)
            for ns, t in self.tabs().items():
                for w in t.log:
                    kk = tuple(cv.s(x) if k == 's' else cv.i(x) for k, x in zip(self.kinds(ns, t, w.key), w.key))
                    np_ = cv.b(w.np)
                    row = None
                    if w.nv is not None and (np_ or cv.out is not None):
                        row = (cv.json(t.ty, w.nv), self.idxrows(cv, ns, t, w.key, w.nv))
                    writes.append((ns, kk, row if np_ else None))
        cw2 = [(cv.s(a), cv.s(b)) for a, b in self.o.st.misc.get('cw2', ())] if self.status == 'ok' else []
        return data, writes, cw2

    # -------------------------------------------------------------- solving
    def solve(self, cs, timeout):
        self.vs = set()
        for c in cs:
            if is_sym(c):
                self.vs |= varsof(c)
        r, m = sym.solve(cs, exact=True, timeout=timeout)
        return r, m

    def build(self, cs, tries=24, timeout=20000, model=None):
        """-> (case json, expected, model) or raises NoReplay"""
        if model is None:
            r, model = self.solve(cs, timeout)
            if r != 'sat':
                raise NoReplay('no model: ' + r)
        try:
            return self.build1(cs, model, True, tries, timeout)
        except NoReplay:
            return self.build1(cs, model, False, tries, timeout)

    def pins(self, m, done):
        """keep the numbers and truth values of a model"""
        r = []
        closed = set()
        defs_for(self.vs, closed, True)
        for i in closed - done:
            t = sym.VARS.get(i)
            if t is None:
                continue
            done.add(i)
            if t.sort() == z3.IntSort():
                hi = sym.RNG.get(i, (None, None))[1]
                if hi is None or hi >= 1 << 192:
                    continue
            v = m.eval(t)
            if z3.is_int_value(v) or z3.is_true(v) or z3.is_false(v):
                r.append(keep(t == v))
        return r

    def build1(self, cs, m, pin, tries, timeout):
        self.vs = set()
        for c in cs:
            if is_sym(c):
                self.vs |= varsof(c)
        cs = list(cs)
        done = set()
        if pin:
            cs += self.pins(m, done)
        # everything mentioned gets its definitions
        cv = Conc(self.en, Rec(m), {})
        cv.out = []
        for k in range(4):
            cv.m.terms = {}
            cv.out = []
            self.inputs(cv)
            self.effects(cv)
            vs = set()
            for t in cv.m.terms.values():
                vs |= varsof(t)
            if vs <= self.vs:
                break
            self.vs |= vs
            ds = [d for d in defs_for(vs, set(), True)]
            r, m = sym.solve(list(cs) + ds, exact=True, timeout=timeout)
            if r != 'sat':
                raise NoReplay('no complete model: ' + r)
            if pin:
                cs += self.pins(m, done)
            cv.m = Rec(m)
        terms = list(cv.m.terms.values())
        strs = [c for c in cv.out if is_sym(c)]
        ints = [t for t in terms if t.sort() == z3.IntSort()]
        sids = {t.get_id() for t in strs}
        closed = set()
        defs_for(self.vs, closed, True)
        ufs = [x for x in models._ufs.values() if x[2].get_id() in closed]
        self.lits = set(sym.LIT) - {0}
        allv = list(cs) + [d for d in defs_for(self.vs, set(), True)]
        cats = [v for name, args, v in ufs if name.startswith('cat:')]
        uids = {x[2].get_id() for x in ufs}
        free = [t for t in {t.get_id(): t for t in strs}.values() if t.get_id() not in uids]
        if cats:
            more = [keep(t != v) for v in cats for t in free]
            r2, m2 = sym.solve(allv + more, exact=True, timeout=timeout)
            if r2 == 'sat':
                allv, m = allv + more, m2
        for k in range(tries):
            try:
                texts, pins = self.choose(m, strs, ufs, k)
            except (Cycle, Clash) as x:
                if isinstance(x, Clash):
                    allv = allv + [x.args[0]]
                else:
                    name, args, v = x.args[0]
                    allv = allv + [keep(a != v) for a in args if is_sym(a)]
                r, m = sym.solve(allv, exact=True, timeout=timeout)
                if r != 'sat':
                    raise NoReplay('no acyclic model: ' + r)
                continue
            r2, m2 = sym.solve(allv + pins, exact=True, timeout=timeout)
            if r2 == 'sat':
                break
        else:
            raise NoReplay('no consistent texts')
        cv = Conc(self.en, m2, texts)
        inp = self.inputs(cv)
        eff = self.effects(cv)
        return self.case(inp), self.expected(inp, eff), m2

    def choose(self, m, strs, ufs, salt):
        """concrete texts for the text codes of a model, in the same order"""
        def val(t):
            return m.eval(t, model_completion=True).as_long() if is_sym(t) else t
        rnd = random.Random(salt)
        derived = {}
        for name, args, v in ufs:
            if name.startswith(('show:', 'dec', 'cat:', 'hash:', 'bytes:')) and not name.startswith('decok') and not name.startswith('decval'):
                x = derived.setdefault(val(v), (name, args, v))
                if x[0] != name or [val(a) for a in x[1]] != [val(a) for a in args]:
                    raise Clash(keep(x[2] != v))
        fixed = {}
        # texts that are parsed
        parsed = {}
        for name, args, v in ufs:
            if name == 'decok' and val(v):
                for n2, a2, v2 in ufs:
                    if n2 == 'decval' and val(a2[0]) == val(args[0]):
                        parsed[val(args[0])] = dec_text(val(v2))
        ranks = {}
        okv = {}
        for name, args, v in ufs:
            if name == 'semver:ok':
                okv[val(args[0])] = val(v)
            if name == 'semver:rank':
                ranks[val(args[0])] = val(v)
        lits = self.lits
        codes = sorted({val(t) for t in strs} | {val(a) for n, args, v in ufs if n.startswith('strlen') for a in args})
        pins = []
        order = sorted(ranks.items(), key=lambda x: x[1])
        litrank = [r for c, r in ranks.items() if c in lits]
        for j, (c, rk) in enumerate(order):
            if c not in lits and okv.get(c, 1):
                base = litrank[0] if litrank else 0
                same = next((decode(x) for x, y in ranks.items() if x in lits and y == rk), None)
                cand = [same] if same else [f'{a}.{b}.{k + 1}' for k in (j, j + 9) for a, b in ((0, 0), (0, 99), (1, 3), (1, 30), (1, 10), (10, 0), (99, 0), (9, 9))]
                rel = lambda t, x: (t > decode(x)) - (t < decode(x))
                num = lambda t: [int(x) for x in t.split('.')]
                lit = next((decode(x) for x in ranks if x in lits), None)
                if not same and lit:
                    cand = [t for t in cand if (num(t) < num(lit)) == (rk < base)] or cand
                # as text it compares to the literals the way it does in the model
                parsed[c] = max(cand, key=lambda t: sum(rel(t, x) == (c > x) - (c < x) for x in ranks if x in lits))
        texts = {c: s for c, s in parsed.items()}
        free = []
        for c in codes:
            if c in texts or c in derived:
                continue
            if c in lits or c == 0:
                texts[c] = decode(c)
                continue
            free.append(c)
        ls = sorted(lits)
        groups = {}
        import bisect
        for c in free:
            groups.setdefault(bisect.bisect_left(ls, c), []).append(c)
        for g, cs in groups.items():
            low = decode(ls[g - 1]) if g > 0 else ''
            nums = sorted(rnd.sample(range(10 ** 7), len(cs)))
            for c, n in zip(cs, nums):
                s = (low + 'a' if g < len(ls) else low + 'a') + f'{n:07d}'
                if g == 0:
                    s = f'0{n:07d}'
                s = s.ljust(14, 'x') if len(s) < 14 else s
                if g < len(ls) and not s < decode(ls[g]):
                    s = (low + '!' + f'{n:07d}').ljust(14, 'x')
                texts[c] = s

        active = set()

        def get(c):
            if c in texts:
                return texts[c]
            if c in derived:
                if c in active:
                    raise Cycle(derived[c])
                active.add(c)
                texts[c] = build(*derived[c])
                return texts[c]
            texts[c] = (f'q{rnd.randrange(10 ** 7):07d}').ljust(14, 'x')
            return texts[c]

        def build(name, args, v):
            a = [val(x) for x in args]
            if name.startswith('show:'):
                return dec_text(a[0]) if name.endswith('Decimal') else str(a[0])
            if name == 'dec':
                return str(a[0])
            if name.startswith('cat:'):
                r = ''
                for ch in name[4:].replace('[_k', '[k'):
                    if ch == '\1':
                        r += get(a.pop(0))
                    elif ch == '\2':
                        r += str(a.pop(0))
                    else:
                        r += ch
                return r
            if name.startswith('hash:'):
                b = b''
                for kd, x in zip(split_kinds(name[5:]), a):
                    b += get(x).encode() if kd == 's' else x.to_bytes(int(kd[1:]), 'big')
                return hashlib.blake2s(b).hexdigest()
            if name.startswith('bytes:'):
                b = b''
                for kd, x in zip(split_kinds(name[6:]), a):
                    b += get(x).encode() if kd in ('s', 'b') else x.to_bytes(int(kd[1:]), 'big')
                return b.decode('latin1')
            raise NoReplay(name)
        codemap = {}
        for t in strs:
            s = get(val(t))
            pins.append(keep(t == strcode(s)))
            codemap[strcode(s)] = s
        for name, args, v in ufs:
            if name.startswith(('show:', 'cat:', 'hash:', 'bytes:')) or name == 'dec':
                s = get(val(v))
                pins.append(keep(v == strcode(s)))
                codemap[strcode(s)] = s
                for x in args:
                    if is_sym(x) and not any(x.eq(t) for t in strs):
                        n = val(x)
                        if n in texts and name.startswith(('cat:', 'hash:', 'bytes:')) and is_text_arg(name, args, x):
                            pins.append(keep(x == strcode(texts[n])))
                            codemap[strcode(texts[n])] = texts[n]
                        else:
                            pins.append(keep(x == n))
            elif name == 'strlen':
                s = get(val(args[0]))
                pins.append(keep(args[0] == strcode(s)))
                pins.append(keep(v == len(s.encode())))
                codemap[strcode(s)] = s
        return codemap, pins

    # -------------------------------------------------------------- the run
    def raw(self, rows, cw2):
        kv = {}
        en = self.en
        for ns, ks in rows.items():
            t = self.tabs()[ns]
            for key, row in ks.items():
                js, idx = row
                kinds = self.kinds(ns, t, key)
                pk = enc(kinds, key)
                pkraw = b''.join(lp(p) for p in pk[:-1]) + pk[-1] if pk else b''
                kv[rawkey(ns, pk)] = js
                for iname, kk, vals in idx:
                    k = lp(iname.encode()) + b''.join(lp(p) for p in enc(kk, vals)) + pkraw
                    kv[k] = len(pkraw)
        if cw2 is not None:
            kv[b'contract_info'] = dict(contract=cw2[0], version=cw2[1])
        return kv

    def case(self, inp):
        kv = self.raw(inp['rows'], inp.get('cw2'))
        env = inp.get('env') or dict(block=dict(height=1, time='1000000000', chain_id='chain'), transaction=None, contract=dict(address='contract'))
        return dict(contract=self.cx.contract.name, entry=self.cx.entryname.split('::')[-1], env=env, info=inp.get('info'), msg=clean(inp.get('msg')),
                    queries=clean(inp['queries']), invalid=inp['invalid'],
                    storage=[[k.hex(), json.dumps(clean(v), separators=(',', ':')).encode().hex()] for k, v in kv.items()])

    def expected(self, inp, eff):
        data, writes, cw2 = eff
        rows = {ns: dict(ks) for ns, ks in inp['rows'].items()}
        for ns, key, row in writes:
            if row is None:
                rows[ns].pop(key, None)
            else:
                rows[ns][key] = row
        kv = self.raw(rows, cw2[-1] if cw2 else inp.get('cw2'))
        return dict(status=self.status, data=data, storage=kv if self.status == 'ok' else None)


def split_kinds(s):
    r = []
    for ch in s:
        if ch.isdigit():
            r[-1] += ch
        else:
            r.append(ch)
    return r


def is_text_arg(name, args, x):
    if name.startswith('cat:'):
        ks = [ch for ch in name[4:] if ch in '\1\2']
        return any(k == '\1' and a is x for k, a in zip(ks, args))
    ks = split_kinds(name.split(':', 1)[1])
    return any(k == 's' and a is x for k, a in zip(ks, args))


class Rec:
    """model that remembers the terms it was asked about"""

    def __init__(self, m):
        self.m = m
        self.terms = {}

    def eval(self, t, model_completion=True):
        self.terms[t.get_id()] = t
        return self.m.eval(t, model_completion=True)


def clean(x):
    """~json wrappers become base64 text"""
    if isinstance(x, dict):
        if set(x) == {'~json'}:
            return base64.b64encode(json.dumps(clean(x['~json'])).encode()).decode()
        return {k: clean(v) for k, v in x.items()}
    if isinstance(x, list):
        return [clean(v) for v in x]
    return x


def same(a, b, path='$'):
    """first difference between predicted and observed JSON, or None"""
    if isinstance(a, dict) and set(a) == {'~json'}:
        if not isinstance(b, str):
            return f'{path}: {b!r} is not binary'
        try:
            return same(a['~json'], json.loads(base64.b64decode(b)), path + '~')
        except ValueError:
            return f'{path}: not json'
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            d = same(a.get(k), b.get(k), f'{path}.{k}')
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f'{path}: {len(a)} entries predicted, {len(b)} observed'
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, f'{path}[{i}]')
            if d:
                return d
        return None
    return None if a == b and type(a) == type(b) else f'{path}: predicted {a!r}, observed {b!r}'


class Native:
    def __init__(self, binary=None):
        self.bin = binary or os.path.join(driver.BUILD, 'replay/debug/verif-replay')
        self.p = None

    def run(self, case):
        w = os.environ.get('VF_WAIT')
        while w and not os.path.exists(w):
            time.sleep(0.1)
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen([self.bin], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        self.p.stdin.write(json.dumps(case) + '\n')
        self.p.stdin.flush()
        return json.loads(self.p.stdout.readline())

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()


def compare(exp, got, query=False):
    """first difference, or None"""
    want = dict(ok='ok', err='err', abort='panic')[exp['status']]
    if got['status'] != want:
        return f"predicted {want}, observed {got['status']} ({got['error']})"
    if got['unexpected']:
        return f"asked {got['unexpected'][0]}"
    if want != 'ok':
        return None
    d = same(exp['data'], got['data'] if query else got['data']['messages'])
    if d:
        return 'answer' + d if query else 'messages' + d
    seen = {bytes.fromhex(k): json.loads(bytes.fromhex(v)) for k, v in got['storage']}
    for k in sorted(set(seen) | set(exp['storage'])):
        if k not in seen:
            return f'storage: {k!r} predicted, missing'
        if k not in exp['storage']:
            return f'storage: {k!r} not predicted: {seen[k]!r}'
        d = same(exp['storage'][k], seen[k], f'storage {k!r}')
        if d:
            return d
    return None
