"""Models of the library layer below the contracts: std collections and text, cosmwasm_std arithmetic and API, and
cw-storage-plus tables.  Everything else - the contracts, sg-marketplace-common, cw-utils, sg-index-query, ... - is
interpreted from MIR."""
import re
import z3
from sym import *
import sym
from core import E, L, Str, Bts, R, M, X, F, O, SymV, Mux, Outs, Abort, Unsupported, NoMerge, ERR, UNIT
import core
import store

EXACT = {}
TRAIT = {}
PATS = []
DECFRAC = 10 ** 18
ITER = 'core::iter::traits::iterator::Iterator'


def ex(*names):
    def f(g):
        for n in names:
            EXACT[n] = g
        return g
    return f


def tr(*names):
    """trait method, 'trait::method' -> handler with a guard on the resolved path"""
    def f(g):
        for n in names:
            TRAIT[n] = g
        return g
    return f


def pat(rx):
    def f(g):
        PATS.append((re.compile(rx), g))
        return g
    return f


def lookup(en, d):
    if d['kind'].startswith('shim'):
        return None
    h = EXACT.get(d['np'])
    if h is not None:
        return h
    for rx, g in PATS:
        if rx.match(d['np']):
            return g
    if d.get('ntrait'):
        h = TRAIT.get(d['ntrait'])
        if h is not None:
            return h
        if d['np'].startswith('<'):
            t = d['np'][1:].split(' as ')[0]
            h = TRAIT.get(t + '|' + d['ntrait'])
            if h is not None:
                return h
    return None


def NONE():
    return E(0)


def some(v):
    return E(1, (v,))


def ok(v):
    return E(0, (v,))


def err():
    return E(1, (ERR,))


# ------------------------------------------------------------------------------------------- helpers
def isvec_ty(en, ty):
    t = en.ty(ty)
    return t['k'] == 'struct' and t['p'].startswith('alloc::vec::Vec')


def strip(v):
    while isinstance(v, (R, X)):
        v = v.v
    return v


def vec_alts(en, st, v):
    """alternatives [(state, L)] of a vector value"""
    if isinstance(v, (L, Bts)):
        return [(st, v)]
    if isinstance(v, O) and v.k == 'event':
        return [(st, L(()))]
    if isinstance(v, SymV):
        t = en.ty(v.ty)
        if t['k'] == 'enum':
            raise Unsupported(f'enum as vector {v!r}')
        ety = t['args'][0]
        n = vecmax(en, v.name)
        ln = intvar(v.name + '.#len', 0, n + 1)
        out = []
        for s, k in en.split(st, [(Eq(ln, i), i) for i in range(n + 1)]):
            items = L(tuple(en.mk(f'{v.name}[{i}]', ety) for i in range(k)))
            inv = en.vecinv(v.name, items) if getattr(en, 'vecinv', None) else []
            good = True
            for c in inv:
                if not en.assume(s, c):
                    good = False
                    break
            if good:
                out.append((s, items))
        return out
    if isinstance(v, Mux):
        out = []
        for s, c in en.branch(st, v.c):
            out += vec_alts(en, s, v.a if c else v.b)
        return out
    raise Unsupported(f'vector {v!r}')


def vecmax(en, name):
    for rx, n in en.vecbound.items():
        if re.search(rx, name):
            en.usedbounds = getattr(en, 'usedbounds', {})
            en.usedbounds[rx] = n
            return n
    return en.bounds['vec']


def vec_of(en, st, ref):
    """[(state, L)] with the vector behind ref made concrete (and written back when ref is mutable)"""
    v = en.load(st, ref)
    inner = ref
    while isinstance(v, (R, M, X)):
        inner = v
        v = en.load(st, v)
    if isinstance(v, (L, Bts)):
        return [(st, v)]
    alts = vec_alts(en, st, v)
    if isinstance(inner, M):
        for s, l in alts:
            en.put(s, inner, l)
    return alts


def each(alts, fn):
    res = []
    for s, v in alts:
        try:
            r = fn(s, v)
        except Abort as e:
            continue
        if type(r) is Outs:
            res += r.o
        else:
            res.append((s, r))
    return Outs(res)


def each_ab(en, alts, fn):
    res = []
    for s, v in alts:
        try:
            r = fn(s, v)
        except Abort as e:
            en.abort(s, e.why)
            continue
        if type(r) is Outs:
            res += r.o
        else:
            res.append((s, r))
    return Outs(res)


def enum_alts(en, st, v):
    """case split an enum value: [(state, E)]"""
    if isinstance(v, E):
        return [(st, v)]
    n = len(store.enum_ty(en, v)['v']) if store.enum_ty(en, v) else None
    d = en.disc(v)
    if not is_sym(d):
        return [(st, E(d, tuple(en.fields(v, d))))]
    if n is None:
        n = maxvariant(en, v) + 1
    out = []
    for s, k in en.split(st, [(Eq(d, i), i) for i in range(n)]):
        f = en.fields(v, k)
        out.append((s, E(k, tuple(f) if f else ())))
    return out


def maxvariant(en, v):
    if isinstance(v, E):
        return v.v
    if isinstance(v, Mux):
        return max(maxvariant(en, v.a), maxvariant(en, v.b))
    return len(en.ty(v.ty)['v']) - 1


def num(v):
    """number inside Uint128 / Decimal / Timestamp wrappers (and references to them)"""
    while True:
        if isinstance(v, (R, X)):
            v = v.v
        elif type(v) is tuple and len(v) == 1:
            v = v[0]
        else:
            break
    if isinstance(v, (int, bool)) or is_sym(v):
        return v
    raise Unsupported(f'number {v!r}')


def numl(en, st, v):
    v = en.loadall(st, v)
    while type(v) is tuple and len(v) == 1:
        v = en.loadall(st, v[0])
    if isinstance(v, (int, bool)) or is_sym(v):
        return v
    raise Unsupported(f'number {v!r}')


def scratch(en, st, v):
    st.mem.append({0: v})
    fid = len(st.mem) - 1
    st.own.add(fid)
    return fid


def unscratch(s, fid):
    del s.mem[fid:]
    s.own.discard(fid)


def code(s):
    return store.code(s)


def strv(en, st, v):
    v = en.loadall(st, v)
    while type(v) is tuple and len(v) == 1:
        v = en.loadall(st, v[0])
    if isinstance(v, Str):
        return v
    raise Unsupported(f'text {v!r}')


def streq(a, b):
    if isinstance(a.c, str) and isinstance(b.c, str):
        return a.c == b.c
    return Eq(code(a), code(b))


# ------------------------------------------------------------------------------------------- text terms
_ufs = {}


def uf(name, args, lo, hi, inverse=True, kinds=None):
    """uninterpreted function application with optional injectivity (left inverses)"""
    args = tuple(args)
    nm = keyname('U:' + name, args)
    first = nm not in _ufs
    v = intvar(nm, lo, hi)
    if first:
        _ufs[nm] = (name, args, v)
        if inverse:
            for i, a in enumerate(args):
                f = z3.Function(f'inv:{name}:{i}', z3.IntSort(), z3.IntSort())
                sym.define(v, keep(f(v) == (a if is_sym(a) else z3.IntVal(a))))
    return v


def strcat(parts):
    """parts: str | Str | ('i', term)"""
    out = []
    for p in parts:
        if isinstance(p, Str) and isinstance(p.c, str):
            p = p.c
        if isinstance(p, tuple) and not is_sym(p[1]):
            p = str(p[1])
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        elif isinstance(p, Str) and isinstance(p.prov, tuple) and p.prov and p.prov[0] == 'cat':
            for q in p.prov[1]:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                else:
                    out.append(q)
            continue
        out.append(p)
    if not out:
        return Str('')
    if len(out) == 1:
        return Str(out[0]) if isinstance(out[0], str) else out[0] if isinstance(out[0], Str) else Str(uf('dec', (out[0][1],), 0, STRMAX), ('cat', tuple(out)))
    shape = ''.join(p if isinstance(p, str) else ('\1' if isinstance(p, Str) else '\2') for p in out)
    args = [code(p) if isinstance(p, Str) else p[1] for p in out if not isinstance(p, str)]
    sep = all(isinstance(out[i], str) or isinstance(out[i + 1], str) for i in range(len(out) - 1))
    return Str(uf('cat:' + shape.replace('[k', '[_k'), args, 0, STRMAX, inverse=sep), ('cat', tuple(out)))


def bytes_len(en, b):
    n = 0
    for p in b.p:
        if p[0] == 'b':
            n += len(p[1])
        elif p[0] == 'i':
            n += p[2]
        elif p[0] == 's' and isinstance(p[1].c, str):
            n += len(p[1].c.encode())
        elif p[0] == 's':
            x = str_len(en, p[1])
            n = n + x
        else:
            raise Unsupported('length of bytes')
    return n


def str_len(en, s):
    if isinstance(s.c, str):
        return len(s.c.encode())
    n = uf('strlen', (s.c,), 0, 33, inverse=False)
    sym.define(n, keep((n == 0) == (s.c == 0)))
    return n


def bytes_code(en, b):
    if all(p[0] == 'b' for p in b.p):
        return strcode(b''.join(p[1] for p in b.p))
    if len(b.p) == 1 and b.p[0][0] == 's':
        return code(b.p[0][1])
    args = []
    kinds = ''
    for p in b.p:
        if p[0] == 'b':
            kinds += 'b'
            args.append(strcode(p[1]))
        elif p[0] == 's':
            kinds += 's'
            args.append(code(p[1]))
        elif p[0] == 'i':
            kinds += f'i{p[2]}'
            args.append(p[1])
        else:
            raise Unsupported('bytes')
    return uf('bytes:' + kinds, args, 0, STRMAX)


# ------------------------------------------------------------------------------------------- Clone, conversions, cmp
@tr('core::clone::Clone::clone')
def h_clone(en, st, d, args, fb):
    return en.load(st, args[0]) if isinstance(args[0], (R, M)) else args[0]


@ex('core::hint::must_use', 'core::convert::identity', 'core::hint::black_box', '<T as core::convert::From>::from',
    'core::intrinsics::likely', 'core::intrinsics::unlikely', 'core::intrinsics::black_box', 'core::mem::manually_drop::ManuallyDrop::new')
def h_id(en, st, d, args, fb):
    return args[0]


@tr('core::borrow::ToOwned::to_owned')
def h_toowned(en, st, d, args, fb):
    v = en.loadall(st, args[0])
    return v


@pat(r'^<(alloc::string::String|str|&str) as core::cmp::PartialEq>::(eq|ne)$')
def h_streq(en, st, d, args, fb):
    r = streq(strv(en, st, args[0]), strv(en, st, args[1]))
    return Not(r) if d['np'].endswith('::ne') else r


@pat(r'^core::str::traits::\{impl core::cmp::PartialEq for str\}::(eq|ne)$')
def h_streq2(en, st, d, args, fb):
    return h_streq(en, st, d, args, fb)


@pat(r'^<(alloc::string::String|str) as core::cmp::(Ord|PartialOrd)>::(cmp|partial_cmp|lt|le|gt|ge)$|^core::str::traits::\{impl core::cmp::(Ord|PartialOrd) for str\}::')
def h_strcmp(en, st, d, args, fb):
    a, b = strv(en, st, args[0]), strv(en, st, args[1])
    return numcmp(en, d['np'].split('::')[-1], code(a), code(b))


def numcmp(en, m, a, b):
    if m == 'lt':
        return Lt(a, b)
    if m == 'le':
        return Le(a, b)
    if m == 'gt':
        return Gt(a, b)
    if m == 'ge':
        return Ge(a, b)
    if m == 'eq':
        return Eq(a, b)
    if m == 'ne':
        return Not(Eq(a, b))
    if m == 'min':
        return If(Le(a, b), a, b)
    if m == 'max':
        return If(Ge(a, b), a, b)
    r = en.binop('Cmp', a, b, INT128)
    if m == 'partial_cmp':
        return some(r)
    return r


INT128 = None

NUMT = ('cosmwasm_std::math::uint128::Uint128', 'cosmwasm_std::math::uint64::Uint64', 'cosmwasm_std::math::decimal::Decimal',
        'cosmwasm_std::timestamp::Timestamp', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i32', 'i64')


def selfty(en, d):
    return en.ty(d['args'][0])['n'] if d['args'] else ''


@pat(r'^(<.* as )?core::cmp::(Ord|PartialOrd)>?::(lt|le|gt|ge|min|max|cmp|partial_cmp)$')
def h_cmp(en, st, d, args, fb):
    np = d['np']
    if np.startswith('<'):
        t = np[1:].split(' as ')[0]
    else:
        t = selfty(en, d)
    t = t.lstrip('&')
    m = np.split('::')[-1]
    if t in NUMT:
        a, b = numl(en, st, args[0]), numl(en, st, args[1])
        r = numcmp(en, m, a, b)
        if m in ('min', 'max'):
            return en.mux(Le(a, b) if m == 'min' else Ge(a, b), args[0], args[1])
        return r
    if t in ('alloc::string::String', 'str'):
        return numcmp(en, m, code(strv(en, st, args[0])), code(strv(en, st, args[1])))
    if t == 'semver::Version':
        return numcmp(en, m, *[deepload(en, st, x).d[0] for x in args[:2]])
    if t in ('cosmwasm_std::addresses::Addr',):
        return numcmp(en, m, code(strv(en, st, args[0])), code(strv(en, st, args[1])))
    return Outs(en.execbody(st, d['id'], d, args))


@pat(r'^core::cmp::impls::\{impl core::cmp::(Ord|PartialOrd|PartialEq|Eq) for [ui]\w+\}::(lt|le|gt|ge|min|max|cmp|partial_cmp|eq|ne)$')
def h_cmp2(en, st, d, args, fb):
    return numcmp(en, d['np'].split('::')[-1], numl(en, st, args[0]), numl(en, st, args[1]))


@pat(r'^core::cmp::impls::\{impl core::cmp::PartialEq for bool\}::(eq|ne)$')
def h_booleq(en, st, d, args, fb):
    r = Eq(en.loadall(st, args[0]), en.loadall(st, args[1]))
    return Not(r) if d['np'].endswith('ne') else r


def valeq(en, st, a, b):
    """structural equality of two values of the same type (text, numbers, sequences, enums); may raise Unsupported"""
    a = en.loadall(st, a)
    b = en.loadall(st, b)
    if isinstance(a, Str) or isinstance(b, Str):
        return streq(strv(en, st, a), strv(en, st, b))
    if type(a) is tuple and type(b) is tuple:
        return And(*[valeq(en, st, x, y) for x, y in zip(a, b)])
    if isinstance(a, L) and isinstance(b, L):
        if len(a.t) != len(b.t):
            return False
        return And(*[valeq(en, st, x, y) for x, y in zip(a.t, b.t)])
    if isinstance(a, (E, SymV, Mux)) and isinstance(b, (E, SymV, Mux)):
        if isinstance(a, E) and isinstance(b, E):
            if a.v != b.v:
                return False
            return And(*[valeq(en, st, x, y) for x, y in zip(a.f, b.f)])
        da, db = en.disc(a), en.disc(b)
        r = Eq(da, db)
        if r is False:
            return False
        n = max(maxvariant(en, a), maxvariant(en, b)) + 1
        for i in range(n):
            try:
                fa, fb_ = en.fields(a, i), en.fields(b, i)
            except IndexError:
                continue
            if fa and fb_:
                r = And(r, Or(Not(Eq(da, i)), And(*[valeq(en, st, x, y) for x, y in zip(fa, fb_)])))
        return r
    if isinstance(a, Bts) and isinstance(b, Bts):
        return Eq(bytes_code(en, a), bytes_code(en, b))
    if isinstance(a, (int, bool)) or is_sym(a):
        return Eq(a, b)
    raise Unsupported(f'equality of {a!r} and {b!r}')


@pat(r'^<alloc::vec::Vec as core::cmp::PartialEq>::(eq|ne)$|^alloc::vec::partial_eq::|^core::slice::cmp::\{impl core::cmp::PartialEq|^core::array::equality::')
def h_veceq(en, st, d, args, fb):
    ne = d['np'].endswith('::ne')
    res = []
    for s, a in vec_of(en, st, args[0]):
        for s2, b in vec_of(en, s, args[1]):
            r = valeq(en, s2, a, b)
            res.append((s2, Not(r) if ne else r))
    return Outs(res)


# ------------------------------------------------------------------------------------------- strings
@ex('<alloc::string::String as core::ops::deref::Deref>::deref', '<cosmwasm_std::addresses::Addr as core::convert::AsRef>::as_ref',
    'cosmwasm_std::addresses::Addr::as_str', 'alloc::string::String::as_str', '<alloc::string::String as core::convert::AsRef>::as_ref',
    '<alloc::string::String as core::borrow::Borrow>::borrow', '<str as core::convert::AsRef>::as_ref', 'core::str::{impl str}::as_ref')
def h_asstr(en, st, d, args, fb):
    return R(strv(en, st, args[0]))


@ex('core::str::{impl core::convert::AsRef for str}::as_ref')
def h_asref(en, st, d, args, fb):
    return R(strv(en, st, args[0]))


@ex('alloc::string::String::as_bytes', 'cosmwasm_std::addresses::Addr::as_bytes', 'core::str::{impl str}::as_bytes')
def h_asbytes(en, st, d, args, fb):
    return R(Bts((('s', strv(en, st, args[0])),)))


@ex('alloc::string::String::into_bytes', '<alloc::string::String as core::convert::Into>::into')
def h_intobytes(en, st, d, args, fb):
    return Bts((('s', strv(en, st, args[0])),))


@pat(r'^core::num::\{impl u\w+\}::to_be_bytes$')
def h_tobe(en, st, d, args, fb):
    w = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'u128': 16}[re.search(r'impl (u\d+)', d['np']).group(1)]
    v = args[0]
    if not is_sym(v):
        return Bts((('b', v.to_bytes(w, 'big')),))
    return Bts((('i', v, w),))


@tr('alloc::string::ToString::to_string')
def h_tostring(en, st, d, args, fb):
    v = en.loadall(st, args[0])
    while type(v) is tuple and len(v) == 1:
        v = en.loadall(st, v[0])
    if isinstance(v, Str):
        return v
    if isinstance(v, O):
        return Str(fresh_str(en, 'text'))
    t = selfty(en, d)
    if isinstance(v, (int,)) and not isinstance(v, bool) and not t.endswith('Decimal'):
        return Str(str(v))
    if is_sym(v) or isinstance(v, int):
        return Str(uf('show:' + t, (v,), 0, STRMAX), ('show', t, v))
    return Str(fresh_str(en, 'text'))


def textnum(en, n):
    """decimal text of an unsigned 32 bit number, as Display writes it"""
    return Str(str(n)) if not is_sym(n) else Str(uf('show:u32', (n,), 0, STRMAX), ('show', 'u32', n))


def fresh_str(en, what):
    en.nfresh = getattr(en, 'nfresh', 0) + 1
    return intvar(f'{what}!{en.nfresh}', 0, STRMAX)


@pat(r'^<alloc::string::String as core::convert::From>::from$|^alloc::string::\{impl core::convert::From for .*\}::from$|^cosmwasm_std::addresses::\{impl core::convert::From for alloc::string::String\}::from$|^alloc::str::\{impl str\}::(to_owned|into_string|to_string)$|^cosmwasm_std::addresses::Addr::into_string$')
def h_strfrom(en, st, d, args, fb):
    return strv(en, st, args[0])


@ex('alloc::string::String::new')
def h_strnew(en, st, d, args, fb):
    return Str('')


@ex('alloc::string::String::is_empty', 'core::str::{impl str}::is_empty')
def h_strempty(en, st, d, args, fb):
    s = strv(en, st, args[0])
    return Eq(code(s), 0)


@ex('alloc::string::String::len', 'core::str::{impl str}::len')
def h_strlen(en, st, d, args, fb):
    return str_len(en, strv(en, st, args[0]))


@ex('alloc::string::String::push_str')
def h_pushstr(en, st, d, args, fb):
    a = strv(en, st, args[0])
    en.put(st, args[0], strcat([a, strv(en, st, args[1])]))
    return UNIT


@pat(r'^<alloc::string::String as core::ops::arith::Add>::add$')
def h_stradd(en, st, d, args, fb):
    return strcat([strv(en, st, args[0]), strv(en, st, args[1])])


@ex('alloc::slice::{impl [T]}::join', 'alloc::slice::{impl [T]}::concat')
def h_join(en, st, d, args, fb):
    elem = en.ty(d['args'][0])
    while elem['k'] == 'ref':
        elem = en.ty(elem['e'])
    if elem['n'].startswith('alloc::vec::Vec') or elem['k'] in ('slice', 'array'):
        if len(args) > 1:
            raise Unsupported('join of lists')

        def cat(s, l):
            res = [(s, ())]
            for x in l.t:
                res = [(s3, acc + y.t) for s2, acc in res for s3, y in vec_alts(en, s2, en.loadall(s2, x))]
            return Outs([(s2, L(acc)) for s2, acc in res])
        return each(vec_of(en, st, args[0]), cat)

    def f(s, l):
        parts = []
        sep = strv(en, s, args[1]) if len(args) > 1 else ''
        if isinstance(l, Bts):
            raise Unsupported('join of bytes')
        for i, x in enumerate(l.t):
            if i and sep:
                parts.append(sep)
            parts.append(strv(en, s, x))
        return strcat(parts)
    return each(vec_of(en, st, args[0]), f)


# formatting
@pat(r'^core::fmt::rt::Argument::new_(\w+)$')
def h_fmtarg(en, st, d, args, fb):
    return O('fmt', d['np'].split('new_')[1], args[0], en.ty(d['args'][0])['n'].lstrip('&') if d['args'] else '')


@pat(r'^core::fmt::(rt::)?(\{impl .*\}|Arguments)::(new|new_const|new_v1|new_v1_formatted|from_str|from_str_nonconst)$')
def h_fmtargs(en, st, d, args, fb):
    a = [en.loadall(st, x) for x in args]
    return O('fmtargs', *a)


@ex('alloc::fmt::format', 'alloc::fmt::format::format_inner')
def h_format(en, st, d, args, fb):
    a = args[0]
    if isinstance(a, O) and a.k == 'fmtargs':
        items = [x for x in a.d if isinstance(x, L)]
        tmpl = [x for x in a.d if not isinstance(x, L)]
        try:
            ps = []
            for l in items:
                for x in l.t:
                    if not (isinstance(x, O) and x.k == 'fmt'):
                        raise Unsupported('fmt')
                    v = en.loadall(st, x.d[1])
                    while type(v) is tuple and len(v) == 1:
                        v = en.loadall(st, v[0])
                    if isinstance(v, O) and v.k == 'digest' and x.d[0] == 'lower_hex':
                        ps.append(Str(hashid(en, v.d)))
                    elif isinstance(v, Str) and x.d[0] == 'display':
                        ps.append(v)
                    elif (is_sym(v) or isinstance(v, int)) and x.d[0] == 'display':
                        ps.append(('i', v))
                    else:
                        raise Unsupported('fmt')
            if len(ps) == 1 and len(tmpl) == 1 and isinstance(ps[0], Str) and plain_template(tmpl[0]):
                return ps[0]
            tys = [x.d[2] for l in items for x in l.t]
            if len(tmpl) == 1 and all(isinstance(p, Str) or re.search(r'^([ui](8|16|32|64|128|size)|cosmwasm_std::math::uint\d+::Uint\d+)$', n) for p, n in zip(ps, tys)):
                pieces = template(tmpl[0], ps)
                if pieces is not None:
                    return strcat(pieces)
            t = repr(en.ckey(tuple(tmpl)))
            import hashlib
            h = hashlib.md5(t.encode()).hexdigest()[:8]
            args_ = [code(p) if isinstance(p, Str) else p[1] for p in ps]
            if not any(is_sym(x) for x in args_):
                pass
            return Str(uf(f'format:{h}:{len(ps)}', args_, 0, STRMAX, inverse=False))
        except Unsupported:
            pass
    return Str(fresh_str(en, 'text'))


def template(t, ps):
    """the pieces of a format string with default placeholders (encoding of core::fmt::Arguments), or None"""
    if isinstance(t, R):
        t = t.v
    if isinstance(t, Str) and isinstance(t.c, str) and not ps:
        return [t]
    if not isinstance(t, Bts) or any(p[0] != 'b' for p in t.p):
        return None
    b = b''.join(p[1] for p in t.p)
    out, i, nxt = [], 0, 0
    try:
        while True:
            c = b[i]
            i += 1
            if c == 0:
                return out if i == len(b) else None
            if c < 0x80:
                out.append(b[i:i + c].decode())
                i += c
            elif c == 0xc0:
                out.append(ps[nxt])
                nxt += 1
            elif c == 0xc8:
                nxt = b[i] + 256 * b[i + 1]
                i += 2
                out.append(ps[nxt])
                nxt += 1
            else:
                return None
    except (IndexError, UnicodeDecodeError):
        return None


def plain_template(t):
    """is the format template a single placeholder without literal text"""
    if isinstance(t, Bts):
        b = b''.join(p[1] for p in t.p if p[0] == 'b')
        return not any(32 < c < 127 for c in b)
    if isinstance(t, L):
        return all(isinstance(x, R) and isinstance(x.v, Str) and x.v.c == '' for x in t.t)
    return False


# hashing
@ex('<D as digest::digest::Digest>::new')
def h_dnew(en, st, d, args, fb):
    return O('digest')


@ex('<D as digest::digest::Digest>::update')
def h_dupd(en, st, d, args, fb):
    cur = en.load(st, args[0])
    v = en.loadall(st, args[1])
    if isinstance(v, Str):
        v = Bts((('s', v),))
    if not isinstance(v, Bts):
        raise Unsupported(f'hash of {v!r}')
    en.put(st, args[0], O('digest', *(cur.d + v.p)))
    return UNIT


@ex('<D as digest::digest::Digest>::finalize')
def h_dfin(en, st, d, args, fb):
    return args[0]


def hashid(en, parts):
    kinds = ''
    args = []
    for p in parts:
        if p[0] == 's':
            kinds += 's'
            args.append(code(p[1]))
        elif p[0] == 'b':
            kinds += f'b{len(p[1])}'
            args.append(int.from_bytes(p[1], 'big'))
        elif p[0] == 'i':
            kinds += f'b{p[2]}'
            args.append(p[1])
    v = uf('hash:' + kinds, args, 256 ** 31, STRMAX)
    return v


# ------------------------------------------------------------------------------------------- vectors and slices
@pat(r'^alloc::vec::Vec::(new|with_capacity)$')
def h_vnew(en, st, d, args, fb):
    return L()


@tr('core::default::Default::default')
def h_default(en, st, d, args, fb):
    np = d['np']
    if np.startswith('<alloc::vec::Vec as'):
        return L()
    if np.startswith('<alloc::string::String as'):
        return Str('')
    return Outs(en.execbody(st, d['id'], d, args))


@ex('alloc::vec::Vec::push')
def h_vpush(en, st, d, args, fb):
    def f(s, l):
        en.put(s, args[0], L(l.t + (args[1],)))
        return UNIT
    return each(vec_of(en, st, args[0]), f)


@ex('alloc::vec::Vec::insert')
def h_vins(en, st, d, args, fb):
    def f(s, l):
        i = args[1]
        if is_sym(i):
            res = []
            for s2, k in en.split(s, [(Eq(i, k), k) for k in range(len(l.t) + 1)]):
                en.put(s2, args[0], L(l.t[:k] + (args[2],) + l.t[k:]))
                res.append((s2, UNIT))
            return Outs(res)
        if i > len(l.t):
            raise Abort('insert index')
        en.put(s, args[0], L(l.t[:i] + (args[2],) + l.t[i:]))
        return UNIT
    return each_ab(en, vec_of(en, st, args[0]), f)


@ex('alloc::vec::Vec::pop')
def h_vpop(en, st, d, args, fb):
    def f(s, l):
        if not l.t:
            return NONE()
        en.put(s, args[0], L(l.t[:-1]))
        return some(l.t[-1])
    return each(vec_of(en, st, args[0]), f)


@ex('alloc::vec::Vec::remove', 'alloc::vec::Vec::swap_remove')
def h_vrem(en, st, d, args, fb):
    def f(s, l):
        i = args[1]
        if is_sym(i):
            res = []
            for s2, k in en.split(s, [(Eq(i, k), k) for k in range(len(l.t))] + [(Ge(i, len(l.t)), None)]):
                if k is None:
                    en.abort(s2, 'remove index')
                    continue
                en.put(s2, args[0], L(l.t[:k] + l.t[k + 1:]))
                res.append((s2, l.t[k]))
            return Outs(res)
        if i >= len(l.t):
            raise Abort('remove index')
        x = l.t[i]
        if d['np'].endswith('swap_remove'):
            t = list(l.t)
            t[i] = t[-1]
            t.pop()
            en.put(s, args[0], L(t))
        else:
            en.put(s, args[0], L(l.t[:i] + l.t[i + 1:]))
        return x
    return each_ab(en, vec_of(en, st, args[0]), f)


@ex('alloc::vec::Vec::clear')
def h_vclear(en, st, d, args, fb):
    en.put(st, args[0], L())
    return UNIT


@ex('alloc::vec::Vec::truncate')
def h_vtrunc(en, st, d, args, fb):
    def f(s, l):
        n = args[1]
        res = []
        for s2, k in en.split(s, [(Eq(n, i), i) for i in range(len(l.t))] + [(Ge(n, len(l.t)), len(l.t))]):
            en.put(s2, args[0], L(l.t[:k]))
            res.append((s2, UNIT))
        return Outs(res)
    return each(vec_of(en, st, args[0]), f)


@ex('alloc::vec::Vec::append')
def h_vappend(en, st, d, args, fb):
    res = []
    for s, a in vec_of(en, st, args[0]):
        for s2, b in vec_of(en, s, args[1]):
            en.put(s2, args[0], L(a.t + b.t))
            en.put(s2, args[1], L())
            res.append((s2, UNIT))
    return Outs(res)


@pat(r'^alloc::vec::Vec::extend_from_slice$')
def h_vextslice(en, st, d, args, fb):
    res = []
    for s, a in vec_of(en, st, args[0]):
        for s2, b in vec_of(en, s, args[1]):
            if isinstance(b, Bts) or isinstance(a, Bts):
                a = a if isinstance(a, Bts) else Bts()
                b = b if isinstance(b, Bts) else Bts()
                en.put(s2, args[0], Bts(a.p + b.p))
            else:
                en.put(s2, args[0], L(a.t + b.t))
            res.append((s2, UNIT))
    return Outs(res)


@pat(r'^<alloc::vec::Vec as core::iter::traits::collect::Extend>::extend$')
def h_vext(en, st, d, args, fb):
    res = []
    ity = d['args'][-1]
    # generics: T, A, I
    for a in d['args']:
        pass
    for s, items in drain_into(en, st, args[1], ity):
        for s2, a in vec_of(en, s, args[0]):
            if items and isinstance(items[0], (R,)) and not isinstance(a, Bts) and en.ty(d['args'][0])['k'] not in ('ref',):
                items = [x.v if isinstance(x, R) else x for x in items]
            en.put(s2, args[0], L(a.t + tuple(items)))
            res.append((s2, UNIT))
    return Outs(res)


def drain_into(en, st, v, ty):
    """run IntoIterator::into_iter and collect every element"""
    inst = en.sv.trm('core::iter::traits::collect::IntoIterator', 'into_iter', ty)
    if inst is None:
        raise Unsupported(f"IntoIterator for {en.ty(ty)['n']}")
    out = []
    ity = en.sv.sig(inst)[-1]
    for s, it in en.call(st, inst, [v], dict(p='', tr='core::iter::traits::collect::IntoIterator', df=None)):
        out += drain(en, s, it, ity)
    return out


def drain(en, st, it, ity):
    inst = en.sv.trm(ITER, 'next', ity)
    if inst is None:
        raise Unsupported(f"Iterator for {en.ty(ity)['n']}")
    fid = scratch(en, st, it)
    work = [(st, [])]
    done = []
    n = 0
    while work:
        n += 1
        if n > 4000:
            raise Unsupported('collect bound')
        s, acc = work.pop()
        for s2, r in en.call(s, inst, [M(fid, 0)], dict(p='', tr=ITER, df=None)):
            for s3, e in enum_alts(en, s2, r):
                if e.v == 0:
                    unscratch(s3, fid)
                    done.append((s3, acc))
                else:
                    work.append((s3, acc + [e.f[0]]))
    return done


@pat(r'^<alloc::vec::Vec as core::iter::traits::collect::FromIterator>::from_iter$')
def h_fromiter(en, st, d, args, fb):
    ity = [a for a in d['args']][-1]
    return Outs([(s, L(items)) for s, items in drain_into(en, st, args[0], ity)])


@pat(r'^<(alloc::collections::btree::set::Iter|alloc::collections::btree::set::IntoIter|core::slice::iter::Iter|core::slice::iter::IterMut|alloc::vec::into_iter::IntoIter|core::array::iter::IntoIter|core::option::IntoIter|core::option::Item|core::iter::sources::once::Once|core::iter::sources::empty::Empty|core::slice::iter::Windows|core::slice::iter::Chunks|core::slice::iter::ChunksExact|alloc::vec::drain::Drain) as core::iter::traits::\w+::\w+>::(\w+)$')
def h_iter(en, st, d, args, fb):
    m = d['np'].split('::')[-1]
    if m in ('next', 'next_back'):
        it = en.load(st, args[0])
        if not isinstance(it, O):
            if isinstance(it, (E, SymV, Mux)) or type(it) is tuple:
                return Outs(en.execbody(st, d['id'], d, args))
            raise Unsupported(f'iterator {it!r}')
        items = it.d[0]
        if not items:
            return NONE()
        if m == 'next':
            en.put(st, args[0], O('it', items[1:]))
            return some(items[0])
        en.put(st, args[0], O('it', items[:-1]))
        return some(items[-1])
    if m == 'size_hint':
        n = len(en.load(st, args[0]).d[0])
        return (n, some(n))
    if m in ('len', 'count'):
        it = en.load(st, args[0]) if isinstance(args[0], (R, M)) else args[0]
        return len(it.d[0])
    if m in ('nth', 'nth_back') and not is_sym(args[1]):
        it = en.load(st, args[0])
        if isinstance(it, O):
            items, n = it.d[0], args[1]
            if n >= len(items):
                en.put(st, args[0], O('it', ()))
                return NONE()
            en.put(st, args[0], O('it', items[n + 1:] if m == 'nth' else items[:len(items) - n - 1]))
            return some(items[n] if m == 'nth' else items[len(items) - n - 1])
    if m == '__iterator_get_unchecked':
        if is_sym(args[1]):
            raise Unsupported('symbolic iterator index')
        items = en.load(st, args[0]).d[0]
        if args[1] >= len(items):
            raise Unsupported('iterator index out of range')
        return items[args[1]]
    if m == 'into_iter':
        return args[0]
    if m in ('find', 'find_map', 'for_each') and 'slice' in d['np']:
        return Outs(en.execbody(st, d['id'], d, args))
    if m in ('any', 'all'):
        return anyall(en, st, d, args, d['args'][-1], iterty=en.pointee(en.ty(en.sv.sig(d['id'])[0])))
    if fb and fb.get('df') is not None:
        return Outs(en.execbody(st, fb['df'], en.sv.inst(fb['df']), args))
    if d.get('body') is not False and d['crate'] == 'core' and m not in OVERRIDDEN:
        return Outs(en.execbody(st, d['id'], d, args))
    raise Unsupported(f"iterator method {d['path']}")


OVERRIDDEN = {'any', 'all', 'find', 'find_map', 'position', 'rposition', 'fold', 'for_each', 'nth', 'last', 'max_by', 'min_by', 'try_fold',
              'nth_back', 'advance_by', 'is_sorted_by', 'collect', 'sum'}


@ex(ITER + '::any', ITER + '::all')
def h_anyall(en, st, d, args, fb):
    return anyall(en, st, d, args, d['args'][-1], d['args'][0])


def anyall(en, st, d, args, fty, iterty):
    want = d['np'].endswith('any')
    inst = en.sv.trm(ITER, 'next', iterty)
    ft = en.ty(fty)
    if ft['k'] not in ('closure', 'fndef'):
        raise Unsupported('any over ' + ft['n'])
    fid = scratch(en, st, args[1])
    work = [st]
    done = []
    n = 0
    while work:
        n += 1
        if n > 2000:
            raise Unsupported('any/all bound')
        s = work.pop()
        for s2, r in en.call(s, inst, [args[0]], dict(p='', tr=ITER, df=None)):
            for s3, e in enum_alts(en, s2, r):
                if e.v == 0:
                    unscratch(s3, fid)
                    done.append((s3, not want))
                    continue
                cargs = [M(fid, 0), (e.f[0],)] if ft['k'] == 'closure' else [e.f[0]]
                for s4, b in en.call(s3, ft['inst'], cargs, dict(p='', tr='core::ops::function::FnMut', df=None)):
                    for s5, yes in en.branch(s4, b):
                        if yes == want:
                            unscratch(s5, fid)
                            done.append((s5, want))
                        else:
                            work.append(s5)
    return Outs(done)


def mkiter(en, st, ref):
    def f(s, l):
        if isinstance(ref, M):
            base = ref
            v = en.load(s, base)
            while isinstance(v, (M,)):
                base = v
                v = en.load(s, base)
            if isinstance(v, R):
                return O('it', tuple(R(x) for x in l.t))
            return O('it', tuple(M(base.fid, base.loc, base.path + (('i', i),)) for i in range(len(l.t))))
        return O('it', tuple(R(x) for x in l.t))
    return each(vec_of(en, st, ref), f)


@ex('core::slice::{impl [T]}::iter', '<&alloc::vec::Vec as core::iter::traits::collect::IntoIterator>::into_iter',
    'core::slice::iter::{impl core::iter::traits::collect::IntoIterator for &\'a [T]}::into_iter', 'alloc::vec::Vec::iter')
def h_siter(en, st, d, args, fb):
    a = args[0]
    if isinstance(a, M) and ('iter_mut' not in d['np']):
        # shared iteration over something held through a mutable place
        sub = each(vec_of(en, st, a), lambda s, l: O('it', tuple(R(x) for x in l.t)))
        if 'slice::{impl [T]}::iter' in d['np'] or "&'a [T]" in d['np']:
            return sub
        if fb is None or not str(fb.get('p', '')).startswith('&mut'):
            pass
        # `for x in &mut vec` normalises to the same path: decide by the argument type
        t = en.ty(en.sv.sig(d['id'])[0])
        if not t.get('mut'):
            return sub
    return mkiter(en, st, a)


@ex('core::slice::{impl [T]}::iter_mut', '<&mut alloc::vec::Vec as core::iter::traits::collect::IntoIterator>::into_iter',
    'core::slice::iter::{impl core::iter::traits::collect::IntoIterator for &\'a mut [T]}::into_iter')
def h_siterm(en, st, d, args, fb):
    return mkiter(en, st, args[0])


@pat(r'^<&.*\[T\] as core::iter::traits::collect::IntoIterator>::into_iter$|^core::array::\{impl core::iter::traits::collect::IntoIterator for &.*\}::into_iter$')
def h_siter2(en, st, d, args, fb):
    return mkiter(en, st, args[0])


@pat(r'^<alloc::vec::Vec as core::iter::traits::collect::IntoIterator>::into_iter$|^core::array::iter::\{impl core::iter::traits::collect::IntoIterator for .*\}::into_iter$|^<\[T; N\] as core::iter::traits::collect::IntoIterator>::into_iter$')
def h_viter(en, st, d, args, fb):
    def f(s, l):
        return O('it', tuple(l.t))
    return each(vec_alts(en, st, en.loadall(st, args[0]) if isinstance(args[0], (R, M, X)) else args[0]), f)


@pat(r'^<I as core::iter::traits::collect::IntoIterator>::into_iter$')
def h_intoiter_id(en, st, d, args, fb):
    return args[0]


@ex('alloc::vec::Vec::len', 'core::slice::{impl [T]}::len')
def h_vlen(en, st, d, args, fb):
    return each(vec_of(en, st, args[0]), lambda s, l: bytes_len(en, l) if isinstance(l, Bts) else len(l.t))


@ex('alloc::vec::Vec::is_empty', 'core::slice::{impl [T]}::is_empty')
def h_vempty(en, st, d, args, fb):
    return each(vec_of(en, st, args[0]), lambda s, l: Eq(bytes_len(en, l), 0) if isinstance(l, Bts) else len(l.t) == 0)


@pat(r'^<alloc::vec::Vec as core::ops::deref::Deref>::deref$|^alloc::vec::Vec::as_slice$|^<alloc::vec::Vec as core::convert::AsRef>::as_ref$|^<alloc::vec::Vec as core::borrow::Borrow>::borrow$|^core::array::\{impl core::convert::AsRef for .*\}::as_ref$|^core::array::\{impl .*\}::as_slice$|^core::slice::\{impl core::convert::AsRef for .*\}::as_ref$')
def h_vderef(en, st, d, args, fb):
    return each(vec_of(en, st, args[0]), lambda s, l: R(l))


@pat(r'^<alloc::vec::Vec as core::ops::deref::DerefMut>::deref_mut$|^alloc::vec::Vec::as_mut_slice$')
def h_vderefm(en, st, d, args, fb):
    return each(vec_of(en, st, args[0]), lambda s, l: args[0])


@pat(r'^<alloc::vec::Vec as core::ops::index::Index(Mut)?>::index(_mut)?$|^core::slice::index::\{impl core::ops::index::Index(Mut)? for \[T\]\}::index(_mut)?$|^core::array::\{impl core::ops::index::Index(Mut)? for .*\}::index(_mut)?$')
def h_vindex(en, st, d, args, fb):
    mut = d['np'].endswith('index_mut')
    i = args[1]

    def f(s, l):
        if isinstance(l, Bts):
            raise Unsupported('index into bytes')
        if type(i) is tuple or isinstance(i, O):
            t = rangeidx(en, d, i, len(l.t))
            if t is None:
                raise Unsupported('range index')
            if mut:
                raise Unsupported('mutable sub-slice')
            return R(L(l.t[t[0]:t[1]]))
        if is_sym(i):
            res = []
            for s2, k in en.split(s, [(Eq(i, k), k) for k in range(len(l.t))] + [(Ge(i, len(l.t)), None)]):
                if k is None:
                    en.abort(s2, 'index out of bounds')
                    continue
                r = args[0]
                res.append((s2, M(r.fid, r.loc, r.path + (('i', k),)) if mut else R(l.t[k])))
            return Outs(res)
        if i >= len(l.t):
            raise Abort('index out of bounds')
        if mut:
            r = args[0]
            return M(r.fid, r.loc, r.path + (('i', i),))
        return R(l.t[i])
    return each_ab(en, vec_of(en, st, args[0]), f)


def rangeidx(en, d, i, n):
    names = [en.ty(a)['n'] for a in d['args']]
    rn = [x for x in names if 'ops::range::' in x]
    if not rn:
        return None
    rn = rn[0]
    if 'RangeFull' in rn:
        return (0, n)
    if any(is_sym(x) for x in i):
        return None
    r = None
    if 'RangeFrom' in rn:
        r = (i[0], n)
    elif 'RangeToInclusive' in rn:
        r = (0, i[0] + 1)
    elif 'RangeTo' in rn:
        r = (0, i[0])
    elif 'RangeInclusive' in rn:
        r = (i[0], i[1] + 1)
    elif 'Range<' in rn:
        r = (i[0], i[1])
    if r is not None and not r[0] <= r[1] <= n:
        raise Abort('range out of bounds')
    return r


@ex('core::slice::{impl [T]}::first', 'core::slice::{impl [T]}::last')
def h_first(en, st, d, args, fb):
    k = -1 if d['np'].endswith('last') else 0
    return each(vec_of(en, st, args[0]), lambda s, l: some(R(l.t[k])) if l.t else NONE())


@ex('core::slice::{impl [T]}::get', 'core::slice::{impl [T]}::get_mut')
def h_get(en, st, d, args, fb):
    i = args[1]

    def f(s, l):
        if type(i) is tuple or isinstance(i, O):
            if d['np'].endswith('mut') or isinstance(l, Bts):
                raise Unsupported('get of a range')
            try:
                t = rangeidx(en, d, i, len(l.t))
            except Abort:
                return NONE()
            if t is None:
                raise Unsupported('range index')
            return some(R(L(l.t[t[0]:t[1]])))
        if is_sym(i):
            res = []
            for s2, k in en.split(s, [(Eq(i, k), k) for k in range(len(l.t))] + [(Ge(i, len(l.t)), None)]):
                if k is None:
                    res.append((s2, NONE()))
                elif d['np'].endswith('mut'):
                    r = args[0]
                    res.append((s2, some(M(r.fid, r.loc, r.path + (('i', k),)))))
                else:
                    res.append((s2, some(R(l.t[k]))))
            return Outs(res)
        if i >= len(l.t):
            return NONE()
        if d['np'].endswith('mut'):
            r = args[0]
            return some(M(r.fid, r.loc, r.path + (('i', i),)))
        return some(R(l.t[i]))
    return each(vec_of(en, st, args[0]), f)


@ex('core::slice::{impl [T]}::to_vec', 'alloc::slice::{impl [T]}::to_vec', 'alloc::slice::{impl [T]}::into_vec')
def h_tovec(en, st, d, args, fb):
    return each(vec_of(en, st, args[0]) if isinstance(args[0], (R, M, X)) else vec_alts(en, st, args[0]), lambda s, l: l)


@ex('core::slice::{impl [T]}::contains')
def h_contains(en, st, d, args, fb):
    def f(s, l):
        return Or(*[valeq(en, s, x, args[1]) for x in l.t])
    return each(vec_of(en, st, args[0]), f)


@ex('core::slice::{impl [T]}::reverse')
def h_rev(en, st, d, args, fb):
    def f(s, l):
        en.put(s, args[0], L(tuple(reversed(l.t))))
        return UNIT
    return each(vec_of(en, st, args[0]), f)


@ex('core::slice::{impl [T]}::swap')
def h_swap(en, st, d, args, fb):
    def f(s, l):
        t = list(l.t)
        i, j = args[1], args[2]
        t[i], t[j] = t[j], t[i]
        en.put(s, args[0], L(t))
        return UNIT
    return each(vec_of(en, st, args[0]), f)


def sort_states(en, st, items, less):
    """insertion sort by forking; less(state, a, b) -> [(state, bool)] (b strictly before a => move)"""
    work = [(st, (), tuple(items))]
    done = []
    while work:
        s, acc, rest = work.pop()
        if not rest:
            done.append((s, acc))
            continue
        x = rest[0]
        # find position from the right
        pend = [(s, len(acc))]
        while pend:
            s2, k = pend.pop()
            if k == 0:
                work.append((s2, (x,) + acc, rest[1:]))
                continue
            for s3, lt in less(s2, x, acc[k - 1]):
                if lt:
                    pend.append((s3, k - 1))
                else:
                    work.append((s3, acc[:k] + (x,) + acc[k:], rest[1:]))
    return done


@pat(r'^(alloc|core)::slice::\{impl \[T\]\}::(sort|sort_unstable)$')
def h_sort(en, st, d, args, fb):
    res = []
    for s, l in vec_of(en, st, args[0]):
        for s2, items in sort_states(en, s, l.t, lambda s_, x, y: ordless(en, s_, d['args'][0], x, y)):
            en.put(s2, args[0], L(items))
            res.append((s2, UNIT))
    return Outs(res)


@pat(r'^(alloc|core)::slice::\{impl \[T\]\}::(sort_by|sort_unstable_by|sort_by_key|sort_unstable_by_key)$')
def h_sortby(en, st, d, args, fb):
    res = []
    bykey = d['np'].endswith('_key')
    fty = [a for a in d['args'] if en.ty(a)['k'] in ('closure', 'fndef')]
    if not fty:
        raise Unsupported('sort key')
    inst = en.ty(fty[-1])['inst']
    if bykey:
        kty = en.sv.body(inst)['locals'][0]
        for s, l in vec_of(en, st, args[0]):
            for s2, ks in foreach_item(en, s, fty[-1], args[1], l.t, R):
                for s3, items in sort_states(en, s2, tuple(zip(ks, l.t)), lambda s_, x, y: ordless(en, s_, kty, x[0], y[0])):
                    en.put(s3, args[0], L(tuple(x for _, x in items)))
                    res.append((s3, UNIT))
        return Outs(res)
    for s, l in vec_of(en, st, args[0]):
        def less(s2, x, y):
            fid = scratch(en, s2, args[1])
            out = []
            for s3, o in en.call(s2, inst, [M(fid, 0), (R(x), R(y))], dict(p='', tr='core::ops::function::FnMut', df=None)):
                unscratch(s3, fid)
                out += en.branch(s3, Eq(en.disc(o), 0))
            return out
        for s2, items in sort_states(en, s, l.t, less):
            en.put(s2, args[0], L(items))
            res.append((s2, UNIT))
    return Outs(res)


def ordless(en, st, ty, x, y):
    """[(state, x < y)] by the type's own order"""
    t = en.ty(ty)
    if t['k'] in ('int', 'bool', 'char') or t.get('p') == core.ADT_STRING or isinstance(x, Str):
        return en.branch(st, store.lexlt(store.flat(en, x), store.flat(en, y)))
    inst = en.sv.trm('core::cmp::Ord', 'cmp', ty)
    if inst is None:
        raise Unsupported('order of ' + t['n'])
    out = []
    for s, o in en.call(st, inst, [R(x), R(y)], dict(p='', tr='core::cmp::Ord', df=None)):
        out += en.branch(s, Eq(en.disc(o), 0))
    return out


def callfn(en, st, fty, f, cargs, tr='core::ops::function::FnMut'):
    """call a closure or function item value with the given arguments -> [(state, result)]"""
    ft = en.ty(fty)
    if ft['k'] not in ('closure', 'fndef'):
        raise Unsupported('call of ' + ft['n'])
    if ft['k'] != 'closure':
        return en.call(st, ft['inst'], list(cargs), dict(p='', tr=tr, df=None))
    fid = scratch(en, st, f)
    out = []
    for s, r in en.call(st, ft['inst'], [M(fid, 0), tuple(cargs)], dict(p='', tr=tr, df=None)):
        unscratch(s, fid)
        out.append((s, r))
    return out


def fnarg(en, d):
    fs = [a for a in d['args'] if en.ty(a)['k'] in ('closure', 'fndef')]
    if not fs:
        raise Unsupported('closure of ' + d['np'])
    return fs[-1]


def foreach_item(en, st, fty, f, items, mk):
    """call f on every item -> [(state, results)]; the closure keeps its state between the calls"""
    ft = en.ty(fty)
    if ft['k'] not in ('closure', 'fndef'):
        raise Unsupported('call of ' + ft['n'])
    fid = scratch(en, st, f)
    work = [(st, ())]
    for x in items:
        new = []
        for s, acc in work:
            cargs = [M(fid, 0), (mk(x),)] if ft['k'] == 'closure' else [mk(x)]
            for s2, r in en.call(s, ft['inst'], cargs, dict(p='', tr='core::ops::function::FnMut', df=None)):
                new.append((s2, acc + (r,)))
        work = new
    for s, _ in work:
        unscratch(s, fid)
    return work


@pat(r'^core::array::(\{impl \[T; N\]\}|\{impl \[T\]\})::map$')
def h_amap(en, st, d, args, fb):
    out = []
    for s, l in vec_alts(en, st, args[0]):
        if isinstance(l, Bts):
            raise Unsupported('map over bytes')
        out += [(s2, L(r)) for s2, r in foreach_item(en, s, fnarg(en, d), args[1], l.t, lambda x: x)]
    return Outs(out)


@pat(r'^core::slice::\{impl \[T\]\}::(windows|chunks|chunks_exact)$')
def h_windows(en, st, d, args, fb):
    m = d['np'].split('::')[-1]
    n = args[1]
    if is_sym(n):
        raise Unsupported('symbolic ' + m)

    def f(s, l):
        if n == 0:
            raise Abort('chunk size')
        if isinstance(l, Bts):
            raise Unsupported(m)
        t = l.t
        if m == 'windows':
            r = [t[i:i + n] for i in range(len(t) - n + 1)]
        else:
            r = [t[i:i + n] for i in range(0, len(t), n)]
            if m == 'chunks_exact':
                r = [x for x in r if len(x) == n]
        return O('it', tuple(R(L(x)) for x in r))
    return each_ab(en, vec_of(en, st, args[0]), f)


@ex('alloc::vec::Vec::drain')
def h_vdrain(en, st, d, args, fb):
    def f(s, l):
        t = rangeidx(en, d, args[1], len(l.t)) if not isinstance(l, Bts) else None
        if t is None:
            raise Unsupported('drain range')
        en.put(s, args[0], L(l.t[:t[0]] + l.t[t[1]:]))
        return O('it', tuple(l.t[t[0]:t[1]]))
    return each_ab(en, vec_of(en, st, args[0]), f)


@ex('alloc::vec::Vec::split_off')
def h_splitoff(en, st, d, args, fb):
    def f(s, l):
        k = args[1]
        if is_sym(k) or isinstance(l, Bts):
            raise Unsupported('split_off')
        if k > len(l.t):
            raise Abort('split_off')
        en.put(s, args[0], L(l.t[:k]))
        return L(l.t[k:])
    return each_ab(en, vec_of(en, st, args[0]), f)


@ex('alloc::vec::Vec::resize')
def h_resize(en, st, d, args, fb):
    def f(s, l):
        k = args[1]
        if is_sym(k) or isinstance(l, Bts) or k > 4096:
            raise Unsupported('resize')
        en.put(s, args[0], L(l.t[:k] + (args[2],) * max(0, k - len(l.t))))
        return UNIT
    return each(vec_of(en, st, args[0]), f)


@ex('alloc::vec::from_elem')
def h_fromelem(en, st, d, args, fb):
    if is_sym(args[1]) or args[1] > 4096:
        raise Unsupported('repeat')
    return L((args[0],) * args[1])


@pat(r'^core::slice::\{impl \[T\]\}::(rotate_left|rotate_right|fill)$')
def h_rotate(en, st, d, args, fb):
    m = d['np'].split('::')[-1]

    def f(s, l):
        t = l.t
        if m == 'fill':
            r = (args[1],) * len(t)
        else:
            k = args[1]
            if is_sym(k):
                raise Unsupported(m)
            if k > len(t):
                raise Abort(m)
            r = t[k:] + t[:k] if m == 'rotate_left' else t[len(t) - k:] + t[:len(t) - k]
        en.put(s, args[0], L(r))
        return UNIT
    return each_ab(en, vec_of(en, st, args[0]), f)


@ex('alloc::vec::Vec::dedup_by_key')
def h_dedupkey(en, st, d, args, fb):
    res = []
    for s, l in vec_of(en, st, args[0]):
        for s2, ks in foreach_item(en, s, fnarg(en, d), args[1], l.t, R):
            work = [(s2, (), 0)]
            while work:
                s3, acc, i = work.pop()
                if i == len(l.t):
                    en.put(s3, args[0], L(tuple(l.t[j] for j in acc)))
                    res.append((s3, UNIT))
                    continue
                for s4, e in (en.branch(s3, valeq(en, s3, ks[acc[-1]], ks[i])) if acc else [(s3, False)]):
                    work.append((s4, acc if e else acc + (i,), i + 1))
    return Outs(res)


@pat(r'^core::array::\{impl core::convert::TryFrom for \[T; N\]\}::try_from$|^alloc::vec::\{impl core::convert::TryFrom for \[T; N\]\}::try_from$|^<\[T; N\] as core::convert::TryFrom>::try_from$')
def h_arrtry(en, st, d, args, fb):
    if 'alloc::vec::Vec' not in en.ty(en.sv.sig(d['id'])[0])['n']:
        return Outs(en.execbody(st, d['id'], d, args))
    rt = en.ty(en.sv.sig(d['id'])[-1])
    at = en.ty(rt['args'][0])
    n = at.get('len')
    if n is None:
        raise Unsupported(f"length of {at['n']}")
    return each(vec_alts(en, st, args[0]), lambda s, l: ok(l) if len(l.t) == n else E(1, (l,)))


@ex(ITER + '::unzip')
def h_unzip(en, st, d, args, fb):
    rt = en.ty(en.sv.sig(d['id'])[-1])
    if any(not en.ty(x)['n'].startswith('alloc::vec::Vec') for x in rt['f']):
        return Outs(en.execbody(st, d['id'], d, args))
    ity = en.sv.sig(d['id'])[0]
    return Outs([(s, (L(tuple(en.field(x, 0) for x in items)), L(tuple(en.field(x, 1) for x in items))))
                 for s, items in drain(en, st, args[0], ity)])


@ex('core::intrinsics::select_unpredictable')
def h_select(en, st, d, args, fb):
    if not is_sym(args[0]):
        return args[1] if args[0] else args[2]
    return en.mux(args[0], args[1], args[2])


@ex('alloc::vec::Vec::dedup')
def h_dedup(en, st, d, args, fb):
    res = []
    for s, l in vec_of(en, st, args[0]):
        work = [(s, (), tuple(l.t))]
        while work:
            s2, acc, rest = work.pop()
            if not rest:
                en.put(s2, args[0], L(acc))
                res.append((s2, UNIT))
                continue
            if not acc:
                work.append((s2, rest[:1], rest[1:]))
                continue
            for s3, e in en.branch(s2, valeq(en, s2, acc[-1], rest[0])):
                work.append((s3, acc if e else acc + rest[:1], rest[1:]))
    return Outs(res)


@ex('alloc::vec::Vec::dedup_by')
def h_dedupby(en, st, d, args, fb):
    inst = en.ty(fnarg(en, d))['inst']
    res = []
    for s, l in vec_of(en, st, args[0]):
        work = [(s, (), tuple(l.t))]
        while work:
            s2, acc, rest = work.pop()
            if not rest:
                en.put(s2, args[0], L(acc))
                res.append((s2, UNIT))
                continue
            if not acc:
                work.append((s2, rest[:1], rest[1:]))
                continue
            fid = scratch(en, s2, args[1])
            for s3, o in en.call(s2, inst, [M(fid, 0), (R(rest[0]), R(acc[-1]))], dict(p='', tr='core::ops::function::FnMut', df=None)):
                unscratch(s3, fid)
                for s4, e in en.branch(s3, o):
                    work.append((s4, acc if e else acc + rest[:1], rest[1:]))
    return Outs(res)


BSET = r'alloc::collections::btree::set::BTreeSet'
HSET = r'std::collections::hash::set::HashSet'


def set_place(en, st, ty, items, x, ordered):
    """[(state, position of x or None, position to insert it at)]"""
    out = []
    work = [(st, 0)]
    while work:
        s, i = work.pop()
        if i == len(items):
            out.append((s, None, i))
            continue
        for s2, e in en.branch(s, valeq(en, s, items[i], x)):
            if e:
                out.append((s2, i, i))
            elif not ordered:
                work.append((s2, i + 1))
            else:
                for s3, lt in ordless(en, s2, ty, x, items[i]):
                    if lt:
                        out.append((s3, None, i))
                    else:
                        work.append((s3, i + 1))
    return out


def set_add(en, st, ty, items, xs, ordered):
    """[(state, elements, whether the last element was new)]"""
    work = [(st, tuple(items), tuple(xs), False)]
    done = []
    while work:
        s, l, rest, new = work.pop()
        if not rest:
            done.append((s, l, new))
            continue
        for s2, at, pos in set_place(en, s, ty, l, rest[0], ordered):
            work.append((s2, l if at is not None else l[:pos] + (rest[0],) + l[pos:], rest[1:], at is None))
    return done


@pat(r'^<?(' + BSET + '|' + HSET + r')(?: as (?:core::iter::traits::collect::\w+|core::default::Default)>)?::(\w+)$')
def h_set(en, st, d, args, fb):
    m = d['np'].split('::')[-1]
    ordered = 'BTreeSet' in d['np']
    ty = d['args'][0]
    if m in ('new', 'default', 'with_capacity'):
        return L(())
    if m == 'from_iter':
        return Outs([(s2, L(l)) for s, items in drain_into(en, st, args[0], d['args'][-1]) for s2, l, _ in set_add(en, s, ty, (), items, ordered)])
    if m == 'into_iter' and ordered:
        v = en.loadall(st, args[0]) if isinstance(args[0], (R, M, X)) else args[0]
        return O('it', tuple(v.t))
    res = []
    for s, l in vec_of(en, st, args[0]):
        if m == 'insert':
            for s2, r, new in set_add(en, s, ty, l.t, (args[1],), ordered):
                en.put(s2, args[0], L(r))
                res.append((s2, new))
        elif m == 'extend':
            for s1, items in drain_into(en, s, args[1], d['args'][-1]):
                for s2, r, _ in set_add(en, s1, ty, l.t, items, ordered):
                    en.put(s2, args[0], L(r))
                    res.append((s2, UNIT))
        elif m in ('contains', 'remove'):
            for s2, at, _ in set_place(en, s, ty, l.t, en.loadall(s, args[1]), False):
                if m == 'remove' and at is not None:
                    en.put(s2, args[0], L(l.t[:at] + l.t[at + 1:]))
                res.append((s2, at is not None))
        elif m == 'len':
            res.append((s, len(l.t)))
        elif m == 'is_empty':
            res.append((s, not l.t))
        elif m == 'iter' and ordered:
            res.append((s, O('it', tuple(R(x) for x in l.t))))
        elif m in ('first', 'last') and ordered:
            res.append((s, some(R(l.t[0 if m == 'first' else -1])) if l.t else NONE()))
        elif m in ('pop_first', 'pop_last') and ordered:
            if l.t:
                en.put(s, args[0], L(l.t[1:] if m == 'pop_first' else l.t[:-1]))
            res.append((s, some(l.t[0 if m == 'pop_first' else -1]) if l.t else NONE()))
        else:
            raise Unsupported(f"set method {d['np']}")
    return Outs(res)


@pat(r'^<&' + BSET + r' as core::iter::traits::collect::IntoIterator>::into_iter$')
def h_setref(en, st, d, args, fb):
    return each(vec_of(en, st, args[0]), lambda s, l: O('it', tuple(R(x) for x in l.t)))


@ex('alloc::vec::Vec::retain', 'alloc::vec::Vec::retain_mut')
def h_retain(en, st, d, args, fb):
    fty = [a for a in d['args'] if en.ty(a)['k'] in ('closure', 'fndef')]
    inst = en.ty(fty[-1])['inst']
    res = []
    for s, l in vec_of(en, st, args[0]):
        fid = scratch(en, s, args[1])
        work = [(s, (), tuple(l.t))]
        while work:
            s2, acc, rest = work.pop()
            if not rest:
                unscratch(s2, fid)
                en.put(s2, args[0], L(acc))
                res.append((s2, UNIT))
                continue
            for s3, o in en.call(s2, inst, [M(fid, 0), (R(rest[0]),)], dict(p='', tr='core::ops::function::FnMut', df=None)):
                for s4, keepit in en.branch(s3, o):
                    work.append((s4, acc + rest[:1] if keepit else acc, rest[1:]))
    return Outs(res)


# vec![..]
@ex('alloc::boxed::Box::new_uninit')
def h_newuninit(en, st, d, args, fb):
    return X(O('uninit'))


@ex('alloc::boxed::box_assume_init_into_vec_unsafe')
def h_boxvec(en, st, d, args, fb):
    v = args[0]
    while isinstance(v, X):
        v = v.v
    return v


@ex('alloc::boxed::Box::new')
def h_boxnew(en, st, d, args, fb):
    return X(args[0])


@ex('alloc::boxed::Box::as_mut_ptr', 'core::mem::maybe_uninit::MaybeUninit::as_mut_ptr', 'alloc::boxed::Box::as_ptr')
def h_asmut(en, st, d, args, fb):
    return args[0]


# mem
@ex('core::mem::replace')
def h_replace(en, st, d, args, fb):
    old = en.load(st, args[0])
    en.put(st, args[0], args[1])
    return old


@ex('core::mem::swap')
def h_mswap(en, st, d, args, fb):
    a, b = en.load(st, args[0]), en.load(st, args[1])
    en.put(st, args[0], b)
    en.put(st, args[1], a)
    return UNIT


@ex('core::mem::take')
def h_take(en, st, d, args, fb):
    inst = en.sv.trm('core::default::Default', 'default', d['args'][0])
    res = []
    for s, v in en.call(st, inst, [], None):
        old = en.load(s, args[0])
        en.put(s, args[0], v)
        res.append((s, old))
    return Outs(res)


@ex('core::mem::drop', 'core::mem::forget')
def h_drop(en, st, d, args, fb):
    return UNIT


# panics
@pat(r'^core::panicking::|^core::option::(unwrap_failed|expect_failed)|^core::result::unwrap_failed|^std::rt::begin_panic|^core::slice::index::slice_|^alloc::vec::Vec::remove::assert_failed|^core::cell::panic|^core::hint::unreachable_unchecked$|^core::intrinsics::(abort|unreachable)$|^std::panicking::')
def h_panic(en, st, d, args, fb):
    raise Abort('panic: ' + d['np'].split('::')[-1])


# ------------------------------------------------------------------------------------------- integers
def ibits(en, d):
    m = re.search(r'impl ([ui])(\w+)\}', d['np'])
    b = {'size': 64}.get(m.group(2)) or int(m.group(2))
    return b, m.group(1) == 'i'


@pat(r'^core::num::\{impl u\w+\}::(wrapping_add|wrapping_sub|checked_add|checked_sub|checked_mul|checked_div|checked_rem|saturating_add|saturating_sub|saturating_mul|overflowing_add|overflowing_sub|overflowing_mul|pow|checked_pow|abs_diff|min|max|is_power_of_two|wrapping_mul|div_ceil)$')
def h_num(en, st, d, args, fb):
    b, s = ibits(en, d)
    m = d['np'].split('::')[-1]
    x, y = args[0], args[1] if len(args) > 1 else None
    hi = 1 << b
    op, _, what = m.partition('_')
    if m in ('pow', 'checked_pow'):
        if is_sym(x) or is_sym(y):
            raise Unsupported('symbolic pow')
        r = x ** y
        if m == 'pow':
            if r >= hi:
                raise Abort('pow overflow')
            return r
        return some(r) if r < hi else NONE()
    if m == 'abs_diff':
        return If(Ge(x, y), x - y, y - x)
    if m == 'div_ceil':
        out = []
        for s2, z in en.branch(st, Eq(y, 0)):
            if z:
                en.abort(s2, 'division by zero')
            else:
                out.append((s2, ceildiv(x, y)))
        return Outs(out)
    if what in ('add', 'sub', 'mul'):
        r = x + y if what == 'add' else x - y if what == 'sub' else mul(x, y)
        if is_sym(r):
            keep(r)
        bad = Or(Lt(r, 0), Ge(r, hi))
        if what == 'add':
            bad = Ge(r, hi)
        elif what == 'sub':
            bad = Lt(r, 0)
        if op == 'checked':
            return en.mux3(bad, NONE(), True, some(r), some(r)) if bad in (True, False) else Mux(bad, NONE(), some(r))
        if op == 'saturating':
            return If(bad, 0 if what == 'sub' else hi - 1, r)
        w = r if bad is False else en.wrap(r, b, False) if what != 'mul' else en.wrapmul(r, b)
        if op == 'wrapping':
            return w
        return (w, bad)
    if what in ('div', 'rem'):
        z = Eq(y, 0)
        r = (div if what == 'div' else rem)(x, y) if z is not True else 0
        return NONE() if z is True else some(r) if z is False else Mux(z, NONE(), some(r))
    raise Unsupported(m)


@pat(r'^core::intrinsics::(add_with_overflow|sub_with_overflow|mul_with_overflow|wrapping_add|wrapping_sub|wrapping_mul|saturating_add|saturating_sub|unchecked_add|unchecked_sub|unchecked_mul|exact_div|unchecked_div|unchecked_rem)$')
def h_intr(en, st, d, args, fb):
    m = d['np'].split('::')[-1]
    ty = d['args'][0]
    b, s = en.intinfo(ty)
    op = m.split('_')
    if m.endswith('with_overflow'):
        return en.binop({'add': 'AddWithOverflow', 'sub': 'SubWithOverflow', 'mul': 'MulWithOverflow'}[op[0]], args[0], args[1], ty)
    nm = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem'}[op[-1]]
    if op[0] == 'saturating':
        r = args[0] + args[1] if nm == 'Add' else args[0] - args[1]
        if is_sym(r):
            keep(r)
        return If(Ge(r, 1 << b), (1 << b) - 1, r) if nm == 'Add' else If(Lt(r, 0), 0, r)
    return en.binop(nm if op[0] == 'wrapping' else nm + ('Unchecked' if nm in ('Add', 'Sub', 'Mul') else ''), args[0], args[1], ty)


@ex('core::intrinsics::discriminant_value')
def h_discv(en, st, d, args, fb):
    return en.discval(en.disc(en.loadall(st, args[0])), en.ty(d['args'][0])['v'])


@ex('core::intrinsics::three_way_compare')
def h_3way(en, st, d, args, fb):
    return en.binop('Cmp', args[0], args[1], d['args'][0])


@ex('core::intrinsics::size_of', 'core::mem::size_of', 'core::intrinsics::min_align_of', 'core::intrinsics::align_of')
def h_sizeof(en, st, d, args, fb):
    return 8


@ex('core::intrinsics::transmute', 'core::intrinsics::cold_path', 'core::intrinsics::assume', 'core::intrinsics::assert_inhabited',
    'core::intrinsics::assert_zero_valid', 'core::intrinsics::needs_drop', 'core::ub_checks::check_language_ub', 'core::intrinsics::ub_checks')
def h_misc(en, st, d, args, fb):
    n = d['np'].split('::')[-1]
    if n == 'transmute':
        return args[0]
    if n in ('needs_drop', 'check_language_ub', 'ub_checks'):
        return False
    return UNIT


# ------------------------------------------------------------------------------------------- cosmwasm_std math
U128M = 2 ** 128


def u128(en, st, r, why):
    """Uint128 with an abort on overflow"""
    if not is_sym(r):
        if r >= U128M:
            raise Abort(why)
        return Outs([(st, (r,))])
    out = []
    for s, good in en.branch(st, Lt(r, U128M)):
        if good:
            out.append((s, (r,)))
        else:
            en.abort(s, why)
    return Outs(out)


def frac(en, st, f):
    """(numerator, denominator) of a Fraction argument"""
    v = en.loadall(st, f)
    if type(v) is tuple and len(v) == 1:
        return numl(en, st, v), DECFRAC
    if type(v) is tuple and len(v) == 2:
        return numl(en, st, v[0]), numl(en, st, v[1])
    raise Unsupported(f'fraction {v!r}')


_lem = set()


def lemma_frac(r, x, n, m, up):
    """linear consequences of r = floor / ceil (x * n / m)"""
    if not is_sym(r) or (r.get_id(), up) in _lem:
        return
    _lem.add((r.get_id(), up))
    sym.define(r, keep(Implies(Le(n, m), Le(r, x))), keep(Implies(Or(Eq(x, 0), Eq(n, 0)), Eq(r, 0))), keep(Implies(Ge(n, m), Ge(r, x))))
    if up:
        sym.define(r, keep(Implies(And(Gt(x, 0), Gt(n, 0)), Ge(r, 1))))


@pat(r'^cosmwasm_std::math::uint128::Uint128::(checked_)?mul_(ceil|floor)$')
def h_mulfrac(en, st, d, args, fb):
    x = numl(en, st, args[0])
    n, m = frac(en, st, args[1])
    if is_sym(m):
        raise Unsupported('symbolic denominator')
    p = mul(x, n)
    if d['np'].endswith('ceil'):
        r = ceildiv(p, m)
    else:
        r = div(p, m)
    lemma_frac(r, x, n, m, d['np'].endswith('ceil'))
    if 'checked' in d['np']:
        return E(0, ((r,),)) if not is_sym(r) and r < U128M else Mux(Lt(r, U128M), ok((r,)), err())
    return u128(en, st, r, 'multiplication overflow')


@pat(r'^cosmwasm_std::math::decimal::\{impl core::ops::arith::Mul for (&\'?\w* ?)?cosmwasm_std::math::uint128::Uint128\}::mul$|^<cosmwasm_std::math::uint128::Uint128 as core::ops::arith::Mul>::mul$|^cosmwasm_std::math::decimal::\{impl core::ops::arith::Mul for cosmwasm_std::math::decimal::Decimal\}::mul$|^<cosmwasm_std::math::decimal::Decimal as core::ops::arith::Mul>::mul$')
def h_umul(en, st, d, args, fb):
    sig = [en.ty(t)['n'].lstrip('&') for t in en.sv.sig(d['id'])]
    a, b = numl(en, st, args[0]), numl(en, st, args[1])
    p = mul(a, b)
    if any('Decimal' in x for x in sig[:2]):
        p = div(p, DECFRAC)
        lemma_frac(p, a, b, DECFRAC, False)
        lemma_frac(p, b, a, DECFRAC, None)
    if 'Decimal' in sig[-1]:
        return Outs([(s, (v,)) for s, v in u128(en, st, p, 'multiplication overflow').o])
    return u128(en, st, p, 'multiplication overflow')


@pat(r'^cosmwasm_std::math::decimal::Decimal::checked_mul$')
def h_dcmul(en, st, d, args, fb):
    r = div(mul(numl(en, st, args[0]), numl(en, st, args[1])), DECFRAC)
    lemma_frac(r, numl(en, st, args[0]), numl(en, st, args[1]), DECFRAC, False)
    lemma_frac(r, numl(en, st, args[1]), numl(en, st, args[0]), DECFRAC, None)
    c = Lt(r, U128M)
    return ok((((r,)),)) if c is True else Mux(c, ok(((r,),)), err())


@pat(r'^cosmwasm_std::math::uint128::Uint128::(checked_)?multiply_ratio$')
def h_mratio(en, st, d, args, fb):
    x, n, m = (numl(en, st, a) for a in args)
    z = Eq(m, 0)
    out = []
    for s, bad in en.branch(st, z):
        if bad:
            if 'checked' in d['np']:
                out.append((s, E(1, (E(0),))))
            else:
                en.abort(s, 'division by zero')
            continue
        r = div(mul(x, n), m)
        for s2, good in en.branch(s, Lt(r, U128M)):
            if good:
                out.append((s2, ok((r,)) if 'checked' in d['np'] else (r,)))
            elif 'checked' in d['np']:
                out.append((s2, E(1, (E(1),))))
            else:
                en.abort(s2, 'overflow')
    return Outs(out)


@pat(r'^cosmwasm_std::math::uint128::Uint128::(checked_add|checked_sub|checked_mul|checked_div)$')
def h_uchk(en, st, d, args, fb):
    a, b = numl(en, st, args[0]), numl(en, st, args[1])
    m = d['np'].split('_')[-1]
    if m == 'div':
        z = Eq(b, 0)
        r = div(a, b) if z is not True else 0
        c = Not(z)
    else:
        r = a + b if m == 'add' else a - b if m == 'sub' else mul(a, b)
        if is_sym(r):
            keep(r)
        c = Ge(r, 0) if m == 'sub' else Lt(r, U128M)
    if c is True:
        return ok((r,))
    if c is False:
        return err()
    return Mux(c, ok((r,)), err())


@pat(r'^<cosmwasm_std::math::uint128::Uint128 as core::ops::arith::(Add|Sub|Div|Rem)>::(add|sub|div|rem)$')
def h_uop(en, st, d, args, fb):
    a, b = numl(en, st, args[0]), numl(en, st, args[1])
    m = d['np'].split('::')[-1]
    if m in ('div', 'rem'):
        out = []
        for s, z in en.branch(st, Eq(b, 0)):
            if z:
                en.abort(s, 'division by zero')
            else:
                out.append((s, ((div if m == 'div' else rem)(a, b),)))
        return Outs(out)
    r = a + b if m == 'add' else a - b
    if is_sym(r):
        keep(r)
    if m == 'add':
        return u128(en, st, r, 'attempt to add with overflow')
    out = []
    for s, good in en.branch(st, Ge(r, 0)):
        if good:
            out.append((s, (r,)))
        else:
            en.abort(s, 'attempt to subtract with overflow')
    return Outs(out)


@pat(r'^<cosmwasm_std::math::uint128::Uint128 as core::ops::arith::(Add|Sub)Assign>::')
def h_uopa(en, st, d, args, fb):
    a, b = numl(en, st, args[0]), numl(en, st, args[1])
    m = d['np'].split('::')[-1]
    r = a + b if m == 'add_assign' else a - b
    if is_sym(r):
        keep(r)
    out = []
    for s, good in en.branch(st, Lt(r, U128M) if m == 'add_assign' else Ge(r, 0)):
        if good:
            en.put(s, args[0], (r,))
            out.append((s, UNIT))
        else:
            en.abort(s, 'overflow')
    return Outs(out)


@pat(r'^<cosmwasm_std::math::decimal::Decimal as core::ops::arith::(Add|Sub)>::(add|sub)$')
def h_dop(en, st, d, args, fb):
    a, b = numl(en, st, args[0]), numl(en, st, args[1])
    m = d['np'].split('::')[-1]
    r = a + b if m == 'add' else a - b
    if is_sym(r):
        keep(r)
    out = []
    for s, good in en.branch(st, Lt(r, U128M) if m == 'add' else Ge(r, 0)):
        if good:
            out.append((s, ((r,),)))
        else:
            en.abort(s, 'decimal overflow')
    return Outs(out)


@pat(r'^<cosmwasm_std::math::decimal::Decimal as core::ops::arith::Div>::div$')
def h_ddiv(en, st, d, args, fb):
    # Decimal / Uint128 keeps the atomics divided; Decimal / Decimal scales
    sig = [en.ty(t)['n'].lstrip('&') for t in en.sv.sig(d['id'])]
    a, b = numl(en, st, args[0]), numl(en, st, args[1])
    out = []
    for s, z in en.branch(st, Eq(b, 0)):
        if z:
            en.abort(s, 'division by zero')
            continue
        r = div(mul(a, DECFRAC), b) if 'Decimal' in sig[1] else div(a, b)
        for s2, good in en.branch(s, Lt(r, U128M)):
            if good:
                out.append((s2, ((r,),)))
            else:
                en.abort(s2, 'overflow')
    return Outs(out)


@pat(r'^<cosmwasm_std::math::decimal::Decimal as core::str::traits::FromStr>::from_str$')
def h_dfromstr(en, st, d, args, fb):
    s = strv(en, st, args[0])
    if isinstance(s.prov, tuple) and s.prov and s.prov[0] == 'show' and s.prov[1].endswith('Decimal'):
        return ok(((s.prov[2],),))
    if isinstance(s.c, str):
        from decimal import Decimal as D
        try:
            return ok(((int(D(s.c) * DECFRAC),),))
        except Exception:
            return err()
    good = uf('decok', (s.c,), 0, 2, inverse=False)
    v = uf('decval', (s.c,), 0, U128M, inverse=False)
    return Mux(Eq(good, 1), ok(((v,),)), err())


@pat(r'^cosmwasm_std::math::decimal::Decimal::(checked_)?from_ratio$')
def h_dfromratio(en, st, d, args, fb):
    n, m = numl(en, st, args[0]), numl(en, st, args[1])
    out = []
    chk = 'checked' in d['np']
    for s, bad in en.branch(st, Eq(m, 0)):
        if bad:
            if chk:
                out.append((s, err()))
            else:
                en.abort(s, 'division by zero')
            continue
        r = div(mul(n, DECFRAC), m)
        for s2, good in en.branch(s, Lt(r, U128M)):
            if good:
                out.append((s2, ok(((r,),)) if chk else ((r,),)))
            elif chk:
                out.append((s2, err()))
            else:
                en.abort(s2, 'overflow')
    return Outs(out)


# ------------------------------------------------------------------------------------------- events, errors, messages
@pat(r'^cosmwasm_std::results::events::Event::(new|add_attribute|add_attributes)$')
def h_event(en, st, d, args, fb):
    return O('event')


@pat(r'^cosmwasm_std::results::events::attr$')
def h_attr(en, st, d, args, fb):
    return O('event')


@pat(r'^cosmwasm_std::results::response::Response::(add_event|add_events|add_attribute|add_attributes)$')
def h_addevent(en, st, d, args, fb):
    return args[0]


@pat(r'^cosmwasm_std::results::submessages::SubMsg::(add_event|add_attribute)')
def h_subev(en, st, d, args, fb):
    return args[0]


@tr('core::convert::Into::into', 'core::convert::From::from')
def h_into(en, st, d, args, fb):
    # conversions into events / errors carry nothing the properties look at
    ret = en.ty(en.sv.sig(d['id'])[-1])
    n = ret['n']
    if n == 'cosmwasm_std::results::events::Event':
        return O('event')
    if ret.get('p', '').endswith(('StdError', 'ContractError')) or n.endswith(('::StdError', 'ContractError')):
        a = args[0]
        if n == en.ty(en.sv.sig(d['id'])[0])['n']:
            return a
        return ERR
    return Outs(en.execbody(st, d['id'], d, args))


@pat(r'^cosmwasm_std::errors::std_error::StdError::\w+$|^cosmwasm_std::errors::std_error::OverflowError::new$')
def h_stderr(en, st, d, args, fb):
    return ERR


@ex('cosmwasm_std::serde::to_json_binary', 'cosmwasm_std::serde::to_binary')
def h_tojson(en, st, d, args, fb):
    v = en.loadall(st, args[0])
    return ok((O('json', d['args'][0], v),))


@ex('cosmwasm_std::serde::to_json_vec', 'cosmwasm_std::serde::to_vec')
def h_tojsonv(en, st, d, args, fb):
    return ok(O('json', d['args'][0], en.loadall(st, args[0])))


@pat(r'^cosmwasm_std::deps::DepsMut::(as_ref|branch)$')
def h_deps(en, st, d, args, fb):
    v = en.loadall(st, args[0])
    return v


@pat(r'^cosmwasm_std::deps::DepsMut::into_empty$')
def h_deps2(en, st, d, args, fb):
    return args[0]


# ------------------------------------------------------------------------------------------- querier, api
def queryname(en, st, kind, addr, msgty, msg):
    shape, args = qflat(en, st, msg)
    name = f'Q:{kind}:{msgty}:{shape}'.replace('[k', '[_k')
    return keyname(name, (code(addr),) + tuple(args))


def qflat(en, st, v):
    """(shape, terms) of a query message"""
    v = en.loadall(st, v)
    if isinstance(v, Str):
        return 's', (code(v),)
    if isinstance(v, (bool, int)) or is_sym(v):
        return 'i', (If(v, 1, 0) if isinstance(v, (bool, z3.BoolRef)) else v,)
    if type(v) is tuple:
        sh, ar = '(', ()
        for x in v:
            a, b = qflat(en, st, x)
            sh += a
            ar += b
        return sh + ')', ar
    if isinstance(v, E):
        sh, ar = f'E{v.v}(', ()
        for x in v.f:
            a, b = qflat(en, st, x)
            sh += a
            ar += b
        return sh + ')', ar
    if isinstance(v, (SymV, Mux)):
        return 'm', store.flat(en, v)
    raise Unsupported(f'query message {v!r}')


def answer(en, st, kind, addr, msgty, msg, rty):
    alts = [(st, msg)]
    if isinstance(en.loadall(st, msg), (SymV, Mux)):
        alts = enum_alts(en, st, en.loadall(st, msg))
    out = []
    for s, m in alts:
        nm = queryname(en, s, kind, addr, en.ty(msgty)['n'] if msgty is not None else '', m)
        okv = boolvar(nm + '!ok')
        if nm not in en.queries:
            en.queries[nm] = (kind, addr, msgty, en.loadall(s, m), rty)
        v = en.mk(nm, rty)
        if en.query_inv:
            cs = en.query_inv(en, kind, addr, msgty, en.loadall(s, m), rty, v)
            for c in cs:
                if c is not True:
                    sym.define(okv, Implies(okv, c))
                    vs = set()
                    store.collect_vars(en, v, vs)
                    for x in vs:
                        sym.DEF.setdefault(x, []).append(Implies(okv, c))
        s.misc['~q'] = s.misc.get('~q', ()) + (nm,)
        out.append((s, Mux(okv, ok(v), err())))
    return Outs(out)


@pat(r'^cosmwasm_std::traits::QuerierWrapper::query_wasm_smart$')
def h_qsmart(en, st, d, args, fb):
    a = d['args']
    addr = strv(en, st, args[1])
    return answer(en, st, 'smart', addr, a[3], en.loadall(st, args[2]), a[1])


@pat(r'^cosmwasm_std::traits::QuerierWrapper::query_wasm_contract_info$')
def h_qinfo(en, st, d, args, fb):
    addr = strv(en, st, args[1])
    rty = okty(en, en.sv.sig(d['id'])[-1])
    return answer(en, st, 'info', addr, None, (), rty)


def okty(en, ty):
    return en.ty(ty)['args'][0]


@pat(r'^cosmwasm_std::traits::QuerierWrapper::query$')
def h_query(en, st, d, args, fb):
    rty = okty(en, en.sv.sig(d['id'])[-1])
    req = en.loadall(st, args[1])
    qt = en.ty(en.pointee(en.ty(en.sv.sig(d['id'])[1])))
    vn = qt['v'][req.v]['n']
    if vn == 'Wasm':
        w = en.loadall(st, req.f[0])
        wt = en.ty(qt['v'][req.v]['f'][0][1])
        wn = wt['v'][w.v]['n']
        if wn == 'Smart':
            addr = strv(en, st, w.f[0])
            m = w.f[1]
            while type(m) is tuple:
                m = m[0]
            if isinstance(m, O) and m.k == 'json':
                return answer(en, st, 'smart', addr, m.d[0], m.d[1], rty)
    raise Unsupported(f'query {vn}')


def lookup_virtual(en, d, v):
    np = d['np']
    m = np.split('::')[-1]
    if isinstance(v, O) and v.k == 'api' and m == 'addr_validate':
        return h_addr_validate
    if isinstance(v, O) and v.k == 'range':
        if m == 'next':
            return h_range_next
        if m == 'size_hint':
            return lambda en, st, d, args, fb: (0, NONE())
        return h_range_default
    if 'ops::function::Fn' in np:
        return h_fncall
    if isinstance(v, O) and v.k == 'it':
        return h_iter
    return None


def h_fncall(en, st, d, args, fb):
    f = en.loadall(st, args[0])
    if isinstance(f, F):
        return Outs(en.call(st, f.inst, list(args[1]), None))
    raise Unsupported(f'dyn call {f!r}')


def h_range_default(en, st, d, args, fb):
    if fb and fb.get('df') is not None:
        return Outs(en.execbody(st, fb['df'], en.sv.inst(fb['df']), args))
    raise Unsupported(f"dyn iterator {d['np']}")


def h_addr_validate(en, st, d, args, fb):
    s = strv(en, st, args[1])
    c = code(s)
    v = validaddr(en, c)
    en.addrs[c.get_id() if is_sym(c) else ('c', c)] = c
    return Mux(v, ok((s,)), err())


def validaddr(en, c):
    return boolvar(keyname('ADDR', (c,)) + '!valid')


# ------------------------------------------------------------------------------------------- storage
def rowv(v):
    return R(v)


def result_load(p, v):
    if p is True:
        return ok(v)
    if p is False:
        return err()
    return Mux(p, ok(v), err())


def opt(p, v):
    if p is True:
        return some(v)
    if p is False or v is None:
        return NONE()
    return Mux(p, some(v), NONE())


def self_ns(en, st, a):
    return store.ns_of(en, en.loadall(st, a))


def ns_struct(en, st, a):
    return en.loadall(st, a)


@pat(r'^cw_storage_plus::item::Item::(\w+)$')
def h_item(en, st, d, args, fb):
    m = d['np'].split('::')[-1]
    if m == 'new':
        return (args[0],)
    ty = d['args'][-1] if m not in ('update',) else d['args'][0]
    ty = d['args'][0]
    if m == 'update':
        return Outs(en.execbody(st, d['id'], d, args))
    ns = self_ns(en, st, args[0])
    if m == 'load':
        p, v = store.lookup(en, st, ns, ty, ())
        return result_load(p, v)
    if m == 'may_load':
        p, v = store.lookup(en, st, ns, ty, ())
        return ok(opt(p, v))
    if m == 'exists':
        return store.lookup(en, st, ns, ty, ())[0]
    if m == 'save':
        store.write(en, st, ns, ty, (), en.loadall(st, args[2]))
        return ok(UNIT)
    if m == 'remove':
        store.write(en, st, ns, ty, (), None)
        return UNIT
    raise Unsupported(f'Item::{m}')


@pat(r'^cw_storage_plus::map::Map::(\w+)$')
def h_map(en, st, d, args, fb):
    m = d['np'].split('::')[-1]
    if m == 'new':
        return (args[0],)
    if m == 'update':
        return Outs(en.execbody(st, d['id'], d, args))
    kty, ty = d['args'][0], d['args'][1]
    ns = self_ns(en, st, args[0])
    if m in ('load', 'may_load', 'save', 'remove', 'has'):
        key = store.flat(en, deepload(en, st, args[2]))
        if m == 'load':
            return result_load(*store.lookup(en, st, ns, ty, key, kty))
        if m == 'may_load':
            return ok(opt(*store.lookup(en, st, ns, ty, key, kty)))
        if m == 'has':
            return store.lookup(en, st, ns, ty, key, kty)[0]
        if m == 'save':
            store.write(en, st, ns, ty, key, en.loadall(st, args[3]), kty)
            return ok(UNIT)
        if m == 'remove':
            store.write(en, st, ns, ty, key, None, kty)
            return UNIT
    if m == 'range':
        return mkrange(en, st, ns, ty, kty, None, (), args[2], args[3], args[4], 'kv')
    if m == 'keys':
        return mkrange(en, st, ns, ty, kty, None, (), args[2], args[3], args[4], 'k')
    if m in ('prefix', 'sub_prefix'):
        return O('prefix', ns, ty, kty, None, store.flat(en, deepload(en, st, args[1])))
    if m == 'no_prefix':
        return O('prefix', ns, ty, kty, None, ())
    if m == 'prefix_range':
        return prefix_range(en, st, ns, ty, kty, None, args[2], args[3], args[4])
    if m == 'keys_raw':
        return mkrange(en, st, ns, ty, kty, None, (), args[2], args[3], args[4], 'raw')
    if m == 'key':
        return O('path', ns, ty, kty, store.flat(en, deepload(en, st, args[1])))
    if m in ('is_empty', 'first', 'last'):
        return Outs(en.execbody(st, d['id'], d, args))
    raise Unsupported(f'Map::{m}')


@pat(r'^cw_storage_plus::path::Path::(\w+)$')
def h_path(en, st, d, args, fb):
    m = d['np'].split('::')[-1]
    if m == 'update':
        return Outs(en.execbody(st, d['id'], d, args))
    p = en.loadall(st, args[0])
    if not (isinstance(p, O) and p.k == 'path'):
        raise Unsupported(f'Path::{m}')
    ns, ty, kty, key = p.d
    if m == 'load':
        return result_load(*store.lookup(en, st, ns, ty, key, kty))
    if m == 'may_load':
        return ok(opt(*store.lookup(en, st, ns, ty, key, kty)))
    if m == 'has':
        return store.lookup(en, st, ns, ty, key, kty)[0]
    if m == 'save':
        store.write(en, st, ns, ty, key, en.loadall(st, args[2]), kty)
        return ok(UNIT)
    if m == 'remove':
        store.write(en, st, ns, ty, key, None, kty)
        return UNIT
    raise Unsupported(f'Path::{m}')


def deepload(en, st, v):
    v = en.loadall(st, v)
    if type(v) is tuple:
        return tuple(deepload(en, st, x) for x in v)
    return v


@pat(r'^cw_storage_plus::indexed_map::IndexedMap::(\w+)$')
def h_imap(en, st, d, args, fb):
    m = d['np'].split('::')[-1]
    if m == 'new':
        fs = [n for n, _ in en.ty(en.sv.sig(d['id'])[-1])['v'][0]['f']]
        return tuple({'idx': args[1], 'pk_namespace': args[0], 'primary': (args[0],)}.get(n, ()) for n in fs)
    if m == 'update':
        return Outs(en.execbody(st, d['id'], d, args))
    kty, ty, ity = d['args'][0], d['args'][1], d['args'][2]
    selfv = en.loadall(st, args[0])
    ns = store.ns_of(en, selfv[0])
    note_indexes(en, st, d, ns, selfv, ity)
    if m in ('load', 'may_load', 'save', 'remove', 'has', 'replace'):
        key = store.flat(en, deepload(en, st, args[2]))
        if m == 'load':
            return result_load(*store.lookup(en, st, ns, ty, key, kty))
        if m == 'may_load':
            return ok(opt(*store.lookup(en, st, ns, ty, key, kty)))
        if m == 'has':
            return store.lookup(en, st, ns, ty, key, kty)[0]
        if m == 'save':
            store.write(en, st, ns, ty, key, en.loadall(st, args[3]), kty)
            return ok(UNIT)
        if m == 'remove':
            store.write(en, st, ns, ty, key, None, kty)
            return ok(UNIT)
        if m == 'replace':
            import spec
            # the caller says what was stored before: with anything else, index entries would go stale
            out = []
            p, v = store.lookup(en, st, ns, ty, key, kty)
            for s, o in enum_alts(en, st, args[4]):
                same = Not(p) if o.v == 0 else And(p, spec.valeq(en, ty, v, en.loadall(s, o.f[0])))
                for s2, good in en.branch(s, same):
                    if not good:
                        raise Unsupported('IndexedMap::replace with other old data than stored')
                    out.append(s2)
            alts, out = out, []
            for s, e in (x for y in alts for x in enum_alts(en, y, args[3])):
                store.write(en, s, ns, ty, key, en.loadall(s, e.f[0]) if e.v == 1 else None, kty)
                out.append((s, ok(UNIT)))
            return Outs(out)
    if m == 'range':
        return mkrange(en, st, ns, ty, kty, None, (), args[2], args[3], args[4], 'kv')
    if m == 'keys':
        return mkrange(en, st, ns, ty, kty, None, (), args[2], args[3], args[4], 'k')
    if m == 'prefix_range':
        return prefix_range(en, st, ns, ty, kty, None, args[2], args[3], args[4])
    if m in ('prefix', 'sub_prefix'):
        return O('prefix', ns, ty, kty, None, store.flat(en, deepload(en, st, args[1])))
    if m == 'no_prefix':
        return O('prefix', ns, ty, kty, None, ())
    if m == 'keys_raw':
        return mkrange(en, st, ns, ty, kty, None, (), args[2], args[3], args[4], 'raw')
    if m == 'key':
        raise Unsupported('IndexedMap::key')        # writes through it would bypass the indexes
    if m == 'is_empty':
        return Outs(en.execbody(st, d['id'], d, args))
    raise Unsupported(f'IndexedMap::{m}')


def note_indexes(en, st, d, ns, selfv, ity):
    """ask the contract's IndexList which indexes it maintains"""
    if ns in en.indexes:
        return
    en.indexes[ns] = None
    inst = en.sv.trm(f"#{d['id']}::IndexList", 'get_indexes', ity, d['args'][1])
    if inst is None:
        raise Unsupported('IndexList')
    s = st.fork()
    fs = [n for n, _ in en.ty(en.pointee(en.ty(en.sv.sig(d['id'])[0])))['v'][0]['f']]
    outs = en.call(s, inst, [R(selfv[fs.index('idx')])], None)
    if len(outs) != 1:
        raise Unsupported('get_indexes forks')
    s, it = outs[0]
    got = set()
    v = it
    while isinstance(v, X):
        v = v.v
    if not (isinstance(v, O) and v.k == 'it'):
        raise Unsupported(f'get_indexes returned {v!r}')
    for x in v.d[0]:
        x = strip(x)
        n = idx_name(en, x)
        got.add(n)
        fn = strip(strip(x)[0])
        en.idxfns.setdefault(ns, {})[n] = (en.sv.sig(fn.inst)[-1] if isinstance(fn, F) else None, fn)
    en.indexes[ns] = got


def idx_name(en, x):
    """index namespace of a MultiIndex value (idx_namespace field)"""
    mi = strip(x)
    # struct MultiIndex { index: fn, idx_namespace: &[u8], idx_map: Map, pk_namespace: &[u8], phantom }
    return store.ns_of(en, mi[1])


@pat(r'^cw_storage_plus::indexes::(multi::MultiIndex|unique::UniqueIndex)::(\w+)$')
def h_mindex(en, st, d, args, fb):
    m = d['np'].split('::')[-1]
    if 'unique' in d['np']:
        raise Unsupported('UniqueIndex')
    if m == 'new':
        # new(idx_fn, pk_namespace, idx_namespace)
        return (args[0], args[2], (), args[1], ())
    selfv = en.loadall(st, args[0])
    pkns = store.ns_of(en, selfv[3])
    idxns = store.ns_of(en, selfv[1])
    ik, ty, pk = d['args'][0], d['args'][1], d['args'][2]
    fn = strip(selfv[0])
    idx = (idxns, fn)
    en.usedidx[(pkns, idxns)] = (ik, ty, pk, fn)
    if m in ('prefix', 'sub_prefix'):
        return O('prefix', pkns, ty, pk, idx, store.flat(en, deepload(en, st, args[1])))
    if m == 'no_prefix':
        return O('prefix', pkns, ty, pk, idx, ())
    if m == 'range':
        return mkrange(en, st, pkns, ty, pk, idx, (), args[2], args[3], args[4], 'kv')
    if m == 'keys':
        return mkrange(en, st, pkns, ty, pk, idx, (), args[2], args[3], args[4], 'k')
    if m == 'prefix_range':
        return prefix_range(en, st, pkns, ty, pk, idx, args[2], args[3], args[4])
    raise Unsupported(f'MultiIndex::{m}')


@pat(r'^cw_storage_plus::prefix::Prefix::(\w+)$')
def h_prefix(en, st, d, args, fb):
    m = d['np'].split('::')[-1]
    p = en.loadall(st, args[0])
    ns, ty, kty, idx, pre = p.d
    if m == 'range':
        return mkrange(en, st, ns, ty, kty, idx, pre, args[2], args[3], args[4], 'kv', whole=idx is not None)
    if m == 'keys':
        return mkrange(en, st, ns, ty, kty, idx, pre, args[2], args[3], args[4], 'k')
    if m == 'keys_raw':
        return mkrange(en, st, ns, ty, kty, idx, pre, args[2], args[3], args[4], 'raw')
    if m == 'is_empty':
        return Outs(en.execbody(st, d['id'], d, args))
    raise Unsupported(f'Prefix::{m}')


@pat(r'^cw_storage_plus::bound::(Bound|PrefixBound)::(\w+)$')
def h_bound(en, st, d, args, fb):
    m = d['np'].split('::')[-1]
    if m in ('inclusive', 'exclusive'):
        ret = en.ty(en.sv.sig(d['id'])[-1])
        v = en.variant(en.sv.sig(d['id'])[-1], m.capitalize())
        # the key argument is anything Into<K>
        return E(v, ((args[0], ()),))
    return Outs(en.execbody(st, d['id'], d, args))


def bound_alts(en, st, b, whichty):
    """Option<Bound<K>> -> [(state, None | (kind, flat key))]"""
    out = []
    for s, o in enum_alts(en, st, b):
        if o.v == 0:
            out.append((s, None))
            continue
        for s2, x in enum_alts(en, s, o.f[0]):
            # variants: Inclusive, Exclusive, InclusiveRaw, ExclusiveRaw
            k = x.f[0]
            if x.v < 2:
                kk = k[0] if type(k) is tuple else k
                out.append((s2, ('in' if x.v == 0 else 'ex', store.flat(en, deepload(en, s2, kk)))))
            else:
                raw = deepload(en, s2, k)
                out.append((s2, ('in' if x.v == 2 else 'ex', rawkey(en, s2, raw), 'raw')))
    return out


def rawkey(en, st, raw):
    """bytes of a raw bound made of whole key components"""
    if isinstance(raw, Bts):
        r = ()
        for p in raw.p:
            if p[0] == 's':
                r += (code(p[1]),)
            elif p[0] == 'i':
                r += (p[1],)
            else:
                raise Unsupported('raw bound bytes')
        return r
    raise Unsupported(f'raw bound {raw!r}')


def order_desc(en, o):
    d = en.disc(o)
    # cosmwasm_std::Order { Ascending = 1, Descending = 2 }: variant index 0 / 1
    return d == 1 if not is_sym(d) else Eq(d, 1)


def mkrange(en, st, ns, ty, kty, idx, pre, lo, hi, order, mode, whole=False):
    if idx is not None and en.indexes.get(ns) is not None and idx[0] not in en.indexes[ns]:
        return X(O('it', ()))
    out = []
    n = ncomps(en, kty) + (ncomps(en, en.usedidx[(ns, idx[0])][0]) if idx is not None else 0) - len(pre)
    for s, l in raw_alts(en, bound_alts(en, st, lo, None), n):
        for s2, h in raw_alts(en, bound_alts(en, s, hi, None), n):
            for s3, dsc in en.branch(s2, order_desc(en, order)):
                store.tab(en, s3, ns, ty, kty)
                en.nrange = getattr(en, 'nrange', 0)
                k = s3.misc.get('nrange', 0)
                s3.misc['nrange'] = k + 1
                it = store.RangeIt(ns=ns, ty=ty, idx=idx, prefix=tuple(pre), lo=l, hi=h, desc=dsc, done=(), mode=mode,
                                   pkmk=lambda en_, name, kty=kty: pkmk(en_, name, kty), n=k, stop=False, plo=None, phi=None, npre=len(pre), kty=kty)
                out.append((s3, X(O('range', it))))
    return Outs(out)


def ncomps(en, kty):
    """components of a key type"""
    t = en.ty(kty)
    if t['k'] in ('ref', 'ptr'):
        return ncomps(en, t['e'])
    if t['k'] == 'tuple':
        return sum(ncomps(en, x) for x in t['f'])
    return 1


def raw_alts(en, alts, n):
    """a raw bound compares bytes: with as many components as the key it is the key itself; a bare text compared with a key
    of several components meets the leading length byte (zero) first, which any non-empty text exceeds"""
    out = []
    for s, b in alts:
        if b is None or len(b) == 2:
            out.append((s, b))
        elif len(b[1]) == n:
            out.append((s, b[:2]))
        elif len(b[1]) == 1 and n > 1:
            for s2, empty in en.branch(s, Eq(b[1][0], strcode(''))):
                out.append((s2, (b[0], (-1,) * n) if empty else (b[0], (STRMAX + 1,) * n)))
        else:
            raise Unsupported('raw bound of part of a key')
    return out


def prefix_range(en, st, ns, ty, kty, idx, lo, hi, order):
    """prefix_range: bounds on the leading key components"""
    out = []
    for s, l in bound_alts2(en, st, lo):
        for s2, h in bound_alts2(en, s, hi):
            for s3, dsc in en.branch(s2, order_desc(en, order)):
                store.tab(en, s3, ns, ty, kty)
                k = s3.misc.get('nrange', 0)
                s3.misc['nrange'] = k + 1
                it = store.RangeIt(ns=ns, ty=ty, idx=idx, prefix=(), lo=None, hi=None, desc=dsc, done=(), mode='kv',
                                   pkmk=lambda en_, name, kty=kty: pkmk(en_, name, kty), n=k, stop=False, plo=l, phi=h, npre=0, kty=kty)
                out.append((s3, X(O('range', it))))
    return Outs(out)


def bound_alts2(en, st, b):
    out = []
    for s, o in enum_alts(en, st, b):
        if o.v == 0:
            out.append((s, None))
            continue
        for s2, x in enum_alts(en, s, o.f[0]):
            k = x.f[0]
            kk = k[0] if type(k) is tuple else k
            out.append((s2, ('in' if x.v == 0 else 'ex', store.flat(en, deepload(en, s2, kk)))))
    return out


def pkmk(en, name, kty):
    """fresh primary key value of type kty (name None: a template)"""
    t = en.ty(kty)
    if t['k'] == 'ref':
        return pkmk(en, name, t['e'])
    if t['k'] == 'tuple':
        return tuple(pkmk(en, None if name is None else f'{name}.{i}', x) for i, x in enumerate(t['f']))
    n = name or 'tmpl'
    v = en.mk(n, kty)
    return v


def h_range_next(en, st, d, args, fb):
    ref = args[0]
    it = en.loadall(st, ref)
    while isinstance(ref, M) and isinstance(en.load(st, ref), (M, X)):
        inner = en.load(st, ref)
        if isinstance(inner, X):
            ref = M(ref.fid, ref.loc, ref.path + (('x',),))
        else:
            ref = inner
    out = []
    for s, row in store.range_next(en, st, ref, it.d[0]):
        if row is None:
            out.append((s, NONE()))
            continue
        pk, v = row
        mode = it.d[0].mode
        if mode == 'kv':
            out.append((s, some(ok((pk, v)))))
        elif mode == 'k':
            out.append((s, some(ok(pk))))
        else:
            out.append((s, some(O('rawkey', *store.flat(en, pk)))))
    return Outs(out)


# cw2: the stored name and version of the contract; versions are compared through an uninterpreted order
@pat(r'^cw2::set_contract_version$')
def h_cw2(en, st, d, args, fb):
    st.misc['cw2'] = st.misc.get('cw2', ()) + ((code(strv(en, st, args[1])), code(strv(en, st, args[2]))),)
    return ok(UNIT)


@pat(r'^cw2::get_contract_version$')
def h_cw2g(en, st, d, args, fb):
    out = []
    for s, has in en.branch(st, boolvar('cw2!stored')):
        out.append((s, ok((Str(intvar('cw2!contract', 0, STRMAX)), Str(intvar('cw2!version', 0, STRMAX)))) if has else err()))
    return Outs(out)


@pat(r'^cw2::assert_contract_version$')
def h_cw2a(en, st, d, args, fb):
    raise Unsupported('cw2 version')


@pat(r'^alloc::str::\{impl str\}::parse$|^core::str::\{impl str\}::parse$|^<semver::Version as core::str::traits::FromStr>::from_str$|^semver::(\{impl semver::)?Version\}?::parse$')
def h_semver(en, st, d, args, fb):
    if 'semver::Version' not in en.ty(en.sv.sig(d['id'])[-1])['n']:
        raise Unsupported('parse ' + en.ty(en.sv.sig(d['id'])[-1])['n'])
    c = code(strv(en, st, args[0]))
    out = []
    for s, good in en.branch(st, True if not is_sym(c) else Eq(uf('semver:ok', (c,), 0, 2), 1)):
        out.append((s, ok(O('semver', uf('semver:rank', (c,), 0, STRMAX))) if good else err()))
    return Outs(out)


@pat(r'^<semver::Version as core::cmp::(Ord|PartialOrd|PartialEq)>::(gt|lt|ge|le|eq|ne|cmp|partial_cmp)$')
def h_semvercmp(en, st, d, args, fb):
    a, b = [deepload(en, st, x).d[0] for x in args[:2]]
    return numcmp(en, d['np'].split('::')[-1], a, b)


@ex('<alloc::boxed::Box as core::ops::function::FnOnce>::call_once')
def h_boxonce(en, st, d, args, fb):
    b = args[0]
    while isinstance(b, X) and b.dyn is None and isinstance(b.v, X):
        b = b.v
    f = b.v if isinstance(b, X) else b
    if isinstance(f, F):
        return Outs(en.call(st, f.inst, list(args[1]), None))
    ty = b.dyn if isinstance(b, X) and b.dyn is not None else d['args'][1]
    inst = en.sv.trm('core::ops::function::FnOnce', 'call_once', ty, d['args'][0])
    if inst is None:
        raise Unsupported(f"boxed call of {en.ty(ty)['n']}")
    return Outs(en.call(st, inst, [f, args[1]], dict(p='', tr='core::ops::function::FnOnce', df=None)))


@ex('<alloc::boxed::Box as core::ops::drop::Drop>::drop')
def h_boxdrop(en, st, d, args, fb):
    return UNIT
