"""Symbolic interpreter for the monomorphised MIR of the real code.

Values are immutable.  Integers and booleans are Python values or z3 terms; a struct/tuple/closure is a Python tuple,
an enum value is E(variant, fields), a sequence L(items), text Str(code), a shared reference R(snapshot), a mutable
reference M(frame, local, path), a box X(value).  SymV is a symbolic value whose parts appear on demand, Mux a merged
value, O an opaque token handled only by the models in models.py / store.py.
"""
import json
import os
import re
import subprocess
import sys
import time

import z3
from sym import *
import sym

sys.setrecursionlimit(100000)


class Unsupported(Exception):
    pass


class NoMerge(Exception):
    pass


class E:
    __slots__ = ('v', 'f')

    def __init__(self, v, f=()):
        self.v = v
        self.f = f

    def __repr__(self):
        return f'E{self.v}{list(self.f)!r}'


class L:
    __slots__ = ('t',)

    def __init__(self, t=()):
        self.t = tuple(t)

    def __repr__(self):
        return f'L{list(self.t)!r}'


class Str:
    __slots__ = ('c', 'prov')

    def __init__(self, c, prov=None):
        self.c = c
        self.prov = prov

    def __repr__(self):
        return f'Str({self.c!r})'


class Bts:
    """A byte string as a list of parts: ('s', Str) | ('b', bytes) | ('i', term, width) | ('o', key)"""
    __slots__ = ('p',)

    def __init__(self, p=()):
        self.p = tuple(p)

    def __repr__(self):
        return f'Bts{list(self.p)!r}'


class R:
    __slots__ = ('v', 'dyn')

    def __init__(self, v, dyn=None):
        self.v = v
        self.dyn = dyn

    def __repr__(self):
        return f'&{self.v!r}'


class M:
    __slots__ = ('fid', 'loc', 'path', 'dyn')

    def __init__(self, fid, loc, path=(), dyn=None):
        self.fid = fid
        self.loc = loc
        self.path = path
        self.dyn = dyn

    def __repr__(self):
        return f'&mut f{self.fid}._{self.loc}{self.path}'


class X:
    __slots__ = ('v', 'dyn')

    def __init__(self, v, dyn=None):
        self.v = v
        self.dyn = dyn

    def __repr__(self):
        return f'Box({self.v!r})'


class F:
    __slots__ = ('inst',)

    def __init__(self, inst):
        self.inst = inst

    def __repr__(self):
        return f'fn#{self.inst}'


class O:
    __slots__ = ('k', 'd')

    def __init__(self, k, *d):
        self.k = k
        self.d = d

    def __repr__(self):
        return f'O:{self.k}{list(self.d)!r}'


class SymV:
    __slots__ = ('name', 'ty')

    def __init__(self, name, ty):
        self.name = name
        self.ty = ty

    def __repr__(self):
        return f'?{self.name}'


class Mux:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b

    def __repr__(self):
        return f'Mux({self.c},{self.a!r},{self.b!r})'


UNIT = ()
ERR = O('err')


# ---------------------------------------------------------------------------------------------- server
class Server:
    def __init__(self, binary, argsfile, cwd):
        sysroot = subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()
        env = dict(os.environ, LD_LIBRARY_PATH=sysroot + '/lib')
        self.p = subprocess.Popen([binary, argsfile], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env,
                                  cwd=cwd, stderr=open(os.environ.get('VF_SERR', '/dev/null'), 'w'))
        self.ty_c = {}
        self.inst_c = {}
        self.body_c = {}
        self.misc = {}

    def q(self, s):
        self.p.stdin.write(s + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise Unsupported(f'MIR server died on {s}')
        return json.loads(line)

    def qc(self, s):
        r = self.misc.get(s)
        if r is None:
            r = self.misc[s] = self.q(s)
        return r

    def find(self, path):
        r = self.qc('find ' + path)
        return r.get('inst', r.get('ty'))

    def ty(self, i):
        r = self.ty_c.get(i)
        if r is None:
            r = self.ty_c[i] = self.q(f'ty {i}')
            if 'v' in r:
                for v in r['v']:
                    v['f'] = [tuple(x) for x in v['f']]
        return r

    def inst(self, i):
        r = self.inst_c.get(i)
        if r is None:
            r = self.inst_c[i] = self.q(f'inst {i}')
            r['np'] = normpath(r['path'])
            r['ntrait'] = normpath(r['trait']) if r.get('trait') else None
        return r

    def body(self, i):
        r = self.body_c.get(i)
        if r is None:
            r = self.body_c[i] = self.q(f'body {i}')
            if 'blocks' not in r:
                raise Unsupported(f"no MIR for {self.inst(i)['path']}: {r.get('err')}")
            for b in r['blocks']:
                if b and b[1][0] == 'call' and b[1][5] and b[1][5].get('df', 0) == -1:
                    b[1][5]['df'] = None
        return r

    def trm(self, trait, method, *tys):
        r = self.qc(f"trm {trait} {method} {' '.join(map(str, tys))}")
        return r.get('inst')

    def sig(self, i):
        return self.qc(f'sig {i}')


_np = {}


def strip_generics(s):
    out = []
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == '<':
            d += 1
        elif c == '>' and not (i and s[i - 1] in '-='):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out).replace('::::', '::').strip(':')


def normpath(p):
    r = _np.get(p)
    if r is not None:
        return r
    s = p
    if s.startswith('<'):
        # <A as B>::m   or <impl ..>
        d = 0
        for i, c in enumerate(s):
            if c == '<':
                d += 1
            elif c == '>' and s[i - 1] not in '-=':
                d -= 1
                if d == 0:
                    break
        inner, rest = s[1:i], s[i + 1:]
        d = 0
        k = -1
        for j in range(len(inner)):
            if inner[j] == '<':
                d += 1
            elif inner[j] == '>' and inner[j - 1] not in '-=':
                d -= 1
            elif d == 0 and inner[j:j + 4] == ' as ':
                k = j
                break
        if k >= 0:
            a, b = inner[:k], inner[k + 4:]
            a = re.sub(r"^&('\w+ )?(mut )?", '&', a)
            r = f'<{strip_generics(a) if a else a} as {strip_generics(b)}>{strip_generics("x" + rest)[1:]}'
        else:
            r = strip_generics(inner) + strip_generics('x' + rest)[1:]
    else:
        m = re.sub(r'<impl ([^<>]*(<[^<>]*(<[^<>]*>)?[^<>]*>)?[^<>]*)>', lambda m: '{impl ' + strip_generics(m.group(1)) + '}', s)
        r = strip_generics(m)
    _np[p] = r
    return r


# ---------------------------------------------------------------------------------------------- state
class State:
    __slots__ = ('mem', 'own', 'pc', 'pcs', 'model', 'tabs', 'misc')

    def __init__(self):
        self.mem = []
        self.own = set()
        self.pc = ()
        self.pcs = frozenset()
        self.model = None
        self.tabs = {}
        self.misc = {}

    def fork(self):
        s = State()
        s.mem = list(self.mem)
        s.own = set()
        self.own = set()
        s.pc = self.pc
        s.pcs = self.pcs
        s.model = self.model
        s.tabs = dict(self.tabs)
        s.misc = dict(self.misc)
        return s

    def setl(self, fid, loc, v):
        if fid not in self.own:
            self.mem[fid] = dict(self.mem[fid])
            self.own.add(fid)
        self.mem[fid][loc] = v

    def add(self, c):
        if c is True:
            return
        if c is False:
            self.pc = self.pc + (keep(z3.BoolVal(False)),)
            return
        i = c.get_id()
        if i in self.pcs:
            return
        sym.KEEP.append(c)
        self.pc = self.pc + (c,)
        self.pcs = self.pcs | {i}


class Abort(Exception):
    def __init__(self, why):
        self.why = why


ADT_STRING = 'alloc::string::String'


class Engine:
    def __init__(self, server, bounds=None):
        self.sv = server
        self.inc = sym.Incr()
        self.aborts = []
        self.covered = {}
        self.steps = 0
        self.forks = 0
        self.merged = 0
        self.bounds = dict(vec=2, rows=2)
        self.bounds.update(bounds or {})
        self.icache = {}
        self.vecbound = {}
        self.deadline = None
        self.trace = os.environ.get('VF_TRACE')
        self.nsty = {}            # storage namespace -> type of its values
        self.row_inv = None       # callback(en, table, key, value) -> constraints on a stored row
        self.query_inv = None
        self.symtys = {}
        self.addr_all_valid = False
        self.storage_err = False
        self.nomerge = False
        self.queries = {}         # query term name -> (kind, contract, message type, message, answer type)
        self.addrs = {}           # texts passed to addr_validate
        self.indexes = {}         # table -> names of the indexes its IndexList maintains
        self.usedidx = {}
        self.idxfns = {}
        self.ktys = {}            # storage namespace -> type of its keys
        self.vecinv = None
        import models
        import store
        self.models = models
        self.store = store

    # ------------------------------------------------------------------ types
    def ty(self, i):
        return self.sv.ty(i)

    def variant(self, ty, name):
        for i, v in enumerate(self.ty(ty)['v']):
            if v['n'] == name:
                return i
        raise Unsupported(f'no variant {name}')

    def mk(self, name, ty):
        t = self.ty(ty)
        k = t['k']
        if k == 'bool':
            return boolvar(name)
        if k == 'int':
            if t['signed']:
                return intvar(name, -(2 ** (t['bits'] - 1)), 2 ** (t['bits'] - 1))
            return intvar(name, 0, 2 ** t['bits'])
        if k == 'char':
            return intvar(name, 0, 0x110000)
        if k == 'str':
            return Str(intvar(name, 0, STRMAX))
        if k == 'tuple':
            return tuple(self.mk(f'{name}.{i}', x) for i, x in enumerate(t['f']))
        if k == 'array':
            return L(tuple(self.mk(f'{name}[{i}]', t['e']) for i in range(t['len'])))
        if k == 'ref':
            return R(self.mk(name, t['e']))
        if k == 'struct':
            p = t['p']
            if p == ADT_STRING:
                return Str(intvar(name, 0, STRMAX))
            if p.startswith('alloc::vec::Vec'):
                self.symtys[name] = ty
                return SymV(name, ty)
            if p.startswith('alloc::boxed::Box'):
                return X(self.mk(name, t['args'][0]))
            if p.startswith('core::marker::PhantomData'):
                return ()
            return tuple(self.mk(f'{name}.{fn}', ft) for fn, ft in t['v'][0]['f'])
        if k == 'enum':
            self.symtys[name] = ty
            return SymV(name, ty)
        if k in ('closure',):
            return tuple(self.mk(f'{name}.{i}', x) for i, x in enumerate(t['f']))
        if k == 'fndef':
            return F(t['inst'])
        return O('sym', name)

    # ------------------------------------------------------------------ structural helpers
    def disc(self, v):
        """variant index of an enum value (int or term)"""
        if isinstance(v, E):
            return v.v
        if isinstance(v, SymV):
            n = len(self.ty(v.ty)['v'])
            if n == 1:
                return 0
            return intvar(v.name + '.#d', 0, n)
        if isinstance(v, Mux):
            return If(v.c, self.disc(v.a), self.disc(v.b))
        raise Unsupported(f'discriminant of {v!r}')

    def mux(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if a is b:
            return a
        try:
            return self.mergev(c, a, b)
        except NoMerge:
            return Mux(c, a, b)

    def mergev(self, c, a, b):
        if a is b:
            return a
        ta, tb = type(a), type(b)
        if ta in (int, bool) or is_sym(a):
            if tb in (int, bool) or is_sym(b):
                return If(c, a, b)
            raise NoMerge()
        if ta is Str and tb is Str:
            if isinstance(a.c, str) and isinstance(b.c, str):
                if a.c == b.c:
                    return a
                ca, cb = strcode(a.c), strcode(b.c)
            else:
                ca = strcode(a.c) if isinstance(a.c, str) else a.c
                cb = strcode(b.c) if isinstance(b.c, str) else b.c
                if is_sym(ca) and is_sym(cb) and ca.eq(cb):
                    return a if a.prov is not None else b
            return Str(If(c, ca, cb), a.prov if a.prov is not None and self.ckey(a.prov) == self.ckey(b.prov) else None)
        if ta is tuple and tb is tuple:
            if len(a) != len(b):
                raise NoMerge()
            return tuple(self.mergev(c, x, y) for x, y in zip(a, b))
        if ta is E and tb is E:
            if a.v != b.v or len(a.f) != len(b.f):
                return Mux(c, a, b)
            return E(a.v, tuple(self.mergev(c, x, y) for x, y in zip(a.f, b.f)))
        if ta is L and tb is L:
            if len(a.t) != len(b.t):
                raise NoMerge()
            return L(tuple(self.mergev(c, x, y) for x, y in zip(a.t, b.t)))
        if ta is R and tb is R:
            if a.dyn != b.dyn:
                raise NoMerge()
            return R(self.mergev(c, a.v, b.v), a.dyn)
        if ta is X and tb is X:
            if a.dyn != b.dyn:
                raise NoMerge()
            return X(self.mergev(c, a.v, b.v), a.dyn)
        if ta is M and tb is M:
            if a.fid == b.fid and a.loc == b.loc and a.path == b.path and a.dyn == b.dyn:
                return a
            raise NoMerge()
        if ta is F and tb is F and a.inst == b.inst:
            return a
        if ta is O or tb is O:
            if ta is O and a.k in ('err', 'event', 'fmt'):
                return a
            if tb is O and b.k in ('err', 'event', 'fmt'):
                return b
            if ta is O and tb is O and self.ckey(a) == self.ckey(b):
                return a
            raise NoMerge()
        if ta is SymV and tb is SymV and a.name == b.name:
            return a
        if {ta, tb} <= {SymV, Mux, E}:
            return Mux(c, a, b)
        if self.ckey(a) == self.ckey(b):
            return a
        raise NoMerge()

    def skel(self, v):
        t = type(v)
        if t is tuple:
            return ('t',) + tuple(self.skel(x) for x in v)
        if t is E:
            return ('E', v.v) + tuple(self.skel(x) for x in v.f)
        if t is L:
            return ('L',) + tuple(self.skel(x) for x in v.t)
        if t is R:
            return ('R', v.dyn, self.skel(v.v))
        if t is X:
            return ('X', v.dyn, self.skel(v.v))
        if t is M:
            return ('M', v.fid, v.loc, v.path, v.dyn)
        if t is F:
            return ('F', v.inst)
        if t is O:
            if v.k in ('err', 'event', 'fmt'):
                return 'O'
            return self.ckey(v)
        if t is Bts:
            return self.ckey(v)
        if t is SymV or t is Mux:
            return 'S'
        if t is Str:
            return 's'
        if v is None:
            return None
        if t in (int, bool) or is_sym(v):
            return 'i'
        return self.ckey(v)

    def ckey(self, v):
        t = type(v)
        if t is int or t is bool or t is str or v is None or t is bytes:
            return v
        if is_sym(v):
            sym.KEEP.append(v)
            return ('z', v.get_id())
        if t is tuple:
            return ('t',) + tuple(self.ckey(x) for x in v)
        if t is E:
            return ('E', v.v) + tuple(self.ckey(x) for x in v.f)
        if t is L:
            return ('L',) + tuple(self.ckey(x) for x in v.t)
        if t is R:
            return ('R', self.ckey(v.v))
        if t is X:
            return ('X', self.ckey(v.v))
        if t is Str:
            return ('s', self.ckey(v.c))
        if t is Bts:
            return ('B',) + tuple(self.ckey(x) for x in v.p)
        if t is M:
            return ('M', v.fid, v.loc, v.path)
        if t is F:
            return ('F', v.inst)
        if t is O:
            return ('O', v.k) + tuple(self.ckey(x) for x in v.d)
        if t is SymV:
            return ('S', v.name)
        if t is Mux:
            return ('X', self.ckey(v.c), self.ckey(v.a), self.ckey(v.b))
        if t is frozenset:
            return ('fs',) + tuple(sorted(map(repr, map(self.ckey, v))))
        if hasattr(v, 'ckey'):
            return v.ckey(self)
        raise Unsupported(f'ckey {type(v)}')

    def fields(self, v, variant, n=None):
        """payload of enum value v seen as the given variant"""
        if isinstance(v, E):
            return v.f if v.v == variant else None
        if isinstance(v, SymV):
            fs = self.ty(v.ty)['v'][variant]['f']
            return tuple(self.mk(f"{v.name}.{self.ty(v.ty)['v'][variant]['n']}.{fn}", ft) for fn, ft in fs)
        if isinstance(v, Mux):
            a = self.fields(v.a, variant)
            b = self.fields(v.b, variant)
            if a is None:
                return b
            if b is None:
                return a
            return tuple(self.mux(v.c, x, y) for x, y in zip(a, b))
        raise Unsupported(f'fields of {v!r}')

    def field(self, v, i, variant=None):
        if type(v) is tuple:
            if i >= len(v):
                raise Unsupported(f'field {i} of {v!r}')
            return v[i]
        if isinstance(v, E):
            if variant is not None and variant != v.v:
                raise Abort('wrong variant (infeasible)')
            return v.f[i]
        if isinstance(v, (SymV, Mux)):
            if variant is None:
                if isinstance(v, Mux):
                    return self.mux(v.c, self.field(v.a, i), self.field(v.b, i))
                t = self.ty(v.ty)
                if t['k'] == 'enum':
                    raise Unsupported(f'field of enum {v!r} without variant')
            f = self.fields(v, variant if variant is not None else 0)
            if f is None:
                raise Abort('wrong variant (infeasible)')
            return f[i]
        if isinstance(v, X):
            return v            # Box internals: Unique / NonNull wrappers are transparent
        if isinstance(v, (M, R)):
            return v            # pointer wrappers
        if isinstance(v, L) and i == 0:
            return v            # MaybeUninit / ManuallyDrop wrappers around arrays
        if isinstance(v, O):
            if v.k in ('uninit', 'event'):
                return v        # what events carry is not looked at
            f = getattr(self.models, 'ofield', None)
            if f:
                r = f(self, v, i)
                if r is not None:
                    return r
        raise Unsupported(f'field {i} of {v!r}')

    # ------------------------------------------------------------------ memory
    def rd(self, st, fid, loc, path):
        v = st.mem[fid].get(loc)
        if v is None and path == ():
            raise Unsupported(f'read of uninitialised local _{loc}')
        return self.walk(v, path)

    def walk(self, v, path):
        for p in path:
            v = self.step(v, p)
        return v

    def step(self, v, p):
        k = p[0]
        if k == 'f':
            return self.field(v, p[1], p[2])
        if k == 'x':
            return v.v if isinstance(v, X) else v
        if k == 'i':
            return v.t[p[1]]
        raise Unsupported(f'step {p}')

    def upd(self, v, path, new):
        if not path:
            return new
        p = path[0]
        rest = path[1:]
        k = p[0]
        if k == 'f':
            i, variant = p[1], p[2]
            if type(v) is tuple:
                return v[:i] + (self.upd(v[i], rest, new),) + v[i + 1:]
            if isinstance(v, E):
                if variant is not None and v.v != variant:
                    raise Abort('wrong variant (infeasible)')
                return E(v.v, v.f[:i] + (self.upd(v.f[i], rest, new),) + v.f[i + 1:])
            if isinstance(v, (SymV, Mux)):
                f = self.fields(v, variant if variant is not None else 0)
                if variant is None:
                    return self.upd(tuple(f), path, new)
                return E(variant, f[:i] + (self.upd(f[i], rest, new),) + f[i + 1:])
            if v is None or (isinstance(v, O) and v.k == 'uninit'):
                return self.upd(None, rest, new) if rest else new
            if isinstance(v, O) and v.k == 'event':
                return v
            if isinstance(v, X):
                return self.upd(v, rest, new)
            if isinstance(v, L) and i == 0:
                return self.upd(v, rest, new)
        elif k == 'x':
            if isinstance(v, X):
                return X(self.upd(v.v, rest, new), v.dyn)
        elif k == 'i':
            if isinstance(v, L):
                t = v.t
                return L(t[:p[1]] + (self.upd(t[p[1]], rest, new),) + t[p[1] + 1:])
        raise Unsupported(f'write through {p} into {v!r}')

    def load(self, st, ref):
        if isinstance(ref, R):
            return ref.v
        if isinstance(ref, M):
            return self.rd(st, ref.fid, ref.loc, ref.path)
        if isinstance(ref, X):
            return ref.v
        return ref

    def loadall(self, st, v):
        """dereference until a non-reference"""
        while isinstance(v, (R, M, X)):
            v = self.load(st, v)
        return v

    def put(self, st, ref, val):
        if isinstance(ref, M):
            old = st.mem[ref.fid].get(ref.loc)
            st.setl(ref.fid, ref.loc, self.upd(old, ref.path, val))
            return
        raise Unsupported(f'store through {ref!r}')

    def lplace(self, st, fid, place):
        """resolve a place to (fid, loc, path) or to a value ('v', value) when it lies behind a shared reference"""
        loc, proj = place
        f, l, path = fid, loc, ()
        val = None
        isval = False
        variant = None
        for p in proj:
            k = p[0]
            if k == 'd':
                cur = val if isval else self.rd(st, f, l, path)
                if isinstance(cur, M):
                    f, l, path = cur.fid, cur.loc, cur.path
                    isval = False
                elif isinstance(cur, R):
                    val, isval = cur.v, True
                elif isinstance(cur, X):
                    if isval:
                        val = cur.v
                    else:
                        path = path + (('x',),)
                elif isinstance(cur, (O, F, Str, L)):
                    val, isval = cur, True
                else:
                    raise Unsupported(f'deref of {cur!r}')
                variant = None
            elif k == 'f':
                if isval:
                    val = self.field(val, p[1], variant)
                else:
                    path = path + (('f', p[1], variant),)
                variant = None
            elif k == 'dc':
                variant = p[1]
            elif k in ('i', 'ci'):
                seq = val if isval else self.rd(st, f, l, path)
                if k == 'i':
                    idx = st.mem[fid][p[1]]
                    if is_sym(idx):
                        raise Unsupported('symbolic index')
                else:
                    n = len(seq.t) if isinstance(seq, L) else None
                    idx = (n - p[1]) if p[3] else p[1]
                if isinstance(seq, Bts):
                    raise Unsupported('index into bytes')
                if not isinstance(seq, L):
                    raise Unsupported(f'index into {seq!r}')
                if idx >= len(seq.t):
                    raise Abort('index out of range')
                if isval:
                    val = seq.t[idx]
                else:
                    path = path + (('i', idx),)
            elif k == 'ss':
                seq = val if isval else self.rd(st, f, l, path)
                if not isinstance(seq, L):
                    raise Unsupported('subslice')
                n = len(seq.t)
                to = n - p[2] if p[3] else p[2]
                val, isval = L(seq.t[p[1]:to]), True
            elif k == 'oc':
                pass
        if isval:
            return ('v', val)
        return ('m', f, l, path)

    def readplace(self, st, fid, place):
        loc, proj = place
        if not proj:
            v = st.mem[fid].get(loc)
            if v is None:
                raise Unsupported(f'uninitialised local _{loc}')
            return v
        r = self.lplace(st, fid, place)
        if r[0] == 'v':
            return r[1]
        return self.rd(st, r[1], r[2], r[3])

    def writeplace(self, st, fid, place, v):
        loc, proj = place
        if not proj:
            st.setl(fid, loc, v)
            return
        r = self.lplace(st, fid, place)
        if r[0] == 'v':
            if isinstance(r[1], O) and r[1].k == 'uninit':
                raise Unsupported('write to opaque')
            raise Unsupported(f'write behind a shared reference {place} {r[1]!r}')
        old = st.mem[r[1]].get(r[2])
        st.setl(r[1], r[2], self.upd(old, r[3], v))

    # ------------------------------------------------------------------ feasibility
    def feasible(self, st, c):
        """does st allow c?  leaves a witness model in self.lastmodel when it says yes"""
        self.lastmodel = st.model
        if c is True:
            return True
        if c is False:
            return False
        if c.get_id() in st.pcs:
            return True
        n = Not(c)
        if n is not True and n is not False and n.get_id() in st.pcs:
            return False
        if st.model is not None and self.holds(st.model, c):
            return True
        if self.deadline and time.time() > self.deadline:
            raise sym.Inconclusive('time budget exhausted')
        r, m = self.inc.check(st.pc, c)
        if r == z3.unsat:
            return False
        self.lastmodel = m
        return True

    def holds(self, model, c):
        vs = varsof(c)
        ds = defs_for(vs, set())
        if not z3.is_true(model.eval(c, model_completion=True)):
            return False
        for d in ds:
            if not z3.is_true(model.eval(d, model_completion=True)):
                return False
        return True

    def split(self, st, conds):
        """conds: mutually exclusive, exhaustive alternatives [(cond, tag)] -> [(state, tag)] for the feasible ones"""
        out = []
        rest = []
        for c, tag in conds:
            if c is True:
                return [(st, tag)]
            if c is False:
                continue
            rest.append((c, tag))
        if len(rest) == 1:
            # exhaustive: the only candidate
            st.add(rest[0][0])
            return [(st, rest[0][1])]
        feas = []
        for k, (c, tag) in enumerate(rest):
            if k == len(rest) - 1 and not feas:
                feas.append((c, tag, None))
                break
            if self.feasible(st, c):
                feas.append((c, tag, self.lastmodel))
        if len(feas) == 1:
            c, tag, m = feas[0]
            st.add(c)
            if m is not None:
                st.model = m
            return [(st, tag)]
        self.forks += len(feas) - 1
        for c, tag, m in feas:
            s = st.fork()
            s.add(c)
            s.model = m
            out.append((s, tag))
        return out

    def branch(self, st, c):
        if isinstance(c, bool):
            return [(st, c)]
        return self.split(st, [(c, True), (Not(c), False)])

    def assume(self, st, c):
        if c is True:
            return True
        if c is False or not self.feasible(st, c):
            return False
        st.add(c)
        st.model = self.lastmodel
        return True

    # ------------------------------------------------------------------ constants, operands
    def const(self, ty, tree):
        if 'fn' in tree:
            return F(tree['fn'])
        if 'unres' in tree:
            return O('unres', tree['unres'])
        return self.ctree(ty, tree)

    def ctree(self, ty, tree):
        t = self.ty(ty)
        k = t['k']
        if 'i' in tree:
            i = int(tree['i'])
            return bool(i) if k == 'bool' else i
        if 's' in tree:
            return R(Str(tree['s']))
        if 'fn' in tree:
            return F(tree['fn'])
        if 'r' in tree:
            inner = self.ctree(tree['rt'], tree['r'])
            return R(inner)
        if 'l' in tree:
            e = t.get('e')
            et = self.ty(e) if e is not None else None
            if et and et['k'] == 'int' and et['bits'] == 8:
                return Bts((('b', bytes(int(x['i']) for x in tree['l'])),)) if tree['l'] else Bts()
            return L(tuple(self.ctree(e, x) for x in tree['l']))
        if 'f' in tree:
            if 'v' in tree:
                fts = t['v'][tree['v']]['f']
                fs = tuple(self.ctree(ft, x) for (_, ft), x in zip(fts, tree['f']))
                if k == 'enum':
                    return E(tree['v'], fs)
                if t['p'] == ADT_STRING:
                    return Str('')
                if t['p'].startswith('alloc::vec::Vec'):
                    return L()
                return fs
            return tuple(self.ctree(ft, x) for ft, x in zip(t.get('f', []), tree['f']))
        if k == 'fndef':
            return F(t['inst'])
        return O('const', t['n'])

    def operand(self, st, fid, op):
        k = op[0]
        if k == 'k':
            c = op[2]
            v = c.get('_v')
            if v is None:
                v = c['_v'] = self.const(op[1], c)
            return v
        return self.readplace(st, fid, op[2])

    # ------------------------------------------------------------------ arithmetic
    def abort(self, st, why):
        """record a path that ends in a panic"""
        self.aborts.append((st.pc, why, dict(st.tabs), dict(st.misc)))

    def discval(self, d, vs):
        """discriminant value of variant index d (the only signed ones in reach are Ordering's)"""
        if all(int(x['d']) == i for i, x in enumerate(vs)):
            return d
        ds = [int(x['d']) for x in vs]
        if len(ds) == 3 and ds[0] == 255:
            ds[0] = -1
        if not is_sym(d):
            return ds[d]
        e = ds[-1]
        for i in range(len(ds) - 2, -1, -1):
            e = If(Eq(d, i), ds[i], e)
        return e

    def intinfo(self, ty):
        t = self.ty(ty)
        if t['k'] == 'int':
            return t['bits'], t['signed']
        if t['k'] == 'char':
            return 32, False
        if t['k'] == 'bool':
            return 1, False
        return None

    def wrap(self, x, bits, signed):
        if not is_sym(x):
            x &= (1 << bits) - 1
            if signed and x >= 1 << (bits - 1):
                x -= 1 << bits
            return x
        lo, hi = (-(1 << (bits - 1)), 1 << (bits - 1)) if signed else (0, 1 << bits)
        # results of one wrapping operation lie within one period of the range
        return If(Ge(x, hi), keep(x - (hi - lo)), If(Lt(x, lo), keep(x + (hi - lo)), x))

    def binop(self, op, a, b, ty):
        if isinstance(a, Mux) or isinstance(b, Mux):
            raise Unsupported('binop on mux')
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if isinstance(a, (R, M, X, O, F)) or isinstance(b, (R, M, X, O, F)):
                if op in ('Eq', 'Ne') and self.ckey(a) == self.ckey(b):
                    return op == 'Eq'
                raise Unsupported(f'pointer comparison {a!r} {b!r}')
            if op == 'Eq':
                return Eq(a, b)
            if op == 'Ne':
                return Not(Eq(a, b))
            if isinstance(a, bool):
                a = int(a)
            if isinstance(b, bool):
                b = int(b)
            return {'Lt': Lt, 'Le': Le, 'Gt': Gt, 'Ge': Ge}[op](a, b)
        if op == 'Cmp':
            if not is_sym(a) and not is_sym(b):
                return E(0 if a < b else 1 if a == b else 2)
            return self.mux3(Lt(a, b), E(0), Eq(a, b), E(1), E(2))
        ii = self.intinfo(ty)
        if ii is None:
            raise Unsupported(f'binop {op} on {self.ty(ty)["n"]}')
        bits, signed = ii
        if self.ty(ty)['k'] == 'bool' or isinstance(a, bool) or isinstance(a, z3.BoolRef):
            if op == 'BitAnd':
                return And(a, b)
            if op == 'BitOr':
                return Or(a, b)
            if op == 'BitXor':
                return Not(Eq(a, b))
            raise Unsupported(f'bool {op}')
        lo, hi = (-(1 << (bits - 1)), 1 << (bits - 1)) if signed else (0, 1 << bits)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            if base == 'Add':
                r = a + b
            elif base == 'Sub':
                r = a - b
            else:
                if signed and (is_sym(a) and is_sym(b)):
                    raise Unsupported('signed product')
                r = mul(a, b) if not signed else a * b
            if is_sym(r):
                keep(r)
            if op.endswith('WithOverflow'):
                ov = Or(Lt(r, lo), Ge(r, hi))
                if base == 'Mul' and is_sym(r):
                    w = r     # only meaningful when it did not overflow
                    if ov is not False:
                        w = self.wrapmul(r, bits)
                else:
                    w = self.wrap(r, bits, signed)
                    if is_sym(r):
                        w = If(ov, w, r) if False else w
                return (w, ov)
            if op.endswith('Unchecked'):
                return r
            if base == 'Mul' and is_sym(r):
                return self.wrapmul(r, bits)
            return self.wrap(r, bits, signed)
        if base == 'Div':
            if signed and (is_sym(a) or is_sym(b)):
                raise Unsupported('signed division')
            if not is_sym(b) and b == 0:
                raise Abort('division by zero')
            return div(a, b) if not signed else int(a / b)
        if base == 'Rem':
            if signed and (is_sym(a) or is_sym(b)):
                raise Unsupported('signed remainder')
            if not is_sym(b) and b == 0:
                raise Abort('division by zero')
            return rem(a, b)
        if base in ('BitAnd', 'BitOr', 'BitXor'):
            if not is_sym(a) and not is_sym(b):
                return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[base]
            if base == 'BitAnd':
                x, m = (a, b) if is_sym(a) else (b, a)
                if not is_sym(m) and m & (m + 1) == 0:
                    return rem(x, m + 1)
            raise Unsupported(f'symbolic {base}')
        if base in ('Shl', 'Shr'):
            if is_sym(b):
                raise Unsupported('symbolic shift')
            b &= bits - 1
            if base == 'Shr':
                return div(a, 1 << b) if is_sym(a) else a >> b
            if is_sym(a):
                r = keep(a * (1 << b))
                return rem(r, 1 << bits)
            return (a << b) & ((1 << bits) - 1)
        raise Unsupported(f'binop {op}')

    def mux3(self, c1, v1, c2, v2, v3):
        r = v3 if c2 is False else v2 if c2 is True else Mux(c2, v2, v3)
        if c1 is True:
            return v1
        if c1 is False:
            return r
        return Mux(c1, v1, r)

    def wrapmul(self, r, bits):
        c = Lt(r, 1 << bits)
        return r if c is True else If(c, r, rem(r, 1 << bits))

    def cast(self, st, kind, v, fty, tty):
        if kind.startswith('IntToInt'):
            b, s = self.intinfo(tty)
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, z3.BoolRef):
                return If(v, 1, 0)
            fb, fs = self.intinfo(fty)
            if not is_sym(v):
                return self.wrap(v, b, s)
            if (b >= fb and fs == s) or (b > fb and not fs):
                return v
            if b >= fb and fs and not s:
                return keep(z3.If(v < 0, v + (1 << b), v))
            if not s:
                return If(Lt(v, 1 << b), v, rem(v, 1 << b)) if not fs else keep(v % (1 << b))
            return self.wrap(v, b, s)
        if 'Unsize' in kind:
            tt = self.ty(tty)
            ft = self.ty(fty)
            inner_to = self.pointee(tt)
            inner_from = self.pointee(ft)
            if inner_to is not None and self.ty(inner_to)['k'] == 'dyn':
                if self.ty(inner_from)['k'] == 'dyn':
                    return v
                if isinstance(v, R):
                    return R(v.v, inner_from)
                if isinstance(v, M):
                    return M(v.fid, v.loc, v.path, inner_from)
                if isinstance(v, X):
                    return X(v.v, inner_from)
                if isinstance(v, O):
                    return v
                raise Unsupported(f'unsize {v!r}')
            return v
        if kind.startswith(('PtrToPtr', 'Transmute', 'PointerCoercion', 'FnPtrToPtr', 'Subtype')):
            if kind.startswith('Transmute'):
                a, b = self.ty(fty), self.ty(tty)
                if a['k'] != b['k'] and not (isinstance(v, (X, M, R, O, L, Str, F)) or type(v) is tuple):
                    if a['k'] == 'int' and b['k'] in ('char',):
                        return v
                    if 'NonZero<' in b['n'] and b['k'] == 'enum' and (isinstance(v, int) or is_sym(v)):
                        return Mux(Eq(v, 0), self.models.NONE(), self.models.some(v)) if is_sym(v) else \
                            self.models.some(v) if v else self.models.NONE()
                    if 'NonZero<' in a['n'] and b['k'] == 'int':
                        return v
                    raise Unsupported(f"transmute {a['n']} -> {b['n']}")
            return v
        raise Unsupported(f'cast {kind} {self.ty(fty)["n"]} -> {self.ty(tty)["n"]}')

    def pointee(self, t):
        if t['k'] in ('ref', 'ptr'):
            return t['e']
        if t['k'] == 'struct' and t['args']:
            p = t['p']
            if p.startswith(('alloc::boxed::Box', 'core::ptr::non_null::NonNull', 'core::ptr::unique::Unique', 'alloc::rc::Rc', 'alloc::sync::Arc')):
                return t['args'][0]
        return None

    def rvalue(self, st, fid, r):
        k = r[0]
        if k == 'use':
            v = self.operand(st, fid, r[1])
            if isinstance(v, X) and r[1][0] == 'c':
                # a box about to be dereferenced: alias its contents
                p = self.lplace(st, fid, r[1][2])
                if p[0] == 'm':
                    return M(p[1], p[2], p[3] + (('x',),), v.dyn)
            return v
        if k == 'ref':
            if r[1]:
                p = self.lplace(st, fid, r[2])
                if p[0] == 'v':
                    if isinstance(p[1], O):
                        return p[1]
                    # reborrow of something behind a shared reference: only legal for zero-sized / opaque things
                    return R(p[1])
                # &mut *x where x: &mut dyn keeps the dynamic type
                dyn = self.rebdyn(st, fid, r[2])
                return M(p[1], p[2], p[3], dyn)
            v = self.readplace(st, fid, r[2])
            if isinstance(v, O) and r[2][1] and r[2][1][-1][0] == 'd':
                return v
            return R(v, self.rebdyn(st, fid, r[2]))
        if k == 'bin':
            return self.binop(r[1], self.operand(st, fid, r[2]), self.operand(st, fid, r[3]), r[4])
        if k == 'un':
            v = self.operand(st, fid, r[2])
            if r[1] == 'Not':
                if isinstance(v, bool) or isinstance(v, z3.BoolRef):
                    return Not(v)
                b, s = self.intinfo(r[3])
                return (-1 - v) if s else ((1 << b) - 1 - v)
            if r[1] == 'Neg':
                return -v
            if r[1] == 'PtrMetadata':
                x = self.load(st, v)
                if isinstance(x, L):
                    return len(x.t)
                if isinstance(x, Bts):
                    return self.models.bytes_len(self, x)
                if isinstance(x, Str):
                    return self.models.str_len(self, x)
                return O('meta')
            raise Unsupported(f'unop {r[1]}')
        if k == 'disc':
            v = self.readplace(st, fid, r[1])
            d = self.disc(v)
            vs = self.ty(r[2]).get('v')
            if vs is None:
                raise Unsupported('discriminant type')
            return self.discval(d, vs)
        if k == 'agg':
            ops = tuple(self.operand(st, fid, o) for o in r[4])
            kk = r[1]
            if kk == 'adt':
                t = self.ty(r[2])
                if t['k'] == 'enum':
                    return E(r[3], ops)
                return ops
            if kk in ('tup', 'clo'):
                return ops
            if kk == 'arr':
                t = self.ty(r[2])
                if t['k'] == 'int' and t['bits'] == 8 and all(not is_sym(x) for x in ops):
                    return Bts((('b', bytes(ops)),)) if ops else Bts()
                return L(ops)
            if kk == 'union':
                return ops[0] if ops else O('uninit')
            if kk == 'ptr':
                return ops[0]
            raise Unsupported(f'aggregate {kk}')
        if k == 'cast':
            if r[1] == 'BoxDerefTransmute' and r[2][0] != 'k':
                loc, proj = r[2][2]
                p = self.lplace(st, fid, [loc, [q for q in proj if q[0] != 'f']])
                cur = p[1] if p[0] == 'v' else self.rd(st, p[1], p[2], p[3])
                if isinstance(cur, (M, R)):
                    return cur
                dyn = cur.dyn if isinstance(cur, X) else None
                if p[0] == 'm':
                    return M(p[1], p[2], p[3] + (('x',),), dyn)
                return R(p[1].v if isinstance(p[1], X) else p[1], dyn)
            return self.cast(st, r[1], self.operand(st, fid, r[2]), r[3], r[4])
        if k == 'closfn':
            return F(r[1])
        if k == 'rep':
            v = self.operand(st, fid, r[1])
            if r[2] > 4096:
                raise Unsupported('large repeat')
            if isinstance(v, int) and not isinstance(v, bool) and 0 <= v < 256:
                pass
            return L((v,) * r[2])
        if k == 'raw':
            p = self.lplace(st, fid, r[1])
            dyn = self.rebdyn(st, fid, r[1])
            if p[0] == 'v':
                return R(p[1], dyn)
            return M(p[1], p[2], p[3], dyn)
        if k == 'tls':
            return O('tls')
        raise Unsupported(f'rvalue {k}')

    def rebdyn(self, st, fid, place):
        loc, proj = place
        if proj and proj[-1][0] == 'd':
            try:
                src = self.readplace(st, fid, [loc, proj[:-1]])
            except Unsupported:
                return None
            return getattr(src, 'dyn', None)
        return None

    # ------------------------------------------------------------------ execution
    def run(self, inst, args, st):
        """execute a function symbolically; returns [(state, value)]"""
        out = self.call(st, inst, list(args), None)
        return out

    def call(self, st, inst, args, fb, line=None):
        d = self.sv.inst(inst)
        kind = d['kind']
        if kind == 'virtual':
            recv = args[0]
            dyn = getattr(recv, 'dyn', None)
            if isinstance(recv, X) and dyn is None and isinstance(recv.v, (X, R, M)) and getattr(recv.v, 'dyn', None) is not None:
                recv = recv.v
                dyn = recv.dyn
            if dyn is None:
                h = self.models.lookup_virtual(self, d, self.loadall(st, recv))
                if h is None:
                    raise Unsupported(f"virtual call {d['path']} on {recv!r}")
                return self.hcall(h, st, d, args, fb)
            r = self.sv.qc(f'virt {inst} {dyn}')
            if 'inst' not in r:
                raise Unsupported(f"cannot resolve {d['path']} for {self.ty(dyn)['n']}")
            nr = R(recv.v) if isinstance(recv, R) else M(recv.fid, recv.loc, recv.path) if isinstance(recv, M) else X(recv.v)
            return self.call(st, r['inst'], [nr] + args[1:], dict(p=d['path'], tr='core::ops::function::Fn' if 'ops::function' in d['path'] else None))
        h = self.icache.get(inst)
        if h is None:
            h = self.models.lookup(self, d)
            self.icache[inst] = h if h is not None else False
        if h:
            return self.hcall(h, st, d, args, fb)
        if kind in ('intrinsic', 'llvm'):
            raise Unsupported(f"intrinsic {d['path']}")
        if kind in ('shim_reify', 'shim_vtable'):
            return self.call(st, d['under'], args, fb)
        if kind == 'shim_fnptr':
            f = self.loadall(st, args[0])
            if isinstance(f, F):
                return self.call(st, f.inst, list(args[1]) if len(args) > 1 else [], None)
            raise Unsupported(f'fn pointer call {f!r}')
        if kind == 'shim_once':
            # closure by value: give it a home and pass a reference
            ds = self.sv.body(d['under'])
            st.mem.append({0: args[0]})
            st.own.add(len(st.mem) - 1)
            fid = len(st.mem) - 1
            outs = self.call(st, d['under'], [M(fid, 0)] + [args[1]], dict(tr='core::ops::function::FnMut'))
            for s, v in outs:
                del s.mem[fid:]
                s.own.discard(fid)
            return outs
        if kind == 'shim_drop':
            return [(st, UNIT)]
        if d.get('ctor'):
            rt = self.sv.sig(inst)[-1]
            if self.ty(rt)['k'] == 'enum':
                if fb and (fb.get('tr') or '').startswith('core::ops::function') and len(args) == 2:
                    args = list(args[1])
                return [(st, E(self.variant(rt, d['path'].split('::')[-1]), tuple(args)))]
            if fb and (fb.get('tr') or '').startswith('core::ops::function') and len(args) == 2:
                args = list(args[1])
            return [(st, tuple(args))]
        if d.get('closure') and fb and (fb.get('tr') or '').startswith('core::ops::function'):
            b = self.sv.body(inst)
            if b['spread'] < 0 and len(args) == 2 and type(args[1]) is tuple:
                args = [args[0]] + list(args[1])
        elif fb and (fb.get('tr') or '').startswith('core::ops::function') and len(args) == 2 and type(args[1]) is tuple and kind == 'item' and not d.get('ntrait'):
            args = list(args[1])
        if kind == 'shim_clone':
            return [(st, self.load(st, args[0]))]
        return self.execbody(st, inst, d, args)

    def hcall(self, h, st, d, args, fb):
        try:
            r = h(self, st, d, args, fb)
        except Abort as e:
            self.abort(st, e.why)
            return []
        if type(r) is Outs:
            return r.o
        return [(st, r)]

    def fnval(self, fv, args):
        """instance and arguments for a call through a function value"""
        callee = fv.inst
        cd = self.sv.inst(callee)
        if cd['kind'] == 'shim_once':
            callee = cd['under']
            cd = self.sv.inst(callee)
        if cd.get('closure') and not cd['kind'].startswith('shim'):
            # closure coerced to a fn pointer: non-capturing, environment first
            if self.sv.body(callee)['argc'] == len(args) + 1:
                args = [R(())] + args
        return callee, args

    def call_value(self, st, f, args):
        """call a closure / fn value with the given (already separate) arguments"""
        ref = f
        v = f
        while isinstance(v, (R, M, X)) and getattr(v, 'dyn', None) is None and not isinstance(self.load(st, v), tuple):
            v = self.load(st, v)
        if isinstance(v, F):
            return self.call(st, v.inst, list(args), None)
        raise Unsupported(f'call_value {f!r}')

    def execbody(self, st, inst, d, args):
        body = self.sv.body(inst)
        if d['crate'] in REPO_CRATES:
            self.covered[d['path']] = self.covered.get(d['path'], 0) + 1
        if self.trace:
            print('  ' * len(st.mem) + d['path'][:150], [repr(a)[:60] for a in args] if self.trace == '2' else '', file=sys.stderr)
        fid = len(st.mem)
        if fid > 150:
            raise Unsupported('call depth')
        argc = body['argc']
        sp = body['spread']
        if sp >= 0 and len(args) > argc:
            args = args[:sp - 1] + [tuple(args[sp - 1:])]
        if len(args) != argc:
            raise Unsupported(f"arity of {d['path']}: {len(args)} for {argc}")
        st.mem.append({i + 1: a for i, a in enumerate(args)})
        st.own.add(fid)
        n0 = len(st.pc)
        base_tabs = st.tabs
        blocks = body['blocks']
        work = [(st, 0)]
        outs = []
        visits = 0
        while work:
            s, bb = work.pop()
            while True:
                visits += 1
                self.steps += 1
                if visits > 1000000:
                    raise Unsupported(f"loop bound exceeded in {d['path']}")
                blk = blocks[bb]
                if blk is None:
                    raise Unsupported('cleanup block')
                try:
                    for x in blk[0]:
                        k = x[0]
                        if k == 'a':
                            self.writeplace(s, fid, x[1], self.rvalue(s, fid, x[2]))
                        elif k == 'sd':
                            cur = self.readplace(s, fid, x[1])
                            if isinstance(cur, E):
                                self.writeplace(s, fid, x[1], E(x[2], cur.f))
                            else:
                                raise Unsupported('set_discriminant')
                        elif k == 'cno':
                            raise Unsupported('copy_nonoverlapping')
                    t = blk[1]
                    k = t[0]
                    if k == 'goto':
                        bb = t[1]
                        continue
                    if k == 'ret':
                        v = s.mem[fid].get(0, UNIT)
                        del s.mem[fid:]
                        s.own.discard(fid)
                        outs.append((s, v))
                        break
                    if k == 'sw':
                        v = self.operand(s, fid, t[1])
                        tg = t[3]
                        ii = self.intinfo(t[2])
                        if ii and ii[1]:
                            tg = [[self.wrap(int(x), ii[0], True), b] for x, b in tg]
                        ns = self.switch(s, v, t[2], tg, t[4])
                        if len(ns) == 1:
                            s, bb = ns[0]
                            continue
                        for z in reversed(ns):
                            work.append(z)
                        break
                    if k == 'call':
                        f = t[1]
                        args2 = [self.operand(s, fid, a) for a in t[2]]
                        fb = t[5]
                        if f[0] == 'k':
                            fn = f[2]
                            if 'fn' in fn:
                                callee = fn['fn']
                            elif 'unres' in fn:
                                raise Unsupported(f"unresolved {fn['unres']}")
                            else:
                                fv = self.operand(s, fid, f)
                                if not isinstance(fv, F):
                                    ct = self.ty(f[1])
                                    if ct['k'] == 'closure':
                                        callee = ct['inst']
                                    else:
                                        raise Unsupported(f'call of {fv!r}')
                                else:
                                    callee = fv.inst
                        else:
                            fv = self.operand(s, fid, f)
                            if not isinstance(fv, F):
                                raise Unsupported(f'call of {fv!r}')
                            callee, args2 = self.fnval(fv, args2)
                        res = self.call(s, callee, args2, fb)
                        if t[4] < 0:
                            if res:
                                raise Unsupported('diverging call returned')
                            break
                        if not res:
                            break
                        if len(res) == 1:
                            s, v = res[0]
                            self.writeplace(s, fid, t[3], v)
                            bb = t[4]
                            continue
                        for s2, v in reversed(res):
                            self.writeplace(s2, fid, t[3], v)
                            work.append((s2, t[4]))
                        break
                    if k == 'assert':
                        c = self.operand(s, fid, t[1])
                        if not t[2]:
                            c = Not(c)
                        if c is True:
                            bb = t[3]
                            continue
                        rs = self.branch(s, c)
                        nxt = None
                        for s2, ok in rs:
                            if ok:
                                nxt = s2
                            else:
                                self.abort(s2, t[4])
                        if nxt is None:
                            break
                        s = nxt
                        bb = t[3]
                        continue
                    if k in ('unr',):
                        break
                    if k == 'unw':
                        break
                    raise Unsupported(f'terminator {k}')
                except Abort as e:
                    self.abort(s, e.why)
                    break
                except Unsupported as e:
                    if not getattr(e, 'where', None):
                        e.where = []
                    if len(e.where) < 12:
                        e.where.append(f"{d['path']} bb{bb}")
                    raise
        if len(outs) > 1:
            t0 = self.ty(body['locals'][0])
            outs = self.merge(outs, n0, t0['k'] == 'enum' and t0['p'] == 'core::result::Result', 'usize' in t0['n'])
        return outs

    def switch(self, s, v, ty, targets, other):
        if isinstance(v, (bool, z3.BoolRef)):
            if isinstance(v, bool):
                v = int(v)
                for val, t in targets:
                    if int(val) == v:
                        return [(s, t)]
                return [(s, other)]
            tf = tt = other
            for val, t in targets:
                if int(val) == 0:
                    tf = t
                else:
                    tt = t
            return [(s2, tt if c else tf) for s2, c in self.branch(s, v)]
        if not is_sym(v):
            if not isinstance(v, int):
                raise Unsupported(f'switch on {v!r}')
            for val, t in targets:
                if int(val) == v:
                    return [(s, t)]
            return [(s, other)]
        conds = []
        rest = True
        for val, t in targets:
            x = int(val)
            ii = self.intinfo(ty)
            if ii and ii[1] and x >= 1 << (ii[0] - 1):
                x -= 1 << ii[0]
            c = Eq(v, x)
            conds.append((c, t))
            rest = And(rest, Not(c))
        conds.append((rest, other))
        return self.split(s, conds)

    # ------------------------------------------------------------------ merging
    def merge(self, outs, n0, isres=False, exact=False):
        if self.nomerge:
            return outs
        groups = {}
        order = []
        for s, v in outs:
            try:
                vk = self.ckey(v) if exact else self.skel(v)
                if isres and isinstance(v, E) and v.v == 1:
                    vk = 'ERR'
                k = (vk, self.tabskel(s), len(s.mem), self.miscskel(s))
            except Unsupported:
                k = object()
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append((s, v))
        res = []
        for k in order:
            g = groups[k]
            if len(g) == 1:
                res.append(g[0])
                continue
            cur = g[0]
            rest = g[1:]
            try:
                res.append(self.mergegroup(g, n0, k[0] == 'ERR' if isinstance(k, tuple) else False))
                self.merged += len(g) - 1
            except NoMerge:
                res.extend(g)
        return res

    def tabskel(self, s):
        return self.store.tabskel(self, s)

    def miscskel(self, s):
        return tuple(sorted((k, repr(self.ckey(v)) if not isinstance(v, (int, str, tuple)) else v) for k, v in s.misc.items() if not k.startswith('~')))

    def mergegroup(self, g, n0, iserr):
        sufs = [s.pc[n0:] for s, _ in g]
        # common prefix
        k = 0
        m = min(len(x) for x in sufs)
        while k < m and all(x[k].get_id() == sufs[0][k].get_id() for x in sufs):
            k += 1
        conds = [And(*x[k:]) for x in sufs]
        if any(c is True for c in conds):
            # not distinguished by the path condition: cannot select
            raise NoMerge()
        s0, v0 = g[-1]
        ns = s0.fork()
        val = v0
        mem = list(s0.mem)
        tabs = s0.tabs
        for i in range(len(g) - 2, -1, -1):
            si, vi = g[i]
            c = conds[i]
            if iserr:
                try:
                    val = self.mergev(c, vi, val)
                except (NoMerge, Unsupported):
                    val = E(1, (ERR,))
            else:
                val = self.mergev(c, vi, val)
            for f in range(len(mem)):
                if si.mem[f] is not mem[f]:
                    a, b = si.mem[f], mem[f]
                    nd = dict(b)
                    for loc in set(a) | set(b):
                        x, y = a.get(loc), b.get(loc)
                        if x is not y:
                            if x is None or y is None:
                                raise NoMerge()
                            nd[loc] = self.mergev(c, x, y)
                    mem[f] = nd
            tabs = self.store.mergetabs(self, c, si.tabs, tabs)
        ns.mem = mem
        ns.own = set()
        ns.tabs = tabs
        pc = sufs[0][:k]
        ns.pc = s0.pc[:n0]
        ns.pcs = frozenset(c.get_id() for c in ns.pc)
        for c in pc:
            ns.add(c)
        d = orsuf([x[k:] for x in sufs])
        for c in d:
            ns.add(c)
        ns.model = g[0][0].model
        q = ()
        for s_, _ in g:
            q += tuple(x for x in s_.misc.get('~q', ()) if x not in q)
        if q:
            ns.misc['~q'] = q
        return ns, val


def orsuf(sufs):
    """disjunction of conjunctions as a tuple of conjuncts, simplified for complementary branches"""
    if any(len(x) == 0 for x in sufs):
        return ()
    ids = {}
    for x in sufs:
        ids.setdefault(x[0].get_id(), []).append(x)
    if len(ids) == 1:
        return (sufs[0][0],) + orsuf([x[1:] for x in sufs])
    parts = []
    if len(ids) == 2:
        (ia, ga), (ib, gb) = ids.items()
        a, b = ga[0][0], gb[0][0]
        na = Not(a)
        if is_sym(na) and na.get_id() == ib:
            ra, rb = orsuf([x[1:] for x in ga]), orsuf([x[1:] for x in gb])
            if not ra and not rb:
                return ()
            if not ra:
                return (Or(a, And(*rb)),)
            if not rb:
                return (Or(b, And(*ra)),)
            return (keep(z3.If(a, And(*ra), And(*rb))),)
    for i, grp in ids.items():
        parts.append(And(grp[0][0], *orsuf([x[1:] for x in grp])))
    r = Or(*parts)
    return () if r is True else (r,)


class Outs:
    __slots__ = ('o',)

    def __init__(self, o):
        self.o = o


REPO_CRATES = {'stargaze_marketplace_v2', 'sg_marketplace', 'stargaze_reserve_auction', 'sg_marketplace_common'}
