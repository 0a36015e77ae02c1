"""What the properties of the shared library say about every explored outcome of the messages of shared/src/lib.rs."""
from spec import *

EXEC = 'verif_shared::execute'


class Contract:
    name = 'common'
    bounds = dict(vec=5, rows=2)
    keys = {}
    vecbound = {}
    keylen = {}
    tables = {}
    query_inv = None

    @staticmethod
    def vecinv(name, l):
        return coins_inv(l) if name.endswith('info.funds') else []

    @staticmethod
    def row_inv(en, ns, ty, key, v):
        return []

    @staticmethod
    def assume(cx):
        return []

    @staticmethod
    def facts(cx, o):
        return list(cx.funds_assume())


def only_sends(o):
    for m in o.msgs:
        yield 'only bank sends', Implies(m.guard, m.kind == 'send')
        yield 'a failing transfer reverts the message', Implies(m.guard, Or(m.reply.is_('Never'), m.reply.is_('Success')))


# ------------------------------------------------------------------------------------------------ S01
def split(cx):
    """[(condition, [(fee, amount)], rest)] for every number of fees"""
    price = cx.m('price').f('amount').i
    for c, fees in cx.m('fees').vec():
        l = [(f, ceildiv(mul(price, f.f('share').i), DEC)) for f in fees]
        yield c, l, minus(price, plus(*[a for _, a in l]))


def s01(cx, o):
    yield from only_sends(o)
    price, den = cx.m('price').f('amount').i, cx.m('price').f('denom').s
    who = cx.skolem('who')
    labels = cx.variant == 'Labels'
    d = cx.skolem('label') if labels else den
    here = {k: Eq(d, strcode('seller')) if labels else True for k in ('seller',)}
    for c, l, rest in split(cx):
        yield 'the fees are within the price', Implies(c, Ge(rest, 0))
        due = plus(*[If(And(Eq(f.f('recipient').s, who), Eq(f.f('label').s, d) if labels else True), a, 0) for f, a in l],
                   If(And(Eq(cx.m('seller').s, who), here['seller']), rest, 0))
        yield 'every fee is its share of the price rounded up, and the seller gets the rest', Implies(c, Eq(o.sent(who, d), due))
        n = count([m.guard for m in o.msgs])
        yield 'one payment for every fee with a share, and one for the seller unless nothing is left', Implies(c, Eq(
            n, plus(count([Gt(f.f('share').i, 0) for f, _ in l]), If(Eq(rest, 0), 0, 1))))
        if not labels:
            yield 'everything paid is in the coin of the sale', Implies(c, And(*[Implies(And(m.guard, cc), And(len(x) == 1, *[Eq(y.f('denom').s, den) for y in x])) for m in o.msgs for cc, x in m.coins]))
        # payments come in the order the fees were added, the seller last
        for i, m in enumerate(o.msgs):
            pos = plus(1, count([x.guard for x in o.msgs[:i]]))
            ok = And(Eq(pos, plus(1, count([Gt(f.f('share').i, 0) for f, _ in l]))), Eq(m.to, cx.m('seller').s))
            for j, (f, a) in enumerate(l):
                ok = Or(ok, And(Gt(f.f('share').i, 0), Eq(pos, plus(1, count([Gt(g.f('share').i, 0) for g, _ in l[:j]]))), Eq(m.to, f.f('recipient').s)))
            yield 'fees are paid in the order they were added, then the seller', Implies(And(c, m.guard), ok)


def s01_fail(cx, o):
    yield 'a sale whose fees are within the price is paid out', Not(Or(*[And(c, Ge(rest, 0)) for c, l, rest in split(cx)]))


# ------------------------------------------------------------------------------------------------ S02
def asked_funds(cx):
    x = cx.m('funds')
    return [(True, [x])] if cx.variant.endswith('One') else x.vec()


def s02(cx, o):
    n = count([m.guard for m in o.msgs])
    yield 'exactly one message', Eq(n, 1)
    for m in o.msgs:
        yield 'a failing transfer reverts the message', Implies(m.guard, Or(m.reply.is_('Never'), m.reply.is_('Success')))
        if cx.variant == 'TransferNft':
            t = m.is_exec('TransferNft')
            yield 'the collection is told to transfer the NFT to the recipient', Implies(m.guard, And(
                t, Eq(m.to, cx.m('collection').s), Eq(m.arg('TransferNft', 'token_id').s, cx.m('token_id').s),
                Eq(m.arg('TransferNft', 'recipient').s, cx.m('recipient').s), *[Implies(c, not l) for c, l in m.coins]) if t is not False else False)
            continue
        yield 'a bank send to the recipient', Implies(m.guard, And(m.kind == 'send', Eq(m.to, cx.m('to').s)))
        for c, want in asked_funds(cx):
            for c2, got in m.coins:
                yield 'exactly the funds given', Implies(And(m.guard, c, c2), And(len(want) == len(got), *[veq(a, b) for a, b in zip(want, got)]))
    if cx.variant.startswith('Checked'):
        for c, l in asked_funds(cx):
            yield 'no coin is empty', Implies(c, And(*[Gt(x.f('amount').i, 0) for x in l]))


def s02_fail(cx, o):
    if cx.variant.startswith('Checked'):
        yield 'funds without empty coins are transferred', Not(Or(*[And(c, *[Gt(x.f('amount').i, 0) for x in l]) for c, l in asked_funds(cx)]))
    else:
        yield 'a transfer is never refused', False


# ------------------------------------------------------------------------------------------------ S03
def refused_because(cx, o):
    """the collection answered and the answer rules the sender or the trade out"""
    r = False
    C = cx.m('collection').s
    if cx.variant == 'OnlyOwner':
        for addr, get, okc, ans, notok in o.asked('OwnerOf'):
            r = Or(r, And(okc, Eq(addr, C), Eq(get('token_id').s, cx.m('token_id').s), Not(Eq(ans.f('owner').s, cx.sender))))
    else:
        for addr, get, okc, ans, notok in o.asked('CollectionInfo'):
            st = ans.f('start_trading_time')
            if st.val is not None:
                r = Or(r, And(okc, Eq(addr, C), st.some, Gt(st.val.i, cx.now)))
    return r


def s03(cx, o):
    q = o.asked('OwnerOf' if cx.variant == 'OnlyOwner' else 'CollectionInfo')
    C = cx.m('collection').s
    yield 'the collection was asked', Or(*[And(Or(okc, notok), Eq(addr, C), Eq(get('token_id').s, cx.m('token_id').s) if cx.variant == 'OnlyOwner' else True) for addr, get, okc, ans, notok in q])
    yield 'the check passes only when the collection does not answer otherwise', Not(refused_because(cx, o))
    yield 'a check sends nothing', Eq(count([m.guard for m in o.msgs]), 0)


def s03_fail(cx, o):
    yield 'the check fails only when the collection says so', refused_because(cx, o)


# ------------------------------------------------------------------------------------------------ S04
def royalty(cx, o):
    """(registry answered, entry, recipient, share in 1e-18, taken from the collection)"""
    C, reg = cx.m('collection').s, cx.m('registry').s
    ans_ok, has, rec, share, own = False, False, 0, 0, False
    if cx.variant == 'Royalties':
        for addr, get, okc, ans, notok in o.asked('CollectionInfo'):
            ri = ans.f('royalty_info')
            if ri.val is None:
                continue
            own = And(okc, Eq(addr, C), ri.some)
            has, rec, share = own, ri.val.f('payment_address').s, ri.val.f('share').i
    for addr, get, okc, ans, notok in o.asked('RoyaltyPayment'):
        mine = And(okc, Eq(addr, reg), Eq(get('collection').s, C), same_opt(get('protocol'), cx.m('protocol')))
        ans_ok = Or(ans_ok, mine)
        for fld in ('royalty_default', 'royalty_protocol'):
            e = ans.f(fld)
            if e.val is None:
                continue
            c = And(mine, e.some)
            r = e.val.f('royalty_entry')
            has, rec, share, own = Or(c, has), If(c, r.f('recipient').s, rec), If(c, r.f('share').i, share), And(Not(c), own)
    return ans_ok, has, rec, share, own


def same_opt(a, b):
    if a.val is None or b.val is None:
        return Eq(a.some, b.some)
    return And(Eq(a.some, b.some), Implies(a.some, Eq(a.val.s, b.val.s)))


def s04(cx, o):
    ans_ok, has, rec, share, own = royalty(cx, o)
    yield 'only what the registry answers counts', ans_ok
    sends, inits = [], []
    for m in o.msgs:
        if m.kind == 'send':
            sends.append(m.guard)
            yield 'the royalty entry is the protocol\'s, else the default one, else the collection\'s own', Implies(m.guard, And(
                has, Eq(m.to, rec), *[Implies(c, And(len(l) == 1, *[Eq(x.f('amount').i, share) for x in l])) for c, l in m.coins]))
        else:
            i = m.is_exec('InitializeCollectionRoyalty')
            inits.append(m.guard)
            yield 'the registry is told to adopt the collection\'s own royalty', Implies(m.guard, And(
                i, Eq(m.to, cx.m('registry').s), Eq(m.arg('InitializeCollectionRoyalty', 'collection').s, cx.m('collection').s)) if i is not False else False)
    yield 'an entry is found whenever there is one', Eq(count(sends), If(has, 1, 0))
    yield 'the registry is told exactly when the entry is the collection\'s own', Eq(count(inits), If(own, 1, 0))


def s04_fail(cx, o):
    good = []
    for addr, get, okc, ans, notok in o.asked('RoyaltyPayment'):
        good.append(okc)
    for addr, get, okc, ans, notok in o.asked('CollectionInfo'):
        ri = ans.f('royalty_info')
        if ri.val is not None:
            good.append(Implies(And(okc, ri.some), models.validaddr(cx.en, ri.val.f('payment_address').s)))
    yield 'a royalty lookup fails only when the registry does not answer or the collection names a malformed address', Not(And(*good))


# ------------------------------------------------------------------------------------------------ S05
def s05(cx, o):
    yield from only_sends(o)
    who = cx.skolem('who')
    n = count([And(m.guard, Eq(m.to, who)) for m in o.msgs])
    if cx.variant == 'AddressOr':
        a = cx.m('addr')
        yield 'the given address if there is one, else the default', Eq(n, If(Eq(who, If(a.some, a.val.s, cx.m('default').s) if a.val is not None else cx.m('default').s), 1, 0))
        return
    for c, l in cx.m('addresses').vec():
        yield 'every address is valid', Implies(c, And(*[models.validaddr(cx.en, x.s) for x in l]))
        yield 'every address once and no other', Implies(c, Eq(n, If(Or(*[Eq(x.s, who) for x in l]), 1, 0)))
    for i, a in enumerate(o.msgs):
        for b in o.msgs[:i]:
            yield 'in ascending order', Implies(And(a.guard, b.guard), Lt(b.to, a.to))


def s05_fail(cx, o):
    yield 'a list of valid addresses is accepted', Not(addresses_valid(o)) if cx.variant == 'AddressOr' else \
        Not(Or(*[And(c, *[models.validaddr(cx.en, x.s) for x in l]) for c, l in cx.m('addresses').vec()]))


ENTRIES = {'S01': ('Sale', 'Labels'), 'S02': ('Transfer', 'TransferOne', 'CheckedTransfer', 'CheckedTransferOne', 'TransferNft'),
           'S03': ('OnlyOwner', 'OnlyTradable'), 'S04': ('Royalties', 'RoyaltyEntry'), 'S05': ('Addresses', 'AddressOr')}
OK = {'S01': s01, 'S02': s02, 'S03': s03, 'S04': s04, 'S05': s05}
NO = {'S01': s01_fail, 'S02': s02_fail, 'S03': s03_fail, 'S04': s04_fail, 'S05': s05_fail}
PROPS = {p: [(EXEC, v, OK[p]) for v in vs] for p, vs in ENTRIES.items()}
FAILS = {p: [(EXEC, v, NO[p]) for v in vs] for p, vs in ENTRIES.items()}

ASSUMPTIONS = [
    "lists have at most five elements (thorough: six as far as time allows)",
    "external queries may answer anything or fail, consistently within a message",
    "addresses have equal length; usize is 64 bit",
    "models of std and cosmwasm_std are trusted (sampled outcomes are replayed on the native code in every run)",
    "contents of events and attributes are not compared",
]

DEEP = {'vec': 6}
