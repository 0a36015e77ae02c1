"""What the properties of the original marketplace (v1) say about every explored outcome of its messages."""
from spec import *

CR = 'sg_marketplace'
EXEC = CR + '::execute::execute'
SUDO = CR + '::sudo::sudo'
QUERY = CR + '::query::query'
INST = CR + '::execute::instantiate'
MIGR = CR + '::execute::migrate'
REPLY = CR + '::execute::reply'

BUYS = ('SetBid', 'BuyNow', 'BuyFor')
ACCEPTS = ('AcceptBid', 'AcceptCollectionBid')
SALES = BUYS + ACCEPTS
OWNER = ('SetAsk', 'RemoveAsk', 'UpdateAskPrice', 'AcceptBid', 'RejectBid', 'AcceptCollectionBid')
OPERATOR = ('SyncAsk', 'RemoveStaleAsk', 'RemoveStaleBid', 'RemoveStaleCollectionBid')
EXECS = ('SetAsk', 'RemoveAsk', 'UpdateAskPrice', 'SetBid', 'BuyNow', 'BuyFor', 'RemoveBid', 'AcceptBid', 'RejectBid', 'SetCollectionBid',
         'RemoveCollectionBid', 'AcceptCollectionBid', 'SyncAsk', 'RemoveStaleAsk', 'RemoveStaleBid', 'RemoveStaleCollectionBid')
HOOKSUDO = ('AddAskHook', 'AddBidHook', 'RemoveAskHook', 'RemoveBidHook', 'AddSaleHook', 'RemoveSaleHook')
SUDOS = ('UpdateParams', 'AddOperator', 'RemoveOperator') + HOOKSUDO
ALL = [(EXEC, v) for v in EXECS] + [(SUDO, v) for v in SUDOS]
A, B, C, P = 'asks', 'bids', 'col_bids', 'sudo-params'
AH, BH, SH, CH = 'ask-hooks', 'bid-hooks', 'sale-hooks', 'collection-bid-hooks'
HOOKS = (AH, BH, SH, CH)
U32 = 2 ** 32
SEC = 10 ** 9
BPS = 10 ** 16           # a basis point as the stored percentage writes it
MAXPRICE = 100_000_000_000_000
NATIVE = lit('ustars')


class Contract:
    name = 'v1'
    bounds = dict(vec=2, rows=2)
    keys = {'asks': ('s', 4), 'bids': ('s', 4, 's'), 'col_bids': ('s', 's')}
    vecbound = {}
    keylen = {A: ('s', U32), B: ('s', U32, 's'), C: ('s', 's')}
    tables = {A: CR + '::state::Ask', B: CR + '::state::Bid', C: CR + '::state::CollectionBid', P: CR + '::state::SudoParams',
              **{h: (CR + '::state::SudoParams', 'operators') for h in HOOKS}}

    @staticmethod
    def vecinv(name, l):
        return coins_inv(l) if name.endswith('info.funds') else []

    @staticmethod
    def row_inv(en, ns, ty, key, v):
        r = V(en, v, ty)
        if ns == P:
            return [params_ok(r)] + [Implies(c, distinct(l)) for c, l in r.f('operators').vec()]
        if ns in HOOKS:
            return [Implies(c, distinct(l)) for c, l in r.vec()]
        if ns == A:
            return [Eq(r.f('collection').s, key[0]), Eq(r.f('token_id').i, key[1]), Gt(r.f('price').i, 0), Le(r.f('price').i, MAXPRICE), reserve_ok(r)] + (
                [r.f('is_active').i] if en.bounds.get('page') else [])      # long pages: of active listings
        if ns == B:
            return [Eq(r.f('collection').s, key[0]), Eq(r.f('token_id').i, key[1]), Eq(r.f('bidder').s, key[2]), Gt(r.f('price').i, 0)]
        if ns == C:
            return [Eq(r.f('collection').s, key[0]), Eq(r.f('bidder').s, key[1]), Gt(r.f('price').i, 0)]
        return []

    query_inv = None

    @staticmethod
    def pagepin(cx, page):
        r = pin_options(page, True, cx.m('limit'))
        for off in ('start_after', 'start_before'):
            if cx.has(off):
                r.append(Not(cx.m(off).some))
        if cx.has('include_inactive'):
            ii = cx.m('include_inactive')
            r += [ii.some, ii.val.i]
        return r

    @staticmethod
    def assume(cx):
        return []

    @staticmethod
    def facts(cx, o):
        r = list(cx.funds_assume())
        if cx.info is not None:
            r.append(Not(Eq(cx.sender, cx.me)))
        return r


def distinct(l):
    return And(*[Not(Eq(a.s, b.s)) for i, a in enumerate(l) for b in l[:i]])


def params_ok(r):
    cs = [Le(r.f(f).i, 10000 * BPS) for f in ('trading_fee_percent', 'max_finders_fee_percent', 'bid_removal_reward_percent')]
    for f in ('ask_expiry', 'bid_expiry'):
        cs.append(Le(r.f(f + '.min').i, r.f(f + '.max').i))
    cs.append(r.f('stale_bid_duration').is_('Time'))
    return And(*cs)


def reserve_ok(r):
    rf = r.f('reserve_for')
    return Implies(rf.some, And(r.f('sale_type').is_('FixedPrice'), Not(Eq(rf.val.s, r.f('seller').s)))) if rf.val is not None else True


def params(o):
    return o.pre(P)[1]


def tok_text(cx, n):
    return store.code(models.textnum(cx.en, n))


def coll(cx):
    return cx.m('collection').s


def ak(cx):
    """key of the NFT the message names"""
    return coll(cx), cx.m('token_id').i


def bk(cx):
    """key of the bid the message names"""
    who = cx.sender if cx.variant in BUYS + ('RemoveBid',) else cx.m('bidder').s
    return coll(cx), cx.m('token_id').i, who


def ck(cx):
    who = cx.sender if cx.variant in ('SetCollectionBid', 'RemoveCollectionBid') else cx.m('bidder').s
    return coll(cx), who


def skolems(cx, ns, pre=''):
    return tuple(cx.skolem(f'{pre}{ns}{i}', w) for i, w in enumerate(Contract.keylen[ns]))


def step(o, ns, key):
    p0, v0 = o.pre(ns, *key)
    p1, v1 = o.post(ns, *key)
    return p0, v0, p1, v1, Or(And(p0, Not(p1)), And(Not(p0), p1), And(p0, p1, Not(veq(v0, v1))))


def same_but(a, b, *fields):
    return And(*[valeq(a.en, ft, a.en.field(a.v, i), b.en.field(b.v, i)) for i, (fn, ft) in enumerate(a.ty['v'][0]['f']) if fn not in fields])


def opt(v, default=0):
    """(some, text)"""
    return v.some, (v.val.s if v.val is not None else default)


def optn(v):
    return v.some, (v.val.i if v.val is not None else 0)


def expired(r, cx):
    return Le(r.f('expires_at').i, cx.now)


def sale(cx, o):
    """(condition that this message sells an NFT, price, seller, buyer, seller's funds go to, finder's fee in bps, NFT goes to)"""
    v = cx.variant
    if v in BUYS:
        p0, a, p1, _, _ = step(o, A, ak(cx))
        S = And(p0, Not(p1))
        fr, frs = opt(a.f('funds_recipient'))
        to = cx.m('asset_recipient').s if v == 'BuyFor' else cx.sender
        ff, ffn = optn(a.f('finders_fee_bps'))
        return S, a.f('price').i, a.f('seller').s, cx.sender, If(fr, frs, a.f('seller').s), If(ff, ffn, 0), to
    p, b = o.pre(B, *bk(cx)) if v == 'AcceptBid' else o.pre(C, *ck(cx))
    ff, ffn = optn(b.f('finders_fee_bps'))
    return True, b.f('price').i, cx.sender, cx.m('bidder').s, cx.sender, If(ff, ffn, 0), cx.m('bidder').s


def royalty(o, c):
    has, rec, share = False, 0, 0
    for addr, get, okc, ans, notok in o.asked('CollectionInfo'):
        ri = ans.f('royalty_info')
        if ri.val is None:
            continue
        cc = And(okc, Eq(addr, c), ri.some, Gt(ri.val.f('share').i, 0))
        has, rec, share = Or(cc, has), If(cc, ri.val.f('payment_address').s, rec), If(cc, ri.val.f('share').i, share)
    return has, rec, share


def burned(o, d):
    """native coins burnt or handed to the burn pool"""
    return plus(*[m.coin(d) for m in o.msgs if m.kind == 'burn' or (m.kind == 'custom' and m.to == 'FundFairburnPool')])


def native(d, x):
    return If(Eq(d, NATIVE), x, 0)


def refund(cx, o):
    """(recipient, amount) of the bid this message replaces, withdraws or rejects"""
    v = cx.variant
    if v in BUYS + ('RemoveBid', 'RejectBid', 'RemoveStaleBid'):
        p, b = o.pre(B, *bk(cx))
    elif v in ('SetCollectionBid', 'RemoveCollectionBid', 'RemoveStaleCollectionBid'):
        p, b = o.pre(C, *ck(cx))
    else:
        return 0, 0
    return b.f('bidder').s, If(p, b.f('price').i, 0)


# ------------------------------------------------------------------------------------------------ L01
def l01(cx, o):
    d = cx.skolem('denom')
    val = lambda r: native(d, r.f('price').i)
    held = plus(o.total(B, val), o.total(C, val))
    got = cx.funds(d) if cx.info is not None else 0
    yield 'attached minus sent equals change of escrowed bids', Eq(minus(got, o.paid(d)), held)
    for m in o.msgs:
        if m.kind == 'exec':
            yield 'contracts are only told to transfer NFTs or about events', Implies(m.guard, Or(m.is_exec('TransferNft'), *[m.is_exec(h) for h in HOOKMSGS]))
        elif m.kind == 'custom':
            yield 'only the burn pool is funded', Implies(m.guard, m.to == 'FundFairburnPool')
        if m.kind != 'exec' or True:
            yield 'a failing payment or transfer reverts the message', Implies(And(m.guard, Not(Or(*[m.is_exec(h) for h in HOOKMSGS])) if m.kind == 'exec' else m.guard),
                                                                               Or(m.reply.is_('Never'), m.reply.is_('Success')))


# ------------------------------------------------------------------------------------------------ L02
def l02(cx, o):
    S, price, seller, buyer, fundsto, ffbps, to = sale(cx, o)
    d, r = cx.skolem('denom'), cx.skolem('rcpt')
    fee = div(mul(price, params(o).f('trading_fee_percent').i), 100 * DEC)
    fs, finder = opt(cx.m('finder'))
    ffee = If(fs, div(mul(price, ffbps), 10000), 0)
    has, rec, share = royalty(o, coll(cx))
    roy = If(has, div(mul(price, share), DEC), 0)
    rest = minus(minus(minus(price, fee), ffee), roy)
    bto, back = refund(cx, o) if cx.variant in BUYS else (0, 0)
    want = plus(If(And(fs, Eq(finder, r)), ffee, 0), If(And(has, Eq(rec, r)), roy, 0), If(Eq(fundsto, r), rest, 0))
    want = plus(If(S, want, 0), If(Eq(bto, r), back, 0))
    yield 'fees within the price', Implies(S, Ge(rest, 0))
    yield 'the network fee is burned', Eq(burned(o, d), native(d, If(S, fee, 0)))
    yield 'finder, royalty recipient and seller get their parts', Eq(o.sent(r, d), native(d, want))


# ------------------------------------------------------------------------------------------------ L03
def owner_is_sender(cx, o):
    r = False
    for addr, get, okc, ans, notok in o.asked('OwnerOf'):
        r = Or(r, And(okc, Eq(addr, coll(cx)), Eq(get('token_id').s, tok_text(cx, cx.m('token_id').i)), Eq(ans.f('owner').s, cx.sender)))
    return r


def l03(cx, o):
    v = cx.variant
    if v in OWNER:
        yield 'only the NFT\'s owner', owner_is_sender(cx, o)
    if v in OPERATOR:
        r = False
        for c, l in params(o).f('operators').vec():
            r = Or(r, And(c, Or(*[Eq(x.s, cx.sender) for x in l])))
        yield 'only an operator', r
    # which rows each message may touch
    k = skolems(cx, A)
    p0, v0, p1, v1, ch = step(o, A, k)
    if v in ('SetAsk', 'RemoveAsk', 'UpdateAskPrice', 'SyncAsk', 'RemoveStaleAsk') + SALES:
        yield 'only the named listing', Implies(ch, store.eqkey(k, ak(cx)))
        if v in SALES:
            yield 'a sale only ends the listing', Implies(ch, And(p0, Not(p1)))
    else:
        yield 'listings untouched', Not(ch)
    k = skolems(cx, B)
    p0, v0, p1, v1, ch = step(o, B, k)
    if v in BUYS:
        yield 'only the buyer\'s own bid', Implies(ch, store.eqkey(k, bk(cx)))
    elif v in ('RemoveBid', 'AcceptBid', 'RejectBid', 'RemoveStaleBid'):
        yield 'only the named bid, removed', Implies(ch, And(store.eqkey(k, bk(cx)), p0, Not(p1)))
        yield 'the named bid exists', o.pre(B, *bk(cx))[0]
    else:
        yield 'bids untouched', Not(ch)
    k = skolems(cx, C)
    p0, v0, p1, v1, ch = step(o, C, k)
    if v == 'SetCollectionBid':
        yield 'only the bidder\'s own collection bid', Implies(ch, store.eqkey(k, ck(cx)))
    elif v in ('RemoveCollectionBid', 'AcceptCollectionBid', 'RemoveStaleCollectionBid'):
        yield 'only the named collection bid, removed', Implies(ch, And(store.eqkey(k, ck(cx)), p0, Not(p1)))
        yield 'the named collection bid exists', o.pre(C, *ck(cx))[0]
    else:
        yield 'collection bids untouched', Not(ch)


# ------------------------------------------------------------------------------------------------ L04
def expiry_ok(cx, o, t, which):
    e = params(o).f(which)
    return And(Gt(t, plus(cx.now, mul(e.f('min').i, SEC))), Le(t, plus(cx.now, mul(e.f('max').i, SEC))))


def l04(cx, o):
    v = cx.variant
    if v in BUYS:
        S, price, seller, buyer, *_ = sale(cx, o)
        p0, a = o.pre(A, *ak(cx))
        rs, rfor = opt(a.f('reserve_for'))
        yield 'the listing has not expired', Implies(S, Not(expired(a, cx)))
        yield 'the listing is active', Implies(S, a.f('is_active').i)
        yield 'the listing is not reserved for another', Implies(And(S, rs), Eq(rfor, cx.sender))
        own = False
        for addr, get, okc, ans, notok in o.asked('OwnerOf'):
            own = Or(own, And(okc, Eq(addr, coll(cx)), Eq(get('token_id').s, tok_text(cx, cx.m('token_id').i)), Eq(ans.f('owner').s, a.f('seller').s)))
        yield 'the lister still owns the NFT', Implies(S, own)
    if v in ACCEPTS:
        p, b = o.pre(B, *bk(cx)) if v == 'AcceptBid' else o.pre(C, *ck(cx))
        yield 'the bid has not expired', And(p, Not(expired(b, cx)))
    for ns, which in ((A, 'ask_expiry'), (B, 'bid_expiry'), (C, 'bid_expiry')):
        for key, op, ov, np, nv in o.writes(ns):
            if nv is None or np is False:
                continue
            t = nv.f('expires_at').i
            kept = And(op, Eq(ov.f('expires_at').i, t)) if ov is not None and v in ('UpdateAskPrice', 'SyncAsk') else False
            yield 'expiry within the configured range', Implies(np, Or(kept, expiry_ok(cx, o, t, which)))


# ------------------------------------------------------------------------------------------------ L05
def opt_same(a, b, num=False):
    c = Eq(a.some, b.some)
    if a.val is None or b.val is None:
        return c
    return And(c, Implies(a.some, Eq(a.val.i, b.val.i) if num else Eq(a.val.s, b.val.s)))


def l05(cx, o):
    v = cx.variant
    k = skolems(cx, A)
    p0, v0, p1, v1, ch = step(o, A, k)
    if v in ('SetAsk', 'UpdateAskPrice'):
        p = params(o)
        price, pr = cx.m('price'), None
        q0, a0, q1, a1, _ = step(o, A, ak(cx))
        yield 'stored', q1
        yield 'native price within bounds', And(Eq(price.f('denom').s, NATIVE), Ge(a1.f('price').i, p.f('min_price').i), Gt(a1.f('price').i, 0),
                                                Le(a1.f('price').i, MAXPRICE))
        yield 'the requested price', Eq(a1.f('price').i, price.f('amount').i)
    if v == 'SetAsk':
        yield 'stored as requested', And(Eq(a1.f('collection').s, coll(cx)), Eq(a1.f('token_id').i, cx.m('token_id').i), Eq(a1.f('seller').s, cx.sender),
                                         veq(a1.f('sale_type'), cx.m('sale_type')), opt_same(a1.f('funds_recipient'), cx.m('funds_recipient')),
                                         opt_same(a1.f('reserve_for'), cx.m('reserve_for')), opt_same(a1.f('finders_fee_bps'), cx.m('finders_fee_bps'), True),
                                         Eq(a1.f('expires_at').i, cx.m('expires').i), a1.f('is_active').i)
        fs, fb = optn(a1.f('finders_fee_bps'))
        yield 'finder\'s fee within the cap', Implies(fs, Le(mul(fb, BPS), p.f('max_finders_fee_percent').i))
        yield 'reserved only at a fixed price for another', reserve_ok(a1)
        ap = False
        for addr, get, okc, ans, notok in o.asked('Approval'):
            ap = Or(ap, And(okc, Eq(addr, coll(cx)), Eq(get('token_id').s, tok_text(cx, cx.m('token_id').i)), Eq(get('spender').s, cx.me)))
        yield 'the marketplace is approved', ap
        d = cx.skolem('denom')
        yield 'exactly the listing fee is attached', Eq(cx.funds(d), native(d, p.f('listing_fee').i))
        yield 'the listing fee is burned', Eq(burned(o, d), native(d, p.f('listing_fee').i))
    elif v == 'UpdateAskPrice':
        yield 'only the price changes', And(q0, same_but(a0, a1, 'price'))
        yield 'no fee', cx.no_funds()
    else:
        yield 'no other message sets a price or terms', Implies(p1, And(p0, same_but(v0, v1, 'is_active')))
    yield 'stored under its own collection and token', Implies(p1, And(Eq(v1.f('collection').s, k[0]), Eq(v1.f('token_id').i, k[1])))
    yield 'listings stay well formed', Implies(p1, And(*Contract.row_inv(cx.en, A, v1.t, k, v1.v)))


# ------------------------------------------------------------------------------------------------ L06
def l06(cx, o):
    v = cx.variant
    d, r = cx.skolem('denom'), cx.skolem('rcpt')
    to, back = refund(cx, o)
    p = params(o)
    if v in BUYS + ('SetCollectionBid',):
        ns, key = (C, ck(cx)) if v == 'SetCollectionBid' else (B, bk(cx))
        S = False if v == 'SetCollectionBid' else sale(cx, o)[0]
        q1, b = o.post(ns, *key)
        yield 'the bid rests unless it bought', Implies(Not(S), q1)
        yield 'exactly one native coin is attached', Eq(cx.funds(d), native(d, cx.funds(NATIVE)))
        yield 'the price is the attached payment', Implies(q1, And(Eq(b.f('price').i, cx.funds(NATIVE)), Gt(b.f('price').i, 0), Ge(b.f('price').i, p.f('min_price').i)))
        fs, fb = optn(b.f('finders_fee_bps'))
        yield 'finder\'s fee within the cap', Implies(And(q1, fs), Le(mul(fb, BPS), p.f('max_finders_fee_percent').i))
        yield 'stored as requested', Implies(q1, And(Eq(b.f('collection').s, coll(cx)), Eq(b.f('bidder').s, cx.sender), Eq(b.f('expires_at').i, cx.m('expires').i),
                                                     opt_same(b.f('finders_fee_bps'), cx.m('finders_fee_bps'), True), Eq(b.f('token_id').i, cx.m('token_id').i) if ns == B else True))
        yield 'the replaced bid is refunded in full, nothing else is paid', Implies(Not(S), And(Eq(o.sent(r, d), native(d, If(Eq(to, r), back, 0))),
                                                                                                Eq(minus(o.paid(d), o.sent(r, d)), native(d, If(Eq(to, r), 0, back)))))
        if S is not False:
            # the refund on top of the sale's payments: the buyer gets at least it
            yield 'a bid replaced by a purchase is refunded too', Implies(S, And(Not(q1), Ge(o.sent(to, NATIVE), back)))
    else:
        yield 'a withdrawn or rejected bid is refunded in full to its bidder', And(Eq(o.sent(r, d), native(d, If(Eq(to, r), back, 0))), Eq(o.paid(d), native(d, back)))
        yield 'the bidder is the one recorded', Eq(to, (bk(cx)[2] if 'Collection' not in v else ck(cx)[1]))
    for ns in (B, C):
        k = skolems(cx, ns, 'w')
        q1, b = o.post(ns, *k)
        yield 'bids stay under their own key', Implies(q1, And(*Contract.row_inv(cx.en, ns, b.t, k, b.v)))


# ------------------------------------------------------------------------------------------------ L07
def l07(cx, o):
    v = cx.variant
    d, r = cx.skolem('denom'), cx.skolem('rcpt')
    approved = noapproval = noowner = False
    here = lambda addr, get: And(Eq(addr, coll(cx)), Eq(get('token_id').s, tok_text(cx, cx.m('token_id').i)))
    for addr, get, okc, ans, notok in o.asked('Approval'):
        h = And(here(addr, get), Eq(get('spender').s, cx.me))
        approved, noapproval = Or(approved, And(h, okc)), Or(noapproval, And(h, notok))
    for addr, get, okc, ans, notok in o.asked('OwnerOf'):
        noowner = Or(noowner, And(here(addr, get), notok))
    if v in ('RemoveStaleBid', 'RemoveStaleCollectionBid'):
        p, b = o.pre(B, *bk(cx)) if v == 'RemoveStaleBid' else o.pre(C, *ck(cx))
        p1, _ = o.post(B, *bk(cx)) if v == 'RemoveStaleBid' else o.post(C, *ck(cx))
        sd = params(o).f('stale_bid_duration')
        yield 'only a stale bid', And(p, Le(plus(b.f('expires_at').i, mul(sd.as_('Time').i, SEC)), cx.now))
        yield 'the bid is gone', Not(p1)
        price = b.f('price').i
        reward = div(mul(price, params(o).f('bid_removal_reward_percent').i), 100 * DEC)
        want = plus(If(Eq(b.f('bidder').s, r), minus(price, reward), 0), If(Eq(cx.sender, r), reward, 0))
        yield 'refund and reward share the price', And(Ge(price, reward), Eq(o.sent(r, d), native(d, want)), Eq(o.paid(d), native(d, price)))
    elif v == 'RemoveStaleAsk':
        p0, a, p1, _, _ = step(o, A, ak(cx))
        yield 'only a stale listing', And(p0, Or(expired(a, cx), noowner, noapproval))
        yield 'the listing is gone', Not(p1)
        yield 'nothing is paid', Eq(o.paid(d), 0)
    else:
        p0, a, p1, b, _ = step(o, A, ak(cx))
        yield 'only the active state changes', And(p0, p1, same_but(a, b, 'is_active'))
        yield 'it equals the approval', Or(And(approved, b.f('is_active').i), And(noapproval, Not(b.f('is_active').i)))
        yield 'nothing is paid', Eq(o.paid(d), 0)


# ------------------------------------------------------------------------------------------------ L08
def l08(cx, o):
    v = cx.variant
    K, T = cx.skolem('coll'), cx.skolem('tok', U32)
    mv = o.nft_moves(K, tok_text(cx, T))
    n = count([g for g, _ in mv])
    if v not in SALES:
        yield 'no NFT moves', Eq(n, 0)
        return
    S, price, seller, buyer, fundsto, ff, to = sale(cx, o)
    this = And(S, Eq(K, coll(cx)), Eq(T, cx.m('token_id').i))
    yield 'a sale sends that NFT once to the buyer or named recipient', Implies(this, And(Eq(n, 1), *[Implies(g, Eq(x, to)) for g, x in mv]))
    yield 'no other NFT moves', Implies(Not(this), Eq(n, 0))
    p0, a, p1, _, _ = step(o, A, ak(cx))
    yield 'the listing is gone after a sale', Implies(S, Not(p1))
    if v in BUYS:
        pay = cx.funds(NATIVE)
        fixed = a.f('sale_type').is_('FixedPrice')
        yield 'a fixed-price listing sells exactly at its price', Implies(And(p0, fixed), And(Eq(S, Eq(pay, a.f('price').i)), Le(pay, a.f('price').i)))
        yield 'a bid below an auction\'s price is rejected, others rest', Implies(And(p0, Not(fixed)), And(Not(S), Ge(pay, a.f('price').i)))
        yield 'any other bid rests', Implies(Not(S), And(o.post(B, *bk(cx))[0], Eq(p0, p1)))
        if v != 'SetBid':
            yield 'a purchase needs a listing', p0
    elif v == 'AcceptBid':
        yield 'the accepted bid exists and is gone', And(o.pre(B, *bk(cx))[0], Not(o.post(B, *bk(cx))[0]))
    else:
        yield 'the accepted bid exists and is gone', And(o.pre(C, *ck(cx))[0], Not(o.post(C, *ck(cx))[0]))


# ------------------------------------------------------------------------------------------------ L09
PCT = {'trading_fee_bps': 'trading_fee_percent', 'max_finders_fee_bps': 'max_finders_fee_percent', 'bid_removal_reward_bps': 'bid_removal_reward_percent'}


def member(lst, a):
    return Or(*[And(c, Or(*[Eq(x.s, a) for x in l])) for c, l in lst.vec()])


def alldistinct(lst):
    return And(*[Implies(c, distinct(l)) for c, l in lst.vec()])


def expiry_eq(a, b):
    return And(Eq(a.f('min').i, b.f('min').i), Eq(a.f('max').i, b.f('max').i))


def l09(cx, o):
    v = cx.variant
    p1, c1 = o.post(P)
    who = cx.skolem('member')
    if cx.entryname == MIGR:
        yield 'an upgrade changes no state', o.untouched(A, B, C, P, *HOOKS)
        return
    if cx.entryname == INST:
        yield 'parameters within bounds', And(p1, params_ok(c1))
        for f, g in PCT.items():
            yield 'the given parameters', Eq(c1.f(g).i, mul(cx.m(f).i, BPS))
        for f in ('ask_expiry', 'bid_expiry'):
            yield 'the given parameters', expiry_eq(c1.f(f), cx.m(f))
        for f in ('min_price', 'listing_fee'):
            yield 'the given parameters', Eq(c1.f(f).i, cx.m(f).i)
        yield 'the given parameters', veq(c1.f('stale_bid_duration'), cx.m('stale_bid_duration'))
        yield 'exactly the given operators, each once', And(alldistinct(c1.f('operators')), Eq(member(c1.f('operators'), who), member(cx.m('operators'), who)))
        sh = cx.m('sale_hook')
        hp, hl = o.pre(SH)
        qp, ql = o.post(SH)
        new, old = And(qp, member(ql, who)), And(hp, member(hl, who))
        yield 'the given sale hook', Eq(new, Or(old, And(sh.some, Eq(sh.val.s, who)) if sh.val is not None else False))
        yield 'nothing else is stored', o.untouched(A, B, C, AH, BH, CH)
        return
    if cx.entryname == EXEC:
        yield 'parameters and hooks stay', o.untouched(P, *HOOKS)
        return
    p0, c0 = o.pre(P)
    yield 'orders stay', o.untouched(A, B, C)
    if v == 'UpdateParams':
        yield 'parameters within bounds', And(p1, params_ok(c1))
        for f, g in PCT.items():
            x = cx.m(f)
            same = Eq(c1.f(g).i, c0.f(g).i)
            yield 'exactly the given parameters change', If(x.some, Eq(c1.f(g).i, mul(x.val.i, BPS)), same) if x.val is not None else same
        for f in ('ask_expiry', 'bid_expiry'):
            x = cx.m(f)
            same = expiry_eq(c1.f(f), c0.f(f))
            yield 'exactly the given parameters change', If(x.some, expiry_eq(c1.f(f), x.val), same) if x.val is not None else same
        for f in ('min_price', 'listing_fee'):
            x = cx.m(f)
            same = Eq(c1.f(f).i, c0.f(f).i)
            yield 'exactly the given parameters change', If(x.some, Eq(c1.f(f).i, x.val.i), same) if x.val is not None else same
        x = cx.m('stale_bid_duration')
        s0, s1 = c0.f('stale_bid_duration').as_('Time').i, c1.f('stale_bid_duration').as_('Time').i
        yield 'exactly the given parameters change', If(x.some, Eq(s1, x.val.i), Eq(s0, s1)) if x.val is not None else Eq(s0, s1)
        yield 'operators stay', veq(c0.f('operators'), c1.f('operators'))
        yield 'hooks stay', o.untouched(*HOOKS)
    elif v in ('AddOperator', 'RemoveOperator'):
        x = cx.m('operator').s
        was, now = member(c0.f('operators'), who), member(c1.f('operators'), who)
        yield 'only this operator changes', Implies(Not(Eq(x, who)), Eq(was, now))
        yield 'this operator is added or removed', Implies(Eq(x, who), And(Not(was), now) if v == 'AddOperator' else And(was, Not(now)))
        yield 'no operator twice', alldistinct(c1.f('operators'))
        yield 'no other parameter changes', And(p1, same_but(c0, c1, 'operators'))
        yield 'hooks stay', o.untouched(*HOOKS)
    else:
        ns = AH if 'Ask' in v else BH if 'Bid' in v else SH
        x = cx.m('hook').s
        h0, l0 = o.pre(ns)
        h1, l1 = o.post(ns)
        was, now = And(h0, member(l0, who)), And(h1, member(l1, who))
        yield 'only this hook changes', Implies(Not(Eq(x, who)), Eq(was, now))
        yield 'this hook is added or removed', Implies(Eq(x, who), And(Not(was), now) if v.startswith('Add') else And(was, Not(now)))
        yield 'no hook twice', alldistinct(l1)
        yield 'nothing else changes', o.untouched(P, *[h for h in HOOKS if h != ns])


# ------------------------------------------------------------------------------------------------ L10
HOOKMSGS = ('AskCreatedHook', 'AskUpdatedHook', 'AskDeletedHook', 'BidCreatedHook', 'BidUpdatedHook', 'BidDeletedHook', 'CollectionBidCreatedHook',
            'CollectionBidUpdatedHook', 'CollectionBidDeletedHook', 'SaleHook')


def hook_event(cx, o):
    """[(kind of hook, message, condition, check of the payload)] of the events of this message"""
    v = cx.variant
    r = []

    def same(name, x):
        return lambda pl: veq(pl.f(name), x)
    if v in ('SetAsk', 'UpdateAskPrice', 'SyncAsk'):
        r.append((AH, 'AskCreatedHook' if v == 'SetAsk' else 'AskUpdatedHook', True, same('ask', o.post(A, *ak(cx))[1])))
    if v in ('RemoveAsk', 'RemoveStaleAsk'):
        r.append((AH, 'AskDeletedHook', True, same('ask', o.pre(A, *ak(cx))[1])))
    if v in SALES:
        S, price, seller, buyer, *_ = sale(cx, o)
        r.append((SH, 'SaleHook', S, lambda pl: And(Eq(pl.f('collection').s, coll(cx)), Eq(pl.f('token_id').i, cx.m('token_id').i), Eq(pl.f('price.denom').s, NATIVE),
                                                    Eq(pl.f('price.amount').i, price), Eq(pl.f('seller').s, seller), Eq(pl.f('buyer').s, buyer))))
    if v in BUYS:
        r.append((BH, 'BidCreatedHook', Not(S), same('bid', o.post(B, *bk(cx))[1])))
    if v in ('RemoveBid', 'RejectBid', 'RemoveStaleBid'):
        r.append((BH, 'BidDeletedHook', True, same('bid', o.pre(B, *bk(cx))[1])))
    if v == 'SetCollectionBid':
        r.append((CH, 'CollectionBidCreatedHook', True, same('collection_bid', o.post(C, *ck(cx))[1])))
    if v in ('RemoveCollectionBid', 'RemoveStaleCollectionBid'):
        r.append((CH, 'CollectionBidDeletedHook', True, same('collection_bid', o.pre(C, *ck(cx))[1])))
    return r


def l10(cx, o):
    if cx.entryname == REPLY:
        yield 'a reply changes no state', o.untouched(A, B, C, P, *HOOKS)
        yield 'a reply sends nothing', Not(Or(*[m.guard for m in o.msgs]))
        return
    en = cx.en
    hook = cx.skolem('hook')
    evs = hook_event(cx, o)
    for name in HOOKMSGS:
        ms = [(m.is_exec(name), m) for m in o.msgs if m.kind == 'exec']
        ms = [(g, m) for g, m in ms if g is not False]
        mine = [e for e in evs if e[1] == name]
        n = count([And(g, Eq(m.to, hook)) for g, m in ms])
        if not mine:
            yield 'no notice of an event that did not happen', Eq(n, 0)
            continue
        ns, _, happened, payload = mine[0]
        p, l = o.pre(ns)
        reg = And(p, member(l, hook))
        yield 'each registered hook is told exactly once', Eq(n, If(And(happened, reg), 1, 0))
        for g, m in ms:
            yield 'with the order\'s data', Implies(g, payload(m.arg(name, 0)))
            yield 'without funds', Implies(g, Or(*[c for c, l in m.coins if not l]))
            yield 'a failing hook is caught', Implies(g, And(Or(m.reply.is_('Error'), m.reply.is_('Always')), Ge(m.id, 1), Le(m.id, 4)))


def l10_fail(cx, o):
    """the reply to a failed hook"""
    m = cx.m('id').i
    yield 'the reply to a failed hook never fails', Not(And(Ge(m, 1), Le(m, 4), cx.m('result').is_('Err')))


# ------------------------------------------------------------------------------------------------ L11
def l11(cx, o):
    v = cx.variant
    ans = o.answer
    get = cx.m
    if v == 'Params':
        p, c = o.pre(P)
        yield 'the stored parameters', And(p, veq(ans.f('params'), c))
        return
    if v in ('AskHooks', 'BidHooks', 'SaleHooks'):
        p, l = o.pre({'AskHooks': AH, 'BidHooks': BH, 'SaleHooks': SH}[v])
        for c, xs in ans.f('hooks').vec():
            want = Or(*[And(p, cl, *[Eq(a.s, b.s) for a, b in zip(xs, ys)]) for cl, ys in l.vec() if len(ys) == len(xs)])
            yield 'the stored hooks', Implies(c, Or(want, And(Not(p), not xs)))
        return
    if v in ('Ask', 'Bid', 'CollectionBid'):
        ns, key, f = {'Ask': (A, ('collection', 'token_id'), 'ask'), 'Bid': (B, ('collection', 'token_id', 'bidder'), 'bid'), 'CollectionBid': (C, ('collection', 'bidder'), 'bid')}[v]
        p, row = o.pre(ns, *[get(k).i if k == 'token_id' else get(k).s for k in key])
        a = ans.f(f)
        yield 'found exactly when on the book', Eq(a.some, p)
        if a.val is not None:
            yield 'the stored order', Implies(p, veq(a.val, row))
        return
    if v == 'AskCount':
        return
    lim = If(get('limit').some, get('limit').val.i, 10) if get('limit').val is not None else 10
    if v == 'Collections':
        yield from collections(cx, o, lim)
        return
    ns = A if 'Asks' in v else C if 'CollectionBids' in v else B
    desc = v.startswith('Reverse')
    off = get('start_before' if desc else 'start_after')
    inact = True
    if ns == A:
        ii = get('include_inactive')
        inact = And(ii.some, ii.val.i) if ii.val is not None else False
    field = 'bidder' if 'ByBidder' in v else 'seller' if 'BySeller' in v else 'collection'

    def match(r, k):
        cs = [Eq(r.f(field).s, get(field).s)]
        if v == 'Bids':
            cs.append(Eq(r.f('token_id').i, get('token_id').i))
        if ns == A:
            cs.append(Or(inact, r.f('is_active').i))
        return And(*cs)

    price, byexp = 'ByPrice' in v, 'ByExpiration' in v

    def key(r, k):
        if price:
            return (r.f('price').i,) + tuple(k)
        if byexp:
            return (div(r.f('expires_at').i, SEC),) + tuple(k)
        return tuple(k)

    def idof(r):
        return tuple(r.f(f).i if f == 'token_id' else r.f(f).s for f in {A: ('collection', 'token_id'), B: ('collection', 'token_id', 'bidder'), C: ('collection', 'bidder')}[ns])

    def offkey(x):
        """sort key of the offset, and the condition under which it is known"""
        c0 = get('collection').s if field == 'collection' else None
        if v in ('Asks', 'ReverseAsks'):
            return True, (c0, x.i)
        if v == 'Bids':
            return True, (c0, get('token_id').i, x.s)
        if ns == A:
            k = (c0 if c0 is not None else x.f('collection').s, x.f('token_id').i)
        elif ns == B:
            k = (c0 if c0 is not None else x.f('collection').s, x.f('token_id').i, get('bidder').s if field == 'bidder' else x.f('bidder').s)
        else:
            k = (c0 if c0 is not None else x.f('collection').s, get('bidder').s if field == 'bidder' and not byexp else x.f('bidder').s)
        if price:
            return True, (x.f('price').i,) + k
        if byexp:
            # the offset order's expiry is known while it is on the book
            p, row = o.pre(ns, *k)
            return p, (div(row.f('expires_at').i, SEC),) + k
        return True, k
    offset = []
    if off.val is not None:
        known, k = offkey(off.val)
        offset = [(And(off.some, known), k)]
    yield from listing(cx, o, ns, match, key, idof, veq, limit=lim, desc=desc, offset=offset, answer=ans.f('asks' if ns == A else 'bids'))


def collections(cx, o, lim):
    st = cx.m('start_after')
    ans = o.answer.f('collections')
    k = skolems(cx, A)
    p, row = o.pre(A, *k)
    has = And(p, Lt(st.val.s, k[0]) if False else Implies(st.some, Lt(st.val.s, k[0])) if st.val is not None else True)
    for c, cs in ans.vec():
        yield 'at most the limit', Implies(c, Le(len(cs), minimum(lim, 100)))
        for a, b in zip(cs, cs[1:]):
            yield 'sorted, without duplicates', Implies(c, Lt(a.s, b.s))
        if st.val is not None:
            yield 'after the offset', Implies(And(c, st.some), And(*[Lt(st.val.s, x.s) for x in cs]))
        inside = Or(*[Eq(x.s, k[0]) for x in cs])
        yield 'no collection with a listing is skipped', Implies(And(c, has, Not(inside)), And(Ge(len(cs), minimum(lim, 100)), Lt(cs[-1].s, k[0]) if cs else True))


# ------------------------------------------------------------------------------------------------ L12
def l12(cx, o):
    c = coll(cx)
    asked = False
    for addr, get, okc, ans, notok in o.asked('CollectionInfo'):
        here = Eq(addr, c)
        asked = Or(asked, And(here, Or(okc, notok)))
        st = ans.f('start_trading_time')
        if st.val is not None:
            yield 'nothing trades before the start of trading', Implies(And(here, okc, st.some), Le(st.val.i, cx.now))
    yield 'the start of trading is consulted', asked


# ------------------------------------------------------------------------------------------------ L13
NAME, VERSION = 'crates.io:sg-marketplace', cargo_version('contracts/marketplace')


def semver(c):
    """(is a version, its rank in the order of versions)"""
    return Eq(models.uf('semver:ok', (c,), 0, 2), 1), models.uf('semver:rank', (c,), 0, STRMAX)


def l13(cx, o):
    marks = o.st.misc.get('cw2', ())
    own, mine = sym.strcode(VERSION), sym.strcode(NAME)
    if cx.entryname == INST:
        yield 'instantiation records this contract and its version', And(Eq(marks[-1][0], mine), Eq(marks[-1][1], own)) if marks else False
        return
    if cx.entryname != MIGR:
        yield 'nothing else changes the recorded version', not marks
        return
    there, name, version = migrating()
    vok, rank = semver(version)
    yield 'an upgrade is of this contract', And(there, Eq(name, mine))
    yield 'an upgrade never goes back', And(vok, Le(rank, semver(own)[1]))
    if marks:
        yield 'an upgrade records the new version', And(Eq(marks[-1][0], mine), Eq(marks[-1][1], own))
    else:
        yield 'an upgrade records the new version', Eq(rank, semver(own)[1])
    yield 'an upgrade changes nothing else', o.untouched(A, B, C, P, *HOOKS)
    yield 'an upgrade sends nothing', not o.msgs


def migrating():
    return sym.boolvar('cw2!stored'), sym.intvar('cw2!contract', 0, STRMAX), sym.intvar('cw2!version', 0, STRMAX)


def l13_fail(cx, o):
    there, name, version = migrating()
    vok, rank = semver(version)
    yield 'an upgrade from an earlier version succeeds', Not(And(there, Eq(name, sym.strcode(NAME)), vok, Lt(rank, semver(sym.strcode(VERSION))[1])))


# ------------------------------------------------------------------------------------------------ L14, L15
U64 = 2 ** 64
WEALTH = 10 ** 30          # no account holds more


def valid(cx, *names):
    """the addresses the message names are well-formed"""
    r = []
    for n in names:
        if not cx.has(n):
            continue
        x = cx.m(n)
        if x.ty['k'] == 'enum':
            if x.val is not None:
                r.append(Implies(x.some, models.validaddr(cx.en, x.val.s)))
        else:
            r.append(models.validaddr(cx.en, x.s))
    return And(*r)


def answered(cx, o, owner=None, tradable=True):
    """every question asked on the path is answered; the NFT is the given account's; trading has started"""
    r = []
    for kind, addr, mt, msg, okc, ans in o.queries():
        r.append(okc)
    if owner is not None:
        for addr, get, okc, ans, notok in o.asked('OwnerOf'):
            r.append(Implies(okc, Eq(ans.f('owner').s, owner)))
    if tradable:
        for addr, get, okc, ans, notok in o.asked('CollectionInfo'):
            st = ans.f('start_trading_time')
            if st.val is not None:
                r.append(Implies(And(okc, st.some), Le(st.val.i, cx.now)))
    return And(*r)


def single(cx, test):
    """exactly one native coin is attached, of an amount as tested"""
    return Or(*[And(c, Eq(x.f('denom').s, NATIVE), test(x.f('amount').i)) for c, x in cx.funds_single()])


def price_ok(o, price):
    x = price.f('amount').i
    return And(Eq(price.f('denom').s, NATIVE), Gt(x, 0), Ge(x, params(o).f('min_price').i), Le(x, MAXPRICE))


def range_ok(cx, o, which):
    e = params(o).f(which)
    t = cx.m('expires').i
    return And(expiry_ok(cx, o, t, which), Lt(plus(cx.now, mul(e.f('max').i, SEC)), U64), Lt(plus(cx.now, mul(e.f('min').i, SEC)), U64))


def finder_ok(cx, o):
    ff = cx.m('finders_fee_bps')
    r = [Implies(ff.some, Le(mul(ff.val.i, BPS), params(o).f('max_finders_fee_percent').i))] if ff.val is not None else []
    if cx.has('finder') and cx.variant in BUYS:
        fs, f = opt(cx.m('finder'))
        r.append(Not(And(fs, Eq(f, cx.sender))))
    return And(*r)


def fees_fit(cx, o, price, ffbps):
    fee = div(mul(price, params(o).f('trading_fee_percent').i), 100 * DEC)
    fs, finder = opt(cx.m('finder'))
    has, rec, share = royalty(o, coll(cx))
    roy = If(has, div(mul(price, share), DEC), 0)
    return And(Le(plus(plus(fee, If(fs, div(mul(price, ffbps), 10000), 0)), roy), price), Le(price, WEALTH), Le(ffbps, 10000))


def l14_fail(cx, o):
    """withdrawals are never refused"""
    v = cx.variant
    if v == 'RemoveAsk':
        yield 'the owner can take a listing off the book', Not(And(cx.no_funds(), valid(cx, 'collection'), answered(cx, o, cx.sender, False), o.pre(A, *ak(cx))[0]))
    elif v == 'RemoveBid':
        yield 'a bidder can withdraw a bid', Not(And(cx.no_funds(), valid(cx, 'collection'), answered(cx, o, None, False), o.pre(B, *bk(cx))[0]))
    elif v == 'RemoveCollectionBid':
        yield 'a bidder can withdraw a collection bid', Not(And(cx.no_funds(), valid(cx, 'collection'), answered(cx, o, None, False), o.pre(C, *ck(cx))[0]))
    elif v == 'RejectBid':
        yield 'the owner can reject a bid', Not(And(cx.no_funds(), valid(cx, 'collection', 'bidder'), answered(cx, o, cx.sender, False), o.pre(B, *bk(cx))[0]))
    else:
        p, b = o.pre(B, *bk(cx)) if v == 'RemoveStaleBid' else o.pre(C, *ck(cx))
        pp, pr = o.pre(P)
        op = Or(*[And(c, Or(*[Eq(x.s, cx.sender) for x in l])) for c, l in pr.f('operators').vec()])
        t = plus(b.f('expires_at').i, mul(pr.f('stale_bid_duration').as_('Time').i, SEC))
        yield 'an operator can clear a stale bid', Not(And(cx.no_funds(), valid(cx, 'collection', 'bidder'), answered(cx, o, None, False), p, pp, op, Lt(t, U64), Le(t, cx.now), Le(b.f('price').i, WEALTH)))


def l15_fail(cx, o):
    """orders and sales that meet the rules are never refused"""
    v = cx.variant
    pp, pr = o.pre(P)
    common = [pp, valid(cx, 'collection', 'bidder', 'finder', 'funds_recipient', 'reserve_for', 'asset_recipient')]
    pa, a = o.pre(A, *ak(cx)) if cx.has('token_id') else (False, None)
    if v == 'SetAsk':
        fee = pr.f('listing_fee').i
        rs, rf = opt(cx.m('reserve_for'))
        yield 'a listing that meets the rules is taken', Not(And(
            *common, price_ok(o, cx.m('price')), answered(cx, o, cx.sender), range_ok(cx, o, 'ask_expiry'), finder_ok(cx, o),
            Or(And(Eq(fee, 0), cx.no_funds()), single(cx, lambda x: Eq(x, fee))),
            Implies(rs, And(cx.m('sale_type').is_('FixedPrice'), Not(Eq(rf, cx.sender))))))
    elif v == 'UpdateAskPrice':
        yield 'the owner can change the price of a live listing', Not(And(
            *common, cx.no_funds(), answered(cx, o, cx.sender), price_ok(o, cx.m('price')), pa, a.f('is_active').i, Not(expired(a, cx))))
    elif v in BUYS:
        rs, rfor = opt(a.f('reserve_for'))
        live = And(a.f('is_active').i, Not(expired(a, cx)), Implies(rs, Eq(rfor, cx.sender)))
        fixed = a.f('sale_type').is_('FixedPrice')
        price = a.f('price').i
        ff, ffn = optn(a.f('finders_fee_bps'))
        common += [finder_ok(cx, o), range_ok(cx, o, 'bid_expiry')]
        paid = lambda f: single(cx, lambda x: And(Ge(x, pr.f('min_price').i), f(x)))
        if v == 'SetBid':
            yield 'a bid on an unlisted NFT is taken', Not(And(*common, Not(pa), paid(lambda x: True), answered(cx, o)))
        yield 'a bid below a fixed price rests', Not(And(*common, pa, live, fixed, paid(lambda x: Lt(x, price)), answered(cx, o)))
        yield 'a bid of at least an auction\'s price rests', Not(And(*common, pa, live, Not(fixed), paid(lambda x: Ge(x, price)), answered(cx, o)))
        yield 'a payment of the fixed price buys', Not(And(*common, pa, live, fixed, paid(lambda x: Eq(x, price)), answered(cx, o, a.f('seller').s),
                                                           fees_fit(cx, o, price, If(ff, ffn, 0))))
    elif v == 'SetCollectionBid':
        yield 'a collection bid that meets the rules is taken', Not(And(
            *common, finder_ok(cx, o), range_ok(cx, o, 'bid_expiry'), single(cx, lambda x: Ge(x, pr.f('min_price').i)), answered(cx, o)))
    elif v in ACCEPTS:
        p, b = o.pre(B, *bk(cx)) if v == 'AcceptBid' else o.pre(C, *ck(cx))
        ff, ffn = optn(b.f('finders_fee_bps'))
        yield 'the owner can accept a live bid', Not(And(
            *common, cx.no_funds(), answered(cx, o, cx.sender), p, Not(expired(b, cx)), fees_fit(cx, o, b.f('price').i, If(ff, ffn, 0))))
    elif v in ('SyncAsk', 'RemoveStaleAsk'):
        op = Or(*[And(c, Or(*[Eq(x.s, cx.sender) for x in l])) for c, l in pr.f('operators').vec()])
        common += [cx.no_funds(), op, pa]
        bad = Or(*[notok for k in ('Approval', 'OwnerOf') for addr, get, okc, ans, notok in o.asked(k)])
        if v == 'SyncAsk':
            approved = Or(*[okc for addr, get, okc, ans, notok in o.asked('Approval')])
            yield 'an operator can bring a listing in line with its approval', Not(And(*common, Or(And(bad, a.f('is_active').i), And(approved, Not(a.f('is_active').i)))))
        else:
            yield 'an operator can remove a stale listing', Not(And(*common, Or(bad, expired(a, cx))))


# ------------------------------------------------------------------------------------------------ L16
def l16(cx, o):
    if cx.variant in SALES:
        S, price, *_ = sale(cx, o)
        fee = div(mul(price, params(o).f('trading_fee_percent').i), 100 * DEC)
    else:
        fee = params(o).f('listing_fee').i
    one = Eq(fee, 1)         # sg1 splits a fee of one into nothing and one
    for m in o.msgs:
        full = And(*[Implies(c, And(len(l) > 0, *[Gt(x.f('amount').i, 0) for x in l])) for c, l in m.coins])
        if m.kind == 'send':
            yield 'no empty payment', Implies(m.guard, full)
        elif m.kind in ('burn', 'custom'):
            yield 'no empty fee', Implies(m.guard, Or(full, one))

QUERIES = ('Collections', 'Ask', 'Asks', 'ReverseAsks', 'AsksSortedByPrice', 'ReverseAsksSortedByPrice', 'AsksBySeller', 'Bid',
           'BidsByBidder', 'BidsByBidderSortedByExpiration', 'Bids', 'BidsSortedByPrice', 'ReverseBidsSortedByPrice', 'CollectionBid',
           'CollectionBidsByBidder', 'CollectionBidsByBidderSortedByExpiration', 'CollectionBidsSortedByPrice', 'ReverseCollectionBidsSortedByPrice',
           'AskHooks', 'BidHooks', 'SaleHooks', 'Params')
# ------------------------------------------------------------------------------------------------ L17
def l17_fail(cx, o):
    v = cx.variant
    good = [addresses_valid(o)]
    if cx.entryname == INST:
        good += [Le(cx.m(f).i, 10000) for f in PCT] + [Le(cx.m(f + '.min').i, cx.m(f + '.max').i) for f in ('ask_expiry', 'bid_expiry')]
        good.append(cx.m('stale_bid_duration').is_('Time'))
        sh = cx.m('sale_hook')
        hp, hl = o.pre(SH)
        if sh.val is not None:
            good.append(Implies(sh.some, Not(And(hp, member(hl, sh.val.s)))))
    elif v == 'UpdateParams':
        good.append(o.pre(P)[0])
        good += [Implies(cx.m(f).some, Le(cx.m(f).val.i, 10000)) for f in PCT if cx.m(f).val is not None]
        good += [Implies(cx.m(f).some, Le(cx.m(f).val.f('min').i, cx.m(f).val.f('max').i)) for f in ('ask_expiry', 'bid_expiry') if cx.m(f).val is not None]
    elif v in ('AddOperator', 'RemoveOperator'):
        p, c = o.pre(P)
        there = member(c.f('operators'), cx.m('operator').s)
        good += [p, Not(there) if v == 'AddOperator' else there]
    else:
        h, l = o.pre(AH if 'Ask' in v else BH if 'Bid' in v else SH)
        there = And(h, member(l, cx.m('hook').s))
        good.append(Not(there) if v.startswith('Add') else there)
    yield 'a valid message is not refused', Not(And(*good))


PROPS = {
    'L01': [(EXEC, v, l01) for v in EXECS],
    'L02': [(EXEC, v, l02) for v in SALES],
    'L03': [(EXEC, v, l03) for v in EXECS],
    'L04': [(EXEC, v, l04) for v in EXECS],
    'L05': [(EXEC, v, l05) for v in EXECS],
    'L06': [(EXEC, v, l06) for v in BUYS + ('SetCollectionBid', 'RemoveBid', 'RemoveCollectionBid', 'RejectBid')],
    'L07': [(EXEC, v, l07) for v in OPERATOR],
    'L08': [(EXEC, v, l08) for v in EXECS],
    'L09': [(e, v, l09) for e, v in ALL] + [(INST, None, l09), (MIGR, None, l09)],
    'L10': [(EXEC, v, l10) for v in EXECS] + [(REPLY, None, l10)],
    'L11': [(QUERY, v, l11) for v in QUERIES],
    'L12': [(EXEC, v, l12) for v in ('SetAsk', 'AcceptBid', 'AcceptCollectionBid')],
    'L16': [(EXEC, v, l16) for v in EXECS],
    'L13': [(e, v, l13) for e, v in ALL] + [(INST, None, l13), (MIGR, None, l13), (REPLY, None, l13)],
}
PROPS['L14'] = PROPS['L15'] = PROPS['L17'] = []
FAILS = {'L17': [(INST, None, l17_fail)] + [(SUDO, v, l17_fail) for v in SUDOS],
         'L11': [(QUERY, v, answers(*([P] if v == 'Params' else []))) for v in QUERIES],
         'L14': [(EXEC, v, l14_fail) for v in ('RemoveAsk', 'RemoveBid', 'RemoveCollectionBid', 'RejectBid', 'RemoveStaleBid', 'RemoveStaleCollectionBid')],
         'L15': [(EXEC, v, l15_fail) for v in ('SetAsk', 'UpdateAskPrice', 'SetCollectionBid', 'SyncAsk', 'RemoveStaleAsk') + SALES],
         'L13': [(MIGR, None, l13_fail)], 'L10': [(REPLY, None, l10_fail)]}

# nothing is rejected because of a start of trading that has come
GATES = {'L12': [(EXEC, v, ('start_trading_time', 'CollectionInfo')) for e, v, _ in PROPS['L12']]}
# the listing of collections walks the whole table: fewer rows per run
EXTRA = {'L11': [(QUERY, v, page_bounds(p)) for p in PAGES for v in QUERIES[2:-4] if v not in ('Bid', 'CollectionBid')]}
TASKBOUNDS = {(QUERY, 'Collections'): {'total': 3}}

ASSUMPTIONS = [
    "coins attached are sorted by denomination, distinct and positive; the sender is not the contract itself",
    "one message at a time from any well-formed stored state; sub-messages succeed or revert the message; external queries may answer anything or fail, consistently within a message",
    "addresses have equal length and contain no '/'; usize is 64 bit; stored values deserialise and index tables agree with their primary table",
    "models of std, cosmwasm_std, cw-storage-plus, cw2, semver and serde are trusted (sampled outcomes are replayed on the native contract in every run)",
    "contents of events and attributes are not compared",
    "orders are stored under their own fields; prices are positive and at most the maximum; reservations only on fixed-price listings; operators and hooks are distinct; parameters are within their bounds",
]
