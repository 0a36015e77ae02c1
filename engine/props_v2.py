"""What the properties of the new marketplace (v2) say about every explored outcome of its messages."""
from spec import *

CR = 'stargaze_marketplace_v2'
EXEC = CR + '::execute::execute'
QUERY = CR + '::query::query'
INST = CR + '::instantiate::instantiate'
MIGR = CR + '::migrate::migrate'

ASK_IN = ('SetAsk', 'SellNft')
BID_IN = ('SetBid', 'BuySpecificNft')
CB_IN = ('SetCollectionBid', 'BuyCollectionNft')
ADMIN = ('UpdateConfig', 'UpdateCollectionDenom', 'SetListingFee', 'RemoveListingFee')
NOW = ('SellNft', 'BuySpecificNft', 'BuyCollectionNft')
SALES = ASK_IN + BID_IN + CB_IN + ('UpdateAsk', 'UpdateBid', 'UpdateCollectionBid', 'AcceptAsk', 'AcceptBid', 'AcceptCollectionBid')
REMOVES = ('RemoveAsk', 'RemoveBid', 'RemoveCollectionBid')
ALL = ADMIN + SALES + REMOVES
ORDERS = ('a', 'o', 'c')
BPS = 10 ** 14


class Contract:
    name = 'v2'
    bounds = dict(vec=2, rows=2)
    keys = {'a': ('s',), 'o': ('s',), 'c': ('s',), 'D': ('s',), 'L': ('s',)}
    vecbound = {}
    keylen = {}
    tables = {'a': CR + '::orders::Ask', 'o': CR + '::orders::Bid', 'c': CR + '::orders::CollectionBid', 
              'C': ('ok', CR + '::query::query_config'), 'D': (CR + '::orders::Ask', 'id'),
              'L': (CR + '::orders::Ask', 'details', 'price', 'amount'), 'N': ('cosmwasm_std::types::BlockInfo', 'height')}
    entries = {EXEC: ALL}

    @staticmethod
    def vecinv(name, l):
        return coins_inv(l) if name.endswith('info.funds') else []

    @staticmethod
    def row_inv(en, ns, ty, key, v):
        r = V(en, v, ty)
        if ns == 'C':
            return [Lt(r.f('protocol_fee_bps').i, 10000), Lt(plus(r.f('maker_reward_bps').i, r.f('taker_reward_bps').i), 10000)]
        if ns in ('a', 'o', 'c'):
            cs = [Gt(r.f('details.price.amount').i, 0), Eq(r.f('id').s, key[0])]
            if ns == 'a':
                cs.append(Eq(key[0], askid(en, r.f('collection').s, r.f('token_id').s)))
            else:
                # its identifier was derived from a nonce already used
                n, h = ghost('nonce', key[0]), ghost('height', key[0])
                parts = (('s', Str(r.f('collection').s)),) + ((('s', Str(r.f('token_id').s)),) if ns == 'o' else ()) + (('i', h, 8), ('i', n, 8))
                cs.append(Eq(key[0], models.hashid(en, parts)))
                cs.append(Le(n, store.pre(en, 'N', en.ctx.tables['N'], ())[1]))
            return cs
        if ns == 'N':
            return [Lt(r.i, U64 - 1)]
        return []

    query_inv = None

    @staticmethod
    def pagepin(cx, page):
        q = cx.m('query_options')
        return pin_options(page, q.some, q.val.f('limit')) + [Not(And(q.some, q.val.f(b).some)) for b in ('min', 'max')]

    @staticmethod
    def assume(cx):
        return []

    @staticmethod
    def facts(cx, o):
        """environment assumptions on an accepted message (see DESIGN: NFT ownership, message senders, coin normal form)"""
        r = list(cx.funds_assume())
        if cx.info is not None:
            r.append(Not(Eq(cx.sender, cx.me)))
        for addr, get, okc, ans, notok in o.asked('OwnerOf'):
            # an existing NFT reports its owner; a listed one is held by the marketplace
            tok = get('token_id').s
            r.append(Not(notok))
            p, v = o.pre('a', askid(cx.en, addr, tok))
            r.append(Implies(And(okc, p), Eq(ans.f('owner').s, cx.me)))
        return r


def ghost(name, key):
    """the nonce / height an identifier was made from"""
    return intvar(keyname('G:' + name, (key,)), 0, U64)


def askid(en, coll, tok):
    return models.hashid(en, (('s', Str(coll)), ('s', Str(tok))))


# ------------------------------------------------------------------------------------------------ orders and sales
class Side:
    """one party's order: who, what, at which price, where assets go, through whom"""
    FIELDS = ('creator', 'coll', 'tok', 'denom', 'amt', 'recip', 'hasf', 'finder')

    def __init__(self, **k):
        self.__dict__.update(k)

    @staticmethod
    def row(v):
        return Side.make(v.f('creator').s, v.f('collection').s, v.f('token_id').s if v.has('token_id') else None, v.f('details'))

    @staticmethod
    def make(creator, coll, tok, det):
        rc, fi = det.f('recipient'), det.f('finder')
        return Side(creator=creator, coll=coll, tok=tok, denom=det.f('price.denom').s, amt=det.f('price.amount').i,
                    recip=If(rc.some, rc.val.s, creator) if rc.val is not None else creator,
                    hasf=fi.some, finder=fi.val.s if fi.val is not None else 0)

    @staticmethod
    def pick(cases):
        """first case whose condition holds"""
        r = cases[-1][1]
        for c, s in reversed(cases[:-1]):
            d = {}
            for f in Side.FIELDS:
                x, y = getattr(s, f), getattr(r, f)
                d[f] = None if x is None and y is None else If(c, x if x is not None else y, y if y is not None else x)
            r = Side(**d)
        return r


def removed(o, ns):
    return [(And(op, Not(np)), ov) for k, op, ov, np, nv in o.writes(ns) if ov is not None]


class Deal:
    """the sale, if any, that the property text says this message performs"""

    def __init__(self, cx, o):
        v = cx.variant
        rem = {ns: removed(o, ns) for ns in ORDERS}
        self.is_sale = False
        self.seller = self.buyer = None
        self.bid_first = None
        none = lambda: None
        if v in ASK_IN + ('UpdateAsk',):
            got = [(c, Side.row(x)) for ns in ('o', 'c') for c, x in rem[ns]]
            if not got:
                return
            self.is_sale = Or(*[c for c, _ in got])
            self.buyer = Side.pick(got)
            if v == 'UpdateAsk':
                p, row = o.pre('a', cx.m('id').s)
                self.seller = Side.make(row.f('creator').s, row.f('collection').s, row.f('token_id').s, cx.m('details'))
            else:
                self.seller = Side.make(cx.sender, cx.m('collection').s, cx.m('token_id').s, cx.m('details'))
            self.bid_first = True
        elif v in BID_IN + CB_IN + ('UpdateBid', 'UpdateCollectionBid'):
            got = [(c, Side.row(x)) for c, x in rem['a']]
            if not got:
                return
            self.is_sale = Or(*[c for c, _ in got])
            self.seller = Side.pick(got)
            if v in BID_IN:
                self.buyer = Side.make(cx.sender, cx.m('collection').s, cx.m('token_id').s, cx.m('details'))
            elif v in CB_IN:
                self.buyer = Side.make(cx.sender, cx.m('collection').s, None, cx.m('details'))
            else:
                p, row = o.pre('o' if v == 'UpdateBid' else 'c', cx.m('id').s)
                self.buyer = Side.make(row.f('creator').s, row.f('collection').s, row.f('token_id').s if row.has('token_id') else None, cx.m('details'))
            self.bid_first = False
        elif v == 'AcceptAsk':
            p, row = o.pre('a', cx.m('id').s)
            self.is_sale = True
            self.seller = Side.row(row)
            self.buyer = Side.make(cx.sender, self.seller.coll, self.seller.tok, cx.m('details'))
            self.bid_first = False
        elif v in ('AcceptBid', 'AcceptCollectionBid'):
            p, row = o.pre('o' if v == 'AcceptBid' else 'c', cx.m('id').s)
            self.is_sale = True
            self.buyer = Side.row(row)
            tok = self.buyer.tok if v == 'AcceptBid' else cx.m('token_id').s
            pa, arow = o.pre('a', askid(cx.en, self.buyer.coll, tok))
            self.listed = pa
            self.seller = Side.pick([(pa, Side.row(arow)), (True, Side.make(cx.sender, self.buyer.coll, tok, cx.m('details')))])
            self.bid_first = True

    @property
    def price(self):
        s = self.buyer if self.bid_first else self.seller
        return s.denom, s.amt

    @property
    def maker(self):
        s = self.buyer if self.bid_first else self.seller
        return s.hasf, s.finder

    @property
    def taker(self):
        s = self.seller if self.bid_first else self.buyer
        return s.hasf, s.finder


def config(cx, o):
    p, c = o.pre('C')
    return c


def royalty(cx, o, coll):
    """(applies, recipient, share in 1e-18) as answered by the registry, else by the collection"""
    has, rec, share = False, 0, 0
    for addr, get, okc, ans, notok in o.asked('CollectionInfo'):
        ri = ans.f('royalty_info')
        if ri.val is None:
            continue
        c = And(okc, Eq(addr, coll), ri.some)
        has, rec, share = Or(c, has), If(c, ri.val.f('payment_address').s, rec), If(c, ri.val.f('share').i, share)
    for addr, get, okc, ans, notok in o.asked('RoyaltyPayment'):
        prot = get('protocol')
        reg = And(okc, Eq(addr, config(cx, o).f('royalty_registry').s), Eq(get('collection').s, coll), prot.some,
                  Eq(prot.val.s, cx.me) if prot.val is not None else False)
        for fld in ('royalty_default', 'royalty_protocol'):
            e = ans.f(fld)
            if e.val is None:
                continue
            c = And(reg, e.some)
            r = e.val.f('royalty_entry')
            has, rec, share = Or(c, has), If(c, r.f('recipient').s, rec), If(c, r.f('share').i, share)
    return has, rec, share


def minimum(a, b):
    return If(Le(a, b), a, b)


def shares(cx, o, deal):
    """[(applies, recipient, share)] of every fee the properties foresee, in 1e-18 units"""
    c = config(cx, o)
    bps = c.f('protocol_fee_bps').i
    mh, mf = deal.maker
    th, tf = deal.taker
    # parts of the protocol fee: fractions of fractions of 10^-4, exact in units of 10^-8
    mk = mul(mul(bps, c.f('maker_reward_bps').i), 10 ** 10)
    tk = mul(mul(bps, c.f('taker_reward_bps').i), 10 ** 10)
    mk, tk = If(mh, mk, 0), If(th, tk, 0)
    prot = minus(minus(mul(bps, BPS), mk), tk)
    rh, rr, rs = royalty(cx, o, deal.seller.coll)
    rs = minimum(rs, mul(c.f('max_royalty_fee_bps').i, BPS))
    return [('protocol', True, c.f('fee_manager').s, prot), ('maker', mh, mf, mk), ('taker', th, tf, tk), ('royalty', rh, rr, rs)]


def ceil_share(price, share):
    return ceildiv(mul(price, share), DEC)


def payouts(cx, o, deal):
    """[(label, applies, recipient, amount)] of everything a sale pays, in its denomination"""
    d, p = deal.price
    r = []
    rest = p
    for lab, c, to, sh in shares(cx, o, deal):
        a = If(And(deal.is_sale, c), ceil_share(p, sh), 0)
        r.append((lab, deal.is_sale, to, a))
        rest = minus(rest, a)
    r.append(('seller', deal.is_sale, deal.seller.recip, If(deal.is_sale, rest, 0)))
    return r


def refund(cx, o, deal, d):
    """what the sender of the message gets back in denomination d"""
    v = cx.variant
    if v in ('RemoveBid', 'RemoveCollectionBid'):
        p, row = o.pre('o' if v == 'RemoveBid' else 'c', cx.m('id').s)
        return If(Eq(row.f('details.price.denom').s, d), row.f('details.price.amount').i, 0)
    if v in BID_IN + CB_IN + ('UpdateBid', 'UpdateCollectionBid', 'AcceptAsk'):
        have = cx.funds(d)
        if v in ('UpdateBid', 'UpdateCollectionBid'):
            p, row = o.pre('o' if v == 'UpdateBid' else 'c', cx.m('id').s)
            have = plus(have, If(Eq(row.f('details.price.denom').s, d), row.f('details.price.amount').i, 0))
        md = cx.m('details')
        rest = If(Eq(md.f('price.denom').s, d), md.f('price.amount').i, 0)
        if deal.is_sale is False:
            cost = rest
        else:
            dd, p = deal.price
            cost = If(deal.is_sale, If(Eq(dd, d), p, 0), rest)
        return minus(have, cost)
    return 0


def expected(cx, o, deal, r, d):
    """total the property text lets flow to address r in denomination d by bank messages"""
    t = If(Eq(r, cx.sender), refund(cx, o, deal, d), 0)
    if cx.variant in ASK_IN:
        t = plus(t, If(Eq(r, config(cx, o).f('fee_manager').s), cx.funds(d), 0))
    if deal.is_sale is not False:
        dd, _ = deal.price
        for lab, c, to, amt in payouts(cx, o, deal):
            t = plus(t, If(And(c, Eq(to, r), Eq(dd, d)), amt, 0))
    return t


# ------------------------------------------------------------------------------------------------ M01
def m01(cx, o):
    d = cx.skolem('denom')
    val = lambda r: If(Eq(r.f('details.price.denom').s, d), r.f('details.price.amount').i, 0)
    held = plus(o.total('o', val), o.total('c', val))
    got = cx.funds(d) if cx.info is not None else 0
    yield 'attached minus sent equals change of escrowed bids', Eq(minus(got, o.paid(d)), held)


# ------------------------------------------------------------------------------------------------ M02
def m02(cx, o):
    en = cx.en
    C, T = cx.skolem('collection'), cx.skolem('token')
    K = askid(en, C, T)
    p0, v0 = o.pre('a', K)
    p1, v1 = o.post('a', K)
    mv = o.nft_moves(C, T)
    n = count([g for g, _ in mv])
    deal = Deal(cx, o)

    def all_to(x):
        return And(*[Implies(g, Eq(to, x)) for g, to in mv])
    yield 'a listing that stays keeps its lister and its NFT', Implies(And(p0, p1), And(Eq(n, 0), Eq(v0.f('creator').s, v1.f('creator').s)))
    yield 'a new listing takes the NFT of its lister into custody', Implies(And(Not(p0), p1), And(
        Eq(n, 1), all_to(cx.me), Eq(v1.f('creator').s, cx.sender), Eq(v1.f('collection').s, C), Eq(v1.f('token_id').s, T)))
    if cx.variant == 'RemoveAsk':
        yield 'withdrawal returns the NFT to the lister\'s recipient', Implies(And(p0, Not(p1)), And(Eq(n, 1), all_to(Side.row(v0).recip)))
        yield 'no other NFT moves', Implies(And(Not(p0), Not(p1)), Eq(n, 0))
    elif deal.is_sale is False:
        yield 'a listing ends only in a sale or withdrawal', Not(And(p0, Not(p1)))
        yield 'no NFT moves without a listing or a sale', Implies(And(Not(p0), Not(p1)), Eq(n, 0))
    else:
        this = And(deal.is_sale, Eq(deal.seller.coll, C), Eq(deal.seller.tok, T))
        yield 'a sale delivers the NFT once to the buyer\'s recipient', Implies(this, And(Eq(n, 1), all_to(deal.buyer.recip), Not(p1)))
        yield 'a listing ends only in its own sale', Implies(And(p0, Not(p1)), this)
        yield 'no other NFT moves', Implies(And(Not(p0), Not(p1), Not(this)), Eq(n, 0))
        yield 'the NFT sold is of the collection and token bid for', Implies(deal.is_sale, And(
            Eq(deal.seller.coll, deal.buyer.coll), Eq(deal.seller.tok, deal.buyer.tok) if deal.buyer.tok is not None else True) if cx.variant not in ASK_IN + ('UpdateAsk',) else
            And(Eq(deal.seller.coll, deal.buyer.coll), *[Implies(c, Eq(x.f('token_id').s, deal.seller.tok)) for c, x in removed(o, 'o')]))
    for key, op, ov, np, nv in o.writes('a'):
        if nv is not None:
            yield 'listings are stored under the identifier of their NFT', Implies(np, Eq(key[0], askid(en, nv.f('collection').s, nv.f('token_id').s)))
    for m in o.msgs:
        if m.kind == 'exec':
            t = m.is_exec('TransferNft')
            i = m.is_exec('InitializeCollectionRoyalty')
            yield 'contracts are only told to transfer NFTs or initialise royalties', Implies(m.guard, Or(t, And(i, Eq(m.to, config(cx, o).f('royalty_registry').s)) if i is not False else False))
            yield 'a failing transfer reverts the message', Implies(m.guard, Or(m.reply.is_('Never'), m.reply.is_('Success')))
        else:
            yield 'only bank sends otherwise', Implies(m.guard, m.kind == 'send')


# ------------------------------------------------------------------------------------------------ M03
def owner_proved(cx, o, coll, tok):
    r = False
    for addr, get, okc, ans, notok in o.asked('OwnerOf'):
        r = Or(r, And(okc, Eq(addr, coll), Eq(get('token_id').s, tok), Eq(ans.f('owner').s, cx.sender)))
    return r


def m03(cx, o):
    v = cx.variant
    deal = Deal(cx, o)
    own = {'UpdateAsk': 'a', 'RemoveAsk': 'a', 'UpdateBid': 'o', 'RemoveBid': 'o', 'UpdateCollectionBid': 'c', 'RemoveCollectionBid': 'c'}
    if v in own:
        p, row = o.pre(own[v], cx.m('id').s)
        yield 'only the creator changes or withdraws an order', And(p, Eq(row.f('creator').s, cx.sender))
    if v in ASK_IN:
        yield 'only the owner lists', owner_proved(cx, o, cx.m('collection').s, cx.m('token_id').s)
    if v in ('AcceptBid', 'AcceptCollectionBid'):
        p, row = o.pre('o' if v == 'AcceptBid' else 'c', cx.m('id').s)
        yield 'an accepted bid exists', p
        coll = row.f('collection').s
        tok = row.f('token_id').s if v == 'AcceptBid' else cx.m('token_id').s
        pa, a = o.pre('a', askid(cx.en, coll, tok))
        yield 'only the owner or lister sells into a bid', If(pa, Eq(a.f('creator').s, cx.sender), owner_proved(cx, o, coll, tok))
    for ns in ORDERS:
        for key, op, ov, np, nv in o.writes(ns):
            if ov is None:
                continue
            mine = Eq(ov.f('creator').s, cx.sender)
            if nv is not None:
                yield 'nobody else\'s order is changed', Implies(And(op, np), Or(mine, veq(ov, nv)))
            if v in REMOVES or deal.is_sale is False:
                yield 'nobody else\'s order is removed', Implies(And(op, Not(np)), mine)
            else:
                sd = deal.seller if ns == 'a' else deal.buyer
                mvs = Or(*[g for g, _ in o.nft_moves(deal.seller.coll, deal.seller.tok)])
                yield 'another\'s order is removed only by its sale', Implies(And(op, Not(np)), Or(mine, And(
                    deal.is_sale, mvs, Eq(sd.creator, ov.f('creator').s), Eq(sd.coll, ov.f('collection').s))))
                if ns != 'a' and v in ASK_IN + ('UpdateAsk', 'AcceptBid', 'AcceptCollectionBid'):
                    others = [And(c, Not(Eq(x.f('id').s, ov.f('id').s))) for n2 in ('o', 'c') for c, x in removed(o, n2)]
                    yield 'one order is executed at a time', Implies(And(op, Not(np)), Not(Or(*others)) if others else True)


# ------------------------------------------------------------------------------------------------ M04
def m04(cx, o):
    v = cx.variant
    deal = Deal(cx, o)
    d = cx.skolem('denom')
    if deal.is_sale is not False:
        dd, p = deal.price
        lim = cx.m('details')
        ld, la = lim.f('price.denom').s, lim.f('price.amount').i
        S = deal.is_sale
        if v in ASK_IN + ('UpdateAsk', 'AcceptBid', 'AcceptCollectionBid'):
            yield 'the seller gets at least the asked price in the asked denomination', Implies(S, And(Eq(dd, ld), Ge(p, la)))
        else:
            yield 'the buyer pays at most the offered price in the offered denomination', Implies(S, And(Eq(dd, ld), Le(p, la)))
        total = o.paid(d)
        back = refund(cx, o, deal, d)
        fee = cx.funds(d) if v in ASK_IN else 0
        yield 'the sale moves exactly the resting order\'s price', Implies(S, Eq(total, plus(back, fee, If(Eq(dd, d), p, 0))))
    if v not in ADMIN:
        me = cx.sender
        yield 'everything beyond the price is returned to the buyer', Eq(o.sent(me, d), expected(cx, o, deal, me, d))
        yield 'the buyer\'s payment covers the price', Ge(refund(cx, o, deal, d), 0)


# ------------------------------------------------------------------------------------------------ M05
def m05(cx, o):
    deal = Deal(cx, o)
    if deal.is_sale is False:
        return
    r, d = cx.skolem('payee'), cx.skolem('denom')
    ex = expected(cx, o, deal, r, d)
    yield 'every recipient gets exactly its share of the price', Implies(And(deal.is_sale, Not(Eq(r, cx.sender))), Eq(o.sent(r, d), ex))
    yield 'fees never exceed the price', Implies(deal.is_sale, And(*[Ge(a, 0) for _, _, _, a in payouts(cx, o, deal)]))
    c = config(cx, o)
    for lab, has, to, sh in shares(cx, o, deal):
        yield f'no negative {lab} share', Implies(deal.is_sale, Ge(sh, 0))
    # a collection royalty used for the first time is registered with the registry
    rh, rr, rs = royalty(cx, o, deal.seller.coll)
    coins = [Implies(m.guard, And(*[Implies(cc, len(l) == 0 or And(*[Gt(x.f('amount').i, 0) for x in l])) for cc, l in m.coins])) for m in o.msgs if m.kind == 'send']
    yield 'payments are never empty', Implies(deal.is_sale, And(*coins))


# ------------------------------------------------------------------------------------------------ M06
def m06(cx, o):
    en, v = cx.en, cx.variant
    deal = Deal(cx, o)
    S = deal.is_sale
    if v in NOW:
        yield 'immediate orders trade or are rejected', S
        for ns in ORDERS:
            for key, op, ov, np, nv in o.writes(ns):
                yield 'immediate orders never rest', Not(And(np, Not(op)))
    if v in ASK_IN + ('UpdateAsk',):
        if v == 'UpdateAsk':
            p, row = o.pre('a', cx.m('id').s)
            coll, tok = row.f('collection').s, row.f('token_id').s
        else:
            coll, tok = cx.m('collection').s, cx.m('token_id').s
        ld, la = cx.m('details.price.denom').s if False else cx.m('details').f('price.denom').s, cx.m('details').f('price.amount').i

        def fits(r):
            return And(Eq(r.f('collection').s, coll), Eq(r.f('details.price.denom').s, ld), Ge(r.f('details.price.amount').i, la),
                       Eq(r.f('token_id').s, tok) if r.has('token_id') else True)
        exo = Or(*[c for c, _ in removed(o, 'o')])
        exc = Or(*[c for c, _ in removed(o, 'c')])
        for ns in ('o', 'c'):
            p, row = o.pre(ns, cx.skolem('bid_' + ns))
            good = And(p, fits(row))
            am = row.f('details.price.amount').i
            yield 'a listing some bid can pay for is sold', Implies(good, S)
            if S is not False:
                yield 'the sale is to a highest bid', Implies(And(good, S), Ge(deal.buyer.amt, am))
                if ns == 'o':
                    yield 'a token bid wins ties', Implies(And(good, exc), Gt(deal.buyer.amt, am))
        for ns in ('o', 'c'):
            for c, x in removed(o, ns):
                yield 'the executed bid fits the listing', Implies(c, fits(x))
        rests = (lambda: o.post('a', askid(en, coll, tok)))()
        yield 'an unmatched listing rests', Implies(Not(S), rests[0])
    if v in BID_IN + ('UpdateBid',):
        if v == 'UpdateBid':
            p, row = o.pre('o', cx.m('id').s)
            coll, tok = row.f('collection').s, row.f('token_id').s
        else:
            coll, tok = cx.m('collection').s, cx.m('token_id').s
        K = askid(en, coll, tok)
        p, a = o.pre('a', K)
        md = cx.m('details')
        good = And(p, Eq(a.f('details.price.denom').s, md.f('price.denom').s), Le(a.f('details.price.amount').i, md.f('price.amount').i))
        yield 'an affordable listing is bought at once', Implies(good, And(S, Not(o.post('a', K)[0])))
        yield 'only an affordable listing is bought', Implies(S, good)
        if v == 'UpdateBid':
            yield 'an unmatched bid rests', Implies(Not(S), o.post('o', cx.m('id').s)[0])
        else:
            yield 'an unmatched bid rests', Implies(Not(S), Or(*[And(np, Not(op)) for k, op, ov, np, nv in o.writes('o')]))
    if v in CB_IN + ('UpdateCollectionBid',):
        if v == 'UpdateCollectionBid':
            p, row = o.pre('c', cx.m('id').s)
            coll = row.f('collection').s
        else:
            coll = cx.m('collection').s
        md = cx.m('details')

        def fits(a):
            return And(Eq(a.f('collection').s, coll), Eq(a.f('details.price.denom').s, md.f('price.denom').s), Le(a.f('details.price.amount').i, md.f('price.amount').i))
        p, a = o.pre('a', cx.skolem('ask'))
        good = And(p, fits(a))
        yield 'an affordable listing of the collection is bought at once', Implies(good, S)
        if S is not False:
            yield 'the cheapest listing is bought', Implies(And(good, S), Le(deal.seller.amt, a.f('details.price.amount').i))
        for c, x in removed(o, 'a'):
            yield 'the bought listing fits the bid', Implies(c, fits(x))
        if v == 'UpdateCollectionBid':
            yield 'an unmatched bid rests', Implies(Not(S), o.post('c', cx.m('id').s)[0])
        else:
            yield 'an unmatched bid rests', Implies(Not(S), Or(*[And(np, Not(op)) for k, op, ov, np, nv in o.writes('c')]))


# ------------------------------------------------------------------------------------------------ M07
def m07(cx, o):
    en, v = cx.en, cx.variant
    creates = {**{x: 'a' for x in ASK_IN}, **{x: 'o' for x in BID_IN}, **{x: 'c' for x in CB_IN}}
    updates = {'UpdateAsk': 'a', 'UpdateBid': 'o', 'UpdateCollectionBid': 'c'}
    for ns in ORDERS:
        for key, op, ov, np, nv in o.writes(ns):
            if nv is None or np is False:
                continue
            coll = nv.f('collection').s
            pd, dn = o.pre('D', coll)
            denom = If(pd, dn.s, config(cx, o).f('default_denom').s)
            same = And(op, veq(ov, nv)) if ov is not None else False
            W = And(np, Not(same))
            yield 'stored under its own identifier', Implies(W, Eq(nv.f('id').s, key[0]))
            yield 'positive price', Implies(W, Gt(nv.f('details.price.amount').i, 0))
            yield 'price in the collection\'s denomination', Implies(W, Eq(nv.f('details.price.denom').s, denom))
            yield 'creator is the sender', Implies(W, Eq(nv.f('creator').s, cx.sender))
            if creates.get(v) != ns and updates.get(v) != ns:
                yield 'no other message writes orders', Not(W)
                continue
            yield 'terms exactly as requested', Implies(W, details_eq(nv.f('details'), cx.m('details')))
            if creates.get(v) == ns:
                yield 'a new order never overwrites another', Implies(W, Not(op))
                yield 'collection as requested', Implies(W, Eq(coll, cx.m('collection').s))
                if nv.has('token_id'):
                    yield 'token as requested', Implies(W, Eq(nv.f('token_id').s, cx.m('token_id').s))
                if ns == 'a':
                    yield 'identifier of the NFT', Implies(W, Eq(key[0], askid(en, coll, cx.m('token_id').s)))
                else:
                    n0, n1 = o.pre('N'), o.post('N')
                    yield 'the nonce increases with every bid', Implies(W, Gt(n1[1].i, n0[1].i))
                    parts = (('s', Str(coll)),) + ((('s', Str(cx.m('token_id').s)),) if ns == 'o' else ()) + (
                        ('i', cx.env.f('block.height').i, 8), ('i', n1[1].i, 8))
                    yield 'a fresh identifier from the new nonce', Implies(W, Eq(key[0], models.hashid(en, parts)))
            else:
                yield 'changes apply to the named order only', Implies(W, And(op, Eq(key[0], cx.m('id').s)))
                if ov is not None:
                    yield 'changing keeps creator, collection, token and identifier', Implies(W, And(
                        Eq(ov.f('creator').s, nv.f('creator').s), Eq(ov.f('collection').s, coll), Eq(ov.f('id').s, nv.f('id').s),
                        Eq(ov.f('token_id').s, nv.f('token_id').s) if nv.has('token_id') else True))
    if o.log('N') and cx.entryname == EXEC:
        yield 'the nonce never decreases', Ge(o.post('N')[1].i, o.pre('N')[1].i)


def details_eq(a, b):
    """stored details equal the message's (addresses as texts)"""
    return And(Eq(a.f('price.denom').s, b.f('price.denom').s), Eq(a.f('price.amount').i, b.f('price.amount').i),
               opt_same(a.f('recipient'), b.f('recipient')), opt_same(a.f('finder'), b.f('finder')))


def opt_same(a, b):
    c = Eq(a.some, b.some)
    if a.val is None or b.val is None:
        return c
    return And(c, Implies(a.some, Eq(a.val.s, b.val.s)))


# ------------------------------------------------------------------------------------------------ M08
def m08(cx, o):
    coll = cx.m('collection').s
    asked = False
    for addr, get, okc, ans, notok in o.asked('CollectionInfo'):
        here = Eq(addr, coll)
        asked = Or(asked, And(here, Or(okc, notok)))
        st = ans.f('start_trading_time')
        if st.val is not None:
            yield 'nothing trades before the start of trading', Implies(And(here, okc, st.some), Le(st.val.i, cx.now))
    yield 'the start of trading is consulted', asked


# ------------------------------------------------------------------------------------------------ M09
def m09(cx, o):
    v = cx.variant
    d = cx.skolem('denom')
    deal = Deal(cx, o)
    if v in ASK_IN:
        one = cx.funds_single()
        ok_ = False
        for c, coin in one:
            p, fee = o.pre('L', coin.f('denom').s)
            ok_ = Or(ok_, And(c, p, Eq(coin.f('amount').i, fee.i)))
        yield 'exactly the configured listing fee is attached', ok_
        fm = config(cx, o).f('fee_manager').s
        yield 'the listing fee is forwarded in full', Implies(Not(Eq(fm, cx.sender)), Eq(o.sent(fm, d), expected(cx, o, deal, fm, d)))
    elif v in BID_IN + CB_IN + ('UpdateAsk', 'UpdateBid', 'UpdateCollectionBid') + REMOVES:
        fm = config(cx, o).f('fee_manager').s
        yield 'no other message charges a listing fee', Implies(And(Not(deal.is_sale), Not(Eq(fm, cx.sender))), Eq(o.sent(fm, d), 0))


# ------------------------------------------------------------------------------------------------ M10
def m10(cx, o):
    v = cx.variant
    if cx.entryname in (INST,):
        p, c = o.post('C')
        m = cx.m('config')
        yield 'the given configuration is stored', And(p, config_eq(c, m))
        yield 'configuration within bounds', config_ok(c)
        yield 'nothing else is stored', o.untouched('D', 'L', 'a', 'o', 'c')
        return
    if cx.entryname == MIGR:
        yield 'migration changes no state', o.untouched('C', 'D', 'L', 'N', 'a', 'o', 'c')
        return
    if v in ADMIN:
        r = False
        for kind, addr, mt, msg, okc, ans in o.queries():
            if kind == 'info':
                ad = ans.f('admin')
                r = Or(r, And(okc, Eq(addr, cx.me), ad.some, Eq(ad.val.s, cx.sender)))
        yield 'only the contract admin', r
        yield 'orders untouched', o.untouched('a', 'o', 'c', 'N')
    if v == 'UpdateConfig':
        p, c = o.post('C')
        yield 'exactly the given configuration', And(p, config_eq(c, cx.m('config')))
        yield 'configuration within bounds', config_ok(c)
        yield 'nothing else changes', o.untouched('D', 'L')
    elif v == 'UpdateCollectionDenom':
        k = cx.skolem('coll')
        p0, x0 = o.pre('D', k)
        p1, x1 = o.post('D', k)
        this = Eq(k, cx.m('collection').s)
        yield 'exactly the named denomination changes', If(this, And(p1, Eq(x1.s, cx.m('denom').s)), And(Eq(p0, p1), Implies(p0, Eq(x0.s, x1.s))))
        yield 'nothing else changes', o.untouched('C', 'L')
    elif v in ('SetListingFee', 'RemoveListingFee'):
        k = cx.skolem('fee')
        p0, x0 = o.pre('L', k)
        p1, x1 = o.post('L', k)
        if v == 'SetListingFee':
            this, new = Eq(k, cx.m('fee').f('denom').s), And(p1, Eq(x1.i, cx.m('fee').f('amount').i))
        else:
            this, new = Eq(k, cx.m('denom').s), Not(p1)
        yield 'exactly the named fee changes', If(this, new, And(Eq(p0, p1), Implies(p0, Eq(x0.i, x1.i))))
        yield 'nothing else changes', o.untouched('C', 'D')
    else:
        yield 'configuration untouched', o.untouched('C', 'D', 'L')


def config_eq(c, m):
    r = []
    for f in ('fee_manager', 'royalty_registry', 'default_denom'):
        r.append(Eq(c.f(f).s, m.f(f).s))
    for f in ('protocol_fee_bps', 'max_royalty_fee_bps', 'maker_reward_bps', 'taker_reward_bps'):
        r.append(Eq(c.f(f).i, m.f(f).i))
    return And(*r)


def config_ok(c):
    return And(Lt(c.f('protocol_fee_bps').i, 10000), Lt(plus(c.f('maker_reward_bps').i, c.f('taker_reward_bps').i), 10000))


# ------------------------------------------------------------------------------------------------ M11
LISTQ = {'AsksByCollectionDenom': ('a', ('collection', 'denom'), 'price'), 'AsksByCreatorCollection': ('a', ('creator', 'collection'), 'id'),
         'BidsByTokenPrice': ('o', ('collection', 'token_id', 'denom'), 'price'), 'BidsByCreatorCollection': ('o', ('creator', 'collection'), 'id'),
         'CollectionBidsByPrice': ('c', ('collection', 'denom'), 'price'), 'CollectionBidsByCreatorCollection': ('c', ('creator', 'collection'), 'id')}
ONEQ = {'Ask': 'a', 'Bid': 'o', 'CollectionBid': 'c'}
MANYQ = {'Asks': 'a', 'Bids': 'o', 'CollectionBids': 'c'}


def m11(cx, o):
    en, v = cx.en, cx.variant
    ans = o.answer
    if v == 'Config':
        p, c = o.pre('C')
        yield 'the stored configuration', And(p, veq(ans, c))
    elif v == 'CollectionDenom':
        p, x = o.pre('D', cx.m('collection').s)
        yield 'the stored denomination', opt_eq(ans, p, x.s)
    elif v in ONEQ:
        p, row = o.pre(ONEQ[v], cx.m('0').s)
        yield 'found exactly when on the book', Eq(ans.some, p)
        if ans.val is not None:
            yield 'the stored order', Implies(p, veq(ans.val, row))
    elif v in MANYQ:
        for ci, ids in cx.m('0').vec():
            rows = [o.pre(MANYQ[v], i.s) for i in ids]
            want = [(c, x) for c, x in rows]
            for cr, got in ans.vec():
                yield 'the stored orders, in request order', Implies(And(ci, cr), subseq(got, want))
    else:
        ns, fields, by = LISTQ[v]
        opts = cx.m('query_options')

        def match(r, k):
            cs = []
            for f in fields:
                x = r.f('details.price.denom') if f == 'denom' else r.f(f)
                cs.append(Eq(x.s, cx.m(f).s))
            return And(*cs)

        def key(r, k):
            return (r.f('details.price.amount').i, r.f('id').s) if by == 'price' else (r.f('id').s,)

        def off(x):
            return (x.f('amount').i, x.f('id').s) if by == 'price' else (x.s,)
        q = opts.val
        bounds = []
        for b in ('min', 'max') if q is not None else ():
            if q.f(b).val is not None:
                for kind in ('Inclusive', 'Exclusive'):
                    x = q.f(b).val.as_(kind)
                    if x is not None:
                        bounds.append((And(opts.some, q.f(b).some, q.f(b).val.is_(kind)), off(x), b, kind == 'Exclusive'))
        yield from listing(cx, o, ns, match, key, lambda r: (r.f('id').s,), veq, limit=opt_num(opts, 'limit'),
                           desc=And(opts.some, q.f('descending').some, q.f('descending').val.i) if q is not None else False, bounds=bounds)


def subseq(got, want):
    """got is exactly the present elements of want, in order"""
    # number of present ones
    cs = [Eq(len(got), count([p for p, _ in want]))]
    for i, g in enumerate(got):
        # g is the (i+1)-th present one
        r = False
        for j, (p, row) in enumerate(want):
            r = Or(r, And(p, Eq(count([q for q, _ in want[:j]]), i), veq(g, row)))
        cs.append(r)
    return And(*cs)


# ------------------------------------------------------------------------------------------------ M12, M13
WEALTH = 10 ** 30           # no account holds more


def valid(cx):
    """the addresses the message names are well-formed"""
    r = [models.validaddr(cx.en, cx.m('collection').s)] if cx.has('collection') else []
    if cx.has('details'):
        for f in ('recipient', 'finder'):
            x = cx.m('details').f(f)
            if x.val is not None:
                r.append(Implies(x.some, models.validaddr(cx.en, x.val.s)))
    return And(*r)


def answered(cx, o, tradable=True):
    """every question asked on the path is answered, trading has started (unless said otherwise), royalties go to real addresses"""
    r = [okc for kind, addr, mt, msg, okc, ans in o.queries()]
    for addr, get, okc, ans, notok in o.asked('CollectionInfo'):
        st, ri = ans.f('start_trading_time'), ans.f('royalty_info')
        if st.val is not None and tradable:
            r.append(Implies(And(okc, st.some), Le(st.val.i, cx.now)))
        if ri.val is not None:
            r.append(Implies(And(okc, ri.some), models.validaddr(cx.en, ri.val.f('payment_address').s)))
    return And(*r)


def owner_answers(cx, o):
    return And(*[Implies(okc, Eq(ans.f('owner').s, cx.sender)) for addr, get, okc, ans, notok in o.asked('OwnerOf')])


def price_ok(cx, o, coll, price):
    pd, d = o.pre('D', coll)
    return And(Gt(price.f('amount').i, 0), Le(price.f('amount').i, WEALTH), Eq(price.f('denom').s, If(pd, d.s, config(cx, o).f('default_denom').s)))


def pays(cx, denom, amount):
    """one coin is attached, of this denomination and at least this amount"""
    return Or(*[And(c, Eq(x.f('denom').s, denom), Ge(x.f('amount').i, amount), Le(x.f('amount').i, WEALTH)) for c, x in cx.funds_single()])


def free(cx, o, coll):
    """no fees: a sale can be settled at any price"""
    return And(Eq(config(cx, o).f('protocol_fee_bps').i, 0), Not(royalty(cx, o, coll)[0]))


def fees_fit(cx, o, coll, price):
    """protocol fee and royalty, each part rounded up, stay within the price"""
    has, rec, share = royalty(cx, o, coll)
    c = config(cx, o)
    cut = plus(mul(c.f('protocol_fee_bps').i, BPS), If(has, minimum(share, mul(c.f('max_royalty_fee_bps').i, BPS)), 0))
    return And(Le(price, WEALTH), Le(plus(div(mul(price, cut), DEC), 4), price))


def m12_fail(cx, o):
    ns = {'RemoveAsk': 'a', 'RemoveBid': 'o', 'RemoveCollectionBid': 'c'}[cx.variant]
    p, row = o.pre(ns, cx.m('id').s)
    yield 'the creator can withdraw an order', Not(And(cx.no_funds(), p, Eq(row.f('creator').s, cx.sender), answered(cx, o, False)))


def m13_fail(cx, o):
    v = cx.variant
    common = [o.pre('C')[0], valid(cx), answered(cx, o)]
    det = cx.m('details') if cx.has('details') else None
    want = det.f('price') if det is not None else None
    if v in ('SetAsk', 'UpdateAsk'):
        if v == 'SetAsk':
            coll = cx.m('collection').s
            p, _ = o.pre('a', askid(cx.en, coll, cx.m('token_id').s))
            fee = Or(*[And(c, *[And(pl, Eq(x.f('amount').i, l.i)) for pl, l in [o.pre('L', x.f('denom').s)]]) for c, x in cx.funds_single()])
            yield 'the owner can list at any price', Not(And(*common, Not(p), fee, price_ok(cx, o, coll, want), free(cx, o, coll), owner_answers(cx, o)))
        else:
            p, row = o.pre('a', cx.m('id').s)
            coll = row.f('collection').s
            yield 'the creator can change the price of an ask', Not(And(*common, p, Eq(row.f('creator').s, cx.sender), cx.no_funds(), price_ok(cx, o, coll, want), free(cx, o, coll)))
    elif v in ('SetBid', 'SetCollectionBid', 'BuySpecificNft'):
        coll = cx.m('collection').s
        common += [o.pre('N')[0], price_ok(cx, o, coll, want), free(cx, o, coll), pays(cx, want.f('denom').s, want.f('amount').i)]
        if v == 'BuySpecificNft':
            p, row = o.pre('a', askid(cx.en, coll, cx.m('token_id').s))
            ap = row.f('details.price')
            yield 'a listed NFT can be bought at its price', Not(And(*common, p, Eq(ap.f('denom').s, want.f('denom').s), Le(ap.f('amount').i, want.f('amount').i)))
        else:
            yield 'a funded bid is taken', Not(And(*common))
    elif v in ('UpdateBid', 'UpdateCollectionBid'):
        p, row = o.pre('o' if v == 'UpdateBid' else 'c', cx.m('id').s)
        coll = row.f('collection').s
        old = row.f('details.price')
        d, x = want.f('denom').s, want.f('amount').i
        funded = Or(pays(cx, d, x), And(cx.no_funds(), Eq(old.f('denom').s, d), Ge(old.f('amount').i, x)))
        yield 'the creator can change the price of a bid', Not(And(*common, p, Eq(row.f('creator').s, cx.sender), Le(old.f('amount').i, WEALTH), funded,
                                                                   price_ok(cx, o, coll, want), free(cx, o, coll)))
    elif v == 'AcceptAsk':
        p, row = o.pre('a', cx.m('id').s)
        pr = row.f('details.price')
        yield 'a listed NFT can be bought at its price', Not(And(
            *common, o.pre('N')[0], p, Eq(want.f('denom').s, pr.f('denom').s), Ge(want.f('amount').i, pr.f('amount').i), pays(cx, pr.f('denom').s, pr.f('amount').i),
            fees_fit(cx, o, row.f('collection').s, pr.f('amount').i)))
    else:
        p, row = o.pre('o' if v == 'AcceptBid' else 'c', cx.m('id').s)
        pr = row.f('details.price')
        coll = row.f('collection').s
        tok = row.f('token_id').s if v == 'AcceptBid' else cx.m('token_id').s
        pa, a = o.pre('a', askid(cx.en, coll, tok))
        yield 'the owner or lister can sell into a bid', Not(And(
            *common, cx.no_funds(), p, Eq(want.f('denom').s, pr.f('denom').s), Le(want.f('amount').i, pr.f('amount').i),
            If(pa, Eq(a.f('creator').s, cx.sender), owner_answers(cx, o)), fees_fit(cx, o, coll, pr.f('amount').i)))


# ------------------------------------------------------------------------------------------------ M14
def m14(cx, o):
    for m in o.msgs:
        if m.kind in ('send', 'burn'):
            yield 'no empty payment', Implies(m.guard, And(*[Implies(c, And(len(l) > 0, *[Gt(x.f('amount').i, 0) for x in l])) for c, l in m.coins]))


# ------------------------------------------------------------------------------------------------ M15
def m15_fail(cx, o):
    v = cx.variant
    good = [addresses_valid(o)]
    if cx.entryname == INST or v == 'UpdateConfig':
        good.append(config_ok(cx.m('config')))
    if cx.entryname != INST:
        good.append(cx.no_funds())
        for kind, addr, mt, msg, okc, ans in o.queries():
            good.append(okc)
            if kind == 'info':
                ad = ans.f('admin')
                good.append(And(ad.some, Eq(ad.val.s, cx.sender)) if ad.val is not None else False)
    yield 'a valid message is not refused', Not(And(*good))


m16 = version_record('stargaze-marketplace-v2', 'contracts/stargaze-marketplace-v2', INST, MIGR, ('C', 'D', 'L', 'N', 'a', 'o', 'c'))

PROPS = {
    'M16': [(EXEC, v, m16) for v in ALL] + [(INST, None, m16), (MIGR, None, m16)],
    'M01': [(EXEC, v, m01) for v in ALL],
    'M02': [(EXEC, v, m02) for v in ALL],
    'M03': [(EXEC, v, m03) for v in SALES + REMOVES],
    'M04': [(EXEC, v, m04) for v in SALES + ('RemoveBid', 'RemoveCollectionBid')],
    'M05': [(EXEC, v, m05) for v in SALES],
    'M06': [(EXEC, v, m06) for v in ASK_IN + BID_IN + CB_IN + ('UpdateAsk', 'UpdateBid', 'UpdateCollectionBid')],
    'M07': [(EXEC, v, m07) for v in ALL],
    'M08': [(EXEC, v, m08) for v in ASK_IN + BID_IN + CB_IN],
    'M09': [(EXEC, v, m09) for v in SALES + REMOVES],
    'M10': [(EXEC, v, m10) for v in ALL] + [(INST, None, m10), (MIGR, None, m10)],
    'M14': [(EXEC, v, m14) for v in ALL],
    'M11': [(QUERY, v, m11) for v in ('Config', 'CollectionDenom') + tuple(ONEQ) + tuple(MANYQ) + tuple(LISTQ)],
}

PROPS['M12'] = PROPS['M13'] = PROPS['M15'] = []
FAILS = {'M16': [(MIGR, None, never)],
         'M15': [(INST, None, m15_fail)] + [(EXEC, v, m15_fail) for v in ADMIN],
         'M11': [(QUERY, v, answers(*(['C'] if v == 'Config' else []))) for v in ('Config', 'CollectionDenom') + tuple(ONEQ) + tuple(MANYQ) + tuple(LISTQ)],
         'M12': [(EXEC, v, m12_fail) for v in REMOVES],
         'M13': [(EXEC, v, m13_fail) for v in ('SetAsk', 'UpdateAsk', 'SetBid', 'SetCollectionBid', 'BuySpecificNft', 'UpdateBid', 'UpdateCollectionBid', 'AcceptAsk', 'AcceptBid', 'AcceptCollectionBid')]}

# nothing is rejected because of a start of trading that has come
GATES = {'M08': [(EXEC, v, ('start_trading_time', 'CollectionInfo')) for e, v, _ in PROPS['M08']]}

# the page limits themselves need long answers
EXTRA = {'M11': [(QUERY, v, page_bounds(p)) for p in PAGES for v in LISTQ]}

ASSUMPTIONS = [
    "coins attached are sorted by denomination, distinct and positive; the sender is not the contract itself",
    "one message at a time from any well-formed stored state; sub-messages succeed or revert the message; external queries may answer anything or fail, consistently within a message",
    "addresses have equal length and contain no '/'; usize is 64 bit; stored values deserialise and index tables agree with their primary table",
    "models of std, cosmwasm_std, cw-storage-plus, cw2, semver and serde are trusted (sampled outcomes are replayed on the native contract in every run)",
    "contents of events and attributes are not compared",
    "hashes of different components differ; the nonce is below 2^64-1; stored bids have identifiers made from nonces already used",
    "a listed NFT whose owner is queried is reported as held by the marketplace; an NFT that is transferred exists",
]
