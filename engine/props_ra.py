"""What the properties of the reserve auction say about every explored outcome of its messages."""
from spec import *

CR = 'stargaze_reserve_auction'
EXEC = CR + '::execute::execute'
SUDO = CR + '::sudo::sudo'
QUERY = CR + '::query::query'
INST = CR + '::instantiate::instantiate'
MIGR = CR + '::migrate::migrate'

EXECS = ('CreateAuction', 'UpdateReservePrice', 'CancelAuction', 'PlaceBid', 'SettleAuction')
SUDOS = ('BeginBlock', 'EndBlock', 'UpdateParams', 'SetMinReservePrices', 'UnsetMinReservePrices')
SETTLES = [(EXEC, 'SettleAuction'), (SUDO, 'EndBlock')]
ALL = [(EXEC, v) for v in EXECS] + [(SUDO, v) for v in SUDOS]
SEC = 10 ** 9


class Contract:
    name = 'ra'
    bounds = dict(vec=2, rows=2)
    keys = {'a': ('s', 's'), 'mrp': ('s',)}
    vecbound = {}
    keylen = {'a': 2}
    tables = {'a': CR + '::state::Auction', 'cfg': ('ok', CR + '::query::query_config'), 'hm': ('ok', CR + '::query::query_halt_manager'),
              'mrp': (CR + '::state::Auction', 'reserve_price', 'amount')}

    @staticmethod
    def vecinv(name, l):
        return coins_inv(l) if name.endswith('info.funds') else []

    @staticmethod
    def row_inv(en, ns, ty, key, v):
        r = V(en, v, ty)
        if ns == 'cfg':
            return [config_ok(r)]
        if ns == 'a':
            hb, et, fb = r.f('high_bid'), r.f('end_time'), r.f('first_bid_time')
            cs = [Eq(r.f('collection').s, key[0]), Eq(r.f('token_id').s, key[1]), Eq(hb.some, et.some), Eq(hb.some, fb.some)]
            if hb.val is not None:
                c = hb.val.f('coin')
                cs.append(Implies(hb.some, And(Gt(c.f('amount').i, 0), Eq(c.f('denom').s, r.f('reserve_price.denom').s),
                                               Not(Eq(hb.val.f('bidder').s, r.f('seller').s)))))
            return cs
        return []

    query_inv = None

    @staticmethod
    def pagepin(cx, page):
        q = cx.m('query_options')
        return pin_options(page, q.some, q.val.f('limit')) + [Not(And(q.some, q.val.f(b).some)) for b in ('start_after',)]

    @staticmethod
    def assume(cx):
        return []

    @staticmethod
    def facts(cx, o):
        r = list(cx.funds_assume())
        if cx.info is not None:
            r.append(Not(Eq(cx.sender, cx.me)))
        return r


def config_ok(c):
    return And(Gt(c.f('min_bid_increment_percent').i, 0), Lt(c.f('min_bid_increment_percent').i, DEC),
               Gt(c.f('min_duration').i, 0), Gt(c.f('extend_duration').i, 0))


def cfg(o):
    return o.pre('cfg')[1]


def bid_of(r, d):
    """amount of the auction's high bid in denomination d"""
    hb = r.f('high_bid')
    if hb.val is None:
        return 0
    return If(And(hb.some, Eq(hb.val.f('coin.denom').s, d)), hb.val.f('coin.amount').i, 0)


def key_of(cx):
    return cx.m('collection').s, cx.m('token_id').s


def gone(o):
    """[(condition removed, key, row)] of auctions a message ends"""
    return [(And(op, Not(np)), k, ov) for k, op, ov, np, nv in o.writes('a') if ov is not None]


def royalty(o, coll):
    has, rec, share = False, 0, 0
    for addr, get, okc, ans, notok in o.asked('CollectionInfo'):
        ri = ans.f('royalty_info')
        if ri.val is None:
            continue
        c = And(okc, Eq(addr, coll), ri.some)
        has, rec, share = Or(c, has), If(c, ri.val.f('payment_address').s, rec), If(c, ri.val.f('share').i, share)
    return has, rec, share


def parts(o, row):
    """(price denom, price, fee, royalty applies, royalty recipient, royalty, rest) of a settled auction"""
    hb = row.f('high_bid').val
    d, p = hb.f('coin.denom').s, hb.f('coin.amount').i
    fee = ceildiv(mul(p, cfg(o).f('trading_fee_percent').i), DEC)
    has, rec, share = royalty(o, row.f('collection').s)
    roy = If(has, ceildiv(mul(p, share), DEC), 0)
    return d, p, fee, has, rec, roy, minus(minus(p, fee), roy)


def recipient(row):
    f = row.f('seller_funds_recipient')
    return If(f.some, f.val.s, row.f('seller').s) if f.val is not None else row.f('seller').s


def burned(o, d):
    """coins handed to the burn contract"""
    fb = cfg(o).f('fair_burn').s
    t = 0
    for m in o.msgs:
        if m.kind == 'exec':
            c = m.is_exec('FairBurn')
            t = plus(t, If(And(c, Eq(m.to, fb)), m.coin(d), 0))
    return t


def changed(o, key):
    p0, v0 = o.pre('a', *key)
    p1, v1 = o.post('a', *key)
    return p0, v0, p1, v1, And(p0, p1, Not(veq(v0, v1)))


def same_but(a, b, *fields):
    """rows equal except in the named fields"""
    return And(*[valeq(a.en, ft, a.en.field(a.v, i), b.en.field(b.v, i)) for i, (fn, ft) in enumerate(a.ty['v'][0]['f']) if fn not in fields])


def in_window(o, row):
    """the auction's end falls strictly inside a recorded halt window"""
    s = div(row.f('end_time').val.i, SEC)
    r = False
    for c, ws in o.pre('hm')[1].f('halt_windows').vec():
        for w in ws:
            r = Or(r, And(c, Lt(w.f('start_time').i, s), Lt(s, w.f('end_time').i)))
    return r


def secs(t):
    return div(t, SEC)


def msgs_plain(cx, o):
    for m in o.msgs:
        if m.kind == 'exec':
            yield 'contracts are only told to transfer NFTs or burn fees', Implies(m.guard, Or(m.is_exec('TransferNft'), m.is_exec('FairBurn')))
        else:
            yield 'only bank sends otherwise', Implies(m.guard, m.kind == 'send')
        yield 'a failing payment or transfer reverts the message', Implies(m.guard, Or(m.reply.is_('Never'), m.reply.is_('Success')))


# ------------------------------------------------------------------------------------------------ R01
def r01(cx, o):
    d = cx.skolem('denom')
    held = o.total('a', lambda r: bid_of(r, d))
    got = cx.funds(d) if cx.info is not None else 0
    yield 'attached minus sent equals change of held high bids', Eq(minus(got, o.paid(d)), held)
    yield from msgs_plain(cx, o)


# ------------------------------------------------------------------------------------------------ R02
def r02(cx, o):
    K = key_of(cx)
    p0, v0 = o.pre('a', *K)
    p1, v1 = o.post('a', *K)
    denom = v0.f('reserve_price.denom').s
    hb = v0.f('high_bid')
    old = hb.val.f('coin.amount').i if hb.val is not None else 0
    one = cx.funds_single()
    fine = False
    for c, coin in one:
        a = coin.f('amount').i
        enough = If(hb.some, Ge(mul(a, DEC), mul(old, plus(cfg(o).f('min_bid_increment_percent').i, DEC))), Ge(a, v0.f('reserve_price.amount').i))
        fine = Or(fine, And(c, Eq(coin.f('denom').s, denom), enough))
    yield 'the auction exists', p0
    yield 'one coin of the auction\'s denomination, high enough', fine
    yield 'the seller does not bid', Not(Eq(v0.f('seller').s, cx.sender))
    et = v0.f('end_time')
    if et.val is not None:
        yield 'the auction has not ended', Implies(et.some, Gt(et.val.i, cx.now))
    nb = v1.f('high_bid')
    yield 'the bid becomes the high bid', And(p1, nb.some, Eq(nb.val.f('bidder').s, cx.sender), Eq(nb.val.f('coin.denom').s, denom),
                                              Eq(nb.val.f('coin.amount').i, cx.funds(denom))) if nb.val is not None else False
    d, r = cx.skolem('denom'), cx.skolem('rcpt')
    back = If(And(hb.some, Eq(hb.val.f('bidder').s, r), Eq(hb.val.f('coin.denom').s, d)), old, 0) if hb.val is not None else 0
    yield 'the previous high bidder gets the whole bid back, nobody else anything', And(Eq(o.sent(r, d), back), Eq(minus(o.paid(d), o.sent(r, d)), minus(
        If(And(hb.some, Eq(hb.val.f('coin.denom').s, d)), old, 0) if hb.val is not None else 0, back)))
    yield from msgs_plain(cx, o)


# ------------------------------------------------------------------------------------------------ R03
def r03(cx, o):
    v = cx.variant
    key = (cx.skolem('coll'), cx.skolem('tok'))
    p0, v0, p1, v1, ch = changed(o, key)
    e0, e1 = v0.f('end_time'), v1.f('end_time')
    ends = And(Eq(e0.some, e1.some), Implies(e0.some, Eq(e0.val.i, e1.val.i)) if e0.val is not None and e1.val is not None else True)
    moved = And(p0, p1, Not(ends))
    if v == 'PlaceBid':
        this = And(*[Eq(a, b) for a, b in zip(key, key_of(cx))])
        yield 'a bid changes only its auction\'s end', Implies(moved, this)
        here = And(this, p0)
        yield 'the first bid starts the clock', Implies(And(here, Not(v0.f('high_bid').some)), And(
            p1, e1.some, Eq(e1.val.i, plus(cx.now, mul(v0.f('duration').i, SEC)))))
        if e0.val is not None:
            yield 'a later bid never brings the end forward', Implies(And(here, v0.f('high_bid').some), And(p1, e1.some, Ge(e1.val.i, e0.val.i)))
            yield 'the extension remains after a later bid', Implies(And(here, v0.f('high_bid').some), Ge(
                minus(secs(e1.val.i), secs(cx.now)), cfg(o).f('extend_duration').i))
            yield 'no longer than needed', Implies(And(here, v0.f('high_bid').some), Or(Eq(e1.val.i, e0.val.i), Eq(e1.val.i, plus(cx.now, mul(cfg(o).f('extend_duration').i, SEC)))))
    elif (cx.entryname, v) in SETTLES:
        yield 'only a postponement moves the end', Implies(moved, And(e0.some, e1.some, Le(e0.val.i, cx.now), Eq(
            e1.val.i, plus(cx.now, mul(cfg(o).f('halt_postpone_duration').i, SEC)))))
    else:
        yield 'nothing else moves an end', Not(moved)
    yield 'no end before the first bid', Implies(p1, Implies(Not(v1.f('high_bid').some), Not(e1.some)))


# ------------------------------------------------------------------------------------------------ R04
def r04(cx, o):
    C, T = cx.skolem('coll'), cx.skolem('tok')
    p0, v0 = o.pre('a', C, T)
    p1, v1 = o.post('a', C, T)
    mv = o.nft_moves(C, T)
    n = count([g for g, _ in mv])
    settled = And(p0, Not(p1))
    et, hb = v0.f('end_time'), v0.f('high_bid')
    if et.val is not None and hb.val is not None:
        yield 'settled only after its end', Implies(settled, And(et.some, hb.some, Le(et.val.i, cx.now)))
        yield 'the NFT goes to the high bidder', Implies(settled, And(Eq(n, 1), *[Implies(g, Eq(to, hb.val.f('bidder').s)) for g, to in mv]))
    yield 'no other NFT moves', Implies(Not(settled), Eq(n, 0))
    d, r = cx.skolem('denom'), cx.skolem('rcpt')
    want, burn = 0, 0
    for c, k, row in gone(o):
        if c is False or row.f('high_bid').val is None:
            continue
        dd, p, fee, has, rec, roy, rest = parts(o, row)
        cd = And(c, Eq(dd, d))
        burn = plus(burn, If(cd, fee, 0))
        want = plus(want, If(And(cd, has, Eq(rec, r)), roy, 0), If(And(cd, Eq(recipient(row), r)), rest, 0))
        yield 'fees within the bid', Implies(c, Ge(rest, 0))
    yield 'the trading fee goes to the burn contract', Eq(burned(o, d), burn)
    yield 'royalty and proceeds go to their recipients', Eq(o.sent(r, d), want)
    if cx.entryname == EXEC:
        K = key_of(cx)
        yield 'an auction is settled when it stands', o.pre('a', *K)[0]
        yield 'only the named auction is settled', Implies(settled, And(Eq(C, K[0]), Eq(T, K[1])))
    yield from msgs_plain(cx, o)


# ------------------------------------------------------------------------------------------------ R05
def r05(cx, o):
    v = cx.variant
    key = (cx.skolem('coll'), cx.skolem('tok'))
    p0, v0, p1, v1, ch = changed(o, key)
    this = And(*[Eq(a, b) for a, b in zip(key, key_of(cx))]) if cx.entryname == EXEC else False
    ended = And(p0, Not(p1))
    mv = o.nft_moves(*key)
    n = count([g for g, _ in mv])
    if v == 'UpdateReservePrice':
        yield 'only the seller before the first bid', And(*[Implies(this, And(p0, Eq(v0.f('seller').s, cx.sender), Not(v0.f('high_bid').some)))])
        yield 'only the reserve price changes', Implies(ch, And(this, same_but(v0, v1, 'reserve_price')))
        yield 'to the given one', Implies(this, And(p1, veq(v1.f('reserve_price'), cx.m('reserve_price'))))
        yield 'no auction ends, no NFT moves', And(Not(ended), Eq(n, 0))
    elif v == 'CancelAuction':
        yield 'only the seller before the first bid', Implies(this, And(p0, Eq(v0.f('seller').s, cx.sender), Not(v0.f('high_bid').some)))
        yield 'the auction is removed and the NFT returned', Implies(this, And(Not(p1), Eq(n, 1), *[Implies(g, Eq(to, v0.f('seller').s)) for g, to in mv]))
        yield 'no other auction is touched', Implies(Not(this), And(Not(ch), Not(ended), Eq(n, 0)))
    elif v == 'PlaceBid':
        yield 'a bid changes only the bid and the times', Implies(ch, And(this, same_but(v0, v1, 'high_bid', 'end_time', 'first_bid_time')))
        yield 'no auction ends, no NFT moves', And(Not(ended), Eq(n, 0))
        f0, f1 = v0.f('first_bid_time'), v1.f('first_bid_time')
        yield 'the time of the first bid is kept', Implies(And(this, f0.some), And(f1.some, Eq(f0.val.i, f1.val.i))) if f0.val is not None and f1.val is not None else True
    elif (cx.entryname, v) in SETTLES:
        yield 'settlement changes nothing but a postponed end', Implies(ch, same_but(v0, v1, 'end_time'))
        yield 'an auction ends only with a bid', Implies(ended, v0.f('high_bid').some)
        yield 'only the named auction', Implies(Or(ch, ended), this) if cx.entryname == EXEC else True
    else:
        yield 'no auction changes', And(Not(ch), Not(ended))
        if v != 'CreateAuction':
            yield 'no NFT moves', Eq(n, 0)
    if v != 'CreateAuction':
        yield 'no auction appears', Not(And(Not(p0), p1))
    yield 'auctions stay well formed', Implies(p1, And(*Contract.row_inv(cx.en, 'a', v1.t, key, v1.v)))


# ------------------------------------------------------------------------------------------------ R06
def min_price_ok(o, price):
    p, m = o.pre('mrp', price.f('denom').s)
    return And(p, Ge(price.f('amount').i, m.i))


def r06(cx, o):
    v = cx.variant
    yield 'reserve price in an allowed denomination and at least its minimum', min_price_ok(o, cx.m('reserve_price'))
    if v == 'UpdateReservePrice':
        return
    c = cfg(o)
    K = key_of(cx)
    owner = approved = False
    asked = False
    for addr, get, okc, ans, notok in o.asked('OwnerOf'):
        owner = Or(owner, And(okc, Eq(addr, K[0]), Eq(get('token_id').s, K[1]), Eq(ans.f('owner').s, cx.sender)))
    for addr, get, okc, ans, notok in o.asked('Approval'):
        approved = Or(approved, And(okc, Eq(addr, K[0]), Eq(get('token_id').s, K[1]), Eq(get('spender').s, cx.me)))
    for addr, get, okc, ans, notok in o.asked('CollectionInfo'):
        here = Eq(addr, K[0])
        asked = Or(asked, And(here, Or(okc, notok)))
        st = ans.f('start_trading_time')
        if st.val is not None:
            yield 'trading has started', Implies(And(here, okc, st.some), Le(st.val.i, cx.now))
    yield 'only the NFT\'s owner', owner
    yield 'the auction house is approved', approved
    yield 'the start of trading is consulted', asked
    p0, v0 = o.pre('a', *K)
    p1, v1 = o.post('a', *K)
    yield 'no auction of this NFT before', Not(p0)
    dur = cx.m('duration').i
    yield 'duration within bounds', And(Ge(dur, c.f('min_duration').i), Le(dur, c.f('max_duration').i))
    fee = c.f('create_auction_fee')
    single = False
    for cc, coin in cx.funds_single():
        single = Or(single, And(cc, veq(coin, fee)))
    zero = Eq(fee.f('amount').i, 0)
    yield 'exactly the creation fee is attached', If(zero, cx.no_funds(), single)
    d = cx.skolem('denom')
    yield 'the creation fee is forwarded to the burn contract', Eq(burned(o, d), If(Eq(fee.f('denom').s, d), fee.f('amount').i, 0))
    rc, want = v1.f('seller_funds_recipient'), cx.m('seller_funds_recipient')
    rs = Eq(rc.some, want.some)
    if rc.val is not None and want.val is not None:
        rs = And(rs, Implies(want.some, Eq(rc.val.s, want.val.s)))
    yield 'the stored auction has the requested terms', And(
        p1, Eq(v1.f('collection').s, K[0]), Eq(v1.f('token_id').s, K[1]), Eq(v1.f('seller').s, cx.sender), veq(v1.f('reserve_price'), cx.m('reserve_price')),
        Eq(v1.f('duration').i, dur), Not(v1.f('high_bid').some), Not(v1.f('end_time').some), Not(v1.f('first_bid_time').some), rs)
    mv = o.nft_moves(*K)
    yield 'the NFT is taken into custody', And(Eq(count([g for g, _ in mv]), 1), *[Implies(g, Eq(to, cx.me)) for g, to in mv])
    oc, ot = cx.skolem('coll'), cx.skolem('tok')
    q0, w0, q1, w1, ch = changed(o, (oc, ot))
    yield 'no other auction appears or moves', Implies(Not(And(Eq(oc, K[0]), Eq(ot, K[1]))), And(Eq(q0, q1), Not(ch), Eq(count([g for g, _ in o.nft_moves(oc, ot)]), 0)))


# ------------------------------------------------------------------------------------------------ R07
def handled(o):
    """[(condition, key, row before)] of auctions an end-of-block run settles or postpones"""
    r = []
    for k, op, ov, np, nv in o.writes('a'):
        if ov is None:
            continue
        diff = Not(np) if nv is None else Or(Not(np), Not(veq(ov, nv)))
        r.append((And(op, diff), k, ov))
    return r


def r07(cx, o):
    key = (cx.skolem('coll'), cx.skolem('tok'))
    p0, v0, p1, v1, ch = changed(o, key)
    e0 = v0.f('end_time')
    over = And(p0, e0.some, Le(e0.val.i, cx.now)) if e0.val is not None else False
    touched = Or(ch, And(p0, Not(p1)))
    yield 'only ended auctions are touched', Implies(touched, over)
    hs = handled(o)
    n = count([c for c, _, _ in hs])
    # rows written, including postponements by zero seconds
    wr = [(op, k) for k, op, ov, np, nv in o.writes('a')]
    done = Or(*[And(op, store.eqkey(k, key)) for op, k in wr])
    limit = cfg(o).f('max_auctions_to_settle_per_block').i
    yield 'at most the configured number', Le(n, limit)
    yield 'an ended auction waits only behind a full block', Implies(And(over, Not(done)), Ge(count([op for op, _ in wr]), limit))
    for c, k, row in hs:
        yield 'in order of their end', Implies(And(over, Not(done), c), Le(secs(row.f('end_time').val.i), secs(e0.val.i)))
    if e0.val is not None:
        w = in_window(o, v0)
        yield 'settled or postponed as an individual settlement would', Implies(touched, If(w, And(p1, Eq(
            v1.f('end_time').val.i, plus(cx.now, mul(cfg(o).f('halt_postpone_duration').i, SEC)))) if v1.f('end_time').val is not None else False, Not(p1)))


def r07_fail(cx, o):
    """a failing end-of-block run with nothing wrong but the auctions' end times"""
    c = cfg(o)
    healthy = [o.pre('cfg')[0], o.pre('hm')[0], Eq(c.f('trading_fee_percent').i, 0), Lt(cx.now, 2 ** 60), Lt(c.f('halt_postpone_duration').i, 2 ** 32)]
    for addr, get, okc, ans, notok in o.asked('CollectionInfo'):
        healthy.append(Not(notok))
        healthy.append(Implies(okc, Not(ans.f('royalty_info').some)))
    yield 'the run does not fail for an auction\'s end time', Not(And(*healthy))


# ------------------------------------------------------------------------------------------------ R08
def windows(v):
    return v.f('halt_windows').vec()


def same_windows(a, b):
    return And(*[Eq(x.f(f).i, y.f(f).i) for x, y in zip(a, b) for f in ('start_time', 'end_time')])


def r08(cx, o):
    v = cx.variant
    p0, h0 = o.pre('hm')
    p1, h1 = o.post('hm')
    c = cfg(o)
    now_s = secs(cx.now)
    if v == 'BeginBlock':
        prev = h0.f('prev_block_time').i
        halt = And(Gt(prev, 0), Ge(minus(now_s, prev), c.f('halt_duration_threshold').i))
        yield 'the block time is remembered', And(p1, Eq(h1.f('prev_block_time').i, now_s))
        for c0, w0 in windows(h0):
            for c1, w1 in windows(h1):
                cc = And(c0, c1)
                if len(w1) == len(w0) + 1:
                    new = w1[-1]
                    fine = And(halt, same_windows(w0, w1[:-1]), Eq(new.f('start_time').i, prev), Eq(new.f('end_time').i, plus(now_s, c.f('halt_buffer_duration').i)))
                elif len(w1) == len(w0):
                    fine = And(Not(halt), same_windows(w0, w1))
                else:
                    fine = False
                yield 'a halt window exactly after a gap of at least the threshold', Implies(cc, fine)
        return
    # settlement
    key = (cx.skolem('coll'), cx.skolem('tok'))
    a0, v0, a1, v1, ch = changed(o, key)
    e0 = v0.f('end_time')
    if e0.val is not None:
        w = in_window(o, v0)
        touched = Or(ch, And(a0, Not(a1)))
        e1 = v1.f('end_time')
        post = And(a1, e1.some, Eq(e1.val.i, plus(cx.now, mul(c.f('halt_postpone_duration').i, SEC))), same_but(v0, v1, 'end_time')) if e1.val is not None else False
        yield 'an auction ending inside a halt window is postponed, keeping its bid', Implies(And(touched, w), post)
        yield 'every other settles normally', Implies(And(touched, Not(w)), Not(a1))
        if v == 'SettleAuction':
            this = And(*[Eq(x, y) for x, y in zip(key, key_of(cx))])
            yield 'the named auction is settled or postponed', Implies(this, And(a0, Or(Not(a1), And(w, post))))
    if v == 'SettleAuction':
        yield 'halt windows stay', o.untouched('hm')
        return
    yield 'the remembered block time stays', And(Eq(p0, p1), Implies(p0, Eq(h0.f('prev_block_time').i, h1.f('prev_block_time').i)))
    over = And(a0, e0.some, Le(e0.val.i, cx.now)) if e0.val is not None else False
    some = Gt(c.f('max_auctions_to_settle_per_block').i, 0)
    for c0, w0 in windows(h0):
        for c1, w1 in windows(h1):
            cc = And(c0, c1)
            if len(w1) == len(w0):
                fine = same_windows(w0, w1)
            elif len(w1) == len(w0) - 1:
                fine = Or(*[And(same_windows(w0[:i] + w0[i + 1:], w1), droppable(cx, w, over, e0, some)) for i, w in enumerate(w0)])
            else:
                fine = False
            yield 'a halt window is dropped only when over and no due auction ended in it', Implies(cc, fine)


def droppable(cx, w, over, e0, some):
    if STRICT_WINDOW:
        past = Le(w.f('end_time').i, secs(cx.now))
    else:
        past = True
    return And(past, Implies(And(over, some), Gt(secs(e0.val.i), w.f('end_time').i)) if e0.val is not None else True)


STRICT_WINDOW = True


# ------------------------------------------------------------------------------------------------ R09
PARAMS = {'fair_burn': 's', 'trading_fee_percent': 'i', 'min_bid_increment_percent': 'i', 'min_duration': 'i', 'extend_duration': 'i',
          'create_auction_fee': 'v', 'max_auctions_to_settle_per_block': 'i', 'halt_duration_threshold': 'i', 'halt_buffer_duration': 'i',
          'halt_postpone_duration': 'i'}


def same(kind, a, b):
    return Eq(a.s, b.s) if kind == 's' else Eq(a.i, b.i) if kind == 'i' else veq(a, b)


def r09(cx, o):
    v = cx.variant
    p0, c0 = (False, None) if cx.entryname == INST else o.pre('cfg')
    p1, c1 = o.post('cfg')
    if cx.entryname == INST:
        yield 'configuration within bounds', And(p1, config_ok(c1))
        for f, k in list(PARAMS.items()) + [('max_duration', 'i')]:
            yield 'the given configuration', same(k, c1.f(f), cx.m(f))
        yield from min_prices(cx, o, 'min_reserve_prices')
        ph, h = o.post('hm')
        yield 'no halt on record', And(ph, Eq(h.f('prev_block_time').i, 0), Or(*[c for c, w in windows(h) if not w]))
    elif v == 'UpdateParams':
        yield 'configuration within bounds', And(p1, config_ok(c1))
        for f, k in PARAMS.items():
            x = cx.m(f)
            old = same(k, c1.f(f), c0.f(f))
            yield f'exactly the given parameters change', If(x.some, same(k, c1.f(f), x.val), old) if x.val is not None else old
        yield 'exactly the given parameters change', Eq(c0.f('max_duration').i, c1.f('max_duration').i)
        yield 'nothing else changes', o.untouched('mrp', 'hm', 'a')
    elif v == 'SetMinReservePrices':
        yield from min_prices(cx, o, 'min_reserve_prices')
        yield 'nothing else changes', o.untouched('cfg', 'hm', 'a')
    elif v == 'UnsetMinReservePrices':
        k = cx.skolem('denom')
        q0, x0 = o.pre('mrp', k)
        q1, x1 = o.post('mrp', k)
        for c, ds in cx.m('denoms').vec():
            named = Or(*[Eq(d.s, k) for d in ds])
            yield 'exactly the named denominations are removed', Implies(c, If(named, And(q0, Not(q1)), And(Eq(q0, q1), Implies(q0, Eq(x0.i, x1.i)))))
            yield 'no denomination twice', Implies(c, And(*[Not(Eq(a.s, b.s)) for i, a in enumerate(ds) for b in ds[:i]]))
        yield 'nothing else changes', o.untouched('cfg', 'hm', 'a')
    else:
        yield 'configuration and denominations stay', o.untouched('cfg', 'mrp')


def min_prices(cx, o, field):
    k = cx.skolem('denom')
    q0, x0 = o.pre('mrp', k)
    q1, x1 = o.post('mrp', k)
    for c, cs in cx.m(field).vec():
        named = Or(*[Eq(d.f('denom').s, k) for d in cs])
        val = And(*[Implies(Eq(d.f('denom').s, k), Eq(x1.i, d.f('amount').i)) for d in cs])
        yield 'exactly the given denominations are added', Implies(c, If(named, And(Not(q0), q1, val), And(Eq(q0, q1), Implies(q0, Eq(x0.i, x1.i)))))
        yield 'no denomination twice', Implies(c, And(*[Not(Eq(a.f('denom').s, b.f('denom').s)) for i, a in enumerate(cs) for b in cs[:i]]))


# ------------------------------------------------------------------------------------------------ R10
def r10(cx, o):
    v = cx.variant
    ans = o.answer
    if v in ('Config', 'HaltManager'):
        p, c = o.pre('cfg' if v == 'Config' else 'hm')
        yield 'the stored value', And(p, veq(ans, c))
        return
    if v == 'Auction':
        p, row = o.pre('a', cx.m('collection').s, cx.m('token_id').s)
        yield 'found exactly when open', Eq(ans.some, p)
        if ans.val is not None:
            yield 'the stored auction', Implies(p, veq(ans.val, row))
        return
    opts = cx.m('query_options')
    q = opts.val
    desc = And(opts.some, q.f('descending').some, q.f('descending').val.i) if q is not None and q.f('descending').val is not None else False
    after = q.f('start_after') if q is not None else None
    has_after = And(opts.some, after.some) if after is not None else False
    lim = opt_num(opts, 'limit')
    if v == 'MinReservePrices':
        yield from listing(cx, o, 'mrp', lambda r, k: True, lambda r, k: k, lambda r: (r.f('denom').s,),
                           lambda r, row: Eq(r.f('amount').i, row.i), limit=lim, desc=desc,
                           offset=[(has_after, (after.val.f('denom').s,))] if after is not None and after.val is not None else [])
    elif v == 'AuctionsBySeller':
        yield from listing(cx, o, 'a', lambda r, k: Eq(r.f('seller').s, cx.m('seller').s), lambda r, k: k,
                           lambda r: (r.f('collection').s, r.f('token_id').s), veq, limit=lim, desc=desc,
                           offset=[(has_after, (after.val.f('collection').s, after.val.f('token_id').s))] if after is not None and after.val is not None else [])
    else:
        t = cx.m('end_time').i

        def endkey(r, k):
            e = r.f('end_time')
            return (If(e.some, secs(e.val.i), U64 - 1) if e.val is not None else U64 - 1,) + tuple(k)
        # without an offset the request starts at the given second itself: at its first auction upwards, before it downwards
        off = [(Not(has_after), (t, strcode(''), strcode('')))]
        if after is not None and after.val is not None:
            off.append((has_after, (t, after.val.f('collection').s, after.val.f('token_id').s)))
        # upwards only auctions that have an end; auctions without one sort last
        yield from listing(cx, o, 'a', lambda r, k: Or(desc, Lt(endkey(r, k)[0], U64 - 1)), endkey,
                           lambda r: (r.f('collection').s, r.f('token_id').s), veq, limit=lim, desc=desc, offset=off)


# ------------------------------------------------------------------------------------------------ R11, R12
U64 = 2 ** 64
WEALTH = 10 ** 30           # no account holds more


def healthy(cx, o, owner=None):
    """every question asked on the path is answered: the NFT is the given account's, trading has started, royalties go to real addresses"""
    r = [okc for kind, addr, mt, msg, okc, ans in o.queries()]
    if owner is not None:
        for addr, get, okc, ans, notok in o.asked('OwnerOf'):
            r.append(Implies(okc, Eq(ans.f('owner').s, owner)))
    for addr, get, okc, ans, notok in o.asked('CollectionInfo'):
        st, ri = ans.f('start_trading_time'), ans.f('royalty_info')
        if st.val is not None and owner is not None:
            r.append(Implies(And(okc, st.some), Le(st.val.i, cx.now)))
        if ri.val is not None:
            r.append(Implies(And(okc, ri.some), models.validaddr(cx.en, ri.val.f('payment_address').s)))
    r.append(o.pre('cfg')[0])
    rc = cx.m('seller_funds_recipient') if cx.has('seller_funds_recipient') else None
    if rc is not None and rc.val is not None:
        r.append(Implies(rc.some, models.validaddr(cx.en, rc.val.s)))
    return And(models.validaddr(cx.en, cx.m('collection').s), *r)


def r11_fail(cx, o):
    p, a = o.pre('a', *key_of(cx))
    hb, et = a.f('high_bid'), a.f('end_time')
    if cx.variant == 'CancelAuction':
        yield 'the seller can cancel an auction without bids', Not(And(healthy(cx, o), cx.no_funds(), p, Eq(a.f('seller').s, cx.sender), Not(hb.some)))
        return
    if et.val is None or hb.val is None:
        return
    d, price, fee, has, rec, roy, rest = parts(o, a)
    yield 'anybody can settle an ended auction', Not(And(
        healthy(cx, o), o.pre('hm')[0], cx.no_funds(), p, hb.some, et.some, Le(et.val.i, cx.now), Ge(rest, 0), Le(price, WEALTH),
        Lt(plus(cx.now, mul(cfg(o).f('halt_postpone_duration').i, SEC)), U64)))


def r12_fail(cx, o):
    v = cx.variant
    p, a = o.pre('a', *key_of(cx))
    c = cfg(o)
    hb, et = a.f('high_bid'), a.f('end_time')
    if v == 'CreateAuction':
        fee = c.f('create_auction_fee')
        dur = cx.m('duration').i
        single = Or(*[And(cc, veq(coin, fee)) for cc, coin in cx.funds_single()])
        yield 'an auction that meets the rules is opened', Not(And(
            healthy(cx, o, cx.sender), Not(p), min_price_ok(o, cx.m('reserve_price')), Ge(dur, c.f('min_duration').i), Le(dur, c.f('max_duration').i),
            If(Eq(fee.f('amount').i, 0), cx.no_funds(), single)))
    elif v == 'UpdateReservePrice':
        yield 'the seller can change the reserve price before the first bid', Not(And(
            healthy(cx, o), cx.no_funds(), p, Eq(a.f('seller').s, cx.sender), Not(hb.some), min_price_ok(o, cx.m('reserve_price'))))
    else:
        old = hb.val.f('coin.amount').i if hb.val is not None else 0
        need = ceildiv(mul(old, plus(c.f('min_bid_increment_percent').i, DEC)), DEC)
        fine = Or(*[And(cc, Eq(coin.f('denom').s, a.f('reserve_price.denom').s), Le(coin.f('amount').i, WEALTH),
                        If(hb.some, Ge(coin.f('amount').i, need), Ge(coin.f('amount').i, a.f('reserve_price.amount').i))) for cc, coin in cx.funds_single()])
        yield 'a bid that is high enough is taken', Not(And(
            healthy(cx, o), p, Not(Eq(a.f('seller').s, cx.sender)), fine, Le(old, WEALTH),
            Implies(et.some, Gt(secs(et.val.i), secs(cx.now))) if et.val is not None else True,
            Lt(plus(cx.now, mul(a.f('duration').i, SEC)), U64), Lt(plus(cx.now, mul(c.f('extend_duration').i, SEC)), U64)))


# ------------------------------------------------------------------------------------------------ R13
def r13(cx, o):
    for m in o.msgs:
        full = And(*[Implies(c, And(len(l) > 0, *[Gt(x.f('amount').i, 0) for x in l])) for c, l in m.coins])
        if m.kind == 'send':
            yield 'no empty payment', Implies(m.guard, full)
        elif m.kind == 'exec':
            fb = m.is_exec('FairBurn')
            yield 'no empty fee', Implies(And(m.guard, fb), full)


# ------------------------------------------------------------------------------------------------ R14
def r14_fail(cx, o):
    v = cx.variant
    good = [addresses_valid(o)]
    if cx.entryname == INST:
        good += [Gt(cx.m('min_bid_increment_percent').i, 0), Lt(cx.m('min_bid_increment_percent').i, DEC), Gt(cx.m('min_duration').i, 0), Gt(cx.m('extend_duration').i, 0),
                 new_denoms(cx, o, 'min_reserve_prices', True)]
    elif v == 'BeginBlock':
        (p, h), now = o.pre('hm'), secs(cx.now)
        good += [p, o.pre('cfg')[0], Le(h.f('prev_block_time').i, now), Lt(plus(now, cfg(o).f('halt_buffer_duration').i), U64)]
    elif v == 'UpdateParams':
        def new(f):
            x = cx.m(f)
            return If(x.some, x.val.i, cfg(o).f(f).i) if x.val is not None else cfg(o).f(f).i
        good += [o.pre('cfg')[0], Gt(new('min_bid_increment_percent'), 0), Lt(new('min_bid_increment_percent'), DEC),
                 Gt(new('min_duration'), 0), Gt(new('extend_duration'), 0)]
    elif v == 'SetMinReservePrices':
        good.append(new_denoms(cx, o, 'min_reserve_prices', True))
    else:
        good.append(new_denoms(cx, o, 'denoms', False))
    yield 'a valid message is not refused', Not(And(*good))


def new_denoms(cx, o, field, fresh):
    """the denominations of the message are distinct and all (fresh) unknown or (not fresh) known"""
    r = []
    for c, xs in cx.m(field).vec():
        ds = [x.f('denom').s if fresh else x.s for x in xs]
        r.append(Implies(c, And(*[Not(Eq(a, b)) for i, a in enumerate(ds) for b in ds[:i]],
                                *[Not(o.pre('mrp', d)[0]) if fresh else o.pre('mrp', d)[0] for d in ds])))
    return And(*r)


r15 = version_record('crates.io:stargaze-reserve-auction', 'contracts/reserve-auction', INST, MIGR, ('cfg', 'mrp', 'hm', 'a'))

PROPS = {
    'R15': [(e, v, r15) for e, v in ALL] + [(INST, None, r15), (MIGR, None, r15)],
    'R01': [(e, v, r01) for e, v in ALL],
    'R02': [(EXEC, 'PlaceBid', r02)],
    'R03': [(e, v, r03) for e, v in ALL],
    'R04': [(e, v, r04) for e, v in SETTLES],
    'R05': [(e, v, r05) for e, v in ALL] + [(MIGR, None, r05)],
    'R06': [(EXEC, v, r06) for v in ('CreateAuction', 'UpdateReservePrice')],
    'R07': [(SUDO, 'EndBlock', r07)],
    'R08': [(SUDO, 'BeginBlock', r08), (SUDO, 'EndBlock', r08), (EXEC, 'SettleAuction', r08)],
    'R09': [(e, v, r09) for e, v in ALL] + [(INST, None, r09)],
    'R13': [(e, v, r13) for e, v in ALL],
    'R10': [(QUERY, v, r10) for v in ('Config', 'HaltManager', 'MinReservePrices', 'Auction', 'AuctionsBySeller', 'AuctionsByEndTime')],
}
PROPS['R11'] = PROPS['R12'] = PROPS['R14'] = []
FAILS = {'R15': [(MIGR, None, never)],
         'R14': [(INST, None, r14_fail)] + [(SUDO, v, r14_fail) for v in ('BeginBlock', 'UpdateParams', 'SetMinReservePrices', 'UnsetMinReservePrices')],
         'R10': [(QUERY, v, answers(*{'Config': ['cfg'], 'HaltManager': ['hm']}.get(v, []))) for v in ('Config', 'HaltManager', 'MinReservePrices', 'Auction', 'AuctionsBySeller', 'AuctionsByEndTime')],
         'R11': [(EXEC, v, r11_fail) for v in ('CancelAuction', 'SettleAuction')],
         'R12': [(EXEC, v, r12_fail) for v in ('CreateAuction', 'UpdateReservePrice', 'PlaceBid')],
         'R07': [(SUDO, 'EndBlock', r07_fail)]}

# the page limits themselves need long answers
EXTRA = {'R10': [(QUERY, v, page_bounds(p)) for p in PAGES for v in ('MinReservePrices', 'AuctionsBySeller', 'AuctionsByEndTime')]}

ASSUMPTIONS = [
    "coins attached are sorted by denomination, distinct and positive; the sender is not the contract itself",
    "one message at a time from any well-formed stored state; sub-messages succeed or revert the message; external queries may answer anything or fail, consistently within a message",
    "addresses have equal length and contain no '/'; usize is 64 bit; stored values deserialise and index tables agree with their primary table",
    "models of std, cosmwasm_std, cw-storage-plus, cw2, semver and serde are trusted (sampled outcomes are replayed on the native contract in every run)",
    "contents of events and attributes are not compared",
    "auction rows are stored under their own collection and token; high bid, end time and first bid time are present together; the bid is in the reserve denomination and not by the seller",
]
