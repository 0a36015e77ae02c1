# ---------------------------------------------------------------- v2
bug('v2-update-collection-bid-charge', 'M01', 'a collection bid that is raised above the cheapest listing, so that the update itself trades',
    'the buyer is charged the new bid price instead of the listing price; the difference stays in the contract',
    [(V2 + 'execute.rs', ("""        funds = funds
            .sub(ask.details.price.clone())""", 4), """        funds = funds
            .sub(collection_bid.details.price.clone())""")], '''
w = v2_world()
w.xok({'set_collection_bid': {'collection': 'collection0000', 'details': det(50)}}, 'buyer000000000', ('ustars', 50))
v2_list(w, 'collection0000', '1', 'seller00000000', det(100))
b = w.q({'collection_bids_by_price': {'collection': 'collection0000', 'denom': 'ustars', 'query_options': None}})[0]
w.xok({'update_collection_bid': {'id': b['id'], 'details': det(130)}}, 'buyer000000000', ('ustars', 80))
assert w.owner['collection0000', '1'] == 'buyer000000000'
assert w.b(w.me, 'ustars') == 0, f"{w.b(w.me, 'ustars')} ustars stranded"
assert w.b('buyer000000000', 'ustars') == -100
''')
bug('v2-bid-match-ignores-denom', 'M04', 'the denomination of a collection changes while a listing rests, then a bid in the new one comes with coins in both',
    'a bid in one denomination buys a listing priced in another one',
    [(V2 + 'orders.rs', 'if has_coins(&[self.details.price.clone()], &ask.details.price) {', 'if self.details.price.amount >= ask.details.price.amount {'),
     (V2 + 'orders.rs', 'has_coins, ', '')], '''
w = v2_world()
v2_list(w, 'collection0000', '1', 'seller00000000', det(100))
w.xok({'update_collection_denom': {'collection': 'collection0000', 'denom': 'uatom'}}, w.admin)
r = w.x({'set_bid': {'collection': 'collection0000', 'token_id': '1', 'details': det(100, 'uatom')}}, 'buyer000000000', ('uatom', 100), ('ustars', 100))
assert r is not None, w.error
assert w.owner['collection0000', '1'] == w.me, 'sold in a denomination the buyer did not offer'
assert w.b('buyer000000000', 'ustars') == 0
''')
bug('v2-maker-taker-swapped', 'M05', 'a listing or acceptance that executes a resting bid, with a finder on one side and different maker and taker rewards',
    'the finder of the incoming order is paid the maker reward and the finder of the resting bid the taker reward',
    [(V2 + 'helpers.rs', '(&bid_details.price, &bid_details.finder, &ask.details.finder)', '(&bid_details.price, &ask.details.finder, &bid_details.finder)')], '''
w = v2_world()
w.xok({'set_bid': {'collection': 'collection0000', 'token_id': '1', 'details': det(100000, finder='findera0000000')}}, 'buyer000000000', ('ustars', 100000))
v2_list(w, 'collection0000', '1', 'seller00000000', det(100000, finder='finderb0000000'))
assert w.b('findera0000000', 'ustars') == 800, w.bal
assert w.b('finderb0000000', 'ustars') == 200, w.bal
''')
bug('v2-collection-bid-equal-price', 'M06', 'a collection bid of exactly the price of the cheapest listing',
    'a collection bid that exactly meets the cheapest listing rests instead of trading',
    [(V2 + 'orders.rs', 'amount: self.details.price.amount.u128() + 1,', 'amount: self.details.price.amount.u128(),')], '''
w = v2_world()
v2_list(w, 'collection0000', '1', 'seller00000000', det(100))
w.xok({'set_collection_bid': {'collection': 'collection0000', 'details': det(100)}}, 'buyer000000000', ('ustars', 100))
assert w.owner['collection0000', '1'] == 'buyer000000000', 'no sale'
''')
bug('v2-token-bid-always-wins', 'M06', 'a token bid and a higher collection bid that both meet a new listing',
    'a new listing is sold to a token bid although a collection bid offers more',
    [(V2 + 'orders.rs', 'if bid.details.price.amount >= collection_bid.details.price.amount {', 'if bid.details.price.amount >= self.details.price.amount {')], '''
w = v2_world()
w.xok({'set_bid': {'collection': 'collection0000', 'token_id': '1', 'details': det(100)}}, 'buyera00000000', ('ustars', 100))
w.xok({'set_collection_bid': {'collection': 'collection0000', 'details': det(150)}}, 'buyerb00000000', ('ustars', 150))
v2_list(w, 'collection0000', '1', 'seller00000000', det(90))
assert w.owner['collection0000', '1'] == 'buyerb00000000', 'the lower bid won'
''')
bug('v2-collection-bid-nonce', 'M07', 'two collection bids for one collection in one block',
    'the counter is not advanced for collection bids and the row is saved blindly, so the second bid of a block overwrites the first',
    [(V2 + 'execute.rs', ("""    NONCE.save(deps.storage, &nonce)?;

""", 3), "\n"),
     (V2 + 'execute.rs', """        collection_bids().update(
            deps.storage,
            collection_bid.id.clone(),
            |existing| match existing {
                Some(_) => Err(ContractError::InternalError(
                    "collection bid id collision".to_string(),
                )),
                None => Ok(collection_bid),
            },
        )?;
""", "        collection_bid.save(deps.storage)?;\n")], '''
w = v2_world()
w.xok({'set_collection_bid': {'collection': 'collection0000', 'details': det(50)}}, 'buyera00000000', ('ustars', 50))
w.xok({'set_collection_bid': {'collection': 'collection0000', 'details': det(60)}}, 'buyerb00000000', ('ustars', 60))
r = w.q({'collection_bids_by_price': {'collection': 'collection0000', 'denom': 'ustars', 'query_options': None}})
assert len(r) == 2, r
''')
bug('v2-reward-bounds-separate', 'M10', 'maker and taker rewards each below but together above 100 %',
    'rewards above 100 % combined are accepted',
    [(V2 + 'state.rs', '(self.maker_reward_bps + self.taker_reward_bps) < MAX_BASIS_POINTS,', 'self.maker_reward_bps.max(self.taker_reward_bps) < MAX_BASIS_POINTS,')], '''
w = v2_world()
c = dict(w.cfg, maker_reward_bps=6000, taker_reward_bps=5000)
assert w.x({'update_config': {'config': c}}, w.admin) is None, 'accepted rewards of 110 %'
''')
bug('v2-resting-listing-kept', 'M02', 'a resting listing that executes a resting bid (lowered price or accepted bid)',
    'the listing stays on the book although its NFT was delivered',
    [(V2 + 'helpers.rs', '    ask.remove(deps.storage)?;\n', '    if ask_before_bid {\n        ask.remove(deps.storage)?;\n    }\n')], '''
w = v2_world()
v2_list(w, 'collection0000', '1', 'seller00000000', det(100))
w.xok({'set_bid': {'collection': 'collection0000', 'token_id': '1', 'details': det(70)}}, 'buyer000000000', ('ustars', 70))
a = w.q({'asks_by_collection_denom': {'collection': 'collection0000', 'denom': 'ustars', 'query_options': None}})[0]
w.xok({'update_ask': {'id': a['id'], 'details': det(60)}}, 'seller00000000')
assert w.owner['collection0000', '1'] == 'buyer000000000'
assert w.q({'ask': a['id']}) is None, 'the listing is still there'
''')
bug('v2-recipient-accepts', 'M03', 'a resting listing with a recipient, and that recipient accepting a bid',
    'the recipient of a listing, not its creator, decides on selling it into a bid',
    [(V2 + 'execute.rs', ('if info.sender != ask.creator {', 1), 'if info.sender != ask.asset_recipient() {')], '''
w = v2_world()
v2_list(w, 'collection0000', '1', 'seller00000000', det(100, recipient='friend00000000'))
w.xok({'set_bid': {'collection': 'collection0000', 'token_id': '1', 'details': det(70)}}, 'buyer000000000', ('ustars', 70))
b = w.q({'bids_by_token_price': {'collection': 'collection0000', 'token_id': '1', 'denom': 'ustars', 'query_options': None}})[0]
assert w.x({'accept_bid': {'id': b['id'], 'details': det(70)}}, 'friend00000000') is None, 'a stranger sold the NFT'
''')
bug('v2-listing-fee-at-least', 'M09', 'a payment above the configured listing fee',
    'more than the listing fee is taken',
    [(V2 + 'execute.rs', """        ensure_eq!(
            listing_payment.amount,
            _listing_fee,
""", """        ensure!(
            listing_payment.amount >= _listing_fee,
""")], '''
w = v2_world()
w.owner['collection0000', '1'] = 'seller00000000'
assert w.x({'set_ask': {'collection': 'collection0000', 'token_id': '1', 'details': det(10)}}, 'seller00000000', ('ustars', 6)) is None, 'overcharged'
''')
bug('v2-tradable-resting-bid', 'M08', 'a collection bid that finds no listing before trading starts',
    'collection bids can be placed before the start of trading',
    [(V2 + 'execute.rs', ("    only_tradable(&deps.querier, &env.block, &collection)?;\n", 3),
      "    if buy_now {\n        only_tradable(&deps.querier, &env.block, &collection)?;\n    }\n")], '''
w = v2_world()
w.start['collection0000'] = w.time + 1
assert w.x({'set_collection_bid': {'collection': 'collection0000', 'details': det(50)}}, 'buyera00000000', ('ustars', 50)) is None, 'placed before the start'
''')
bug('v2-creator-query-collection', 'M11', 'a creator with bids in two collections and a bounded query',
    'bids of other collections appear among the bids of a creator in a collection',
    [(V2 + 'query.rs', ("""        .creator_collection
        .prefix((creator, collection))
        .range(deps.storage, min, max, order)
        .take(limit)
        .map(|res| res.map(|(_, bid)| bid))
""", 1), """        .creator_collection
        .sub_prefix(creator)
        .range(
            deps.storage,
            min.map(|_| cw_storage_plus::Bound::inclusive((collection.clone(), OrderId::default())))
                .or(Some(cw_storage_plus::Bound::inclusive((collection.clone(), OrderId::default())))),
            max.map(|_| cw_storage_plus::Bound::inclusive((collection, OrderId::from("g")))),
            order,
        )
        .take(limit)
        .map(|res| res.map(|(_, bid)| bid))
""")], '''
w = v2_world()
for c in ('collection0000', 'collection1111'):
    w.xok({'set_bid': {'collection': c, 'token_id': '1', 'details': det(70)}}, 'buyer000000000', ('ustars', 70))
r = w.q({'bids_by_creator_collection': {'creator': 'buyer000000000', 'collection': 'collection0000', 'query_options': None}})
assert [x['collection'] for x in r] == ['collection0000'], r
''')
# ---------------------------------------------------------------- reserve auction
bug('ra-increment-floor', 'R02', 'a high bid whose increment is not a whole number',
    'the minimum next bid is rounded down, so a bid just below the required increment wins',
    [(RA + 'state.rs', """                .mul_ceil(Decimal::one() + min_bid_increment_percent),""", """                .mul_floor(Decimal::one() + min_bid_increment_percent),""")], '''
w = ra_world()
ra_create(w, 'collection0000', '1', 'seller00000000', 101)
assert ra_bid(w, 'collection0000', '1', 'biddera0000000', 101) is not None
assert ra_bid(w, 'collection0000', '1', 'bidderb0000000', 111) is None, '111 is less than 110 % of 101'
''')
bug('ra-extension-short', 'R03', 'a bid shortly before the end of an auction whose duration is shorter than the extension',
    'the extension is capped by the duration of the auction, so less than the configured extension may remain',
    [(RA + 'execute.rs', 'auction.end_time = Some(block_time.plus_seconds(config.extend_duration));', 'auction.end_time =\n                    Some(block_time.plus_seconds(config.extend_duration.min(auction.duration)));')], '''
w = ra_world()
ra_create(w, 'collection0000', '1', 'seller00000000', 101, duration=100)
assert ra_bid(w, 'collection0000', '1', 'biddera0000000', 101) is not None
w.time += 99 * 10**9
assert ra_bid(w, 'collection0000', '1', 'bidderb0000000', 201) is not None
a = w.q({'auction': {'collection': 'collection0000', 'token_id': '1'}})
assert int(a['end_time']) >= w.time + 900 * 10**9, a
''')
bug('ra-halt-window-latest-only', 'R08', 'two recorded halt windows and an auction ending inside the older one',
    'only the newest halt window postpones auctions',
    [(RA + 'state.rs', 'for halt_info in &self.halt_windows {', 'if let Some(halt_info) = self.halt_windows.last() {')], '''
w = ra_world(max_auctions_to_settle_per_block=1)


def blk(dt):
    w.time += dt * 10**9
    w.ok('sudo', {'begin_block': {}})
    w.ok('sudo', {'end_block': {}})


blk(0)
ra_create(w, 'collection0000', '1', 'seller00000000', 101, duration=500)
assert ra_bid(w, 'collection0000', '1', 'biddera0000000', 101) is not None
ra_create(w, 'collection0000', '2', 'seller00000000', 101, duration=900)
assert ra_bid(w, 'collection0000', '2', 'biddera0000000', 101) is not None
blk(1000)
blk(950)
assert w.q({'auction': {'collection': 'collection0000', 'token_id': '2'}}) is not None, 'settled although it ended in a halt'
''')
bug('ra-unset-prices', 'R09', 'a removal of minimum prices that names an unknown denomination after a known one',
    'removing an unknown denomination is silently accepted once one of the list exists',
    [(RA + 'sudo.rs', 'for denom in denoms {\n        if !MIN_RESERVE_PRICES.has(deps.storage, denom.clone()) {', 'for (i, denom) in denoms.into_iter().enumerate() {\n        if i == 0 && !MIN_RESERVE_PRICES.has(deps.storage, denom.clone()) {')], '''
w = ra_world()
assert w.run('sudo', {'unset_min_reserve_prices': {'denoms': ['ustars', 'unknown']}}) is None, 'accepted'
''')
bug('ra-settle-limit-u8', 'R07', 'a configured number of settlements per block that is a multiple of 256',
    'the number of auctions settled per block is truncated to eight bits, so with 256 none is ever settled',
    [(RA + 'sudo.rs', 'let limit = config.max_auctions_to_settle_per_block as usize;', 'let limit = config.max_auctions_to_settle_per_block as u8 as usize;')], '''
w = ra_world(max_auctions_to_settle_per_block=256)
ra_create(w, 'collection0000', '1', 'seller00000000', 101, duration=1000)
assert ra_bid(w, 'collection0000', '1', 'biddera0000000', 101) is not None
w.time += 1001 * 10**9
w.ok('sudo', {'end_block': {}})
assert w.q({'auction': {'collection': 'collection0000', 'token_id': '1'}}) is None, 'not settled'
''')
bug('ra-cancel-recipient', 'R05', 'an auction with a funds recipient that is cancelled',
    'the NFT of a cancelled auction goes to the recipient of the proceeds instead of the seller',
    [(RA + 'execute.rs', '.add_submessage(transfer_nft(&collection, token_id, &auction.seller));', '.add_submessage(transfer_nft(\n            &collection,\n            token_id,\n            &auction.funds_recipient(),\n        ));')], '''
w = ra_world()
ra_create(w, 'collection0000', '1', 'seller00000000', 101, recipient='recipient00000')
w.xok({'cancel_auction': {'collection': 'collection0000', 'token_id': '1'}}, 'seller00000000')
assert w.owner['collection0000', '1'] == 'seller00000000', w.owner
''')
bug('ra-reserve-price-denom', 'R06', 'a change of the reserve price that keeps the amount and changes only the denomination',
    'a changed reserve price is checked against the minimum only when its amount goes down, so a denomination with a higher minimum (or none) gets in',
    [(RA + 'execute.rs', ("    validate_reserve_price(deps.as_ref().storage, &reserve_price)?;\n", 2),
      "    if reserve_price.amount < auction.reserve_price.amount {\n        validate_reserve_price(deps.as_ref().storage, &reserve_price)?;\n    }\n")], '''
w = ra_world()
ra_create(w, 'collection0000', '1', 'seller00000000', 101)
assert w.x({'update_reserve_price': {'collection': 'collection0000', 'token_id': '1', 'reserve_price': {'denom': 'unknown', 'amount': '101'}}}, 'seller00000000') is None, 'accepted a denomination that is not allowed'
''')
bug('ra-query-limit', 'R10', 'a query with an explicit limit above the maximum',
    'queries may return more than the maximum number of auctions',
    [(RA + 'query.rs', ("""        .take(limit)
        .map(|item| item.map(|(_, v)| v))""", 1), """        .take(limit + 1)
        .map(|item| item.map(|(_, v)| v))""")], '''
w = ra_world()
for i in range(3):
    ra_create(w, 'collection0000', str(i), 'seller00000000', 101)
r = w.q({'auctions_by_seller': {'seller': 'seller00000000', 'query_options': {'descending': None, 'limit': 2, 'start_after': None}}})
assert len(r) == 2, len(r)
''')
# ---------------------------------------------------------------- v1
bug('v1-stale-reward-rounding', 'L07', 'a stale collection bid whose reward is not a whole number',
    'the reward is rounded up instead of down, at the bidder\'s expense',
    [(V1 + 'execute.rs', '    let reward = collection_bid.price * params.bid_removal_reward_percent / Uint128::from(100u128);',
      """    let reward = collection_bid
        .price
        .mul_ceil(params.bid_removal_reward_percent / Uint128::from(100u128));""")], '''
w = v1_world()
w.xok({'set_collection_bid': {'collection': 'collection0000', 'expires': str(w.time + 100 * 10**9), 'finders_fee_bps': None}}, 'bidder00000000', ('ustars', 111))
w.time += 1000 * 10**9
w.xok({'remove_stale_collection_bid': {'collection': 'collection0000', 'bidder': 'bidder00000000'}}, 'operator000000')
assert w.b(w.me, 'ustars') == 0, w.bal
assert w.b('operator000000', 'ustars') == 5, w.bal
''')
bug('v1-listing-of-former-owner', 'L04', 'a listing whose seller has transferred the NFT away, then a bid at the asking price',
    'the check of the owner is only made when the listing is reserved',
    [(V1 + 'execute.rs', 'if ask.seller != owner {', 'if ask.reserve_for.is_some() && ask.seller != owner {')], '''
w = v1_world()
v1_ask(w, 'collection0000', 1, 'seller00000000', 100)
w.owner['collection0000', '1'] = 'newowner000000'
assert v1_bid(w, 'collection0000', 1, 'bidder00000000', 100) is None, 'sold by the former owner'
''')
bug('v1-bid-expiry-boundary', 'L04', 'a bid accepted exactly at its expiry time',
    'an order still trades in the block at which it expires',
    [(V1 + 'execute.rs', ('if bid.is_expired(&env.block) {', 1), 'if bid.expires_at < env.block.time {')], '''
w = v1_world()
w.owner['collection0000', '1'] = 'seller00000000'
e = w.time + 100 * 10**9
assert v1_bid(w, 'collection0000', 1, 'bidder00000000', 100, expires=e) is not None, w.error
w.time = e
assert w.x({'accept_bid': {'collection': 'collection0000', 'token_id': 1, 'bidder': 'bidder00000000', 'finder': None}}, 'seller00000000') is None, 'sold at expiry'
''')
bug('v1-replaced-collection-bid', 'L06', 'a second collection bid of the same bidder after a bid of another bidder',
    'replacing a collection bid refunds the new price instead of the old one',
    [(V1 + 'execute.rs', ("amount: vec![coin(bid.price.u128(), NATIVE_DENOM)],", 2), "amount: vec![coin(bid.price.min(price).u128(), NATIVE_DENOM)],")], '''
w = v1_world()
m = {'set_collection_bid': {'collection': 'collection0000', 'expires': str(w.time + 100 * 10**9), 'finders_fee_bps': None}}
w.xok(m, 'bidder00000000', ('ustars', 200))
w.xok(m, 'bidder00000000', ('ustars', 100))
assert w.b('bidder00000000', 'ustars') == -100, w.bal
''')
bug('v1-finder-fee-of-listing', 'L02', 'an accepted bid on a listed NFT where listing and bid promise different finder fees',
    "an accepted bid pays the finder the listing's fee instead of the fee of the bid",
    [(V1 + 'execute.rs', ("""    if asks().may_load(deps.storage, ask_key.clone())?.is_some() {
        asks().remove(deps.storage, ask_key)?;
    }
""", 1), """    let listed = asks().may_load(deps.storage, ask_key.clone())?;
    if listed.is_some() {
        asks().remove(deps.storage, ask_key)?;
    }
"""), (V1 + 'execute.rs', ("finders_fee_bps: bid.finders_fee_bps,", 1), "finders_fee_bps: listed\n            .and_then(|a| a.finders_fee_bps)\n            .or(bid.finders_fee_bps),")], '''
w = v1_world()
v1_ask(w, 'collection0000', 1, 'seller00000000', 20000, finders_fee_bps=500)
assert v1_bid(w, 'collection0000', 1, 'bidder00000000', 10000, finders_fee_bps=100) is not None, w.error
w.xok({'accept_bid': {'collection': 'collection0000', 'token_id': 1, 'bidder': 'bidder00000000', 'finder': 'finder00000000'}}, 'seller00000000')
assert w.b('finder00000000', 'ustars') == 100, w.bal
''')
bug('v1-sync-expired', 'L07', 'synchronising a listing whose approval is back after it was marked inactive, when it has expired',
    'synchronising keeps an expired listing inactive although the marketplace is approved again',
    [(V1 + 'execute.rs', 'ask.is_active = res.is_ok();', 'ask.is_active = res.is_ok() && !ask.is_expired(&env.block);')], '''
w = v1_world()
v1_ask(w, 'collection0000', 1, 'seller00000000', 100, expires=w.time + 100 * 10**9)
w.approved.clear()
m = {'sync_ask': {'collection': 'collection0000', 'token_id': 1}}
w.xok(m, 'operator000000')
w.time += 1000 * 10**9
w.approved.add(('collection0000', '1'))
w.xok(m, 'operator000000')
a = w.q({'ask': {'collection': 'collection0000', 'token_id': 1}})['ask']
assert a['is_active'] is True, a
''')
# ---------------------------------------------------------------- second batch
bug('v1-finder-is-seller', 'L01', "a sale whose finder is the seller's own payment address",
    "the finder's fee is deducted from the seller's share but not sent when the finder is the one who is paid anyway, so it stays in the contract",
    [(V1 + 'execute.rs', ('if finders_fee > 0 {', 1), 'if finders_fee > 0 && finder != payment_recipient {')], '''
w = v1_world()
v1_ask(w, 'collection0000', 1, 'seller00000000', 10000, finders_fee_bps=500)
assert v1_bid(w, 'collection0000', 1, 'bidder00000000', 10000, finder='seller00000000') is not None, w.error
assert w.b(w.me, 'ustars') == 0, w.bal
''')
bug('v1-lister-rejects', 'L03', 'a listing whose seller has transferred the NFT away, and a bid that rests on it',
    'the seller of a listing can still reject bids on the NFT after giving it away',
    [(V1 + 'execute.rs', ("""    nonpayable(&info)?;
    only_owner(deps.as_ref(), &info, &collection, token_id)?;

    let bid_key""", 1), """    nonpayable(&info)?;
    let listed = asks().may_load(deps.storage, ask_key(&collection, token_id))?;
    if listed.map_or(true, |ask| ask.seller != info.sender) {
        only_owner(deps.as_ref(), &info, &collection, token_id)?;
    }

    let bid_key""")], '''
w = v1_world()
v1_ask(w, 'collection0000', 1, 'seller00000000', 100)
w.owner['collection0000', '1'] = 'newowner000000'
assert v1_bid(w, 'collection0000', 1, 'bidder00000000', 50) is not None, w.error
r = w.x({'reject_bid': {'collection': 'collection0000', 'token_id': 1, 'bidder': 'bidder00000000'}}, 'seller00000000')
assert r is None, 'rejected by someone who does not own the NFT'
''')
bug('v1-auction-price-cap', 'L05', 'the asking price of an auction-type listing is changed to more than the fixed maximum',
    'the maximum price is only enforced for fixed-price listings when a price is changed',
    [(V1 + 'execute.rs', ("""    price_validate(deps.storage, &price)?;
    if price.amount.u128() > MAX_FIXED_PRICE_ASK_AMOUNT {
        return Err(ContractError::PriceTooHigh(price.amount));
    }

    let key = ask_key(&collection, token_id);

    let mut ask = asks().load(deps.storage, key.clone())?;
""", 1), """    price_validate(deps.storage, &price)?;

    let key = ask_key(&collection, token_id);

    let mut ask = asks().load(deps.storage, key.clone())?;
    if ask.sale_type == SaleType::FixedPrice && price.amount.u128() > MAX_FIXED_PRICE_ASK_AMOUNT {
        return Err(ContractError::PriceTooHigh(price.amount));
    }
""")], '''
w = v1_world()
v1_ask(w, 'collection0000', 1, 'seller00000000', 100, sale='auction')
m = {'update_ask_price': {'collection': 'collection0000', 'token_id': 1, 'price': {'denom': 'ustars', 'amount': '1000000000000000000'}}}
assert w.x(m, 'seller00000000') is None, 'a price above the maximum was accepted'
''')
bug('v1-inactive-listing-left', 'L08', 'a bid is accepted on an NFT whose listing was marked inactive',
    'accepting a bid leaves an inactive listing of the sold NFT on the book',
    [(V1 + 'execute.rs', ("""    if asks().may_load(deps.storage, ask_key.clone())?.is_some() {
        asks().remove(deps.storage, ask_key)?;
    }
""", 1), """    if let Some(listed) = asks().may_load(deps.storage, ask_key.clone())? {
        if listed.is_active {
            asks().remove(deps.storage, ask_key)?;
        }
    }
""")], '''
w = v1_world()
v1_ask(w, 'collection0000', 1, 'seller00000000', 100)
assert v1_bid(w, 'collection0000', 1, 'bidder00000000', 50) is not None, w.error
w.approved.clear()
w.xok({'sync_ask': {'collection': 'collection0000', 'token_id': 1}}, 'operator000000')
w.xok({'accept_bid': {'collection': 'collection0000', 'token_id': 1, 'bidder': 'bidder00000000', 'finder': None}}, 'seller00000000')
assert w.owner['collection0000', '1'] == 'bidder00000000'
assert w.q({'ask': {'collection': 'collection0000', 'token_id': 1}})['ask'] is None, 'the listing is still there'
''')
bug('v1-expiry-range-unbounded', 'L09', 'governance sets an expiry range with a maximum of zero',
    'a range whose maximum is zero is accepted as unlimited although its minimum is above it, so no order can be placed any more',
    [(V1 + 'helpers.rs', 'if self.min > self.max {', 'if self.max > 0 && self.min > self.max {')], '''
w = v1_world()
m = dict(trading_fee_bps=None, ask_expiry=None, bid_expiry={'min': 10, 'max': 0}, operators=None, max_finders_fee_bps=None, min_price=None,
         stale_bid_duration=None, bid_removal_reward_bps=None, listing_fee=None)
assert w.run('sudo', {'update_params': m}) is None, 'an expiry range with minimum above maximum was accepted'
''')
bug('v1-hook-of-inactive', 'L10', 'an inactive listing is withdrawn while a listing hook is registered',
    'the hooks are not told about the removal of a listing that had been marked inactive',
    [(V1 + 'execute.rs', ("let hook = prepare_ask_hook(deps.as_ref(), &ask, HookAction::Delete)?;", 1),
      """let hook = if ask.is_active {
        prepare_ask_hook(deps.as_ref(), &ask, HookAction::Delete)?
    } else {
        vec![]
    };""")], '''
w = v1_world()
w.ok('sudo', {'add_ask_hook': {'hook': 'hook0000000000'}})
v1_ask(w, 'collection0000', 1, 'seller00000000', 100)
w.approved.clear()
w.xok({'sync_ask': {'collection': 'collection0000', 'token_id': 1}}, 'operator000000')
w.xok({'remove_ask': {'collection': 'collection0000', 'token_id': 1}}, 'seller00000000')
assert [m for m in w.msgs if 'wasm' in m and m['wasm']['execute']['contract_addr'] == 'hook0000000000'], w.msgs
''')
bug('v1-offset-repeated', 'L11', 'paging through a bidder\'s collection bids by expiry, the offset being an order that is still there',
    'a page starts with the order given as the offset again',
    [(V1 + 'query.rs', """                Some(collection_bid) => Some(Bound::exclusive((
                    collection_bid.expires_at.seconds(),""", """                Some(collection_bid) => Some(Bound::inclusive((
                    collection_bid.expires_at.seconds(),""")], """
w = v1_world()
for i, c in enumerate(('collectiona000', 'collectionb000')):
    w.xok({'set_collection_bid': {'collection': c, 'expires': str(w.time + (100 + i) * 10**9), 'finders_fee_bps': None}}, 'biddera0000000', ('ustars', 100))
r = w.q({'collection_bids_by_bidder_sorted_by_expiration': {'bidder': 'biddera0000000', 'limit': None,
         'start_after': {'price': '100', 'collection': 'collectiona000', 'bidder': 'biddera0000000'}}})['bids']
assert [b['collection'] for b in r] == ['collectionb000'], r
""")
bug('v1-inactive-fill-the-page', 'L11', 'the first listings of a collection are inactive and the page is shorter than the collection',
    'inactive listings count towards the page limit, so a query returns fewer listings than there are and paging stops early',
    [(V1 + 'query.rs', ("""        .filter(|item| match item {
            Ok((_, ask)) => match include_inactive {
                Some(true) => true,
                _ => ask.is_active,
            },
            Err(_) => true,
        })
        .take(limit)
""", 3), """        .take(limit)
        .filter(|item| match item {
            Ok((_, ask)) => match include_inactive {
                Some(true) => true,
                _ => ask.is_active,
            },
            Err(_) => true,
        })
""")], '''
w = v1_world()
v1_ask(w, 'collection0000', 1, 'seller00000000', 100)
v1_ask(w, 'collection0000', 2, 'seller00000000', 200)
w.approved.clear()
w.xok({'sync_ask': {'collection': 'collection0000', 'token_id': 1}}, 'operator000000')
r = w.q({'asks_sorted_by_price': {'collection': 'collection0000', 'include_inactive': None, 'start_after': None, 'limit': 1}})['asks']
assert [a['token_id'] for a in r] == [2], r
''')
bug('v1-tradable-second', 'L12', "a listing in the same second as, but before, the collection's start of trading",
    'the start of trading is compared in whole seconds',
    [(V1 + 'execute.rs', 'if start_trading_time > block.time {', 'if start_trading_time.seconds() > block.time.seconds() {')], '''
w = v1_world()
w.start['collection0000'] = w.time + 5 * 10**8
w.owner['collection0000', '1'] = 'seller00000000'
w.approved.add(('collection0000', '1'))
m = dict(sale_type='fixed_price', collection='collection0000', token_id=1, price={'denom': 'ustars', 'amount': '100'}, funds_recipient=None, reserve_for=None,
         finders_fee_bps=None, expires=str(w.time + 1000 * 10**9))
assert w.x({'set_ask': m}, 'seller00000000') is None, 'listed before the start of trading'
''')
bug('ra-own-outbid', 'R01', 'the high bidder raises the own bid',
    'a bidder who raises the own high bid does not get the earlier bid back; it stays in the contract',
    [(RA + 'execute.rs', """            let previous_high_bid = auction.high_bid.unwrap();
            response = response.add_submessage(checked_transfer_coin(
                previous_high_bid.coin.clone(),
                &previous_high_bid.bidder,
            )?);
""", """            let previous_high_bid = auction.high_bid.unwrap();
            if previous_high_bid.bidder != next_bid.bidder {
                response = response.add_submessage(checked_transfer_coin(
                    previous_high_bid.coin.clone(),
                    &previous_high_bid.bidder,
                )?);
            }
""")], '''
w = ra_world()
ra_create(w, 'collection0000', '1', 'seller00000000', 100)
assert ra_bid(w, 'collection0000', '1', 'bidder00000000', 100) is not None, w.error
assert ra_bid(w, 'collection0000', '1', 'bidder00000000', 200) is not None, w.error
assert w.b(w.me, 'ustars') == 200, w.bal
''')
bug('ra-settle-second', 'R04', 'an auction is settled in the last second before its end time',
    'the end time is compared in whole seconds, so an auction can be settled before it ends',
    [(RA + 'helpers.rs', 'auction.end_time.is_some() && auction.end_time.unwrap() <= block_time,', 'auction\n            .end_time\n            .map_or(false, |end| end.seconds() <= block_time.seconds()),')], '''
w = ra_world()
ra_create(w, 'collection0000', '1', 'seller00000000', 100, duration=1000)
w.time += 7 * 10**8
assert ra_bid(w, 'collection0000', '1', 'bidder00000000', 100) is not None, w.error
w.time += 1000 * 10**9 - 2 * 10**8
assert w.x({'settle_auction': {'collection': 'collection0000', 'token_id': '1'}}, 'anyone00000000') is None, 'settled before its end'
''')
# ---------------------------------------------------------------- upgrades, refusals, empty payments
bug('v1-upgrade-text-order', 'L13', 'a recorded version such as 1.10.0 that is newer than the code but sorts before it as text',
    'the check against going back compares the versions as text, so a newer state is downgraded',
    [(V1 + 'execute.rs', '    if version > new_version {', '    if current_version.version.as_str() > CONTRACT_VERSION {')], '''
import json
w = v1_world()


def record(version):
    n = 0
    for e in w.storage:
        k = bytes.fromhex(e[0]) if not isinstance(e[0], bytes) else e[0]
        if k == b'contract_info':
            e[1] = json.dumps({'contract': 'crates.io:sg-marketplace', 'version': version}).encode().hex()
            n += 1
    assert n == 1


record('1.0.0')
assert w.run('migrate', {}) is not None, w.error
record('1.10.0')
assert w.run('migrate', {}) is None, 'went back from 1.10.0'
record('99.0.0')
assert w.run('migrate', {}) is None, 'went back from 99.0.0'
''')
bug('v1-remove-foreign-listing', 'L14', 'a listing left behind by a former owner, which the new owner wants off the book',
    'only the account that listed it can remove a listing, so the new owner cannot',
    [(V1 + 'execute.rs', """    let ask = asks().load(deps.storage, key.clone())?;
    asks().remove(deps.storage, key)?;

    let hook = prepare_ask_hook(""", """    let ask = asks().load(deps.storage, key.clone())?;
    if ask.seller != info.sender {
        return Err(ContractError::UnauthorizedOwner {});
    }
    asks().remove(deps.storage, key)?;

    let hook = prepare_ask_hook(""")], '''
w = v1_world()
v1_ask(w, 'collection0000', 1, 'seller00000000', 100)
w.owner['collection0000', '1'] = 'newowner000000'
w.xok({'remove_ask': {'collection': 'collection0000', 'token_id': 1}}, 'newowner000000')
''')
bug('v1-reject-expired', 'L14', 'a bid that has expired and that the owner wants to reject',
    'an expired bid can no longer be rejected',
    [(V1 + 'execute.rs', """pub fn execute_reject_bid(
    deps: DepsMut,
    _env: Env,""", """pub fn execute_reject_bid(
    deps: DepsMut,
    env: Env,"""),
     (V1 + 'execute.rs', ("""    bids().remove(deps.storage, bid_key)?;

    let refund_msg""", 1), """    if bid.is_expired(&env.block) {
        return Err(ContractError::BidExpired {});
    }
    bids().remove(deps.storage, bid_key)?;

    let refund_msg""")], '''
w = v1_world()
w.owner['collection0000', '1'] = 'seller00000000'
assert v1_bid(w, 'collection0000', 1, 'bidder00000000', 100, expires=w.time + 100 * 10**9) is not None, w.error
w.time += 200 * 10**9
w.xok({'reject_bid': {'collection': 'collection0000', 'token_id': 1, 'bidder': 'bidder00000000'}}, 'seller00000000')
assert w.b('bidder00000000', 'ustars') == 0
''')
bug('v1-finders-fee-at-cap', 'L15', "a collection bid with a finder's fee of exactly the allowed maximum",
    "a finder's fee of exactly the maximum is refused",
    [(V1 + 'execute.rs', ('if Decimal::percent(fee) > params.max_finders_fee_percent {', 3), 'if Decimal::percent(fee) >= params.max_finders_fee_percent {')], '''
w = v1_world()
w.xok({'set_collection_bid': {'collection': 'collection0000', 'expires': str(w.time + 100 * 10**9), 'finders_fee_bps': 1000}}, 'bidder00000000', ('ustars', 200))
''')
bug('v1-accept-over-expired-listing', 'L15', 'an owner who accepts a live bid while an own listing of the NFT has expired',
    'a forgotten expired listing keeps the owner from accepting any bid',
    [(V1 + 'execute.rs', """    if asks().may_load(deps.storage, ask_key.clone())?.is_some() {
        asks().remove(deps.storage, ask_key)?;
    }

    // Create a temporary Ask
    let ask = Ask {
        sale_type: SaleType::Auction,
        collection: collection.clone(),
        token_id,
        price: bid.price,
        expires_at: bid.expires_at,
        is_active: true,
        seller: info.sender.clone(),
        funds_recipient: Some(info.sender),
        reserve_for: None,
        finders_fee_bps: bid.finders_fee_bps,
    };

    // Remove accepted bid
    bids()""", """    if let Some(existing) = asks().may_load(deps.storage, ask_key.clone())? {
        if existing.is_expired(&env.block) {
            return Err(ContractError::AskExpired {});
        }
        asks().remove(deps.storage, ask_key)?;
    }

    // Create a temporary Ask
    let ask = Ask {
        sale_type: SaleType::Auction,
        collection: collection.clone(),
        token_id,
        price: bid.price,
        expires_at: bid.expires_at,
        is_active: true,
        seller: info.sender.clone(),
        funds_recipient: Some(info.sender),
        reserve_for: None,
        finders_fee_bps: bid.finders_fee_bps,
    };

    // Remove accepted bid
    bids()""")], '''
w = v1_world()
v1_ask(w, 'collection0000', 1, 'seller00000000', 100, expires=w.time + 100 * 10**9)
assert v1_bid(w, 'collection0000', 1, 'bidder00000000', 80) is not None, w.error
w.time += 200 * 10**9
w.xok({'accept_bid': {'collection': 'collection0000', 'token_id': 1, 'bidder': 'bidder00000000', 'finder': None}}, 'seller00000000')
''')
bug('v1-empty-finder-payment', 'L16', "a sale with a finder named whose fee rounds down to nothing",
    "a payment of nothing is sent to the finder, which the bank rejects",
    [(V1 + 'execute.rs', '            if finders_fee > 0 {', '            if finders_fee_bps.is_some() {')], '''
w = v1_world()
v1_ask(w, 'collection0000', 1, 'seller00000000', 150, finders_fee_bps=50)
assert v1_bid(w, 'collection0000', 1, 'bidder00000000', 150, finder='finder00000000') is not None, w.error
for m in w.msgs:
    if 'bank' in m:
        for v in m['bank'].values():
            assert v['amount'] and all(int(c['amount']) > 0 for c in v['amount']), m
''')
bug('ra-cancel-needs-denom', 'R11', 'an auction whose denomination governance has removed since',
    'an auction in a denomination that is no longer allowed cannot be cancelled, so its NFT stays locked',
    [(RA + 'execute.rs', ("""        auction.first_bid_time.is_none(),
        ContractError::AuctionStarted {}
    );

    // Remove auction""", 1), """        auction.first_bid_time.is_none(),
        ContractError::AuctionStarted {}
    );
    validate_reserve_price(deps.as_ref().storage, &auction.reserve_price)?;

    // Remove auction""")], '''
w = ra_world()
ra_create(w, 'collection0000', '1', 'seller00000000', 100)
w.ok('sudo', {'unset_min_reserve_prices': {'denoms': ['ustars']}})
w.xok({'cancel_auction': {'collection': 'collection0000', 'token_id': '1'}}, 'seller00000000')
assert w.owner['collection0000', '1'] == 'seller00000000'
''')
bug('ra-recipient-cannot-bid', 'R12', "an auction with another account as funds recipient, and a bid from that account",
    "a bid from the seller's funds recipient is refused although only the seller must not bid",
    [(RA + 'execute.rs', "auction.seller != info.sender,\n        ContractError::SellerShouldNotBid {}",
      "auction.seller != info.sender && auction.funds_recipient() != info.sender,\n        ContractError::SellerShouldNotBid {}")], '''
w = ra_world()
ra_create(w, 'collection0000', '1', 'seller00000000', 100, recipient='friend00000000')
assert ra_bid(w, 'collection0000', '1', 'friend00000000', 100) is not None, w.error
''')
bug('ra-empty-creation-fee', 'R13', 'a creation fee of zero',
    'with a creation fee of zero a burn of nothing is requested, which the burn contract rejects, so no auction can be opened',
    [(RA + 'execute.rs', """        );
        response = append_fair_burn_msg(
            &config.fair_burn,
            vec![config.create_auction_fee],
            None,
            response,
        );
    }
""", """        );
    }
    response = append_fair_burn_msg(
        &config.fair_burn,
        vec![config.create_auction_fee],
        None,
        response,
    );
""")], '''
w = ra_world(create_auction_fee={'denom': 'ustars', 'amount': '0'})
w.owner['collection0000', '1'] = 'seller00000000'
w.approved.add(('collection0000', '1'))
w.xok({'create_auction': {'collection': 'collection0000', 'token_id': '1', 'reserve_price': {'denom': 'ustars', 'amount': '100'}, 'duration': 1000,
                          'seller_funds_recipient': None}}, 'seller00000000')
for m in w.msgs:
    for c in m.get('wasm', {}).get('execute', {}).get('funds', []):
        assert int(c['amount']) > 0, m
''')
bug('v2-withdrawal-needs-trading', 'M12', 'a collection that postpones its start of trading while a bid rests',
    'a bid cannot be withdrawn while the collection is not tradable, so its coins are locked',
    [(V2 + 'execute.rs', """pub fn execute_remove_bid(
    deps: DepsMut,
    _env: Env,""", """pub fn execute_remove_bid(
    deps: DepsMut,
    env: Env,"""),
     (V2 + 'execute.rs', """    let refund = bid.details.price.clone();
""", """    only_tradable(&deps.querier, &env.block, &bid.collection)?;

    let refund = bid.details.price.clone();
""")], '''
w = v2_world()
w.owner['collection0000', '1'] = 'seller00000000'
w.xok({'set_bid': {'collection': 'collection0000', 'token_id': '1', 'details': det(70)}}, 'buyer000000000', ('ustars', 70))
b = w.q({'bids_by_token_price': {'collection': 'collection0000', 'token_id': '1', 'denom': 'ustars', 'query_options': None}})[0]
w.start['collection0000'] = w.time + 10**15
w.xok({'remove_bid': {'id': b['id']}}, 'buyer000000000')
assert w.b('buyer000000000', 'ustars') == 0
''')
bug('v2-accept-only-at-price', 'M13', 'a listing whose price was lowered before the acceptance arrives',
    'accepting a listing at a maximum above its price is refused',
    [(V2 + 'execute.rs', ('has_coins(&[details.price.clone()], &ask.details.price),', 1), 'details.price == ask.details.price,')], '''
w = v2_world()
v2_list(w, 'collection0000', '1', 'seller00000000', det(100))
a = w.q({'asks_by_collection_denom': {'collection': 'collection0000', 'denom': 'ustars', 'query_options': None}})[0]
w.xok({'accept_ask': {'id': a['id'], 'details': det(120)}}, 'buyer000000000', ('ustars', 120))
assert w.owner['collection0000', '1'] == 'buyer000000000'
assert w.b('buyer000000000', 'ustars') == -100
''')
bug('v2-empty-seller-payment', 'M14', 'a sale whose fees take the whole price, such as one of a single unit',
    'a payment of nothing is sent to the seller, which the bank rejects',
    [(CM + 'sale.rs', 'if !seller_amount.is_zero() {', "if !self.sale_coin.amount.is_zero() {")], '''
w = v2_world()
v2_list(w, 'collection0000', '1', 'seller00000000', det(1))
w.xok({'buy_specific_nft': {'collection': 'collection0000', 'token_id': '1', 'details': det(1)}}, 'buyer000000000', ('ustars', 1))
for m in w.msgs:
    if 'bank' in m:
        for v in m['bank'].values():
            assert v['amount'] and all(int(c['amount']) > 0 for c in v['amount']), m
''')
bug('v2-denom-back-to-default', 'M15', 'a collection whose denomination is switched back to the default one',
    'setting the denomination of a collection to the default one is refused, so an earlier choice cannot be undone',
    [(V2 + 'execute.rs', """    COLLECTION_DENOMS.save(deps.storage, collection.clone(), &denom)?;
""", """    if CONFIG.load(deps.storage)?.default_denom == denom {
        return Err(ContractError::InvalidInput(
            "already the default denom".to_string(),
        ));
    }
    COLLECTION_DENOMS.save(deps.storage, collection.clone(), &denom)?;
""")], '''
w = v2_world()
w.xok({'update_collection_denom': {'collection': 'collection0000', 'denom': 'uatom'}}, w.admin)
w.xok({'update_collection_denom': {'collection': 'collection0000', 'denom': 'ustars'}}, w.admin)
''')
bug('v2-migrate-resets-counter', 'M16', 'an upgrade after orders were created',
    'an upgrade restarts the counter that makes bid identifiers unique',
    [(V2 + 'migrate.rs', """    set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
""", """    set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
    crate::state::NONCE.save(deps.storage, &0)?;
""")], '''
w = v2_world()
w.xok({'set_bid': {'collection': 'collection0000', 'token_id': '1', 'details': det(70)}}, 'buyer000000000', ('ustars', 70))
before = sorted(map(str, w.storage))
assert w.run('migrate', {}) is not None, w.error
assert sorted(map(str, w.storage)) == before
''')
bug('ra-fee-denom-must-be-listed', 'R14', 'a creation fee in a denomination in which no auction is held',
    'governance cannot charge the creation fee in a denomination without a minimum reserve price',
    [(RA + 'sudo.rs', '''        config.create_auction_fee = create_auction_fee;
''', '''        if !MIN_RESERVE_PRICES.has(deps.storage, create_auction_fee.denom.clone()) {
            return Err(ContractError::InvalidInput("unknown denom".to_string()));
        }
        config.create_auction_fee = create_auction_fee;
''')], '''
w = ra_world()
w.ok('sudo', {'update_params': {'create_auction_fee': {'denom': 'ufee', 'amount': '5'}}})
assert w.q({'config': {}})['create_auction_fee'] == {'denom': 'ufee', 'amount': '5'}
''')
bug('ra-migrate-forgets-halts', 'R15', 'an upgrade right after a chain halt, which is when upgrades happen',
    'an upgrade drops the recorded halt windows, so auctions that ended inside one are settled instead of postponed',
    [(RA + 'migrate.rs', """    Ok(Response::new())
""", """    crate::state::HALT_MANAGER.update(deps.storage, |mut h| -> Result<_, ContractError> {
        h.halt_windows.clear();
        Ok(h)
    })?;

    Ok(Response::new())
""")], '''
w = ra_world()
w.ok('sudo', {'begin_block': {}})
w.time += 10000 * 10**9
w.ok('sudo', {'begin_block': {}})
before = w.q({'halt_manager': {}})
assert len(before['halt_windows']) == 1, before
assert w.run('migrate', {}) is not None, w.error
assert w.q({'halt_manager': {}}) == before
''')
bug('v1-last-operator', 'L17', 'removing the only operator',
    'the last operator cannot be removed, so a compromised one stays',
    [(V1 + 'sudo.rs', 'if let Some(i) = params.operators.iter().position(|o| o == operator) {\n',
      """if let Some(i) = params
        .operators
        .iter()
        .position(|o| o == operator)
        .filter(|_| params.operators.len() > 1)
    {
""")], '''
w = v1_world()
w.ok('sudo', {'remove_operator': {'operator': 'operator000000'}})
''')
bug('lib-fees-above-price', 'S01', 'fees that together exceed the price of the sale',
    'fees above the price are paid out, more than the buyer paid, instead of the sale being refused',
    [(CM + 'sale.rs', 'seller_amount.checked_sub(fee_amount)?', 'seller_amount.saturating_sub(fee_amount)')], '''
use cosmwasm_std::{coin, Addr, Decimal};
use sg_marketplace_common::sale::NftSaleProcessor;

fn main() {
    let mut p = NftSaleProcessor::new(coin(100, "ustars"), Addr::unchecked("seller"));
    p.add_fee("a".to_string(), Decimal::percent(60), Addr::unchecked("one"));
    p.add_fee("b".to_string(), Decimal::percent(60), Addr::unchecked("two"));
    assert!(p.build_payments().is_err());
}
''')
bug('lib-checked-first-coin', 'S02', 'several coins of which only a later one is empty',
    'a checked transfer lets an empty coin through when it is not the first',
    [(CM + 'coin.rs', 'for item in &funds {', 'if let Some(item) = funds.first() {')], '''
use cosmwasm_std::{coin, Addr, Response};
use sg_marketplace_common::coin::checked_transfer_coins;

fn main() {
    let to = Addr::unchecked("to");
    assert!(checked_transfer_coins(vec![coin(1, "a"), coin(2, "b")], &to, Response::new()).is_ok());
    assert!(checked_transfer_coins(vec![coin(0, "a"), coin(2, "b")], &to, Response::new()).is_err());
    assert!(checked_transfer_coins(vec![coin(1, "a"), coin(0, "b")], &to, Response::new()).is_err());
}
''')
bug('lib-approved-is-owner', 'S03', 'a sender whom the owner approved',
    'an approved operator passes the ownership check in place of the owner',
    [(CM + 'nft.rs', 'if owner_of_response.owner != info.sender {',
      """if owner_of_response.owner != info.sender
                && !owner_of_response
                    .approvals
                    .iter()
                    .any(|a| a.spender == info.sender)
            {""")], '''
use cosmwasm_std::testing::{mock_info, MockQuerier};
use cosmwasm_std::{Addr, Binary, ContractResult, QuerierWrapper, SystemResult};
use sg_marketplace_common::nft::only_owner;

fn main() {
    let mut q: MockQuerier = MockQuerier::new(&[]);
    let body = r#"{"owner":"owner","approvals":[{"spender":"friend","expires":{"never":{}}}]}"#;
    q.update_wasm(move |_| SystemResult::Ok(ContractResult::Ok(Binary(body.as_bytes().to_vec()))));
    let w: QuerierWrapper = QuerierWrapper::new(&q);
    let c = Addr::unchecked("collection");
    assert!(only_owner(&w, &mock_info("owner", &[]), &c, "1").is_ok());
    assert!(only_owner(&w, &mock_info("friend", &[]), &c, "1").is_err());
    assert!(only_owner(&w, &mock_info("other", &[]), &c, "1").is_err());
}
''')
bug('lib-zero-protocol-royalty', 'S04', 'a protocol entry that sets the royalty to zero over a positive default entry',
    'the default royalty is charged although the collection agreed on none for this protocol',
    [(CM + 'royalties.rs', 'if let Some(royalty_protocol) = royalty_payment_response.royalty_protocol {',
      """if let Some(royalty_protocol) = royalty_payment_response
        .royalty_protocol
        .filter(|p| !p.royalty_entry.share.is_zero())
    {""")], '''
use cosmwasm_std::testing::MockQuerier;
use cosmwasm_std::{Addr, Binary, ContractResult, Decimal, QuerierWrapper, SystemResult};
use sg_marketplace_common::royalties::fetch_royalty_entry;

fn main() {
    let mut q: MockQuerier = MockQuerier::new(&[]);
    let body = r#"{"royalty_default":{"collection":"c","royalty_entry":{"recipient":"artist","share":"0.05","updated":null}},
        "royalty_protocol":{"collection":"c","protocol":"p","royalty_entry":{"recipient":"artist","share":"0","updated":null}}}"#;
    q.update_wasm(move |_| SystemResult::Ok(ContractResult::Ok(Binary(body.as_bytes().to_vec()))));
    let w: QuerierWrapper = QuerierWrapper::new(&q);
    let e = fetch_royalty_entry(&w, &Addr::unchecked("registry"), &Addr::unchecked("c"), Some(&Addr::unchecked("p"))).unwrap().unwrap();
    assert_eq!(e.share, Decimal::zero());
}
''')
bug('lib-addresses-thrice', 'S05', 'the same address three times in a list',
    'an address listed three times comes back twice',
    [(CM + 'address.rs', """    validated_addresses.dedup();
""", """    let mut i = 1;
    while i < validated_addresses.len() {
        if validated_addresses[i] == validated_addresses[i - 1] {
            validated_addresses.remove(i);
        }
        i += 1;
    }
""")], '''
use cosmwasm_std::testing::MockApi;
use cosmwasm_std::Addr;
use sg_marketplace_common::address::map_validate;

fn main() {
    let l: Vec<String> = ["bob", "alice", "bob", "bob"].iter().map(|s| s.to_string()).collect();
    let r = map_validate(&MockApi::default(), &l).unwrap();
    assert_eq!(r, vec![Addr::unchecked("alice"), Addr::unchecked("bob")]);
}
''')
