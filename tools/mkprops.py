#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the table below (kept as the single source of the statements)."""
import json, os
V2='contracts/stargaze-marketplace-v2/src/'; V1='contracts/marketplace/src/'; RA='contracts/reserve-auction/src/'; CM='packages/sg-marketplace-common/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                   mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=None)))
NOV2="The v2 unit tests are multi-test scenarios with fixed accounts, prices and at most a few orders, and most do not even run in the baseline; they cannot range over every book state, caller, price and payment."
NOV1="The v1 tests are hand-written scenarios with a handful of prices, fees and times; the claim ranges over every stored order, parameter set, payment and block time."
NORA="The auction tests replay a few fixed timelines; the claim ranges over every auction state, configuration, payment and block time."
H=["inputs","histories"]; HC=["inputs","histories","configurations"]
# ---------------- v2
p("M01","V2: coins received minus coins sent equals the change in escrowed bids",
 "For every message the new marketplace accepts, in every denomination, the coins attached to it minus the coins the contract sends out (refunds, payouts, forwarded fees) equal the change in the total price of the outstanding bids and collection bids it holds. So the contract can always refund every open order, and no payment is ever stranded in it or paid out twice.",
 HC,"every message, sender, attached funds, configuration and order book; inductively every history of messages",NOV2,
 [V2+"execute.rs",V2+"helpers.rs",CM+"sale.rs",CM+"coin.rs"],[("per-handler funds accounting with a normalised balance",V2+"execute.rs"),("sale settlement",V2+"helpers.rs finalize_sale")],
 [("bids","open token bids, price escrowed",V2+"state.rs"),("collection bids","open collection bids, price escrowed",V2+"state.rs")],["bank messages of the response","stored bids after the message"])
p("M02","V2: a listed NFT is in custody and leaves only to its buyer or its lister",
 "A listing exists exactly while the marketplace holds that NFT for it: creating a listing takes the NFT into custody, a sale sends that very NFT once to the recipient chosen by the buyer (the buyer by default) and ends the listing, and withdrawing a listing sends it to the recipient the lister chose (the lister by default). No other accepted message moves an NFT or creates, removes or reassigns a listing, and at most one listing exists per NFT.",
 HC,"every message, sender, order book and NFT owner answer",NOV2,
 [V2+"execute.rs",V2+"helpers.rs",V2+"orders.rs",CM+"nft.rs"],[("ask set/remove and NFT transfer message",V2+"execute.rs"),("sale",V2+"helpers.rs")],
 [("asks","listings; the NFT is escrowed",V2+"state.rs")],["NFT transfer messages of the response","stored asks"])
p("M03","V2: only the right party can list, change, cancel or sell",
 "Only the creator of an order can change or withdraw it, only the NFT's current owner (or the lister of its listing) can list it or sell it into a bid, and nobody else's order is ever modified by a message except by being executed in a sale. A message from anyone else is rejected without any effect.",
 H,"every sender, message and order book",NOV2,[V2+"execute.rs",CM+"nft.rs"],[("creator equality checks",V2+"execute.rs"),("owner query",CM+"nft.rs only_owner")],(),["result of execute","stored orders"])
p("M04","V2: no buyer overpays and no seller is undersold",
 "In every sale the buyer pays at most the price they offered and the seller's sale price is at least the price they asked, both in the denomination they named; the sale takes place at the price of the order that was already resting on the book. Whatever the buyer attached or had escrowed beyond the sale price is returned to the buyer in full within the same message.",
 HC,"every pair of resting and incoming order, with every payment",NOV2,[V2+"execute.rs",V2+"orders.rs",V2+"helpers.rs"],[("price limit checks and sale price selection",V2+"execute.rs, helpers.rs")],(),["bank messages of the response","removed orders"])
p("M05","V2: sale proceeds are split exactly, with every fee within its cap",
 "Each sale pays out exactly its price: the protocol fee and any maker and taker finder rewards together take the configured protocol share (rounding up by less than one unit per recipient), royalties take the smaller of the registered share and the configured maximum, and the seller's chosen recipient receives everything else. Finder rewards are the configured parts of the protocol fee, go only to the finders named by the two orders, and a sale whose fees exceed its price is rejected.",
 HC,"every price, fee configuration, royalty answer and finder combination",NOV2,[V2+"helpers.rs",CM+"sale.rs",CM+"royalties.rs"],[("fee split",V2+"helpers.rs divide_protocol_fees"),("payment building",CM+"sale.rs"),("royalty lookup",CM+"royalties.rs")],(),["bank messages of the response"])
p("M06","V2: incoming orders trade against the best resting order, or not at all",
 "A new or updated listing that some resting bid for that NFT or its collection can pay for is sold at once to a highest-priced such bid (a token bid wins ties), and a new or updated bid trades at once when the targeted listing, or for a collection bid the cheapest listing of the collection in its denomination, is affordable; otherwise the order rests on the book unchanged. An immediate-only buy or sell order is rejected when nothing matches and never rests.",
 HC,"every order book (any number of rows) and every incoming order",NOV2,[V2+"orders.rs",V2+"query.rs",V2+"execute.rs"],[("matching",V2+"orders.rs match_with_bid, match_with_ask"),("price index",V2+"state.rs")],
 [("price indexes","orders sorted by price",V2+"state.rs")],["removed and stored orders"])
p("M07","V2: every order on the book is well formed",
 "Every order written to the book has a positive price in the denomination configured at that moment for its collection (the default one if none is configured), records the message sender as creator and exactly the collection, token, price, recipient and finder of the message, and is stored under its own identifier. A new order never overwrites or reuses the identifier of another order, and changing an order preserves its creator, collection, token and identifier.",
 HC,"every order-creating or order-changing message and every prior book",NOV2,[V2+"execute.rs",V2+"helpers.rs",V2+"orders.rs",V2+"state.rs"],[("price validation",V2+"helpers.rs only_valid_price"),("identifier generation and nonce",V2+"orders.rs, execute.rs")],
 [("nonce","strictly increasing per created bid",V2+"state.rs")],["stored orders","order queries"])
p("M08","V2: trading respects the collection's start of trading",
 "While a collection reports a trading start time later than the current block, no listing, bid or collection bid for it can be created and none of the immediate buy or sell messages succeeds; from that time on this check never rejects.",
 H,"every block time and collection answer, including collections that do not answer",NOV2,[V2+"execute.rs",CM+"nft.rs"],[("tradability gate",CM+"nft.rs only_tradable")],(),["result of execute"])
p("M09","V2: listing costs exactly the configured fee, forwarded in full",
 "Creating a listing (or selling immediately through one) succeeds only with a single coin attached whose denomination has a configured listing fee and whose amount equals it, and that coin is forwarded in full to the configured fee recipient. No other message charges a listing fee.",
 HC,"every payment and fee table",NOV2,[V2+"execute.rs"],[("listing fee collection",V2+"execute.rs execute_set_ask")],[("listing fees","fee per denomination",V2+"state.rs")],["bank messages of the response"])
p("M10","V2: configuration changes only by the contract admin and stays valid",
 "The configuration, the per-collection denominations and the listing fees change only through messages from the contract's current admin, and each such message changes exactly the named entry to exactly the given value. At instantiation and afterwards the stored configuration always has a protocol fee below 100% and maker plus taker rewards below 100%.",
 HC,"every sender, admin answer, configuration value and prior state",NOV2,[V2+"execute.rs",V2+"helpers.rs",V2+"state.rs",V2+"instantiate.rs"],[("admin check",V2+"helpers.rs only_contract_admin"),("config validation",V2+"state.rs")],[("config","protocol parameters",V2+"state.rs")],["stored configuration"])
p("M11","V2: order queries return exactly the matching orders, in order",
 "Looking up orders by identifier, by price or by creator returns exactly orders that are on the book and satisfy the request, without duplicates, sorted by the requested key in the requested direction, strictly respecting the given bounds, never more than the limit, and never skipping a matching order that sorts before a returned one. A query with well-formed addresses is always answered.",
 HC,"every book and every query option",NOV2,[V2+"query.rs",V2+"state.rs"],[("index range queries",V2+"query.rs")],(),["query responses"])
p("M12","V2: creators can always withdraw their orders",
 "The creator of a listing, bid or collection bid on the book can always remove it: the message, sent without coins, is never refused, whatever the configuration, the prices, the collection's denomination or the state of trading have become since, as long as the contracts it asks answer.",
 ["inputs","configurations"],"every book, configuration and order",NOV2,[V2+"execute.rs"],[("removals",V2+"execute.rs execute_remove_ask, execute_remove_bid, execute_remove_collection_bid")],(),["result of execute"])
p("M13","V2: orders and sales that meet the published rules are never refused",
 "A listing, bid or collection bid (new or changed) with a positive price in the collection's denomination, backed by the required coin, on a tradable collection and by the entitled sender is accepted; a purchase of a listed NFT at or above its price, and a sale into a standing bid at or below its price by the NFT's owner or lister, go through whenever fees and royalty fit the price. Assumed: the contracts asked answer, addresses are valid and amounts are at most 10^30; for messages that may match or not, that there is no protocol fee and no royalty.",
 HC,"every book, configuration, price, payment and sender",NOV2,[V2+"execute.rs",V2+"helpers.rs",V2+"orders.rs"],[("message handlers",V2+"execute.rs")],(),["result of execute"])
p("M14","V2: no empty payments",
 "No accepted message makes the marketplace send or burn nothing: every payment it emits carries at least one coin and only positive amounts. The chain's bank rejects empty payments, so one of them would revert the whole message.",
 ["inputs","configurations"],"every message, book, price, fee setting and royalty",NOV2,[V2+"execute.rs",V2+"orders.rs",CM+"sale.rs",CM+"coin.rs"],[("payments",CM+"sale.rs")],(),["bank messages of the response"])
p("M15","V2: valid admin messages are never refused",
 "A message of the contract's current admin that sets a configuration within bounds, a collection's denomination or a listing fee, or removes a fee, sent without coins and with well-formed addresses, is always accepted; so is instantiation with a configuration within bounds. So no stored state can lock the administration out.",
 HC,"every configuration, admin answer and prior state",NOV2,[V2+"execute.rs",V2+"state.rs",V2+"instantiate.rs"],[("admin messages",V2+"execute.rs"),("config validation",V2+"state.rs")],(),["result of execute and instantiate"])
p("M16","V2: upgrades record the contract's version and change nothing else",
 "Instantiation and migration record the contract's name and the version of its code; migration never fails, changes no order, configuration, denomination, fee or counter and sends nothing; no other message changes the recorded name or version.",
 ["inputs","histories"],"every message and prior state",NOV2,[V2+"migrate.rs",V2+"instantiate.rs"],[("migrate",V2+"migrate.rs"),("instantiate",V2+"instantiate.rs")],[("contract_info","recorded name and version",V2+"instantiate.rs")],["result of migrate","recorded version"])
# ---------------- v1
p("L01","V1: coins received minus coins sent equals the change in escrowed bids",
 "For every execute message the original marketplace accepts, the native coins attached minus those it sends out or burns equal the change in the total price of the outstanding bids and collection bids it holds, and no other denomination is ever kept. So it can always refund every open bid and no payment is stranded or paid twice.",
 HC,"every message, sender, payment, parameter set and order book",NOV1,[V1+"execute.rs"],[("escrow and refund in each handler",V1+"execute.rs")],[("bids","escrowed token bids",V1+"state.rs"),("collection bids","escrowed collection bids",V1+"state.rs")],["bank and burn messages of the response","stored bids"])
p("L02","V1: sale proceeds are split exactly between burn, finder, royalty and seller",
 "Each sale pays the network fee (the configured share rounded down), the finder's fee of the executed order to the finder named in the message (nothing without one), the royalty share reported by the collection, and all the rest to the seller's funds recipient; a sale whose fees exceed the price is rejected. Each part equals its share of the sale price rounded down, except the seller's, which takes the remainder.",
 HC,"every price, fee setting, royalty and finder",NOV1,[V1+"execute.rs"],[("payout",V1+"execute.rs payout")],(),["bank messages of the response"])
p("L03","V1: only owners, bidders and operators can act on orders",
 "Only the NFT's current owner can list it, change its asking price, withdraw its listing, or accept or reject a bid on it; only the bidder can withdraw a bid; and only a registered operator can synchronise or clear stale orders. Any other message leaves all of these orders untouched, apart from the buyer's own order and the listing it executes.",
 H,"every sender, message and order book",NOV1,[V1+"execute.rs"],[("owner and operator checks",V1+"execute.rs only_owner, only_operator")],(),["result of execute","stored orders"])
p("L04","V1: expired, inactive or reserved orders never trade",
 "No sale executes a bid, collection bid or listing whose expiry time has passed, a listing marked inactive, or a listing reserved for someone other than the buyer, nor a listing whose seller no longer owns the NFT. Orders are only accepted with an expiry strictly later than now plus the configured minimum and at most now plus the configured maximum.",
 H,"every block time, expiry and order state",NOV1,[V1+"execute.rs",V1+"helpers.rs",V1+"state.rs"],[("expiry checks",V1+"state.rs, helpers.rs")],(),["result of execute"])
p("L05","V1: every listing is priced within bounds and stored as requested",
 "Every stored listing has a native-coin price no lower than the minimum in force when its price was set and no higher than the fixed maximum, a finder's fee within the configured cap, and a reservation only on fixed-price listings for someone other than the seller. It is stored under its own collection and token exactly as requested, only when the marketplace is approved to move the NFT and the exact listing fee was paid and passed on to the burn.",
 HC,"every listing message and parameter set",NOV1,[V1+"execute.rs"],[("ask validation",V1+"execute.rs execute_set_ask, execute_update_ask_price")],[("asks","listings",V1+"state.rs")],["stored listings"])
p("L06","V1: one open bid per bidder and target, the replaced one refunded in full",
 "Bidding again on the same NFT or collection replaces the bidder's earlier bid and returns its full price to that bidder; every stored bid carries exactly the attached payment as its price, which is at least the configured minimum, and a finder's fee within the cap. Withdrawing or rejecting a bid returns its full price to the bidder.",
 HC,"every bid sequence, payment and parameter set",NOV1,[V1+"execute.rs"],[("bid replacement",V1+"execute.rs execute_set_bid")],(),["stored bids","bank messages"])
p("L07","V1: stale orders are cleared only when stale and bidders keep their refund",
 "An operator can clear a bid only once its expiry plus the configured stale period has passed, and then the operator's reward (the configured share rounded down) and the bidder's refund together equal the bid's price. A listing can be cleared only when it has expired, its NFT no longer exists or the marketplace is no longer approved, and synchronising changes nothing but whether the listing is active, which then equals whether the marketplace is still approved.",
 HC,"every bid, time, parameter set and NFT answer",NOV1,[V1+"execute.rs"],[("stale removal",V1+"execute.rs")],(),["result of execute","bank messages"])
p("L08","V1: buyers get exactly the NFT they paid for at the asking price",
 "A purchase from a fixed-price listing happens exactly when the attached payment equals the asking price, then sends that NFT to the buyer (or the recipient named in a buy-for order) and removes the listing; a payment above a fixed asking price, or below an auction's asking price, is rejected, and any other bid rests on the book. Accepting a bid sells the NFT to that bidder at the bid's price and removes both that bid and any listing of the NFT.",
 HC,"every listing, bid and payment",NOV1,[V1+"execute.rs"],[("bid and sale logic",V1+"execute.rs execute_set_bid, execute_accept_bid")],(),["NFT transfer messages","stored orders"])
p("L09","V1: governance parameters always stay within their bounds",
 "After instantiation and every governance update, the trading fee, maximum finder's fee and stale-bid reward are at most 100%, both expiry ranges have minimum at most maximum, and the stale period is a time duration; an update changes exactly the given parameters to exactly the given values. Operators are never registered twice and change only through their own messages, adding or removing an operator or hook affects only that one, and an upgrade changes no state.",
 HC,"every governance message and prior parameter set",NOV1,[V1+"sudo.rs",V1+"execute.rs",V1+"helpers.rs"],[("parameter validation",V1+"sudo.rs, execute.rs instantiate")],[("params","governance parameters",V1+"state.rs")],["stored parameters"])
p("L10","V1: hooks are told about each event and can never block trading",
 "Every listing or bid placed, changed or withdrawn, and every sale, notifies each registered hook of that kind exactly once (no order hook for replaced bids and orders executed in a sale), with the order's data and no funds, in a way that a failing hook is caught and does not revert the trade. A failed hook's reply always succeeds without changing any state.",
 ["inputs","configurations","fault_sequences"],"every order event, hook list within the allowed size and hook failure",NOV1,[V1+"execute.rs",V1+"msg.rs"],[("hook preparation and reply",V1+"execute.rs")],[("hooks","registered hook contracts",V1+"state.rs")],["submessages of the response","reply result"])
p("L11","V1: order queries return exactly the matching orders, in order",
 "Every listing, bid and collection-bid query returns exactly orders on the book that satisfy the request, sorted by the documented key and direction, strictly after (or before) the given offset, at most the limit (ten by default, never above one hundred), and never skips a matching order that sorts before a returned one; inactive listings appear only when asked for. Collections with listings are listed once each, and an offset of an expiry-sorted query applies while that order is on the book. A query with well-formed addresses is always answered.",
 HC,"every order book and query",NOV1,[V1+"query.rs",V1+"state.rs"],[("index range queries",V1+"query.rs")],(),["query responses"])
p("L12","V1: trading respects the collection's start of trading",
 "While a collection reports a trading start time later than the current block, no listing of its NFTs is accepted and no bid on them can be accepted; from that time on this check never rejects.",
 H,"every block time and collection answer",NOV1,[V1+"execute.rs"],[("tradability gate",V1+"execute.rs only_tradable")],(),["result of execute"])
p("L13","V1: upgrades only go forward, of this contract, and change only the version",
 "Instantiating records the contract's name and version. Migrating succeeds only from a recorded state of this contract whose version is not newer than the code's, always succeeds from an older one, leaves the code's version recorded, changes no order, parameter or hook and sends nothing. No other message or reply changes the recorded version.",
 HC,"every recorded name and version, message and prior state",NOV1,[V1+"execute.rs"],[("migrate",V1+"execute.rs migrate"),("instantiate",V1+"execute.rs instantiate")],[("contract_info","recorded name and version",V1+"execute.rs")],["result of migrate","recorded version"])
p("L14","V1: withdrawing orders is never refused",
 "The bidder can always withdraw a bid or collection bid, the NFT's owner can always remove its listing or reject a bid on it, and an operator can always clear a bid or collection bid that has been stale for the configured time. None of these messages, sent without coins, is refused whatever the parameters have become, while the contracts asked answer and prices are at most 10^30.",
 ["inputs","configurations"],"every book, parameter set, sender and block time",NOV1,[V1+"execute.rs"],[("removals",V1+"execute.rs")],(),["result of execute"])
p("L15","V1: orders and sales that meet the published rules are never refused",
 "A listing, price change, bid or collection bid whose sender, price, payment, expiry and finder's fee satisfy the parameters is accepted, payment of a live listing's fixed price buys it, an owner's acceptance of a live bid goes through while the fees fit the price, and an operator can bring a listing in line with its approval or remove a stale one. Assumed: the contracts asked answer, addresses are valid, prices are at most 10^30 and times fit in 64 bits.",
 HC,"every book, parameter set, sender, payment and block time",NOV1,[V1+"execute.rs",V1+"helpers.rs"],[("message handlers",V1+"execute.rs")],(),["result of execute"])
p("L16","V1: no empty payments",
 "No accepted message makes the marketplace send or burn nothing: every payment it emits carries at least one coin and only positive amounts, as the chain's bank demands, so no setting of fees, rewards or royalties to zero or rounding to zero can make a sale, a refund or the removal of a stale bid impossible. The only exception is the split of a network fee of exactly one unit inside the fee library.",
 ["inputs","configurations"],"every message, book, price, parameter set, royalty and finder",NOV1,[V1+"execute.rs"],[("payout",V1+"execute.rs payout"),("stale bid removal",V1+"execute.rs execute_remove_stale_bid")],(),["bank and burn messages of the response"])
p("L17","V1: valid governance messages are never refused",
 "Governance can always update parameters to values within bounds, add an operator or hook that is not registered and remove one that is, and instantiation with valid parameters and well-formed addresses always succeeds, whatever the state.",
 HC,"every governance message and prior state",NOV1,[V1+"sudo.rs",V1+"execute.rs",V1+"helpers.rs"],[("governance messages",V1+"sudo.rs"),("instantiate",V1+"execute.rs instantiate")],(),["result of sudo and instantiate"])
# ---------------- reserve auction
p("R01","Auction: coins received minus coins sent equals the change in held high bids",
 "For every message the auction house accepts, in every denomination, coins attached minus coins sent out or burned equal the change in the total of the current high bids of open auctions. So it can always refund an outbid bidder and pay every seller, and no payment is stranded.",
 HC,"every message, block callback, payment, configuration and set of auctions",NORA,[RA+"execute.rs",RA+"helpers.rs",RA+"sudo.rs"],[("bid escrow, refund and settlement",RA+"execute.rs, helpers.rs")],[("auctions","open auctions with their high bid",RA+"state.rs")],["bank messages of the response","stored auctions"])
p("R02","Auction: a bid counts only if high enough, timely and not the seller's",
 "A bid is accepted only on an existing auction that has not ended, in the auction's denomination as the only coin attached, from someone other than the seller, and of at least the reserve price, or with a bid already standing at least that bid increased by the configured percentage. An accepted bid becomes the high bid with exactly the attached amount and the previous high bidder is refunded in full in the same message.",
 HC,"every auction state, bidder, payment and block time",NORA,[RA+"execute.rs",RA+"state.rs"],[("bid validation",RA+"execute.rs execute_place_bid")],(),["stored auction","bank messages"])
p("R03","Auction: the end time is set by the first bid and never brought forward",
 "The first bid fixes the end at its block time plus the auction's duration; a later bid never brings the end forward and guarantees at least the configured extension, counted in whole seconds, remains after it; and until the first bid the auction has no end. Nothing but a bid or a halt postponement ever changes the end time, and a postponed auction ends later than the block that postponed it by the configured delay.",
 HC,"every bid sequence, configuration and block time",NORA,[RA+"execute.rs",RA+"helpers.rs"],[("end time update",RA+"execute.rs execute_place_bid"),("postponement",RA+"helpers.rs settle_auction")],(),["stored auction"])
p("R04","Auction: settlement pays out exactly the high bid and delivers the NFT",
 "An auction is settled only after its end time; settling sends that NFT once to the high bidder, removes the auction, and pays out exactly the high bid: the trading fee to the burn contract and the royalty to the collection's royalty recipient, each rounded up to a whole unit, and all the rest to the seller's chosen recipient. A settlement whose fees exceed the bid is rejected, and an auction is never settled twice.",
 HC,"every ended auction, fee setting and royalty answer",NORA,[RA+"helpers.rs",RA+"execute.rs"],[("settlement",RA+"helpers.rs settle_auction")],(),["bank and NFT messages","stored auctions"])
p("R05","Auction: only the seller may change or cancel, and only before the first bid",
 "The reserve price can be changed and the auction cancelled only by the seller and only before any bid; cancelling returns the NFT to the seller and removes the auction. Changing it affects nothing but the reserve price, no other message than a bid, a postponement or a settlement alters an existing auction, and an auction with a bid can end only by settlement.",
 H,"every sender, message and auction state",NORA,[RA+"execute.rs"],[("seller and first-bid checks",RA+"execute.rs")],(),["stored auctions","NFT messages"])
p("R06","Auction: an auction starts only validly and with the NFT in custody",
 "Creating an auction succeeds only for the NFT's owner with the auction house approved, when no auction exists for that NFT, trading has started, the reserve price is in an allowed denomination and at least that denomination's minimum, the duration lies within the configured bounds, and exactly the configured creation fee (nothing if zero) is attached and forwarded to the burn contract. The stored auction has exactly the requested terms, no bid and no end time, and the NFT is taken into custody; a changed reserve price obeys the same minimum.",
 HC,"every creation message, configuration and NFT answer",NORA,[RA+"execute.rs",RA+"helpers.rs"],[("creation checks",RA+"execute.rs execute_create_auction")],[("min reserve prices","allowed denominations",RA+"state.rs")],["stored auction","result of execute"])
p("R07","Auction: end-of-block settlement settles only ended auctions and never stalls",
 "Each end-of-block run handles ended auctions in order of end time up to the configured number, treating each exactly as an individual settlement would, and touches no other auction. An auction not yet over at that moment never makes the run fail or be touched.",
 HC,"every set of auctions, configuration and block time",NORA,[RA+"sudo.rs",RA+"helpers.rs"],[("end block sweep",RA+"sudo.rs sudo_end_block")],[("end-time index","auctions sorted by end",RA+"state.rs")],["result of sudo","stored auctions"])
p("R08","Auction: auctions ending inside a chain halt are postponed, never settled",
 "A gap between blocks of at least the configured threshold records a halt window from the previous block to now plus the configured buffer, and no smaller gap does; an auction whose end falls strictly inside a recorded window is postponed by the configured delay instead of being settled, keeping its bid, and all others settle normally. With a positive settlement limit, a recorded window is dropped only once it has passed and no due auction ended inside or before it.",
 HC,"every sequence of block times, configuration and windows",NORA,[RA+"sudo.rs",RA+"state.rs",RA+"helpers.rs"],[("halt detection",RA+"sudo.rs sudo_begin_block"),("window test",RA+"state.rs")],[("halt windows","recorded halts",RA+"state.rs")],["stored halt windows","stored auctions"])
p("R09","Auction: configuration and allowed denominations stay valid",
 "After instantiation and every governance update the bid increment is above zero and below 100%, and the minimum duration and the extension are positive; an update changes exactly the given parameters to exactly the given values. Setting minimum reserve prices adds exactly the given new denominations and unsetting removes exactly the given existing ones; anything else is rejected.",
 HC,"every governance message and prior configuration",NORA,[RA+"sudo.rs",RA+"state.rs",RA+"instantiate.rs"],[("config validation",RA+"state.rs")],[("config","auction parameters",RA+"state.rs")],["stored configuration"])
p("R10","Auction: queries return exactly the matching auctions, in order",
 "Every auction query returns exactly auctions that are open and satisfy the request, sorted by the documented key and direction, strictly after the given offset, at most the limit (ten by default, never above one hundred), and never skips a matching auction that sorts before a returned one. A query with well-formed addresses is always answered.",
 HC,"every set of auctions and query options",NORA,[RA+"query.rs",RA+"state.rs"],[("index range queries",RA+"query.rs")],(),["query responses"])
p("R11","Auction: sellers can always cancel, anybody can always settle",
 "The seller of an auction without bids can always cancel it, and anybody can settle an auction with a bid once its end time has come: the message, sent without coins, is never refused while fees and royalty fit the bid, the contracts asked answer, royalties go to valid addresses and the bid is at most 10^30. So no NFT and no bid is ever locked in custody.",
 HC,"every auction, configuration, sender and block time",NORA,[RA+"execute.rs",RA+"helpers.rs"],[("cancel and settle",RA+"execute.rs"),("settlement",RA+"helpers.rs settle_auction")],(),["result of execute"])
p("R12","Auction: auctions, reserve prices and bids that meet the rules are never refused",
 "Opening an auction, changing a reserve price before the first bid and placing a bid succeed whenever the published conditions on owner, denomination, minimum, duration, fee, end time and increment hold. Assumed: the contracts asked answer, addresses are valid, amounts are at most 10^30 and times fit in 64 bits.",
 HC,"every auction, configuration, payment, sender and block time",NORA,[RA+"execute.rs",RA+"helpers.rs"],[("message handlers",RA+"execute.rs")],(),["result of execute"])
p("R13","Auction: no empty payments",
 "No accepted message or block callback makes the auction house send nothing or pay an empty fee to the burn contract: every payment it emits carries at least one coin and only positive amounts, since bank and burn contract reject others. So no fee setting can make settlement or an end-of-block run fail.",
 ["inputs","configurations"],"every message, callback, auction, configuration and royalty",NORA,[RA+"execute.rs",RA+"helpers.rs",RA+"sudo.rs"],[("settlement payments",RA+"helpers.rs settle_auction"),("creation fee",RA+"execute.rs execute_create_auction")],(),["messages of the response"])
p("R14","Auction: valid governance messages and begin-block runs are never refused",
 "The begin-block run always succeeds while block time does not go back; governance can always update parameters so that the resulting configuration is within bounds, add minimum prices of distinct new denominations and remove those of distinct existing ones, and instantiation with such values succeeds. Assumed: well-formed addresses and times within 64 bits.",
 HC,"every governance message, block time, configuration and recorded windows",NORA,[RA+"sudo.rs",RA+"state.rs",RA+"instantiate.rs"],[("block callbacks and governance",RA+"sudo.rs"),("instantiate",RA+"instantiate.rs")],(),["result of sudo and instantiate"])
p("R15","Auction: upgrades record the contract's version and change nothing else",
 "Instantiation and migration record the contract's name and the version of its code; migration never fails, changes no auction, configuration, minimum price or halt window and sends nothing; no other message or callback changes the recorded name or version.",
 ["inputs","histories"],"every message, callback and prior state",NORA,[RA+"migrate.rs",RA+"instantiate.rs"],[("migrate",RA+"migrate.rs"),("instantiate",RA+"instantiate.rs")],[("contract_info","recorded name and version",RA+"instantiate.rs")],["result of migrate","recorded version"])
# ---------------- shared library
NOC="The library's unit tests call each function with one or two fixed values; contracts rely on it for every price, fee list, coin list, address list and answer of another contract."
p("S01","Library: sale proceeds are split exactly, in the order fees were added",
 "The shared library's sale processor refuses a sale exactly when its fees together exceed the price. Otherwise, for every price and fee list, each fee with a share above zero is paid its share of the price rounded up, under its own label and to its own recipient, in the order the fees were added and in the coin of the sale, and the seller is paid last whatever remains, or nothing if nothing remains, so that the payments add up exactly to the price. Paying out sends exactly these payments.",
 ["inputs"],"every price, denomination, seller and list of labelled fees",NOC,[CM+"sale.rs",CM+"coin.rs"],[("payment building",CM+"sale.rs NftSaleProcessor::build_payments"),("payout",CM+"sale.rs NftSaleProcessor::payout")],(),["payments and messages of the response"])
p("S02","Library: transfers carry exactly what was asked, checked ones no empty coin",
 "The shared library's coin transfers add exactly one bank send of exactly the given coins to the given address; the checked ones refuse exactly when one of the coins is zero. An NFT transfer adds exactly one message, without coins, telling that collection to transfer that token to that recipient. A failure of any of these messages reverts the whole transaction.",
 ["inputs"],"every list of coins, recipient, collection and token",NOC,[CM+"coin.rs",CM+"nft.rs"],[("coin transfers",CM+"coin.rs"),("NFT transfer",CM+"nft.rs transfer_nft")],(),["messages of the response"])
p("S03","Library: ownership and trading-start checks follow the collection's answer",
 "The shared ownership check asks the given collection for the owner of the given token and fails exactly when the collection answers with another owner than the sender; the trading check fails exactly when the collection answers with a start of trading later than the block time, to the nanosecond. A collection that does not answer these questions restricts nobody, and neither check sends anything.",
 ["inputs"],"every sender, collection, token, block time and answer",NOC,[CM+"nft.rs"],[("only_owner and only_tradable",CM+"nft.rs")],(),["result of the check"])
p("S04","Library: royalties come from the registry, else from the collection itself",
 "The shared royalty lookup asks the given registry about the given collection and protocol and returns the entry for the protocol if there is one, else the default entry, with exactly its recipient and share. Only if the registry has neither does it return the royalty the collection itself declares, and then, and only then, it also tells the registry to adopt it. It fails only if the registry does not answer or the collection declares a malformed address.",
 ["inputs"],"every registry and collection answer",NOC,[CM+"royalties.rs"],[("fetch_royalty_entry and fetch_or_set_royalties",CM+"royalties.rs")],(),["returned entry","messages of the response"])
p("S05","Library: address lists come back valid, sorted and without repetition",
 "Validating a list of addresses fails exactly when one of them is malformed; otherwise it returns every address of the list exactly once and no other, in ascending order. Choosing between an optional address and a default yields the optional one whenever it is given.",
 ["inputs"],"every list of addresses",NOC,[CM+"address.rs"],[("map_validate and address_or",CM+"address.rs")],(),["returned addresses"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P),'properties')
