From e357b2cb3e7b488c31ddae1970f312b4a0721259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 01/11] fix: reject coins attached to v2 admin and accept-bid
 messages

---
 contracts/stargaze-marketplace-v2/src/execute.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/contracts/stargaze-marketplace-v2/src/execute.rs b/contracts/stargaze-marketplace-v2/src/execute.rs
index 25eed89..617ce22 100644
--- a/contracts/stargaze-marketplace-v2/src/execute.rs
+++ b/contracts/stargaze-marketplace-v2/src/execute.rs
@@ -154,6 +154,8 @@ pub fn execute_update_config(
     info: MessageInfo,
     config: Config<Addr>,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
+
     only_contract_admin(&deps.querier, &env, &info)?;
     config.save(deps.storage)?;
 
@@ -175,6 +177,8 @@ pub fn execute_update_collection_denom(
     collection: Addr,
     denom: Denom,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
+
     only_contract_admin(&deps.querier, &env, &info)?;
 
     COLLECTION_DENOMS.save(deps.storage, collection.clone(), &denom)?;
@@ -197,6 +201,8 @@ pub fn execute_set_listing_fee(
     info: MessageInfo,
     fee: Coin,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
+
     only_contract_admin(&deps.querier, &env, &info)?;
 
     LISTING_FEES.save(deps.storage, fee.denom.clone(), &fee.amount)?;
@@ -219,6 +225,8 @@ pub fn execute_remove_listing_fee(
     info: MessageInfo,
     denom: Denom,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
+
     only_contract_admin(&deps.querier, &env, &info)?;
 
     LISTING_FEES.remove(deps.storage, denom.clone());
@@ -692,6 +700,8 @@ pub fn execute_accept_bid(
     id: OrderId,
     details: OrderDetails<Addr>,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
+
     let bid: Bid = bids()
         .load(deps.storage, id.clone())
         .map_err(|_| ContractError::InvalidInput(format!("bid not found [{}]", id)))?;
@@ -963,6 +973,8 @@ pub fn execute_accept_collection_bid(
     token_id: TokenId,
     details: OrderDetails<Addr>,
 ) -> Result<Response, ContractError> {
+    nonpayable(&info)?;
+
     let collection_bid = collection_bids()
         .load(deps.storage, id.clone())
         .map_err(|_| ContractError::InvalidInput(format!("collection bid not found [{}]", id)))?;
-- 
2.43.0


From 46f22a717ecae3b60854e80b8138d540017601d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 02/11] fix: require exactly the create auction fee

---
 contracts/reserve-auction/src/execute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/reserve-auction/src/execute.rs b/contracts/reserve-auction/src/execute.rs
index 4284709..b2f577e 100644
--- a/contracts/reserve-auction/src/execute.rs
+++ b/contracts/reserve-auction/src/execute.rs
@@ -131,7 +131,7 @@ pub fn execute_create_auction(
         // If create auction fee is non zero, ensure user has sent the correct amount,
         // and send it to the fair-burn contract
         ensure!(
-            has_coins(&info.funds, &config.create_auction_fee),
+            info.funds.as_slice() == [config.create_auction_fee.clone()],
             ContractError::WrongFee {
                 expected: config.create_auction_fee,
             }
-- 
2.43.0


From 44851507d834124db992c580b3a397de83357e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 03/11] fix: end block must not fail on auctions ending later
 in the same second

---
 contracts/reserve-auction/src/sudo.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/reserve-auction/src/sudo.rs b/contracts/reserve-auction/src/sudo.rs
index 20d0025..a537a86 100644
--- a/contracts/reserve-auction/src/sudo.rs
+++ b/contracts/reserve-auction/src/sudo.rs
@@ -94,6 +94,11 @@ pub fn sudo_end_block(mut deps: DepsMut, env: Env) -> Result<Response, ContractE
         .idx
         .end_time
         .range(deps.storage, None, max, order)
+        // The index only has second precision, skip auctions that end later within this second
+        .filter(|item| {
+            item.as_ref()
+                .map_or(true, |(_, a)| a.end_time <= Some(env.block.time))
+        })
         .take(limit)
         .map(|item| item.map(|(_, v)| v))
         .collect::<StdResult<Vec<Auction>>>()?;
-- 
2.43.0


From cd710f722c6db3c0787343defa1bd5c803ee2e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 04/11] fix: keep a halt window until it has passed

---
 contracts/reserve-auction/src/state.rs | 5 +++++
 contracts/reserve-auction/src/sudo.rs  | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/contracts/reserve-auction/src/state.rs b/contracts/reserve-auction/src/state.rs
index 9886296..477d09a 100644
--- a/contracts/reserve-auction/src/state.rs
+++ b/contracts/reserve-auction/src/state.rs
@@ -146,11 +146,16 @@ impl HaltManager {
     pub fn find_stale_halt_info(
         &mut self,
         earliest_auction_end_time: Option<Timestamp>,
+        block_time: Timestamp,
     ) -> Option<HaltWindow> {
         if self.halt_windows.is_empty() {
             return None;
         }
         let halt_info = self.halt_windows.first().unwrap();
+        // Auctions may still end within the window until it has passed
+        if block_time.seconds() < halt_info.end_time {
+            return None;
+        }
         if earliest_auction_end_time.is_none()
             || earliest_auction_end_time.unwrap().seconds() > halt_info.end_time
         {
diff --git a/contracts/reserve-auction/src/sudo.rs b/contracts/reserve-auction/src/sudo.rs
index a537a86..1443e78 100644
--- a/contracts/reserve-auction/src/sudo.rs
+++ b/contracts/reserve-auction/src/sudo.rs
@@ -120,7 +120,7 @@ pub fn sudo_end_block(mut deps: DepsMut, env: Env) -> Result<Response, ContractE
     }
 
     // Try and clear a halt info if necessary
-    let halt_info = halt_manager.find_stale_halt_info(earliest_auction_end_time);
+    let halt_info = halt_manager.find_stale_halt_info(earliest_auction_end_time, env.block.time);
     if halt_info.is_some() {
         HALT_MANAGER.save(deps.storage, &halt_manager)?;
     }
-- 
2.43.0


From 0ff05e6c5bb7db62410bb8e2387dcacc30132d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 05/11] fix: pay the rounding remainder of the royalty to the
 seller

---
 contracts/marketplace/src/execute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/marketplace/src/execute.rs b/contracts/marketplace/src/execute.rs
index 9d57851..7988c89 100644
--- a/contracts/marketplace/src/execute.rs
+++ b/contracts/marketplace/src/execute.rs
@@ -1237,7 +1237,7 @@ fn payout(
             let seller_share_msg = BankMsg::Send {
                 to_address: payment_recipient.to_string(),
                 amount: vec![coin(
-                    (payment * (Decimal::one() - royalty.share) - network_fee).u128() - finders_fee,
+                    (payment - network_fee - amount.amount).u128() - finders_fee,
                     NATIVE_DENOM.to_string(),
                 )],
             };
-- 
2.43.0


From 80e8dfaaf7c81446df6d158e36fdc8ddbd6ce0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 06/11] fix: enforce the maximum ask price when updating it

---
 contracts/marketplace/src/execute.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/contracts/marketplace/src/execute.rs b/contracts/marketplace/src/execute.rs
index 7988c89..42f41eb 100644
--- a/contracts/marketplace/src/execute.rs
+++ b/contracts/marketplace/src/execute.rs
@@ -444,6 +444,9 @@ pub fn execute_update_ask_price(
     nonpayable(&info)?;
     only_owner(deps.as_ref(), &info, &collection, token_id)?;
     price_validate(deps.storage, &price)?;
+    if price.amount.u128() > MAX_FIXED_PRICE_ASK_AMOUNT {
+        return Err(ContractError::PriceTooHigh(price.amount));
+    }
 
     let key = ask_key(&collection, token_id);
 
-- 
2.43.0


From a8186a45ca523d2d9528eccdfe8b85f00f586823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 07/11] fix: list asks from the first token id when no offset
 is given

---
 contracts/marketplace/src/query.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/contracts/marketplace/src/query.rs b/contracts/marketplace/src/query.rs
index c90dd2c..e13954d 100644
--- a/contracts/marketplace/src/query.rs
+++ b/contracts/marketplace/src/query.rs
@@ -244,10 +244,7 @@ pub fn query_asks(
         .prefix(collection.clone())
         .range(
             deps.storage,
-            Some(Bound::exclusive((
-                collection,
-                start_after.unwrap_or_default(),
-            ))),
+            start_after.map(|token_id| Bound::exclusive((collection, token_id))),
             None,
             Order::Ascending,
         )
@@ -281,10 +278,7 @@ pub fn reverse_query_asks(
         .range(
             deps.storage,
             None,
-            Some(Bound::exclusive((
-                collection,
-                start_before.unwrap_or_default(),
-            ))),
+            start_before.map(|token_id| Bound::exclusive((collection, token_id))),
             Order::Descending,
         )
         .filter(|item| match item {
-- 
2.43.0


From 0616ee1eeb05858c11fadae8effb3b020dc3ddf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 08/11] fix: page through the bids of an NFT by bidder

---
 contracts/marketplace/src/query.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/marketplace/src/query.rs b/contracts/marketplace/src/query.rs
index e13954d..59c2bb2 100644
--- a/contracts/marketplace/src/query.rs
+++ b/contracts/marketplace/src/query.rs
@@ -461,7 +461,8 @@ pub fn query_bids(
     limit: Option<u32>,
 ) -> StdResult<BidsResponse> {
     let limit = limit.unwrap_or(DEFAULT_QUERY_LIMIT).min(MAX_QUERY_LIMIT) as usize;
-    let start = start_after.map(|s| Bound::ExclusiveRaw(s.into()));
+    let start = maybe_addr(deps.api, start_after)?
+        .map(|bidder| Bound::exclusive(bid_key(&collection, token_id, &bidder)));
 
     let bids = bids()
         .idx
-- 
2.43.0


From 64215148d21fe7bb0cfbb83af242ddce247207b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 09/11] fix: list each collection with asks once

---
 contracts/marketplace/src/query.rs | 34 +++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/contracts/marketplace/src/query.rs b/contracts/marketplace/src/query.rs
index 59c2bb2..a427e4d 100644
--- a/contracts/marketplace/src/query.rs
+++ b/contracts/marketplace/src/query.rs
@@ -213,18 +213,28 @@ pub fn query_collections(
     limit: Option<u32>,
 ) -> StdResult<CollectionsResponse> {
     let limit = limit.unwrap_or(DEFAULT_QUERY_LIMIT).min(MAX_QUERY_LIMIT) as usize;
-    let start_addr = maybe_addr(deps.api, start_after)?;
-
-    let collections = asks()
-        .prefix_range(
-            deps.storage,
-            start_addr.map(PrefixBound::exclusive),
-            None,
-            Order::Ascending,
-        )
-        .take(limit)
-        .map(|item| item.map(|(key, _)| key.0))
-        .collect::<StdResult<Vec<_>>>()?;
+    let mut start = maybe_addr(deps.api, start_after)?;
+
+    // a collection has one key per ask, so seek past each collection found
+    let mut collections: Vec<Addr> = vec![];
+    while collections.len() < limit {
+        let next = asks()
+            .prefix_range(
+                deps.storage,
+                start.map(PrefixBound::exclusive),
+                None,
+                Order::Ascending,
+            )
+            .next()
+            .transpose()?;
+        match next {
+            Some(((collection, _), _)) => {
+                collections.push(collection.clone());
+                start = Some(collection);
+            }
+            None => break,
+        }
+    }
 
     Ok(CollectionsResponse { collections })
 }
-- 
2.43.0


From 6d7fc7b05dba7978dbc9ae5f95f1c88dc0e3a696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:37 +0000
Subject: [PATCH 10/11] fix: send no empty payments

The bank rejects a payment of zero coins. Stale bids could not be cleared
while the removal reward rounds to zero, and sales were reverted when the
network fee, a royalty share or the seller's part was zero.
---
 contracts/marketplace/src/execute.rs | 100 ++++++++++++++-------------
 1 file changed, 53 insertions(+), 47 deletions(-)

diff --git a/contracts/marketplace/src/execute.rs b/contracts/marketplace/src/execute.rs
index 42f41eb..89819fe 100644
--- a/contracts/marketplace/src/execute.rs
+++ b/contracts/marketplace/src/execute.rs
@@ -1048,14 +1048,20 @@ pub fn execute_remove_stale_bid(
 
     let reward = bid.price * params.bid_removal_reward_percent / Uint128::from(100u128);
 
-    let bidder_msg = BankMsg::Send {
-        to_address: bid.bidder.to_string(),
-        amount: vec![coin((bid.price - reward).u128(), NATIVE_DENOM)],
-    };
-    let operator_msg = BankMsg::Send {
-        to_address: operator.to_string(),
-        amount: vec![coin(reward.u128(), NATIVE_DENOM)],
-    };
+    let refund = bid.price - reward;
+    let mut res = Response::new();
+    if !refund.is_zero() {
+        res = res.add_message(BankMsg::Send {
+            to_address: bid.bidder.to_string(),
+            amount: vec![coin(refund.u128(), NATIVE_DENOM)],
+        });
+    }
+    if !reward.is_zero() {
+        res = res.add_message(BankMsg::Send {
+            to_address: operator.to_string(),
+            amount: vec![coin(reward.u128(), NATIVE_DENOM)],
+        });
+    }
 
     let hook = prepare_bid_hook(deps.as_ref(), &bid, HookAction::Delete)?;
 
@@ -1066,11 +1072,7 @@ pub fn execute_remove_stale_bid(
         .add_attribute("operator", operator.to_string())
         .add_attribute("reward", reward.to_string());
 
-    Ok(Response::new()
-        .add_event(event)
-        .add_message(bidder_msg)
-        .add_message(operator_msg)
-        .add_submessages(hook))
+    Ok(res.add_event(event).add_submessages(hook))
 }
 
 /// Privileged operation to remove a stale collection bid. Operators can call this to remove and refund bids that are still in the
@@ -1099,14 +1101,20 @@ pub fn execute_remove_stale_collection_bid(
 
     let reward = collection_bid.price * params.bid_removal_reward_percent / Uint128::from(100u128);
 
-    let bidder_msg = BankMsg::Send {
-        to_address: collection_bid.bidder.to_string(),
-        amount: vec![coin((collection_bid.price - reward).u128(), NATIVE_DENOM)],
-    };
-    let operator_msg = BankMsg::Send {
-        to_address: operator.to_string(),
-        amount: vec![coin(reward.u128(), NATIVE_DENOM)],
-    };
+    let refund = collection_bid.price - reward;
+    let mut res = Response::new();
+    if !refund.is_zero() {
+        res = res.add_message(BankMsg::Send {
+            to_address: collection_bid.bidder.to_string(),
+            amount: vec![coin(refund.u128(), NATIVE_DENOM)],
+        });
+    }
+    if !reward.is_zero() {
+        res = res.add_message(BankMsg::Send {
+            to_address: operator.to_string(),
+            amount: vec![coin(reward.u128(), NATIVE_DENOM)],
+        });
+    }
 
     let hook = prepare_collection_bid_hook(deps.as_ref(), &collection_bid, HookAction::Delete)?;
 
@@ -1116,11 +1124,7 @@ pub fn execute_remove_stale_collection_bid(
         .add_attribute("operator", operator.to_string())
         .add_attribute("reward", reward.to_string());
 
-    Ok(Response::new()
-        .add_event(event)
-        .add_message(bidder_msg)
-        .add_message(operator_msg)
-        .add_submessages(hook))
+    Ok(res.add_event(event).add_submessages(hook))
 }
 
 /// Transfers funds and NFT, updates bid
@@ -1199,7 +1203,9 @@ fn payout(
 
     // Append Fair Burn message
     let network_fee = payment * params.trading_fee_percent / Uint128::from(100u128);
-    fair_burn(network_fee.u128(), None, res);
+    if !network_fee.is_zero() {
+        fair_burn(network_fee.u128(), None, res);
+    }
 
     let collection_info: CollectionInfoResponse = deps
         .querier
@@ -1228,37 +1234,37 @@ fn payout(
             if payment < (network_fee + Uint128::from(finders_fee) + amount.amount) {
                 return Err(StdError::generic_err("Fees exceed payment"));
             }
-            res.messages.push(SubMsg::new(BankMsg::Send {
-                to_address: royalty.payment_address.to_string(),
-                amount: vec![amount.clone()],
-            }));
+            if !amount.amount.is_zero() {
+                res.messages.push(SubMsg::new(BankMsg::Send {
+                    to_address: royalty.payment_address.to_string(),
+                    amount: vec![amount.clone()],
+                }));
+            }
             let event = Event::new("royalty-payout")
                 .add_attribute("collection", collection.to_string())
                 .add_attribute("amount", amount.to_string())
                 .add_attribute("recipient", royalty.payment_address.to_string());
             res.events.push(event);
-            let seller_share_msg = BankMsg::Send {
-                to_address: payment_recipient.to_string(),
-                amount: vec![coin(
-                    (payment - network_fee - amount.amount).u128() - finders_fee,
-                    NATIVE_DENOM.to_string(),
-                )],
-            };
-            res.messages.push(SubMsg::new(seller_share_msg));
+            let seller_share = (payment - network_fee - amount.amount).u128() - finders_fee;
+            if seller_share > 0 {
+                res.messages.push(SubMsg::new(BankMsg::Send {
+                    to_address: payment_recipient.to_string(),
+                    amount: vec![coin(seller_share, NATIVE_DENOM)],
+                }));
+            }
         }
         None => {
             if payment < (network_fee + Uint128::from(finders_fee)) {
                 return Err(StdError::generic_err("Fees exceed payment"));
             }
             // If token doesn't support royalties, pay seller in full
-            let seller_share_msg = BankMsg::Send {
-                to_address: payment_recipient.to_string(),
-                amount: vec![coin(
-                    (payment - network_fee).u128() - finders_fee,
-                    NATIVE_DENOM.to_string(),
-                )],
-            };
-            res.messages.push(SubMsg::new(seller_share_msg));
+            let seller_share = (payment - network_fee).u128() - finders_fee;
+            if seller_share > 0 {
+                res.messages.push(SubMsg::new(BankMsg::Send {
+                    to_address: payment_recipient.to_string(),
+                    amount: vec![coin(seller_share, NATIVE_DENOM)],
+                }));
+            }
         }
     }
 
-- 
2.43.0


From 863ba1888075403735970a166c323e484a4ebfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:37 +0000
Subject: [PATCH 11/11] fix: settle auctions when a payment is zero

The burn contract rejects a payment of zero coins, so with a trading fee of
zero no auction could be settled and the end-of-block run failed.
---
 contracts/reserve-auction/src/helpers.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/contracts/reserve-auction/src/helpers.rs b/contracts/reserve-auction/src/helpers.rs
index 122dbcd..75cb1f6 100644
--- a/contracts/reserve-auction/src/helpers.rs
+++ b/contracts/reserve-auction/src/helpers.rs
@@ -89,7 +89,7 @@ pub fn settle_auction(
 
     let royalty_info = load_collection_royalties(&deps.querier, deps.api, &auction.collection)?;
 
-    (_, response) = payout_nft_sale_fees(
+    let (payments, payout) = payout_nft_sale_fees(
         &high_bid.coin,
         &auction.funds_recipient(),
         &config.fair_burn,
@@ -98,9 +98,16 @@ pub fn settle_auction(
         config.trading_fee_percent,
         None,
         royalty_info,
-        response,
+        Response::new(),
     )?;
 
+    // One message per payment, a fair burn of zero would be rejected
+    for (payment, message) in payments.iter().zip(payout.messages) {
+        if !payment.coin.amount.is_zero() {
+            response = response.add_submessage(message);
+        }
+    }
+
     // Transfer NFT to highest bidder
     response = response.add_submessage(transfer_nft(
         &auction.collection,
-- 
2.43.0

