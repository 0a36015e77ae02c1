//! Reaches the public functions of the shared library: one message per function, with every result turned into bank sends.
use cosmwasm_std::{coin, coins, Addr, BankMsg, Coin, Decimal, DepsMut, Env, MessageInfo, Response};
use serde::Deserialize;
use sg_marketplace_common::{address, coin as transfers, nft, royalties, sale::NftSaleProcessor, MarketplaceStdError};

#[derive(Deserialize)]
pub struct NewFee {
    pub label: String,
    pub share: Decimal,
    pub recipient: Addr,
}

#[derive(Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Msg {
    Sale { price: Coin, seller: Addr, fees: Vec<NewFee> },
    Labels { price: Coin, seller: Addr, fees: Vec<NewFee> },
    Transfer { funds: Vec<Coin>, to: Addr },
    TransferOne { funds: Coin, to: Addr },
    CheckedTransfer { funds: Vec<Coin>, to: Addr },
    CheckedTransferOne { funds: Coin, to: Addr },
    TransferNft { collection: Addr, token_id: String, recipient: Addr },
    OnlyOwner { collection: Addr, token_id: String },
    OnlyTradable { collection: Addr },
    Royalties { registry: Addr, collection: Addr, protocol: Option<Addr> },
    RoyaltyEntry { registry: Addr, collection: Addr, protocol: Option<Addr> },
    Addresses { addresses: Vec<String> },
    AddressOr { addr: Option<Addr>, default: Addr },
}

fn send(to: &Addr, amount: Vec<Coin>) -> BankMsg {
    BankMsg::Send { to_address: to.to_string(), amount }
}

fn processed(price: Coin, seller: Addr, fees: Vec<NewFee>) -> Result<NftSaleProcessor, MarketplaceStdError> {
    let mut p = NftSaleProcessor::new(price, seller);
    for f in fees {
        p.add_fee(f.label, f.share, f.recipient);
    }
    p.build_payments()?;
    Ok(p)
}

pub fn execute(deps: DepsMut, env: Env, info: MessageInfo, msg: Msg) -> Result<Response, MarketplaceStdError> {
    let response = Response::new();
    match msg {
        Msg::Sale { price, seller, fees } => Ok(processed(price, seller, fees)?.payout(response)),
        Msg::Labels { price, seller, fees } => {
            let p = processed(price, seller, fees)?;
            let mut response = response;
            for x in p.payments.iter() {
                response = response.add_message(send(&x.recipient, coins(x.funds.amount.u128(), x.label.clone())));
            }
            Ok(response)
        }
        Msg::Transfer { funds, to } => Ok(transfers::transfer_coins(funds, &to, response)),
        Msg::TransferOne { funds, to } => Ok(transfers::transfer_coin(funds, &to, response)),
        Msg::CheckedTransfer { funds, to } => transfers::checked_transfer_coins(funds, &to, response),
        Msg::CheckedTransferOne { funds, to } => transfers::checked_transfer_coin(funds, &to, response),
        Msg::TransferNft { collection, token_id, recipient } => Ok(nft::transfer_nft(&collection, &token_id, &recipient, response)),
        Msg::OnlyOwner { collection, token_id } => nft::only_owner(&deps.querier, &info, &collection, &token_id).map(|_| response),
        Msg::OnlyTradable { collection } => nft::only_tradable(&deps.querier, &env.block, &collection).map(|_| response),
        Msg::Royalties { registry, collection, protocol } => {
            let (entry, mut response) = royalties::fetch_or_set_royalties(deps.as_ref(), &registry, &collection, protocol.as_ref(), response)?;
            if let Some(e) = entry {
                response = response.add_message(send(&e.recipient, vec![coin(e.share.atomics().u128(), "share")]));
            }
            Ok(response)
        }
        Msg::RoyaltyEntry { registry, collection, protocol } => {
            let mut response = response;
            if let Some(e) = royalties::fetch_royalty_entry(&deps.querier, &registry, &collection, protocol.as_ref())? {
                response = response.add_message(send(&e.recipient, vec![coin(e.share.atomics().u128(), "share")]));
            }
            Ok(response)
        }
        Msg::Addresses { addresses } => {
            let mut response = response;
            for a in address::map_validate(deps.api, &addresses)? {
                response = response.add_message(send(&a, coins(1, "address")));
            }
            Ok(response)
        }
        Msg::AddressOr { addr, default } => Ok(response.add_message(send(&address::address_or(addr.as_ref(), &default), coins(1, "address")))),
    }
}
