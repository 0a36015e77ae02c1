//! Runs single contract calls described by JSON lines on the real, natively compiled contracts and prints what happened.
use cosmwasm_std::{
    from_json, testing::{MockApi, MockStorage}, Addr, Api, Binary, CanonicalAddr, ContractResult, Deps, DepsMut, Empty, Env, MessageInfo,
    Order, Querier, QuerierResult, QuerierWrapper, QueryRequest, RecoverPubkeyError, StdError, StdResult, Storage, SystemError,
    SystemResult, VerificationError, WasmQuery,
};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

struct TestApi {
    invalid: Vec<String>,
}

impl Api for TestApi {
    fn addr_validate(&self, human: &str) -> StdResult<Addr> {
        if self.invalid.iter().any(|x| x == human) {
            return Err(StdError::generic_err("invalid address"));
        }
        Ok(Addr::unchecked(human))
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        Ok(CanonicalAddr::from(human.as_bytes()))
    }
    fn addr_humanize(&self, canonical: &CanonicalAddr) -> StdResult<Addr> {
        Ok(Addr::unchecked(String::from_utf8_lossy(canonical.as_slice()).to_string()))
    }
    fn secp256k1_verify(&self, a: &[u8], b: &[u8], c: &[u8]) -> Result<bool, VerificationError> {
        MockApi::default().secp256k1_verify(a, b, c)
    }
    fn secp256k1_recover_pubkey(&self, a: &[u8], b: &[u8], c: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        MockApi::default().secp256k1_recover_pubkey(a, b, c)
    }
    fn ed25519_verify(&self, a: &[u8], b: &[u8], c: &[u8]) -> Result<bool, VerificationError> {
        MockApi::default().ed25519_verify(a, b, c)
    }
    fn ed25519_batch_verify(&self, a: &[&[u8]], b: &[&[u8]], c: &[&[u8]]) -> Result<bool, VerificationError> {
        MockApi::default().ed25519_batch_verify(a, b, c)
    }
    fn debug(&self, _: &str) {}
}

/// Answers exactly the queries of the case; anything else is recorded.
struct TestQuerier {
    answers: Vec<Value>,
    unexpected: RefCell<Vec<Value>>,
}

impl TestQuerier {
    fn answer(&self, kind: &str, contract: &str, msg: Value) -> QuerierResult {
        for a in &self.answers {
            if a["kind"] == kind && a["contract"] == contract && a["msg"] == msg {
                if a["ok"].is_null() {
                    return SystemResult::Ok(ContractResult::Err("no answer".to_string()));
                }
                return SystemResult::Ok(ContractResult::Ok(Binary::from(serde_json::to_vec(&a["ok"]).unwrap())));
            }
        }
        self.unexpected.borrow_mut().push(json!({"kind": kind, "contract": contract, "msg": msg}));
        SystemResult::Ok(ContractResult::Err("no answer".to_string()))
    }
}

impl Querier for TestQuerier {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let req: QueryRequest<Empty> = match from_json(bin) {
            Ok(r) => r,
            Err(e) => {
                return SystemResult::Err(SystemError::InvalidRequest { error: e.to_string(), request: bin.into() });
            }
        };
        match req {
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => {
                self.answer("smart", &contract_addr, serde_json::from_slice(msg.as_slice()).unwrap_or(Value::Null))
            }
            QueryRequest::Wasm(WasmQuery::ContractInfo { contract_addr }) => self.answer("info", &contract_addr, Value::Null),
            _ => self.answer("other", "", Value::Null),
        }
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn arg<T: serde::de::DeserializeOwned>(v: &Value) -> Result<T, String> {
    from_json(serde_json::to_vec(v).unwrap()).map_err(|e| format!("INPUT {e}"))
}

fn out<T: serde::Serialize, E: std::fmt::Display>(r: Result<T, E>) -> Result<Value, String> {
    r.map(|x| serde_json::to_value(&x).unwrap()).map_err(|e| e.to_string())
}

fn call(c: &Value, storage: &mut MockStorage, api: &TestApi, querier: &TestQuerier) -> Result<Value, String> {
    let (contract, entry) = (c["contract"].as_str().unwrap(), c["entry"].as_str().unwrap());
    let env: Env = arg(&c["env"])?;
    macro_rules! deps_mut {
        () => {
            DepsMut { storage, api, querier: QuerierWrapper::new(querier) }
        };
    }
    macro_rules! info {
        () => {
            arg::<MessageInfo>(&c["info"])?
        };
    }
    macro_rules! msg {
        () => {
            arg(&c["msg"])?
        };
    }
    macro_rules! query {
        ($m:ident) => {{
            let deps = Deps { storage, api, querier: QuerierWrapper::new(querier) };
            match $m::query::query(deps, env, msg!()) {
                Ok(b) => Ok(serde_json::from_slice(b.as_slice()).unwrap()),
                Err(e) => Err(e.to_string()),
            }
        }};
    }
    match (contract, entry) {
        ("v2", "instantiate") => out(stargaze_marketplace_v2::instantiate::instantiate(deps_mut!(), env, info!(), msg!())),
        ("v2", "execute") => out(stargaze_marketplace_v2::execute::execute(deps_mut!(), env, info!(), msg!())),
        ("v2", "migrate") => out(stargaze_marketplace_v2::migrate::migrate(deps_mut!(), env, msg!())),
        ("v2", "query") => query!(stargaze_marketplace_v2),
        ("ra", "instantiate") => out(stargaze_reserve_auction::instantiate::instantiate(deps_mut!(), env, info!(), msg!())),
        ("ra", "execute") => out(stargaze_reserve_auction::execute::execute(deps_mut!(), env, info!(), msg!())),
        ("ra", "sudo") => out(stargaze_reserve_auction::sudo::sudo(deps_mut!(), env, msg!())),
        ("ra", "migrate") => out(stargaze_reserve_auction::migrate::migrate(deps_mut!(), env, msg!())),
        ("ra", "query") => query!(stargaze_reserve_auction),
        ("v1", "instantiate") => out(sg_marketplace::execute::instantiate(deps_mut!(), env, info!(), msg!())),
        ("v1", "execute") => out(sg_marketplace::execute::execute(deps_mut!(), env, info!(), msg!())),
        ("v1", "sudo") => out(sg_marketplace::sudo::sudo(deps_mut!(), env, msg!())),
        ("v1", "reply") => out(sg_marketplace::execute::reply(deps_mut!(), env, msg!())),
        ("v1", "migrate") => out(sg_marketplace::execute::migrate(deps_mut!(), env, msg!())),
        ("v1", "query") => query!(sg_marketplace),
        ("common", "execute") => out(verif_shared::execute(deps_mut!(), env, info!(), msg!())),
        _ => Err(format!("INPUT no entry point {contract} {entry}")),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let c: Value = serde_json::from_str(&line).unwrap();
        let mut storage = MockStorage::default();
        for kv in c["storage"].as_array().unwrap() {
            storage.set(&unhex(kv[0].as_str().unwrap()), &unhex(kv[1].as_str().unwrap()));
        }
        let api = TestApi { invalid: c["invalid"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect() };
        let querier = TestQuerier { answers: c["queries"].as_array().unwrap().clone(), unexpected: RefCell::new(vec![]) };
        let r = catch_unwind(AssertUnwindSafe(|| call(&c, &mut storage, &api, &querier)));
        let (status, data, error) = match r {
            Ok(Ok(v)) => ("ok", v, Value::Null),
            Ok(Err(e)) if e.starts_with("INPUT ") => ("input", Value::Null, json!(e)),
            Ok(Err(e)) => ("err", Value::Null, json!(e)),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                ("panic", Value::Null, json!(m))
            }
        };
        let kvs: Vec<Value> = storage.range(None, None, Order::Ascending).map(|(k, v)| json!([hex(&k), hex(&v)])).collect();
        let res = json!({"status": status, "data": data, "error": error, "storage": kvs, "unexpected": *querier.unexpected.borrow()});
        println!("{res}");
        std::io::stdout().flush().unwrap();
    }
}
