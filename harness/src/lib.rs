//! Empty: only pulls the contracts and their dependencies into one compilation session.
pub use cosmwasm_std;
pub use sg_marketplace;
pub use stargaze_marketplace_v2;
pub use stargaze_reserve_auction;
pub use verif_shared;
