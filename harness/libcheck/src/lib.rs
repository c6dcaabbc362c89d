//! Checks of stacks-core and sbtc-core, and the oracles other checks reuse.
pub mod btc;
pub mod commit;
pub mod core_bin;
pub mod core_text;
pub mod electrum;
pub mod gen;
pub mod ops;
pub mod wallet;
