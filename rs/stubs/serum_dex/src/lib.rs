//! Minimal stand-in for serum_dex: account layouts and the API surface mango-v4 uses.
pub mod error {
    #[derive(Debug)]
    pub struct DexError;
}
pub mod matching {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, num_enum::TryFromPrimitive, num_enum::IntoPrimitive)]
    #[repr(u8)]
    pub enum Side {
        Bid = 0,
        Ask = 1,
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, num_enum::TryFromPrimitive, num_enum::IntoPrimitive)]
    #[repr(u8)]
    pub enum OrderType {
        Limit = 0,
        ImmediateOrCancel = 1,
        PostOnly = 2,
    }
}
pub mod instruction {
    use super::matching::*;
    use std::num::NonZeroU64;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, num_enum::TryFromPrimitive, num_enum::IntoPrimitive)]
    #[repr(u8)]
    pub enum SelfTradeBehavior {
        DecrementTake = 0,
        CancelProvide = 1,
        AbortTransaction = 2,
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct NewOrderInstructionV3 {
        pub side: Side,
        pub limit_price: NonZeroU64,
        pub max_coin_qty: NonZeroU64,
        pub max_native_pc_qty_including_fees: NonZeroU64,
        pub self_trade_behavior: SelfTradeBehavior,
        pub order_type: OrderType,
        pub client_order_id: u64,
        pub limit: u16,
        pub max_ts: i64,
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct CancelOrderInstructionV2 {
        pub side: Side,
        pub order_id: u128,
    }
    pub enum MarketInstruction {
        InitOpenOrders,
        CloseOpenOrders,
        SettleFunds,
        NewOrderV3(NewOrderInstructionV3),
        CancelOrderV2(CancelOrderInstructionV2),
        CancelOrderByClientIdV2(u64),
    }
    impl MarketInstruction {
        pub fn pack(&self) -> Vec<u8> {
            match self {
                MarketInstruction::InitOpenOrders => vec![0, 15, 0, 0, 0],
                MarketInstruction::CloseOpenOrders => vec![0, 14, 0, 0, 0],
                MarketInstruction::SettleFunds => vec![0, 5, 0, 0, 0],
                MarketInstruction::NewOrderV3(o) => {
                    let mut v = vec![0, 10, 0, 0, 0];
                    v.extend((o.side as u32).to_le_bytes());
                    v.extend(o.limit_price.get().to_le_bytes());
                    v.extend(o.max_coin_qty.get().to_le_bytes());
                    v.extend(o.max_native_pc_qty_including_fees.get().to_le_bytes());
                    v.extend((o.self_trade_behavior as u32).to_le_bytes());
                    v.extend((o.order_type as u32).to_le_bytes());
                    v.extend(o.client_order_id.to_le_bytes());
                    v.extend(o.limit.to_le_bytes());
                    v.extend(o.max_ts.to_le_bytes());
                    v
                }
                MarketInstruction::CancelOrderV2(o) => {
                    let mut v = vec![0, 11, 0, 0, 0];
                    v.extend((o.side as u32).to_le_bytes());
                    v.extend(o.order_id.to_le_bytes());
                    v
                }
                MarketInstruction::CancelOrderByClientIdV2(id) => {
                    let mut v = vec![0, 12, 0, 0, 0];
                    v.extend(id.to_le_bytes());
                    v
                }
            }
        }
    }
}
pub mod critbit {
    pub struct Slab {
        _p: [u8],
    }
    impl Slab {
        pub fn new(_bytes: &mut [u8]) -> &mut Self {
            unimplemented!("serum_dex stub")
        }
        pub fn find_by_key(&self, _key: u128) -> Option<u32> {
            unimplemented!("serum_dex stub")
        }
    }
}
pub mod state {
    use bytemuck::{Pod, Zeroable};
    use solana_program::pubkey::Pubkey;
    pub const ACCOUNT_HEAD_PADDING: &[u8; 5] = b"serum";
    pub const ACCOUNT_TAIL_PADDING: &[u8; 7] = b"padding";
    pub trait ToAlignedBytes {
        fn to_aligned_bytes(&self) -> [u64; 4];
    }
    impl ToAlignedBytes for Pubkey {
        fn to_aligned_bytes(&self) -> [u64; 4] {
            bytemuck::cast(self.to_bytes())
        }
    }
    #[derive(Clone, Copy, Debug)]
    #[repr(u64)]
    pub enum AccountFlag {
        Initialized = 1,
        Market = 2,
        OpenOrders = 4,
        RequestQueue = 8,
        EventQueue = 16,
        Bids = 32,
        Asks = 64,
        Disabled = 128,
        Closed = 256,
        Permissioned = 512,
    }
    #[derive(Copy, Clone)]
    #[repr(C, packed)]
    pub struct OpenOrders {
        pub account_flags: u64,
        pub market: [u64; 4],
        pub owner: [u64; 4],
        pub native_coin_free: u64,
        pub native_coin_total: u64,
        pub native_pc_free: u64,
        pub native_pc_total: u64,
        pub free_slot_bits: u128,
        pub is_bid_bits: u128,
        pub orders: [u128; 128],
        pub client_order_ids: [u64; 128],
        pub referrer_rebates_accrued: u64,
    }
    unsafe impl Zeroable for OpenOrders {}
    unsafe impl Pod for OpenOrders {}
    #[derive(Copy, Clone)]
    #[repr(C, packed)]
    pub struct MarketState {
        pub account_flags: u64,
        pub own_address: [u64; 4],
        pub vault_signer_nonce: u64,
        pub coin_mint: [u64; 4],
        pub pc_mint: [u64; 4],
        pub coin_vault: [u64; 4],
        pub coin_deposits_total: u64,
        pub coin_fees_accrued: u64,
        pub pc_vault: [u64; 4],
        pub pc_deposits_total: u64,
        pub pc_fees_accrued: u64,
        pub pc_dust_threshold: u64,
        pub req_q: [u64; 4],
        pub event_q: [u64; 4],
        pub bids: [u64; 4],
        pub asks: [u64; 4],
        pub coin_lot_size: u64,
        pub pc_lot_size: u64,
        pub fee_rate_bps: u64,
        pub referrer_rebates_accrued: u64,
    }
    unsafe impl Zeroable for MarketState {}
    unsafe impl Pod for MarketState {}
    impl MarketState {
        pub fn check_flags(&self, _allow_disabled: bool) -> Result<(), super::error::DexError> {
            let f = self.account_flags;
            if f == 3 { Ok(()) } else { Err(super::error::DexError) }
        }
    }
}
