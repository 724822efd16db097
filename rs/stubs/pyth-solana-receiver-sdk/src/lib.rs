use anchor_lang::prelude::*;
declare_id!("rec5EKMGg6MxZYaMdyBfgwp4d5rB9T1VQH5pJv5LtFJ");
pub mod price_update {
    use super::*;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, AnchorSerialize, AnchorDeserialize)]
    pub enum VerificationLevel { Partial { num_signatures: u8 }, Full }
    #[derive(Clone, Copy, Debug, PartialEq, AnchorSerialize, AnchorDeserialize)]
    pub struct PriceFeedMessage {
        pub feed_id: [u8; 32], pub price: i64, pub conf: u64, pub exponent: i32,
        pub publish_time: i64, pub prev_publish_time: i64, pub ema_price: i64, pub ema_conf: u64,
    }
    #[derive(Clone, Debug, PartialEq, AnchorSerialize, AnchorDeserialize)]
    pub struct PriceUpdateV2 {
        pub write_authority: Pubkey,
        pub verification_level: VerificationLevel,
        pub price_message: PriceFeedMessage,
        pub posted_slot: u64,
    }
    impl anchor_lang::Discriminator for PriceUpdateV2 {
        const DISCRIMINATOR: [u8; 8] = [34, 241, 35, 99, 157, 126, 244, 205];
    }
}
