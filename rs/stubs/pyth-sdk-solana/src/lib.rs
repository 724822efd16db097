#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Price { pub price: i64, pub conf: u64, pub expo: i32, pub publish_time: i64 }
pub mod state {
    pub const MAGIC: u32 = 0xa1b2c3d4;
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    #[repr(u8)]
    pub enum PriceStatus { #[default] Unknown, Trading, Halted, Auction, Ignored }
    #[derive(Clone, Copy, Debug, Default)]
    #[repr(C)]
    pub struct PriceInfo { pub price: i64, pub conf: u64, pub status: PriceStatus, pub corp_act: u8, pub pub_slot: u64 }
    #[derive(Clone, Copy, Debug, Default)]
    #[repr(C)]
    pub struct Rational { pub val: i64, pub numer: i64, pub denom: i64 }
    #[derive(Clone, Copy, Debug, Default)]
    #[repr(C)]
    pub struct PriceComp { pub publisher: [u8; 32], pub agg: PriceInfo, pub latest: PriceInfo }
    #[derive(Clone, Copy, Debug)]
    #[repr(C)]
    pub struct PriceAccount {
        pub magic: u32, pub ver: u32, pub atype: u32, pub size: u32,
        pub ptype: u8, _pad: [u8; 3], pub expo: i32, pub num: u32, pub num_qt: u32,
        pub last_slot: u64, pub valid_slot: u64,
        pub ema_price: Rational, pub ema_conf: Rational,
        pub timestamp: i64, pub min_pub: u8, pub drv2: u8, pub drv3: u16, pub drv4: u32,
        pub prod: [u8; 32], pub next: [u8; 32],
        pub prev_slot: u64, pub prev_price: i64, pub prev_conf: u64, pub prev_timestamp: i64,
        pub agg: PriceInfo,
        pub comp: [PriceComp; 32],
    }
    impl Default for PriceAccount { fn default() -> Self { unsafe { std::mem::zeroed() } } }
    unsafe impl bytemuck::Zeroable for PriceAccount {}
    unsafe impl bytemuck::Pod for PriceAccount {}
    #[derive(Debug)]
    pub struct PythError;
    pub fn load_price_account(data: &[u8]) -> Result<&PriceAccount, PythError> {
        let a: &PriceAccount = bytemuck::try_from_bytes(data.get(..std::mem::size_of::<PriceAccount>()).ok_or(PythError)?).map_err(|_| PythError)?;
        if a.magic != MAGIC || a.ver != 2 || a.atype != 3 { return Err(PythError); }
        Ok(a)
    }
}
