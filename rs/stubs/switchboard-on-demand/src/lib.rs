use std::fmt;
#[derive(Clone, Copy, Debug, Default)]
pub struct Decimal(pub f64);
#[derive(Debug)]
pub struct SbError;
impl fmt::Display for SbError { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("switchboard") } }
impl TryFrom<Decimal> for f64 { type Error = SbError; fn try_from(d: Decimal) -> Result<f64, SbError> { Ok(d.0) } }
#[derive(Clone, Copy, Debug, Default)]
#[repr(C)]
pub struct CurrentResult { pub value: i128, pub std_dev: i128, pub min_slot: u64, pub max_slot: u64 }
#[derive(Clone, Copy, Debug, Default)]
#[repr(C)]
pub struct PullFeedAccountData { pub result: CurrentResult }
unsafe impl bytemuck::Zeroable for PullFeedAccountData {}
unsafe impl bytemuck::Pod for PullFeedAccountData {}
impl PullFeedAccountData {
    pub fn discriminator() -> [u8; 8] { [196, 27, 108, 196, 10, 215, 219, 40] }
    pub fn value(&self) -> Option<Decimal> { if self.result.value == 0 { None } else { Some(Decimal(self.result.value as f64 / 1e18)) } }
    pub fn std_dev(&self) -> Option<Decimal> { Some(Decimal(self.result.std_dev as f64 / 1e18)) }
}
