use std::fmt;
#[derive(Clone, Copy, Debug, Default)]
#[repr(C)]
pub struct SwitchboardDecimal { pub mantissa: i128, pub scale: u32, _p: [u8; 12] }
#[derive(Debug)]
pub struct SbError;
impl fmt::Display for SbError { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("switchboard") } }
impl TryFrom<SwitchboardDecimal> for f64 {
    type Error = SbError;
    fn try_from(d: SwitchboardDecimal) -> Result<f64, SbError> { Ok(d.mantissa as f64 / 10f64.powi(d.scale as i32)) }
}
#[derive(Clone, Copy, Debug, Default)]
#[repr(C)]
pub struct AggregatorRound { pub result: SwitchboardDecimal, pub std_deviation: SwitchboardDecimal, pub round_open_slot: u64, pub num_success: u32, pub _p: u32 }
#[derive(Clone, Copy, Debug)]
#[repr(C)]
pub struct AggregatorAccountData { pub latest_confirmed_round: AggregatorRound, pub min_oracle_results: u32, _p: [u8; 12] }
unsafe impl bytemuck::Zeroable for AggregatorAccountData {}
unsafe impl bytemuck::Pod for AggregatorAccountData {}
impl AggregatorAccountData {
    pub fn get_result(&self) -> Result<SwitchboardDecimal, SbError> {
        if self.min_oracle_results > self.latest_confirmed_round.num_success { return Err(SbError); }
        Ok(self.latest_confirmed_round.result)
    }
}
impl anchor_lang::Discriminator for AggregatorAccountData {
    const DISCRIMINATOR: [u8; 8] = [217, 230, 65, 101, 201, 162, 27, 125];
}
