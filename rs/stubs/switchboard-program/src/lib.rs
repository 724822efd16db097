#[derive(Default, Clone, Debug)]
pub struct FastRoundResult { pub round_open_slot: u64, pub round_open_timestamp: i64, pub result: f64, pub min_response: f64, pub max_response: f64, pub decimals: u32 }
#[derive(Default, Clone, Debug)]
pub struct FastRoundResultAccountData { pub parent: [u8; 32], pub result: FastRoundResult }
impl FastRoundResultAccountData {
    pub fn deserialize(_data: &[u8]) -> Result<Self, solana_program::program_error::ProgramError> {
        Err(solana_program::program_error::ProgramError::InvalidAccountData)
    }
}
