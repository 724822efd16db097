solana_program::declare_id!("AddressLookupTab1e1111111111111111111111111");
pub mod state {
    pub const LOOKUP_TABLE_META_SIZE: usize = 56;
    pub struct AddressLookupTable;
    impl AddressLookupTable {
        pub fn deserialize(data: &[u8]) -> Result<Self, solana_program::instruction::InstructionError> {
            if data.len() < LOOKUP_TABLE_META_SIZE { return Err(solana_program::instruction::InstructionError::InvalidAccountData); }
            Ok(Self)
        }
    }
}
pub mod instruction {
    use solana_program::{instruction::Instruction, pubkey::Pubkey};
    pub fn extend_lookup_table(t: Pubkey, _a: Pubkey, _p: Option<Pubkey>, _n: Vec<Pubkey>) -> Instruction {
        Instruction { program_id: crate::id(), accounts: vec![solana_program::instruction::AccountMeta::new(t, false)], data: vec![] }
    }
}
