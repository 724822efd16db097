use std::path::PathBuf;
pub fn find_file(name: &str) -> Option<PathBuf> { let p = PathBuf::from("/repo/programs/mango-v4").join(name); p.exists().then_some(p) }
pub fn read_file(p: PathBuf) -> Vec<u8> { std::fs::read(p).unwrap() }
