pub type BlockNumber = u32;
