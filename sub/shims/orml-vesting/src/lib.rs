pub const VESTING_LOCK_ID: frame_support::traits::LockIdentifier = *b"ormlvest";
