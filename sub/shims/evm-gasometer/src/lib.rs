//! Re-exported by a crate of the repository; nothing of it is used.
