//! Stand-in for `sp-trie`.
