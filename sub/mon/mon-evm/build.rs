//! Writes the corpus of string literals fed to the compile-time hash macros, and a table of precompile addresses.
use std::fmt::Write;
fn main() {
	println!("cargo:rerun-if-changed=build.rs");
	let mut s = 0x1234_5678_9abc_def0u64;
	let mut r = move |n: usize| { s ^= s << 13; s ^= s >> 7; s ^= s << 17; (s % n as u64) as usize };
	let ty = ["uint256", "address", "bytes", "bool", "string", "uint8", "uint128[]", "(address,uint256)", "bytes32", "(uint8,bytes)[]"];
	let mut lits: Vec<String> = ["", "a", "transfer(address,uint256)", "name()", "symbol()", "decimals()", "totalSupply()", "balanceOf(address)", "allowance(address,address)", "approve(address,uint256)", "transferFrom(address,address,uint256)",
		"CallPermit(address from,address to,uint256 value,bytes data,uint64 gaslimit,uint256 nonce,uint256 deadline)", "EIP712Domain(string name,string version,uint256 chainId,address verifyingContract)", "1", " ", "é✓𝛑", "tab\tquote\"back\\slash\nline"].iter().map(|x| x.to_string()).collect();
	for _ in 0..260 {
		let n = 1 + r(14); let mut l: String = (0..n).map(|_| b"abcdefghijklmnopqrstuvwxyzABCDEFXYZ_0123456789"[r(46)] as char).collect();
		if r(8) != 0 { l.push('('); let k = r(6); for i in 0..k { if i > 0 { l.push(','); } l.push_str(ty[r(ty.len())]); } l.push(')'); }
		if r(20) == 0 { let t = l.clone(); while l.len() < 130 + r(30) { l.push_str(&t); } }
		if !lits.contains(&l) { lits.push(l); }
	}
	let mut o = String::new();
	writeln!(o, "pub const LITS: &[(&str, [u8; 32], &[u8; 32])] = &[").unwrap();
	for l in &lits { writeln!(o, "({l:?}, precompile_utils_macro::keccak256!({l:?}), module_evm_utility_macro::keccak256!({l:?})),").unwrap(); }
	writeln!(o, "];").unwrap();
	// enums of selectors, a few sizes
	let mut table = String::from("pub const SEL: &[(&str, u32)] = &[");
	let mut k = 0;
	for (e, n) in [1usize, 2, 9, 40, 120].iter().enumerate() {
		writeln!(o, "#[module_evm_utility_macro::generate_function_selector]\n#[derive(Debug, Clone, Copy)]\n#[repr(u32)]\n#[allow(dead_code)]\npub enum Sel{e} {{").unwrap();
		for i in 0..*n { let l = &lits[(2 + k) % lits.len()]; writeln!(o, "V{i} = {l:?},").unwrap(); writeln!(table, "({l:?}, Sel{e}::V{i} as u32),").unwrap(); k += 1; }
		writeln!(o, "}}").unwrap();
	}
	table.push_str("];");
	o.push_str(&table);
	std::fs::write(format!("{}/corpus.rs", std::env::var("OUT_DIR").unwrap()), o).unwrap();
}
