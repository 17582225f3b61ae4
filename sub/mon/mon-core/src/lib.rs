//! The monitor runtime: seeded workload driver, online oracles, observation ledger, verdicts and evidence.
//!
//! A verdict is three-valued: violated (exit 1, one VIOLATION line with a replay file), held on what was
//! observed (exit 0), inconclusive (exit 2: a workload observed too little, or the watchdog fired early).
pub mod big;
pub mod panics;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Rng(u64, u64);
impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut s = seed ^ 0x9E37_79B9_7F4A_7C15;
		let mut next = || { s = s.wrapping_add(0x9E37_79B9_7F4A_7C15); let mut z = s; z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB); z ^ (z >> 31) };
		Rng(next(), next())
	}
	pub fn u64(&mut self) -> u64 {
		let (s0, mut s1) = (self.0, self.1);
		let r = s0.wrapping_add(s1).rotate_left(17).wrapping_add(s0);
		s1 ^= s0;
		self.0 = s0.rotate_left(49) ^ s1 ^ (s1 << 21);
		self.1 = s1.rotate_left(28);
		r
	}
	pub fn u128(&mut self) -> u128 { ((self.u64() as u128) << 64) | self.u64() as u128 }
	/// uniform in [0, n)
	pub fn below(&mut self, n: u128) -> u128 { if n == 0 { 0 } else { self.u128() % n } }
	pub fn idx(&mut self, n: usize) -> usize { (self.u64() % (n.max(1) as u64)) as usize }
	/// uniform in [lo, hi]
	pub fn range(&mut self, lo: u128, hi: u128) -> u128 { if hi <= lo { lo } else if lo == 0 && hi == u128::MAX { self.u128() } else { lo + self.u128() % (hi - lo + 1) } }
	/// log-uniform in [lo, hi], with occasional exact boundary and round values
	pub fn log(&mut self, lo: u128, hi: u128) -> u128 {
		if hi <= lo { return lo; }
		match self.idx(24) {
			0 => lo,
			1 => hi,
			2 => { let mut p = 1u128; while p < lo { p = p.saturating_mul(10); } let mut n = 0; let mut q = p; while q <= hi / 10 { q *= 10; n += 1; } let k = self.idx(n + 1); for _ in 0..k { p *= 10; } p.clamp(lo, hi) }
			_ => {
				let lb = 128 - lo.max(1).leading_zeros();
				let hb = 128 - hi.leading_zeros();
				let bits = lb + self.idx((hb - lb + 1) as usize) as u32;
				let top = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
				let bot = if bits <= 1 { 0 } else { 1u128 << (bits - 1) };
				self.range(bot, top).clamp(lo, hi)
			}
		}
	}
	pub fn chance(&mut self, num: u32, den: u32) -> bool { (self.u64() % den as u64) < num as u64 }
	pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.idx(xs.len()); &xs[i] }
	/// A parts-per-million fee, dense at 0 and at realistic values, sometimes extreme.
	pub fn ppm(&mut self, max: u32) -> u32 {
		let v = match self.idx(10) { 0 => 0, 1 => 1, 2 => max, 3 => max.saturating_sub(1), 4..=7 => self.range(0, 50_000) as u32, _ => self.range(0, max as u128) as u32 };
		v.min(max)
	}
}

fn h<T: Hash>(t: &T) -> u64 { let mut s = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut s); s.finish() }

#[derive(Default)]
struct Ledger {
	events: BTreeMap<String, u64>,
	distinct: BTreeMap<String, HashSet<u64>>,
	nontrivial: HashSet<u64>,
	samples: Vec<Value>,
	violations: Vec<(String, String, u64, String)>, // workload, oracle, index, detail
	oracle_evals: BTreeMap<String, u64>,
	evaluations: u64,
	maxima: BTreeMap<String, u128>,
}
impl Ledger {
	fn merge(&mut self, o: Ledger) {
		for (k, v) in o.events { *self.events.entry(k).or_default() += v; }
		for (k, v) in o.oracle_evals { *self.oracle_evals.entry(k).or_default() += v; }
		for (k, v) in o.distinct { self.distinct.entry(k).or_default().extend(v); }
		for (k, v) in o.maxima { let e = self.maxima.entry(k).or_default(); *e = (*e).max(v); }
		self.nontrivial.extend(o.nontrivial);
		for s in o.samples { if self.samples.len() < 12 { self.samples.push(s); } }
		self.violations.extend(o.violations);
		self.evaluations += o.evaluations;
	}
}

/// What a workload case sees: the seeded generator and the observation/oracle interface.
pub struct Ctx<'a> {
	pub rng: Rng,
	pub index: u64,
	pub verbose: bool,
	pub property: &'a str,
	workload: &'a str,
	ledger: &'a RefCell<Ledger>,
	trace: RefCell<Vec<String>>,
	stop: std::cell::Cell<bool>,
	nt: std::cell::Cell<Option<u64>>,
}
impl<'a> Ctx<'a> {
	/// Record that an event was observed.
	pub fn event(&self, name: &str) {
		let mut l = self.ledger.borrow_mut();
		let k = format!("{}/{}", self.workload, name);
		*l.events.entry(k).or_default() += 1;
	}
	/// Record a distinct state / class key for coverage.
	pub fn distinct<T: Hash>(&self, name: &str, key: T) {
		let mut l = self.ledger.borrow_mut();
		let k = format!("{}/{}", self.workload, name);
		let s = l.distinct.entry(k).or_default();
		if s.len() < 2_000_000 { s.insert(h(&key)); }
	}
	/// Record a non-trivial evaluation (the code under test accepted the case and the oracle had something to judge).
	pub fn nontrivial<T: Hash>(&self, key: T) {
		let k = h(&(self.workload, self.nt.get(), h(&key)));
		self.nt.set(Some(k));
	}
	pub fn sample(&self, f: impl FnOnce() -> Value) {
		let mut l = self.ledger.borrow_mut();
		if l.samples.len() < 2 { let v = f(); l.samples.push(json!({"workload": self.workload, "case": self.index, "observed": v})); }
	}
	pub fn maximum(&self, name: &str, v: u128) {
		let mut l = self.ledger.borrow_mut();
		let e = l.maxima.entry(format!("{}/{}", self.workload, name)).or_default();
		*e = (*e).max(v);
	}
	/// A line of the recorded history, shown with a violation.
	pub fn log(&self, f: impl FnOnce() -> String) {
		let s = f();
		if self.verbose { println!("  {}", s); }
		let mut t = self.trace.borrow_mut();
		if t.len() >= 400 { t.remove(0); }
		t.push(s);
	}
	/// The oracle: `ok` must hold. Returns `ok`.
	pub fn check(&self, oracle: &str, ok: bool, detail: impl FnOnce() -> String) -> bool {
		{ let mut l = self.ledger.borrow_mut(); *l.oracle_evals.entry(format!("{}/{}", self.workload, oracle)).or_default() += 1; }
		if !ok { self.violate(oracle, detail()); }
		ok
	}
	/// An oracle of the named properties: silent while another property is being checked.
	pub fn check_in(&self, props: &str, oracle: &str, ok: bool, detail: impl FnOnce() -> String) -> bool {
		if !props.split(' ').any(|p| p == self.property) { return ok; }
		self.check(oracle, ok, detail)
	}
	pub fn violate(&self, oracle: &str, detail: String) {
		let mut d = detail;
		let t = self.trace.borrow();
		if !t.is_empty() { d.push_str("\nhistory:\n"); for l in t.iter() { d.push_str("  "); d.push_str(l); d.push('\n'); } }
		if self.verbose { println!("VIOLATED {}: {}", oracle, d); }
		let mut l = self.ledger.borrow_mut();
		if l.violations.len() < 200 { l.violations.push((self.workload.to_string(), oracle.to_string(), self.index, d)); }
		self.stop.set(true);
	}
	/// True once an oracle of this case has failed; long histories stop there.
	pub fn failed(&self) -> bool { self.stop.get() }
}

pub struct Monitor {
	pub property: String,
	pub tier: String,
	pub seed: u64,
	pub rule: String,
	pub assumptions: Vec<String>,
	start: Instant,
	deadline: Instant,
	ledger: Ledger,
	inconclusive: Vec<String>,
	replay: Option<(String, u64, u64)>,
	known: Vec<(String, String)>,
	workloads: Vec<Value>,
	root: std::path::PathBuf,
	scale: f64,
	only: Option<String>,
}

impl Monitor {
	pub fn from_env(property: &str) -> Self {
		let args: Vec<String> = std::env::args().collect();
		let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
		let tier = std::env::var("VERIF_TIER").ok().filter(|t| t == "thorough").unwrap_or_else(|| "quick".into());
		let tier = get("--tier").unwrap_or(tier);
		let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
		let root = std::path::PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
		let replay = get("--replay").and_then(|p| std::fs::read_to_string(p).ok()).and_then(|s| serde_json::from_str::<Value>(&s).ok()).map(|v| (v["workload"].as_str().unwrap().to_string(), v["seed"].as_u64().unwrap(), v["case"].as_u64().unwrap()));
		let known = std::fs::read_to_string(root.join("known-findings.json")).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()).and_then(|v| v.as_array().cloned()).unwrap_or_default()
			.into_iter().filter(|e| e["status"] == "known" && e["property"] == property).filter_map(|e| Some((e["signature"].as_str()?.to_string(), e["what"].as_str().unwrap_or("").to_string()))).collect();
		let secs = if tier == "thorough" { 3000 } else { 360 };
		let scale = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
		let start = Instant::now();
		panics::install();
		Monitor { property: property.into(), tier, seed, rule: String::new(), assumptions: vec![], start, deadline: start + Duration::from_secs(secs), ledger: Ledger::default(), inconclusive: vec![], replay, known, workloads: vec![], root, scale, only: get("--only") }
	}
	/// Multiplies every workload's case counts.
	pub fn scale_by(&mut self, f: f64) { self.scale *= f; }
	pub fn rule(&mut self, s: &str) { self.rule = s.into(); }
	pub fn assume(&mut self, s: &str) { self.assumptions.push(s.into()); }
	pub fn thorough(&self) -> bool { self.tier == "thorough" }
	/// Runs `quick`/`thorough` seeded cases of one workload on all cores. A panic of the code under test inside a case
	/// is reported under the oracle "no-panic" unless the case catches it itself.
	pub fn workload<F>(&mut self, name: &str, quick: u64, thorough: u64, f: F) where F: Fn(&mut Ctx) + Sync {
		let n = ((if self.thorough() { thorough } else { quick }) as f64 * self.scale).max(1.0) as u64;
		if let Some(o) = &self.only { if o != name { return; } }
		if let Some((wl, seed, case)) = self.replay.clone() {
			if wl == name { self.seed = seed; let l = Self::span(&self.property, name, seed, &AtomicU64::new(case), case + 1, self.deadline, &AtomicBool::new(false), &f, true); self.ledger.merge(l); }
			return;
		}
		let t0 = Instant::now();
		let next = AtomicU64::new(0);
		let stop = AtomicBool::new(false);
		let out = Mutex::new(Vec::new());
		let threads = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)).min(n as usize).max(1);
		let (seed, deadline, property) = (self.seed, self.deadline, self.property.as_str());
		std::thread::scope(|s| {
			for _ in 0..threads {
				std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || { let l = Self::span(property, name, seed, &next, n, deadline, &stop, &f, false); out.lock().unwrap().push(l); }).unwrap();
			}
		});
		let mut done = 0;
		for l in out.into_inner().unwrap() { done += l.evaluations; self.ledger.merge(l); }
		if done < n / 4 && self.ledger.violations.is_empty() { self.inconclusive.push(format!("workload {} ran {} of {} cases before the watchdog", name, done, n)); }
		self.workloads.push(json!({"name": name, "cases_planned": n, "cases_run": done, "wall_s": t0.elapsed().as_secs_f64()}));
	}
	#[allow(clippy::too_many_arguments)]
	fn span<F>(property: &str, name: &str, seed: u64, next: &AtomicU64, n: u64, deadline: Instant, stop: &AtomicBool, f: &F, verbose: bool) -> Ledger where F: Fn(&mut Ctx) {
		let ledger = RefCell::new(Ledger::default());
		loop {
			let i = next.fetch_add(1, Ordering::Relaxed);
			if i >= n || stop.load(Ordering::Relaxed) || Instant::now() > deadline { break; }
			let mut ctx = Ctx { rng: Rng::new(h(&(seed, name, i))), index: i, verbose, property, workload: name, ledger: &ledger, trace: RefCell::new(vec![]), stop: std::cell::Cell::new(false), nt: std::cell::Cell::new(None) };
			if let Err(p) = panics::catch(|| f(&mut ctx)) { ctx.violate("no-panic", format!("the code under test panicked: {}", p)); }
			let mut l = ledger.borrow_mut();
			l.evaluations += 1;
			if let Some(k) = ctx.nt.get() { if l.nontrivial.len() < 4_000_000 { l.nontrivial.insert(k); } }
			if l.violations.len() >= 50 { stop.store(true, Ordering::Relaxed); }
		}
		ledger.into_inner()
	}
	/// The named event must have been observed at least `min` times, or the run is inconclusive.
	pub fn expect(&mut self, event: &str, min: u64) {
		if self.replay.is_some() || self.only.is_some() { return; }
		let min = ((min as f64) * self.scale.min(1.0)) as u64;
		let got = self.ledger.events.get(event).copied().unwrap_or(0);
		if got < min { self.inconclusive.push(format!("event {} observed {} times, expected at least {}", event, got, min)); }
	}
	/// Writes evidence, prints the verdict and exits.
	pub fn finish(self) -> ! {
		let id = self.property.clone();
		let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
		let mut fresh = vec![];
		for v in &self.ledger.violations {
			let sig = format!("{}/{}", v.0, v.1);
			match self.known.iter().find(|(s, _)| *s == sig) { Some((s, _)) => *known_seen.entry(s.clone()).or_default() += 1, None => fresh.push(v.clone()) }
		}
		if self.replay.is_none() && self.only.is_none() {
			let coverage = json!({
				"evaluations": self.ledger.evaluations,
				"distinct_nontrivial": self.ledger.nontrivial.len(),
				"rule": self.rule,
				"samples": self.ledger.samples,
				"workloads": self.workloads,
				"events": self.ledger.events,
				"oracle_evaluations": self.ledger.oracle_evals,
				"distinct_states": self.ledger.distinct.iter().map(|(k, v)| (k.clone(), v.len())).collect::<BTreeMap<_, _>>(),
				"maxima": self.ledger.maxima.iter().map(|(k, v)| (k.clone(), v.to_string())).collect::<BTreeMap<_, _>>(),
				"inconclusive": self.inconclusive,
			});
			let ev = json!({"property": id, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": coverage, "assumptions": self.assumptions, "wall_s": self.start.elapsed().as_secs_f64(), "violations": fresh.len()});
			let part = std::env::var("VERIF_PART").unwrap_or_default();
			let (dir, file) = if part.is_empty() { (self.root.join("evidence"), format!("{}.json", id)) } else { (self.root.join("build/parts"), format!("{}.{}.json", id, part)) };
			let _ = std::fs::create_dir_all(&dir);
			std::fs::write(dir.join(file), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
		}
		let total: u64 = self.ledger.oracle_evals.values().sum();
		println!("{}: {} cases, {} oracle evaluations, {} distinct non-trivial, {:.1}s, seed {}, tier {}", id, self.ledger.evaluations, total, self.ledger.nontrivial.len(), self.start.elapsed().as_secs_f64(), self.seed, self.tier);
		for (s, n) in &self.known { println!("KNOWN-FINDING: property={} {} [{}; seen {} times in this run]", id, n, s, known_seen.get(s).copied().unwrap_or(0)); }
		if !fresh.is_empty() {
			let dir = self.root.join("build/replays");
			let _ = std::fs::create_dir_all(&dir);
			let kinds: BTreeSet<_> = fresh.iter().map(|v| (v.0.clone(), v.1.clone())).collect();
			for (wl, oracle) in kinds {
				let v = fresh.iter().filter(|v| v.0 == wl && v.1 == oracle).min_by_key(|v| v.2).unwrap();
				let p = dir.join(format!("{}-{}-{}.json", id, wl, oracle));
				let _ = std::fs::write(&p, serde_json::to_string_pretty(&json!({"property": id, "workload": wl, "oracle": oracle, "seed": self.seed, "case": v.2, "detail": v.3})).unwrap());
				println!("{}/{} (case {}, {} in all): {}", wl, oracle, v.2, fresh.iter().filter(|x| x.0 == wl && x.1 == oracle).count(), v.3);
				println!("VIOLATION property={} replay={}", id, p.display());
			}
			std::process::exit(1);
		}
		if !self.inconclusive.is_empty() {
			for i in &self.inconclusive { println!("INCONCLUSIVE: {}", i); }
			std::process::exit(2);
		}
		std::process::exit(0);
	}
}

/// A monitor binary: `"C01" => |m| ...` arms.
#[macro_export]
macro_rules! run {
	($scale:expr, $rule:expr, $assume:expr; $($id:literal => $f:expr),+ $(,)?) => {{
		let id = std::env::args().nth(1).expect("property id");
		let mut m = $crate::Monitor::from_env(&id);
		m.scale_by($scale); m.rule($rule); for a in $assume { m.assume(a); }
		match id.as_str() { $($id => { let f: &dyn Fn(&mut $crate::Monitor) = &$f; f(&mut m) })+ _ => { eprintln!("unknown property {id}"); std::process::exit(2) } }
		m.finish()
	}};
}
