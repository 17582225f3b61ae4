//! The asset registry and the bonds issued through it: random registrations, updates, bans, issues and redemptions, judged on every record, name, location and balance.
use codec::Encode;
use frame_support::storage::{with_transaction, TransactionOutcome};
use frame_support::traits::{BuildGenesisConfig, Contains, EnsureOrigin, Time};
use hydradx_traits::registry::{AssetKind, Create, Inspect, Mutate};
use hydradx_traits::Source;
use mon_core::big::w;
use mon_frame::*;
use pallet_asset_registry::{AssetType, OracleWhitelist, XcmRateLimitsInRegistry};
use pallet_asset_registry::{Call as Reg_, Event as RegEvent};
use pallet_bonds::{Call as Bond_, Event as BondEvent};
use sp_core::bounded::BoundedVec;

construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Currencies: pallet_currencies, Registry: pallet_asset_registry, Bonds: pallet_bonds });
base!(Rt, (), Nothing);
param! { Now: u64 = 1000; Start: u32 = 1000; Least: u32 = 3; FeeShare: Permill = Permill::from_percent(2); }
parameter_types! { pub const Native: u32 = 0; pub const Pid: PalletId = PalletId(*b"pltbonds"); #[derive(Debug, PartialEq)] pub const Len: u32 = 16; pub const Ext: u64 = 1; }
#[derive(Debug, PartialEq)] pub struct MinLen; impl Get<u32> for MinLen { fn get() -> u32 { Least::get() } }
pub struct Treasury; impl Get<Acc> for Treasury { fn get() -> Acc { acc(200) } }
pub struct Clock; impl Time for Clock { type Moment = u64; fn now() -> u64 { Now::get() } }
/// the technical committee
pub struct Tech; impl EnsureOrigin<RuntimeOrigin> for Tech { type Success = (); fn try_origin(o: RuntimeOrigin) -> Result<(), RuntimeOrigin> { match frame_system::ensure_signed(o.clone()) { Ok(a) if a == acc(7) => Ok(()), _ => Err(o) } } }
pub struct Kinds; impl Contains<AssetKind> for Kinds { fn contains(t: &AssetKind) -> bool { bondable(*t) } }
fn bondable(k: AssetKind) -> bool { matches!(k, AssetKind::Token | AssetKind::XYK | AssetKind::StableSwap) }
impl pallet_currencies::Config for Rt { type RuntimeEvent = RuntimeEvent; type MultiCurrency = Tokens; type NativeCurrency = pallet_currencies::BasicCurrencyAdapter<Rt, Balances, i128, u32>; type GetNativeCurrencyId = Native; type WeightInfo = (); }
impl pallet_asset_registry::Config for Rt { type RuntimeEvent = RuntimeEvent; type RegistryOrigin = EnsureRoot<Acc>; type UpdateOrigin = Tech; type AssetId = u32; type AssetNativeLocation = u64; type Currency = pallet_currencies::fungibles::FungibleCurrencies<Rt>; type SequentialIdStartAt = Start; type StringLimit = Len; type MinStringLimit = MinLen; type RegExternalWeightMultiplier = Ext; type WeightInfo = (); }
impl pallet_bonds::Config for Rt { type RuntimeEvent = RuntimeEvent; type Balance = u128; type Currency = Currencies; type AssetRegistry = Registry; type ExistentialDeposits = Registry; type TimestampProvider = Clock; type PalletId = Pid; type IssueOrigin = EnsureSigned<Acc>; type AssetTypeWhitelist = Kinds; type ProtocolFee = FeeShare; type FeeReceiver = Treasury; type WeightInfo = (); }
const R: &str = "C35";
const B: &str = "C34";
const N: u8 = 5;
type Str = Option<Vec<u8>>;
#[derive(Clone, Debug, PartialEq, Eq)]
struct Asset { name: Str, kind: u8, ed: u128, symbol: Str, decimals: Option<u8>, xcm: Option<u128>, enough: bool }
#[derive(Clone, Debug, Default)]
struct Model { assets: BTreeMap<u32, Asset>, names: BTreeMap<Vec<u8>, u32>, places: BTreeMap<u32, u64>, banned: BTreeSet<u32>, next: u32, bonds: BTreeMap<u32, (u32, u64)>, owed: BTreeMap<u32, u128> }
fn book() -> Book { Book::all::<Rt>() }
fn raw() -> Vec<u8> { sp_io::storage::root(sp_runtime::StateVersion::V1) }
fn bal(a: u32, who: &Acc) -> u128 { <Currencies as MultiCurrency<Acc>>::free_balance(a, who) }
fn bv(s: &Str) -> Option<BoundedVec<u8, Len>> { s.clone().map(|v| v.try_into().unwrap()) }
fn ty(k: u8) -> AssetType { [AssetType::Token, AssetType::XYK, AssetType::StableSwap, AssetType::Bond, AssetType::External][k as usize] }
fn kd(k: u8) -> AssetKind { [AssetKind::Token, AssetKind::XYK, AssetKind::StableSwap, AssetKind::Bond, AssetKind::External][k as usize] }
fn good_symbol(s: &Str) -> bool { s.as_ref().map_or(true, |s| s.len() as u32 >= Least::get() && s.iter().all(|b| !(*b as char).is_whitespace())) }
fn good_name(s: &Str) -> bool { s.as_ref().map_or(true, |s| s.len() as u32 >= Least::get()) }
fn text(s: &Str) -> String { s.as_ref().map_or("none".into(), |s| String::from_utf8_lossy(s).into_owned()) }
impl Model {
	fn at(&self, place: u64) -> Option<u32> { self.places.iter().find(|x| *x.1 == place).map(|x| *x.0) }
	fn put(&mut self, id: u32, a: Asset, place: Option<u64>) { if let Some(n) = &a.name { self.names.insert(n.clone(), id); } Eds::with(|e| e.insert(id, a.ed)); self.assets.insert(id, a); if let Some(p) = place { self.places.insert(id, p); } }
	fn fits(&self, id: Option<u32>, a: &Asset, place: Option<u64>) -> bool { good_symbol(&a.symbol) && good_name(&a.name) && id.map_or(true, |i| i < Start::get() && !self.assets.contains_key(&i)) && a.name.as_ref().map_or(true, |n| !self.names.contains_key(n)) && place.map_or(true, |p| self.at(p).is_none()) }
	fn take_id(&mut self, id: Option<u32>) -> u32 { id.unwrap_or_else(|| { self.next += 1; Start::get() + self.next - 1 }) }
}
fn state(c: &Ctx, m: &Model) {
	let got: BTreeMap<u32, Asset> = pallet_asset_registry::Assets::<Rt>::iter().map(|(k, d)| (k, Asset { name: d.name.map(|x| x.into_inner()), kind: d.asset_type.encode()[0], ed: d.existential_deposit, symbol: d.symbol.map(|x| x.into_inner()), decimals: d.decimals, xcm: d.xcm_rate_limit, enough: d.is_sufficient })).collect();
	c.check_in(R, "assets-as-registered", got == m.assets, || format!("stored {got:?}, expected {:?}", m.assets));
	let names: BTreeMap<Vec<u8>, u32> = pallet_asset_registry::AssetIds::<Rt>::iter().map(|(k, v)| (k.into_inner(), v)).collect(); c.check_in(R, "every-name-is-one-asset", names == m.names && m.assets.iter().all(|(id, a)| a.name.as_ref().map_or(true, |n| names.get(n) == Some(id))), || format!("stored {names:?}, expected {:?}", m.names));
	let places: BTreeMap<u32, u64> = pallet_asset_registry::AssetLocations::<Rt>::iter().collect(); let back: BTreeMap<u64, u32> = pallet_asset_registry::LocationAssets::<Rt>::iter().collect();
	c.check_in(R, "locations-and-assets-are-a-bijection", places == m.places && back == m.places.iter().map(|(k, v)| (*v, *k)).collect(), || format!("stored {places:?} and {back:?}, expected {:?}", m.places));
	let banned: BTreeSet<u32> = pallet_asset_registry::BannedAssets::<Rt>::iter().map(|x| x.0).collect(); c.check_in(R, "bans-as-decided", banned == m.banned, || format!("stored {banned:?}, expected {:?}", m.banned));
	c.check_in(R, "next-id-is-fresh", Registry::next_asset_id() == Some(Start::get() + m.next) && !m.assets.contains_key(&(Start::get() + m.next)), || format!("{:?}, expected {}", Registry::next_asset_id(), Start::get() + m.next));
	// what other pallets are told
	let ids: Vec<u32> = m.assets.keys().copied().chain([77]).collect(); let id = ids[(System::block_number() as usize) % ids.len()]; let a = m.assets.get(&id);
	let told = (<Registry as Inspect>::exists(id), <Registry as Inspect>::is_sufficient(id), <Registry as Inspect>::decimals(id), <Registry as Inspect>::asset_type(id), <Registry as Inspect>::is_banned(id), <Registry as Inspect>::asset_name(id), <Registry as Inspect>::asset_symbol(id), <Registry as Inspect>::existential_deposit(id));
	let want = (a.is_some(), a.map_or(false, |a| a.enough), a.and_then(|a| a.decimals), a.map(|a| kd(a.kind)), m.banned.contains(&id), a.and_then(|a| a.name.clone()), a.and_then(|a| a.symbol.clone()), a.map(|a| a.ed)); c.check_in(R, "answers-from-the-records", told == want, || format!("{id}: {told:?}, expected {want:?}"));
	c.check_in(R, "unknown-assets-cannot-be-held", <Registry as GetByKey<u32, u128>>::get(&id) == a.map_or(u128::MAX, |a| a.ed) && XcmRateLimitsInRegistry::<Rt>::get(&id) == a.and_then(|a| a.xcm), || format!("{id}")); let p = m.places.get(&id).copied();
	c.check_in(R, "locations-answer", Registry::asset_to_location(id) == p && p.map_or(true, |p| Registry::location_to_asset(p) == Some(id)), || format!("{id}")); let other = ids[(System::block_number() as usize / 7) % ids.len()]; let suff = |i: &u32| m.assets.get(i).map_or(false, |a| a.enough);
	c.check_in(R, "oracle-takes-sufficient-assets", <OracleWhitelist<Rt> as Contains<(Source, u32, u32)>>::contains(&(*b"omnipool", id, other)) == (suff(&id) && suff(&other)), || format!("{id} {other}"));
	for (b, (a, t)) in &m.bonds { c.check_in(B, "a-bond-is-its-asset-and-maturity", Bonds::bond(b) == Some((*a, *t)) && Bonds::bond_id((*a, *t)) == Some(*b) && m.assets[b].kind == 3, || format!("{b}: {:?}", Bonds::bond(b))); }
	for (a, n) in &m.owed { let held = bal(*a, &Bonds::pallet_account_id()); let out: u128 = m.bonds.iter().filter(|x| x.1 .0 == *a).map(|x| <Currencies as MultiCurrency<Acc>>::total_issuance(*x.0)).sum(); c.check_in(B, "bonds-are-fully-backed", out == *n && held >= out, || format!("{out} bonds of {a} outstanding, {n} expected, {held} held")); }
	let b = book().balanced(); c.check_in("C34 C35", "issuance-is-sum-of-balances", b.is_ok(), || b.unwrap_err());
}
/// runs a call; on failure nothing may have changed
fn act(c: &mut Ctx, p: &str, k: RuntimeCall, o: RuntimeOrigin, who: &str) -> Result<(), DispatchError> {
	let _ = take_events::<Rt>(); let root = raw(); let s = format!("{who} {k:?}"); let r = call(k, o); c.log(|| format!("{s}: {r:?}")); if r.is_err() { c.event("refused"); c.check_in(p, "refusal-leaves-no-trace", raw() == root, || s.clone()); } r
}
fn word(c: &mut Ctx, m: &Model) -> Str { if c.rng.chance(1, 4) { return None; } if c.rng.chance(1, 4) { let n: Vec<_> = m.names.keys().cloned().collect(); return Some(c.rng.pick(&n).clone()); } let l = if c.rng.chance(1, 8) { c.rng.idx(17) } else { c.rng.range(3, 12) as usize }; let odd = c.rng.chance(1, 8); Some((0..l).map(|_| if odd && c.rng.chance(1, 4) { *c.rng.pick(&[b' ', 0, 0x85, 0xA0, b'\n', 255]) } else { *c.rng.pick(b"ABCDaxyz09") }).collect()) }
fn place(c: &mut Ctx) -> Option<u64> { if c.rng.chance(1, 2) { Some(c.rng.below(16) as u64) } else { None } }
fn known(c: &mut Ctx, m: &Model) -> u32 { let v: Vec<u32> = m.assets.keys().copied().collect(); if c.rng.chance(1, 16) { c.rng.below(1100) as u32 } else { *c.rng.pick(&v) } }
fn draw(c: &mut Ctx, m: &Model) -> (Option<u128>, Asset) { let e = match c.rng.idx(3) { 0 => None, 1 => Some(1), _ => Some(c.rng.log(1, 100)) }; (e, Asset { name: word(c, m), kind: c.rng.idx(5) as u8, ed: e.unwrap_or(1), symbol: word(c, m), decimals: if c.rng.chance(1, 2) { Some(c.rng.idx(20) as u8) } else { None }, xcm: if c.rng.chance(1, 3) { Some(c.rng.log(1, 1 << 90)) } else { None }, enough: c.rng.chance(1, 2) }) }
fn reported(a: &Asset, id: u32) -> RegEvent<Rt> { RegEvent::Registered { asset_id: id, asset_name: bv(&a.name), asset_type: ty(a.kind), existential_deposit: a.ed, xcm_rate_limit: a.xcm, symbol: bv(&a.symbol), decimals: a.decimals, is_sufficient: a.enough } }
fn reg_events() -> Vec<RegEvent<Rt>> { take_events::<Rt>().into_iter().filter_map(|e| if let RuntimeEvent::Registry(e) = e { Some(e) } else { None }).collect() }
fn bond_events() -> Vec<BondEvent<Rt>> { take_events::<Rt>().into_iter().filter_map(|e| if let RuntimeEvent::Bonds(e) = e { Some(e) } else { None }).collect() }
fn origin(c: &mut Ctx) -> (u8, RuntimeOrigin, &'static str) { match c.rng.idx(10) { 0 => (0, RuntimeOrigin::signed(acc(1)), "#1"), 1..=4 => (1, RuntimeOrigin::signed(acc(7)), "committee"), _ => (2, RuntimeOrigin::root(), "root") } }
fn register(c: &mut Ctx, m: &mut Model) {
	let (e, a) = draw(c, m); let id = if c.rng.chance(1, 3) { Some(match c.rng.idx(4) { 0 => known(c, m), 1 => Start::get() + c.rng.idx(3) as u32, _ => c.rng.below(Start::get() as u128) as u32 }) } else { None }; let p = place(c); let (rank, o, w) = origin(c); let ok = rank == 2 && m.fits(id, &a, p);
	let r = act(c, R, RuntimeCall::Registry(Reg_::register { asset_id: id, name: bv(&a.name), asset_type: ty(a.kind), existential_deposit: e, symbol: bv(&a.symbol), decimals: a.decimals, location: p, xcm_rate_limit: a.xcm, is_sufficient: a.enough }), o, w);
	c.check_in(R, "registers-new-well-formed-assets", r.is_ok() == ok, || format!("{id:?} {a:?} at {p:?} by {w}: {r:?}")); if r.is_err() || !ok { return; } let id = m.take_id(id); let ev = reg_events(); let mut want = vec![]; if let Some(p) = p { want.push(RegEvent::LocationSet { asset_id: id, location: p }); } want.push(reported(&a, id));
	c.check_in(R, "registration-is-reported", ev == want, || format!("{ev:?}, expected {want:?}")); c.event("registered"); c.nontrivial((id, a.kind, a.ed, p)); m.put(id, a, p);
}
/// the interface other pallets use
fn create(c: &mut Ctx, m: &mut Model) {
	let (e, mut a) = draw(c, m); let p = place(c); let get = c.rng.chance(1, 2); if get { if a.name.is_none() { a.name = Some(b"share".to_vec()); } } let old = if get { m.names.get(a.name.as_ref().unwrap()).copied() } else { None }; let ok = old.is_some() || m.fits(None, &a, p); let _ = take_events::<Rt>(); let root = raw();
	let r = with_transaction(|| { let r = if get { <Registry as Create<u128>>::get_or_register_asset(bv(&a.name).unwrap(), kd(a.kind), e, bv(&a.symbol), a.decimals, p, a.xcm, a.enough) } else if a.enough { <Registry as Create<u128>>::register_sufficient_asset(None, bv(&a.name), kd(a.kind), e.unwrap_or(1), bv(&a.symbol), a.decimals, p, a.xcm) } else { <Registry as Create<u128>>::register_insufficient_asset(None, bv(&a.name), kd(a.kind), e, bv(&a.symbol), a.decimals, p, a.xcm) }; if r.is_ok() { TransactionOutcome::Commit(Ok::<_, DispatchError>(r)) } else { TransactionOutcome::Rollback(Ok(r)) } }).unwrap();
	c.log(|| format!("create {a:?} at {p:?} (or get: {get}): {r:?}")); c.check_in(R, "registers-new-well-formed-assets", r.is_ok() == ok, || format!("{a:?} at {p:?}: {r:?}")); if !ok || r.is_err() { c.check_in(R, "refusal-leaves-no-trace", raw() == root, || "create".into()); return; }
	if let Some(i) = old { c.event("found"); c.check_in(R, "a-known-name-is-its-asset", r == Ok(i) && raw() == root, || format!("{r:?}, expected {i}")); return; }
	let id = m.take_id(None); c.check_in(R, "new-assets-get-the-next-id", r == Ok(id), || format!("{r:?}, expected {id}")); let ev = reg_events(); c.check_in(R, "registration-is-reported", ev.last() == Some(&reported(&a, id)), || format!("{ev:?}")); m.put(id, a, p); c.event("created");
}
fn external(c: &mut Ctx, m: &mut Model) {
	let p = c.rng.below(16) as u64; let a = Asset { name: None, kind: 4, ed: 1, symbol: None, decimals: None, xcm: None, enough: false }; let ok = m.at(p).is_none(); let r = act(c, R, RuntimeCall::Registry(Reg_::register_external { location: p }), RuntimeOrigin::signed(acc(2)), "#2");
	c.check_in(R, "anybody-registers-an-unknown-location", r.is_ok() == ok, || format!("{p}: {r:?}")); if r.is_err() { return; } let id = m.take_id(None); m.put(id, a, Some(p)); c.event("external");
}
fn update(c: &mut Ctx, m: &mut Model) {
	let id = known(c, m); let old = m.assets.get(&id).cloned(); let (_, n) = draw(c, m); let some = |c: &mut Ctx| c.rng.chance(1, 3); let (kind, e, xcm, enough, place_) = (if some(c) { Some(n.kind) } else { None }, if some(c) { Some(n.ed) } else { None }, if some(c) { n.xcm } else { None }, if some(c) { Some(n.enough) } else { None }, if some(c) { place(c) } else { None });
	// a bond keeps its kind, or the model of bonds would not hold
	let kind = if m.bonds.contains_key(&id) { None } else { kind }; let e = if m.bonds.contains_key(&id) || m.owed.contains_key(&id) || id == 0 { None } else { e }; let (name, symbol, decimals) = (if some(c) { n.name.clone() } else { None }, if some(c) { n.symbol.clone() } else { None }, if some(c) { n.decimals } else { None }); let (rank, o, w) = origin(c);
	let ok = rank > 0 && good_name(&name) && good_symbol(&symbol) && old.as_ref().map_or(false, |d| name.as_ref().map_or(true, |n| !m.names.contains_key(n)) && !(d.enough && enough == Some(false)) && (decimals.is_none() || d.decimals.is_none() || rank == 2) && place_.map_or(true, |p| rank == 2 && m.at(p).map_or(true, |x| x == id)));
	let r = act(c, R, RuntimeCall::Registry(Reg_::update { asset_id: id, name: bv(&name), asset_type: kind.map(ty), existential_deposit: e, xcm_rate_limit: xcm, is_sufficient: enough, symbol: bv(&symbol), decimals, location: place_ }), o, w);
	c.check_in(R, "updates-within-the-rules", r.is_ok() == ok, || format!("{id} {old:?} name {} symbol {} by {w}: {r:?}", text(&name), text(&symbol))); if r.is_err() || !ok { return; }
	let mut a = old.unwrap(); if let Some(x) = name { if let Some(o) = &a.name { m.names.remove(o); } m.names.insert(x.clone(), id); a.name = Some(x); c.event("renamed"); } if let Some(k) = kind { a.kind = k; } if let Some(x) = e { a.ed = x; Eds::with(|m| m.insert(id, x)); } if xcm.is_some() { a.xcm = xcm; } if let Some(x) = enough { a.enough = x; } if symbol.is_some() { a.symbol = symbol; } if decimals.is_some() { a.decimals = decimals; } if let Some(p) = place_ { if m.places.insert(id, p).is_some() { c.event("moved"); } }
	let ev = reg_events(); let want = RegEvent::Updated { asset_id: id, asset_name: bv(&a.name), asset_type: ty(a.kind), existential_deposit: a.ed, xcm_rate_limit: a.xcm, symbol: bv(&a.symbol), decimals: a.decimals, is_sufficient: a.enough }; c.check_in(R, "update-is-reported", ev.last() == Some(&want), || format!("{ev:?}, expected {want:?}")); m.assets.insert(id, a); c.event("updated");
}
fn relocate(c: &mut Ctx, m: &mut Model) {
	let (id, p) = (known(c, m), c.rng.below(16) as u64); let ok = m.assets.contains_key(&id) && m.at(p).is_none(); let _ = take_events::<Rt>(); let root = raw(); let r = with_transaction(|| { let r = <Registry as Mutate<u128>>::set_location(id, p); if r.is_ok() { TransactionOutcome::Commit(Ok::<_, DispatchError>(r)) } else { TransactionOutcome::Rollback(Ok(r)) } }).unwrap();
	c.log(|| format!("set location of {id} to {p}: {r:?}")); c.check_in(R, "sets-a-free-location", r.is_ok() == ok && (ok || raw() == root), || format!("{id} {p}: {r:?}")); if r.is_ok() { if m.places.insert(id, p).is_some() { c.event("moved-by-pallet"); } }
}
fn ban(c: &mut Ctx, m: &mut Model) {
	let id = known(c, m); let un = if m.banned.contains(&id) { c.rng.chance(3, 4) } else { c.rng.chance(1, 4) }; let (rank, o, w) = origin(c); let ok = rank == 1 && if un { m.banned.contains(&id) } else { m.assets.contains_key(&id) && !m.banned.contains(&id) }; let k = if un { Reg_::unban_asset { asset_id: id } } else { Reg_::ban_asset { asset_id: id } };
	let r = act(c, R, RuntimeCall::Registry(k), o, w); c.check_in(R, "the-committee-bans-and-unbans", r.is_ok() == ok, || format!("{id} ban {} by {w}: {r:?}", !un)); if r.is_ok() { if un { m.banned.remove(&id); } else { m.banned.insert(id); } let ev = reg_events(); c.check_in(R, "ban-is-reported", ev == [if un { RegEvent::AssetUnbanned { asset_id: id } } else { RegEvent::AssetBanned { asset_id: id } }], || format!("{ev:?}")); c.event(if un { "unbanned" } else { "banned" }); }
}
fn issue(c: &mut Ctx, m: &mut Model, i: u8) {
	let who = acc(i); let a = if !m.bonds.is_empty() && c.rng.chance(1, 3) { let v: Vec<u32> = m.bonds.values().map(|x| x.0).collect(); *c.rng.pick(&v) } else { let held: Vec<u32> = m.assets.keys().copied().filter(|a| bal(*a, &who) > 0).collect(); if held.is_empty() || c.rng.chance(1, 10) { known(c, m) } else { *c.rng.pick(&held) } }; let have = bal(a, &who);
	let t = match c.rng.idx(5) { 0 => Now::get() - 1, 1 => Now::get(), _ => 1000 + 100 * c.rng.below(40) as u64 }; let amt = match c.rng.idx(10) { 0 => have, 1 => have.saturating_add(1), 2 => c.rng.below(50), _ => c.rng.log(1, (have / 3).max(2)) };
	let fee = { let n = w(FeeShare::get().deconstruct() as u128) * w(amt); (n / w(1_000_000)).low_u128() + (n % w(1_000_000) != w(0)) as u128 }; let get = amt - fee; let id = m.bonds.iter().find(|x| *x.1 == (a, t)).map(|x| *x.0); let known_ = m.assets.get(&a).cloned(); let ok = known_.as_ref().map_or(false, |d| bondable(kd(d.kind))) && (id.is_some() || t >= Now::get()) && have >= amt;
	// a name taken by somebody else
	let name: Vec<u8> = [&a.to_le_bytes()[..], b".", &t.to_le_bytes()[..]].concat(); let pot = Bonds::pallet_account_id(); let e = ed(a); let tight = (get > 0 && bal(a, &pot) + get < e) || (fee > 0 && bal(a, &acc(200)) + fee < e) || (get > 0 && id.map_or(0, |b| bal(b, &who)) + get < id.map_or(e, ed)) || (have > amt && have - amt < e) || (amt == have && a == 0);
	let before = book(); let r = act(c, B, RuntimeCall::Bonds(Bond_::issue { asset_id: a, amount: amt, maturity: t }), RuntimeOrigin::signed(who.clone()), &nm(&who)); if !tight || !ok { c.check_in(B, "bonds-of-proper-assets-for-the-future", r.is_ok() == ok, || format!("#{i} issues {amt} of {a} until {t} (now {}) with {have}: {r:?}", Now::get())); } if r.is_err() { return; }
	let evs = take_events::<Rt>(); let bev: Vec<_> = evs.iter().filter_map(|e| if let RuntimeEvent::Bonds(e) = e { Some(e.clone()) } else { None }).collect(); let b = id.unwrap_or_else(|| { let b = m.take_id(None); m.put(b, Asset { name: Some(name.clone()), kind: 3, ed: known_.unwrap().ed, symbol: None, decimals: None, xcm: None, enough: false }, None); m.bonds.insert(b, (a, t)); b });
	let mut want = vec![]; if id.is_none() { want.push(BondEvent::TokenCreated { issuer: who.clone(), asset_id: a, bond_id: b, maturity: t }); c.event("bond-created"); } want.push(BondEvent::Issued { issuer: who.clone(), bond_id: b, amount: get, fee }); c.check_in(B, "issue-is-reported", bev == want, || format!("{bev:?}, expected {want:?}"));
	c.check_in(B, "issue-trades-the-asset-for-bonds", before.moved(&book()) == Moves::new().mv(&who, &pot, a, get).mv(&who, &acc(200), a, fee).add(&who, b, get), || format!("{:?}, expected {get} and {fee} in fees", before.moved(&book()))); *m.owed.entry(a).or_default() += get; c.event("issued"); if id.is_some() { c.event("issued-again"); } c.nontrivial((a, amt, fee));
	c.check_in(B, "bonds-name-their-asset", Bonds::bond_name(a, t) == name && Bonds::parse_bond_name(name.clone()).ok() == Some(a), || format!("{name:?}"));
}
fn redeem(c: &mut Ctx, m: &mut Model, i: u8) {
	let who = acc(i); let ids: Vec<u32> = m.bonds.keys().copied().filter(|b| bal(*b, &who) > 0 || c.rng.chance(1, 12)).collect(); let b = if ids.is_empty() || c.rng.chance(1, 20) { known(c, m) } else { *c.rng.pick(&ids) }; let have = bal(b, &who); let amt = match c.rng.idx(8) { 0 => have + 1, 1 => 0, 2..=4 => have, _ => c.rng.log(1, have.max(1)) };
	let rec = m.bonds.get(&b).copied(); let a = rec.map_or(0, |x| x.0); let ok = rec.map_or(false, |x| Now::get() >= x.1) && amt <= have; let tight = rec.is_some() && ((amt > 0 && bal(a, &who) + amt < ed(a)) || (a == 0)); let before = book(); let r = act(c, B, RuntimeCall::Bonds(Bond_::redeem { bond_id: b, amount: amt }), RuntimeOrigin::signed(who.clone()), &nm(&who));
	if !tight || !ok { c.check_in(B, "mature-bonds-are-redeemed", r.is_ok() == ok, || format!("#{i} redeems {amt} of {b} {rec:?} at {} with {have}: {r:?}", Now::get())); } if r.is_err() { if rec.map_or(false, |x| Now::get() < x.1) { c.event("not-mature"); } return; } let ev = bond_events();
	c.check_in(B, "redeem-is-reported", ev == [BondEvent::Redeemed { who: who.clone(), bond_id: b, amount: amt }], || format!("{ev:?}")); c.check_in(B, "redeemed-one-to-one", before.moved(&book()) == Moves::new().mv(&Bonds::pallet_account_id(), &who, a, amt).sub(&who, b, amt), || format!("{:?}, expected {amt}", before.moved(&book()))); *m.owed.get_mut(&a).unwrap() -= amt; c.event("redeemed"); if amt > 0 { c.event("paid"); }
}
fn history(c: &mut Ctx) {
	fresh(|| {
		Eds::set([(0u32, 1)].into()); Now::set(1000); Start::set(*c.rng.pick(&[1000u32, 20])); Least::set(c.rng.range(1, 4) as u32); FeeShare::set(*c.rng.pick(&[Permill::from_percent(2), Permill::zero(), Permill::from_percent(10), Permill::from_parts(1), Permill::from_parts(123_457)]));
		pallet_asset_registry::GenesisConfig::<Rt> { native_existential_deposit: ed(0), ..Default::default() }.build(); System::set_block_number(1); let mut m = Model { next: 1, ..Default::default() }; m.put(0, Asset { name: Some(b"HDX".to_vec()), kind: 0, ed: ed(0), symbol: Some(b"HDX".to_vec()), decimals: Some(12), xcm: None, enough: true }, None);
		for _ in 0..3 { register(c, &mut m); } state(c, &m);
		for i in 1..=N { give_native::<Rt>(&acc(i), ed(0) + c.rng.log(1 << 20, 1 << 70)); }
		for _ in 0..70 {
			if c.failed() { return; } let i = 1 + c.rng.idx(N as usize) as u8; System::set_block_number(System::block_number() + 1);
			match c.rng.idx(24) { 0..=2 => register(c, &mut m), 3 => create(c, &mut m), 4 => external(c, &mut m), 5..=7 => update(c, &mut m), 8 => relocate(c, &mut m), 9..=10 => ban(c, &mut m), 11..=15 => issue(c, &mut m, i), 16..=20 => redeem(c, &mut m, i),
				21 => { let v: Vec<u32> = m.assets.keys().copied().filter(|a| *a != 0 && !m.bonds.contains_key(a)).collect(); if !v.is_empty() { let a = *c.rng.pick(&v); give::<Rt>(&acc(i), a, ed(a) + c.rng.log(1, 1 << 70)); } }
				22 => { let ids: Vec<u32> = m.bonds.keys().copied().filter(|b| bal(*b, &acc(i)) > ed(*b) * 2).collect(); if !ids.is_empty() { let b = *c.rng.pick(&ids); let n = bal(b, &acc(i)) / 2; let r = Currencies::transfer(RuntimeOrigin::signed(acc(i)), acc(1 + i % N), b, n); c.log(|| format!("#{i} sends {n} of {b}: {r:?}")); if r.is_ok() { c.event("bond-sent"); } } }
				_ => { Now::set(Now::get() + c.rng.log(1, 1000) as u64); } }
			state(c, &m);
		}
		c.distinct("shape", (m.assets.len(), m.bonds.len(), m.places.len())); c.sample(|| json!({"assets": m.assets.len(), "bonds": m.bonds.len(), "locations": m.places.len()}));
	});
}
fn run(m: &mut Monitor) {
	m.workload("assets", 6_000, 250_000, history);
	for (e, n) in [("registered", 10_000), ("created", 2000), ("found", 500), ("external", 2000), ("updated", 5000), ("renamed", 1000), ("moved", 200), ("moved-by-pallet", 200), ("banned", 2000), ("unbanned", 500), ("bond-created", 3000), ("issued", 6000), ("issued-again", 500), ("redeemed", 3000), ("paid", 2000), ("not-mature", 1000), ("bond-sent", 500), ("refused", 5000)] { m.expect(&format!("assets/{e}"), n); }
}
fn main() { mon_core::run!(1.0, "distinct registrations and issues: asset, kind, amounts, fees, locations", ["the asset registry and bonds pallets are compiled from the source tree on a stand-in for FRAME", "the native currency has an existential deposit of one unit, so no native dust is lost"]; "C34" => run, "C35" => run); }
