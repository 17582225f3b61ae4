//! Non-fungible collections and items: who owns what after any history of extrinsics and of calls from other pallets,
//! against a model of plain maps.
use mon_frame::*;
use frame_support::traits::tokens::nonfungibles::{Destroy, Inspect, InspectEnumerable, Mutate, Transfer};
use hydradx_traits::nft::{CreateTypedCollection, ReserveCollectionId};
use pallet_nft::{CollectionType, Collections, Items, NftPermission, NftPermissions};

construct_runtime!(pub enum Rt { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Uniques: pallet_uniques, Nft: pallet_nft });
base!(Rt);
const COLLECTION_DEPOSIT: u128 = 100_000; const ITEM_DEPOSIT: u128 = 777; const RESERVED: u128 = 1_000;
impl pallet_uniques::Config for Rt {
	type RuntimeEvent = RuntimeEvent; type CollectionId = u128; type ItemId = u128; type Currency = Balances; type ForceOrigin = EnsureRoot<Acc>;
	type CreateOrigin = frame_support::traits::AsEnsureOriginWithArg<frame_support::traits::NeverEnsureOrigin<Acc>>; type Locker = (); type CollectionDeposit = frame_support::traits::ConstU128<COLLECTION_DEPOSIT>; type ItemDeposit = frame_support::traits::ConstU128<ITEM_DEPOSIT>; type MetadataDepositBase = frame_support::traits::ConstU128<0>;
	type AttributeDepositBase = frame_support::traits::ConstU128<0>; type DepositPerByte = frame_support::traits::ConstU128<0>; type StringLimit = frame_support::traits::ConstU32<60>; type KeyLimit = frame_support::traits::ConstU32<32>; type ValueLimit = frame_support::traits::ConstU32<64>; type WeightInfo = ();
}
/// None: the shipped permissions. Otherwise a bit per action and type.
param! { Bits: Option<[u8; 2]> = None; }
pub struct Perms;
fn bit(t: &CollectionType, n: u8, shipped: impl Fn(&CollectionType) -> bool) -> bool { match Bits::get() { None => shipped(t), Some(b) => b[*t as usize] >> n & 1 == 1 } }
impl NftPermission<CollectionType> for Perms {
	fn can_create(t: &CollectionType) -> bool { bit(t, 0, NftPermissions::can_create) } fn can_mint(t: &CollectionType) -> bool { bit(t, 1, NftPermissions::can_mint) } fn can_transfer(t: &CollectionType) -> bool { bit(t, 2, NftPermissions::can_transfer) }
	fn can_burn(t: &CollectionType) -> bool { bit(t, 3, NftPermissions::can_burn) } fn can_destroy(t: &CollectionType) -> bool { bit(t, 4, NftPermissions::can_destroy) } fn has_deposit(t: &CollectionType) -> bool { bit(t, 5, NftPermissions::has_deposit) }
}
/// what the documentation of the collection types says: a marketplace collection is its owner's to use and pays a deposit,
/// a liquidity mining collection is the runtime's and its items may only be passed on
fn may(t: CollectionType, n: u8) -> bool { match Bits::get() { None => t == CollectionType::Marketplace || n == 2, Some(b) => b[t as usize] >> n & 1 == 1 } }
impl pallet_nft::Config for Rt { type RuntimeEvent = RuntimeEvent; type WeightInfo = (); type NftCollectionId = u128; type NftItemId = u128; type CollectionType = CollectionType; type Permissions = Perms; type ReserveCollectionIdUpTo = frame_support::traits::ConstU128<RESERVED>; }

type Meta = Vec<u8>;
#[derive(Clone, Default, PartialEq, Debug)]
struct Model { cols: BTreeMap<u128, (Acc, u8, Meta, bool)>, items: BTreeMap<(u128, u128), (Acc, Meta)> }
impl Model {
	fn count(&self, k: u128) -> usize { self.items.keys().filter(|x| x.0 == k).count() }
	fn deposits(&self, a: &Acc) -> u128 { self.cols.iter().filter(|(_, c)| &c.0 == a && c.3).map(|(k, _)| COLLECTION_DEPOSIT + ITEM_DEPOSIT * self.count(*k) as u128).sum() }
}
fn ty(t: u8) -> CollectionType { if t == 0 { CollectionType::Marketplace } else { CollectionType::LiquidityMining } }
fn meta(m: &Meta) -> frame_support::BoundedVec<u8, frame_support::traits::ConstU32<60>> { m.clone().try_into().unwrap() }
const WHO: u8 = 5; const RICH: u128 = 10u128.pow(12);
type Ev = pallet_nft::Event<Rt>;

fn compare(c: &mut Ctx, m: &Model, what: &str) {
	let cols: BTreeMap<u128, (u8, Meta)> = Collections::<Rt>::iter().map(|(k, i)| (k, (i.collection_type as u8, i.metadata.to_vec()))).collect();
	c.check("collections-are-those-created", cols == m.cols.iter().map(|(k, v)| (*k, (v.1, v.2.clone()))).collect(), || format!("after {what}: {cols:?}, model {:?}", m.cols));
	let items: BTreeMap<(u128, u128), Meta> = Items::<Rt>::iter().map(|(k, i, x)| ((k, i), x.metadata.to_vec())).collect();
	c.check("items-are-those-minted", items == m.items.iter().map(|(k, v)| (*k, v.1.clone())).collect(), || format!("after {what}: {items:?}, model {:?}", m.items));
	let owned: BTreeMap<(u128, u128), Acc> = pallet_uniques::Asset::<Rt>::iter().map(|(k, i, d)| ((k, i), d.owner)).collect();
	c.check("every-item-has-its-owner", owned == m.items.iter().map(|(k, v)| (*k, v.0.clone())).collect(), || format!("after {what}: {owned:?}, model {:?}", m.items));
	let classes: BTreeMap<u128, Acc> = pallet_uniques::Class::<Rt>::iter().map(|(k, d)| (k, d.owner)).collect();
	c.check("every-collection-has-its-owner", classes == m.cols.iter().map(|(k, v)| (*k, v.0.clone())).collect(), || format!("after {what}: {classes:?}, model {:?}", m.cols));
	for a in 0..WHO { let a = acc(a); let (f, r) = (Balances::free_balance(&a), <Balances as Res>::held(&a));
		c.check("deposits-are-held-and-given-back", r == m.deposits(&a) && (f + r == RICH || f + r == 0 || f + r == 150_000), || format!("after {what}: {} has {f} free, {r} reserved, model {}", nm(&a), m.deposits(&a))); }
}
use frame_support::{traits::ReservableCurrency, storage::{with_transaction, TransactionOutcome}};
trait Res { fn held(a: &Acc) -> u128; } impl Res for Balances { fn held(a: &Acc) -> u128 { <Balances as ReservableCurrency<Acc>>::reserved_balance(a) } }

/// what other pallets and readers see agrees with the model
fn readers(c: &mut Ctx, m: &Model, ids: &[u128]) {
	let mut all: Vec<u128> = <Nft as InspectEnumerable<Acc>>::collections().collect(); all.sort();
	c.check("list-of-collections", all == m.cols.keys().copied().collect::<Vec<_>>(), || format!("{all:?}"));
	for k in ids {
		c.check("collection-owner-read", <Nft as Inspect<Acc>>::collection_owner(k) == m.cols.get(k).map(|x| x.0.clone()), || format!("collection {k}"));
		let mut its: Vec<u128> = <Nft as InspectEnumerable<Acc>>::items(k).collect(); its.sort();
		c.check("list-of-items", its == m.items.keys().filter(|x| x.0 == *k).map(|x| x.1).collect::<Vec<_>>(), || format!("collection {k}: {its:?}"));
		let w = <Nft as Destroy<Acc>>::get_destroy_witness(k).map(|w| w.items as usize);
		c.check("destroy-witness", w == m.cols.get(k).map(|_| m.count(*k)), || format!("collection {k}: {w:?}"));
		for i in 0..4u128 {
			c.check("item-owner-read", <Nft as Inspect<Acc>>::owner(k, &i) == m.items.get(&(*k, i)).map(|x| x.0.clone()), || format!("item {k}/{i}"));
			let ct = <Nft as Inspect<Acc>>::can_transfer(k, &i);
			c.check("can-transfer-read", ct == m.cols.get(k).map_or(false, |x| may(ty(x.1), 2)), || format!("item {k}/{i}: {ct}"));
		}
		c.check("reserved-id-read", <Nft as ReserveCollectionId<u128>>::is_id_reserved(*k) == (*k <= RESERVED), || format!("{k}"));
	}
	for a in 0..WHO { let a = acc(a);
		let mut o: Vec<(u128, u128)> = <Nft as InspectEnumerable<Acc>>::owned(&a).collect(); o.sort();
		c.check("list-of-the-owners-items", o == m.items.iter().filter(|x| x.1 .0 == a).map(|x| *x.0).collect::<Vec<_>>(), || format!("{}: {o:?}", nm(&a)));
		for k in ids { let mut o: Vec<u128> = <Nft as InspectEnumerable<Acc>>::owned_in_collection(k, &a).collect(); o.sort();
			c.check("list-of-the-owners-items-in-collection", o == m.items.iter().filter(|x| x.1 .0 == a && x.0 .0 == *k).map(|x| x.0 .1).collect::<Vec<_>>(), || format!("{} in {k}: {o:?}", nm(&a))); }
	}
}
fn history(c: &mut Ctx) {
	fresh(|| {
		Bits::set(if c.rng.chance(1, 3) { Some([c.rng.u64() as u8, c.rng.u64() as u8]) } else { None });
		System::set_block_number(1);
		for a in 0..WHO - 2 { give_native::<Rt>(&acc(a), RICH); } give_native::<Rt>(&acc(WHO - 2), 150_000);
		let mut m = Model::default();
		let ids = [0, RESERVED - 1, RESERVED, RESERVED + 1, RESERVED + 2, u128::MAX];
		for _ in 0..60 {
			let r = &mut c.rng; let a = acc(r.idx(WHO as usize) as u8); let b = acc(r.idx(WHO as usize) as u8);
			// bias towards what exists
			let k = if !m.cols.is_empty() && r.chance(3, 4) { *r.pick(&m.cols.keys().copied().collect::<Vec<_>>()) } else { *r.pick(&ids) };
			let i = if r.chance(1, 2) && m.count(k) > 0 { let v: Vec<u128> = m.items.keys().filter(|x| x.0 == k).map(|x| x.1).collect(); *r.pick(&v) } else { r.below(4) };
			let a = match r.idx(4) { 0 => m.cols.get(&k).map_or(a, |x| x.0.clone()), 1 => m.items.get(&(k, i)).map_or(a, |x| x.0.clone()), _ => a };
			let t = r.idx(2) as u8; let md: Meta = (0..*r.pick(&[0usize, 1, 5, 60])).map(|_| r.u64() as u8).collect();
			let bal: BTreeMap<Acc, u128> = (0..WHO).map(|a| (acc(a), Balances::free_balance(acc(a)))).collect(); let rich = |x: &Acc, n: u128| bal[x] > n; let broke = |x: &Acc, n: u128| bal[x] < n;
			let before = m.clone(); let mut n = m.clone();
			let col = m.cols.get(&k).cloned(); let item = m.items.get(&(k, i)).cloned(); let is = |n: u8| col.as_ref().map_or(false, |x| may(ty(x.1), n));
			// expected: Some(true) must succeed, Some(false) must fail, None: either
			let op = r.idx(11); let _ = take_events::<Rt>();
			let inner = |f: &mut dyn FnMut() -> DispatchResult| with_transaction(|| match f() { Ok(()) => TransactionOutcome::Commit(Ok(())), e => TransactionOutcome::Rollback(e) });
			let dep = |x: &(Acc, u8, Meta, bool)| if x.3 { ITEM_DEPOSIT } else { 0 };
			let funds = |who: &Acc, need: u128, ok: bool| if !ok { Some(false) } else if need == 0 || rich(who, need) { Some(true) } else if broke(who, need) { Some(false) } else { None };
			let (name, want, got, ev): (&str, Option<bool>, DispatchResult, Option<Ev>) = match op {
				0 | 1 | 2 => {
					let typed = op == 2; let d = may(ty(t), 5); let ok = col.is_none() && (typed || (k > RESERVED && may(ty(t), 0)));
					let default = typed && r.chance(1, 3); let md = if default { vec![] } else { md };
					n.cols.insert(k, (a.clone(), t, md.clone(), d));
					let got = if typed { inner(&mut || <Nft as CreateTypedCollection<Acc, u128, CollectionType, _>>::create_typed_collection(a.clone(), k, ty(t), if default { None } else { Some(meta(&md)) })) } else { call(RuntimeCall::Nft(pallet_nft::Call::create_collection { collection_id: k, collection_type: ty(t), metadata: meta(&md) }), RuntimeOrigin::signed(a.clone())) };
					(if typed { "create typed" } else { "create" }, funds(&a, if d { COLLECTION_DEPOSIT } else { 0 }, ok), got, Some(Ev::CollectionCreated { owner: a.clone(), collection_id: k, collection_type: ty(t), metadata: meta(&md) }))
				}
				3 | 4 => {
					let ok = is(1) && item.is_none() && col.as_ref().map_or(false, |x| x.0 == a);
					n.items.insert((k, i), (a.clone(), md.clone()));
					("mint", col.as_ref().map_or(Some(false), |x| funds(&x.0, dep(x), ok)), call(RuntimeCall::Nft(pallet_nft::Call::mint { collection_id: k, item_id: i, metadata: meta(&md) }), RuntimeOrigin::signed(a.clone())), Some(Ev::ItemMinted { owner: a.clone(), collection_id: k, item_id: i, metadata: meta(&md) }))
				}
				5 => {
					n.items.insert((k, i), (a.clone(), vec![]));
					("mint into", col.as_ref().map_or(Some(false), |x| funds(&x.0, dep(x), item.is_none())), inner(&mut || <Nft as Mutate<Acc>>::mint_into(&k, &i, &a)), Some(Ev::ItemMinted { owner: a.clone(), collection_id: k, item_id: i, metadata: Default::default() }))
				}
				6 => {
					if let Some(x) = n.items.get_mut(&(k, i)) { x.0 = b.clone(); }
					let same = a == b; let ok = is(2) && (same || item.as_ref().map_or(false, |x| x.0 == a)); if same { n = before.clone(); }
					("transfer", Some(ok), call(RuntimeCall::Nft(pallet_nft::Call::transfer { collection_id: k, item_id: i, dest: b.clone() }), RuntimeOrigin::signed(a.clone())), (!same).then(|| Ev::ItemTransferred { from: a.clone(), to: b.clone(), collection_id: k, item_id: i }))
				}
				7 => {
					let from = item.as_ref().map(|x| x.0.clone()); if let Some(x) = n.items.get_mut(&(k, i)) { x.0 = b.clone(); }
					("transfer within", Some(item.is_some()), inner(&mut || <Nft as Transfer<Acc>>::transfer(&k, &i, &b)), from.filter(|f| *f != b).map(|f| Ev::ItemTransferred { from: f, to: b.clone(), collection_id: k, item_id: i }))
				}
				8 => {
					n.items.remove(&(k, i));
					("burn", Some(is(3) && item.as_ref().map_or(false, |x| x.0 == a)), call(RuntimeCall::Nft(pallet_nft::Call::burn { collection_id: k, item_id: i }), RuntimeOrigin::signed(a.clone())), Some(Ev::ItemBurned { owner: a.clone(), collection_id: k, item_id: i }))
				}
				9 => {
					n.items.remove(&(k, i)); let who = r.chance(1, 2).then(|| a.clone()); let o = item.as_ref().map(|x| x.0.clone());
					("burn within", Some(o.is_some() && (who.is_none() || who == o)), inner(&mut || <Nft as Mutate<Acc>>::burn(&k, &i, who.as_ref())), o.map(|o| Ev::ItemBurned { owner: o, collection_id: k, item_id: i }))
				}
				_ => {
					n.cols.remove(&k); let empty = m.count(k) == 0; let o = col.as_ref().map(|x| x.0.clone()); let ev = o.clone().map(|o| Ev::CollectionDestroyed { owner: o, collection_id: k });
					match r.idx(3) {
						0 => { let who = r.chance(1, 2).then(|| a.clone()); ("destroy within", Some(empty && o.is_some() && (who.is_none() || who == o)), inner(&mut || <Nft as Destroy<Acc>>::destroy(k, pallet_uniques::DestroyWitness { items: 3, item_metadatas: 1, attributes: 0 }, who.clone()).map(|_| ())), ev) }
						_ => ("destroy", Some(empty && o.as_ref() == Some(&a) && is(4)), call(RuntimeCall::Nft(pallet_nft::Call::destroy_collection { collection_id: k }), RuntimeOrigin::signed(a.clone())), ev),
					}
				}
			};
			c.log(|| format!("{name} {k}/{i} by {} to {} type {t}, {:?}: {got:?}", nm(&a), nm(&b), Bits::get()));
			c.event(&format!("{name} {}", if got.is_ok() { "done" } else { "refused" })); c.nontrivial((op, k, i, a.clone(), b.clone(), m.cols.len(), m.items.len()));
			if let Some(w) = want { c.check("allowed-exactly-when-it-should", got.is_ok() == w, || format!("{name} {k}/{i} by {}: {got:?}, expected {w}; {before:?}, permissions {:?}", nm(&a), Bits::get())); }
			let evs: Vec<Ev> = take_events::<Rt>().into_iter().filter_map(|e| if let RuntimeEvent::Nft(e) = e { Some(e) } else { None }).collect();
			let exp: Vec<Ev> = if got.is_ok() { ev.into_iter().collect() } else { vec![] };
			c.check("one-event-tells-what-happened", evs == exp, || format!("{name}: {evs:?}, expected {exp:?}"));
			if got.is_ok() { m = n; }
			compare(c, &m, name);
			if c.rng.chance(1, 6) { readers(c, &m, &ids); c.distinct("collections and items", (m.cols.len(), m.items.len())); }
			if c.index < 2 { c.sample(|| serde_json::json!({ "op": name, "collection": k.to_string(), "item": i.to_string(), "ok": got.is_ok() })); }
			if c.failed() { return; }
		}
	})
}
fn main() {
	mon_core::run!(1.0, "one case is a history of 60 operations on up to six collections by five accounts; non-trivial operations are distinct by operation, ids, accounts and population",
		["pallet-uniques and the balances pallet are the stand-ins of sub/shims"];
		"C43" => |m: &mut mon_core::Monitor| {
			m.workload("history", 1_500, 60_000, history);
			for e in ["create done", "create refused", "create typed done", "mint done", "mint refused", "mint into done", "transfer done", "transfer refused", "transfer within done", "burn done", "burn refused", "burn within done", "destroy done", "destroy refused", "destroy within done"] { m.expect(&format!("history/{e}"), 200); }
		});
}
