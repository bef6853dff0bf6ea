//! Archetypes of up to 320 component types: more than fit a machine word of
//! flags or an eight-bit count.
use crate::rng::Rng;
use crate::run::{new_tally, Outcome, Tally};
use crate::types::mix;
use crate::world::*;
use crate::{alloc, crash, Args};
use division_ecs::*;
use std::any::TypeId;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

const BLOCKS: usize = 40;
pub const N: usize = BLOCKS * 8;

/// component `B * 8 + J`
#[derive(Clone, Copy)]
struct M<const B: usize, const J: usize>(u16);
impl<const B: usize, const J: usize> Component for M<B, J> {}
#[derive(Tag)]
struct Line;

type Row = (Entity, [u16; 8]);
type Oct<const B: usize> = (M<B, 0>, M<B, 1>, M<B, 2>, M<B, 3>, M<B, 4>, M<B, 5>, M<B, 6>, M<B, 7>);

/// the operations on the eight types of a block, and on two of them alone
struct Block {
    ct: fn() -> [ComponentType; 8],
    has: fn(&Archetype) -> [(bool, Option<usize>); 8],
    archetype: fn() -> Archetype,
    include: fn(&mut ArchetypeBuilder),
    exclude: fn(&mut ArchetypeBuilder),
    add: fn(&mut Store, Entity, [u16; 8]),
    remove: fn(&mut Store, Entity),
    get: fn(&Store, Entity) -> Option<[*const u16; 8]>,
    get_mut: fn(&mut Store, Entity) -> Option<[*mut u16; 8]>,
    query: fn(&Store, &mut Vec<Row>) -> usize,
    listed: fn(&Store, &[Entity], &mut Vec<Row>),
    ordered: fn(&Store, &mut Vec<Row>),
    bump: fn(&mut Store) -> usize,
    add1: [fn(&mut Store, Entity, u16); 2],
    remove1: [fn(&mut Store, Entity); 2],
    get1: [fn(&Store, Entity) -> Option<u16>; 2],
}
/// which of the eight the single operations are for
const ALONE: [usize; 2] = [2, 7];

macro_rules! ptrs { ($r:expr, $t:ty) => {{
    let (a, b, c, d, e, f, g, h) = $r;
    [a as *mut _ as $t, b as *mut _ as $t, c as *mut _ as $t, d as *mut _ as $t, e as *mut _ as $t, f as *mut _ as $t, g as *mut _ as $t, h as *mut _ as $t]
}}; }
macro_rules! cptrs { ($r:expr, $t:ty) => {{
    let (a, b, c, d, e, f, g, h) = $r;
    [a as *const _ as $t, b as *const _ as $t, c as *const _ as $t, d as *const _ as $t, e as *const _ as $t, f as *const _ as $t, g as *const _ as $t, h as *const _ as $t]
}}; }
macro_rules! vals { ($r:expr) => {{
    let (a, b, c, d, e, f, g, h) = $r;
    [a.0, b.0, c.0, d.0, e.0, f.0, g.0, h.0]
}}; }

fn block<const B: usize>() -> Block {
    Block {
        ct: || {
            [
                ComponentType::of::<M<B, 0>>(),
                ComponentType::of::<M<B, 1>>(),
                ComponentType::of::<M<B, 2>>(),
                ComponentType::of::<M<B, 3>>(),
                ComponentType::of::<M<B, 4>>(),
                ComponentType::of::<M<B, 5>>(),
                ComponentType::of::<M<B, 6>>(),
                ComponentType::of::<M<B, 7>>(),
            ]
        },
        has: |a| {
            macro_rules! h { ($($j:literal)*) => { [$((a.has_component::<M<B, $j>>(), a.find_component_index_of::<M<B, $j>>())),*] } }
            h!(0 1 2 3 4 5 6 7)
        },
        archetype: Archetype::with_components::<Oct<B>>,
        include: |b| {
            b.include_components::<Oct<B>>();
        },
        exclude: |b| {
            b.exclude_components::<Oct<B>>();
        },
        add: |s, e, v| s.add_components::<Oct<B>>(e, (M(v[0]), M(v[1]), M(v[2]), M(v[3]), M(v[4]), M(v[5]), M(v[6]), M(v[7]))),
        remove: |s, e| s.remove_components::<Oct<B>>(e),
        get: |s, e| s.get_components_refs::<Oct<B>>(e).map(|r| cptrs!(r, *const u16)),
        get_mut: |s, e| s.get_components_refs_mut::<Oct<B>>(e).map(|r| ptrs!(r, *mut u16)),
        query: |s, out| {
            let mut q = query::component::readonly::<Oct<B>>();
            let it = s.component_query_iter(&mut q);
            let n = it.len();
            for (e, r) in it.with_entities() {
                alloc::outside(|| out.push((e, vals!(r))));
            }
            n
        },
        listed: |s, es, out| {
            let mut q = query::entity_component::readonly::<Oct<B>>();
            for (e, r) in s.entity_component_query_iter(es, &mut q).with_entities() {
                alloc::outside(|| out.push((e, vals!(r))));
            }
        },
        ordered: |s, out| {
            let mut q = query::ordered_component::readonly::<Line, Oct<B>>();
            for (e, r) in s.ordered_query_iter(&mut q).with_entities() {
                alloc::outside(|| out.push((e, vals!(r))));
            }
        },
        bump: |s| {
            let mut q = query::component::write::<Oct<B>>();
            let mut n = 0;
            for (a, b, c, d, e, f, g, h) in s.component_query_iter(&mut q) {
                for x in [&mut a.0, &mut b.0, &mut c.0, &mut d.0, &mut e.0, &mut f.0, &mut g.0, &mut h.0] {
                    *x = x.wrapping_mul(3).wrapping_add(1);
                }
                n += 1;
            }
            n
        },
        add1: [|s, e, v| s.add_components(e, M::<B, 2>(v)), |s, e, v| s.add_components(e, M::<B, 7>(v))],
        remove1: [|s, e| s.remove_components::<M<B, 2>>(e), |s, e| s.remove_components::<M<B, 7>>(e)],
        get1: [|s, e| s.get_components_refs::<M<B, 2>>(e).map(|r| r.0), |s, e| s.get_components_refs::<M<B, 7>>(e).map(|r| r.0)],
    }
}
macro_rules! blocks { ($($b:literal)*) => { vec![$(block::<$b>()),*] } }
fn table() -> Vec<Block> {
    blocks!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39)
}

/// what an entity has: the value of each component, if known
#[derive(Clone)]
struct Ent {
    e: Entity,
    has: [bool; N],
    val: [u16; N],
    /// created but never written
    unset: [bool; N],
    member: bool,
}
impl Ent {
    fn block(&self, b: usize) -> bool {
        (b * 8..b * 8 + 8).all(|k| self.has[k])
    }
    fn known(&self, b: usize) -> bool {
        (b * 8..b * 8 + 8).all(|k| !self.unset[k])
    }
    fn vals(&self, b: usize) -> [u16; 8] {
        std::array::from_fn(|j| self.val[b * 8 + j])
    }
    fn count(&self) -> usize {
        self.has.iter().filter(|h| **h).count()
    }
}
/// a set of types around the sizes where a representation may change
fn set(r: &mut Rng) -> [bool; N] {
    let mut s = [false; N];
    let n = match r.below(10) {
        0 | 1 => r.range(1, 40),
        2 | 3 => r.range(60, 70),
        4 => r.range(120, 140),
        5 | 6 => r.range(250, 262),
        7 => N,
        _ => r.range(1, N),
    };
    let mut all: Vec<usize> = (0..N).collect();
    if r.chance(1, 2) {
        r.shuffle(&mut all);
    } else {
        let k = r.below(N);
        all.rotate_left(k);
    }
    for &k in &all[..n] {
        s[k] = true;
    }
    s
}
fn names(s: &[bool; N]) -> String {
    let l: Vec<String> = (0..N).filter(|&k| s[k]).take(6).map(|k| k.to_string()).collect();
    format!("{} types ({}{})", s.iter().filter(|h| **h).count(), l.join(" "), if l.len() < 6 { "" } else { " .." })
}

struct Tab {
    b: Vec<Block>,
    ct: Vec<ComponentType>,
    id: Vec<TypeId>,
}

fn archetype(env: &mut Env, tab: &Tab, r: &mut Rng, s: &[bool; N]) -> R<Archetype> {
    let own = bit(12);
    let mut l: Vec<usize> = (0..N).filter(|&k| s[k]).collect();
    r.shuffle(&mut l);
    let cts: Vec<ComponentType> = l.iter().map(|&k| tab.ct[k]).collect();
    let how = r.below(3);
    env.call("ArchetypeBuilder", own, || {
        let mut b = ArchetypeBuilder::new();
        match how {
            0 => {
                b.include_component_types(&cts);
            }
            1 => {
                // from everything, leaving the rest out
                let rest: Vec<ComponentType> = alloc::outside(|| (0..N).filter(|&k| !s[k]).map(|k| tab.ct[k]).collect());
                for k in &tab.b {
                    (k.include)(&mut b);
                }
                b.exclude_component_types(&rest);
                alloc::outside(|| drop(rest));
            }
            _ => {
                // whole blocks as tuples, a part as an archetype, the rest one by one
                for (i, k) in tab.b.iter().enumerate() {
                    if s[i * 8..i * 8 + 8].iter().all(|h| *h) {
                        if i % 3 == 0 {
                            b.include_archetype(&(k.archetype)());
                        } else {
                            (k.include)(&mut b);
                        }
                    } else if i % 2 == 0 {
                        (k.include)(&mut b);
                        (k.exclude)(&mut b);
                    }
                }
                for c in &cts {
                    b.include_component_types(std::slice::from_ref(c));
                }
            }
        }
        b.build()
    })
}
/// the archetype denotes the set
fn denotes(env: &mut Env, tab: &Tab, own: u32, a: &Archetype, s: &[bool; N]) -> R {
    let n = s.iter().filter(|h| **h).count();
    env.checks += 1;
    let count = env.call("component_count", own, || a.component_count())?;
    let ids: Vec<TypeId> = env.call("included_ids", own, || alloc::outside(|| a.included_ids().to_vec()))?;
    let cts: Vec<ComponentType> = env.call("components_iter", own, || {
        let mut v = alloc::outside(Vec::new);
        for c in a.components_iter() {
            alloc::outside(|| v.push(c));
        }
        v
    })?;
    if count != n || ids.len() != n || cts.len() != n {
        return env.fail(own, || format!("archetype of {}: component_count {count}, {} ids, {} types", names(s), ids.len(), cts.len()));
    }
    for (b, k) in tab.b.iter().enumerate() {
        let h = env.call("has_component", own, || (k.has)(a))?;
        for j in 0..8 {
            let t = b * 8 + j;
            let at = ids.iter().position(|i| *i == tab.id[t]);
            if h[j] != (s[t], at) || at.is_some() != s[t] || at.map_or(false, |p| cts[p] != tab.ct[t] || cts[p].size() != 2) {
                return env.fail(own, || format!("archetype of {}: type {t} is {:?}, listed at {at:?}, expected {}", names(s), h[j], s[t]));
            }
        }
    }
    Ok(())
}
fn hash(a: &Archetype) -> u64 {
    let mut h = DefaultHasher::new();
    a.hash(&mut h);
    h.finish()
}
fn algebra(env: &mut Env, tab: &Tab, r: &mut Rng, t: &mut Tally) -> R {
    let own = bit(12);
    let mut have: Vec<(Archetype, [bool; N])> = vec![];
    for _ in 0..5 {
        let s = match (r.below(3), have.last()) {
            // close to another set
            (0, Some((_, s))) => {
                let mut s = *s;
                let (a, b) = (r.below(N), r.below(N));
                s.swap(a, b);
                s
            }
            (1, Some((_, s))) => {
                let mut s = *s;
                s[r.below(N)] ^= true;
                if s.iter().all(|h| !*h) {
                    s[0] = true;
                }
                s
            }
            _ => set(r),
        };
        let a = archetype(env, tab, r, &s)?;
        denotes(env, tab, own, &a, &s)?;
        have.push((a, s));
        t.ops += 1;
    }
    for i in 0..have.len() {
        for j in 0..have.len() {
            let ((a, x), (b, y)) = (&have[i], &have[j]);
            let got = env.call("is_same_as/is_include/is_exclude", own, || (a.is_same_as(b), a.is_include(b), a.is_exclude(b)))?;
            let want = (x == y, (0..N).all(|k| x[k] || !y[k]), (0..N).all(|k| !(x[k] && y[k])));
            env.checks += 1;
            if got != want {
                return env.fail(own, || format!("{} against {}: (same, include, exclude) {got:?}, expected {want:?}", names(x), names(y)));
            }
            if x == y && env.call("hash", own, || hash(a) == hash(b))? == false {
                return env.fail(own, || format!("equal archetypes of {} hash differently", names(x)));
            }
            let mut l: Vec<usize> = (0..N).filter(|&k| y[k]).collect();
            r.shuffle(&mut l);
            let ids: Vec<TypeId> = l.iter().map(|&k| tab.id[k]).collect();
            let got = env.call("is_include_ids/is_include_only_ids/is_exclude_ids", own, || {
                (a.is_include_only_ids(&ids), a.is_include_ids(&ids), a.is_exclude_ids(&ids))
            })?;
            if got != want {
                return env.fail(own, || format!("{} against the list of {}: (only, include, exclude) {got:?}, expected {want:?}", names(x), names(y)));
            }
        }
        let c = env.call("clone", own, || have[i].0.clone())?;
        denotes(env, tab, own, &c, &have[i].1)?;
        env.call("drop Archetype", own, move || drop(c))?;
    }
    env.call("drop Archetype", own, move || drop(have))
}

fn run(env: &mut Env, tab: &Tab, seed: u64, id: u64, t: &mut Tally) -> Outcome {
    crash::set_case(id);
    let mut r = Rng::new(mix(seed ^ 0x3A27) ^ mix(id));
    let before = alloc::stats();
    let o = (|| -> R {
        if env.prop == 12 {
            algebra(env, tab, &mut r, t)?;
        }
        world(env, tab, &mut r, t)?;
        alloc::sweep();
        env.poll_alloc("the end of the history")?;
        let after = alloc::stats();
        env.checks += 1;
        if alloc::TRACKED && (after.live_blocks, after.live_bytes) != (before.live_blocks, before.live_bytes) {
            return env.fail(bit(13), || {
                format!("{} blocks ({} bytes) allocated by the library are left after the store is dropped", after.live_blocks as i64 - before.live_blocks as i64, after.live_bytes as i64 - before.live_bytes as i64)
            });
        }
        Ok(())
    })();
    match o {
        Ok(()) => Outcome::Done,
        Err(Stop::Viol(msg)) => Outcome::Viol { op: env.opno as usize, msg },
        Err(Stop::Cut(msg)) => Outcome::Cut { op: env.opno as usize, msg },
    }
}
fn world(env: &mut Env, tab: &Tab, r: &mut Rng, t: &mut Tally) -> R {
    let cap = *r.pick(&[1usize, 3, 10, 40, 100]);
    let mut s = env.call("Store::with_capacity", CREATE, || Store::with_capacity(cap))?;
    let mut es: Vec<Ent> = vec![];
    let mut order: Vec<usize> = vec![];
    let limit = *r.pick(&[3usize, 12, 40, 90]);
    // a few sets shared by many entities, so that pages fill and split
    let sets: Vec<[bool; N]> = (0..r.range(1, 4)).map(|_| set(r)).collect();
    let mut next = 1u16;
    let mut fresh = move || {
        next = next.wrapping_mul(25173).wrapping_add(13849);
        next
    };
    let ops = r.range(8, 90);
    for _ in 0..ops {
        env.opno += 1;
        t.ops += 1;
        let live: Vec<usize> = (0..es.len()).collect();
        let what = if live.is_empty() { 0 } else { r.weighted(&[if live.len() < limit { 12 } else { 0 }, 10, 8, 5, 5, 3, 6, 3, 4, 2]) };
        let i = if live.is_empty() { 0 } else { *r.pick(&live) };
        let b = if !live.is_empty() && r.chance(2, 3) && es[i].count() > 0 {
            let l: Vec<usize> = (0..BLOCKS).filter(|&b| es[i].has[b * 8..b * 8 + 8].iter().any(|h| *h)).collect();
            *r.pick(&l)
        } else {
            r.below(BLOCKS)
        };
        match what {
            0 => {
                let k = r.range(1, (limit - live.len().min(limit)).clamp(1, 30));
                let x = if r.chance(4, 5) { *r.pick(&sets) } else { set(r) };
                let a = archetype(env, tab, r, &x)?;
                for _ in 0..k {
                    let e = env.call("create_entity_with_archetype", CREATE_A, || s.create_entity_with_archetype(&a))?;
                    es.push(Ent { e, has: x, val: [0; N], unset: x, member: false });
                    // the values of a new entity are unspecified: write those that tuples reach
                    let n = es.len() - 1;
                    for b in 0..BLOCKS {
                        if es[n].block(b) {
                            write(env, tab, &mut s, &mut es[n], b, &mut fresh)?;
                        }
                    }
                }
                env.call("drop Archetype", ARCH, move || drop(a))?;
            }
            1 => {
                let v: [u16; 8] = std::array::from_fn(|_| fresh());
                let e = es[i].e;
                let f = tab.b[b].add;
                env.call("add_components", COMPS, || f(&mut s, e, v))?;
                for j in 0..8 {
                    es[i].has[b * 8 + j] = true;
                    es[i].unset[b * 8 + j] = false;
                    es[i].val[b * 8 + j] = v[j];
                }
            }
            2 => {
                let e = es[i].e;
                let f = tab.b[b].remove;
                env.call("remove_components", COMPS, || f(&mut s, e))?;
                for k in b * 8..b * 8 + 8 {
                    es[i].has[k] = false;
                    es[i].unset[k] = false;
                }
            }
            3 => {
                let (j, v, e) = (r.below(2), fresh(), es[i].e);
                let f = tab.b[b].add1[j];
                env.call("add_components", COMPS, || f(&mut s, e, v))?;
                let k = b * 8 + ALONE[j];
                es[i].has[k] = true;
                es[i].unset[k] = false;
                es[i].val[k] = v;
            }
            4 => {
                let (j, e) = (r.below(2), es[i].e);
                let f = tab.b[b].remove1[j];
                env.call("remove_components", COMPS, || f(&mut s, e))?;
                es[i].has[b * 8 + ALONE[j]] = false;
                es[i].unset[b * 8 + ALONE[j]] = false;
            }
            5 => {
                // everything in one go, in blocks
                let e = es[i].e;
                let all = r.chance(1, 2);
                for b in 0..BLOCKS {
                    if all {
                        let v: [u16; 8] = std::array::from_fn(|_| fresh());
                        let f = tab.b[b].add;
                        env.call("add_components", COMPS, || f(&mut s, e, v))?;
                        for j in 0..8 {
                            es[i].has[b * 8 + j] = true;
                            es[i].unset[b * 8 + j] = false;
                            es[i].val[b * 8 + j] = v[j];
                        }
                    } else if b % 5 != 1 {
                        let f = tab.b[b].remove;
                        env.call("remove_components", COMPS, || f(&mut s, e))?;
                        for k in b * 8..b * 8 + 8 {
                            es[i].has[k] = false;
                            es[i].unset[k] = false;
                        }
                    }
                }
            }
            6 => {
                let n = es[i].block(b);
                if n {
                    write(env, tab, &mut s, &mut es[i], b, &mut fresh)?;
                } else {
                    let e = es[i].e;
                    let f = tab.b[b].get_mut;
                    let g = env.call("get_components_refs_mut", REFS, || f(&mut s, e).is_some())?;
                    if g {
                        return env.fail(REFS, || format!("mutable references to components an entity of {} lacks (block {b})", names(&es[i].has)));
                    }
                }
            }
            7 => {
                let e = es[i].e;
                env.call("destroy_entity", DESTROY, || s.destroy_entity(e))?;
                es.swap_remove(i);
                order.retain(|&o| o != i);
                let was = es.len();
                for o in order.iter_mut() {
                    if *o == was {
                        *o = i;
                    }
                }
            }
            8 => {
                if !es[i].member {
                    let e = es[i].e;
                    env.call("add_entity_order_by", ORD, || s.add_entity_order_by::<Line>(e))?;
                    es[i].member = true;
                    order.push(i);
                }
            }
            _ => {
                let f = tab.b[b].bump;
                let n = env.call("component query", CQ, || f(&mut s))?;
                let mut want = 0;
                for x in es.iter_mut().filter(|x| x.block(b)) {
                    want += 1;
                    for k in b * 8..b * 8 + 8 {
                        x.val[k] = x.val[k].wrapping_mul(3).wrapping_add(1);
                    }
                }
                env.checks += 1;
                if n != want {
                    return env.fail(CQ, || format!("a mutable query over block {b} visits {n} entities, expected {want}"));
                }
            }
        }
        if r.chance(1, 12) {
            audit(env, tab, r, &s, &es, &order, t)?;
        }
    }
    audit(env, tab, r, &s, &es, &order, t)?;
    env.call("drop Store", bit(13), || drop(s))
}
fn write(env: &mut Env, tab: &Tab, s: &mut Store, x: &mut Ent, b: usize, fresh: &mut impl FnMut() -> u16) -> R {
    let f = tab.b[b].get_mut;
    let e = x.e;
    let p = env.call("get_components_refs_mut", REFS, || f(s, e))?;
    env.checks += 1;
    let Some(p) = p else {
        return env.fail(REFS, || format!("no references to block {b} of an entity of {}", names(&x.has)));
    };
    for j in 0..8 {
        let (k, v) = (b * 8 + j, fresh());
        unsafe { *p[j] = v };
        x.val[k] = v;
        x.unset[k] = false;
    }
    Ok(())
}
fn audit(env: &mut Env, tab: &Tab, r: &mut Rng, s: &Store, es: &[Ent], order: &[usize], t: &mut Tally) -> R {
    t.max_live = t.max_live.max(es.len());
    let mut spans: Vec<(usize, usize, usize)> = vec![];
    for (i, x) in es.iter().enumerate() {
        let n = x.count();
        if env.prop == 3 || env.prop == 12 || i % 4 == 0 {
            let a = env.call("get_entity_archetype", ARCH, || s.get_entity_archetype(x.e).cloned())?;
            env.checks += 1;
            match a {
                Some(a) if n > 0 => {
                    denotes(env, tab, ARCH | bit(12), &a, &x.has)?;
                    env.call("drop Archetype", ARCH, move || drop(a))?;
                }
                None if n == 0 => {}
                a => return env.fail(ARCH, || format!("archetype of an entity of {}: {a:?}", names(&x.has))),
            }
        }
        if n > 64 {
            env.feat("entities of more than 64 types");
        }
        if n > 255 {
            env.feat("entities of more than 255 types");
        }
        for (b, k) in tab.b.iter().enumerate() {
            let g = env.call("get_components_refs", REFS, || (k.get)(s, x.e))?;
            env.checks += 1;
            match g {
                None if !x.block(b) => {}
                Some(p) if x.block(b) => {
                    for j in 0..8 {
                        let at = p[j] as usize;
                        if at % 2 != 0 {
                            return env.fail(bit(11), || format!("component {} of an entity of {} at the odd address {at:#x}", b * 8 + j, names(&x.has)));
                        }
                        if env.prop == 11 {
                            spans.push((at, i, b * 8 + j));
                        }
                        if x.unset[b * 8 + j] {
                            continue;
                        }
                        let v = unsafe { *p[j] };
                        if v != x.val[b * 8 + j] {
                            return env.fail(bit(2), || {
                                format!("component {} of an entity of {} reads {v:#x}, last written {:#x}", b * 8 + j, names(&x.has), x.val[b * 8 + j])
                            });
                        }
                    }
                }
                g => {
                    let got = g.is_some();
                    return env.fail(REFS, || format!("references to block {b} of an entity of {}: {got}, has them: {}", names(&x.has), x.block(b)));
                }
            }
            for (j, f) in k.get1.iter().enumerate() {
                let c = b * 8 + ALONE[j];
                if x.has[c] && x.unset[c] {
                    continue;
                }
                let g = env.call("get_components_refs", REFS, || f(s, x.e))?;
                env.checks += 1;
                if g != x.has[c].then_some(x.val[c]) {
                    return env.fail(REFS, || format!("component {c} of an entity of {} reads {g:?}, expected {:?}", names(&x.has), x.has[c].then_some(x.val[c])));
                }
            }
        }
        if t.states.len() < 150_000 {
            let mut h = 3;
            for k in 0..N {
                h = mix(h ^ (x.has[k] as u64) << 17 ^ x.val[k] as u64);
            }
            t.states.insert(h);
        }
    }
    spans.sort();
    for w in spans.windows(2) {
        if w[0].0 + 2 > w[1].0 {
            return env.fail(bit(11), || format!("component {} of entity {} and component {} of entity {} share {:#x}", w[0].2, w[0].1, w[1].2, w[1].1, w[1].0));
        }
    }
    if ![4, 6, 8, 16].contains(&env.prop) && !r.chance(1, 8) {
        return Ok(());
    }
    let mut out: Vec<Row> = vec![];
    let mut list: Vec<usize> = (0..es.len()).collect();
    r.shuffle(&mut list);
    let handles: Vec<Entity> = list.iter().map(|&i| es[i].e).collect();
    for (b, k) in tab.b.iter().enumerate() {
        // some values unspecified
        if es.iter().any(|x| x.block(b) && !x.known(b)) {
            continue;
        }
        env.checks += 3;
        out.clear();
        let n = env.call("component query", CQ, || (k.query)(s, &mut out))?;
        let m = out.len();
        if n != m {
            return env.fail(bit(16), || format!("a query over block {b} announces {n} entities and yields {m}"));
        }
        let mut want: Vec<Row> = es.iter().filter(|x| x.block(b)).map(|x| (x.e, x.vals(b))).collect();
        out.sort_by_key(|o| o.0.id());
        want.sort_by_key(|o| o.0.id());
        if out != want {
            return env.fail(CQ, || format!("a query over block {b} yields {} entities, expected {} (or other values)", m, want.len()));
        }
        out.clear();
        env.call("entity-list query", EQ, || (k.listed)(s, &handles, &mut out))?;
        let want: Vec<Row> = list.iter().map(|&i| &es[i]).filter(|x| x.block(b)).map(|x| (x.e, x.vals(b))).collect();
        if out != want {
            return env.fail(EQ, || format!("an entity-list query over block {b} yields {} entities, expected {} (or other values)", out.len(), want.len()));
        }
        out.clear();
        env.call("ordered query", OQ, || (k.ordered)(s, &mut out))?;
        let want: Vec<Row> = order.iter().map(|&i| &es[i]).filter(|x| x.block(b)).map(|x| (x.e, x.vals(b))).collect();
        if out != want {
            return env.fail(OQ, || format!("an ordered query over block {b} yields {} entities, expected {} (or other values)", out.len(), want.len()));
        }
    }
    Ok(())
}
fn tab() -> Tab {
    let b = table();
    let ct: Vec<ComponentType> = b.iter().flat_map(|k| (k.ct)()).collect();
    let id = ct.iter().map(|c| c.id()).collect();
    Tab { b, ct, id }
}
pub fn replay(t: &str) -> Option<String> {
    let num = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(0);
    let mut env = Env::new(num("prop ") as usize);
    match run(&mut env, &tab(), num("seed "), num("id "), &mut new_tally()) {
        Outcome::Viol { op, msg } => Some(format!("at operation {op}: {msg}")),
        Outcome::Cut { op, msg } => {
            println!("CUT {op} {msg}");
            None
        }
        _ => None,
    }
}
pub fn main(a: &Args) {
    let mut env = Env::new(a.prop);
    let mut t = new_tally();
    let tab = tab();
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs_f64(a.secs);
    let mut i = 0u64;
    while i < a.cases && std::time::Instant::now() < deadline {
        let id = i * a.shard.1 as u64 + a.shard.0 as u64;
        i += 1;
        if a.skip.contains(&id) || id < a.from {
            continue;
        }
        let text = format!("mode many\nprop {}\nseed {}\nid {id}\n", a.prop, a.seed);
        if let Some(d) = a.dump {
            if d == id {
                println!("{text}");
                return;
            }
            continue;
        }
        if a.announce {
            println!("CASE {id}");
        }
        t.cases += 1;
        env.opno = 0;
        match run(&mut env, &tab, a.seed, id, &mut t) {
            Outcome::Viol { op, msg } => crate::report_violation(a, &text, op, &msg),
            Outcome::Cut { msg, op } => crate::note_cut(&mut t, format!("many case {id} op {op}: {msg}")),
            _ => {}
        }
    }
    if a.dump.is_none() {
        t.sample = Some(format!("entities of 1 to {N} component types, moved between archetypes eight types or one at a time"));
        crate::summary(a, "many", &env, &t, &[]);
    }
}
