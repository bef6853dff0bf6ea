//! The executable model, the operations, and the call wrapper.
use crate::rng::Rng;
use crate::types::*;
use crate::{alloc, crash};
use division_ecs::*;
use std::any::Any;
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const PAGE: usize = Store::data_page_size();

pub const fn bit(p: usize) -> u32 {
    1 << p
}
pub const CREATE: u32 = bit(1);
pub const CREATE_A: u32 = bit(1) | bit(2) | bit(3) | bit(11);
pub const DESTROY: u32 = bit(1) | bit(2) | bit(5) | bit(7);
pub const ALIVE: u32 = bit(1);
pub const COMPS: u32 = bit(2) | bit(3) | bit(11);
pub const REFS: u32 = bit(2) | bit(3);
pub const ARCH: u32 = bit(3);
pub const TAG: u32 = bit(5);
pub const CQ: u32 = bit(4);
pub const EQ: u32 = bit(6);
pub const ORD: u32 = bit(7);
pub const OQ: u32 = bit(8);
pub const BUILD: u32 = bit(12) | bit(3);

pub enum Stop {
    Viol(String),
    Cut(String),
}
pub type R<T = ()> = Result<T, Stop>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Op {
    pub w: u8,
    pub code: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

/// flag in `a` of the bulk operations: the newest entities of the list first
pub const TAIL: u32 = 1 << 31;

macro_rules! codes { ($($n:ident)*) => { codes!(@ 0u8; $($n)*); pub const NAMES: &[&str] = &[$(stringify!($n)),*]; };
    (@ $i:expr; $n:ident $($r:ident)*) => { pub const $n: u8 = $i; codes!(@ $i + 1; $($r)*); };
    (@ $i:expr;) => {}; }
#[allow(non_upper_case_globals)]
pub mod op {
    codes! { CreateEmpty CreateArch Destroy Add Remove WriteMut AddTag RemoveTag OrdAppend OrdNext OrdPrev OrdRemove
    QWrite EWrite OWrite Probe BulkCreate BulkDestroy BulkAdd BulkRemove BulkTag BulkOrder Reincarnate Drain RemoveAll
    Misuse Stale CloneArch AddEach BulkArch Everything }
}

#[derive(Clone, Debug)]
pub struct Case {
    pub id: u64,
    pub caps: Vec<usize>,
    pub types: Vec<usize>,
    pub tups: Vec<usize>,
    pub tags: Vec<usize>,
    pub groups: Vec<usize>,
    /// full audit every this many operations (0: only at Probe operations and at the end)
    pub audit_every: usize,
    /// picks must be in range (exhaustive enumeration: skip instead of wrap)
    pub strict: bool,
    pub max_live: usize,
    pub ops: Vec<Op>,
}

pub struct Ent {
    pub h: Entity,
    pub alive: bool,
    pub comps: Vec<(usize, Option<u64>)>,
    pub tags: u128,
    pub groups: u128,
}
impl Ent {
    pub fn find(&self, t: usize) -> Option<usize> {
        self.comps.binary_search_by_key(&t, |c| c.0).ok()
    }
    pub fn has_all(&self, ts: &[usize]) -> bool {
        ts.iter().all(|t| self.find(*t).is_some())
    }
    pub fn set(&self) -> Vec<usize> {
        self.comps.iter().map(|c| c.0).collect()
    }
}

/// What a probe judged: which property, and the tally.
pub struct Env {
    pub v: Vocab,
    pub prop: usize,
    pub opno: u64,
    pub calls: u64,
    pub checks: u64,
    /// queries checked in this case (chooses iteration styles)
    pub nquery: u64,
    pub skipped: u64,
    pub feats: HashMap<&'static str, u64>,
    pub qcache: HashMap<(u8, usize), Box<dyn Any>>,
    pub rel_cq: Vec<usize>,
    pub rel_fq: Vec<usize>,
    pub rel_eq: Vec<usize>,
    pub rel_oq: Vec<usize>,
    pub rel_tup: Vec<usize>,
    pub trace: Option<Vec<u64>>,
    pub trace_ids: bool,
}

impl Env {
    pub fn new(prop: usize) -> Env {
        Env {
            v: Vocab::new(),
            prop,
            opno: 0,
            calls: 0,
            checks: 0,
            nquery: 0,
            skipped: 0,
            feats: HashMap::new(),
            qcache: HashMap::new(),
            rel_cq: vec![],
            rel_fq: vec![],
            rel_eq: vec![],
            rel_oq: vec![],
            rel_tup: vec![],
            trace: None,
            trace_ids: false,
        }
    }
    pub fn sel(&self, owners: u32) -> bool {
        owners & bit(self.prop) != 0
    }
    pub fn feat(&mut self, name: &'static str) {
        *self.feats.entry(name).or_insert(0) += 1;
    }
    /// A disagreement between library and model.
    pub fn fail<T>(&self, owners: u32, msg: impl FnOnce() -> String) -> R<T> {
        if self.sel(owners) {
            Err(Stop::Viol(msg()))
        } else {
            Err(Stop::Cut(msg()))
        }
    }
    pub fn call<T>(&mut self, name: &'static str, owners: u32, f: impl FnOnce() -> T) -> R<T> {
        match self.try_call(name, owners, f)? {
            Ok(v) => Ok(v),
            Err(m) => {
                let msg = format!("unexpected panic in {name}: {m}");
                if self.sel(owners) {
                    Err(Stop::Viol(msg))
                } else {
                    Err(Stop::Cut(msg))
                }
            }
        }
    }
    pub fn try_call<T>(&mut self, name: &'static str, owners: u32, f: impl FnOnce() -> T) -> R<Result<T, String>> {
        crash::set(self.opno, name, owners | bit(10));
        let r = {
            let _g = alloc::enter();
            catch_unwind(AssertUnwindSafe(f))
        };
        self.calls += 1;
        self.poll_alloc(name)?;
        match r {
            Ok(v) => Ok(Ok(v)),
            Err(p) => {
                drop(p);
                Ok(Err(crash::last_panic()))
            }
        }
    }
    pub fn poll_alloc(&self, name: &str) -> R {
        if alloc::TRACKED {
            let reps = alloc::take_reports();
            for m in reps {
                let own = bit(10)
                    | if m.contains("past its end") || m.contains("before its start") { bit(11) } else { 0 }
                    | if m.contains("released") { bit(13) } else { 0 };
                if self.sel(own) {
                    return Err(Stop::Viol(format!("{m} (noticed at {name})")));
                }
            }
        }
        Ok(())
    }
    pub fn setup_case(&mut self, c: &Case) {
        self.nquery = 0;
        let sub = |ts: &[usize]| ts.iter().all(|t| c.types.contains(t));
        let sub2 = |r: &[usize], w: &[usize]| sub(r) && sub(w);
        self.rel_tup = (0..self.v.tups.len()).filter(|&i| sub(self.v.tups[i].types)).collect();
        self.rel_cq = (0..self.v.cqs.len()).filter(|&i| sub2(self.v.cqs[i].read, self.v.cqs[i].write)).collect();
        self.rel_eq = (0..self.v.eqs.len()).filter(|&i| sub2(self.v.eqs[i].read, self.v.eqs[i].write)).collect();
        self.rel_fq = (0..self.v.fqs.len())
            .filter(|&i| sub2(self.v.fqs[i].read, self.v.fqs[i].write) && c.tags.contains(&self.v.fqs[i].tag))
            .collect();
        self.rel_oq = (0..self.v.oqs.len())
            .filter(|&i| sub2(self.v.oqs[i].read, self.v.oqs[i].write) && c.groups.contains(&self.v.oqs[i].group))
            .collect();
    }
    pub fn drop_queries(&mut self) -> R {
        let q = std::mem::take(&mut self.qcache);
        // the boxes belong to the library, the table to the harness
        let mut v: Vec<Box<dyn Any>> = q.into_values().collect();
        while let Some(b) = v.pop() {
            self.call("drop query", bit(13), || drop(b))?;
        }
        Ok(())
    }
    pub fn take_query(&mut self, kind: u8, i: usize) -> R<Box<dyn Any>> {
        if let Some(q) = self.qcache.remove(&(kind, i)) {
            return Ok(q);
        }
        self.new_query(kind, i)
    }
    pub fn new_query(&mut self, kind: u8, i: usize) -> R<Box<dyn Any>> {
        let f = match kind {
            0 => self.v.cqs[i].new,
            1 => self.v.fqs[i].new,
            2 => self.v.eqs[i].new,
            _ => self.v.oqs[i].new,
        };
        self.call("query::new", CQ | EQ | OQ, f)
    }
}

pub fn fits(v: &Vocab, set: &[usize]) -> bool {
    if set.is_empty() {
        return true;
    }
    let n = set.len();
    let share = PAGE / n - 8;
    let mut total = 0;
    for &t in set {
        if v.types[t].size > share {
            return false;
        }
        total += v.types[t].size + v.types[t].align;
    }
    total <= PAGE
}

pub struct World {
    pub store: Option<Store>,
    pub ents: Vec<Ent>,
    pub live: Vec<usize>,
    pub pos: Vec<usize>,
    pub dead: Vec<usize>,
    by_id: Vec<u32>,
    pub groups: Vec<Vec<usize>>,
    left: u128,
    pub seen_tags: u128,
    pub stamp: u64,
    pub issued: HashSet<u64>,
    pub last_cap: usize,
    pub init_cap: usize,
    pub peak: usize,
}

impl World {
    pub fn new(env: &mut Env, cap: usize, salt: u64) -> R<World> {
        let store = env.call("Store::with_capacity", CREATE, || Store::with_capacity(cap))?;
        Ok(World {
            store: Some(store),
            ents: vec![],
            live: vec![],
            pos: vec![],
            dead: vec![],
            by_id: vec![],
            groups: vec![vec![]; NGROUPS],
            left: 0,
            seen_tags: 0,
            stamp: salt << 40,
            issued: HashSet::new(),
            last_cap: 0,
            init_cap: cap,
            peak: 0,
        })
    }
    pub fn s(&self) -> &Store {
        self.store.as_ref().unwrap()
    }
    pub fn close(&mut self, env: &mut Env) -> R {
        if let Some(s) = self.store.take() {
            env.call("drop Store", bit(13), || drop(s))?;
        }
        Ok(())
    }
    pub fn stamp(&mut self) -> u64 {
        self.stamp += 1;
        self.stamp
    }
    /// live entity owning this handle
    pub fn who(&self, h: Entity) -> Option<usize> {
        let i = *self.by_id.get(h.id() as usize)?;
        if i == 0 {
            return None;
        }
        let i = i as usize - 1;
        if self.ents[i].h == h {
            Some(i)
        } else {
            None
        }
    }
    pub fn id_live(&self, id: u32) -> Option<usize> {
        match self.by_id.get(id as usize) {
            Some(&i) if i > 0 => Some(i as usize - 1),
            _ => None,
        }
    }

    fn check_new_handle(&mut self, env: &mut Env, h: Entity) -> R {
        if h.id() as usize >= 1 << 26 {
            return env.fail(bit(1), || format!("created handle has absurd id {h:?}"));
        }
        if let Some(o) = self.id_live(h.id()) {
            let oh = self.ents[o].h;
            return env.fail(bit(1), || format!("new handle {h:?} shares its id with live handle {oh:?}"));
        }
        if env.prop == 1 {
            env.checks += 1;
            if !self.issued.insert((h.id() as u64) << 32 | h.version() as u64) {
                return env.fail(bit(1), || format!("handle {h:?} was issued before"));
            }
            let alive = env.call("is_alive", ALIVE, || self.s().is_alive(h))?;
            if !alive {
                return env.fail(bit(1), || format!("fresh handle {h:?} is reported dead"));
            }
        }
        Ok(())
    }
    fn register(&mut self, env: &mut Env, h: Entity, comps: Vec<(usize, Option<u64>)>) -> R<usize> {
        self.check_new_handle(env, h)?;
        let i = self.ents.len();
        let id = h.id() as usize;
        if self.by_id.len() <= id {
            self.by_id.resize(id + 1, 0);
        }
        self.by_id[id] = i as u32 + 1;
        self.ents.push(Ent { h, alive: true, comps, tags: 0, groups: 0 });
        self.pos.push(self.live.len());
        self.live.push(i);
        self.peak = self.peak.max(self.live.len());
        Ok(i)
    }
    pub fn create(&mut self, env: &mut Env) -> R<usize> {
        let s = self.store.as_mut().unwrap();
        let h = env.call("create_entity", CREATE, || s.create_entity())?;
        self.register(env, h, vec![])
    }
    /// Build an archetype holding exactly `set`, in one of several ways.
    pub fn archetype(&mut self, env: &mut Env, set: &[usize], how: u32) -> R<Archetype> {
        let mut r = Rng::new(how as u64);
        let mut order = set.to_vec();
        r.shuffle(&mut order);
        let mut sorted = set.to_vec();
        sorted.sort_unstable();
        match how % 4 {
            0 => {
                let m: Option<usize> = env.rel_tup.iter().copied().find(|&k| {
                    let mut t = env.v.tups[k].types.to_vec();
                    t.sort_unstable();
                    t == sorted
                });
                if let Some(k) = m {
                    let f = env.v.tups[k].archetype;
                    return env.call("Archetype::with_components", BUILD, f);
                }
            }
            1 => {
                // copy the archetype of an entity that has the same set
                let m = self.live.iter().copied().take(64).find(|&i| self.ents[i].set() == sorted);
                if let Some(i) = m {
                    let h = self.ents[i].h;
                    let s = self.s();
                    let a = env.call("get_entity_archetype", ARCH, || s.get_entity_archetype(h).cloned())?;
                    return match a {
                        Some(a) => Ok(a),
                        None => env.fail(bit(3), || format!("live entity {h:?} with components {sorted:?} has no archetype")),
                    };
                }
            }
            _ => {}
        }
        let cts: Vec<ComponentType> = order.iter().map(|&t| (env.v.types[t].ct)()).collect();
        let singles = how % 4 == 3;
        let incs: Vec<fn(&mut ArchetypeBuilder)> = order.iter().map(|&t| env.v.tups[env.v.single[t]].include).collect();
        env.call("ArchetypeBuilder", BUILD, || {
            let mut b = ArchetypeBuilder::new();
            if singles {
                for f in &incs {
                    f(&mut b);
                }
            } else {
                b.include_component_types(&cts);
            }
            b.build()
        })
    }
    pub fn create_with(&mut self, env: &mut Env, set: &[usize], how: u32) -> R<usize> {
        let a = self.archetype(env, set, how)?;
        let s = self.store.as_mut().unwrap();
        let h = env.call("create_entity_with_archetype", CREATE_A, || s.create_entity_with_archetype(&a))?;
        env.call("drop Archetype", bit(13), move || drop(a))?;
        let mut comps: Vec<(usize, Option<u64>)> = set.iter().map(|&t| (t, None)).collect();
        comps.sort_unstable_by_key(|c| c.0);
        self.register(env, h, comps)
    }
    pub fn destroy(&mut self, env: &mut Env, i: usize) -> R {
        let h = self.ents[i].h;
        let s = self.store.as_mut().unwrap();
        env.call("destroy_entity", DESTROY, || s.destroy_entity(h))?;
        self.model_destroy(i);
        Ok(())
    }
    fn model_destroy(&mut self, i: usize) {
        let e = &mut self.ents[i];
        e.alive = false;
        e.comps = vec![];
        e.tags = 0;
        let g = e.groups;
        e.groups = 0;
        let id = e.h.id() as usize;
        self.by_id[id] = 0;
        let mut rest = g;
        while rest != 0 {
            self.leave(rest.trailing_zeros() as usize, i);
            rest &= rest - 1;
        }
        let p = self.pos[i];
        let last = *self.live.last().unwrap();
        self.live.swap_remove(p);
        if last != i {
            self.pos[last] = p;
        }
        self.pos[i] = usize::MAX;
        self.dead.push(i);
    }
    pub fn union(&self, i: usize, ts: &[usize]) -> Vec<usize> {
        let mut u = self.ents[i].set();
        for t in ts {
            if !u.contains(t) {
                u.push(*t);
            }
        }
        u
    }
    /// add tuple `k` to entity `i` (skipped when the result would not fit)
    pub fn add(&mut self, env: &mut Env, i: usize, k: usize) -> R<bool> {
        let ts = env.v.tups[k].types;
        if !fits(&env.v, &self.union(i, ts)) {
            return Ok(false);
        }
        let stamps: Vec<u64> = ts.iter().map(|_| self.stamp()).collect();
        let h = self.ents[i].h;
        let f = env.v.tups[k].add;
        let s = self.store.as_mut().unwrap();
        env.call("add_components", COMPS, || f(s, h, &stamps))?;
        for (t, st) in ts.iter().zip(&stamps) {
            self.set_comp(i, *t, *st);
        }
        Ok(true)
    }
    pub fn set_comp(&mut self, i: usize, t: usize, st: u64) {
        let e = &mut self.ents[i];
        match e.comps.binary_search_by_key(&t, |c| c.0) {
            Ok(p) => e.comps[p].1 = Some(st),
            Err(p) => e.comps.insert(p, (t, Some(st))),
        }
    }
    pub fn remove(&mut self, env: &mut Env, i: usize, k: usize) -> R {
        let ts = env.v.tups[k].types;
        let h = self.ents[i].h;
        let f = env.v.tups[k].remove;
        let s = self.store.as_mut().unwrap();
        env.call("remove_components", COMPS, || f(s, h))?;
        self.ents[i].comps.retain(|c| !ts.contains(&c.0));
        Ok(())
    }
    /// write through the references of combined mutable access
    pub fn write_mut(&mut self, env: &mut Env, i: usize, k: usize, salt: u32) -> R<bool> {
        let ts = env.v.tups[k].types;
        let h = self.ents[i].h;
        let f = env.v.tups[k].refs_mut;
        let mut out = Vec::with_capacity(12);
        let s = self.store.as_mut().unwrap();
        let some = env.call("get_components_refs_mut", REFS, || f(s, h, &mut out))?;
        let expect = self.ents[i].has_all(ts);
        if some != expect {
            return env.fail(bit(3), || {
                format!("combined mutable access of {ts:?} to {h:?} gave a result: {some}, expected {expect}")
            });
        }
        if !some {
            return Ok(true);
        }
        for (n, &t) in ts.iter().enumerate() {
            if ts.len() > 1 && (salt >> (n % 24)) & 3 == 3 {
                continue;
            }
            // the pointer must be where single access finds the component
            let st = self.stamp();
            unsafe { (env.v.types[t].write)(out[n], st) };
            self.set_comp(i, t, st);
        }
        Ok(true)
    }
    pub fn tag(&mut self, env: &mut Env, i: usize, tag: usize, on: bool) -> R {
        let h = self.ents[i].h;
        let f = if on { env.v.tags[tag].add } else { env.v.tags[tag].remove };
        let s = self.store.as_mut().unwrap();
        env.call(if on { "add_tag" } else { "remove_tag" }, TAG, || f(s, h))?;
        if on {
            self.ents[i].tags |= 1 << tag;
            self.seen_tags |= 1 << tag;
        } else {
            self.ents[i].tags &= !(1 << tag);
        }
        Ok(())
    }
    pub fn order_append(&mut self, env: &mut Env, i: usize, g: usize) -> R {
        let h = self.ents[i].h;
        let f = env.v.groups[g].append;
        let s = self.store.as_mut().unwrap();
        env.call("add_entity_order_by", ORD, || f(s, h))?;
        self.groups[g].push(i);
        self.ents[i].groups |= 1 << g;
        Ok(())
    }
    pub fn order_insert(&mut self, env: &mut Env, i: usize, g: usize, anchor: usize, after: bool) -> R {
        let (h, ah) = (self.ents[i].h, self.ents[anchor].h);
        let f = if after { env.v.groups[g].next_to } else { env.v.groups[g].prev_to };
        let s = self.store.as_mut().unwrap();
        env.call(if after { "add_entity_next_to_order_by" } else { "add_entity_previous_to_order_by" }, ORD, || f(s, h, ah))?;
        let m = &self.groups[g];
        let p = if m.last() == Some(&anchor) { m.len() - 1 } else { m.iter().position(|&x| x == anchor).unwrap() };
        self.groups[g].insert(if after { p + 1 } else { p }, i);
        self.ents[i].groups |= 1 << g;
        Ok(())
    }
    pub fn order_remove(&mut self, env: &mut Env, i: usize, g: usize) -> R {
        let h = self.ents[i].h;
        let f = env.v.groups[g].remove;
        let s = self.store.as_mut().unwrap();
        env.call("remove_entity_order_by", ORD, || f(s, h))?;
        self.ents[i].groups &= !(1 << g);
        self.leave(g, i);
        Ok(())
    }
    /// drop `i` from the model of group `g`; for large groups at the end of the operation
    fn leave(&mut self, g: usize, i: usize) {
        if self.groups[g].len() > 2000 {
            self.left |= 1 << g;
        } else {
            self.groups[g].retain(|&x| x != i);
        }
    }
    fn settle(&mut self) {
        while self.left != 0 {
            let g = self.left.trailing_zeros() as usize;
            let ents = &self.ents;
            self.groups[g].retain(|&i| ents[i].groups >> g & 1 == 1);
            self.left &= self.left - 1;
        }
    }
    /// address of one component by single access
    pub fn direct(&self, env: &mut Env, i: usize, t: usize) -> R<Option<*mut u8>> {
        let h = self.ents[i].h;
        let f = env.v.tups[env.v.single[t]].refs;
        let mut out = Vec::with_capacity(1);
        let some = env.call("get_components_refs", REFS, || f(self.s(), h, &mut out))?;
        Ok(if some { Some(out[0]) } else { None })
    }

    fn pick_live(&self, c: &Case, a: u32) -> Option<usize> {
        if self.live.is_empty() || (c.strict && a as usize >= self.live.len()) {
            return None;
        }
        Some(self.live[a as usize % self.live.len()])
    }

    /// Apply one raw operation. Ok(false): not applicable in this state.
    pub fn step(&mut self, env: &mut Env, c: &Case, o: Op) -> R<bool> {
        let r = self.step_op(env, c, o);
        if self.left != 0 {
            self.settle();
        }
        r
    }
    fn step_op(&mut self, env: &mut Env, c: &Case, o: Op) -> R<bool> {
        use op::*;
        let full = self.live.len() >= c.max_live;
        match o.code {
            CreateEmpty => {
                if full {
                    return Ok(false);
                }
                self.create(env)?;
            }
            CreateArch => {
                if full {
                    return Ok(false);
                }
                let set = subset(c, o.a);
                if set.is_empty() || !fits(&env.v, &set) {
                    return Ok(false);
                }
                let i = self.create_with(env, &set, o.b)?;
                if o.c % 4 != 3 {
                    self.init(env, i, o.c % 4 == 2)?;
                }
            }
            CloneArch => {
                let i = match self.pick_live(c, o.a) {
                    Some(i) if !full && !self.ents[i].comps.is_empty() => i,
                    _ => return Ok(false),
                };
                let set = self.ents[i].set();
                let n = self.create_with(env, &set, 1)?;
                self.init(env, n, false)?;
            }
            Destroy => match self.pick_live(c, o.a) {
                Some(i) => self.destroy(env, i)?,
                None => return Ok(false),
            },
            Add => {
                let (i, k) = match (self.pick_live(c, o.a), pick_of(&c.tups, o.b, c.strict)) {
                    (Some(i), Some(k)) => (i, k),
                    _ => return Ok(false),
                };
                return self.add(env, i, k);
            }
            AddEach => {
                // single-type additions of a subset, one by one
                let i = match self.pick_live(c, o.a) {
                    Some(i) => i,
                    None => return Ok(false),
                };
                for t in subset(c, o.b) {
                    self.add(env, i, t)?;
                }
            }
            Remove => {
                let (i, k) = match (self.pick_live(c, o.a), pick_of(&c.tups, o.b, c.strict)) {
                    (Some(i), Some(k)) => (i, k),
                    _ => return Ok(false),
                };
                self.remove(env, i, k)?;
            }
            RemoveAll => {
                // drop every component, by a tuple that covers the set if there is one, else singly
                let i = match self.pick_live(c, o.a) {
                    Some(i) if !self.ents[i].comps.is_empty() => i,
                    _ => return Ok(false),
                };
                let cover: Vec<usize> = env
                    .rel_tup
                    .iter()
                    .copied()
                    .filter(|&k| self.ents[i].comps.iter().all(|c| env.v.tups[k].types.contains(&c.0)))
                    .collect();
                if !cover.is_empty() && o.b & 1 == 0 {
                    self.remove(env, i, cover[(o.b >> 1) as usize % cover.len()])?;
                } else {
                    let mut ts = self.ents[i].set();
                    Rng::new(o.b as u64).shuffle(&mut ts);
                    for t in ts {
                        self.remove(env, i, t)?;
                    }
                }
            }
            WriteMut => {
                let (i, k) = match (self.pick_live(c, o.a), pick_of(&c.tups, o.b, c.strict)) {
                    (Some(i), Some(k)) => (i, k),
                    _ => return Ok(false),
                };
                return self.write_mut(env, i, k, o.c);
            }
            AddTag | RemoveTag => {
                let (i, t) = match (self.pick_live(c, o.a), pick_of(&c.tags, o.b, c.strict)) {
                    (Some(i), Some(t)) => (i, t),
                    _ => return Ok(false),
                };
                self.tag(env, i, t, o.code == AddTag)?;
            }
            OrdAppend | OrdNext | OrdPrev | OrdRemove => {
                let g = match pick_of(&c.groups, o.b, c.strict) {
                    Some(g) if !self.live.is_empty() => g,
                    _ => return Ok(false),
                };
                let want = o.code == OrdRemove;
                let tries = if c.strict { 1 } else { 8.min(self.live.len()) };
                let mut found = None;
                for d in 0..tries {
                    match self.pick_live(c, o.a.wrapping_add(d as u32)) {
                        Some(i) if (self.ents[i].groups >> g & 1 == 1) == want || (want && !c.strict && o.c % 5 == 0) => {
                            found = Some(i);
                            break;
                        }
                        _ => {}
                    }
                }
                let i = match found {
                    Some(i) => i,
                    None => return Ok(false),
                };
                match o.code {
                    OrdAppend => self.order_append(env, i, g)?,
                    OrdRemove => self.order_remove(env, i, g)?,
                    _ => {
                        let n = self.groups[g].len();
                        if n == 0 || (c.strict && o.c as usize >= n) {
                            return Ok(false);
                        }
                        // borders often
                        let p = match (c.strict, o.c & 3) {
                            (false, 0) => 0,
                            (false, 1) => n - 1,
                            (false, _) => (o.c >> 2) as usize % n,
                            _ => o.c as usize,
                        };
                        let anchor = self.groups[g][p];
                        self.order_insert(env, i, g, anchor, o.code == OrdNext)?
                    }
                }
            }
            QWrite | EWrite | OWrite => return crate::oracle::query_write(self, env, c, o),
            Probe => crate::oracle::probe(self, env, c, o, false)?,
            BulkCreate => {
                let set = subset(c, o.b);
                let room = c.max_live.saturating_sub(self.live.len());
                let n = (o.a as usize).min(room);
                let empty = o.c % 7 == 0;
                if n == 0 || (!empty && (set.is_empty() || !fits(&env.v, &set))) {
                    return Ok(false);
                }
                for k in 0..n {
                    if empty {
                        self.create(env)?;
                    } else {
                        let i = self.create_with(env, &set, 2 | (o.c & 1))?;
                        if o.c % 3 != 2 || k % 3 == 0 {
                            self.init(env, i, false)?;
                        }
                    }
                }
            }
            Everything => {
                // one entity gets or loses every tag and joins every group
                if self.live.is_empty() {
                    return Ok(false);
                }
                let i = self.live[o.a as usize % self.live.len()];
                for k in 0..c.tags.len() {
                    self.tag(env, i, c.tags[k], o.b % 4 > 0)?;
                }
                for k in 0..c.groups.len() {
                    let g = c.groups[k];
                    if self.ents[i].groups >> g & 1 == 0 {
                        self.order_append(env, i, g)?;
                    }
                }
            }
            BulkArch => {
                // many entities of many sets of types
                let n = (o.a as usize).min(c.max_live.saturating_sub(self.live.len()));
                if n == 0 || c.types.is_empty() {
                    return Ok(false);
                }
                for k in 0..n {
                    let m = mix((o.b as u64) << 32 | k as u64) & if o.c & 3 == 0 { mix(!k as u64) } else { !0 };
                    let set: Vec<usize> = c.types.iter().enumerate().filter(|(p, _)| m >> (p % 60) & 1 == 1).map(|(_, &t)| t).collect();
                    if set.is_empty() || !fits(&env.v, &set) {
                        continue;
                    }
                    let i = self.create_with(env, &set, 2 | (k as u32 & 1))?;
                    if k % 4 != 3 {
                        let t = set[k % set.len()];
                        self.write_mut(env, i, t, 0)?;
                    }
                }
            }
            BulkDestroy => {
                let n = (o.a as usize).min(self.live.len());
                if n == 0 {
                    return Ok(false);
                }
                let mut r = Rng::new(o.c as u64);
                for _ in 0..n {
                    let l = self.live.len();
                    let i = match o.b % 4 {
                        0 => self.live[l - 1],
                        1 => self.live[0],
                        2 => self.live[r.below(l)],
                        _ => {
                            // newest handles first
                            let m = l.min(8);
                            *self.live[l - m..].iter().max().unwrap()
                        }
                    };
                    self.destroy(env, i)?;
                }
            }
            Drain => {
                if self.live.is_empty() {
                    return Ok(false);
                }
                let mut all = self.live.clone();
                match o.a % 4 {
                    0 => {}
                    1 => all.reverse(),
                    2 => all.sort_unstable(),
                    _ => Rng::new(o.b as u64).shuffle(&mut all),
                }
                for i in all {
                    self.destroy(env, i)?;
                }
            }
            BulkAdd | BulkRemove => {
                let k = match pick_of(&c.tups, o.b, c.strict) {
                    Some(k) if !self.live.is_empty() => k,
                    _ => return Ok(false),
                };
                let l = self.live.len();
                let n = ((o.a & !TAIL) as usize).min(l);
                for d in 0..n {
                    let i = self.live[if o.a & TAIL != 0 { l - 1 - d } else { (o.c as usize + d) % l }];
                    if o.code == BulkAdd {
                        self.add(env, i, k)?;
                    } else {
                        self.remove(env, i, k)?;
                    }
                }
            }
            BulkTag => {
                let t = match pick_of(&c.tags, o.b, c.strict) {
                    Some(t) if !self.live.is_empty() => t,
                    _ => return Ok(false),
                };
                let l = self.live.len();
                let n = ((o.a & !TAIL) as usize).min(l);
                let stride = 1 + (o.c >> 1) as usize % 40;
                for d in 0..n {
                    let i = self.live[if o.a & TAIL != 0 { l - 1 - d } else { (o.c as usize + d * stride) % l }];
                    self.tag(env, i, t, o.c & 1 == 0)?;
                }
            }
            BulkOrder => {
                let g = match pick_of(&c.groups, o.b, c.strict) {
                    Some(g) if !self.live.is_empty() => g,
                    _ => return Ok(false),
                };
                let l = self.live.len();
                let n = ((o.a & !TAIL) as usize).min(l);
                let mut r = Rng::new(o.c as u64);
                let mut idx: Vec<usize> = (0..l).collect();
                if o.a & TAIL != 0 {
                    idx.reverse();
                } else if o.c & 1 == 1 {
                    r.shuffle(&mut idx);
                } else if o.c & 2 == 2 {
                    idx.sort_by_key(|&p| self.live[p]);
                }
                idx.truncate(n);
                let picked: Vec<usize> = idx.iter().map(|&p| self.live[p]).collect();
                for i in picked {
                    let member = self.ents[i].groups >> g & 1 == 1;
                    if o.c % 5 == 4 {
                        if member {
                            self.order_remove(env, i, g)?;
                        }
                    } else if !member {
                        let m = self.groups[g].len();
                        if m == 0 || o.c & 12 != 12 {
                            self.order_append(env, i, g)?;
                        } else {
                            let anchor = self.groups[g][if m > 3000 && m % 64 != 0 { m - 1 } else { r.below(m) }];
                            self.order_insert(env, i, g, anchor, r.chance(1, 2))?;
                        }
                    }
                }
            }
            Reincarnate => {
                let n = o.a as usize;
                if full || n == 0 {
                    return Ok(false);
                }
                let set = subset(c, o.b);
                let with = o.c % 3 == 0 && !set.is_empty() && fits(&env.v, &set);
                let mut last = None;
                for k in 0..n {
                    let i = if with { self.create_with(env, &set, 2)? } else { self.create(env)? };
                    let h = self.ents[i].h;
                    if k % 64 == 1 && !c.tags.is_empty() {
                        self.tag(env, i, c.tags[k / 64 % c.tags.len()], true)?;
                    }
                    self.destroy(env, i)?;
                    // keep the tables small: only the last few stay listed
                    if k + 3 < n && k > 2 {
                        self.ents.pop();
                        self.pos.pop();
                        self.dead.pop();
                    }
                    if last == Some(h) {
                        return env.fail(bit(1), || format!("handle {h:?} issued twice in a row"));
                    }
                    last = Some(h);
                }
            }
            Misuse => return crate::oracle::misuse(self, env, c, o),
            Stale => return crate::oracle::stale(self, env, c, o),
            _ => return Ok(false),
        }
        Ok(true)
    }
    /// write a first value to every component of `i`
    pub fn init(&mut self, env: &mut Env, i: usize, only_some: bool) -> R {
        let ts = self.ents[i].set();
        for (n, t) in ts.into_iter().enumerate() {
            if only_some && n % 2 == 1 {
                continue;
            }
            self.write_mut(env, i, t, 0)?;
        }
        Ok(())
    }
}

fn pick_of(v: &[usize], b: u32, strict: bool) -> Option<usize> {
    if v.is_empty() || (strict && b as usize >= v.len()) {
        None
    } else {
        Some(v[b as usize % v.len()])
    }
}

/// the set of types a creation gives, from a number
pub fn subset(c: &Case, b: u32) -> Vec<usize> {
    if c.types.is_empty() {
        return vec![];
    }
    if c.strict {
        return c.types.iter().enumerate().filter(|(n, _)| b >> n & 1 == 1).map(|(_, t)| *t).collect();
    }
    subset_of(&c.types, b)
}
pub fn subset_of(types: &[usize], b: u32) -> Vec<usize> {
    let mut r = Rng::new(b as u64 % 97);
    let n = match r.below(6) {
        0 | 1 => 1,
        2 | 3 => r.range(1, 2.min(types.len())),
        4 => r.range(1, 4.min(types.len())),
        _ => r.range(1, types.len()),
    };
    let mut ts = types.to_vec();
    r.shuffle(&mut ts);
    ts.truncate(n);
    ts
}
