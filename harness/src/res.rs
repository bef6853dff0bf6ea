//! Resource stores (C09; the same histories serve C10, C13, C14 and C19).
//! Every value carries a token; its `Drop` writes the token into a ledger, so
//! the ledger says for each value how often it was dropped.
use crate::rng::Rng;
use crate::run::{new_tally, Outcome, Tally};
use crate::types::mix;
use crate::world::*;
use crate::{alloc, crash, Args};
use division_ecs::{Entity, ResourceStore};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

thread_local! {
    static LEDGER: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static ZDROPS: RefCell<u64> = const { RefCell::new(0) };
}
fn new_tok() -> u32 {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        l.push(0);
        l.len() as u32 - 1
    })
}
fn log_drop(t: u32) {
    alloc::outside(|| {
        LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            match l.get_mut(t as usize) {
                Some(x) => *x = x.saturating_add(1),
                None => l.push(255), // a value that was never made
            }
        })
    })
}

/// the token of a value; logs its drop
pub struct Tok(u32);
impl Drop for Tok {
    fn drop(&mut self) {
        log_drop(self.0)
    }
}

pub trait Res: 'static {
    const NAME: &'static str;
    /// values carry no data (zero size): only counting is possible
    const BLIND: bool = false;
    fn make(stamp: u64) -> (Self, u32)
    where
        Self: Sized;
    fn stamp(&self) -> u64;
    fn set(&mut self, stamp: u64);
    fn tok(&self) -> u32;
}

struct Plain {
    v: u64,
    t: Tok,
}
impl Res for Plain {
    const NAME: &'static str = "plain";
    fn make(s: u64) -> (Self, u32) {
        let t = new_tok();
        (Plain { v: s, t: Tok(t) }, t)
    }
    fn stamp(&self) -> u64 {
        self.v
    }
    fn set(&mut self, s: u64) {
        self.v = s
    }
    fn tok(&self) -> u32 {
        self.t.0
    }
}
/// owns heap memory
struct Heap {
    s: String,
    b: Box<[u64; 5]>,
    t: Tok,
}
impl Res for Heap {
    const NAME: &'static str = "heap";
    fn make(s: u64) -> (Self, u32) {
        let t = new_tok();
        (Heap { s: s.to_string(), b: Box::new([s; 5]), t: Tok(t) }, t)
    }
    fn stamp(&self) -> u64 {
        let v: u64 = self.s.parse().unwrap_or(1);
        if self.b.iter().all(|x| *x == v) {
            v
        } else {
            2
        }
    }
    fn set(&mut self, s: u64) {
        self.s = s.to_string();
        *self.b = [s; 5];
    }
    fn tok(&self) -> u32 {
        self.t.0
    }
}
/// shared ownership: the count of strong references must fit as well
struct Shared {
    r: Rc<RefCell<u64>>,
    t: Tok,
}
impl Res for Shared {
    const NAME: &'static str = "shared";
    fn make(s: u64) -> (Self, u32) {
        let t = new_tok();
        (Shared { r: Rc::new(RefCell::new(s)), t: Tok(t) }, t)
    }
    fn stamp(&self) -> u64 {
        if Rc::strong_count(&self.r) != 1 {
            return 3;
        }
        *self.r.borrow()
    }
    fn set(&mut self, s: u64) {
        *self.r.borrow_mut() = s
    }
    fn tok(&self) -> u32 {
        self.t.0
    }
}
#[repr(align(64))]
struct Over {
    v: [u64; 3],
    t: Tok,
}
impl Res for Over {
    const NAME: &'static str = "align64";
    fn make(s: u64) -> (Self, u32) {
        let t = new_tok();
        (Over { v: [s, mix(s), s], t: Tok(t) }, t)
    }
    fn stamp(&self) -> u64 {
        if self as *const Over as usize % 64 != 0 {
            return 4;
        }
        if self.v[1] == mix(self.v[0]) && self.v[2] == self.v[0] {
            self.v[0]
        } else {
            5
        }
    }
    fn set(&mut self, s: u64) {
        self.v = [s, mix(s), s];
    }
    fn tok(&self) -> u32 {
        self.t.0
    }
}
struct Large {
    v: [u64; 300],
    t: Tok,
}
impl Res for Large {
    const NAME: &'static str = "large";
    fn make(s: u64) -> (Self, u32) {
        let t = new_tok();
        let mut v = [0; 300];
        for (i, x) in v.iter_mut().enumerate() {
            *x = s ^ (i as u64) << 32;
        }
        (Large { v, t: Tok(t) }, t)
    }
    fn stamp(&self) -> u64 {
        let s = self.v[0];
        if self.v.iter().enumerate().all(|(i, x)| *x == s ^ (i as u64) << 32) {
            s
        } else {
            6
        }
    }
    fn set(&mut self, s: u64) {
        for (i, x) in self.v.iter_mut().enumerate() {
            *x = s ^ (i as u64) << 32;
        }
    }
    fn tok(&self) -> u32 {
        self.t.0
    }
}
/// a store inside a store
struct Nest {
    inner: ResourceStore<Plain>,
    h: Entity,
    t: Tok,
}
impl Res for Nest {
    const NAME: &'static str = "nested";
    fn make(s: u64) -> (Self, u32) {
        let t = new_tok();
        let mut inner = ResourceStore::with_capacity(2);
        let (v, _) = Plain::make(s);
        let h = inner.create(v);
        (Nest { inner, h, t: Tok(t) }, t)
    }
    fn stamp(&self) -> u64 {
        self.inner[self.h].v
    }
    fn set(&mut self, s: u64) {
        self.inner[self.h].v = s
    }
    fn tok(&self) -> u32 {
        self.t.0
    }
}
/// zero size with a destructor: only the number of drops can be known
struct Zst;
impl Drop for Zst {
    fn drop(&mut self) {
        ZDROPS.with(|z| *z.borrow_mut() += 1)
    }
}
impl Res for Zst {
    const NAME: &'static str = "zero-size";
    const BLIND: bool = true;
    fn make(_s: u64) -> (Self, u32) {
        (Zst, 0)
    }
    fn stamp(&self) -> u64 {
        0
    }
    fn set(&mut self, _s: u64) {}
    fn tok(&self) -> u32 {
        0
    }
}
/// no destructor at all
struct Pod(u8);
impl Res for Pod {
    const NAME: &'static str = "pod";
    const BLIND: bool = true;
    fn make(s: u64) -> (Self, u32) {
        (Pod(s as u8), 0)
    }
    fn stamp(&self) -> u64 {
        self.0 as u64
    }
    fn set(&mut self, s: u64) {
        self.0 = s as u8
    }
    fn tok(&self) -> u32 {
        0
    }
}

pub const OPS: &[&str] = &[
    "Create", "ReleaseDrop", "ReleaseHold", "Set", "Replace", "SwapLocal", "Exchange", "Read", "DropHeld", "Move", "Misuse", "BurstCreate",
    "BurstRelease", "Churn", "Recreate", "Flood", "Recycle",
];
const W: &[u32] = &[26, 10, 8, 10, 6, 4, 4, 8, 3, 1, 0, 3, 2, 2, 1, 0, 0];

#[derive(Clone, Debug)]
pub struct RCase {
    pub id: u64,
    pub prop: usize,
    pub kind: usize,
    /// initial capacity; none: `new()`
    pub cap: Option<usize>,
    pub ops: Vec<(u8, u32, u32)>,
}
pub const NKINDS: usize = 8;

struct Slot {
    h: Entity,
    stamp: u64,
    tok: u32,
}
struct Rw<T: Res> {
    st: Option<ResourceStore<T>>,
    live: Vec<Slot>,
    dead: Vec<Entity>,
    held: Vec<(T, u64, u32)>,
    exp: Vec<u8>,
    made: u64,
    gone: u64,
    next: u64,
    issued: HashSet<u64>,
    ids: HashMap<u32, Entity>,
}
const OWN: u32 = bit(9);

impl<T: Res> Rw<T> {
    fn fresh(&mut self) -> (T, u64, u32) {
        self.next += 1;
        let s = if T::BLIND && T::NAME == "pod" { mix(self.next) & 255 } else if T::BLIND { 0 } else { self.next };
        let (v, t) = T::make(s);
        self.sync_exp();
        self.made += 1;
        (v, s, t)
    }
    fn sync_exp(&mut self) {
        let n = LEDGER.with(|l| l.borrow().len());
        // values made inside another value (nested) die with it: not followed one by one
        while self.exp.len() < n {
            self.exp.push(if T::NAME == "nested" { 9 } else { 0 });
        }
    }
    fn expect_drop(&mut self, tok: u32) {
        self.gone += 1;
        if !T::BLIND {
            self.exp[tok as usize] = 1;
        }
    }
    fn ledger(&self, env: &mut Env) -> R {
        env.checks += 1;
        if T::BLIND {
            if T::NAME == "zero-size" {
                let z = ZDROPS.with(|z| *z.borrow());
                if z != self.gone {
                    return env.fail(OWN, || format!("{z} values dropped, {} expected", self.gone));
                }
            }
            return Ok(());
        }
        LEDGER.with(|l| {
            let l = l.borrow();
            if T::NAME == "nested" {
                // outer tokens are marked 0/1, inner ones 9
                for (t, (x, e)) in l.iter().zip(&self.exp).enumerate() {
                    if *e != 9 && x != e {
                        return env.fail(OWN, || format!("value #{t} was dropped {x} times, expected {e}"));
                    }
                    if *e == 9 && *x > 1 {
                        return env.fail(OWN, || format!("inner value #{t} was dropped {x} times"));
                    }
                }
                return Ok(());
            }
            for (t, x) in l.iter().enumerate() {
                let e = self.exp.get(t).copied().unwrap_or(0);
                if *x != e {
                    return env.fail(OWN, || format!("value #{t} was dropped {x} times, expected {e}"));
                }
            }
            Ok(())
        })
    }
    fn s(&mut self) -> &mut ResourceStore<T> {
        self.st.as_mut().unwrap()
    }
    fn new_handle(&mut self, env: &mut Env, h: Entity, s: u64, t: u32) -> R {
        if let Some(oh) = self.ids.insert(h.id(), h) {
            return env.fail(OWN, || format!("new resource handle {h:?} shares its id with live {oh:?}"));
        }
        if !self.issued.insert((h.id() as u64) << 32 | h.version() as u64) {
            return env.fail(OWN, || format!("resource handle {h:?} was issued before"));
        }
        self.live.push(Slot { h, stamp: s, tok: t });
        Ok(())
    }
    fn create(&mut self, env: &mut Env) -> R {
        let (v, s, t) = self.fresh();
        if T::NAME == "nested" {
            self.exp[t as usize] = 0;
        }
        let st = self.st.as_mut().unwrap();
        let h = env.call("ResourceStore::create", OWN, || st.create(v))?;
        self.new_handle(env, h, s, t)
    }
    fn check_val(&self, env: &mut Env, v: &T, s: u64, t: u32, what: &str) -> R {
        crash::set(env.opno, "reading a resource", OWN | bit(10));
        env.checks += 1;
        if v.stamp() != s || v.tok() != t {
            let (a, b) = (v.stamp(), v.tok());
            return env.fail(OWN, || format!("{what}: value #{b} with contents {a}, expected #{t} with {s}"));
        }
        Ok(())
    }
    fn release(&mut self, env: &mut Env, p: usize, hold: bool) -> R {
        let Slot { h, stamp, tok } = self.live.swap_remove(p);
        self.ids.remove(&h.id());
        let st = self.st.as_mut().unwrap();
        let v = env.call("ResourceStore::release", OWN, || st.release(h))?;
        self.check_val(env, &v, stamp, tok, "released")?;
        self.dead.push(h);
        if hold {
            self.held.push((v, stamp, tok));
        } else {
            drop(v);
            self.expect_drop(tok);
        }
        Ok(())
    }
    fn read_all(&mut self, env: &mut Env) -> R {
        for p in 0..self.live.len() {
            let (h, s, t) = (self.live[p].h, self.live[p].stamp, self.live[p].tok);
            let st = self.st.as_ref().unwrap();
            let v = env.call("ResourceStore::index", OWN, || &st[h])?;
            let v: &T = unsafe { &*(v as *const T) };
            self.check_val(env, v, s, t, "indexed")?;
        }
        for p in 0..self.held.len() {
            let (v, s, t) = &self.held[p];
            let (v, s, t): (&T, u64, u32) = (unsafe { &*(v as *const T) }, *s, *t);
            self.check_val(env, v, s, t, "held by the caller")?;
        }
        self.ledger(env)
    }
    fn state(&mut self, env: &mut Env) -> R<Vec<u64>> {
        let mut out = vec![];
        for p in 0..self.live.len() {
            let h = self.live[p].h;
            let st = self.st.as_ref().unwrap();
            let v = env.call("ResourceStore::index", OWN, || &st[h])?;
            out.push(mix(v.stamp() ^ (h.id() as u64) << 32 ^ (h.version() as u64) << 50));
        }
        Ok(out)
    }

    fn step(&mut self, env: &mut Env, o: (u8, u32, u32)) -> R<bool> {
        let n = self.live.len();
        let at = if n > 0 { o.1 as usize % n } else { 0 };
        match OPS[o.0 as usize] {
            "Create" => self.create(env)?,
            "BurstCreate" => {
                for _ in 0..o.1 % 90 {
                    self.create(env)?
                }
            }
            "BurstRelease" => {
                for k in 0..(o.1 as usize % 60).min(n) {
                    let m = self.live.len();
                    let p = match o.2 % 3 {
                        0 => m - 1,
                        1 => 0,
                        _ => mix((o.2 as u64) ^ k as u64) as usize % m,
                    };
                    self.release(env, p, k % 5 == 0)?
                }
            }
            "Churn" => {
                for _ in 0..o.1 % 300 {
                    self.create(env)?;
                    let m = self.live.len();
                    self.release(env, m - 1, false)?;
                }
            }
            "Flood" => {
                // more handles than 16 bits count, then some of them released again
                for _ in 0..66_000 + o.1 % 5000 {
                    self.create(env)?
                }
                for k in 0..(o.2 as usize % 70_000).min(self.live.len()) {
                    let m = self.live.len();
                    let p = match o.2 % 3 {
                        0 => m - 1,
                        1 => 0,
                        _ => mix((o.2 as u64) ^ k as u64) as usize % m,
                    };
                    self.release(env, p, false)?
                }
                env.feat("resource flood");
            }
            "Recycle" => {
                // one id over and over
                for _ in 0..66_000 + o.1 % 5000 {
                    self.create(env)?;
                    let m = self.live.len();
                    self.release(env, m - 1, false)?;
                    let d = self.dead.len();
                    if d > 400 {
                        self.dead.swap_remove(d / 2);
                    }
                }
                env.feat("resource recycling");
            }
            "ReleaseDrop" | "ReleaseHold" if n > 0 => self.release(env, at, OPS[o.0 as usize] == "ReleaseHold")?,
            "Set" if n > 0 => {
                let h = self.live[at].h;
                self.next += 1;
                let s = if T::NAME == "pod" { mix(self.next) & 255 } else if T::BLIND { 0 } else { self.next };
                let st = self.st.as_mut().unwrap();
                let v = env.call("ResourceStore::index_mut", OWN, || &mut st[h])?;
                crash::set(env.opno, "writing a resource", OWN | bit(10));
                v.set(s);
                self.live[at].stamp = s;
            }
            "Replace" if n > 0 => {
                // assignment drops the old value
                let (v, s, t) = self.fresh();
                if T::NAME == "nested" {
                    self.exp[t as usize] = 0;
                }
                let h = self.live[at].h;
                let old = self.live[at].tok;
                let st = self.st.as_mut().unwrap();
                let r = env.call("ResourceStore::index_mut", OWN, || &mut st[h])?;
                *r = v;
                self.live[at].stamp = s;
                self.live[at].tok = t;
                self.expect_drop(old);
            }
            "SwapLocal" if n > 0 => {
                let (mut v, s, t) = self.fresh();
                if T::NAME == "nested" {
                    self.exp[t as usize] = 0;
                }
                let h = self.live[at].h;
                let st = self.st.as_mut().unwrap();
                let r = env.call("ResourceStore::index_mut", OWN, || &mut st[h])?;
                std::mem::swap(r, &mut v);
                let (os, ot) = (self.live[at].stamp, self.live[at].tok);
                self.live[at].stamp = s;
                self.live[at].tok = t;
                self.held.push((v, os, ot));
            }
            "Exchange" if n > 1 => {
                // exchange the values of two handles by way of a held one
                let b = (at + 1 + o.2 as usize % (n - 1)) % n;
                let (mut v, s, t) = self.fresh();
                if T::NAME == "nested" {
                    self.exp[t as usize] = 0;
                }
                let (ha, hb) = (self.live[at].h, self.live[b].h);
                let st = self.st.as_mut().unwrap();
                let r = env.call("ResourceStore::index_mut", OWN, || &mut st[ha])?;
                std::mem::swap(r, &mut v);
                let st = self.st.as_mut().unwrap();
                let r = env.call("ResourceStore::index_mut", OWN, || &mut st[hb])?;
                std::mem::swap(r, &mut v);
                let (sa, ta) = (self.live[at].stamp, self.live[at].tok);
                let (sb, tb) = (self.live[b].stamp, self.live[b].tok);
                self.live[at].stamp = s;
                self.live[at].tok = t;
                self.live[b].stamp = sa;
                self.live[b].tok = ta;
                self.held.push((v, sb, tb));
            }
            "Read" => self.read_all(env)?,
            "DropHeld" if !self.held.is_empty() => {
                let p = o.1 as usize % self.held.len();
                let (v, s, t) = self.held.swap_remove(p);
                self.check_val(env, &v, s, t, "held by the caller")?;
                drop(v);
                self.expect_drop(t);
            }
            "Move" => {
                // the store itself moves in memory
                let b = Box::new(self.st.take().unwrap());
                let v: Vec<Box<ResourceStore<T>>> = vec![b];
                self.st = Some(*v.into_iter().next().unwrap());
            }
            "Recreate" => {
                // drop the store in whatever state it is, and begin another
                self.finish(env)?;
                self.st = Some(open(env, if o.1 % 4 == 0 { None } else { Some(o.2 as usize % 6) })?);
                self.issued.clear();
            }
            "Misuse" => return self.misuse(env, o),
            _ => return Ok(false),
        }
        Ok(true)
    }
    #[cfg(not(debug_assertions))]
    fn misuse(&mut self, _env: &mut Env, _o: (u8, u32, u32)) -> R<bool> {
        Ok(false)
    }
    #[cfg(debug_assertions)]
    fn misuse(&mut self, env: &mut Env, o: (u8, u32, u32)) -> R<bool> {
        let mine = bit(14);
        let cand: Vec<Entity> = if o.2 % 4 == 3 || self.dead.is_empty() {
            // the null handle: an id the store never had
            vec![Entity::null()]
        } else {
            vec![self.dead[o.1 as usize % self.dead.len()]]
        };
        let h = cand[0];
        if self.live.iter().any(|s| s.h == h) {
            return Ok(false);
        }
        let before = self.state(env)?;
        let st = self.st.as_mut().unwrap();
        let (what, r) = match o.2 / 4 % 3 {
            0 => ("indexing", env.try_call("ResourceStore::index (dead)", mine, || {
                let _ = &st[h];
            })?),
            1 => ("mutably indexing", env.try_call("ResourceStore::index_mut (dead)", mine, || {
                let _ = &mut st[h];
            })?),
            _ => ("releasing", env.try_call("ResourceStore::release (dead)", mine, || {
                std::mem::forget(st.release(h));
            })?),
        };
        env.feat("resource misuse");
        env.checks += 1;
        if r.is_ok() {
            return env.fail(mine, || format!("{what} the dead resource handle {h:?} did not panic"));
        }
        let after = self.state(env)?;
        if before != after {
            return env.fail(mine, || format!("{what} the dead resource handle {h:?} changed a live resource"));
        }
        if env.prop == 14 {
            // the ledger speaks for dropped values
            let save = env.prop;
            env.prop = 9;
            let r = self.ledger(env);
            env.prop = save;
            if let Err(Stop::Viol(m)) = r {
                return env.fail(mine, || format!("after {what} a dead resource handle: {m}"));
            }
        }
        Ok(true)
    }
    fn finish(&mut self, env: &mut Env) -> R {
        if let Some(s) = self.st.take() {
            env.call("drop ResourceStore", OWN | bit(13), || drop(s))?;
            let l = std::mem::take(&mut self.live);
            self.ids.clear();
            for x in l {
                self.expect_drop(x.tok);
            }
            self.dead.clear();
            self.ledger(env)?;
        }
        Ok(())
    }
}

fn open<T: Res>(env: &mut Env, cap: Option<usize>) -> R<ResourceStore<T>> {
    match cap {
        None => env.call("ResourceStore::new", OWN, ResourceStore::<T>::new),
        Some(c) => env.call("ResourceStore::with_capacity", OWN, || ResourceStore::<T>::with_capacity(c)),
    }
}

fn run_t<T: Res>(env: &mut Env, c: &RCase, t: &mut Tally) -> Outcome {
    crash::set_case(c.id);
    env.opno = 0;
    LEDGER.with(|l| l.borrow_mut().clear());
    ZDROPS.with(|l| *l.borrow_mut() = 0);
    let mem0 = alloc::stats();
    let st = match open::<T>(env, c.cap) {
        Ok(s) => s,
        Err(s) => return stop(s, 0),
    };
    let mut w = Rw::<T> {
        st: Some(st),
        live: vec![],
        dead: vec![],
        held: vec![],
        exp: vec![],
        made: 0,
        gone: 0,
        next: 0,
        issued: HashSet::new(),
        ids: HashMap::new(),
    };
    for (n, o) in c.ops.iter().enumerate() {
        env.opno = n as u64;
        let r = w.step(env, *o);
        match r {
            Ok(true) => t.ops += 1,
            Ok(false) => t.skipped += 1,
            Err(s) => {
                std::mem::forget(w);
                return stop(s, n);
            }
        }
        t.max_live = t.max_live.max(w.live.len());
        if n % 16 == 15 {
            if !w.live.is_empty() && t.states.len() < 150_000 {
                let mut h = mix(c.kind as u64);
                for s in &w.live {
                    h = mix(h ^ (s.h.id() as u64) << 8 ^ (s.tok as u64) << 32 ^ s.stamp);
                }
                t.states.insert(h);
            }
            if let Err(s) = w.ledger(env) {
                std::mem::forget(w);
                return stop(s, n);
            }
        }
        if env.trace.is_some() && n % 8 == 7 {
            match w.state(env) {
                Ok(v) => {
                    let mut d = v.len() as u64;
                    for x in v {
                        d = mix(d ^ x);
                    }
                    env.trace.as_mut().unwrap().push(d);
                }
                Err(s) => {
                    std::mem::forget(w);
                    return stop(s, n);
                }
            }
        }
    }
    let n = c.ops.len();
    let r = w.read_all(env).and_then(|_| w.finish(env));
    if let Err(s) = r {
        std::mem::forget(w);
        return stop(s, n);
    }
    // what the caller still holds stays valid after the store is gone
    let r = w.read_all(env);
    if let Err(s) = r {
        std::mem::forget(w);
        return stop(s, n);
    }
    while let Some((v, _, tok)) = w.held.pop() {
        drop(v);
        w.expect_drop(tok);
    }
    if let Err(s) = w.ledger(env) {
        std::mem::forget(w);
        return stop(s, n);
    }
    drop(w);
    if let Err(s) = env.poll_alloc("end of the history") {
        return stop(s, n);
    }
    if env.prop == 13 && alloc::TRACKED && T::NAME != "nested" {
        env.checks += 1;
        let m = alloc::stats();
        if m.live_blocks != mem0.live_blocks || m.live_bytes != mem0.live_bytes {
            return Outcome::Viol {
                op: n,
                msg: format!(
                    "after dropping the resource store {} blocks / {} bytes are still allocated",
                    m.live_blocks as i64 - mem0.live_blocks as i64,
                    m.live_bytes as i64 - mem0.live_bytes as i64
                ),
            };
        }
    }
    Outcome::Done
}
fn stop(s: Stop, op: usize) -> Outcome {
    match s {
        Stop::Viol(msg) => Outcome::Viol { op, msg },
        Stop::Cut(msg) => Outcome::Cut { op, msg },
    }
}

/// bounded footprint while one population is cycled (C13)
fn cycles(env: &mut Env, t: &mut Tally) -> Outcome {
    if !alloc::TRACKED {
        return Outcome::Done;
    }
    for cap in [None, Some(1usize), Some(8)] {
        let base = alloc::stats().live_bytes;
        let mut st = match open::<Plain>(env, cap) {
            Ok(s) => s,
            Err(s) => return stop(s, 0),
        };
        let mut peaks = vec![];
        for k in 0..256 {
            let mut hs = vec![];
            for _ in 0..20 {
                let (v, _) = Plain::make(k);
                match env.call("ResourceStore::create", OWN, || st.create(v)) {
                    Ok(h) => hs.push(h),
                    Err(s) => return stop(s, 0),
                }
            }
            let mut r = Rng::new(k);
            r.shuffle(&mut hs);
            peaks.push(alloc::stats().live_bytes - base);
            for h in hs {
                match env.call("ResourceStore::release", OWN, || st.release(h)) {
                    Ok(v) => drop(v),
                    Err(s) => return stop(s, 0),
                }
                t.ops += 1;
            }
        }
        env.checks += 1;
        let a = *peaks[..128].iter().max().unwrap();
        let b = *peaks[128..].iter().max().unwrap();
        if b > a {
            return Outcome::Viol { op: 0, msg: format!("resource store footprint keeps growing under equal cycles: {a} then {b} bytes") };
        }
        if let Err(s) = env.call("drop ResourceStore", OWN | bit(13), || drop(st)) {
            return stop(s, 0);
        }
    }
    Outcome::Done
}

pub fn run_case(env: &mut Env, c: &RCase, t: &mut Tally) -> Outcome {
    match c.kind {
        0 => run_t::<Plain>(env, c, t),
        1 => run_t::<Heap>(env, c, t),
        2 => run_t::<Shared>(env, c, t),
        3 => run_t::<Over>(env, c, t),
        4 => run_t::<Zst>(env, c, t),
        5 => run_t::<Nest>(env, c, t),
        6 => run_t::<Pod>(env, c, t),
        _ => run_t::<Large>(env, c, t),
    }
}

fn gen(prop: usize, seed: u64, id: u64) -> RCase {
    let mut r = Rng::new(mix(seed ^ 0x9E5) ^ mix(id));
    let kind = (id % NKINDS as u64) as usize;
    let cap = match r.below(6) {
        0 => None,
        1 => Some(0),
        2 => Some(1),
        3 => Some(r.range(2, 9)),
        4 => Some(*r.pick(&[31usize, 32, 33, 64])),
        _ => Some(r.range(1, 40)),
    };
    let mut w = W.to_vec();
    if prop == 14 {
        w[10] = 25;
    }
    if r.chance(1, 3) {
        for x in w.iter_mut() {
            match r.below(5) {
                0 => *x /= 4,
                1 => *x *= 3,
                _ => {}
            }
        }
        w[0] += 5;
    }
    let n = *r.pick(&[6usize, 20, 60, 120, 300]);
    let n = if cfg!(miri) { n.min(40) } else { n };
    let mut ops = vec![];
    let mut phase = 0;
    for k in 0..n {
        if k % 25 == 0 {
            phase = if k == 0 { 0 } else { r.below(3) };
        }
        let mut code = r.weighted(&w) as u8;
        if cfg!(miri) && code >= 11 {
            code = 0;
        }
        if phase == 0 && code == 1 {
            code = 0;
        }
        if phase == 2 && code == 0 {
            code = 1;
        }
        ops.push((code, r.u32(), r.u32()));
    }
    if !cfg!(miri) && r.chance(1, if prop == 10 || prop == 19 { 1500 } else { 400 }) {
        let what = *r.pick(&["Flood", "Recycle"]);
        let code = OPS.iter().position(|o| *o == what).unwrap() as u8;
        ops.truncate(40);
        let at = r.below(ops.len() + 1);
        ops.insert(at, (code, r.u32(), r.u32()));
    }
    RCase { id, prop, kind, cap, ops }
}

fn text(c: &RCase) -> String {
    let mut s = format!(
        "mode res\nprop {}\nid {}\nkind {}\ncap {}\n",
        c.prop,
        c.id,
        c.kind,
        c.cap.map(|c| c as i64).unwrap_or(-1)
    );
    for o in &c.ops {
        s += &format!("op {} {} {} # {}\n", o.0, o.1, o.2, OPS[o.0 as usize]);
    }
    s
}
fn parse(t: &str) -> RCase {
    let mut c = RCase { id: 0, prop: 9, kind: 0, cap: None, ops: vec![] };
    for line in t.lines() {
        let line = line.split('#').next().unwrap();
        let mut it = line.split_whitespace();
        let k = match it.next() {
            Some(k) => k,
            None => continue,
        };
        let n: Vec<i64> = it.filter_map(|x| x.parse().ok()).collect();
        match k {
            "prop" => c.prop = n[0] as usize,
            "id" => c.id = n[0] as u64,
            "kind" => c.kind = n[0] as usize,
            "cap" => c.cap = if n[0] < 0 { None } else { Some(n[0] as usize) },
            "op" => c.ops.push((n[0] as u8, n[1] as u32, n[2] as u32)),
            _ => {}
        }
    }
    c
}
pub fn replay(t: &str) -> Option<String> {
    let c = parse(t);
    let mut env = Env::new(c.prop);
    if c.prop == 19 {
        env.trace = Some(vec![]);
    }
    let mut ta = new_tally();
    let o = if c.ops.is_empty() && c.prop == 13 { cycles(&mut env, &mut ta) } else { run_case(&mut env, &c, &mut ta) };
    if c.prop == 19 {
        let mut tr = env.trace.take().unwrap();
        if let Outcome::Cut { op, .. } = &o {
            tr.push(0xC000_0000_0000_0000 | *op as u64);
        }
        let s: Vec<String> = tr.iter().map(|d| format!("{d:x}")).collect();
        println!("TRACE {}", s.join(" "));
    }
    match o {
        Outcome::Viol { op, msg } => Some(format!("at operation {op}: {msg}")),
        Outcome::Cut { op, msg } => {
            println!("CUT {op} {msg}");
            None
        }
        _ => None,
    }
}

pub fn main(a: &Args) {
    let mut env = Env::new(a.prop);
    let mut t = new_tally();
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs_f64(a.secs);
    let mut i = 0u64;
    let mut kinds = [0u64; NKINDS];
    let mut traces: Vec<(u64, Vec<u64>)> = vec![];
    if a.prop == 13 && a.dump.is_none() {
        crash::set_case(u64::MAX);
        match cycles(&mut env, &mut t) {
            Outcome::Viol { op, msg } => {
                crate::report_violation(a, "mode res\nprop 13\nkind 0\ncap -1\n", op, &msg)
            }
            Outcome::Cut { msg, .. } => crate::note_cut(&mut t, msg),
            _ => {}
        }
        t.cases += 1;
    }
    while i < a.cases && std::time::Instant::now() < deadline {
        let id = i * a.shard.1 as u64 + a.shard.0 as u64;
        i += 1;
        if a.skip.contains(&id) || id < a.from {
            traces.push((id, vec![0xDEAD]));
            continue;
        }
        let c = gen(a.prop, a.seed, id);
        if let Some(d) = a.dump {
            if d == id {
                println!("{}", text(&c));
                return;
            }
            continue;
        }
        if a.announce {
            println!("CASE {id}");
        }
        t.cases += 1;
        kinds[c.kind] += 1;
        if t.sample.is_none() && c.ops.len() < 70 {
            let ops: Vec<String> = c.ops.iter().take(24).map(|o| format!("{}({},{})", OPS[o.0 as usize], o.1 % 1000, o.2 % 1000)).collect();
            t.sample = Some(format!("resource store of kind {} cap {:?}: {}", c.kind, c.cap, ops.join(" ")));
        }
        if a.prop == 19 {
            env.trace = Some(vec![]);
        }
        let o = run_case(&mut env, &c, &mut t);
        if a.prop == 19 {
            let mut tr = env.trace.take().unwrap();
            if let Outcome::Cut { op, .. } = &o {
                tr.push(0xC000_0000_0000_0000 | *op as u64);
            }
            traces.push((id, tr));
        }
        match o {
            Outcome::Viol { op, msg } => crate::report_violation(a, &text(&c), op, &msg),
            Outcome::Cut { msg, op } => crate::note_cut(&mut t, format!("case {id} op {op}: {msg}")),
            _ => {}
        }
    }
    if a.dump.is_some() {
        return;
    }
    if a.prop == 19 && !cfg!(miri) {
        let mut s = String::new();
        for (id, tr) in &traces {
            s += &format!("{id}");
            for d in tr {
                s += &format!(" {d:x}");
            }
            s += "\n";
        }
        std::fs::write(format!("{}/restrace-{}-{}.txt", a.out, a.variant, a.shard.0), s).unwrap();
    }
    crate::summary(a, "res", &env, &t, &[("kinds", format!("{kinds:?}"))]);
}
