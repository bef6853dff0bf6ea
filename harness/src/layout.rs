//! C11: storage of very different shapes — sizes 0..16384, alignments 1..8192, alone and mixed.
use crate::rng::Rng;
use crate::run::{new_tally, Outcome, Tally};
use crate::types::mix;
use crate::world::*;
use crate::{alloc, crash, Args};
use division_ecs::*;

const OWN: u32 = bit(11);

pub struct LVt {
    pub size: usize,
    pub align: usize,
    ct: fn() -> ComponentType,
    add: fn(&mut Store, Entity, u64),
    remove: fn(&mut Store, Entity),
    get: fn(&Store, Entity) -> Option<*const u8>,
    get_mut: fn(&mut Store, Entity) -> Option<*mut u8>,
    query: fn(&Store) -> Vec<(Entity, *const u8)>,
}
fn fill(p: *mut u8, n: usize, stamp: u64) {
    let mut i = 0;
    let mut w = 0u64;
    while i < n {
        let x = mix(stamp ^ w << 40).to_le_bytes();
        let k = 8.min(n - i);
        unsafe { std::ptr::copy_nonoverlapping(x.as_ptr(), p.add(i), k) };
        i += k;
        w += 1;
    }
}
fn same(p: *const u8, n: usize, stamp: u64) -> bool {
    let mut i = 0;
    let mut w = 0u64;
    while i < n {
        let x = mix(stamp ^ w << 40).to_le_bytes();
        let k = 8.min(n - i);
        let s = unsafe { std::slice::from_raw_parts(p.add(i), k) };
        if s != &x[..k] {
            return false;
        }
        i += k;
        w += 1;
    }
    true
}
macro_rules! shapes { ($($name:ident $al:literal),*) => { $(
    #[repr(C, align($al))]
    #[derive(Clone, Copy)]
    struct $name<const N: usize>([u8; N]);
    impl<const N: usize> Component for $name<N> {}
)* } }
shapes!(P1 1, P2 2, P4 4, P8 8, P16 16, P32 32, P64 64, P128 128, P256 256, P512 512, P1024 1024, P2048 2048, P4096 4096, P8192 8192, P16384 16384, P32768 32768, P1048576 1048576);

fn vt<T: Component + 'static>() -> LVt
where
    T: ComponentTuple,
    for<'a> T: ComponentTuple<RefTuple<'a> = &'a T, MutRefTuple<'a> = &'a mut T>,
{
    LVt {
        size: std::mem::size_of::<T>(),
        align: std::mem::align_of::<T>(),
        ct: ComponentType::of::<T>,
        add: |s, e, st| {
            let mut v = std::mem::MaybeUninit::<T>::uninit();
            fill(v.as_mut_ptr() as *mut u8, std::mem::size_of::<T>(), st);
            s.add_components(e, unsafe { v.assume_init() });
        },
        remove: |s, e| s.remove_components::<T>(e),
        get: |s, e| s.get_components_refs::<T>(e).map(|r| r as *const T as *const u8),
        get_mut: |s, e| s.get_components_refs_mut::<T>(e).map(|r| r as *mut T as *mut u8),
        query: |s| {
            let mut q = query::component::readonly::<T>();
            let mut out = alloc::outside(Vec::new);
            for (e, r) in s.component_query_iter(&mut q).with_entities() {
                alloc::outside(|| out.push((e, r as *const T as *const u8)));
            }
            out
        },
    }
}
macro_rules! vts { ($($n:ident [$($k:literal)*])*) => { vec![$($(vt::<$n<$k>>()),*),*] } }
pub fn table() -> Vec<LVt> {
    vts!(
        P1 [0 1 2 3 5 6 7 9 13 31 100 255 546 585 682 819 910 1000 1020 1023 1085 1090 1091 1092 1170 1340 1360 1365 1638 1820 2047 2340 2730 3276 4095 5461 8191 8192 16383 16384]
        P2 [2 6 10 34 2002 8186]
        P4 [4 12 20 52 4100 16380]
        P8 [0 8 24 40 1016 8184 16376]
        P16 [16 48 80 2032 16368]
        P32 [32 96 4064]
        P64 [64 192 960 1024 1344 2048 8128 16320]
        P128 [128 384 1024 1280 2048 3968]
        P256 [256 768 1024 1280 2048 2560]
        P512 [512 1024 1536 2048 2560 7680 16384]
        P1024 [1024 2048 3072 15360]
        P2048 [2048 4096 6144]
        P4096 [4096 8192 12288]
        P8192 [0 8192 16384]
        P16384 [0 16384]
        P32768 [0 32768]
        P1048576 [0]
    )
}

/// every component fits an equal share of a page, alignment slack aside
fn must_accept(t: &[LVt], set: &[usize]) -> bool {
    let n = set.len();
    let share = PAGE / n;
    let mut total = 0;
    for &k in set {
        let slack = t[k].align.max(8) - 1;
        if t[k].size + slack > share {
            return false;
        }
        total += t[k].size + slack;
    }
    total <= PAGE
}
fn per_page(t: &[LVt], set: &[usize]) -> usize {
    let share = PAGE / set.len();
    set.iter().map(|&k| share / t[k].size.max(1)).min().unwrap_or(1).max(1)
}

#[derive(Clone, Debug)]
struct Pop {
    set: Vec<usize>,
    count: usize,
    /// 0: archetype, 1: one type after the other, 2: archetype of all but one, then add
    how: u8,
    /// what is destroyed afterwards: 0 none, 1 all, 2 every second, 3 the first half
    kill: u8,
    seed: u64,
}
#[derive(Clone, Debug)]
struct LCase {
    id: u64,
    prop: usize,
    cap: usize,
    pops: Vec<Pop>,
}
struct E {
    h: Entity,
    comps: Vec<(usize, u64)>,
}
struct W {
    s: Option<Store>,
    t: Vec<LVt>,
    live: Vec<E>,
    next: u64,
    refused: u64,
    pages: std::collections::HashSet<usize>,
    deep: bool,
}

impl W {
    fn audit(&mut self, env: &mut Env, all: bool, r: &mut Rng) -> R {
        if self.live.is_empty() {
            return Ok(());
        }
        let s = self.s.as_ref().unwrap();
        let n = self.live.len();
        let step = if all || n < 400 { 1 } else { 1 + n / 400 };
        let mut spans: Vec<(usize, usize, usize, usize)> = vec![];
        let mut i = if step > 1 { r.below(step) } else { 0 };
        while i < n {
            let e = &self.live[i];
            for &(k, st) in &e.comps {
                let vt = &self.t[k];
                let (get, h) = (vt.get, e.h);
                let p = env.call("get_components_refs", OWN, || get(s, h))?;
                env.checks += 1;
                let p = match p {
                    Some(p) => p,
                    None => {
                        return env.fail(OWN | bit(3), || format!("component of size {} align {} of {h:?} is not found", vt.size, vt.align))
                    }
                };
                if p as usize % vt.align != 0 {
                    return env.fail(OWN, || format!("component of {h:?} with size {} is at {p:?}: not aligned to {}", vt.size, vt.align));
                }
                crash::set(env.opno, "reading a component", OWN | bit(10));
                if !same(p, vt.size, st) {
                    return env.fail(OWN | bit(2), || format!("component of size {} align {} of {h:?} does not hold its value", vt.size, vt.align));
                }
                if vt.size > 0 {
                    spans.push((p as usize, vt.size, i, k));
                }
            }
            i += step;
        }
        spans.sort_unstable();
        for w in spans.windows(2) {
            env.checks += 1;
            if w[0].0 + w[0].1 > w[1].0 {
                let (a, b) = (self.live[w[0].2].h, self.live[w[1].2].h);
                return env.fail(OWN, || {
                    format!(
                        "component of size {} of {a:?} and component of size {} of {b:?} overlap by {} bytes",
                        w[0].1,
                        w[1].1,
                        w[0].0 + w[0].1 - w[1].0
                    )
                });
            }
        }
        if alloc::TRACKED {
            let blocks = alloc::blocks();
            for &(p, z, e, _) in &spans {
                env.checks += 1;
                let b = blocks.partition_point(|b| b.0 <= p);
                if b == 0 || p + z > blocks[b - 1].0 + blocks[b - 1].1 {
                    let h = self.live[e].h;
                    return env.fail(OWN, || format!("component of size {z} of {h:?} at {p:#x} is not inside a live allocation"));
                }
                self.pages.insert(blocks[b - 1].0);
            }
        }
        if self.deep && all {
            // the same addresses by way of queries
            let k = self.live[r.below(n)].comps[0].0;
            let q = self.t[k].query;
            let got = env.call("component_query_iter", OWN, || q(s))?;
            let want = self.live.iter().filter(|e| e.comps.iter().any(|c| c.0 == k)).count();
            env.checks += 1;
            if got.len() != want {
                return env.fail(OWN | bit(4), || format!("query of size {} yields {} items, expected {want}", self.t[k].size, got.len()));
            }
            for (h, p) in got {
                if p as usize % self.t[k].align != 0 {
                    return env.fail(OWN, || format!("query item of {h:?} at {p:?} is not aligned to {}", self.t[k].align));
                }
            }
        }
        Ok(())
    }
    /// a call that may be refused; refused: nothing else may have changed
    fn may_refuse(&mut self, env: &mut Env, set: &[usize], what: &'static str, r: Result<(), String>) -> R<bool> {
        match r {
            Ok(()) => Ok(true),
            Err(m) => {
                self.refused += 1;
                env.feat("refused");
                if must_accept(&self.t, set) {
                    let sh: Vec<(usize, usize)> = set.iter().map(|&k| (self.t[k].size, self.t[k].align)).collect();
                    return env.fail(OWN, || format!("{what}: the archetype of (size, align) {sh:?} fits but is refused: {m}"));
                }
                let mut r = Rng::new(self.next);
                self.audit(env, false, &mut r)?;
                Ok(false)
            }
        }
    }
    fn populate(&mut self, env: &mut Env, p: &Pop) -> R<bool> {
        let mut r = Rng::new(p.seed);
        for _ in 0..p.count {
            let mut comps: Vec<(usize, u64)> = vec![];
            let (mut first, mut rest): (Vec<usize>, Vec<usize>) = match p.how {
                0 => (p.set.clone(), vec![]),
                1 => (vec![], p.set.clone()),
                _ => {
                    let mut a = p.set.clone();
                    let b = a.pop().unwrap();
                    (a, vec![b])
                }
            };
            r.shuffle(&mut rest);
            let h;
            if first.is_empty() {
                let s = self.s.as_mut().unwrap();
                h = env.call("create_entity", CREATE | OWN, || s.create_entity())?;
            } else {
                r.shuffle(&mut first);
                let cts: Vec<ComponentType> = first.iter().map(|&k| (self.t[k].ct)()).collect();
                let a = env.call("ArchetypeBuilder", OWN | BUILD, || ArchetypeBuilder::new().include_component_types(&cts).build())?;
                let s = self.s.as_mut().unwrap();
                let x = env.try_call("create_entity_with_archetype", OWN, || s.create_entity_with_archetype(&a))?;
                drop(a);
                match x {
                    Ok(e) => h = e,
                    Err(m) => {
                        self.may_refuse(env, &first, "create_entity_with_archetype", Err(m))?;
                        return Ok(false);
                    }
                }
                for &k in &first {
                    self.next += 1;
                    let st = self.next;
                    let (get, size, al) = (self.t[k].get_mut, self.t[k].size, self.t[k].align);
                    let s = self.s.as_mut().unwrap();
                    let q = env.call("get_components_refs_mut", OWN, || get(s, h))?;
                    match q {
                        Some(q) => {
                            if q as usize % al != 0 {
                                return env.fail(OWN, || format!("mutable component reference of {h:?} at {q:?} is not aligned to {al}"));
                            }
                            crash::set(env.opno, "writing a component", OWN | bit(10));
                            fill(q, size, st)
                        }
                        None => return env.fail(OWN | bit(3), || format!("component of size {size} align {al} of fresh {h:?} is not found")),
                    }
                    comps.push((k, st));
                }
            }
            for &k in &rest {
                self.next += 1;
                let st = self.next;
                let add = self.t[k].add;
                let s = self.s.as_mut().unwrap();
                let x = env.try_call("add_components", OWN, || add(s, h, st))?;
                let mut set: Vec<usize> = comps.iter().map(|c| c.0).collect();
                set.push(k);
                match x {
                    Ok(()) => comps.push((k, st)),
                    Err(m) => {
                        if !comps.is_empty() {
                            self.live.push(E { h, comps: comps.clone() });
                        }
                        self.may_refuse(env, &set, "add_components", Err(m))?;
                        return Ok(false);
                    }
                }
            }
            self.live.push(E { h, comps });
        }
        Ok(true)
    }
}

fn run(env: &mut Env, c: &LCase, t: &mut Tally) -> Outcome {
    crash::set_case(c.id);
    let s = match env.call("Store::with_capacity", CREATE | OWN, || Store::with_capacity(c.cap)) {
        Ok(s) => s,
        Err(x) => return stop(x, 0),
    };
    let mut w = W { s: Some(s), t: table(), live: vec![], next: c.id << 20, refused: 0, pages: Default::default(), deep: true };
    for (n, p) in c.pops.iter().enumerate() {
        env.opno = n as u64;
        let mut r = Rng::new(p.seed ^ 1);
        let mut go = |env: &mut Env, w: &mut W| -> R {
            let from = w.live.len();
            let ok = w.populate(env, p)?;
            if ok {
                env.feat("accepted");
            }
            t.ops += (w.live.len() - from) as u64 * p.set.len() as u64;
            t.max_live = t.max_live.max(w.live.len());
            w.audit(env, true, &mut r)?;
            let mut sh = 1u64;
            let mut ss = p.set.clone();
            ss.sort_unstable();
            for k in &ss {
                sh = mix(sh ^ *k as u64);
            }
            t.states.insert(mix(sh ^ ok as u64));
            // one component away and back: a move between layouts
            if ok && p.set.len() > 1 && r.chance(1, 3) {
                for _ in 0..8.min(w.live.len()) {
                    let i = r.below(w.live.len());
                    if w.live[i].comps.len() < 2 {
                        continue;
                    }
                    let ci = r.below(w.live[i].comps.len());
                    let k = w.live[i].comps[ci].0;
                    let left: Vec<usize> = w.live[i].comps.iter().map(|c| c.0).filter(|x| *x != k).collect();
                    let (rm, h) = (w.t[k].remove, w.live[i].h);
                    let s = w.s.as_mut().unwrap();
                    let x = env.try_call("remove_components", OWN, || rm(s, h))?;
                    if x.is_ok() {
                        w.live[i].comps.remove(ci);
                    }
                    w.may_refuse(env, &left, "remove_components", x)?;
                }
                w.audit(env, true, &mut r)?;
            }
            let n = w.live.len();
            let mut keep = vec![];
            for (i, e) in std::mem::take(&mut w.live).into_iter().enumerate() {
                let kill = match p.kill {
                    0 => false,
                    1 => true,
                    2 => i % 2 == 0,
                    _ => i < n / 2,
                };
                if kill {
                    let s = w.s.as_mut().unwrap();
                    env.call("destroy_entity", DESTROY | OWN, || s.destroy_entity(e.h))?;
                } else {
                    keep.push(e);
                }
            }
            w.live = keep;
            w.audit(env, false, &mut r)
        };
        if let Err(x) = go(env, &mut w) {
            std::mem::forget(w);
            return stop(x, n);
        }
    }
    t.skipped += w.refused;
    *env.feats.entry("pages seen").or_insert(0) += w.pages.len() as u64;
    alloc::sweep();
    if let Err(x) = env.poll_alloc("end of the history") {
        std::mem::forget(w);
        return stop(x, c.pops.len());
    }
    let s = w.s.take().unwrap();
    match env.call("drop Store", bit(13), || drop(s)) {
        Ok(()) => Outcome::Done,
        Err(x) => stop(x, c.pops.len()),
    }
}
fn stop(s: Stop, op: usize) -> Outcome {
    match s {
        Stop::Viol(msg) => Outcome::Viol { op, msg },
        Stop::Cut(msg) => Outcome::Cut { op, msg },
    }
}

fn gen(t: &[LVt], prop: usize, seed: u64, id: u64) -> LCase {
    let mut r = Rng::new(mix(seed ^ 0x1A70) ^ mix(id));
    let r = &mut r;
    let mut pops = vec![];
    let tiny = cfg!(miri);
    for _ in 0..r.range(1, 6) {
        let mut set: Vec<usize> = vec![];
        let tight = r.chance(1, 3);
        let n = if tight { r.range(2, 10) } else { *r.pick(&[1usize, 1, 2, 2, 3, 4, 6, 10, 20]) };
        // mostly shapes that have a chance to fit together
        let limit = if r.chance(1, 4) { PAGE } else { PAGE / n };
        let mut cand: Vec<usize> = (0..t.len()).filter(|&k| t[k].size + t[k].align <= limit + 8).collect();
        if tight {
            // rows that nearly fill their share, so that the padding between them decides
            let (share, c) = (PAGE / n, r.range(1, 5));
            let full: Vec<usize> = (0..t.len())
                .filter(|&k| t[k].size > 0 && share / t[k].size == c && t[k].size * c * 100 >= share * 85)
                .collect();
            if full.len() >= n {
                cand = full;
            }
        }
        for i in 0..4 * n {
            if set.len() == n || (!tight && i == n) {
                break;
            }
            // an outlier now and then
            let k = if r.chance(1, 16) { r.below(t.len()) } else { *r.pick(&cand) };
            if !set.contains(&k) {
                set.push(k);
            }
        }
        let pp = per_page(t, &set);
        let m = match r.below(4) {
            0 => 1,
            1 => 2 * pp + 2,
            2 => pp + 1,
            _ => r.range(1, 2 * pp + 1),
        };
        let budget = if tiny { 6 } else { 24_000 / set.len() };
        let m = m.min(budget);
        pops.push(Pop { set, count: m, how: r.below(3) as u8, kill: r.below(4) as u8, seed: r.next() });
    }
    LCase { id, prop, cap: *r.pick(&[1usize, 3, 10, 64]), pops }
}
fn text(c: &LCase) -> String {
    let mut s = format!("mode layout\nprop {}\nid {}\ncap {}\n", c.prop, c.id, c.cap);
    let t = table();
    for p in &c.pops {
        let l: Vec<String> = p.set.iter().map(|k| k.to_string()).collect();
        let sh: Vec<(usize, usize)> = p.set.iter().map(|&k| (t[k].size, t[k].align)).collect();
        s += &format!("op {} {} {} {} {} # (size, align) {sh:?}\n", p.count, p.how, p.kill, p.seed, l.join(" "));
    }
    s
}
pub fn replay(txt: &str) -> Option<String> {
    let mut c = LCase { id: 0, prop: 11, cap: 1, pops: vec![] };
    for line in txt.lines() {
        let line = line.split('#').next().unwrap();
        let mut it = line.split_whitespace();
        let k = match it.next() {
            Some(k) => k,
            None => continue,
        };
        let n: Vec<u64> = it.filter_map(|x| x.parse().ok()).collect();
        match k {
            "prop" => c.prop = n[0] as usize,
            "id" => c.id = n[0],
            "cap" => c.cap = n[0] as usize,
            "op" => c.pops.push(Pop {
                count: n[0] as usize,
                how: n[1] as u8,
                kill: n[2] as u8,
                seed: n[3],
                set: n[4..].iter().map(|x| *x as usize).collect(),
            }),
            _ => {}
        }
    }
    let mut env = Env::new(c.prop);
    match run(&mut env, &c, &mut new_tally()) {
        Outcome::Viol { op, msg } => Some(format!("at population {op}: {msg}")),
        Outcome::Cut { op, msg } => {
            println!("CUT {op} {msg}");
            None
        }
        _ => None,
    }
}
pub fn main(a: &Args) {
    let mut env = Env::new(a.prop);
    let mut t = new_tally();
    let tab = table();
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs_f64(a.secs);
    let mut i = 0u64;
    while i < a.cases && std::time::Instant::now() < deadline {
        let id = i * a.shard.1 as u64 + a.shard.0 as u64;
        i += 1;
        if a.skip.contains(&id) || id < a.from {
            continue;
        }
        let c = gen(&tab, a.prop, a.seed, id);
        if let Some(d) = a.dump {
            if d == id {
                println!("{}", text(&c));
                return;
            }
            continue;
        }
        if a.announce {
            println!("CASE {id}");
        }
        t.cases += 1;
        if t.sample.is_none() {
            t.sample = Some(text(&c).replace('\n', "; "));
        }
        match run(&mut env, &c, &mut t) {
            Outcome::Viol { op, msg } => crate::report_violation(a, &text(&c), op, &msg),
            Outcome::Cut { msg, op } => crate::note_cut(&mut t, format!("case {id} population {op}: {msg}")),
            _ => {}
        }
    }
    if a.dump.is_none() {
        crate::summary(a, "layout", &env, &t, &[]);
    }
}
