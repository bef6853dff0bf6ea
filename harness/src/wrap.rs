//! Exactly 256 or 65,536 changes of one kind between two looks at a store: a
//! narrow change counter is then where it was.
use crate::rng::Rng;
use crate::run::{new_tally, Outcome, Tally};
use crate::types::mix;
use crate::world::*;
use crate::{alloc, crash, Args};
use division_ecs::*;

#[derive(Component, Clone, Copy, PartialEq, Debug)]
struct A(u32);
#[derive(Component, Clone, Copy, PartialEq, Debug)]
struct B(u64);
#[derive(Tag)]
struct Mark;
#[derive(Tag)]
struct Line;

#[derive(Clone)]
struct Ent {
    e: Entity,
    a: u32,
    b: Option<u64>,
    marked: bool,
}
struct World {
    s: Store,
    es: Vec<Ent>,
    /// positions in `es`, in group order; always a run of the last ones
    line: Vec<usize>,
    dead: Vec<Entity>,
    qa: query::component::ComponentReadOnlyQuery<A>,
    qab: query::component::ComponentReadOnlyQuery<(B, A)>,
    qw: query::component::ComponentWriteQuery<A>,
    ql: EntityComponentReadOnlyQuery<A>,
    qlb: EntityComponentReadOnlyQuery<B>,
    qo: ReadonlyOrderedComponentQuery<Line, A>,
    qob: ReadonlyOrderedComponentQuery<Line, B>,
    next: u32,
}
pub const KINDS: &[&str] = &[
    "create", "destroy", "add", "remove", "rewrite", "mark", "unmark", "append", "leave", "create and destroy", "add and remove", "remove and add",
    "mark and unmark", "append and leave", "write through references", "queries", "create with archetype", "two of a kind",
];

impl World {
    fn value(&mut self) -> u32 {
        self.next = self.next.wrapping_mul(0x9E37_79B1).wrapping_add(0x7F4A_7C15);
        self.next
    }
    fn create(&mut self, with: bool) {
        let a = self.value();
        let e = if with {
            let arch = Archetype::with_components::<A>();
            let e = self.s.create_entity_with_archetype(&arch);
            self.s.get_components_refs_mut::<A>(e).unwrap().0 = a;
            e
        } else {
            let e = self.s.create_entity();
            self.s.add_components(e, A(a));
            e
        };
        alloc::outside(|| self.es.push(Ent { e, a, b: None, marked: false }));
    }
    fn destroy(&mut self) {
        if let Some(x) = alloc::outside(|| self.es.pop()) {
            if self.line.last() == Some(&self.es.len()) {
                alloc::outside(|| self.line.pop());
            }
            self.s.destroy_entity(x.e);
            alloc::outside(|| self.dead.push(x.e));
        }
    }
    /// the k-th operation of a kind; whether it changed what it is to change
    fn step(&mut self, kind: usize, k: usize) {
        let n = self.es.len();
        let i = if n > 0 { n - 1 - k % n } else { 0 };
        match KINDS[kind] {
            "create" => self.create(false),
            "create with archetype" => self.create(true),
            "destroy" => self.destroy(),
            "create and destroy" => {
                self.create(k % 2 == 0);
                self.destroy();
            }
            _ if n == 0 => {}
            "add" => {
                let b = self.value() as u64;
                self.s.add_components(self.es[i].e, B(b));
                self.es[i].b = Some(b);
            }
            "remove" => {
                self.s.remove_components::<B>(self.es[i].e);
                self.es[i].b = None;
            }
            "add and remove" | "remove and add" => {
                let b = self.value() as u64;
                if KINDS[kind] == "add and remove" {
                    self.s.add_components(self.es[i].e, B(b));
                    self.s.remove_components::<B>(self.es[i].e);
                    self.es[i].b = None;
                } else {
                    self.s.remove_components::<B>(self.es[i].e);
                    self.s.add_components(self.es[i].e, B(b));
                    self.es[i].b = Some(b);
                }
            }
            "rewrite" => {
                let a = self.value();
                self.s.add_components(self.es[i].e, A(a));
                self.es[i].a = a;
            }
            "write through references" => {
                let a = self.value();
                self.s.get_components_refs_mut::<A>(self.es[i].e).unwrap().0 = a;
                self.es[i].a = a;
            }
            "mark" => {
                self.s.add_tag::<Mark>(self.es[i].e);
                self.es[i].marked = true;
            }
            "unmark" => {
                self.s.remove_tag::<Mark>(self.es[i].e);
                self.es[i].marked = false;
            }
            "mark and unmark" => {
                self.s.add_tag::<Mark>(self.es[i].e);
                self.s.remove_tag::<Mark>(self.es[i].e);
                self.es[i].marked = false;
            }
            "append" => {
                let at = self.line.last().map_or(0, |l| l + 1);
                if at < n {
                    self.s.add_entity_order_by::<Line>(self.es[at].e);
                    alloc::outside(|| self.line.push(at));
                }
            }
            "leave" => {
                if let Some(l) = alloc::outside(|| self.line.pop()) {
                    self.s.remove_entity_order_by::<Line>(self.es[l].e);
                }
            }
            "append and leave" => {
                let at = self.line.last().map_or(0, |l| l + 1);
                if at < n {
                    self.s.add_entity_order_by::<Line>(self.es[at].e);
                    self.s.remove_entity_order_by::<Line>(self.es[at].e);
                }
            }
            "queries" => {
                // three of the reused objects, a few items each
                let one = self.es[i].e;
                match k % 4 {
                    0 => drop(self.s.component_query_iter(&mut self.qa).take(2).count()),
                    1 => drop(self.s.entity_component_query_iter(&[one], &mut self.ql).count()),
                    2 if self.line.len() < 40 => drop(self.s.ordered_query_iter(&mut self.qo).take(2).count()),
                    _ => {
                        for a in self.s.component_query_iter(&mut self.qw).take(0) {
                            a.0 = 0;
                        }
                    }
                }
            }
            _ => {
                // one entity takes the place of another
                self.destroy();
                self.create(k % 3 == 0);
            }
        }
    }
    fn look(&mut self, env: &mut Env, what: &str) -> R {
        let World { s, es, line, dead, qa, qab, ql, qlb, qo, qob, .. } = self;
        // one entity in the middle of the group has no component
        let sort = |mut v: Vec<(Entity, u64)>| {
            v.sort_by_key(|x| x.0.id());
            v
        };
        let mut out: Vec<(Entity, u64)> = vec![];
        macro_rules! look {
            ($owners:expr, $name:expr, $iter:expr, $f:expr, $want:expr, $sorted:expr) => {{
                out.clear();
                env.call($name, $owners, || {
                    for (e, v) in $iter {
                        let v = $f(v);
                        alloc::outside(|| out.push((e, v)));
                    }
                })?;
                env.checks += 1;
                let want: Vec<(Entity, u64)> = $want;
                let (got, want) = if $sorted { (sort(std::mem::take(&mut out)), sort(want)) } else { (std::mem::take(&mut out), want) };
                if got != want {
                    let at = got.iter().zip(&want).position(|(g, w)| g != w).unwrap_or(got.len().min(want.len()));
                    return env.fail($owners, || {
                        format!("{what}: {} yields {} items, expected {}; the first difference at {at}: {:?} against {:?}", $name, got.len(), want.len(), got.get(at), want.get(at))
                    });
                }
                out = got;
            }};
        }
        let a = |v: &A| v.0 as u64;
        let b = |v: &B| v.0;
        let ab = |(y, x): (&B, &A)| y.0 ^ (x.0 as u64) << 32;
        let wa = || es.iter().map(|x| (x.e, x.a as u64)).collect::<Vec<_>>();
        let wb = || es.iter().filter_map(|x| x.b.map(|b| (x.e, b))).collect::<Vec<_>>();
        let wab = || es.iter().filter_map(|x| x.b.map(|b| (x.e, b ^ (x.a as u64) << 32))).collect::<Vec<_>>();
        let wm = || es.iter().filter(|x| x.marked).map(|x| (x.e, x.a as u64)).collect::<Vec<_>>();
        let wo = || line.iter().map(|&i| (es[i].e, es[i].a as u64)).collect::<Vec<_>>();
        let wob = || line.iter().filter_map(|&i| es[i].b.map(|b| (es[i].e, b))).collect::<Vec<_>>();
        let mut list: Vec<Entity> = es.iter().map(|x| x.e).collect();
        list.extend(dead.iter().rev().take(300));
        for fresh in [false, true] {
            let q17 = if fresh { 0 } else { bit(17) };
            let (mut f1, mut f2) = (query::component::readonly::<A>(), query::component::readonly::<(B, A)>());
            let (mut f3, mut f4) = (query::entity_component::readonly::<A>(), query::entity_component::readonly::<B>());
            let (mut f5, mut f6) = (query::ordered_component::readonly::<Line, A>(), query::ordered_component::readonly::<Line, B>());
            let (qa, qab) = if fresh { (&mut f1, &mut f2) } else { (&mut *qa, &mut *qab) };
            let (ql, qlb) = if fresh { (&mut f3, &mut f4) } else { (&mut *ql, &mut *qlb) };
            let (qo, qob) = if fresh { (&mut f5, &mut f6) } else { (&mut *qo, &mut *qob) };
            look!(CQ | q17, "component query", s.component_query_iter(qa).with_entities(), a, wa(), true);
            look!(CQ | q17, "component query", s.component_query_iter(qab).with_entities(), ab, wab(), true);
            look!(TAG | q17, "filter_tag", s.component_query_iter(qa).with_entities().filter_tag::<Mark>(), a, wm(), true);
            look!(EQ | q17, "entity-list query", s.entity_component_query_iter(&list, ql).with_entities(), a, wa(), false);
            look!(EQ | q17, "entity-list query", s.entity_component_query_iter(&list, qlb).with_entities(), b, wb(), false);
            look!(OQ | q17, "ordered query", s.ordered_query_iter(qo).with_entities(), a, wo(), false);
            look!(OQ | q17, "ordered query", s.ordered_query_iter(qob).with_entities(), b, wob(), false);
            let n = env.call("len", bit(16) | q17, || (s.component_query_iter(qa).len(), s.ordered_query_iter(qob).len()))?;
            env.checks += 1;
            if n != (es.len(), wob().len()) {
                return env.fail(bit(16) | q17, || format!("{what}: lengths {n:?}, expected {:?}", (es.len(), wob().len())));
            }
        }
        // one entity at a time
        let step = (es.len() / 500).max(1);
        for (i, x) in es.iter().enumerate().filter(|(i, _)| i % step == 0 || i + 300 > es.len()) {
            let got = env.call("reads", bit(1) | REFS | TAG, || {
                let t = s.has_tag::<Mark>(x.e);
                (s.is_alive(x.e), s.get_components_refs::<A>(x.e).map(|a| a.0), s.get_components_refs::<B>(x.e).map(|b| b.0), t)
            })?;
            env.checks += 1;
            let want = (true, Some(x.a), x.b, x.marked);
            if got != want {
                let own = if !got.0 { bit(1) } else if got.3 != want.3 { TAG } else { REFS };
                return env.fail(own, || format!("{what}: entity {i} of {} reads (alive, A, B, tag) {got:?}, expected {want:?}", es.len()));
            }
        }
        for d in dead.iter().rev().take(300) {
            if env.call("is_alive", bit(1) | bit(15), || s.is_alive(*d))? {
                return env.fail(bit(1) | bit(15), || format!("{what}: the dead {d:?} is alive"));
            }
        }
        let mut at = env.call("get_first_entity_ordered_by", ORD, || s.get_first_entity_ordered_by::<Line>())?;
        for (k, &i) in line.iter().enumerate() {
            env.checks += 1;
            if at != Some(es[i].e) {
                return env.fail(ORD, || format!("{what}: member {k} of {} is {at:?}, expected {:?}", line.len(), es[i].e));
            }
            at = env.call("get_next_entity_ordered_by", ORD, || s.get_next_entity_ordered_by::<Line>(es[i].e))?;
        }
        if at.is_some() {
            return env.fail(ORD, || format!("{what}: the last member has next {at:?}"));
        }
        let last = env.call("get_last_entity_ordered_by", ORD, || s.get_last_entity_ordered_by::<Line>())?;
        if last != line.last().map(|&i| es[i].e) {
            return env.fail(ORD, || format!("{what}: last member {last:?}"));
        }
        Ok(())
    }
}

/// sequences of (kind, count) after which each looks
fn plan(seed: u64, id: u64) -> (usize, Vec<(usize, usize)>) {
    let kind = |n: &str| KINDS.iter().position(|k| *k == n).unwrap();
    let mut r = Rng::new(mix(seed ^ 0x77A9) ^ mix(id));
    let n = if id % 3 == 2 { 65_536 } else { 256 };
    let mut p = vec![];
    if id < 3 {
        // every kind from a state in which it changes something
        p.push((kind("create"), n + 40));
        p.push((kind("mark"), 1));
        for k in ["create", "add", "mark", "append", "remove", "create with archetype", "append", "leave", "unmark", "rewrite", "destroy", "add and remove",
                  "remove and add", "create and destroy", "mark and unmark", "append and leave", "write through references", "queries", "two of a kind", "append",
                  "add", "destroy", "create", "mark", "leave", "destroy", "destroy"] {
            p.push((kind(k), n));
        }
    } else {
        p.push((kind("create"), r.range(1, 2 * n)));
        p.push((kind("mark"), 1));
        for _ in 0..r.range(2, 12) {
            let m = match r.below(4) {
                0 => r.range(1, n),
                1 => n / 2,
                _ => n,
            };
            p.push((r.below(KINDS.len()), m));
        }
    }
    (*r.pick(&[1usize, 10, 300, 65_536]), p)
}
fn run(env: &mut Env, seed: u64, id: u64, t: &mut Tally) -> Outcome {
    crash::set_case(id);
    let (cap, p) = plan(seed, id);
    let own = bit(1) | COMPS | CQ | TAG | EQ | ORD | OQ | bit(17);
    let o = (|| -> R {
        let s = env.call("Store::with_capacity", CREATE, || Store::with_capacity(cap))?;
        let mut w = World {
            s,
            es: vec![],
            line: vec![],
            dead: vec![],
            qa: query::component::readonly(),
            qab: query::component::readonly(),
            qw: query::component::write(),
            ql: query::entity_component::readonly(),
            qlb: query::entity_component::readonly(),
            qo: query::ordered_component::readonly(),
            qob: query::ordered_component::readonly(),
            next: mix(id) as u32,
        };
        for (k, (kind, n)) in p.iter().enumerate() {
            env.opno = k as u64;
            if w.es.len() > 400_000 && KINDS[*kind].starts_with("create") {
                continue;
            }
            env.call(KINDS[*kind], own, || {
                for i in 0..*n {
                    w.step(*kind, i);
                }
            })?;
            t.ops += *n as u64;
            t.max_live = t.max_live.max(w.es.len());
            if k > 0 {
                w.look(env, &format!("after {n} times {}", KINDS[*kind]))?;
                if t.states.len() < 150_000 {
                    t.states.insert(mix(*kind as u64 + 77 * *n as u64) ^ mix(w.es.len() as u64) ^ mix(w.line.len() as u64 + (1 << 40)));
                }
            }
        }
        let World { s, .. } = w;
        env.call("drop Store", bit(13), || drop(s))
    })();
    match o {
        Ok(()) => Outcome::Done,
        Err(Stop::Viol(msg)) => Outcome::Viol { op: env.opno as usize, msg },
        Err(Stop::Cut(msg)) => Outcome::Cut { op: env.opno as usize, msg },
    }
}
pub fn replay(t: &str) -> Option<String> {
    let num = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(0);
    match run(&mut Env::new(num("prop ") as usize), num("seed "), num("id "), &mut new_tally()) {
        Outcome::Viol { op, msg } => Some(format!("at step {op}: {msg}")),
        Outcome::Cut { op, msg } => {
            println!("CUT {op} {msg}");
            None
        }
        _ => None,
    }
}
pub fn main(a: &Args) {
    let mut env = Env::new(a.prop);
    let mut t = new_tally();
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs_f64(a.secs);
    let mut i = 0u64;
    while i < a.cases && (i < 3 || std::time::Instant::now() < deadline) {
        let id = i * a.shard.1 as u64 + a.shard.0 as u64;
        i += 1;
        if a.skip.contains(&id) || id < a.from {
            continue;
        }
        let text = || {
            let (cap, p) = plan(a.seed, id);
            let l: Vec<String> = p.iter().map(|(k, n)| format!("# {n} times {}", KINDS[*k])).collect();
            format!("mode wrap\nprop {}\nseed {}\nid {id}\n# capacity {cap}\n{}\n", a.prop, a.seed, l.join("\n"))
        };
        if let Some(d) = a.dump {
            if d == id {
                println!("{}", text());
                return;
            }
            continue;
        }
        if a.announce {
            println!("CASE {id}");
        }
        t.cases += 1;
        env.opno = 0;
        match run(&mut env, a.seed, id, &mut t) {
            Outcome::Viol { op, msg } => crate::report_violation(a, &text(), op, &msg),
            Outcome::Cut { msg, op } => crate::note_cut(&mut t, format!("wrap case {id} step {op}: {msg}")),
            _ => {}
        }
    }
    if a.dump.is_none() {
        t.sample = Some("256 or 65,536 operations of one kind between two looks through reused and fresh queries".into());
        crate::summary(a, "wrap", &env, &t, &[]);
    }
}
