//! C10 under Miri: straight-line histories with next to no work of their own,
//! so that the interpreter's time goes into the library. The model is the
//! least that is needed to stay within the documented preconditions; what is
//! read is folded into a checksum, so that reads of uninitialised, freed or
//! foreign memory are seen by the interpreter.
use crate::rng::Rng;
use crate::run::new_tally;
use crate::types::mix;
use crate::world::Env;
use crate::Args;
use division_ecs::*;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Component)]
struct B(u8);
#[derive(Clone, Copy, Component)]
struct W(u32);
#[repr(align(64))]
#[derive(Clone, Copy, Component)]
struct A64(u64);
#[derive(Clone, Copy, Component)]
struct Big([u8; 2600]);
#[derive(Clone, Copy, Component)]
struct Z(());
#[derive(Clone, Copy, Component)]
struct P(&'static u32, u16);

#[derive(Tag)]
struct T1;
#[derive(Tag)]
struct T2;
#[derive(Tag)]
struct G1;
#[derive(Tag)]
struct G2;

static TARGET: u32 = 77;

trait C: Component + Copy + 'static {
    const BIT: u8;
    fn mk(x: u32) -> Self;
    fn rd(&self) -> u64;
}
impl C for B {
    const BIT: u8 = 1;
    fn mk(x: u32) -> Self {
        B(x as u8)
    }
    fn rd(&self) -> u64 {
        self.0 as u64
    }
}
impl C for W {
    const BIT: u8 = 2;
    fn mk(x: u32) -> Self {
        W(x)
    }
    fn rd(&self) -> u64 {
        self.0 as u64
    }
}
impl C for A64 {
    const BIT: u8 = 4;
    fn mk(x: u32) -> Self {
        A64(x as u64)
    }
    fn rd(&self) -> u64 {
        self.0
    }
}
impl C for Big {
    const BIT: u8 = 8;
    fn mk(x: u32) -> Self {
        let mut a = [0u8; 2600];
        a[0] = x as u8;
        a[2599] = x as u8;
        Big(a)
    }
    fn rd(&self) -> u64 {
        static ZERO: [u8; 2598] = [0; 2598];
        self.0[0] as u64 + self.0[2599] as u64 + (self.0[1..2599] == ZERO) as u64
    }
}
impl C for Z {
    const BIT: u8 = 16;
    fn mk(_: u32) -> Self {
        Z(())
    }
    fn rd(&self) -> u64 {
        (self as *const Z as usize != 0) as u64
    }
}
impl C for P {
    const BIT: u8 = 32;
    fn mk(x: u32) -> Self {
        P(&TARGET, x as u16)
    }
    fn rd(&self) -> u64 {
        *self.0 as u64 + self.1 as u64
    }
}

struct Ent {
    h: Entity,
    mask: u8,
    g: [bool; 2],
}

struct Run {
    s: Store,
    live: Vec<Ent>,
    dead: Vec<Entity>,
    tagged: [bool; 2],
    acc: u64,
    calls: u64,
    max: usize,
}

macro_rules! pick_comp {
    ($k:expr, $f:ident $(, $a:expr)*) => {
        match $k % 6 {
            0 => $f::<B>($($a),*),
            1 => $f::<W>($($a),*),
            2 => $f::<A64>($($a),*),
            3 => $f::<Big>($($a),*),
            4 => $f::<Z>($($a),*),
            _ => $f::<P>($($a),*),
        }
    };
}
/// pairs that query and combined access are tried with
macro_rules! pick_pair {
    ($k:expr, $f:ident $(, $a:expr)*) => {
        match $k % 7 {
            0 => $f::<B, W>($($a),*),
            1 => $f::<W, A64>($($a),*),
            2 => $f::<A64, B>($($a),*),
            3 => $f::<Big, W>($($a),*),
            4 => $f::<Z, W>($($a),*),
            5 => $f::<P, B>($($a),*),
            _ => $f::<W, Z>($($a),*),
        }
    };
}

fn add1<X: C>(r: &mut Run, i: usize, x: u32) {
    r.s.add_components(r.live[i].h, X::mk(x));
    r.live[i].mask |= X::BIT;
    r.calls += 1;
}
fn add2<X: C, Y: C>(r: &mut Run, i: usize, x: u32) {
    r.s.add_components(r.live[i].h, (X::mk(x), Y::mk(x ^ 5)));
    r.live[i].mask |= X::BIT | Y::BIT;
    r.calls += 1;
}
fn rem1<X: C>(r: &mut Run, i: usize) {
    r.s.remove_components::<X>(r.live[i].h);
    r.live[i].mask &= !X::BIT;
    r.calls += 1;
}
fn rem2<X: C, Y: C>(r: &mut Run, i: usize) {
    r.s.remove_components::<(X, Y)>(r.live[i].h);
    r.live[i].mask &= !(X::BIT | Y::BIT);
    r.calls += 1;
}
fn create2<X: C, Y: C>(r: &mut Run, x: u32) {
    let a = Archetype::with_components::<(X, Y)>();
    let b = a.clone();
    r.acc = r.acc.wrapping_add(a.is_same_as(&b) as u64 + a.component_count() as u64);
    for c in b.components_iter() {
        r.acc = r.acc.wrapping_add(c.size() as u64);
    }
    let h = r.s.create_entity_with_archetype(&b);
    // what is created uninitialised is written before it is read
    if let Some((p, q)) = r.s.get_components_refs_mut::<(X, Y)>(h) {
        *p = X::mk(x);
        *q = Y::mk(x ^ 9);
    }
    r.live.push(Ent { h, mask: X::BIT | Y::BIT, g: [false; 2] });
    r.calls += 4;
}
fn read1<X: C>(r: &mut Run, h: Entity) {
    if let Some(x) = r.s.get_components_refs::<X>(h) {
        r.acc = r.acc.wrapping_add(x.rd());
    }
    r.calls += 1;
}
fn rw2<X: C, Y: C>(r: &mut Run, h: Entity, v: u32) {
    if let Some((x, y)) = r.s.get_components_refs_mut::<(X, Y)>(h) {
        r.acc = r.acc.wrapping_add(y.rd());
        *x = X::mk(v);
        *y = Y::mk(v);
        r.acc = r.acc.wrapping_add(x.rd());
    }
    if let Some((x, y)) = r.s.get_components_refs::<(X, Y)>(h) {
        r.acc = r.acc.wrapping_add(x.rd() + y.rd());
    }
    r.calls += 2;
}
fn cq<X: C, Y: C>(r: &mut Run, v: u32) {
    let mut acc = 0u64;
    {
        // two read-only iterations interleaved
        let mut q = query::component::readonly::<(X, Y)>();
        let mut q1 = query::component::readonly::<X>();
        let mut a = r.s.component_query_iter(&mut q);
        let mut b = r.s.component_query_iter(&mut q1);
        loop {
            let x = a.next();
            let y = b.next();
            if let Some((p, q)) = &x {
                acc = acc.wrapping_add(p.rd() ^ q.rd());
            }
            if let Some(p) = &y {
                acc = acc.wrapping_add(p.rd());
            }
            if x.is_none() && y.is_none() {
                break;
            }
        }
    }
    {
        // all write references of one iteration are held together
        let mut q = query::component::write::<X>();
        let items: Vec<_> = r.s.component_query_iter(&mut q).collect();
        for x in items {
            *x = X::mk(v);
        }
    }
    {
        let mut q = query::component::read_write::<Y, X>();
        for (e, (y, x)) in r.s.component_query_iter(&mut q).with_entities() {
            acc = acc.wrapping_add(y.rd() + e.id() as u64);
            *x = X::mk(v ^ e.version());
        }
    }
    if r.tagged[0] {
        let mut q = query::component::readonly::<X>();
        for (e, x) in r.s.component_query_iter(&mut q).with_entities().filter_tag::<T1>() {
            acc = acc.wrapping_add(x.rd() + e.id() as u64);
        }
    }
    r.acc = r.acc.wrapping_add(acc);
    r.calls += 5;
}
fn eq<X: C, Y: C>(r: &mut Run, v: u32) {
    let mut list: Vec<Entity> = r.live.iter().map(|e| e.h).collect();
    let at = v as usize % (list.len() + 1);
    for (k, d) in r.dead.iter().rev().take(3).enumerate() {
        list.insert((at + k) % (list.len() + 1), *d);
    }
    if v % 3 == 0 {
        list.reverse();
    }
    let mut acc = 0u64;
    {
        let mut q = query::entity_component::write::<(X, Y)>();
        let items: Vec<_> = r.s.entity_component_query_iter(&list, &mut q).collect();
        for (x, y) in items {
            acc = acc.wrapping_add(y.rd());
            *x = X::mk(v);
        }
    }
    {
        let mut q = query::entity_component::read_write::<Y, X>();
        for (e, (y, x)) in r.s.entity_component_query_iter(&list, &mut q).with_entities() {
            acc = acc.wrapping_add(y.rd() + e.id() as u64);
            *x = X::mk(v ^ 1);
        }
        // the same query object on another list, with repetitions and null
        let twice: Vec<Entity> = list.iter().chain(list.iter()).copied().collect();
        let mut q = query::entity_component::readonly::<X>();
        for x in r.s.entity_component_query_iter(&twice, &mut q) {
            acc = acc.wrapping_add(x.rd());
        }
        let mut n = 0;
        for x in r.s.entity_component_query_iter(&list, &mut q) {
            acc = acc.wrapping_add(x.rd());
            n += 1;
            if n > 3 {
                break;
            }
        }
    }
    r.acc = r.acc.wrapping_add(acc);
    r.calls += 4;
}
fn oq<X: C, Y: C>(r: &mut Run, v: u32) {
    let mut acc = 0u64;
    {
        let mut q = query::ordered_component::write::<G1, X>();
        let items: Vec<_> = r.s.ordered_query_iter(&mut q).collect();
        for x in items {
            *x = X::mk(v);
        }
    }
    {
        let mut q = query::ordered_component::readonly::<G1, (X, Y)>();
        let it = r.s.ordered_query_iter(&mut q);
        acc = acc.wrapping_add(it.len() as u64);
        for (e, (x, y)) in it.with_entities() {
            acc = acc.wrapping_add(x.rd() ^ y.rd() + e.id() as u64);
        }
    }
    {
        let mut q = query::ordered_component::read_write::<G2, Y, X>();
        for (y, x) in r.s.ordered_query_iter(&mut q) {
            acc = acc.wrapping_add(y.rd());
            *x = X::mk(v ^ 3);
        }
    }
    // walk both groups in both directions
    let mut e = r.s.get_first_entity_ordered_by::<G1>();
    let mut n = 0;
    while let Some(h) = e {
        acc = acc.wrapping_add(h.id() as u64);
        e = r.s.get_next_entity_ordered_by::<G1>(h);
        n += 1;
        if n > 200 {
            break;
        }
    }
    let mut e = r.s.get_last_entity_ordered_by::<G2>();
    while let Some(h) = e {
        acc = acc.wrapping_add(h.id() as u64);
        e = r.s.get_previous_entity_ordered_by::<G2>(h);
        n += 1;
        if n > 400 {
            break;
        }
    }
    r.acc = r.acc.wrapping_add(acc);
    r.calls += 3 + n;
}

fn store_case(r0: &mut Rng, ops: usize, focus: usize) -> (u64, u64, usize, usize) {
    let cap = [1usize, 1, 2, 3, 31, 32, 10][r0.below(7)];
    let mut r = Run { s: Store::with_capacity(cap), live: vec![], dead: vec![], tagged: [false; 2], acc: 0, calls: 1, max: 0 };
    // a second store, whose handles and archetypes are its own
    let mut ended = 0;
    for _ in 0..ops {
        let n = r.live.len();
        let x = r0.u32();
        let pick = r0.below(n.max(1));
        let k = r0.below(7);
        // most words keep to a few component types, so that pages are shared
        let k = if r0.chance(3, 4) { focus } else { k };
        let code = if n == 0 { r0.below(4) } else { r0.below(30) };
        match code {
            0 => {
                let h = r.s.create_entity();
                r.calls += 1;
                r.live.push(Ent { h, mask: 0, g: [false; 2] });
            }
            1..=5 => pick_pair!(k, create2, &mut r, x),
            6..=9 => {
                let e = r.live.swap_remove(pick);
                r.s.destroy_entity(e.h);
                r.calls += 1;
                r.dead.push(e.h);
                ended += 1;
            }
            10..=12 => pick_comp!(k, add1, &mut r, pick, x),
            13 => pick_pair!(k, add2, &mut r, pick, x),
            14 | 15 => pick_comp!(k, rem1, &mut r, pick),
            16 => pick_pair!(k, rem2, &mut r, pick),
            17 => {
                if x % 2 == 0 {
                    r.s.add_tag::<T1>(r.live[pick].h);
                    r.tagged[0] = true;
                } else {
                    r.s.add_tag::<T2>(r.live[pick].h);
                    r.tagged[1] = true;
                }
                r.calls += 1;
            }
            18 => {
                r.s.remove_tag::<T1>(r.live[pick].h);
                r.s.remove_tag::<T2>(r.live[pick].h);
                r.acc += r.s.has_tag::<T1>(r.live[pick].h) as u64;
                r.calls += 3;
            }
            19..=22 => {
                let g = (x % 3 == 0) as usize;
                let anchor = (0..n).find(|&i| r.live[i].g[g] && (i != pick));
                let h = r.live[pick].h;
                if !r.live[pick].g[g] {
                    r.live[pick].g[g] = true;
                    match (anchor, x / 3 % 3, g) {
                        (Some(a), 1, 0) => r.s.add_entity_next_to_order_by::<G1>(h, r.live[a].h),
                        (Some(a), 1, _) => r.s.add_entity_next_to_order_by::<G2>(h, r.live[a].h),
                        (Some(a), 2, 0) => r.s.add_entity_previous_to_order_by::<G1>(h, r.live[a].h),
                        (Some(a), 2, _) => r.s.add_entity_previous_to_order_by::<G2>(h, r.live[a].h),
                        (_, _, 0) => r.s.add_entity_order_by::<G1>(h),
                        _ => r.s.add_entity_order_by::<G2>(h),
                    }
                } else if code > 20 {
                    r.live[pick].g[g] = false;
                    if g == 0 {
                        r.s.remove_entity_order_by::<G1>(h)
                    } else {
                        r.s.remove_entity_order_by::<G2>(h)
                    }
                }
                r.calls += 1;
            }
            23 => {
                let h = r.live[pick].h;
                pick_comp!(k, read1, &mut r, h)
            }
            24 => {
                // through dead handles
                if let Some(&d) = r.dead.get(x as usize % (r.dead.len() + 1)) {
                    pick_comp!(k, read1, &mut r, d);
                    pick_pair!(k, rw2, &mut r, d, x);
                    r.s.add_components(d, W(x));
                    r.s.remove_components::<W>(d);
                    r.s.add_tag::<T1>(d);
                    r.s.add_entity_order_by::<G1>(d);
                    r.s.remove_entity_order_by::<G1>(d);
                    r.acc += r.s.is_alive(d) as u64
                        + r.s.get_entity_archetype(d).is_some() as u64
                        + r.s.get_next_entity_ordered_by::<G1>(d).is_some() as u64;
                    r.calls += 8;
                }
            }
            25 => {
                let h = r.live[pick].h;
                pick_pair!(k, rw2, &mut r, h, x)
            }
            26 => pick_pair!(k, cq, &mut r, x),
            27 => pick_pair!(k, eq, &mut r, x),
            28 => pick_pair!(k, oq, &mut r, x),
            _ => {
                if let Some(a) = r.s.get_entity_archetype(r.live[pick].h) {
                    let c = a.clone();
                    r.acc += c.is_include(a) as u64 + c.included_ids().len() as u64;
                    if x % 2 == 0 && r.live[pick].mask & !18 == 0 {
                        // same components through a store-owned archetype
                        let h = r.s.create_entity_with_archetype(&c);
                        r.s.add_components(h, W(x));
                        let m = r.live[pick].mask | 2;
                        r.live.push(Ent { h, mask: m, g: [false; 2] });
                    } else {
                        let mut b = ArchetypeBuilder::new();
                        b.include_archetype(&c).include_components::<(W, B)>().exclude_components::<B>();
                        let d = b.build();
                        let e = d.clone();
                        r.acc += e.is_exclude(&d) as u64 + d.component_count() as u64;
                    }
                }
                r.calls += 4;
            }
        }
        r.max = r.max.max(r.live.len());
    }
    pick_pair!(focus, cq, &mut r, 1);
    pick_pair!(focus, eq, &mut r, 2);
    pick_pair!(focus, oq, &mut r, 3);
    if r0.chance(1, 3) {
        while let Some(e) = r.live.pop() {
            r.s.destroy_entity(e.h);
            r.calls += 1;
        }
    }
    drop(r.s);
    (r.acc, r.calls, r.max, ended)
}

fn res_case<T>(r0: &mut Rng, ops: usize, mk: impl Fn(u32) -> T, rd: impl Fn(&T) -> u64) -> (u64, u64, usize, usize) {
    let mut s: ResourceStore<T> = if r0.chance(1, 2) { ResourceStore::new() } else { ResourceStore::with_capacity(r0.range(1, 5)) };
    let mut live: Vec<Entity> = vec![];
    let (mut acc, mut calls, mut max, mut ended) = (0u64, 0u64, 0usize, 0usize);
    for _ in 0..ops {
        let x = r0.u32();
        let i = r0.below(live.len().max(1));
        match if live.is_empty() { 0 } else { r0.below(7) } {
            0..=2 => live.push(s.create(mk(x))),
            3 => {
                let h = live.swap_remove(i);
                let v = s.release(h);
                acc = acc.wrapping_add(rd(&v));
                ended += 1;
            }
            4 => s[live[i]] = mk(x),
            5 => {
                let v = std::mem::replace(&mut s[live[i]], mk(x));
                acc = acc.wrapping_add(rd(&v));
            }
            _ => acc = acc.wrapping_add(rd(&s[live[i]])),
        }
        calls += 1;
        max = max.max(live.len());
    }
    drop(s);
    (acc, calls, max, ended)
}

fn run(seed: u64, id: u64) -> (String, (u64, u64, usize, usize)) {
    let mut r = Rng::new(mix(seed) ^ mix(id.wrapping_mul(0x51_7CC1)));
    let r = &mut r;
    let ops = r.range(20, 90);
    match id % 5 {
        0 => match id / 5 % 4 {
            0 => ("boxes".into(), res_case(r, ops, |x| Box::new(x), |b| **b as u64)),
            1 => ("units".into(), res_case(r, ops, |_| (), |_| 0)),
            2 => ("strings".into(), res_case(r, ops, |x| x.to_string(), |s| s.len() as u64)),
            _ => ("vectors".into(), res_case(r, ops, |x| vec![x as u16; x as usize % 3], |v| v.len() as u64)),
        },
        _ => {
            let focus = r.below(7);
            (format!("store, mostly component pair {focus}"), store_case(r, ops, focus))
        }
    }
}

pub fn replay(t: &str) -> Option<String> {
    let num = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(0);
    run(num("seed "), num("id "));
    None
}

pub fn main(a: &Args) {
    let env = Env::new(a.prop);
    let mut env = env;
    let mut t = new_tally();
    let deadline = Instant::now() + Duration::from_secs_f64(a.secs);
    let mut i = 0u64;
    let mut list = vec![];
    while i < a.cases && Instant::now() < deadline {
        let id = i * a.shard.1 as u64 + a.shard.0 as u64;
        i += 1;
        if let Some(d) = a.dump {
            println!("mode lean\nprop {}\nseed {}\nid {d}", a.prop, a.seed);
            return;
        }
        if a.skip.contains(&id) || id < a.from {
            continue;
        }
        if a.announce {
            println!("CASE {id}");
        }
        let (what, (acc, calls, max, ended)) = if id % 4 == 3 {
            // beside another history in another thread, each with stores of its own
            let seed = a.seed;
            let other = std::thread::spawn(move || run(seed, id ^ 0x4000_0001).1);
            let (what, r) = run(a.seed, id);
            match other.join() {
                Ok(o) => (what + ", beside another in a second thread", (r.0, r.1 + o.1, r.2.max(o.2), r.3 + o.3)),
                Err(_) => (what, r),
            }
        } else {
            run(a.seed, id)
        };
        t.cases += 1;
        env.calls += calls;
        t.ops += calls;
        t.max_live = t.max_live.max(max);
        let st = mix(calls) ^ mix(max as u64 + 1000) ^ mix(ended as u64 + 9000) ^ acc;
        if max > 0 {
            t.states.insert(st);
            list.push((st & ((1 << 52) - 1)).to_string());
        }
        if t.sample.is_none() {
            t.sample = Some(format!("seed {} id {id}: {what}, {calls} library calls, up to {max} alive, {ended} ended", a.seed));
        }
    }
    crate::summary(a, "lean", &env, &t, &[("states_list", format!("[{}]", list.join(",")))]);
}

/// C18: histories running at the same time in several threads, each on stores
/// of its own, give what each gives alone.
const THREADS: u64 = 4;
fn together(env: &mut Env, seed: u64, id: u64, t: &mut crate::run::Tally) -> Result<(), (bool, String)> {
    crate::crash::set_case(id);
    crate::crash::set(0, "histories one after the other", 0);
    let alone = |k: u64| std::panic::catch_unwind(|| (0..6).map(|j| run(seed, (id * THREADS + k) * 6 + j).1).collect::<Vec<_>>()).map_err(|_| crate::crash::last_panic());
    let mut want = vec![];
    for k in 0..THREADS {
        want.push(alone(k).map_err(|m| (false, m))?);
    }
    crate::crash::set(1, "histories in several threads", 1 << 18);
    let hs: Vec<_> = (0..THREADS)
        .map(|k| std::thread::spawn(move || (0..6).map(|j| run(seed, (id * THREADS + k) * 6 + j).1).collect::<Vec<_>>()))
        .collect();
    let got: Vec<_> = hs.into_iter().map(|h| h.join()).collect();
    for (k, g) in got.into_iter().enumerate() {
        env.checks += 1;
        match g {
            Ok(g) if g == want[k] => {}
            Ok(_) => return Err((true, format!("history {k} of {THREADS} running at the same time on stores of their own gives other results than alone"))),
            Err(_) => return Err((true, format!("history {k} of {THREADS} running at the same time on stores of their own panics, alone it does not"))),
        }
    }
    for w in want.iter().flatten() {
        env.calls += 2 * w.1;
        t.ops += 2 * w.1;
        t.max_live = t.max_live.max(w.2);
        if t.states.len() < 150_000 {
            t.states.insert(mix(w.0) ^ w.1);
        }
    }
    Ok(())
}
pub fn par_replay(t: &str) -> Option<String> {
    let num = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(0);
    // whether two threads meet is up to the scheduler
    for _ in 0..200 {
        if let Err((true, m)) = together(&mut Env::new(18), num("seed "), num("id "), &mut new_tally()) {
            return Some(m);
        }
    }
    None
}
pub fn par_main(a: &Args) {
    let mut env = Env::new(a.prop);
    let mut t = new_tally();
    let deadline = Instant::now() + Duration::from_secs_f64(a.secs);
    let mut i = 0u64;
    while i < a.cases && Instant::now() < deadline {
        let id = i * a.shard.1 as u64 + a.shard.0 as u64;
        i += 1;
        let text = format!("mode par\nprop {}\nseed {}\nid {id}\n", a.prop, a.seed);
        if let Some(d) = a.dump {
            if d == id {
                println!("{text}");
                return;
            }
            continue;
        }
        if a.skip.contains(&id) || id < a.from {
            continue;
        }
        t.cases += 1;
        match together(&mut env, a.seed, id, &mut t) {
            Ok(()) => {}
            Err((true, m)) => crate::report_violation(a, &text, 0, &m),
            Err((false, m)) => crate::note_cut(&mut t, m),
        }
    }
    t.sample = Some(format!("{THREADS} threads, six histories each, against the same histories alone"));
    if a.dump.is_none() {
        crate::summary(a, "par", &env, &t, &[]);
    }
}
