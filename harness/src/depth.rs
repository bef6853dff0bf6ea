//! Long runs of things to pass over, in the unoptimised build: an iterator that
//! calls itself once per skipped item has no stack for them.
use crate::run::{new_tally, Tally};
use crate::types::mix;
use crate::world::*;
use crate::{crash, Args};
use division_ecs::{query, Component, Entity, Store, Tag};

#[derive(Component, Clone, Copy)]
struct A(u64);
#[derive(Component, Clone, Copy)]
struct B(u64);
#[derive(Tag)]
struct Mark;
#[derive(Tag)]
struct Line;

const OWNS: u32 = bit(4) | bit(5) | bit(6) | bit(7) | bit(8);

/// `n` entities in a row of which only the first, the last and one between count
fn run_one(prop: usize, n: usize, cap: usize, t: &mut Tally, env: &mut Env) -> R {
    let own = bit(prop as u32 as usize);
    crash::set(0, "building a large population", OWNS);
    let mut s = env.call("Store::with_capacity", CREATE, || Store::with_capacity(cap))?;
    let mid = n / 3;
    let special = |i: usize| i == 0 || i == mid || i == n - 1;
    let mut es: Vec<Entity> = vec![];
    {
        let (s, es) = (&mut s, &mut es);
        env.call("create and add", OWNS, || {
            for i in 0..n {
                let e = s.create_entity();
                match i % 3 {
                    _ if special(i) => s.add_components(e, (A(i as u64), B(mix(i as u64)))),
                    1 if prop == 6 || prop == 8 => {}
                    _ => s.add_components(e, A(i as u64)),
                }
                crate::alloc::outside(|| es.push(e));
            }
        })?;
    }
    let want: Vec<(Entity, u64)> = (0..n).filter(|&i| special(i)).map(|i| (es[i], mix(i as u64))).collect();
    t.ops += n as u64;
    t.max_live = n;
    let mut got: Vec<(Entity, u64)> = Vec::with_capacity(16);
    match prop {
        4 => {
            crash::set(1, "component query", own);
            let mut q = query::component::readonly::<B>();
            env.call("component query", own, || {
                for (e, b) in s.component_query_iter(&mut q).with_entities().take(16) {
                    crate::alloc::outside(|| got.push((e, b.0)));
                }
            })?;
            let mut q = query::component::readonly::<A>();
            let (c, l) = env.call("component query", own, || (s.component_query_iter(&mut q).count(), 0))?;
            env.checks += 1;
            if c + l != n {
                return env.fail(own, || format!("query over {n} entities counts {c}"));
            }
        }
        5 => {
            crash::set(1, "filter_tag", own);
            env.call("add_tag", own, || {
                for &e in &es {
                    s.add_tag::<Mark>(e);
                }
                for i in 0..n {
                    if !special(i) {
                        s.remove_tag::<Mark>(es[i]);
                    }
                }
            })?;
            let mut q = query::component::readonly::<A>();
            let ids = env.call("filter_tag", own, || {
                let mut v = 0u64;
                for a in s.component_query_iter(&mut q).with_entities().filter_tag::<Mark>().take(16) {
                    v += 1;
                    crate::alloc::outside(|| got.push((a.0, mix(a.1 .0))));
                }
                v
            })?;
            env.checks += 1;
            if ids != 3 {
                return env.fail(own, || format!("3 of {n} entities are tagged, the filter yields {ids}"));
            }
        }
        6 => {
            crash::set(1, "entity-list query", own);
            let mut q = query::entity_component::readonly::<B>();
            env.call("entity-list query", own, || {
                for (e, b) in s.entity_component_query_iter(&es, &mut q).with_entities().take(16) {
                    crate::alloc::outside(|| got.push((e, b.0)));
                }
            })?;
        }
        7 | 8 => {
            crash::set(1, "order group", own);
            env.call("add_entity_order_by", own, || {
                for &e in &es {
                    s.add_entity_order_by::<Line>(e);
                }
            })?;
            if prop == 8 {
                let mut q = query::ordered_component::readonly::<Line, B>();
                env.call("ordered query", own, || {
                    for (e, b) in s.ordered_query_iter(&mut q).with_entities().take(16) {
                        crate::alloc::outside(|| got.push((e, b.0)));
                    }
                })?;
            } else {
                let mut at = env.call("get_first_entity_ordered_by", own, || s.get_first_entity_ordered_by::<Line>())?;
                for i in 0..n {
                    env.checks += 1;
                    let e = match at {
                        Some(e) if e == es[i] => e,
                        x => return env.fail(own, || format!("member {i} of {n} is {x:?}, expected {:?}", es[i])),
                    };
                    if special(i) {
                        got.push((e, mix(i as u64)));
                    }
                    at = env.call("get_next_entity_ordered_by", own, || s.get_next_entity_ordered_by::<Line>(e))?;
                }
                if at.is_some() {
                    return env.fail(own, || format!("the last of {n} members has next {at:?}"));
                }
            }
        }
        _ => return Ok(()),
    }
    if prop == 4 {
        // storage order is unspecified
        got.sort_by_key(|g| g.0.id());
    }
    let mut want = want;
    if prop == 5 || prop == 4 {
        got.sort_by_key(|g| g.0.id());
        want.sort_by_key(|g| g.0.id());
    }
    env.checks += 1;
    if got != want {
        return env.fail(own, || format!("among {n} entities the iteration yields {got:?}, expected {want:?}"));
    }
    t.states.insert(mix(n as u64) ^ prop as u64);
    crash::set(2, "drop Store", bit(13) | own);
    env.call("drop Store", bit(13) | own, || drop(s))
}
fn text(prop: usize, n: usize, cap: usize) -> String {
    format!("mode depth\nprop {prop}\nn {n}\ncap {cap}\n")
}
pub fn replay(t: &str) -> Option<String> {
    let num = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).and_then(|s| s.trim().parse::<usize>().ok()).unwrap_or(0);
    let mut env = Env::new(num("prop "));
    crash::set_case(0);
    match run_one(num("prop "), num("n ").max(1), num("cap ").max(1), &mut new_tally(), &mut env) {
        Err(Stop::Viol(m)) => Some(m),
        Err(Stop::Cut(m)) => {
            println!("CUT 0 {m}");
            None
        }
        Ok(()) => None,
    }
}
pub fn main(a: &Args) {
    let n = (a.n as usize).max(3);
    let cap = 1 + (a.seed as usize * 7) % 40;
    if a.dump.is_some() {
        println!("{}", text(a.prop, n, cap));
        return;
    }
    let mut t = new_tally();
    t.cases = 1;
    t.sample = Some(format!("{n} entities, capacity {cap}, three of them matching"));
    let mut env = Env::new(a.prop);
    crash::set_case(0);
    match run_one(a.prop, n, cap, &mut t, &mut env) {
        Err(Stop::Viol(m)) => crate::report_violation(a, &text(a.prop, n, cap), 0, &m),
        Err(Stop::Cut(m)) => crate::note_cut(&mut t, m),
        Ok(()) => {}
    }
    crate::summary(a, "depth", &env, &t, &[]);
}
