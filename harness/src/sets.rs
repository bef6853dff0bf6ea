//! C12: archetypes against set algebra on type indices.
use crate::rng::Rng;
use crate::run::{new_tally, Outcome, Tally};
use crate::types::*;
use crate::world::*;
use crate::{crash, Args};
use division_ecs::*;
use std::any::TypeId;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

const OWN: u32 = bit(12);

/// one archetype and the set it must denote
struct Arch {
    a: Archetype,
    set: Vec<usize>,
    how: String,
}

fn pool(v: &Vocab, r: &mut Rng) -> Vec<usize> {
    let n = match r.below(5) {
        0 => 2,
        1 => 4,
        2 => 8,
        3 => 15,
        _ => NTYPES,
    };
    let mut all: Vec<usize> = (0..v.types.len()).collect();
    r.shuffle(&mut all);
    all.truncate(n);
    all
}
fn some(r: &mut Rng, from: &[usize]) -> Vec<usize> {
    let mut x = from.to_vec();
    r.shuffle(&mut x);
    let n = match r.below(4) {
        0 => 1,
        1 => r.range(0, from.len()),
        2 => r.range(0, 3.min(from.len())),
        _ => from.len(),
    };
    x.truncate(n);
    x
}
fn tup_of<'a>(v: &Vocab, r: &mut Rng, pool: &[usize]) -> usize {
    let c: Vec<usize> = (0..v.tups.len()).filter(|&k| v.tups[k].types.iter().all(|t| pool.contains(t))).collect();
    *r.pick(&c)
}

/// build archetypes by random routes; a builder may go on after `build`
fn build(env: &mut Env, r: &mut Rng, pl: &[usize], have: &mut Vec<Arch>) -> R {
    if r.chance(1, 6) {
        let k = tup_of(&env.v, r, pl);
        let f = env.v.tups[k].archetype;
        let a = env.call("Archetype::with_components", OWN, f)?;
        let mut set = env.v.tups[k].types.to_vec();
        set.sort_unstable();
        have.push(Arch { a, how: format!("with_components{:?}", env.v.tups[k].types), set });
        return Ok(());
    }
    let mut b = env.call("ArchetypeBuilder::new", OWN, ArchetypeBuilder::new)?;
    let mut set: Vec<usize> = vec![];
    let mut how = String::new();
    for _ in 0..r.range(1, 9) {
        match r.weighted(&[6, 3, 6, 4, 5, 2]) {
            0 => {
                let k = tup_of(&env.v, r, pl);
                let f = env.v.tups[k].include;
                env.call("include_components", OWN, || f(&mut b))?;
                for &t in env.v.tups[k].types {
                    if !set.contains(&t) {
                        set.push(t);
                    }
                }
                how += &format!(" +tuple{:?}", env.v.tups[k].types);
            }
            1 => {
                let k = tup_of(&env.v, r, pl);
                let f = env.v.tups[k].exclude;
                env.call("exclude_components", OWN, || f(&mut b))?;
                set.retain(|t| !env.v.tups[k].types.contains(t));
                how += &format!(" -tuple{:?}", env.v.tups[k].types);
            }
            2 => {
                let mut l = some(r, pl);
                if r.chance(1, 3) && !l.is_empty() {
                    // repeated entries
                    let x = *r.pick(&l);
                    l.push(x);
                }
                let cts: Vec<ComponentType> = l.iter().map(|&t| (env.v.types[t].ct)()).collect();
                env.call("include_component_types", OWN, || {
                    b.include_component_types(&cts);
                })?;
                for &t in &l {
                    if !set.contains(&t) {
                        set.push(t);
                    }
                }
                how += &format!(" +list{l:?}");
            }
            3 => {
                let mut l = some(r, pl);
                if r.chance(1, 3) && !l.is_empty() {
                    let x = *r.pick(&l);
                    l.push(x);
                }
                let cts: Vec<ComponentType> = l.iter().map(|&t| (env.v.types[t].ct)()).collect();
                env.call("exclude_component_types", OWN, || {
                    b.exclude_component_types(&cts);
                })?;
                set.retain(|t| !l.contains(t));
                how += &format!(" -list{l:?}");
            }
            4 if !have.is_empty() => {
                let o = r.pick(have);
                env.call("include_archetype", OWN, || {
                    b.include_archetype(&o.a);
                })?;
                for &t in &o.set {
                    if !set.contains(&t) {
                        set.push(t);
                    }
                }
                how += &format!(" +arch{:?}", o.set);
            }
            _ => {
                if !set.is_empty() {
                    let a = env.call("build", OWN, || b.build())?;
                    let mut s = set.clone();
                    s.sort_unstable();
                    have.push(Arch { a, set: s, how: how.clone() });
                    how += " build";
                }
            }
        }
    }
    if !set.is_empty() {
        let a = env.call("build", OWN, || b.build())?;
        set.sort_unstable();
        have.push(Arch { a, set, how });
    }
    env.call("drop ArchetypeBuilder", OWN, move || drop(b))?;
    Ok(())
}
fn hash(a: &Archetype) -> u64 {
    let mut h = DefaultHasher::new();
    a.hash(&mut h);
    h.finish()
}

fn one(env: &mut Env, x: &Arch) -> R {
    let n = env.call("component_count", OWN, || x.a.component_count())?;
    env.checks += 1;
    let who = || format!("archetype of{} (set {:?})", x.how, x.set);
    if n != x.set.len() {
        return env.fail(OWN, || format!("{}: component_count {n}", who()));
    }
    let cts: Vec<ComponentType> = env.call("components_iter", OWN, || x.a.components_iter().collect::<Vec<_>>())?;
    let ids: Vec<TypeId> = env.call("included_ids", OWN, || crate::alloc::outside(|| x.a.included_ids().to_vec()))?;
    if cts.len() != n || ids.len() != n {
        return env.fail(OWN, || format!("{}: {} entries iterated, {} ids", who(), cts.len(), ids.len()));
    }
    for (k, ct) in cts.iter().enumerate() {
        let t = (0..NTYPES).find(|&t| env.v.types[t].id == ct.id());
        let ok = match t {
            Some(t) => x.set.contains(&t) && ct.size() == env.v.types[t].size && ct.align() == env.v.types[t].align && ct.name() == env.v.types[t].name,
            None => false,
        };
        if !ok || ids[k] != ct.id() {
            return env.fail(OWN, || format!("{}: entry {k} is {ct:?}", who()));
        }
        if cts[..k].iter().any(|o| o.id() == ct.id()) {
            return env.fail(OWN, || format!("{}: {} is listed twice", who(), ct.name()));
        }
    }
    for t in 0..NTYPES {
        let vt = &env.v.types[t];
        let (has, find, id) = (vt.has, vt.find, vt.id);
        let want = x.set.contains(&t);
        let (h, f1, f2) =
            env.call("has_component/find_component_index", OWN, || (has(&x.a), find(&x.a), x.a.find_component_index(id)))?;
        env.checks += 1;
        let at = ids.iter().position(|i| *i == id);
        if h != want || f1 != at || f2 != at {
            let name = env.v.types[t].name;
            return env.fail(OWN, || {
                format!("{}: membership of {name}: has {h}, index {f1:?} / {f2:?}, expected {want} at {at:?}", who())
            });
        }
    }
    Ok(())
}
fn two(env: &mut Env, r: &mut Rng, x: &Arch, y: &Arch) -> R {
    env.checks += 1;
    let (same, inc, exc) =
        env.call("is_same_as/is_include/is_exclude", OWN, || (x.a.is_same_as(&y.a), x.a.is_include(&y.a), x.a.is_exclude(&y.a)))?;
    let w_same = x.set == y.set;
    let w_inc = y.set.iter().all(|t| x.set.contains(t));
    let w_exc = !y.set.iter().any(|t| x.set.contains(t));
    if (same, inc, exc) != (w_same, w_inc, w_exc) {
        return env.fail(OWN, || {
            format!(
                "{:?} against {:?}: same {same} include {inc} exclude {exc}, expected {w_same} {w_inc} {w_exc}",
                x.set, y.set
            )
        });
    }
    if w_same {
        let (a, b) = env.call("hash", OWN, || (hash(&x.a), hash(&y.a)))?;
        if a != b {
            return env.fail(OWN, || format!("equal archetypes of {:?} hash differently ({} / {})", x.set, x.how, y.how));
        }
    }
    let _ = r;
    Ok(())
}
fn lists(env: &mut Env, r: &mut Rng, x: &Arch, pl: &[usize]) -> R {
    // id lists in any order, without repetition: near the set and arbitrary
    for k in 0..6 {
        let mut l: Vec<usize> = match k {
            0 => x.set.clone(),
            1 => some(r, &x.set),
            2 => some(r, pl),
            3 => {
                let out: Vec<usize> = (0..NTYPES).filter(|t| !x.set.contains(t)).collect();
                some(r, &out)
            }
            4 => {
                // the complement and one member
                let mut out: Vec<usize> = (0..NTYPES).filter(|t| !x.set.contains(t)).collect();
                r.shuffle(&mut out);
                out.truncate(r.range(0, 6));
                out.push(*r.pick(&x.set));
                out
            }
            _ => {
                // the set with one member replaced
                let mut s = x.set.clone();
                let out: Vec<usize> = (0..NTYPES).filter(|t| !x.set.contains(t)).collect();
                if !out.is_empty() {
                    let p = r.below(s.len());
                    s[p] = *r.pick(&out);
                }
                s
            }
        };
        r.shuffle(&mut l);
        let ids: Vec<TypeId> = l.iter().map(|&t| env.v.types[t].id).collect();
        let (inc, only, exc) = env.call("is_include_ids/is_include_only_ids/is_exclude_ids", OWN, || {
            (x.a.is_include_ids(&ids), x.a.is_include_only_ids(&ids), x.a.is_exclude_ids(&ids))
        })?;
        env.checks += 1;
        let w_inc = l.iter().all(|t| x.set.contains(t));
        let w_only = w_inc && l.len() == x.set.len();
        let w_exc = !l.iter().any(|t| x.set.contains(t));
        if (inc, only, exc) != (w_inc, w_only, w_exc) {
            return env.fail(OWN, || {
                format!(
                    "set {:?} against the list {l:?}: include {inc} only {only} exclude {exc}, expected {w_inc} {w_only} {w_exc}",
                    x.set
                )
            });
        }
    }
    Ok(())
}

fn run(env: &mut Env, seed: u64, id: u64, t: &mut Tally) -> Outcome {
    crash::set_case(id);
    let mut r = Rng::new(mix(seed ^ 0xA7C4) ^ mix(id));
    let r = &mut r;
    let pl = pool(&env.v, r);
    let mut have: Vec<Arch> = vec![];
    let go = |env: &mut Env, r: &mut Rng, have: &mut Vec<Arch>, t: &mut Tally| -> R {
        let n = r.range(2, 9);
        for _ in 0..n {
            env.opno += 1;
            build(env, r, &pl, have)?;
            t.ops += 1;
        }
        for x in have.iter() {
            one(env, x)?;
            lists(env, r, x, &pl)?;
            let mut h = 7;
            for t in &x.set {
                h = mix(h ^ *t as u64);
            }
            if t.states.len() < 150_000 {
                t.states.insert(h);
            }
        }
        for i in 0..have.len() {
            for j in 0..have.len() {
                two(env, r, &have[i], &have[j])?;
            }
        }
        // clones outlive their sources
        let mut clones = vec![];
        while let Some(x) = have.pop() {
            let c = env.call("clone", OWN, || x.a.clone())?;
            let c = Arch { a: c, set: x.set.clone(), how: format!("{} clone", x.how) };
            two(env, r, &x, &c)?;
            if r.chance(1, 2) {
                env.call("drop Archetype", OWN, move || drop(x.a))?;
                clones.push(c);
            } else {
                env.call("drop Archetype", OWN, move || drop(c.a))?;
                clones.push(x);
            }
        }
        for c in &clones {
            one(env, c)?;
        }
        // archetypes as a store reports them
        let mut s = env.call("Store::new", OWN, Store::new)?;
        for c in clones.iter() {
            if !fits(&env.v, &c.set) {
                continue;
            }
            let h = match env.try_call("create_entity_with_archetype", 0, || s.create_entity_with_archetype(&c.a))? {
                Ok(h) => h,
                Err(m) => return Err(Stop::Cut(m)),
            };
            let a = env.call("get_entity_archetype", OWN, || s.get_entity_archetype(h).cloned())?;
            match a {
                Some(a) => {
                    let d = Arch { a, set: c.set.clone(), how: format!("{} stored", c.how) };
                    one(env, &d)?;
                    two(env, r, &d, c)?;
                }
                None => return env.fail(bit(3), || "no archetype".into()),
            }
        }
        env.call("drop Store", bit(13), || drop(s))?;
        while let Some(c) = clones.pop() {
            env.call("drop Archetype", OWN, move || drop(c.a))?;
        }
        Ok(())
    };
    let o = go(env, r, &mut have, t);
    match o {
        Ok(()) => Outcome::Done,
        Err(Stop::Viol(msg)) => {
            std::mem::forget(have);
            Outcome::Viol { op: env.opno as usize, msg }
        }
        Err(Stop::Cut(msg)) => {
            std::mem::forget(have);
            Outcome::Cut { op: env.opno as usize, msg }
        }
    }
}

pub fn replay(t: &str) -> Option<String> {
    let num = |k: &str| {
        t.lines().find_map(|l| l.strip_prefix(k)).and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(0)
    };
    let mut env = Env::new((num("prop ") as usize).max(1));
    match run(&mut env, num("seed "), num("id "), &mut new_tally()) {
        Outcome::Viol { msg, .. } => Some(msg),
        Outcome::Cut { msg, .. } => {
            println!("CUT 0 {msg}");
            None
        }
        _ => None,
    }
}
pub fn main(a: &Args) {
    let mut env = Env::new(a.prop);
    let mut t = new_tally();
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs_f64(a.secs);
    let mut i = 0u64;
    while i < a.cases && std::time::Instant::now() < deadline {
        let id = i * a.shard.1 as u64 + a.shard.0 as u64;
        i += 1;
        if a.skip.contains(&id) || id < a.from {
            continue;
        }
        let text = format!("mode sets\nprop {}\nseed {}\nid {id}\n", a.prop, a.seed);
        if let Some(d) = a.dump {
            if d == id {
                println!("{text}");
                return;
            }
            continue;
        }
        if a.announce {
            println!("CASE {id}");
        }
        t.cases += 1;
        match run(&mut env, a.seed, id, &mut t) {
            Outcome::Viol { op, msg } => crate::report_violation(a, &text, op, &msg),
            Outcome::Cut { msg, .. } => crate::note_cut(&mut t, msg),
            _ => {}
        }
    }
    if a.dump.is_none() {
        t.sample = Some("random builder routes (tuples, lists, archetypes, exclusions) against sets of type indices".into());
        crate::summary(a, "sets", &env, &t, &[]);
    }
}
