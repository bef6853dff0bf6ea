//! Oracles: what the library reports against what the model says.
use crate::rng::Rng;
use crate::types::*;
use crate::world::*;
use division_ecs::*;
use std::any::Any;
use std::collections::HashMap;

const NOCB: fn(Option<Entity>, &[*mut u8]) = |_, _| {};

/// Items of one query run, resolved to entities.
pub struct Items {
    pub ents: Vec<Entity>,
    pub ptrs: Vec<*mut u8>,
    pub n: usize,
    pub width: usize,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    C,
    F,
    E,
    O,
}
impl Kind {
    fn no(self) -> u8 {
        match self {
            Kind::C => 0,
            Kind::F => 1,
            Kind::E => 2,
            Kind::O => 3,
        }
    }
    fn owner(self) -> u32 {
        match self {
            Kind::C => CQ,
            Kind::F => TAG,
            Kind::E => EQ,
            Kind::O => OQ,
        }
    }
    fn name(self) -> &'static str {
        match self {
            Kind::C => "component query",
            Kind::F => "tag-filtered query",
            Kind::E => "entity-list query",
            Kind::O => "ordered query",
        }
    }
}

fn styled(env: &Env, k: Kind, qi: usize) -> bool {
    match k {
        Kind::C => env.v.cqs[qi].styled,
        Kind::F => env.v.fqs[qi].styled,
        Kind::E => env.v.eqs[qi].styled,
        Kind::O => env.v.oqs[qi].styled,
    }
}
pub fn qtypes(env: &Env, k: Kind, qi: usize) -> (Vec<usize>, usize) {
    let (r, w) = match k {
        Kind::C => (env.v.cqs[qi].read, env.v.cqs[qi].write),
        Kind::F => (env.v.fqs[qi].read, env.v.fqs[qi].write),
        Kind::E => (env.v.eqs[qi].read, env.v.eqs[qi].write),
        Kind::O => (env.v.oqs[qi].read, env.v.oqs[qi].write),
    };
    let mut t = r.to_vec();
    t.extend_from_slice(w);
    (t, r.len())
}

fn raw_run(
    w: &World,
    env: &mut Env,
    k: Kind,
    qi: usize,
    list: &[Entity],
    q: &mut dyn Any,
    opt: &QOpt,
    out: &mut QOut,
    owners: u32,
    cb: ItemCb,
) -> R {
    out.clear();
    let s = w.s();
    let name = k.name();
    if k == Kind::E {
        let f = env.v.eqs[qi].run;
        env.call(name, owners, || f(s, list, q, opt, out, cb))
    } else {
        let f = match k {
            Kind::C => env.v.cqs[qi].run,
            Kind::F => env.v.fqs[qi].run,
            _ => env.v.oqs[qi].run,
        };
        env.call(name, owners, || f(s, q, opt, out, cb))
    }
}

/// An ordered query over a cyclic chain would not return: cut the case.
pub fn chain_ok(w: &World, env: &mut Env, g: usize) -> R<bool> {
    let f = env.v.groups[g].first;
    let nx = env.v.groups[g].next;
    let s = w.s();
    let mut cur = env.call("get_first_entity_ordered_by", ORD, || f(s))?;
    let mut n = 0;
    let bound = s.entities_capacity() + 2;
    while let Some(e) = cur {
        n += 1;
        if n > bound {
            return Ok(false);
        }
        cur = env.call("get_next_entity_ordered_by", ORD, || nx(s, e))?;
    }
    Ok(true)
}

/// Model's answer, in order where the order is specified.
fn expected(w: &World, env: &Env, k: Kind, qi: usize, list: &[Entity]) -> Vec<usize> {
    let (ts, _) = qtypes(env, k, qi);
    match k {
        Kind::C => w.live.iter().copied().filter(|&i| w.ents[i].has_all(&ts)).collect(),
        Kind::F => {
            let t = env.v.fqs[qi].tag;
            w.live.iter().copied().filter(|&i| w.ents[i].has_all(&ts) && w.ents[i].tags >> t & 1 == 1).collect()
        }
        Kind::E => list.iter().filter_map(|&h| w.who(h)).filter(|&i| w.ents[i].has_all(&ts)).collect(),
        Kind::O => {
            let g = env.v.oqs[qi].group;
            w.groups[g].iter().copied().filter(|&i| w.ents[i].has_all(&ts)).collect()
        }
    }
}

/// Run a query and compare all of it with the model.
pub fn check_query(
    w: &World,
    env: &mut Env,
    k: Kind,
    qi: usize,
    list: &[Entity],
    with_entities: bool,
    owners: u32,
) -> R {
    if k == Kind::O && !chain_ok(w, env, env.v.oqs[qi].group)? {
        return env.fail(ORD, || "order group chain does not end".into());
    }
    let (ts, _nread) = qtypes(env, k, qi);
    let exp = expected(w, env, k, qi, list);
    let mut out = QOut::default();
    let take = exp.len() * 2 + 64;
    // mostly step by step; sometimes by another method that must give the same
    env.nquery += 1;
    let x = mix(env.nquery ^ 0x517);
    let style = if x % 2 == 0 && styled(env, k, qi) { (x >> 8) as usize % BOUNDED } else { 0 };
    let opt = QOpt { with_entities: with_entities || k == Kind::F, take, lens: false, after: 1, style: style as u8, k: (x >> 20) as usize % 5 };
    let mut q = env.take_query(k.no(), qi)?;
    let r = raw_run(w, env, k, qi, list, &mut *q, &opt, &mut out, owners, &mut NOCB);
    env.qcache.insert((k.no(), qi), q);
    r?;
    env.checks += 1;
    let nm = names(env, &ts);
    let by = if style > 0 { STYLES[style] } else { "" };
    let what = || format!("{} over {:?}{} {by}", k.name(), nm, if opt.with_entities { " with entities" } else { "" });
    if out.not_fused {
        return env.fail(bit(17), || format!("{}: yields again after exhaustion", what()));
    }
    let width = ts.len();
    // addresses of the expected entities by direct access
    let ordered = k == Kind::E || k == Kind::O;
    let mut addr: Vec<Vec<*mut u8>> = Vec::with_capacity(exp.len());
    let mut by_addr: HashMap<*mut u8, usize> = HashMap::new();
    let mut direct_bad = false;
    for (p, &i) in exp.iter().enumerate() {
        let mut a = Vec::with_capacity(width);
        for &t in &ts {
            match w.direct(env, i, t)? {
                Some(x) => a.push(x),
                None => {
                    direct_bad = true;
                    break;
                }
            }
        }
        if a.len() == width {
            by_addr.insert(a[0], p);
        }
        addr.push(a);
    }
    if opt.with_entities {
        // handles first: they need no direct access
        if ordered {
            let want: Vec<Entity> = exp.iter().map(|&i| w.ents[i].h).collect();
            if out.ents != want {
                return env.fail(owners, || {
                    format!("{}: yields {} handles {}, expected {} {}", what(), out.n, brief(&out.ents), want.len(), brief(&want))
                });
            }
        } else {
            let mut seen: HashMap<usize, u32> = HashMap::new();
            for h in &out.ents {
                match w.who(*h) {
                    Some(i) => *seen.entry(i).or_insert(0) += 1,
                    None => return env.fail(owners, || format!("{}: yields handle {h:?} which is not alive", what())),
                }
            }
            for &i in &exp {
                if seen.remove(&i) != Some(1) {
                    let h = w.ents[i].h;
                    return env.fail(owners, || format!("{}: matching entity {h:?} not yielded exactly once ({} items, {} matching)", what(), out.n, exp.len()));
                }
            }
            if let Some((&i, _)) = seen.iter().next() {
                let h = w.ents[i].h;
                return env.fail(owners, || format!("{}: yields {h:?}, which does not match", what()));
            }
        }
    } else if out.n != exp.len() {
        return env.fail(owners, || format!("{}: yields {} items, {} match", what(), out.n, exp.len()));
    }
    if direct_bad {
        return Err(Stop::Cut("direct access disagrees with the model".into()));
    }
    let mut hit = vec![false; exp.len()];
    let mut pos_of: HashMap<usize, usize> = HashMap::new();
    if opt.with_entities && !ordered {
        for (p, &i) in exp.iter().enumerate() {
            pos_of.insert(i, p);
        }
    }
    for n in 0..out.n {
        let item = &out.ptrs[n * width..(n + 1) * width];
        let p = if ordered {
            n
        } else if opt.with_entities {
            pos_of[&w.who(out.ents[n]).unwrap()]
        } else {
            match by_addr.get(&item[0]) {
                Some(&p) if !hit[p] => p,
                _ => return env.fail(owners, || format!("{}: item {n} is no matching entity's component, or repeats one", what())),
            }
        };
        hit[p] = true;
        if item != &addr[p][..] {
            let h = w.ents[exp[p]].h;
            let c = (0..width).find(|&c| item[c] != addr[p][c]).unwrap();
            let m = names(env, &ts)[c];
            return env.fail(owners, || format!("{}: item {n} refers to a wrong {m} for entity {h:?}", what()));
        }
        // the values behind the references (of enormous populations a sample)
        if out.n > 20_000 && mix(n as u64 ^ env.nquery << 32) % 16 != 0 {
            continue;
        }
        let e = &w.ents[exp[p]];
        for (c, &t) in ts.iter().enumerate() {
            if let Some(st) = e.comps[e.find(t).unwrap()].1 {
                let got = unsafe { (env.v.types[t].sig)(item[c]) };
                if got != (env.v.types[t].sig_of)(st) {
                    return env.fail(bit(2) & owners, || format!("{}: entity {:?} yields a stale or foreign value of {}", what(), e.h, env.v.types[t].name));
                }
            }
        }
    }
    Ok(())
}

fn names(env: &Env, ts: &[usize]) -> Vec<&'static str> {
    ts.iter().map(|&t| env.v.types[t].name.rsplit("::").next().unwrap()).collect()
}
fn brief(v: &[Entity]) -> String {
    let mut s = String::from("[");
    for e in v.iter().take(10) {
        s += &format!("{}v{} ", e.id(), e.version());
    }
    if v.len() > 10 {
        s += "..";
    }
    s + "]"
}

/// A list of handles of every sort.
pub fn make_list(w: &World, r: &mut Rng, repeats: bool) -> Vec<Entity> {
    let mut l: Vec<Entity> = Vec::new();
    let mode = r.below(6);
    let n = match r.below(5) {
        0 => r.below(3),
        1..=3 => r.range(1, 24),
        _ => r.range(1, 200),
    };
    let live = &w.live;
    if mode == 0 && !live.is_empty() {
        // storage order, the whole population
        let most = if r.chance(1, 2) { 2000 } else { 150_000 };
        let mut a: Vec<usize> = live.iter().copied().take(most).collect();
        if r.chance(1, 2) {
            a.sort_unstable();
        }
        if r.chance(1, 3) {
            a.reverse();
        }
        l.extend(a.into_iter().map(|i| w.ents[i].h));
        // a few intruders
        for _ in 0..r.below(6) {
            if !w.dead.is_empty() {
                let p = r.below(l.len() + 1);
                l.insert(p, w.ents[*r.pick(&w.dead)].h);
            }
        }
        // now and then a very long list
        if repeats && !cfg!(miri) && l.len() > 3 && r.chance(1, if w.ents.len() < 60 { 12_000 } else { 1000 }) {
            let m = l.len();
            for d in m..r.range(65_500, 70_000).max(m) {
                l.push(l[d % m]);
            }
        }
        return l;
    }
    let recycled: Vec<usize> = w.dead.iter().rev().take(300).copied().filter(|&d| w.id_live(w.ents[d].h.id()).is_some()).collect();
    let bare: Vec<usize> = live.iter().take(300).copied().filter(|&i| w.ents[i].comps.is_empty()).collect();
    for _ in 0..n {
        let x = r.below(10);
        let i = if x < 5 && !live.is_empty() {
            *r.pick(live)
        } else if x < 6 && !w.dead.is_empty() {
            *r.pick(&w.dead)
        } else if x < 8 && !recycled.is_empty() {
            *r.pick(&recycled)
        } else if x == 8 && !bare.is_empty() {
            *r.pick(&bare)
        } else if !l.is_empty() {
            let p = r.below(l.len());
            let h = l[p];
            l.push(h);
            continue;
        } else if !live.is_empty() {
            *r.pick(live)
        } else {
            continue;
        };
        l.push(w.ents[i].h);
    }
    if !repeats {
        let mut seen = std::collections::HashSet::new();
        l.retain(|h| seen.insert((h.id(), h.version())));
    }
    l
}

/// State-changing writes through write queries.
pub fn query_write(w: &mut World, env: &mut Env, c: &Case, o: Op) -> R<bool> {
    let _ = c;
    let (k, rel) = match o.code {
        op::QWrite => (Kind::C, &env.rel_cq),
        op::EWrite => (Kind::E, &env.rel_eq),
        _ => (Kind::O, &env.rel_oq),
    };
    let cand: Vec<usize> = rel.iter().copied().filter(|&q| {
        let (t, nr) = qtypes(env, k, q);
        t.len() > nr
    }).collect();
    if cand.is_empty() {
        return Ok(false);
    }
    let qi = cand[o.a as usize % cand.len()];
    if k == Kind::O && !chain_ok(w, env, env.v.oqs[qi].group)? {
        return env.fail(ORD, || "order group chain does not end".into());
    }
    let mut r = Rng::new(o.b as u64);
    let list = if k == Kind::E { make_list(w, &mut r, false) } else { vec![] };
    let (ts, nread) = qtypes(env, k, qi);
    let with = o.c & 1 == 1;
    let keep = o.c >> 1 & 3; // 3: write only some items
    let exp = expected(w, env, k, qi, &list);
    // where each component lives, by direct access
    let mut at: HashMap<*mut u8, usize> = HashMap::new();
    let mut rows: Vec<Vec<*mut u8>> = vec![];
    for &i in &exp {
        let mut row = vec![];
        for &t in &ts {
            match w.direct(env, i, t)? {
                Some(p) => row.push(p),
                None => return env.fail(bit(3), || "direct access to a present component gave nothing".into()),
            }
        }
        at.insert(row[nread], rows.len());
        rows.push(row);
    }
    let handle_of: Vec<Entity> = exp.iter().map(|&i| w.ents[i].h).collect();
    let mut writes: Vec<(usize, usize, u64)> = vec![];
    let mut stamp = w.stamp;
    let mut bad: Option<(bool, String)> = None;
    let mut n_items = 0usize;
    let opt = QOpt { with_entities: with, take: exp.len() + 8, lens: false, after: 0, style: 0, k: 0 };
    let mut q = env.take_query(k.no(), qi)?;
    let mut out = QOut::default();
    {
        let writers: Vec<unsafe fn(*mut u8, u64)> = ts.iter().map(|&t| env.v.types[t].write).collect();
        let mut cb = |h: Option<Entity>, ptrs: &[*mut u8]| {
            n_items += 1;
            if bad.is_some() {
                return;
            }
            let p = match at.get(&ptrs[nread]) {
                Some(&p) => p,
                None => {
                    bad = Some((h.is_some(), "an item is no expected entity's component".into()));
                    return;
                }
            };
            if let Some(h) = h {
                if handle_of[p] != h {
                    bad = Some((true, format!("item paired with {h:?} refers to a component of {:?}", handle_of[p])));
                    return;
                }
            }
            if ptrs != &rows[p][..] {
                bad = Some((h.is_some(), format!("item of {:?} mixes components of several entities", handle_of[p])));
                return;
            }
            if keep == 3 && r.chance(1, 2) {
                return;
            }
            for c in nread..ts.len() {
                stamp += 1;
                unsafe { writers[c](ptrs[c], stamp) };
                writes.push((p, ts[c], stamp));
            }
        };
        let owners = k.owner();
        let res = raw_run(w, env, k, qi, &list, &mut *q, &opt, &mut out, owners, &mut cb);
        env.qcache.insert((k.no(), qi), q);
        res?;
    }
    w.stamp = stamp;
    for (p, t, st) in writes {
        w.set_comp(exp[p], t, st);
    }
    if let Some((with_handle, m)) = bad {
        let own = k.owner() | if with_handle { bit(2) } else { 0 };
        return env.fail(own, || format!("write through {} over {:?}: {m}", k.name(), names(env, &ts)));
    }
    if n_items != exp.len() {
        return env.fail(k.owner(), || format!("write through {} over {:?}: {n_items} items, {} match", k.name(), names(env, &ts), exp.len()));
    }
    Ok(true)
}

// ------------------------------------------------------------------ probes
fn some_of(r: &mut Rng, all: &[usize], cap: usize) -> Vec<usize> {
    if all.len() <= cap {
        all.to_vec()
    } else {
        let s = r.below(all.len());
        let mut v: Vec<usize> = (0..cap / 2).map(|d| all[(s + d) % all.len()]).collect();
        for d in 0..cap - cap / 2 {
            // one in four of these among the newest
            v.push(if d % 4 == 0 { all[all.len() - 1 - r.below(cap)] } else { *r.pick(all) });
        }
        v
    }
}

pub fn probe(w: &mut World, env: &mut Env, c: &Case, o: Op, deep: bool) -> R {
    let mut r = Rng::new(((o.a as u64) << 32) ^ ((o.b as u64) << 11) ^ o.c as u64);
    let cap = if deep { 4000 } else { 400 };
    match env.prop {
        1 => p_alive(w, env, &mut r, cap)?,
        2 => p_values(w, env, &mut r, cap)?,
        3 => p_sets(w, env, c, &mut r, cap)?,
        4 => p_queries(w, env, &mut r, Kind::C, if deep { 8 } else { 2 })?,
        5 => p_tags(w, env, c, &mut r, cap)?,
        6 => p_queries(w, env, &mut r, Kind::E, match (deep, w.live.len()) { (true, 0..=500) => 12, (true, _) => 5, _ => 3 })?,
        7 => p_orders(w, env, c, &mut r, cap)?,
        8 => p_queries(w, env, &mut r, Kind::O, if deep { 10 } else { 3 })?,
        10 | 13 => exercise(w, env, c, &mut r, cap.min(if deep { 400 } else { 60 }))?,
        11 => p_layout(w, env, &mut r, cap)?,
        16 => p_lens(w, env, &mut r, if deep { 8 } else { 3 })?,
        17 => p_reuse(w, env, c, &mut r, if deep { 6 } else { 2 })?,
        _ => {}
    }
    Ok(())
}

fn p_alive(w: &World, env: &mut Env, r: &mut Rng, cap: usize) -> R {
    let mut idx: Vec<usize> = some_of(r, &w.live, cap);
    idx.extend(some_of(r, &w.dead, cap));
    let s = w.s();
    for i in idx {
        let e = &w.ents[i];
        env.checks += 1;
        let got = env.call("is_alive", ALIVE, || s.is_alive(e.h))?;
        if got != e.alive {
            return env.fail(bit(1), || format!("{:?} is reported alive: {got}, but it was {}", e.h, if e.alive { "never destroyed" } else { "destroyed" }));
        }
    }
    Ok(())
}

fn check_value(w: &World, env: &mut Env, i: usize, t: usize, st: u64, p: *mut u8, path: &str) -> R {
    env.checks += 1;
    let got = unsafe { (env.v.types[t].sig)(p) };
    if got != (env.v.types[t].sig_of)(st) {
        let h = w.ents[i].h;
        return env.fail(bit(2), || format!("{path} of {} on {h:?} does not return the value last written", env.v.types[t].name));
    }
    Ok(())
}

fn p_values(w: &mut World, env: &mut Env, r: &mut Rng, cap: usize) -> R {
    let idx = some_of(r, &w.live, cap);
    for i in idx {
        let comps = w.ents[i].comps.clone();
        let h = w.ents[i].h;
        for &(t, st) in &comps {
            if let Some(st) = st {
                match w.direct(env, i, t)? {
                    Some(p) => check_value(w, env, i, t, st, p, "single access")?,
                    None => return env.fail(bit(2) | bit(3), || format!("{h:?} lost its {}", env.v.types[t].name)),
                }
            }
        }
        // combined access, shared and exclusive
        if !env.rel_tup.is_empty() && !comps.is_empty() {
            for _ in 0..3 {
                let k = *r.pick(&env.rel_tup);
                let ts = env.v.tups[k].types;
                if ts.len() < 2 || !w.ents[i].has_all(ts) {
                    continue;
                }
                let mut out = vec![];
                let some = if r.chance(1, 2) {
                    let f = env.v.tups[k].refs;
                    let s = w.s();
                    env.call("get_components_refs", REFS, || f(s, h, &mut out))?
                } else {
                    let f = env.v.tups[k].refs_mut;
                    let s = w.store.as_mut().unwrap();
                    env.call("get_components_refs_mut", REFS, || f(s, h, &mut out))?
                };
                if !some {
                    return env.fail(bit(3) | bit(2), || format!("combined access of {h:?} to {ts:?} gave nothing"));
                }
                for (n, &t) in ts.iter().enumerate() {
                    let e = &w.ents[i];
                    if let Some(st) = e.comps[e.find(t).unwrap()].1 {
                        check_value(w, env, i, t, st, out[n], "combined access")?;
                    }
                }
            }
        }
    }
    // through queries, paired with the handle
    for kind in [Kind::C, Kind::E, Kind::O] {
        if r.chance(1, 3) {
            q_values(w, env, r, kind)?;
        }
    }
    Ok(())
}

/// values seen through a query that names the entity
fn q_values(w: &World, env: &mut Env, r: &mut Rng, k: Kind) -> R {
    let rel = match k {
        Kind::C => &env.rel_cq,
        Kind::E => &env.rel_eq,
        _ => &env.rel_oq,
    };
    if rel.is_empty() {
        return Ok(());
    }
    let qi = *r.pick(rel);
    if k == Kind::O && !chain_ok(w, env, env.v.oqs[qi].group)? {
        return env.fail(ORD, || "order group chain does not end".into());
    }
    let (ts, nread) = qtypes(env, k, qi);
    let list = if k == Kind::E { make_list(w, r, nread == ts.len()) } else { vec![] };
    let exp = expected(w, env, k, qi, &list);
    let opt = QOpt { with_entities: true, take: exp.len() + 8, lens: false, after: 0, style: 0, k: 0 };
    let mut q = env.take_query(k.no(), qi)?;
    let mut out = QOut::default();
    let res = raw_run(w, env, k, qi, &list, &mut *q, &opt, &mut out, k.owner(), &mut NOCB);
    env.qcache.insert((k.no(), qi), q);
    res?;
    for n in 0..out.n {
        let i = match w.who(out.ents[n]) {
            Some(i) => i,
            None => return env.fail(k.owner(), || format!("{} yields {:?}, which is not alive", k.name(), out.ents[n])),
        };
        for (p, &t) in ts.iter().enumerate() {
            let e = &w.ents[i];
            match e.find(t) {
                None => return env.fail(k.owner(), || format!("{} yields {:?}, which does not match", k.name(), e.h)),
                Some(x) => {
                    if let Some(st) = e.comps[x].1 {
                        check_value(w, env, i, t, st, out.ptrs[n * ts.len() + p], k.name())?
                    }
                }
            }
        }
    }
    Ok(())
}

fn p_sets(w: &mut World, env: &mut Env, c: &Case, r: &mut Rng, cap: usize) -> R {
    let idx = some_of(r, &w.live, cap);
    for i in idx {
        let e = &w.ents[i];
        let h = e.h;
        let s = w.s();
        env.checks += 1;
        let valid = env.call("is_valid_entity_with_archetype", ARCH, || s.is_valid_entity_with_archetype(h))?;
        let a = env.call("get_entity_archetype", ARCH, || s.get_entity_archetype(h))?;
        if valid == e.comps.is_empty() || a.is_some() == e.comps.is_empty() {
            return env.fail(bit(3), || {
                format!("{h:?} has {} components; has-archetype is reported {valid}, archetype given: {}", e.comps.len(), a.is_some())
            });
        }
        if let Some(a) = a {
            let got: Vec<(std::any::TypeId, usize, usize)> =
                env.call("components_iter", ARCH, || a.components_iter().map(|c| (c.id(), c.size(), c.align())).collect())?;
            let n = env.call("component_count", ARCH, || a.component_count())?;
            let mut ok = got.len() == e.comps.len() && n == got.len();
            for &(t, _) in &e.comps {
                let v = &env.v.types[t];
                ok &= got.iter().filter(|g| g.0 == v.id && g.1 == v.size && g.2 == v.align).count() == 1;
            }
            if !ok {
                let set = names(env, &e.set());
                let all: Vec<&str> = got.iter().map(|g| env.v.types.iter().find(|t| t.id == g.0).map(|t| t.name).unwrap_or("?")).collect();
                return env.fail(bit(3), || format!("{h:?} should have {set:?}, its archetype lists {all:?}"));
            }
        }
        let mut out = vec![];
        for &t in &c.types {
            let f = env.v.tups[env.v.single[t]].refs;
            out.clear();
            let some = env.call("get_components_refs", REFS, || f(s, h, &mut out))?;
            if some != e.find(t).is_some() {
                return env.fail(bit(3), || format!("{h:?}: access to {} gives a result: {some}, but the component is {}", env.v.types[t].name, if some { "absent" } else { "present" }));
            }
        }
        for _ in 0..4 {
            if env.rel_tup.is_empty() {
                break;
            }
            let k = *r.pick(&env.rel_tup);
            out.clear();
            let f = env.v.tups[k].refs;
            let some = env.call("get_components_refs", REFS, || f(s, h, &mut out))?;
            if some != e.has_all(env.v.tups[k].types) {
                return env.fail(bit(3), || format!("{h:?}: combined access to {:?} gives a result: {some}", names(env, env.v.tups[k].types)));
            }
        }
    }
    for i in some_of(r, &w.dead, 20) {
        let h = w.ents[i].h;
        let s = w.s();
        let v = env.call("is_valid_entity_with_archetype", ARCH, || s.is_valid_entity_with_archetype(h))?;
        let a = env.call("get_entity_archetype", ARCH, || s.get_entity_archetype(h).is_some())?;
        if v || a {
            return env.fail(bit(3), || format!("dead handle {h:?} is reported to have an archetype"));
        }
    }
    Ok(())
}

fn p_queries(w: &World, env: &mut Env, r: &mut Rng, k: Kind, n: usize) -> R {
    let rel = match k {
        Kind::C => env.rel_cq.clone(),
        Kind::E => env.rel_eq.clone(),
        _ => env.rel_oq.clone(),
    };
    if rel.is_empty() {
        return Ok(());
    }
    for _ in 0..n {
        let mut qi = *r.pick(&rel);
        if k == Kind::O && r.chance(1, 2) {
            // prefer groups with members
            for _ in 0..6 {
                if w.groups[env.v.oqs[qi].group].len() > 1 {
                    break;
                }
                qi = *r.pick(&rel);
            }
        }
        let (ts, nread) = qtypes(env, k, qi);
        let list = if k == Kind::E { make_list(w, r, nread == ts.len()) } else { vec![] };
        check_query(w, env, k, qi, &list, r.chance(2, 3), k.owner())?;
        let st: Vec<usize> = rel.iter().copied().filter(|&q| styled(env, k, q)).collect();
        if !st.is_empty() && r.chance(1, 2) {
            let qi = *r.pick(&st);
            let list = if k == Kind::E { make_list(w, r, qtypes(env, k, qi).1 == qtypes(env, k, qi).0.len()) } else { vec![] };
            if k != Kind::O || chain_ok(w, env, env.v.oqs[qi].group)? {
                p_styles(w, env, r, k, qi, &list)?;
            }
        }
    }
    Ok(())
}

fn p_tags(w: &World, env: &mut Env, c: &Case, r: &mut Rng, cap: usize) -> R {
    let idx = some_of(r, &w.live, cap);
    let s = w.s();
    for i in idx {
        let e = &w.ents[i];
        for &t in &c.tags {
            env.checks += 1;
            let f = env.v.tags[t].has;
            let got = env.call("has_tag", TAG, || f(s, e.h))?;
            if got != (e.tags >> t & 1 == 1) {
                return env.fail(bit(5), || format!("{:?}: tag {t} is reported {got}", e.h));
            }
        }
    }
    if !env.rel_fq.is_empty() {
        for _ in 0..2 {
            let q = *r.pick(&env.rel_fq);
            if w.seen_tags >> env.v.fqs[q].tag & 1 == 1 {
                check_query(w, env, Kind::F, q, &[], true, TAG)?;
                p_styles(w, env, r, Kind::F, q, &[])?;
            }
        }
    }
    Ok(())
}

fn p_orders(w: &World, env: &mut Env, c: &Case, r: &mut Rng, cap: usize) -> R {
    let s = w.s();
    for &g in &c.groups {
        let seq = &w.groups[g];
        let (first, last, next, prev) = (env.v.groups[g].first, env.v.groups[g].last, env.v.groups[g].next, env.v.groups[g].prev);
        let want: Vec<Entity> = seq.iter().map(|&i| w.ents[i].h).collect();
        env.checks += 1;
        let f = env.call("get_first_entity_ordered_by", ORD, || first(s))?;
        let l = env.call("get_last_entity_ordered_by", ORD, || last(s))?;
        if f != want.first().copied() || l != want.last().copied() {
            return env.fail(ORD, || format!("group {g}: first {f:?} last {l:?}, expected {:?} {:?}", want.first(), want.last()));
        }
        let range: Vec<usize> = if want.len() <= cap {
            (0..want.len()).collect()
        } else {
            let mut v: Vec<usize> = (0..cap).map(|_| r.below(want.len())).collect();
            v.push(0);
            v.push(want.len() - 1);
            v
        };
        for p in range {
            env.checks += 1;
            let n = env.call("get_next_entity_ordered_by", ORD, || next(s, want[p]))?;
            let b = env.call("get_previous_entity_ordered_by", ORD, || prev(s, want[p]))?;
            let en = want.get(p + 1).copied();
            let eb = if p > 0 { Some(want[p - 1]) } else { None };
            if n != en || b != eb {
                return env.fail(ORD, || {
                    format!("group {g} of {} members, position {p} ({:?}): next {n:?} (expected {en:?}), previous {b:?} (expected {eb:?})", want.len(), want[p])
                });
            }
        }
        for i in some_of(r, &w.live, cap.min(60)) {
            if w.ents[i].groups >> g & 1 == 1 {
                continue;
            }
            let h = w.ents[i].h;
            let n = env.call("get_next_entity_ordered_by", ORD, || next(s, h))?;
            let b = env.call("get_previous_entity_ordered_by", ORD, || prev(s, h))?;
            if n.is_some() || b.is_some() {
                return env.fail(ORD, || format!("group {g}: non-member {h:?} has next {n:?} previous {b:?}"));
            }
        }
    }
    Ok(())
}

/// alignment, containment and disjointness of everything reachable
fn p_layout(w: &World, env: &mut Env, r: &mut Rng, cap: usize) -> R {
    let blocks = crate::alloc::blocks();
    let mut spans: Vec<(usize, usize, usize, usize)> = vec![];
    for i in some_of(r, &w.live, cap) {
        for n in 0..w.ents[i].comps.len() {
            let t = w.ents[i].comps[n].0;
            let p = match w.direct(env, i, t)? {
                Some(p) => p as usize,
                None => return Err(Stop::Cut("component missing".into())),
            };
            env.checks += 1;
            let ty = &env.v.types[t];
            let (size, align, name) = (ty.size, ty.align, ty.name);
            if p % align != 0 {
                return env.fail(bit(11), || format!("{name} of {:?} at an address not aligned to {align}", w.ents[i].h));
            }
            if crate::alloc::TRACKED {
                let b = blocks.partition_point(|b| b.0 <= p);
                let ok = b > 0 && p + size <= blocks[b - 1].0 + blocks[b - 1].1;
                if !ok {
                    return env.fail(bit(11), || format!("{name} ({size} bytes) of {:?} does not lie inside one live allocation", w.ents[i].h));
                }
            }
            spans.push((p, p + size, i, t));
        }
    }
    spans.sort_unstable();
    spans.dedup();
    for s in spans.windows(2) {
        if s[0].1 > s[1].0 {
            return env.fail(bit(11), || {
                format!(
                    "{} of {:?} overlaps {} of {:?}",
                    env.v.types[s[0].3].name, w.ents[s[0].2].h, env.v.types[s[1].3].name, w.ents[s[1].2].h
                )
            });
        }
    }
    Ok(())
}

fn p_lens(w: &World, env: &mut Env, r: &mut Rng, n: usize) -> R {
    for _ in 0..n {
        let k = if r.chance(1, 2) || env.rel_oq.is_empty() { Kind::C } else { Kind::O };
        let rel = if k == Kind::C { &env.rel_cq } else { &env.rel_oq };
        if rel.is_empty() {
            continue;
        }
        let qi = *r.pick(rel);
        if k == Kind::O && !chain_ok(w, env, env.v.oqs[qi].group)? {
            return env.fail(ORD, || "order group chain does not end".into());
        }
        let exp = expected(w, env, k, qi, &[]).len();
        let mut q = env.take_query(k.no(), qi)?;
        let mut out = QOut::default();
        // how many items the same query yields
        let solo = QOpt { with_entities: false, take: usize::MAX, lens: false, after: 0, style: 0, k: 0 };
        let res = raw_run(w, env, k, qi, &[], &mut *q, &solo, &mut out, k.owner() | bit(16), &mut NOCB);
        let yielded = out.n;
        if res.is_ok() && yielded != exp {
            env.qcache.insert((k.no(), qi), q);
            return env.fail(k.owner(), || format!("{} yields {yielded} items, {exp} match", k.name()));
        }
        res?;
        let take = if r.chance(1, 4) { r.below(yielded + 2) } else { usize::MAX };
        let opt = QOpt { with_entities: false, take, lens: true, after: 2, style: r.chance(1, 4) as u8, k: r.below(7) };
        let res = raw_run(w, env, k, qi, &[], &mut *q, &opt, &mut out, k.owner() | bit(16), &mut NOCB);
        env.qcache.insert((k.no(), qi), q);
        res?;
        let (ts, _) = qtypes(env, k, qi);
        for &(len, lo, hi, p) in &out.lens {
            env.checks += 1;
            let left = yielded.saturating_sub(p);
            if len != left || lo > left || hi.map(|h| h < left).unwrap_or(false) || lo != left || hi != Some(left) {
                return env.fail(bit(16), || {
                    format!("{} over {:?} after {p} of {yielded} items: len {len}, size_hint ({lo}, {hi:?}), {left} remain", k.name(), names(env, &ts))
                });
            }
        }
    }
    Ok(())
}

/// The other ways to consume an iterator give what stepping it gives (`a`).
fn styles(w: &World, env: &mut Env, r: &mut Rng, k: Kind, qi: usize, list: &[Entity], q: &mut dyn Any, with: bool, a: &QOut, own: u32) -> R {
    if !styled(env, k, qi) {
        return Ok(());
    }
    let m = qtypes(env, k, qi).0.len();
    let mut b = QOut::default();
    for _ in 0..3 {
        let style = r.range(1, STYLES.len() - 1);
        let par = if r.chance(1, 2) { r.below(4) } else { r.below(a.n + 2) };
        let opt = QOpt { with_entities: with, take: a.n, lens: false, after: 0, style: style as u8, k: par };
        raw_run(w, env, k, qi, list, q, &opt, &mut b, own, &mut NOCB)?;
        env.checks += 1;
        let picks = style_picks(style, par, a.n);
        let same = b.n == picks.len()
            && (STYLES[style] == "count"
                || b.ptrs.len() == m * picks.len()
                    && picks.iter().enumerate().all(|(x, &p)| b.ptrs[x * m..(x + 1) * m] == a.ptrs[p * m..(p + 1) * m])
                    && (!with || picks.iter().enumerate().all(|(x, &p)| b.ents[x] == a.ents[p])));
        if !same {
            let (ts, _) = qtypes(env, k, qi);
            return env.fail(own, || {
                format!("{} over {:?} of {} items: `{}` ({par}) gives {} items, expected {} (or others)", k.name(), names(env, &ts), a.n, STYLES[style], b.n, picks.len())
            });
        }
        env.feat("iteration styles");
    }
    Ok(())
}
fn p_styles(w: &World, env: &mut Env, r: &mut Rng, k: Kind, qi: usize, list: &[Entity]) -> R {
    if !styled(env, k, qi) {
        return Ok(());
    }
    let with = k == Kind::F || r.chance(1, 2);
    let opt = QOpt { with_entities: with, take: w.live.len() + list.len() + 8, lens: false, after: 0, style: 0, k: 0 };
    let mut q = env.take_query(k.no(), qi)?;
    let mut a = QOut::default();
    raw_run(w, env, k, qi, list, &mut *q, &opt, &mut a, k.owner(), &mut NOCB)?;
    styles(w, env, r, k, qi, list, &mut *q, with, &a, k.owner())?;
    env.qcache.insert((k.no(), qi), q);
    Ok(())
}

fn p_reuse(w: &mut World, env: &mut Env, c: &Case, r: &mut Rng, n: usize) -> R {
    for _ in 0..n {
        let k = [Kind::C, Kind::E, Kind::O, Kind::F][r.below(4)];
        let rel = match k {
            Kind::C => &env.rel_cq,
            Kind::E => &env.rel_eq,
            Kind::O => &env.rel_oq,
            Kind::F => &env.rel_fq,
        };
        if rel.is_empty() {
            continue;
        }
        let mut qi = *r.pick(rel);
        if r.chance(1, 2) {
            let st: Vec<usize> = rel.iter().copied().filter(|&q| styled(env, k, q)).collect();
            if !st.is_empty() {
                qi = *r.pick(&st);
            }
        }
        if k == Kind::O && !chain_ok(w, env, env.v.oqs[qi].group)? {
            return env.fail(ORD, || "order group chain does not end".into());
        }
        if k == Kind::F && w.seen_tags >> env.v.fqs[qi].tag & 1 == 0 {
            continue;
        }
        let (ts, nread) = qtypes(env, k, qi);
        let list = if k == Kind::E { make_list(w, r, nread == ts.len()) } else { vec![] };
        let before = if w.live.len() <= 40 && r.chance(1, 3) { Some(snapshot(w, env, c)?) } else { None };
        let own = k.owner() | bit(17);
        let with = k == Kind::F || r.chance(1, 2);
        let full = QOpt { with_entities: with, take: usize::MAX, lens: false, after: 3, style: 0, k: 0 };
        // a fresh query object
        let mut fresh = env.new_query(k.no(), qi)?;
        let mut a = QOut::default();
        raw_run(w, env, k, qi, &list, &mut *fresh, &full, &mut a, own, &mut NOCB)?;
        // the old one, possibly abandoned half way first
        let mut old = env.take_query(k.no(), qi)?;
        let mut b = QOut::default();
        if r.chance(1, 2) {
            let part = QOpt { with_entities: with, take: r.below(a.n + 1), lens: false, after: 0, style: 0, k: 0 };
            raw_run(w, env, k, qi, &list, &mut *old, &part, &mut b, own, &mut NOCB)?;
        }
        if k == Kind::E && r.chance(1, 2) {
            let other = make_list(w, r, nread == ts.len());
            raw_run(w, env, k, qi, &other, &mut *old, &full, &mut b, own, &mut NOCB)?;
        }
        raw_run(w, env, k, qi, &list, &mut *old, &full, &mut b, own, &mut NOCB)?;
        env.checks += 1;
        if a.not_fused || b.not_fused {
            return env.fail(bit(17), || format!("{} yields again after exhaustion", k.name()));
        }
        if a.n != b.n || a.ptrs != b.ptrs || a.ents != b.ents {
            return env.fail(bit(17), || format!("{} over {:?}: a used query object yields {} items, a fresh one {} (or others)", k.name(), names(env, &ts), b.n, a.n));
        }
        styles(w, env, r, k, qi, &list, &mut *old, with, &a, own)?;
        env.qcache.insert((k.no(), qi), old);
        env.call("drop query", bit(13), || drop(fresh))?;
        if let Some(b) = before {
            let after = snapshot(w, env, c)?;
            if let Some(d) = diff(&b, &after, env, w) {
                return env.fail(bit(17), || format!("iterating a {} changed the store: {d}", k.name()));
            }
        }
    }
    // several read-only iterators stepped in turn
    if !env.v.inters.is_empty() {
        let cand: Vec<usize> = (0..env.v.inters.len())
            .filter(|&i| env.v.inters[i].types.iter().all(|t| c.types.contains(t)))
            .collect();
        if !cand.is_empty() {
            let it = cand[r.below(cand.len())];
            if !chain_ok(w, env, env.v.inters[it].group)? {
                return env.fail(ORD, || "order group chain does not end".into());
            }
            let list = make_list(w, r, true);
            let f = env.v.inters[it].run;
            let s = w.s();
            let seed = r.next();
            let own = CQ | EQ | OQ | bit(17);
            let (solo, mixed) = env.call("interleaved iterators", own, || f(s, &list, seed))?;
            env.checks += 1;
            if solo != mixed {
                return env.fail(bit(17), || "interleaved read-only iterators yield other items than one after the other".into());
            }
        }
    }
    Ok(())
}

/// Call everything and read everything readable; no oracle (C10, C13).
fn exercise(w: &mut World, env: &mut Env, c: &Case, r: &mut Rng, cap: usize) -> R {
    let mut acc = 0u64;
    for i in some_of(r, &w.live, cap) {
        let comps = w.ents[i].comps.clone();
        for (t, st) in comps {
            if let Some(p) = w.direct(env, i, t)? {
                if st.is_some() {
                    acc ^= unsafe { (env.v.types[t].sig)(p) };
                }
            }
        }
        let h = w.ents[i].h;
        let s = w.s();
        env.call("get_entity_archetype", ARCH, || s.get_entity_archetype(h).map(|a| a.component_count()))?;
        for &t in c.tags.iter().take(3) {
            let f = env.v.tags[t].has;
            env.call("has_tag", TAG, || f(s, h))?;
        }
    }
    for i in some_of(r, &w.dead, 6) {
        let h = w.ents[i].h;
        let s = w.s();
        env.call("is_alive", ALIVE, || s.is_alive(h))?;
        env.call("get_entity_archetype", ARCH, || s.get_entity_archetype(h).is_some())?;
    }
    for g in c.groups.clone() {
        if !chain_ok(w, env, g)? {
            return env.fail(ORD, || "order group chain does not end".into());
        }
        let (l, p) = (env.v.groups[g].last, env.v.groups[g].prev);
        let s = w.s();
        let mut cur = env.call("last", ORD, || l(s))?;
        let mut n = 0;
        while let Some(e) = cur {
            n += 1;
            if n > 300 {
                break;
            }
            cur = env.call("prev", ORD, || p(s, e))?;
        }
    }
    for k in [Kind::C, Kind::E, Kind::O, Kind::F] {
        let rel = match k {
            Kind::C => &env.rel_cq,
            Kind::E => &env.rel_eq,
            Kind::O => &env.rel_oq,
            Kind::F => &env.rel_fq,
        };
        if rel.is_empty() {
            continue;
        }
        let qi = *r.pick(rel);
        if k == Kind::F && w.seen_tags >> env.v.fqs[qi].tag & 1 == 0 {
            continue;
        }
        let (ts, nread) = qtypes(env, k, qi);
        let list = if k == Kind::E { make_list(w, r, nread == ts.len()) } else { vec![] };
        let mut q = env.take_query(k.no(), qi)?;
        let mut out = QOut::default();
        let opt = QOpt { with_entities: k == Kind::F || r.chance(1, 2), take: usize::MAX, lens: false, after: 2, style: 0, k: 0 };
        raw_run(w, env, k, qi, &list, &mut *q, &opt, &mut out, k.owner(), &mut NOCB)?;
        if k == Kind::C || k == Kind::O {
            let opt = QOpt { with_entities: false, take: usize::MAX, lens: true, after: 1, style: 0, k: 0 };
            let mut o2 = QOut::default();
            raw_run(w, env, k, qi, &list, &mut *q, &opt, &mut o2, k.owner(), &mut NOCB)?;
        }
        env.qcache.insert((k.no(), qi), q);
        // read what is known to be written
        if opt.with_entities {
            for n in 0..out.n {
                if let Some(i) = w.who(out.ents[n]) {
                    for (p, &t) in ts.iter().enumerate() {
                        let e = &w.ents[i];
                        if let Some(x) = e.find(t) {
                            if e.comps[x].1.is_some() {
                                acc ^= unsafe { (env.v.types[t].sig)(out.ptrs[n * ts.len() + p]) };
                            }
                        }
                    }
                }
            }
        } else {
            // touch the first byte of every referent: it must be readable memory
            for &p in &out.ptrs {
                acc ^= p as u64;
                #[cfg(not(miri))]
                unsafe {
                    acc ^= std::ptr::read_volatile(p) as u64;
                }
            }
        }
    }
    std::hint::black_box(acc);
    Ok(())
}

// ------------------------------------------------------------------ snapshots
pub type Snap = Vec<(u64, u64)>;
const K_ALIVE: u64 = 1;
const K_ARCH: u64 = 2;
const K_COMP: u64 = 3;
const K_TAG: u64 = 4;
const K_NEXT: u64 = 5;
const K_PREV: u64 = 6;
const K_SEQ: u64 = 7;
const K_QUERY: u64 = 8;

fn key(kind: u64, ent: usize, x: usize) -> u64 {
    kind << 56 | (ent as u64) << 16 | x as u64
}
fn ent_code(w: &World, h: Option<Entity>) -> u64 {
    match h {
        None => 0,
        Some(h) => match w.who(h) {
            Some(i) => 1 + i as u64,
            None => u64::MAX,
        },
    }
}

/// Everything observable, keyed by entity number (never by id or address).
pub fn snapshot(w: &World, env: &mut Env, c: &Case) -> R<Snap> {
    let mut out: Snap = vec![];
    let s = w.s();
    // a panic while observing belongs to the property that observes
    let own = bit(env.prop);
    let n_dead = w.dead.len();
    let mut all: Vec<usize> = w.live.clone();
    all.sort_unstable();
    let dead: Vec<usize> = w.dead[n_dead.saturating_sub(40)..].to_vec();
    for &i in all.iter().chain(&dead) {
        let h = w.ents[i].h;
        let alive = env.call("is_alive", own, || s.is_alive(h))?;
        out.push((key(K_ALIVE, i, 0), alive as u64));
        if !w.ents[i].alive {
            continue;
        }
        let e = &w.ents[i];
        let a = env.call("get_entity_archetype", own, || s.get_entity_archetype(h))?;
        let code = match a {
            None => 0,
            Some(a) => {
                let mut m = 1u64;
                for &t in &c.types {
                    let f = env.v.types[t].has;
                    if env.call("has_component", own, || f(a))? {
                        m |= 2 << t;
                    }
                }
                m | (env.call("component_count", own, || a.component_count())? as u64) << 48
            }
        };
        out.push((key(K_ARCH, i, 0), code));
        let mut p = Vec::with_capacity(1);
        for &t in &c.types {
            let f = env.v.tups[env.v.single[t]].refs;
            p.clear();
            let some = env.call("get_components_refs", own, || f(s, h, &mut p))?;
            let v = if !some {
                0
            } else {
                match e.find(t).map(|x| e.comps[x].1) {
                    Some(Some(_)) => unsafe { (env.v.types[t].sig)(p[0]) | 1 << 63 },
                    _ => 1 << 62,
                }
            };
            out.push((key(K_COMP, i, t), v));
        }
        for &t in &c.tags {
            let f = env.v.tags[t].has;
            out.push((key(K_TAG, i, t), env.call("has_tag", own, || f(s, h))? as u64));
        }
        for &g in &c.groups {
            let (n, b) = (env.v.groups[g].next, env.v.groups[g].prev);
            let x = env.call("get_next_entity_ordered_by", own, || n(s, h))?;
            out.push((key(K_NEXT, i, g), ent_code(w, x)));
            let x = env.call("get_previous_entity_ordered_by", own, || b(s, h))?;
            out.push((key(K_PREV, i, g), ent_code(w, x)));
        }
    }
    for &g in &c.groups {
        let (f, l, n) = (env.v.groups[g].first, env.v.groups[g].last, env.v.groups[g].next);
        let first = env.call("get_first_entity_ordered_by", own, || f(s))?;
        let last = env.call("get_last_entity_ordered_by", own, || l(s))?;
        let mut d = mix(ent_code(w, last));
        let mut cur = first;
        let mut k = 0;
        while let Some(e) = cur {
            d = mix(d ^ ent_code(w, cur));
            k += 1;
            if k > w.live.len() + 1 {
                d = 0xC1C1E;
                break;
            }
            cur = env.call("get_next_entity_ordered_by", own, || n(s, e))?;
        }
        out.push((key(K_SEQ, 0, g), d));
    }
    Ok(out)
}

/// Digest of query results in canonical form (sorted by entity where the order is free).
pub fn query_trace(w: &World, env: &mut Env, c: &Case, r: &mut Rng) -> R<Snap> {
    let mut snap: Snap = vec![];
    let own = bit(env.prop);
    let _ = c;
    for k in [Kind::C, Kind::E, Kind::O, Kind::F] {
        let rel = match k {
            Kind::C => &env.rel_cq,
            Kind::E => &env.rel_eq,
            Kind::O => &env.rel_oq,
            Kind::F => &env.rel_fq,
        };
        if rel.is_empty() {
            continue;
        }
        let qi = *r.pick(rel);
        if k == Kind::F && w.seen_tags >> env.v.fqs[qi].tag & 1 == 0 {
            continue;
        }
        let (ts, nread) = qtypes(env, k, qi);
        let list = if k == Kind::E { make_list(w, r, nread == ts.len()) } else { vec![] };
        if k == Kind::O && !chain_ok(w, env, env.v.oqs[qi].group)? {
            snap.push((key(K_QUERY, 3, qi), 0xC1C1E));
            continue;
        }
        let mut q = env.take_query(k.no(), qi)?;
        let mut out = QOut::default();
        let opt = QOpt { with_entities: true, take: w.live.len() * 2 + list.len() + 64, lens: false, after: 1, style: 0, k: 0 };
        let res = raw_run(w, env, k, qi, &list, &mut *q, &opt, &mut out, own | k.owner(), &mut NOCB);
        env.qcache.insert((k.no(), qi), q);
        res?;
        let mut rows: Vec<u64> = vec![];
        for n in 0..out.n {
            let mut d = ent_code(w, Some(out.ents[n]));
            if let Some(i) = w.who(out.ents[n]) {
                for (p, &t) in ts.iter().enumerate() {
                    let e = &w.ents[i];
                    if let Some(x) = e.find(t) {
                        if e.comps[x].1.is_some() {
                            d = mix(d ^ unsafe { (env.v.types[t].sig)(out.ptrs[n * ts.len() + p]) });
                        }
                    }
                }
            }
            rows.push(d);
        }
        if k == Kind::C || k == Kind::F {
            rows.sort_unstable();
        }
        let d = rows.iter().fold(out.n as u64, |a, b| mix(a ^ b.rotate_left(17)));
        snap.push((key(K_QUERY, k.no() as usize, qi), d));
    }
    Ok(snap)
}

pub fn describe(k: u64, env: &Env, w: &World) -> String {
    let kind = k >> 56;
    let ent = (k >> 16 & 0xff_ffff_ffff) as usize;
    let x = (k & 0xffff) as usize;
    let h = w.ents.get(ent).map(|e| format!("{:?}", e.h)).unwrap_or_default();
    match kind {
        K_ALIVE => format!("is_alive of {h}"),
        K_ARCH => format!("archetype of {h}"),
        K_COMP => format!("{} of {h}", env.v.types[x].name),
        K_TAG => format!("tag {x} of {h}"),
        K_NEXT => format!("successor of {h} in group {x}"),
        K_PREV => format!("predecessor of {h} in group {x}"),
        K_SEQ => format!("sequence of group {x}"),
        K_QUERY => format!("result of {} number {x}", ["component query", "tag-filtered query", "entity-list query", "ordered query"][ent & 3]),
        _ => format!("key {k:x}"),
    }
}
pub fn diff(a: &Snap, b: &Snap, env: &Env, w: &World) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} against {} observations", a.len(), b.len()));
    }
    for (x, y) in a.iter().zip(b) {
        if x != y {
            return Some(format!("{} changed", describe(x.0, env, w)));
        }
    }
    None
}
pub fn digest(s: &Snap) -> u64 {
    s.iter().fold(7, |a, x| mix(a ^ mix(x.0).wrapping_add(x.1)))
}

// ------------------------------------------------------------------ misuse (C14)
pub fn misuse(w: &mut World, env: &mut Env, c: &Case, o: Op) -> R<bool> {
    if !cfg!(debug_assertions) {
        return Ok(false);
    }
    let own = bit(14);
    let kind = o.a % 8;
    let mut r = Rng::new((o.b as u64) << 32 | o.c as u64);
    // choose the act before looking
    enum Act {
        Destroy(Entity, &'static str),
        Append(usize, Entity),
        Insert(usize, Entity, Entity, bool),
        EmptyArch(u32),
    }
    let act = match kind {
        0 | 1 => {
            let rec: Vec<usize> = w.dead.iter().rev().take(200).copied().filter(|&d| w.id_live(w.ents[d].h.id()).is_some()).collect();
            let pool = if kind == 1 && !rec.is_empty() { &rec } else { &w.dead };
            if pool.is_empty() {
                return Ok(false);
            }
            Act::Destroy(w.ents[*r.pick(pool)].h, "a dead handle")
        }
        2 => {
            // a handle of a larger store, with an id this store never had
            let want = match r.below(4) {
                0 => w.s().entities_capacity(),
                1 => w.s().entities_capacity() + 1 + r.below(200),
                2 => w.s().entities_capacity() - 1,
                _ => w.live.len() + w.dead.len(),
            };
            if want > 5000 {
                return Ok(false);
            }
            let mut t = Store::with_capacity(1);
            let mut h = t.create_entity();
            while (h.id() as usize) < want {
                h = t.create_entity();
            }
            let known = w.live.iter().chain(&w.dead).any(|&i| w.ents[i].h == h);
            if known {
                return Ok(false);
            }
            Act::Destroy(h, "a handle whose id the store never had")
        }
        3 => Act::Destroy(Entity::null(), "the null handle"),
        4 | 5 | 6 => {
            let gs: Vec<usize> = c.groups.iter().copied().filter(|&g| !w.groups[g].is_empty()).collect();
            if gs.is_empty() {
                return Ok(false);
            }
            let g = *r.pick(&gs);
            let n = w.groups[g].len();
            let p = match r.below(3) {
                0 => 0,
                1 => n - 1,
                _ => r.below(n),
            };
            let e = w.ents[w.groups[g][p]].h;
            if kind == 4 || n == 1 {
                Act::Append(g, e)
            } else {
                let q = (p + 1 + r.below(n - 1)) % n;
                Act::Insert(g, e, w.ents[w.groups[g][q]].h, kind == 5)
            }
        }
        _ => Act::EmptyArch(o.b),
    };
    let before = snapshot(w, env, c)?;
    let (what, res) = match &act {
        Act::Destroy(h, why) => {
            let s = w.store.as_mut().unwrap();
            let h = *h;
            (format!("destroying {why} {h:?}"), env.try_call("destroy_entity (misuse)", own, || s.destroy_entity(h))?)
        }
        Act::Append(g, e) => {
            let f = env.v.groups[*g].append;
            let s = w.store.as_mut().unwrap();
            (
                format!("appending {e:?} to group {g}, whose member (of {}) it is", w.groups[*g].len()),
                env.try_call("add_entity_order_by (misuse)", own, || f(s, *e))?,
            )
        }
        Act::Insert(g, e, a, after) => {
            let f = if *after { env.v.groups[*g].next_to } else { env.v.groups[*g].prev_to };
            let s = w.store.as_mut().unwrap();
            (
                format!("inserting {e:?} {} {a:?} in group {g}, whose member (of {}) it is", if *after { "after" } else { "before" }, w.groups[*g].len()),
                env.try_call("insert order (misuse)", own, || f(s, *e, *a))?,
            )
        }
        Act::EmptyArch(b) => {
            let b = *b;
            let (inc, exc) = (env.v.tups[b as usize % env.v.tups.len()].include, env.v.tups[b as usize % env.v.tups.len()].exclude);
            (
                "building an empty archetype".into(),
                env.try_call("build empty archetype", own, || {
                    let mut x = ArchetypeBuilder::new();
                    if b & 1 == 1 {
                        inc(&mut x);
                        exc(&mut x);
                    }
                    let a = x.build();
                    std::hint::black_box(a.component_count());
                })?,
            )
        }
    };
    env.checks += 1;
    if res.is_ok() {
        return env.fail(own, || format!("{what} did not panic"));
    }
    let after = snapshot(w, env, c)?;
    if let Some(d) = diff(&before, &after, env, w) {
        return env.fail(own, || format!("{what} panicked, but {d}"));
    }
    Ok(true)
}

// ------------------------------------------------------------------ dead handles (C15)
pub fn stale(w: &mut World, env: &mut Env, c: &Case, o: Op) -> R<bool> {
    let own = bit(15);
    if w.dead.is_empty() {
        return Ok(false);
    }
    let mut r = Rng::new((o.b as u64) << 32 | o.c as u64);
    let recent = w.dead.len().saturating_sub(40);
    let recycled: Vec<usize> = w.dead[w.dead.len().saturating_sub(400)..].iter().copied().filter(|&d| w.id_live(w.ents[d].h.id()).is_some()).collect();
    let d = if !recycled.is_empty() && r.chance(3, 4) {
        *r.pick(&recycled)
    } else if r.chance(1, 2) {
        w.dead[recent + r.below(w.dead.len() - recent)]
    } else {
        *r.pick(&w.dead)
    };
    let mut h = w.ents[d].h;
    if !cfg!(debug_assertions) && r.chance(1, 10) {
        // no entity of this store at all (with assertions refused by panic)
        h = Entity::null();
        let top = w.ents.iter().map(|e| e.h.id()).max().unwrap_or(0);
        if top < 3000 && r.chance(1, 2) {
            let mut other = Store::with_capacity(1);
            let span = *r.pick(&[4, 5000]);
            let far = top as usize + 1 + r.below(span);
            for _ in 0..=far {
                h = other.create_entity();
            }
        }
        env.feat("stale-foreign");
    } else {
        env.feat(if w.id_live(h.id()).is_some() { "stale-recycled" } else { "stale-free" });
    }
    // reads
    {
        let s = w.s();
        env.checks += 1;
        if env.call("is_alive", own, || s.is_alive(h))? {
            return env.fail(own, || format!("dead handle {h:?} reported alive"));
        }
        if env.call("is_valid_entity_with_archetype", own, || s.is_valid_entity_with_archetype(h))? {
            return env.fail(own, || format!("dead handle {h:?} reported valid with archetype"));
        }
        if env.call("get_entity_archetype", own, || s.get_entity_archetype(h).is_some())? {
            return env.fail(own, || format!("dead handle {h:?} has an archetype"));
        }
        for &t in &c.tags {
            let f = env.v.tags[t].has;
            if env.call("has_tag", own, || f(s, h))? {
                return env.fail(own, || format!("dead handle {h:?} has tag {t}"));
            }
        }
        for &g in &c.groups {
            let (n, p) = (env.v.groups[g].next, env.v.groups[g].prev);
            let a = env.call("get_next_entity_ordered_by", own, || n(s, h))?;
            let b = env.call("get_previous_entity_ordered_by", own, || p(s, h))?;
            if a.is_some() || b.is_some() {
                return env.fail(own, || format!("dead handle {h:?} has next {a:?} / previous {b:?} in group {g}"));
            }
        }
    }
    let mut ks: Vec<usize> = c.types.clone();
    ks.extend(&c.tups);
    for k in ks {
        let mut out = vec![];
        let f = env.v.tups[k].refs;
        let s = w.s();
        let a = env.call("get_components_refs", own, || f(s, h, &mut out))?;
        let f = env.v.tups[k].refs_mut;
        let s = w.store.as_mut().unwrap();
        let b = env.call("get_components_refs_mut", own, || f(s, h, &mut out))?;
        if a || b {
            return env.fail(own, || format!("component access through dead handle {h:?} gives a result"));
        }
    }
    // one change
    let before = snapshot(w, env, c)?;
    let what: String;
    let pick_live = |r: &mut Rng, w: &World| if w.live.is_empty() { None } else { Some(*r.pick(&w.live)) };
    match o.a % 9 {
        0 if !c.tups.is_empty() => {
            let k = *r.pick(&c.tups);
            // from the far end: later stamps must not depend on this call
            let st: Vec<u64> = (0..env.v.tups[k].types.len() as u64).map(|i| (u32::MAX as u64) - i - w.stamp % 1000 * 8).collect();
            let f = env.v.tups[k].add;
            let s = w.store.as_mut().unwrap();
            env.call("add_components", own, || f(s, h, &st))?;
            what = "adding components".into();
        }
        1 if !c.tups.is_empty() => {
            let mut k = *r.pick(&c.tups);
            // types the owner of the id really has
            if let Some(o) = w.id_live(h.id()) {
                if let Some(&(t, _)) = w.ents[o].comps.first() {
                    if r.chance(1, 2) {
                        k = env.v.single[t];
                    }
                }
            }
            let f = env.v.tups[k].remove;
            let s = w.store.as_mut().unwrap();
            env.call("remove_components", own, || f(s, h))?;
            what = "removing components".into();
        }
        2 if !c.tags.is_empty() => {
            let f = env.v.tags[*r.pick(&c.tags)].add;
            let s = w.store.as_mut().unwrap();
            env.call("add_tag", own, || f(s, h))?;
            what = "adding a tag".into();
        }
        3 if !c.tags.is_empty() => {
            let mut t = *r.pick(&c.tags);
            if let Some(o) = w.id_live(h.id()) {
                if let Some(&x) = c.tags.iter().find(|&&x| w.ents[o].tags >> x & 1 == 1) {
                    t = x;
                }
            }
            let f = env.v.tags[t].remove;
            let s = w.store.as_mut().unwrap();
            env.call("remove_tag", own, || f(s, h))?;
            what = "removing a tag".into();
        }
        4 if !c.groups.is_empty() => {
            let g = *r.pick(&c.groups);
            let f = env.v.groups[g].append;
            let s = w.store.as_mut().unwrap();
            env.call("add_entity_order_by", own, || f(s, h))?;
            what = format!("appending to group {g}");
        }
        5 if !c.groups.is_empty() => {
            let mut g = *r.pick(&c.groups);
            if let Some(o) = w.id_live(h.id()) {
                if let Some(&x) = c.groups.iter().find(|&&x| w.ents[o].groups >> x & 1 == 1) {
                    g = x;
                }
            }
            let f = env.v.groups[g].remove;
            let s = w.store.as_mut().unwrap();
            env.call("remove_entity_order_by", own, || f(s, h))?;
            what = format!("removing from group {g}");
        }
        6 if !c.groups.is_empty() => {
            // the dead one is inserted next to a member
            let gs: Vec<usize> = c.groups.iter().copied().filter(|&g| !w.groups[g].is_empty()).collect();
            if gs.is_empty() {
                return Ok(false);
            }
            let g = *r.pick(&gs);
            let a = w.ents[*r.pick(&w.groups[g])].h;
            let after = r.chance(1, 2);
            let f = if after { env.v.groups[g].next_to } else { env.v.groups[g].prev_to };
            let s = w.store.as_mut().unwrap();
            env.call("order insertion", own, || f(s, h, a))?;
            what = format!("inserting it beside {a:?} in group {g}");
        }
        7 if !c.groups.is_empty() => {
            // a live one is inserted next to the dead one
            let mut g = *r.pick(&c.groups);
            if let Some(o) = w.id_live(h.id()) {
                if let Some(&x) = c.groups.iter().find(|&&x| w.ents[o].groups >> x & 1 == 1) {
                    g = x;
                }
            }
            let out: Vec<usize> = w.live.iter().copied().filter(|&i| w.ents[i].groups >> g & 1 == 0).collect();
            let e = if out.is_empty() || r.chance(1, 6) {
                match pick_live(&mut r, w) {
                    // both dead
                    Some(_) => w.ents[*r.pick(&w.dead)].h,
                    None => h,
                }
            } else {
                w.ents[*r.pick(&out)].h
            };
            let after = r.chance(1, 2);
            let f = if after { env.v.groups[g].next_to } else { env.v.groups[g].prev_to };
            let s = w.store.as_mut().unwrap();
            env.call("order insertion", own, || f(s, e, h))?;
            what = format!("inserting {e:?} beside it in group {g}");
        }
        8 if !cfg!(debug_assertions) => {
            let s = w.store.as_mut().unwrap();
            env.call("destroy_entity", own, || s.destroy_entity(h))?;
            what = "destroying again".into();
        }
        _ => return Ok(false),
    }
    let after = snapshot(w, env, c)?;
    env.checks += 1;
    if let Some(d) = diff(&before, &after, env, w) {
        return env.fail(own, || format!("{what} through dead handle {h:?}: {d}"));
    }
    Ok(true)
}
