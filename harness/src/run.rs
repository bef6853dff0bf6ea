//! Case generation, enumeration and execution.
use crate::oracle::*;
use crate::rng::Rng;
use crate::types::*;
use crate::world::*;
use crate::{alloc, crash};
use division_ecs::{Archetype, Entity, Store};
use std::collections::HashSet;

pub const PROFILES: &[&str] = &["small", "pages", "medium", "wide", "large", "churn", "tiny", "huge", "manypages", "archs", "xpages", "xarchs"];

fn w_base() -> Vec<u32> {
    let mut w = vec![0u32; op::NAMES.len()];
    for (c, x) in [
        (op::CreateEmpty, 6),
        (op::CreateArch, 14),
        (op::Destroy, 14),
        (op::Add, 16),
        (op::AddEach, 2),
        (op::Remove, 9),
        (op::WriteMut, 8),
        (op::AddTag, 4),
        (op::RemoveTag, 2),
        (op::OrdAppend, 3),
        (op::OrdNext, 2),
        (op::OrdPrev, 2),
        (op::OrdRemove, 2),
        (op::QWrite, 2),
        (op::EWrite, 2),
        (op::OWrite, 1),
        (op::BulkCreate, 1),
        (op::BulkDestroy, 1),
        (op::BulkAdd, 1),
        (op::BulkRemove, 1),
        (op::BulkTag, 1),
        (op::BulkOrder, 1),
        (op::Drain, 1),
        (op::RemoveAll, 2),
        (op::CloneArch, 3),
    ] {
        w[c as usize] = x;
    }
    w
}

pub fn gen_case(v: &Vocab, prop: usize, profile: &str, seed: u64, id: u64) -> Case {
    let mut r = Rng::new(mix(seed) ^ mix(id.wrapping_mul(0x1234567)) ^ mix(prop as u64) ^ mix(profile.len() as u64 * 77));
    let r = &mut r;
    // ---- palette
    let pool: Vec<usize> = match profile {
        "tiny" => vec![0, 2, 11, 25, 26],
        "small" => vec![13, 14, 15, 16, 12, 0, 2, 3, 6, 25, 26, 27, 18, 24, 40, 41],
        "pages" => vec![10, 11, 12, 13, 14, 15, 19, 18, 9, 3, 0, 25],
        "large" => vec![0, 1, 2, 3, 6, 25, 26, 27, 4, 9],
        "huge" => vec![0, 1, 2, 3, 6, 25, 26, 40],
        "manypages" => vec![16, 16, 15, 14],
        "xpages" => vec![16, 0],
        "archs" | "xarchs" => (25..NTYPES).chain([0, 2, 6, 1]).collect(),
        "wide" => (25..NTYPES).chain([0, 2, 6]).collect(),
        _ => (0..NTYPES).collect(),
    };
    let in_pool: Vec<usize> =
        (NTYPES..v.tups.len()).filter(|&k| v.tups[k].types.iter().all(|t| pool.contains(t))).collect();
    let mut types: Vec<usize> = vec![];
    let mut tups: Vec<usize> = vec![];
    let nt = match profile {
        "wide" => r.range(2, 8),
        "large" | "tiny" | "huge" => r.range(0, 2),
        "manypages" | "xpages" | "xarchs" => 0,
        _ => r.range(0, 4),
    };
    for _ in 0..nt {
        if in_pool.is_empty() {
            break;
        }
        let k = *r.pick(&in_pool);
        if !tups.contains(&k) {
            tups.push(k);
        }
        for &t in v.tups[k].types {
            if !types.contains(&t) {
                types.push(t);
            }
        }
    }
    for _ in 0..r.range(1, if profile == "wide" { 6 } else { 3 }) {
        let t = *r.pick(&pool);
        if !types.contains(&t) {
            types.push(t);
        }
    }
    if matches!(profile, "archs" | "xarchs") || profile == "wide" && r.chance(1, 2) {
        types = pool.clone();
        tups.extend(in_pool.iter().copied().filter(|_| r.chance(1, 3)));
        tups.dedup();
    }
    if profile != "tiny" && profile != "xpages" && r.chance(1, 10) {
        // types only their type id tells apart
        for t in [40, 41, 42] {
            if !types.contains(&t) {
                types.push(t);
            }
        }
    }
    // tuples made of the chosen types, and some single ones
    for k in NTYPES..v.tups.len() {
        if tups.len() < 10 && !tups.contains(&k) && v.tups[k].types.iter().all(|t| types.contains(t)) && r.chance(1, 3) {
            tups.push(k);
        }
    }
    for &t in &types {
        if tups.len() < 14 && r.chance(2, 3) || tups.is_empty() {
            tups.push(t);
        }
    }
    let many = profile == "wide";
    let mut tags: Vec<usize> = vec![];
    for _ in 0..if many { r.range(20, NTAGS) } else { r.range(1, 3) } {
        let t = if r.chance(2, 3) && !many { *r.pick(&[0usize, 1, 2, 33]) } else { r.below(NTAGS) };
        if !tags.contains(&t) {
            tags.push(t);
        }
    }
    let mut groups: Vec<usize> = vec![];
    for _ in 0..if many { r.range(5, NGROUPS) } else { r.range(1, 3) } {
        let g = if r.chance(3, 4) && !many { r.below(3) } else { r.below(NGROUPS) };
        if !groups.contains(&g) {
            groups.push(g);
        }
    }
    // more tags and groups than any machine word has bits
    let crowded = many && r.chance(1, if matches!(prop, 14 | 15 | 18 | 19) { 16 } else { 4 });
    if crowded {
        tags = (0..NTAGS).collect();
        groups = (0..NGROUPS).collect();
        r.shuffle(&mut tags);
        r.shuffle(&mut groups);
    }
    if r.chance(1, 14) {
        tags.retain(|t| *t < NTAGS - 2);
        tags.extend([NTAGS - 2, NTAGS - 1]);
        groups.retain(|g| *g < NGROUPS - 2);
        groups.extend([NGROUPS - 2, NGROUPS - 1]);
    }
    if profile == "xpages" {
        types = vec![16, 0];
        tups = vec![0, 16];
        tags = vec![0, 1];
        groups = vec![0, 1];
    }
    // ---- sizes
    let (max_live, nops, audit): (usize, usize, usize) = match profile {
        "tiny" => (r.range(4, 9), r.range(12, 40), 12),
        "small" => (r.range(3, 14), r.range(20, 140), *r.pick(&[1, 1, 2, 5, 0])),
        "pages" => (r.range(10, 120), r.range(60, 320), *r.pick(&[5, 15, 40])),
        "medium" => (r.range(20, 320), r.range(100, 700), *r.pick(&[20, 60, 150])),
        "wide" => (r.range(20, 200), r.range(100, 600), *r.pick(&[40, 100])),
        "large" => (r.range(3000, 24000), r.range(8, 26), 0),
        "huge" => (r.range(66_000, 145_000), r.range(4, 10), 0),
        "manypages" => (r.range(300, 1600), r.range(12, 50), 0),
        "archs" => (r.range(300, 3000), r.range(12, 50), 0),
        // more than 65,536 pages or archetypes
        "xpages" => (r.range(69_000, 71_000), 13, 0),
        "xarchs" => (r.range(69_000, 71_000), 12, 0),
        _ => (r.range(2, 30), r.range(6, 20), 1),
    };
    let snapping = matches!(prop, 14 | 15 | 18 | 19);
    let bulky = matches!(profile, "large" | "huge" | "manypages" | "archs" | "xpages" | "xarchs");
    let (max_live, audit) = if snapping && !bulky { (max_live.min(70), audit.max(8)) } else { (max_live, audit) };
    let max_live = if matches!(prop, 14 | 15) || snapping && profile == "large" { max_live.min(6000) } else { max_live };
    let cap = match r.below(8) {
        x if profile == "huge" && x < 4 => *r.pick(&[65_535usize, 65_536, 65_537, 131_072, 131_073, 200_000]),
        0 => 1,
        1 => 2,
        2 => 3,
        3 => *r.pick(&[31usize, 32, 33, 63, 64, 65]),
        4 => r.range(1, max_live + 1),
        5 => max_live + r.below(50) + 1,
        6 => 10,
        _ => r.range(1, 8),
    };
    let nworlds = if prop == 17 || (matches!(prop, 18 | 10) && r.chance(1, 3)) { 2 } else { 1 };
    let caps: Vec<usize> = (0..nworlds).map(|k| if k == 0 { cap } else { r.range(1, 12) }).collect();
    // ---- operation mix
    let mut w = w_base();
    let mut boost = |cs: &[u8], f: u32| {
        for &c in cs {
            w[c as usize] *= f;
        }
    };
    match prop {
        1 => boost(&[op::CreateEmpty, op::CreateArch, op::Destroy, op::Drain, op::BulkDestroy, op::BulkCreate], 3),
        5 => boost(&[op::AddTag, op::RemoveTag, op::BulkTag, op::Destroy], 4),
        7 | 8 => boost(&[op::OrdAppend, op::OrdNext, op::OrdPrev, op::OrdRemove, op::BulkOrder], 6),
        16 | 17 | 14 | 15 => boost(&[op::OrdAppend, op::OrdNext, op::BulkOrder, op::Destroy], 3),
        _ => {}
    }
    match profile {
        "small" | "pages" => {
            for c in [op::Drain, op::RemoveAll, op::BulkDestroy, op::BulkCreate] {
                w[c as usize] *= 3;
            }
        }
        "large" | "huge" | "manypages" | "archs" | "xpages" | "xarchs" => {
            for (c, x) in w.iter_mut().enumerate() {
                let c = c as u8;
                *x = match c {
                    op::BulkCreate => 30,
                    op::BulkDestroy => 14,
                    op::BulkAdd | op::BulkRemove => 8,
                    op::BulkTag => 10,
                    op::BulkOrder => 8,
                    op::Drain => 2,
                    op::BulkArch if profile == "archs" => 40,
                    _ => (*x).min(2),
                };
            }
        }
        "churn" => {
            w[op::Reincarnate as usize] = 60;
        }
        _ => {}
    }
    if r.chance(1, 3) {
        // favour some operations at random: unusual mixes reach unusual states
        for x in w.iter_mut() {
            match r.below(6) {
                0 => *x = 0,
                1 => *x *= 4,
                _ => {}
            }
        }
        w[op::CreateArch as usize] += 6;
    }
    if prop == 14 {
        w[op::Misuse as usize] = w.iter().sum::<u32>() / 5;
    }
    if prop == 15 {
        w[op::Stale as usize] = w.iter().sum::<u32>() / 3;
        w[op::Destroy as usize] += 10;
    }
    if crowded {
        w[op::Everything as usize] = w.iter().sum::<u32>() / 30;
    }
    let order_bulk = matches!(prop, 7 | 8 | 16 | 17);
    // ---- phases: grow, churn, shrink, regrow
    let mut ops: Vec<Op> = Vec::with_capacity(nops);
    let mut phase = r.below(3);
    let mut left = 0;
    // a large population whose versions differ from each other
    let scattered = profile == "huge" && r.chance(1, 2);
    for n in 0..nops {
        if left == 0 {
            phase = if n == 0 { 0 } else { r.below(4) };
            left = r.range(5, 60);
        }
        left -= 1;
        let mut code = r.weighted(&w) as u8;
        if phase == 0 && code == op::Destroy && r.chance(3, 4) {
            code = op::CreateArch;
        }
        if phase == 2 && matches!(code, op::CreateArch | op::CreateEmpty | op::CloneArch) && r.chance(3, 4) {
            code = op::Destroy;
        }
        let big = bulky;
        if matches!(profile, "huge" | "manypages" | "archs" | "xpages" | "xarchs") {
            let many = if matches!(profile, "archs" | "xarchs") { op::BulkArch } else { op::BulkCreate };
            if n == 0 || n == 1 && profile == "huge" {
                code = if n == 1 && scattered { op::BulkDestroy } else { many };
            } else if n == 2 && scattered {
                code = many;
            } else if n == 3 && scattered {
                code = if order_bulk { op::BulkOrder } else if prop == 5 { op::BulkTag } else { code };
            } else if matches!(profile, "xpages" | "xarchs") {
                code = *r.pick(&[op::BulkDestroy, op::BulkAdd, op::BulkRemove, op::BulkTag, op::BulkOrder, many]);
                // every kind of operation meets the newest pages or archetypes
                let script = [many, op::BulkAdd, op::BulkOrder, op::BulkRemove, op::BulkTag, op::BulkOrder, op::BulkDestroy, op::OWrite, op::QWrite, op::EWrite];
                if n > 0 && n <= script.len() {
                    code = script[n - 1];
                }
            }
        }
        let a = match code {
            op::BulkCreate | op::BulkArch => {
                if n == 0 && matches!(profile, "xpages" | "xarchs") {
                    u32::MAX
                } else if scattered && n < 3 {
                    max_live as u32
                } else if profile == "huge" {
                    r.range(max_live / 3, max_live) as u32
                } else if matches!(profile, "manypages" | "archs") {
                    r.range(max_live / 8, max_live / 2) as u32
                } else if big {
                    *r.pick(&[100usize, 1000, 3000, 4000, 5000, 8192, 9000]) as u32
                } else {
                    r.range(1, 40.min(max_live)) as u32
                }
            }
            op::BulkDestroy | op::BulkAdd | op::BulkRemove | op::BulkTag => {
                if scattered && n == 1 {
                    r.range(max_live / 10, max_live / 3) as u32
                } else if profile == "huge" {
                    r.range(1, max_live / 2) as u32
                } else if big {
                    *r.pick(&[10usize, 500, 2000, 4000, 8000]) as u32
                } else {
                    r.range(1, 40.min(max_live)) as u32
                }
            }
            op::BulkOrder => {
                if profile == "huge" && order_bulk {
                    *r.pick(&[200usize, 5000, 66_000, 70_000, 140_000]) as u32
                } else if big {
                    if order_bulk { r.range(10, 1500) as u32 } else { r.range(5, 300) as u32 }
                } else {
                    r.range(1, 30) as u32
                }
            }
            op::Reincarnate => *r.pick(&[3usize, 40, 300, 1000, 5000, 70000, 140000]) as u32,
            _ => r.u32(),
        };
        let a = if code == op::Reincarnate && (cfg!(miri) || prop == 10) { a.min(300) } else { a };
        let (mut b, mut x) = (r.u32(), r.u32());
        if scattered && n == 1 {
            b = b & !3 | 2;
        }
        if scattered && n == 3 && code == op::BulkOrder {
            // no removal
            x -= (x % 5 == 4) as u32;
        }
        let mut a = a;
        if n == 0 && profile == "xarchs" {
            // sets that hardly repeat
            x |= 1;
        }
        if n == 7 && matches!(profile, "xpages" | "xarchs") {
            // some of the moved ones have to stay
            a = a.min(1000);
        }
        if n > 1 && matches!(profile, "xpages" | "xarchs") && matches!(code, op::BulkAdd | op::BulkRemove | op::BulkTag | op::BulkOrder) {
            a = if n < 8 { a.clamp(500, 4000) | TAIL } else { a.min(4000) };
            if code == op::BulkOrder {
                x -= (x % 5 == 4) as u32;
            }
        }
        if n == 0 && profile == "xpages" {
            // a filled page for each
            b = (0..97).find(|&b| subset_of(&types, b) == [16]).unwrap_or(4);
            ops.push(Op { w: 0, code, a: 66_500, b, c: 1 });
            x = 1;
        }
        ops.push(Op { w: r.below(nworlds) as u8, code, a, b, c: x });
    }
    Case { id, caps, types, tups, tags, groups, audit_every: audit, strict: false, max_live, ops }
}

#[derive(Default)]
pub struct Tally {
    pub cases: u64,
    pub cut: u64,
    pub ops: u64,
    pub skipped: u64,
    pub per_op: Vec<u64>,
    pub max_live: usize,
    pub max_pop_total: u64,
    pub recycled: u64,
    pub grew: u64,
    pub states: HashSet<u64>,
    pub cut_reasons: Vec<String>,
    pub sample: Option<String>,
}

fn model_hash(w: &World) -> u64 {
    let mut h = 3u64;
    let n = w.live.len();
    let step = 1 + n / 300;
    let mut k = 0;
    while k < n {
        let e = &w.ents[w.live[k]];
        let mut x = e.tags as u64 ^ ((e.tags >> 64) as u64).rotate_left(9) ^ (e.groups as u64).rotate_left(30) ^ ((e.groups >> 64) as u64).rotate_left(47);
        for c in &e.comps {
            x = mix(x ^ (c.0 as u64) << 1 ^ c.1.is_some() as u64);
        }
        h = mix(h ^ x ^ (e.h.id() as u64) << 40);
        k += step;
    }
    for g in &w.groups {
        for p in g.iter().take(50) {
            h = mix(h ^ (*p as u64) << 7);
        }
    }
    mix(h ^ n as u64)
}

pub enum Outcome {
    Done,
    Viol { op: usize, msg: String },
    Cut { op: usize, msg: String },
    Skip { op: usize },
}

fn finish(env: &mut Env, ws: &mut Vec<World>) -> R {
    for w in ws.iter_mut() {
        w.close(env)?;
    }
    env.drop_queries()?;
    Ok(())
}

/// abandon stores that may be corrupt: never touch them again
fn abandon(env: &mut Env, ws: Vec<World>) {
    std::mem::forget(ws);
    std::mem::forget(std::mem::take(&mut env.qcache));
}

pub fn run_case(env: &mut Env, c: &Case, t: &mut Tally, check_skips: bool) -> Outcome {
    crash::set_case(c.id);
    env.setup_case(c);
    let mem0 = alloc::stats();
    let mut ws: Vec<World> = vec![];
    env.opno = 0;
    for (k, &cap) in c.caps.iter().enumerate() {
        match World::new(env, cap, k as u64 + 1) {
            Ok(w) => ws.push(w),
            Err(s) => {
                abandon(env, ws);
                return stop(s, 0);
            }
        }
    }
    let mut since = 0;
    for (n, o) in c.ops.iter().enumerate() {
        env.opno = n as u64;
        let w = &mut ws[o.w as usize % c.caps.len()];
        match w.step(env, c, *o) {
            Ok(true) => {
                t.ops += 1;
                t.per_op[o.code as usize] += 1;
            }
            Ok(false) => {
                t.skipped += 1;
                if check_skips {
                    let mut ws = ws;
                    if finish(env, &mut ws).is_err() {
                        abandon(env, ws);
                    }
                    return Outcome::Skip { op: n };
                }
            }
            Err(s) => {
                abandon(env, ws);
                return stop(s, n);
            }
        }
        let w = &mut ws[o.w as usize % c.caps.len()];
        t.max_live = t.max_live.max(w.live.len());
        let cap = w.s().entities_capacity();
        if cap != w.last_cap {
            if w.last_cap > 0 {
                t.grew += 1;
            }
            if env.prop == 18 && (cap < w.last_cap || cap < w.live.len() || cap < w.init_cap) {
                let m = format!("reported capacity {cap}: was {} before, {} entities are live", w.last_cap, w.live.len());
                abandon(env, ws);
                return Outcome::Viol { op: n, msg: m };
            }
            w.last_cap = cap;
        }
        since += 1;
        if c.audit_every > 0 && since >= c.audit_every && !matches!(env.prop, 14 | 15) {
            since = 0;
            let h = model_hash(w);
            if !w.live.is_empty() && t.states.len() < 150_000 {
                t.states.insert(h);
            }
            let mut r = probe(w, env, c, Op { w: 0, code: op::Probe, a: o.b, b: o.c, c: n as u32 }, false);
            if r.is_ok() && env.trace.is_some() {
                r = checkpoint(w, env, c, n as u64);
            }
            if let Err(s) = r {
                abandon(env, ws);
                return stop(s, n);
            }
        }
    }
    // the end: deep audit, drop, allocation ledger
    let n = c.ops.len();
    env.opno = n as u64;
    for k in 0..ws.len() {
        let w = &mut ws[k];
        if !w.live.is_empty() && t.states.len() < 150_000 {
            t.states.insert(model_hash(w));
        }
        t.max_pop_total += w.ents.len() as u64;
        let mut r = Ok(());
        if !matches!(env.prop, 14 | 15) {
            r = probe(w, env, c, Op { w: 0, code: op::Probe, a: 77, b: n as u32, c: k as u32 }, true);
        }
        if r.is_ok() && env.trace.is_some() {
            // the number of operations must not show: it differs between compared histories
            r = checkpoint(w, env, c, u64::MAX);
        }
        if let Err(s) = r {
            abandon(env, ws);
            return stop(s, n);
        }
    }
    if matches!(env.prop, 10 | 11) {
        alloc::sweep();
        if let Err(s) = env.poll_alloc("end of the history") {
            abandon(env, ws);
            return stop(s, n);
        }
    }
    if let Err(s) = finish(env, &mut ws) {
        abandon(env, ws);
        return stop(s, n);
    }
    if env.prop == 13 && alloc::TRACKED {
        env.checks += 1;
        let mem1 = alloc::stats();
        if mem1.live_blocks != mem0.live_blocks || mem1.live_bytes != mem0.live_bytes {
            return Outcome::Viol {
                op: n,
                msg: format!(
                    "after dropping everything {} blocks / {} bytes are still allocated",
                    mem1.live_blocks as i64 - mem0.live_blocks as i64,
                    mem1.live_bytes as i64 - mem0.live_bytes as i64
                ),
            };
        }
    }
    Outcome::Done
}

fn checkpoint(w: &World, env: &mut Env, c: &Case, n: u64) -> R {
    let s = snapshot(w, env, c)?;
    let mut d = digest(&s);
    let mut r = Rng::new(mix(n) ^ c.id);
    let q = query_trace(w, env, c, &mut r)?;
    d = mix(d ^ digest(&q));
    if env.trace_ids {
        for &i in &w.live {
            let h = w.ents[i].h;
            d = mix(d ^ (h.id() as u64) << 32 ^ h.version() as u64);
        }
    }
    env.trace.as_mut().unwrap().push(d);
    env.checks += 1;
    Ok(())
}

fn stop(s: Stop, op: usize) -> Outcome {
    match s {
        Stop::Viol(msg) => Outcome::Viol { op, msg },
        Stop::Cut(msg) => Outcome::Cut { op, msg },
    }
}

fn reason(o: &Outcome) -> Option<String> {
    match o {
        Outcome::Viol { op, msg } | Outcome::Cut { op, msg } => Some(format!("{op}: {msg}")),
        _ => None,
    }
}

/// C14/C15: a history must end the same with and without the intruding calls.
pub fn run_with_intruders(env: &mut Env, c: &Case, t: &mut Tally) -> Outcome {
    let code = if env.prop == 14 { op::Misuse } else { op::Stale };
    env.trace = Some(vec![]);
    let a = run_case(env, c, t, false);
    let ta = env.trace.take().unwrap();
    if let Outcome::Viol { .. } = a {
        return a;
    }
    let mut clean = c.clone();
    clean.ops.retain(|o| o.code != code);
    env.trace = Some(vec![]);
    let mut t2 = new_tally();
    let b = run_case(env, &clean, &mut t2, false);
    let tb = env.trace.take().unwrap();
    match (&a, &b) {
        (Outcome::Done, Outcome::Done) => {
            env.checks += 1;
            if ta.last() != tb.last() {
                return Outcome::Viol { op: c.ops.len(), msg: "the history ends in another state than without the intruding calls".into() };
            }
            Outcome::Done
        }
        (Outcome::Cut { op, msg }, Outcome::Done) => Outcome::Viol {
            op: *op,
            msg: format!("valid call fails only because of an earlier intruding call: {msg}"),
        },
        _ => a,
    }
}

/// C18: the same history from other capacities, and interleaved stores one by one.
pub fn run_capacities(env: &mut Env, c: &Case, t: &mut Tally) -> Outcome {
    fn traced(env: &mut Env, c: &Case, t: &mut Tally) -> (Outcome, Vec<u64>) {
        env.trace = Some(vec![]);
        let o = run_case(env, c, t, false);
        (o, env.trace.take().unwrap())
    }
    let (a, ta) = traced(env, c, t);
    if let Outcome::Viol { .. } = a {
        return a;
    }
    let mut r = Rng::new(c.id ^ 0xCAFE);
    if c.caps.len() == 1 {
        for _ in 0..3 {
            let mut d = c.clone();
            d.caps = vec![match r.below(5) {
                0 => 1,
                1 => r.range(1, 10),
                2 => *r.pick(&[31usize, 32, 33, 64, 100]),
                _ if c.max_live > 60_000 && r.chance(1, 2) => *r.pick(&[65_535usize, 65_536, 65_537, 131_071, 131_072, 131_073, 200_000]),
                3 => c.max_live + 1,
                _ => 1 + r.below(2 * c.max_live),
            }];
            let mut t2 = new_tally();
            let (b, tb) = traced(env, &d, &mut t2);
            if let Outcome::Viol { .. } = b {
                return b;
            }
            env.checks += 1;
            let (ra, rb) = (reason(&a), reason(&b));
            if ra.is_some() != rb.is_some() || ta != tb {
                let k = ta.iter().zip(&tb).position(|(x, y)| x != y);
                return Outcome::Viol {
                    op: c.ops.len(),
                    msg: format!(
                        "from capacity {} and from {} the same history differs at observation {k:?} ({ra:?} / {rb:?})",
                        c.caps[0], d.caps[0]
                    ),
                };
            }
        }
    } else {
        // each store alone
        for k in 0..c.caps.len() {
            let mut d = c.clone();
            // the others stay, but are never operated on
            d.ops.retain(|o| o.w as usize % c.caps.len() == k);
            d.audit_every = 0;
            let mut e = c.clone();
            e.audit_every = 0;
            let (a, ta) = traced(env, &e, &mut new_tally());
            let (b, tb) = traced(env, &d, &mut new_tally());
            // observation k is that of store k; query lists depend on the operation count, so compare state only
            env.checks += 1;
            let (ra, rb) = (reason(&a), reason(&b));
            if ra.is_some() && rb.is_none() {
                // a failure that needs the other store
                let solo_all = (0..c.caps.len()).all(|j| {
                    let mut x = c.clone();
                    x.audit_every = 0;
                    x.ops.retain(|o| o.w as usize % c.caps.len() == j);
                    matches!(run_case(env, &x, &mut new_tally(), false), Outcome::Done)
                });
                if solo_all {
                    return Outcome::Viol { op: c.ops.len(), msg: format!("fails only when two stores are interleaved: {ra:?}") };
                }
            }
            if ra.is_none() && rb.is_none() && ta.get(k) != tb.get(k) {
                return Outcome::Viol { op: c.ops.len(), msg: format!("store {k} ends in another state when another store is operated in between") };
            }
        }
    }
    a
}

pub fn new_tally() -> Tally {
    Tally { per_op: vec![0; op::NAMES.len()], ..Tally::default() }
}

pub fn run_any(env: &mut Env, c: &Case, t: &mut Tally) -> Outcome {
    match env.prop {
        14 | 15 => run_with_intruders(env, c, t),
        18 => run_capacities(env, c, t),
        13 if c.strict && c.audit_every == SWEEP => run_sweep(env, c, t),
        13 if c.strict => run_cycles(env, c, t),
        _ => run_case(env, c, t, false),
    }
}

// ------------------------------------------------------------------ sweeps (C13)
/// marks a case whose operations are (archetype, population) steps
pub const SWEEP: usize = 987_654;

pub fn gen_sweep(v: &Vocab, seed: u64, id: u64) -> Case {
    let mut c = gen_case(v, 13, "small", seed, id);
    let mut r = Rng::new(mix(seed ^ mix(id ^ 0x5EE9)));
    c.strict = true;
    c.audit_every = SWEEP;
    c.caps = vec![r.range(1, 40)];
    c.max_live = r.below(3); // populations still alive when the next one comes
    c.types = (0..NTYPES).collect();
    let pop = *r.pick(&[1u32, 1, 2, 5, 20, 60]);
    c.ops = (0..r.range(120, 260)).map(|_| Op { w: 0, code: op::CreateArch, a: r.u32(), b: r.u32(), c: r.range(1, pop as usize + 1) as u32 }).collect();
    c
}

/// One archetype after another, each populated and emptied (some time later):
/// no more than twice what the largest of the populations need in a store of
/// their own may be held (pages keep the id lists of their largest use, hence
/// the allowance).
pub fn run_sweep(env: &mut Env, c: &Case, t: &mut Tally) -> Outcome {
    crash::set_case(c.id);
    env.setup_case(c);
    if !alloc::TRACKED {
        return Outcome::Done;
    }
    match sweep(env, c, t) {
        Ok(None) => Outcome::Done,
        Ok(Some(msg)) => Outcome::Viol { op: c.ops.len(), msg },
        Err(s) => stop(s, 0),
    }
}

fn sweep(env: &mut Env, c: &Case, t: &mut Tally) -> R<Option<String>> {
    let mut arches = vec![];
    let mut w = World::new(env, 1, 1)?;
    for o in &c.ops {
        let mut r = Rng::new(o.a as u64);
        let set = loop {
            let mut set: Vec<usize> = (0..*r.pick(&[1usize, 2, 2, 3, 5])).map(|_| r.below(NTYPES)).collect();
            set.sort_unstable();
            set.dedup();
            if fits(&env.v, &set) && set.iter().any(|&t| env.v.types[t].size >= 8) {
                break set;
            }
        };
        arches.push((w.archetype(env, &set, o.b | 2)?, o.c as usize));
    }
    w.close(env)?;
    let most = arches.iter().map(|a| a.1).max().unwrap_or(0);
    let window = c.max_live.min(8);
    let cap = c.caps[0];
    fn fill(env: &mut Env, s: &mut Store, a: &Archetype, hs: &mut Vec<Entity>, n: usize) -> R {
        for _ in 0..n {
            let h = env.call("create_entity_with_archetype", CREATE_A, || s.create_entity_with_archetype(a))?;
            hs.push(h);
        }
        Ok(())
    }
    fn empty(env: &mut Env, s: &mut Store, hs: &mut Vec<Entity>) -> R {
        for h in hs.drain(..) {
            env.call("destroy_entity", DESTROY, || s.destroy_entity(h))?;
        }
        Ok(())
    }
    let open = |env: &mut Env| env.call("Store::with_capacity", CREATE, || Store::with_capacity(cap));
    // what each population needs on its own
    let mut need = 0;
    let mut hs = vec![];
    for (a, n) in &arches {
        let base = alloc::stats().live_bytes;
        let mut s = open(env)?;
        fill(env, &mut s, a, &mut hs, *n)?;
        hs.clear();
        need = need.max(alloc::stats().live_bytes.saturating_sub(base));
        env.call("drop Store", bit(13), move || drop(s))?;
    }
    let need = need * (window + 1);
    let allowed = 2 * need + (need / PAGE + 6) * 17_000 + 50_000;
    let base = alloc::stats().live_bytes;
    let mut s = open(env)?;
    let mut high = 0;
    let mut bad = None;
    let mut alive: std::collections::VecDeque<Vec<Entity>> = Default::default();
    for (k, (a, n)) in arches.iter().enumerate() {
        t.ops += 1;
        env.checks += 1;
        let mut hs = vec![];
        fill(env, &mut s, a, &mut hs, *n)?;
        alive.push_back(hs);
        high = high.max(alloc::stats().live_bytes.saturating_sub(base));
        if high > allowed {
            bad = Some(format!(
                "after {} populations of at most {most} entities, {} at a time, the store holds {high} bytes; the largest of them need {need} bytes on their own",
                k + 1,
                window + 1
            ));
            break;
        }
        if alive.len() > window {
            let mut hs = alive.pop_front().unwrap();
            if k == window && hs.len() > 1 && c.id % 2 == 0 {
                hs.pop(); // one of the first stays for good
            }
            empty(env, &mut s, &mut hs)?;
        }
    }
    t.states.insert(mix(high as u64 ^ c.id << 20));
    env.call("drop Store", bit(13), move || drop(s))?;
    Ok(bad)
}

// ------------------------------------------------------------------ cycles (C13)
/// The script of `c.ops` from the empty store and back, again and again.
pub fn run_cycles(env: &mut Env, c: &Case, t: &mut Tally) -> Outcome {
    crash::set_case(c.id);
    let mut c = c.clone();
    c.strict = false;
    let c = &c;
    env.setup_case(c);
    if !alloc::TRACKED {
        return Outcome::Done;
    }
    let mut w = match World::new(env, c.caps[0], 1) {
        Ok(w) => w,
        Err(s) => return stop(s, 0),
    };
    let base = alloc::stats().live_bytes;
    let mut peaks: Vec<usize> = vec![];
    let mut goal = 48;
    while peaks.len() < goal {
        let mut peak = 0;
        for (n, o) in c.ops.iter().enumerate() {
            env.opno = n as u64;
            match w.step(env, c, *o) {
                Ok(_) => t.ops += 1,
                Err(s) => {
                    std::mem::forget(w);
                    return stop(s, n);
                }
            }
            peak = peak.max(alloc::stats().live_bytes.saturating_sub(base));
        }
        let mut all = w.live.clone();
        all.sort_unstable();
        for i in all {
            if let Err(s) = w.destroy(env, i) {
                std::mem::forget(w);
                return stop(s, 0);
            }
        }
        // forget the dead: the model must not grow either
        w.ents.clear();
        w.pos.clear();
        w.dead.clear();
        peak = peak.max(alloc::stats().live_bytes.saturating_sub(base));
        peaks.push(peak);
        if peaks.len() == goal {
            let h = goal / 2;
            let first = *peaks[..h].iter().max().unwrap();
            let second = *peaks[h..].iter().max().unwrap();
            env.checks += 1;
            if second > first {
                if goal >= 768 {
                    let m = format!(
                        "footprint still grows after {goal} identical cycles: {} / {first} / {second} bytes at the peak of the first cycle / first half / second half",
                        peaks[0]
                    );
                    std::mem::forget(w);
                    return Outcome::Viol { op: c.ops.len(), msg: m };
                }
                goal *= 4;
            }
        }
    }
    let cap = w.s().entities_capacity();
    if cap > 16 * (w.peak + c.caps[0]) + 64 {
        let m = format!("capacity {cap} after {} cycles with at most {} entities alive", peaks.len(), w.peak);
        std::mem::forget(w);
        return Outcome::Viol { op: c.ops.len(), msg: m };
    }
    t.states.insert(mix(peaks[0] as u64 ^ c.id << 20));
    if let Err(s) = w.close(env) {
        return stop(s, 0);
    }
    if let Err(s) = env.drop_queries() {
        return stop(s, 0);
    }
    Outcome::Done
}

// ------------------------------------------------------------------ exhaustive enumeration
pub struct Alphabet {
    pub name: &'static str,
    pub caps: Vec<usize>,
    pub types: Vec<usize>,
    pub tups: Vec<usize>,
    pub tags: Vec<usize>,
    pub groups: Vec<usize>,
    pub pre: Vec<Op>,
    pub ops: Vec<Op>,
    pub depth: [usize; 2],
}
fn o(code: u8, a: u32, b: u32, c: u32) -> Op {
    Op { w: 0, code, a, b, c }
}

pub fn alphabets(prop: usize, v: &Vocab) -> Vec<Alphabet> {
    use op::*;
    let mut out = vec![];
    let find = |ts: &[usize]| (0..v.tups.len()).find(|&k| v.tups[k].types == ts).unwrap();
    let base = |name, caps: Vec<usize>, depth| Alphabet {
        name,
        caps,
        types: vec![],
        tups: vec![],
        tags: vec![],
        groups: vec![],
        pre: vec![],
        ops: vec![],
        depth,
    };
    // few big components: every page border is near
    let storage = |name, caps: Vec<usize>, depth| {
        let mut a = base(name, caps, depth);
        a.types = vec![15, 2];
        a.tups = vec![15, 2, find(&[15, 2])];
        a.groups = vec![0];
        a.ops = vec![
            o(CreateEmpty, 0, 0, 0),
            o(CreateArch, 1, 2, 0),
            o(CreateArch, 2, 3, 0),
            o(CreateArch, 3, 2, 0),
            o(Destroy, 0, 0, 0),
            o(Destroy, 1, 0, 0),
            o(Destroy, 2, 0, 0),
            o(Add, 0, 0, 0),
            o(Add, 0, 1, 0),
            o(Add, 1, 2, 0),
            o(Remove, 0, 0, 0),
            o(Remove, 0, 1, 0),
            o(Remove, 1, 2, 0),
        ];
        a
    };
    // many archetypes: every slot is emptied and refilled
    let slots = |name, caps: Vec<usize>, depth| {
        let mut a = base(name, caps, depth);
        a.types = vec![25, 26, 27, 28];
        a.tups = vec![25, 26];
        a.ops = vec![
            o(CreateArch, 1, 2, 0),
            o(CreateArch, 2, 2, 0),
            o(CreateArch, 4, 2, 0),
            o(CreateArch, 8, 2, 0),
            o(Destroy, 0, 0, 0),
            o(Destroy, 1, 0, 0),
            o(Destroy, 2, 0, 0),
            o(Add, 0, 1, 0),
        ];
        a
    };
    let order = |name, depth| {
        let mut a = base(name, vec![2, 5], depth);
        a.groups = vec![0];
        a.pre = (0..4).map(|_| o(CreateEmpty, 0, 0, 0)).collect();
        a.ops = vec![o(CreateEmpty, 0, 0, 0)];
        for e in 0..4 {
            a.ops.push(o(OrdAppend, e, 0, 0));
            a.ops.push(o(OrdRemove, e, 0, 0));
            a.ops.push(o(Destroy, e, 0, 0));
            for anchor in 0..3 {
                a.ops.push(o(OrdNext, e, 0, anchor));
                a.ops.push(o(OrdPrev, e, 0, anchor));
            }
        }
        a
    };
    match prop {
        1 => {
            let mut a = base("ids", vec![1, 2, 3], [8, 10]);
            a.types = vec![2];
            a.ops = vec![
                o(CreateEmpty, 0, 0, 0),
                o(CreateArch, 1, 2, 0),
                o(Destroy, 0, 0, 0),
                o(Destroy, 1, 0, 0),
                o(Destroy, 2, 0, 0),
                o(Destroy, 3, 0, 0),
            ];
            out.push(a);
        }
        2 | 3 | 4 | 6 | 11 => {
            out.push(storage("storage", vec![1, 4], [5, 6]));
            out.push(slots("slots", vec![2], [7, 8]));
        }
        5 => {
            let mut a = base("tags", vec![1, 2], [6, 7]);
            a.types = vec![2];
            a.tags = vec![0, 1];
            a.ops = vec![o(CreateEmpty, 0, 0, 0), o(CreateArch, 1, 2, 0), o(Destroy, 0, 0, 0), o(Destroy, 1, 0, 0)];
            for e in 0..2 {
                for t in 0..2 {
                    a.ops.push(o(AddTag, e, t, 0));
                    a.ops.push(o(RemoveTag, e, t, 0));
                }
            }
            out.push(a);
        }
        7 => out.push(order("orders", [5, 6])),
        8 | 16 => {
            let mut a = base("ordered-placement", vec![8], [5, 6]);
            a.types = vec![15, 2];
            a.tups = vec![15, 2];
            a.groups = vec![0];
            a.pre = vec![
                o(CreateArch, 1, 2, 0),
                o(CreateArch, 1, 2, 0),
                o(CreateArch, 1, 2, 0),
                o(CreateArch, 2, 2, 0),
                o(CreateEmpty, 0, 0, 0),
            ];
            for e in 0..5 {
                a.ops.push(o(OrdAppend, e, 0, 0));
                a.ops.push(o(OrdPrev, e, 0, 0));
            }
            a.ops.extend([
                o(OrdRemove, 0, 0, 0),
                o(OrdRemove, 2, 0, 0),
                o(Destroy, 0, 0, 0),
                o(Destroy, 1, 0, 0),
                o(Add, 0, 1, 0),
                o(Add, 4, 0, 0),
                o(Remove, 1, 0, 0),
            ]);
            out.push(a);
        }
        _ => {}
    }
    out
}

pub struct Enumerate<'a> {
    pub base: u64,
    pub skip: &'a [u64],
    pub dump: Option<u64>,
    pub announce: bool,
    pub deadline: std::time::Instant,
    pub shard: (usize, usize),
}

/// Enumerate all words of length 1..=depth (a word continues only while every
/// operation applies); returns (words run, complete, stopped outcome).
pub fn exhaust(
    env: &mut Env,
    a: &Alphabet,
    cap: usize,
    depth: usize,
    ctl: &Enumerate,
    t: &mut Tally,
) -> (u64, bool, Option<(Case, Outcome)>) {
    let k = a.ops.len();
    let mut word = vec![0usize];
    let mut runs = 0u64;
    let mut c = Case {
        id: ctl.base,
        caps: vec![cap],
        types: a.types.clone(),
        tups: a.tups.clone(),
        tags: a.tags.clone(),
        groups: a.groups.clone(),
        audit_every: 0,
        strict: true,
        max_live: 12,
        ops: vec![],
    };
    let mut ticks = 0u32;
    loop {
        // words of one or two letters belong to all shards, longer ones to the shard of their first three
        let short = word.len() < 3;
        let mine = short || mix(((word[0] * k + word[1]) * k + word[2]) as u64) % ctl.shard.1 as u64 == ctl.shard.0 as u64;
        let mut dead_at: Option<usize> = None;
        if mine {
            c.id += 1;
            c.ops.clear();
            c.ops.extend(a.pre.iter());
            c.ops.extend(word.iter().map(|&x| a.ops[x]));
            if ctl.dump == Some(c.id) {
                return (runs, false, Some((c, Outcome::Done)));
            }
            if ctl.skip.contains(&c.id) {
                dead_at = Some(word.len() - 1);
            } else {
                if ctl.announce {
                    println!("CASE {}", c.id);
                }
                runs += 1;
                match run_case(env, &c, t, true) {
                    Outcome::Done => {
                        if t.sample.is_none() && word.len() == depth {
                            t.sample = Some(crate::brief_case(&c, a.name));
                        }
                    }
                    Outcome::Skip { op } => {
                        runs -= 1;
                        dead_at = Some(op.saturating_sub(a.pre.len()));
                    }
                    Outcome::Cut { op, msg } => {
                        crate::note_cut(t, msg);
                        // longer words would be cut as well
                        dead_at = Some(op.saturating_sub(a.pre.len()).min(word.len() - 1));
                    }
                    v @ Outcome::Viol { .. } => return (runs, false, Some((c, v))),
                }
            }
        }
        ticks += 1;
        if ticks % 128 == 0 && std::time::Instant::now() > ctl.deadline {
            return (runs, false, None);
        }
        // next word
        if dead_at.is_none() && word.len() < depth && mine {
            word.push(0);
        } else {
            if let Some(d) = dead_at {
                word.truncate(d + 1);
            }
            loop {
                match word.last_mut() {
                    None => return (runs, true, None),
                    Some(x) => {
                        *x += 1;
                        if *x < k {
                            break;
                        }
                        word.pop();
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------ case files
pub fn case_text(c: &Case, prop: usize) -> String {
    let l = |v: &[usize]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
    let mut s = format!(
        "mode hist\nprop {prop}\nid {}\ncaps {}\ntypes {}\ntups {}\ntags {}\ngroups {}\naudit {}\nstrict {}\nmax_live {}\n",
        c.id,
        l(&c.caps),
        l(&c.types),
        l(&c.tups),
        l(&c.tags),
        l(&c.groups),
        c.audit_every,
        c.strict as u8,
        c.max_live
    );
    for x in &c.ops {
        s += &format!("op {} {} {} {} {} # {}\n", x.w, x.code, x.a, x.b, x.c, op::NAMES[x.code as usize]);
    }
    s
}
pub fn parse_case(text: &str) -> (Case, usize) {
    let mut c = Case {
        id: 0,
        caps: vec![1],
        types: vec![],
        tups: vec![],
        tags: vec![],
        groups: vec![],
        audit_every: 0,
        strict: false,
        max_live: 100,
        ops: vec![],
    };
    let mut prop = 0;
    for line in text.lines() {
        let line = line.split('#').next().unwrap();
        let mut it = line.split_whitespace();
        let k = match it.next() {
            Some(k) => k,
            None => continue,
        };
        let nums: Vec<u64> = it.filter_map(|x| x.parse().ok()).collect();
        let us: Vec<usize> = nums.iter().map(|x| *x as usize).collect();
        match k {
            "prop" => prop = us[0],
            "id" => c.id = nums[0],
            "caps" => c.caps = us,
            "types" => c.types = us,
            "tups" => c.tups = us,
            "tags" => c.tags = us,
            "groups" => c.groups = us,
            "audit" => c.audit_every = us[0],
            "strict" => c.strict = us[0] == 1,
            "max_live" => c.max_live = us[0],
            "op" => c.ops.push(Op {
                w: nums[0] as u8,
                code: nums[1] as u8,
                a: nums[2] as u32,
                b: nums[3] as u32,
                c: nums[4] as u32,
            }),
            _ => {}
        }
    }
    (c, prop)
}
