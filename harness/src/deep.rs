//! C01 far out: one id recycled very often, and a store grown very large.
use crate::run::{new_tally, Tally};
use crate::types::mix;
use crate::world::*;
use crate::{crash, Args};
use division_ecs::{Entity, Store};

/// versions seen of one id, as a bitmap over all 2^32 (pages appear when touched)
struct Seen {
    bits: Vec<u64>,
}
impl Seen {
    fn new() -> Seen {
        Seen { bits: vec![0u64; 1 << 26] }
    }
    /// false when seen before
    #[inline]
    fn put(&mut self, v: u32) -> bool {
        let w = &mut self.bits[(v >> 6) as usize];
        let m = 1u64 << (v & 63);
        let fresh = *w & m == 0;
        *w |= m;
        fresh
    }
}

fn recycle(env: &mut Env, n: u64, cap: usize, below: usize, t: &mut Tally) -> R {
    let mut s = env.call("Store::with_capacity", CREATE, || Store::with_capacity(cap))?;
    let mut others = vec![];
    for _ in 0..below {
        others.push(env.call("create_entity", CREATE, || s.create_entity())?);
    }
    let first = env.call("create_entity", CREATE, || s.create_entity())?;
    // `guard` sits above, so that the recycled id comes from the free list
    let guard = if cap % 2 == 0 { Some(env.call("create_entity", CREATE, || s.create_entity())?) } else { None };
    env.call("destroy_entity", DESTROY, || s.destroy_entity(first))?;
    let id = first.id();
    let mut seen = Seen::new();
    seen.put(first.version());
    let mut others_seen = std::collections::HashSet::new();
    let mut old: Vec<Entity> = vec![first];
    let mut done = 1u64;
    let mut next_mark = 2u64;
    while done < n {
        let chunk = (1u64 << 15).min(n - done);
        crash::set(done, "create/destroy", CREATE | DESTROY);
        let mut last = first;
        let mut bad: Option<String> = None;
        let (sm, seen, os) = (&mut s, &mut seen, &mut others_seen);
        env.call("create/destroy of one id", CREATE | DESTROY, || {
            for _ in 0..chunk {
                let h = sm.create_entity();
                let fresh = if h.id() == id {
                    seen.put(h.version())
                } else {
                    crate::alloc::outside(|| os.insert((h.id(), h.version())))
                };
                if !fresh {
                    bad = Some(format!("handle {h:?} was issued before"));
                    return;
                }
                if !sm.is_alive(h) {
                    bad = Some(format!("fresh handle {h:?} is reported dead"));
                    return;
                }
                last = h;
                sm.destroy_entity(h);
                if sm.is_alive(h) {
                    bad = Some(format!("destroyed handle {h:?} is reported alive"));
                    return;
                }
            }
        })?;
        if let Some(m) = bad {
            return env.fail(bit(1), || format!("after {done} reuses of one id: {m}"));
        }
        done += chunk;
        t.ops += 2 * chunk;
        env.calls += 4 * chunk;
        if done >= next_mark || done >= n || done % (1 << 22) == 0 {
            if done >= next_mark {
                next_mark = done * 2;
                old.push(last);
                t.states.insert(mix(done) ^ cap as u64);
            }
            // with the id in use again, no earlier handle may seem alive
            let h = env.call("create_entity", CREATE, || s.create_entity())?;
            if h.id() == id && !seen_put(seen, h.version()) {
                return env.fail(bit(1), || format!("after {done} reuses of one id: handle {h:?} was issued before"));
            }
            for &o in &old {
                env.checks += 1;
                if env.call("is_alive", ALIVE, || s.is_alive(o))? {
                    return env.fail(bit(1), || format!("after {done} reuses of its id the dead handle {o:?} is reported alive"));
                }
            }
            for &o in others.iter().chain(guard.iter()) {
                env.checks += 1;
                if !env.call("is_alive", ALIVE, || s.is_alive(o))? {
                    return env.fail(bit(1), || format!("after {done} reuses of another id the handle {o:?} is reported dead"));
                }
            }
            env.call("destroy_entity", DESTROY, || s.destroy_entity(h))?;
            done += 1;
        }
    }
    env.checks += done;
    env.call("drop Store", bit(13), || drop(s))?;
    Ok(())
}
fn seen_put(s: &mut Seen, v: u32) -> bool {
    s.put(v)
}

/// a very large population, thinned and refilled
fn grow(env: &mut Env, n: usize, cap: usize, t: &mut Tally) -> R {
    let mut s = env.call("Store::with_capacity", CREATE, || Store::with_capacity(cap))?;
    let mut hs: Vec<(Entity, bool)> = Vec::with_capacity(n * 2);
    let mut issued = std::collections::HashSet::new();
    let mut by_id: Vec<u32> = vec![];
    let audit = |env: &mut Env, s: &Store, hs: &[(Entity, bool)]| -> R {
        for &(h, a) in hs {
            env.checks += 1;
            if env.call("is_alive", ALIVE, || s.is_alive(h))? != a {
                return env.fail(bit(1), || format!("{h:?} should be alive: {a} ({} handles issued)", hs.len()));
            }
        }
        Ok(())
    };
    for round in 0..4u64 {
        let live = hs.iter().filter(|h| h.1).count();
        for _ in live..n {
            let h = env.call("create_entity", CREATE, || s.create_entity())?;
            t.ops += 1;
            if !issued.insert((h.id(), h.version())) {
                return env.fail(bit(1), || format!("handle {h:?} was issued before"));
            }
            let id = h.id() as usize;
            if id > 1 << 27 {
                return env.fail(bit(1), || format!("absurd id {h:?}"));
            }
            if by_id.len() <= id {
                by_id.resize(id + 1, 0);
            }
            if by_id[id] != 0 {
                let o = hs[by_id[id] as usize - 1].0;
                return env.fail(bit(1), || format!("new handle {h:?} shares its id with live handle {o:?}"));
            }
            hs.push((h, true));
            by_id[id] = hs.len() as u32;
        }
        audit(env, &s, &hs)?;
        t.max_live = t.max_live.max(n);
        for k in 0..hs.len() {
            if !hs[k].1 {
                continue;
            }
            let kill = match round {
                0 => k % 2 == 0,
                1 => mix(k as u64) % 3 != 0,
                2 => k < n / 2 || k % 7 == 0,
                _ => true,
            };
            if kill {
                let h = hs[k].0;
                env.call("destroy_entity", DESTROY, || s.destroy_entity(h))?;
                hs[k].1 = false;
                by_id[h.id() as usize] = 0;
                t.ops += 1;
            }
        }
        audit(env, &s, &hs)?;
        t.states.insert(mix(round ^ (n as u64) << 8 ^ (cap as u64) << 40));
    }
    env.call("drop Store", bit(13), || drop(s))
}

fn run(what: &str, n: u64, cap: usize, below: usize, t: &mut Tally) -> (Env, R) {
    let mut env = Env::new(1);
    crash::set_case(cap as u64 * 1000 + below as u64);
    let r = if what == "recycle" { recycle(&mut env, n, cap, below, t) } else { grow(&mut env, n as usize, cap, t) };
    (env, r)
}
fn text(what: &str, n: u64, cap: usize, below: usize) -> String {
    format!("mode deep\nprop 1\nwhat {what}\nn {n}\ncap {cap}\nbelow {below}\n")
}
pub fn replay(t: &str) -> Option<String> {
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string());
    let num = |k: &str| get(k).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    let mut ta = new_tally();
    match run(&get("what ").unwrap_or_default(), num("n "), num("cap ") as usize, num("below ") as usize, &mut ta).1 {
        Err(Stop::Viol(m)) => Some(m),
        Err(Stop::Cut(m)) => {
            println!("CUT 0 {m}");
            None
        }
        Ok(()) => None,
    }
}

/// shard 0 recycles `n` times; other shards use other shapes and smaller counts
pub fn main(a: &Args) {
    let k = a.shard.0;
    let (what, n, cap, below) = match k {
        0 => ("recycle", a.n, 2, 0),
        1 => ("recycle", a.n / 4, 1, 3),
        2 => ("recycle", a.n / 8, 10, 7),
        3 => ("grow", (a.n >> 8).min(3_000_000), 1, 0),
        4 => ("grow", (a.n >> 9).min(1_000_000), 10, 0),
        5 => ("recycle", a.n / 16, 3, 0),
        _ => ("grow", (a.n >> 10).min(300_000), 33, 0),
    };
    if a.dump.is_some() {
        println!("{}", text(what, n, cap, below));
        return;
    }
    let mut t = new_tally();
    t.cases = 1;
    let (env, r) = run(what, n, cap, below, &mut t);
    t.sample = Some(format!("{what} n={n} capacity={cap} other live ids={below}"));
    match r {
        Err(Stop::Viol(m)) => crate::report_violation(a, &text(what, n, cap, below), 0, &m),
        Err(Stop::Cut(m)) => crate::note_cut(&mut t, m),
        Ok(()) => {}
    }
    crate::summary(a, "deep", &env, &t, &[]);
}
