#![allow(non_upper_case_globals, unused)]
#![allow(const_item_mutation)]
//! ecsmon: drives division_ecs under generated histories and watches it.
mod alloc;
mod crash;
mod deep;
mod depth;
mod many;
mod layout;
mod lean;
mod oracle;
mod res;
mod rng;
mod run;
mod sets;
mod types;
mod world;
mod wrap;

use run::*;
use std::io::Write;
use std::time::{Duration, Instant};
use world::*;

pub struct Args {
    pub prop: usize,
    pub seed: u64,
    pub shard: (usize, usize),
    pub secs: f64,
    pub cases: u64,
    pub profiles: Vec<(String, u32)>,
    pub skip: Vec<u64>,
    pub from: u64,
    pub dump: Option<u64>,
    pub announce: bool,
    pub out: String,
    pub tier: usize,
    pub file: Option<String>,
    pub n: u64,
    pub variant: String,
}

fn args() -> (String, Args) {
    let mut it = std::env::args().skip(1);
    let mode = it.next().unwrap_or_default();
    let mut a = Args {
        prop: 10,
        seed: 1,
        shard: (0, 1),
        secs: 10.0,
        cases: u64::MAX,
        profiles: vec![],
        skip: vec![],
        from: 0,
        dump: None,
        announce: false,
        out: ".".into(),
        tier: 0,
        file: None,
        n: 0,
        variant: String::new(),
    };
    while let Some(k) = it.next() {
        let mut v = || it.next().expect("value");
        match k.as_str() {
            "--prop" => a.prop = v().parse().unwrap(),
            "--seed" => a.seed = v().parse().unwrap(),
            "--shard" => {
                let s = v();
                let (x, y) = s.split_once('/').unwrap();
                a.shard = (x.parse().unwrap(), y.parse().unwrap())
            }
            "--secs" => a.secs = v().parse().unwrap(),
            "--cases" => a.cases = v().parse().unwrap(),
            "--profiles" => {
                a.profiles = v()
                    .split(',')
                    .map(|s| match s.split_once(':') {
                        Some((n, w)) => (n.to_string(), w.parse().unwrap()),
                        None => (s.to_string(), 1),
                    })
                    .collect()
            }
            "--skip" => a.skip = v().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "--from" => a.from = v().parse().unwrap(),
            "--dump" => a.dump = Some(v().parse().unwrap()),
            "--announce" => a.announce = true,
            "--out" => a.out = v(),
            "--tier" => a.tier = v().parse().unwrap(),
            "--file" => a.file = Some(v()),
            "--n" => a.n = v().parse().unwrap(),
            "--variant" => a.variant = v(),
            _ => panic!("unknown argument {k}"),
        }
    }
    (mode, a)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Report a violation and end: the case goes to a file.
pub fn report_violation(a: &Args, text: &str, op: usize, msg: &str) -> ! {
    let file = format!("{}/viol-{}-{}.case", a.out, std::process::id(), a.shard.0);
    if cfg!(miri) {
        println!("CASETEXT\n{text}ENDTEXT");
    } else {
        std::fs::write(&file, text).ok();
    }
    println!("VIOL {{\"op\":{op},\"msg\":{},\"file\":{}}}", json_str(msg), json_str(&file));
    std::io::stdout().flush().ok();
    std::process::exit(1)
}

pub fn write_states(a: &Args, mode: &str, states: &std::collections::HashSet<u64>) {
    if cfg!(miri) {
        return;
    }
    let mut buf = Vec::with_capacity(states.len() * 8);
    for s in states {
        buf.extend_from_slice(&s.to_le_bytes());
    }
    std::fs::write(format!("{}/states-{}-{}.bin", a.out, mode, a.shard.0), buf).ok();
}

pub fn summary(a: &Args, mode: &str, env: &Env, t: &Tally, extra: &[(&str, String)]) {
    write_states(a, mode, &t.states);
    let mut s = format!(
        "SUMMARY {{\"mode\":{},\"cases\":{},\"cut\":{},\"ops\":{},\"skipped\":{},\"calls\":{},\"checks\":{},\"max_live\":{},\"grew\":{},\"states\":{}",
        json_str(mode),
        t.cases,
        t.cut,
        t.ops,
        t.skipped,
        env.calls,
        env.checks,
        t.max_live,
        t.grew,
        t.states.len()
    );
    s += ",\"cut_reasons\":[";
    s += &t.cut_reasons.iter().map(|r| json_str(r)).collect::<Vec<_>>().join(",");
    s += "],\"per_op\":{";
    s += &t
        .per_op
        .iter()
        .enumerate()
        .filter(|(_, n)| **n > 0)
        .map(|(i, n)| format!("\"{}\":{n}", op::NAMES[i]))
        .collect::<Vec<_>>()
        .join(",");
    s += "},\"feats\":{";
    let mut f: Vec<_> = env.feats.iter().collect();
    f.sort();
    s += &f.iter().map(|(k, n)| format!("{}:{n}", json_str(k))).collect::<Vec<_>>().join(",");
    s += "}";
    for (k, v) in extra {
        s += &format!(",{}:{v}", json_str(k));
    }
    if let Some(x) = &t.sample {
        s += &format!(",\"sample\":{}", json_str(x));
    }
    s += "}";
    println!("{s}");
    std::io::stdout().flush().ok();
}

/// one-line rendering of a case, for the evidence
pub fn brief_case(c: &Case, profile: &str) -> String {
    let mut s = format!("profile {profile} caps {:?} types {:?} ops {}:", c.caps, c.types, c.ops.len());
    for o in c.ops.iter().take(24) {
        s += &format!(" {}({},{},{})", op::NAMES[o.code as usize], o.a % 1000, o.b % 1000, o.c % 1000);
    }
    if c.ops.len() > 24 {
        s += " ...";
    }
    s
}

pub fn note_cut(t: &mut Tally, msg: String) {
    t.cut += 1;
    if t.cut_reasons.len() < 5 && !t.cut_reasons.contains(&msg) {
        t.cut_reasons.push(msg);
    }
}

fn hist(a: &Args) {
    let mut env = Env::new(a.prop);
    let mut t = new_tally();
    let total: u32 = a.profiles.iter().map(|p| p.1).sum();
    let deadline = Instant::now() + Duration::from_secs_f64(a.secs);
    let mut i = 0u64;
    let mut traces: Vec<(u64, Vec<u64>)> = vec![];
    let tracing = a.prop == 19;
    while i < a.cases && Instant::now() < deadline {
        let id = i * a.shard.1 as u64 + a.shard.0 as u64;
        i += 1;
        let mut x = (types::mix(id ^ 0xABCD) % total as u64) as u32;
        let mut profile = "";
        for (p, w) in &a.profiles {
            if x < *w {
                profile = p;
                break;
            }
            x -= w;
        }
        if a.skip.contains(&id) || id < a.from {
            if tracing {
                traces.push((id, vec![0xDEAD]));
            }
            continue;
        }
        let c = gen_case(&env.v, a.prop, profile, a.seed, id);
        if let Some(d) = a.dump {
            if d == id {
                println!("{}", case_text(&c, a.prop));
                return;
            }
            continue;
        }
        if a.announce {
            println!("CASE {id}");
            std::io::stdout().flush().ok();
        }
        t.cases += 1;
        if t.sample.is_none() && c.ops.len() < 400 {
            t.sample = Some(brief_case(&c, profile));
        }
        if tracing {
            env.trace = Some(vec![]);
            env.trace_ids = true;
        }
        let o = run_any(&mut env, &c, &mut t);
        if tracing {
            let mut tr = env.trace.take().unwrap();
            if let Outcome::Cut { op, msg } = &o {
                tr.push(0xC000_0000_0000_0000 | *op as u64);
                let _ = msg;
            }
            traces.push((id, tr));
        }
        match o {
            Outcome::Viol { op, msg } => report_violation(a, &case_text(&c, a.prop), op, &msg),
            Outcome::Cut { msg, op } => note_cut(&mut t, format!("case {id} op {op}: {msg}")),
            _ => {}
        }
    }
    if tracing && a.dump.is_none() && !cfg!(miri) {
        let mut s = String::new();
        for (id, tr) in &traces {
            s += &format!("{id}");
            for d in tr {
                s += &format!(" {d:x}");
            }
            s += "\n";
        }
        std::fs::write(format!("{}/trace-{}-{}.txt", a.out, a.variant, a.shard.0), s).unwrap();
    }
    if a.dump.is_none() {
        summary(a, "hist", &env, &t, &[]);
    }
}

fn exh(a: &Args) {
    let mut env = Env::new(a.prop);
    let mut t = new_tally();
    let deadline = Instant::now() + Duration::from_secs_f64(a.secs);
    let mut notes = vec![];
    let als = alphabets(a.prop, &env.v);
    let mut base = 0u64;
    let mut rest: usize = als.iter().map(|al| al.caps.len()).sum();
    for al in &als {
        for &cap in &al.caps {
            base += 1;
            let depth = al.depth[a.tier];
            // an equal slice of what is left for each
            let now = Instant::now();
            let deadline = now + deadline.saturating_duration_since(now) / rest as u32;
            rest -= 1;
            let ctl = Enumerate {
                base: base << 40,
                skip: &a.skip,
                dump: a.dump,
                announce: a.announce,
                deadline,
                shard: a.shard,
            };
            let (n, complete, v) = exhaust(&mut env, al, cap, depth, &ctl, &mut t);
            t.cases += n;
            notes.push(format!(
                "{{\"alphabet\":\"{}\",\"cap\":{cap},\"depth\":{depth},\"letters\":{},\"words\":{n},\"complete\":{complete}}}",
                al.name,
                al.ops.len()
            ));
            if let Some((c, o)) = v {
                match o {
                    Outcome::Viol { op, msg } => report_violation(a, &case_text(&c, a.prop), op, &msg),
                    _ => {
                        println!("{}", case_text(&c, a.prop));
                        return;
                    }
                }
            }
        }
    }
    if a.dump.is_none() {
        summary(a, "exh", &env, &t, &[("enumerations", format!("[{}]", notes.join(",")))]);
    }
}

fn cyc(a: &Args) {
    let mut env = Env::new(13);
    let mut t = new_tally();
    let deadline = Instant::now() + Duration::from_secs_f64(a.secs);
    let mut i = 0u64;
    while i < a.cases && Instant::now() < deadline {
        let id = i * a.shard.1 as u64 + a.shard.0 as u64;
        i += 1;
        if a.skip.contains(&id) {
            continue;
        }
        let profile = ["small", "pages", "small", "medium", "tiny", "wide"][(id % 6) as usize];
        let mut c = gen_case(&env.v, 13, profile, a.seed ^ 0xC1C1, id);
        c.strict = true; // cycle mode
        if id % 16 == 5 {
            c = gen_sweep(&env.v, a.seed ^ 0x5E3E, id);
        } else {
        c.ops.truncate(60);
        c.max_live = c.max_live.min(150);
        c.caps.truncate(1);
        for o in c.ops.iter_mut() {
            o.w = 0;
            if o.code == op::Reincarnate {
                o.a = o.a.min(300);
            }
        }
        }
        if let Some(d) = a.dump {
            if d == id {
                println!("{}", case_text(&c, 13));
                return;
            }
            continue;
        }
        if a.announce {
            println!("CASE {id}");
        }
        t.cases += 1;
        if t.sample.is_none() {
            t.sample = Some(format!("cycled: {}", brief_case(&c, profile)));
        }
        match run_any(&mut env, &c, &mut t) {
            Outcome::Viol { op, msg } => report_violation(a, &case_text(&c, 13), op, &msg),
            Outcome::Cut { msg, op } => note_cut(&mut t, format!("cycle case {id} op {op}: {msg}")),
            _ => {}
        }
    }
    if a.dump.is_none() {
        summary(a, "cyc", &env, &t, &[]);
    }
}

fn replay(a: &Args) {
    let text = std::fs::read_to_string(a.file.as_ref().expect("--file")).unwrap();
    replay_text(a, &text)
}
fn replay_text(a: &Args, text: &str) {
    let mode = text.lines().find_map(|l| l.strip_prefix("mode ")).unwrap_or("hist").trim().to_string();
    let msg = match mode.as_str() {
        "res" => res::replay(text),
        "layout" => layout::replay(text),
        "lean" => lean::replay(text),
        "par" => lean::par_replay(text),
        "sets" => sets::replay(text),
        "deep" => deep::replay(text),
        "depth" => depth::replay(text),
        "many" => many::replay(text),
        "wrap" => wrap::replay(text),
        _ => {
            let (c, prop) = parse_case(text);
            let mut env = Env::new(prop);
            if prop == 19 {
                env.trace = Some(vec![]);
                env.trace_ids = true;
            }
            let mut t = new_tally();
            let o = run_any(&mut env, &c, &mut t);
            if prop == 19 {
                let mut tr = env.trace.take().unwrap();
                if let Outcome::Cut { op, .. } = &o {
                    tr.push(0xC000_0000_0000_0000 | *op as u64);
                }
                let s: Vec<String> = tr.iter().map(|d| format!("{d:x}")).collect();
                println!("TRACE {}", s.join(" "));
            }
            match o {
                Outcome::Viol { op, msg } => Some(format!("at operation {op}: {msg}")),
                Outcome::Cut { op, msg } => {
                    println!("CUT {op} {msg}");
                    None
                }
                _ => None,
            }
        }
    };
    let _ = a;
    match msg {
        Some(m) => {
            println!("VIOL {{\"op\":0,\"msg\":{},\"file\":\"\"}}", json_str(&m));
            std::process::exit(1)
        }
        None => println!("REPLAY OK"),
    }
}

fn main() {
    crash::install_panic_capture();
    crash::install_signal_handlers();
    crash::watchdog();
    alloc::set_op_limit(3 << 30);
    let (mode, a) = args();
    match mode.as_str() {
        "hist" => hist(&a),
        "exh" => exh(&a),
        "cyc" => cyc(&a),
        "res" => res::main(&a),
        "layout" => layout::main(&a),
        "lean" => lean::main(&a),
        "par" => lean::par_main(&a),
        "sets" => sets::main(&a),
        "deep" => deep::main(&a),
        "depth" => depth::main(&a),
        "many" => many::main(&a),
        "wrap" => wrap::main(&a),
        "replay" => replay(&a),
        "ops" => {
            for (i, n) in op::NAMES.iter().enumerate() {
                println!("{i} {n}");
            }
        }
        _ => panic!("unknown mode {mode:?}"),
    }
}
