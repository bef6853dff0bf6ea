"""C20: which type definitions the derive macros accept, decided by the real
compiler on generated definitions, and by running what was accepted."""
import json, os, random, re, shutil, subprocess, tempfile, time

RAW = ["r#type", "r#struct", "r#match", "r#fn", "r#impl", "r#async", "r#move", "r#loop", "r#dyn", "r#ref", "r#use", "r#box", "r#try", "r#yield"]
FIELDS = [  # (type, value)
    ("u8", "7"), ("i8", "-3"), ("u16", "999"), ("u32", "77_000"), ("u64", "1 << 40"), ("u128", "1 << 90"), ("i64", "-5"), ("usize", "12"),
    ("f32", "1.5"), ("f64", "-2.25"), ("bool", "true"), ("char", "'x'"), ("()", "()"), ("[u8; 0]", "[]"), ("[u8; 3]", "[1, 2, 3]"),
    ("[u32; 17]", "[9; 17]"), ("(u8, u64)", "(1, 2)"), ("(u32,)", "(4,)"), ("&'static str", '"abc"'), ("&'static [u8]", "&[1, 2]"),
    ("Option<u32>", "Some(3)"), ("Option<&'static u8>", "None"), ("Result<u8, u16>", "Ok(1)"),
    ("std::num::NonZeroU32", "std::num::NonZeroU32::MIN"), ("std::marker::PhantomData<String>", "std::marker::PhantomData"),
    ("std::time::Duration", "std::time::Duration::from_secs(3)"), ("division_ecs::Entity", "division_ecs::Entity::null()"),
    ("*const u8", "std::ptr::null()"), ("std::cmp::Ordering", "std::cmp::Ordering::Less"), ("Inner", "Inner { v: 5 }"), ("Kind", "Kind::B(2)"),
    ("std::mem::Discriminant<Kind>", "std::mem::discriminant(&Kind::A)"), ("fn(u8) -> u8", "idf"),
]
PRELUDE = """use division_ecs::*;
#[allow(dead_code)] #[derive(Clone, Copy, PartialEq, Debug)] pub struct Inner { pub v: u16 }
#[allow(dead_code)] #[derive(Clone, Copy, PartialEq, Debug)] pub enum Kind { A, B(u8) }
#[allow(dead_code)] pub fn idf(x: u8) -> u8 { x }
"""
VIS = ["", "pub ", "pub(crate) ", "pub(super) ", "pub(in crate) "]
ATTRS = ["#[allow(dead_code)]", "#[doc = \"text\"]", "/// doc", "#[repr(C)]", "#[cfg(not(any()))]", "#[cfg_attr(all(), allow(unused))]", "#[must_use]", "#[non_exhaustive]", "#[deprecated]"]
REPRS = ["#[repr(C)]", "#[repr(align(64))]", "#[repr(packed)]", "#[repr(C, align(16))]", ""]


def name(r, i):
    k = r.randrange(8)
    if k == 0:
        return r.choice(RAW)
    return r.choice(["T%d", "Component%d", "lower_%d", "X_%dY", "Größe%d", "__t%d", "Tag%d"]) % i


def derives(r, mac):
    other = ["Clone", "Copy", "PartialEq", "Debug"]
    k = r.randrange(5)
    if k == 0:
        return "#[derive(%s)]" % ", ".join([mac] + other)
    if k == 1:
        return "#[derive(%s)]" % ", ".join(other + [mac])
    if k == 2:
        return "#[derive(%s)]\n#[derive(%s)]" % (", ".join(other), mac)
    if k == 3:
        return "#[derive(%s)]\n#[derive(%s)]" % (mac, ", ".join(other))
    return "#[derive(%s, division_ecs::%s, %s)]" % (", ".join(other[:2]), mac, ", ".join(other[2:]))


def attrs(r, pool, most=2):
    return "".join(a + "\n" for a in r.sample(pool, r.randrange(most + 1)))


def body(r, fields):
    """a struct body with the fields, and the expression that makes a value"""
    n = len(fields)
    if n and r.randrange(2) or (not n and r.randrange(3) == 0):
        parts, vals = [], []
        for t, v in fields:
            parts.append(attrs(r, ["#[allow(dead_code)]", "/// f", "#[cfg(all())]"], 1) + r.choice(VIS) + t)
            vals.append(v)
        gone = r.randrange(6) == 0
        if gone:
            parts.insert(r.randrange(n + 1), "#[cfg(any())] u8")
        return "(%s)%s;" % (", ".join(parts) + ("," if n and r.randrange(3) == 0 else ""), ""), "(%s)" % ", ".join(vals)
    if not n and r.randrange(2):
        return ";", ""
    parts, vals, used = [], [], set()
    for k, (t, v) in enumerate(fields):
        f = r.choice(["f%d" % k, r.choice(RAW), "_f%d" % k, "größe%d" % k])
        if f in used:
            f = "g%d" % k
        used.add(f)
        parts.append(attrs(r, ["#[allow(dead_code)]", "/// f", "#[cfg(all())]"], 1) + r.choice(VIS) + f + ": " + t)
        vals.append("%s: %s" % (f, v))
    if r.randrange(6) == 0:
        parts.insert(r.randrange(n + 1), "#[cfg(any())] gone: u8")
    return "{ %s }" % (", ".join(parts) + ("," if n and r.randrange(2) else "")), "{ %s }" % ", ".join(vals)


def where(r, b):
    w = r.choice(["", "", "", " where u32: Copy", " where"])
    if not w:
        return b
    if b.startswith("{"):
        return w + " " + b
    if b.startswith("("):
        return b[:-1] + w + ";"
    return w + ";"


def clean_cmp(fields):
    return all(t not in ("*const u8",) for t, _ in fields)


def accept_component(r, i):
    n = r.choice([1, 1, 2, 3, 4, r.randrange(5, 30)])
    fields = [r.choice(FIELDS) for _ in range(n)]
    b, val = body(r, fields)
    nm = name(r, i)
    rep = r.choice(REPRS)
    if "packed" in rep:
        rep = "#[repr(C)]"
    d = "%s%s%s\n%s%sstruct %s%s" % (attrs(r, ATTRS[:3] + ATTRS[4:]), rep + "\n" if rep else "", derives(r, "Component"), "#[allow(non_camel_case_types)]\n", r.choice(VIS), nm, where(r, b))
    return dict(kind="component", name=nm, text=d, value=nm + val)


def accept_tag(r, i):
    b, val = body(r, [])
    nm = name(r, i)
    d = "%s%s\n#[allow(non_camel_case_types)]\n%sstruct %s%s" % (attrs(r, ATTRS[:3] + ATTRS[4:]), derives(r, "Tag") if r.randrange(2) else "#[derive(Tag)]", r.choice(VIS), nm, where(r, b))
    return dict(kind="tag", name=nm, text=d, value=nm + val)


def rejected(r, i):
    """a definition that must be refused; `text` has the derive on a line of its own"""
    nm = name(r, i)
    mac = r.choice(["Component", "Component", "Tag"])
    std = "#[derive(Clone, Copy)]"
    some = [r.choice(FIELDS) for _ in range(r.choice([1, 2, 3]))]
    # a union or an enum variant takes plain types only
    plain = [f for f in FIELDS if f[0] in ("u8", "u32", "u64", "f32", "bool", "[u8; 3]", "()")]
    k = r.randrange(3)
    if k == 0:
        b, _ = body(r, [] if mac == "Component" else some)
        what, d = ("field-less struct" if mac == "Component" else "struct with fields"), "struct %s%s" % (nm, where(r, b))
    elif k == 1:
        vs = []
        for j in range(r.choice([0, 1, 2, 3, 6])):
            vs.append(r.choice(["V%d" % j, "V%d(%s)" % (j, ", ".join(r.choice(plain)[0] for _ in range(r.randrange(3)))), "V%d { x: %s }" % (j, r.choice(plain)[0]), "V%d {}" % j]))
        what, d = "enum of %d variants" % len(vs), "enum %s { %s }" % (nm, ", ".join(vs))
    else:
        fs = ["f%d: %s" % (j, r.choice(plain)[0]) for j in range(r.choice([1, 2, 4]))]
        what, d = "union", "union %s { %s }" % (nm, ", ".join(fs))
    pre = attrs(r, ATTRS[:3] + [ATTRS[4]]) + std + "\n#[allow(non_camel_case_types, dead_code)]\n"
    vis = r.choice(VIS)
    return dict(kind="reject", what="%s as %s" % (what, mac), name=nm, text=pre + "#[derive(%s)]\n%s%s" % (mac, vis, d), control=pre + vis + d)


def rejected_noncopy(r, i):
    nm = name(r, i)
    t = r.choice(["String", "Vec<u8>", "Box<u32>", "std::rc::Rc<u8>", "std::cell::Cell<u8>", "&'static mut u8", "std::cell::RefCell<u8>", "u8"])
    der = "#[derive(Clone)]" if t == "u8" else ("" if "mut" in t or r.randrange(2) else "#[derive(Clone)]")
    fs = [r.choice(FIELDS[:12])[0] for _ in range(r.randrange(3))] + [t]
    r.shuffle(fs)
    d = "struct %s(%s);" % (nm, ", ".join(fs)) if r.randrange(2) else "struct %s { %s }" % (nm, ", ".join("f%d: %s" % (k, x) for k, x in enumerate(fs)))
    pre = der + "\n#[allow(non_camel_case_types, dead_code)]\n"
    return dict(kind="reject", what="non-copyable struct as Component", name=nm, text=pre + "#[derive(Component)]\n" + d, control=pre + d)


def scope(r, text, k, extra=""):
    """where the definition stands: module, nested module or function body"""
    c = r.randrange(3) if "super" not in text and "in crate" not in text else r.randrange(2)
    if c == 0:
        return "mod m%d {\n%s%s\n%s}\n" % (k, PRELUDE, text, extra)
    if c == 1:
        return "mod m%d { mod inner {\n%s%s\n%s}\n pub use inner::run; }\n" % (k, PRELUDE, text, extra)
    return "mod m%d {\n%s\npub fn run() {\n%s\n%s\nrun();\n}\n}\n" % (k, PRELUDE, text, extra or "pub fn run() {}")


def use_component(c):
    n, v = c["name"], c["value"]
    return """#[allow(deprecated, unused)]
pub fn run() {
    let mut s = Store::with_capacity(1);
    let mut hs = vec![];
    for k in 0..3u32 {
        let e = if k == 1 { s.create_entity_with_archetype(&Archetype::with_components::<%(n)s>()) } else { s.create_entity() };
        assert!(k == 1 || s.get_components_refs::<%(n)s>(e).is_none(), "component seen before it was added");
        s.add_components(e, %(v)s);
        hs.push(e);
    }
    s.destroy_entity(hs[0]);
    for &e in &hs[1..] {
        let x = s.get_components_refs::<%(n)s>(e).expect("component not found");
        assert!(*x == %(v)s, "component reads back wrong");
        assert!(s.get_entity_archetype(e).unwrap().has_component::<%(n)s>(), "archetype lacks the component");
        assert_eq!(s.get_entity_archetype(e).unwrap().component_count(), 1);
    }
    let mut q = query::component::readonly::<%(n)s>();
    assert_eq!(s.component_query_iter(&mut q).count(), 2);
    s.remove_components::<%(n)s>(hs[1]);
    assert!(s.get_components_refs::<%(n)s>(hs[1]).is_none(), "component found after removal");
}
""" % dict(n=n, v=v)


def use_tag(c):
    return """#[allow(deprecated, unused)]
pub fn run() {
    let mut s = Store::with_capacity(1);
    let a = s.create_entity();
    let b = s.create_entity();
    let c = s.create_entity();
    s.add_tag::<%(n)s>(a);
    s.add_tag::<%(n)s>(c);
    assert!(s.has_tag::<%(n)s>(a) && !s.has_tag::<%(n)s>(b) && s.has_tag::<%(n)s>(c), "tag not as added");
    s.remove_tag::<%(n)s>(a);
    assert!(!s.has_tag::<%(n)s>(a) && s.has_tag::<%(n)s>(c), "tag not as removed");
    s.add_entity_order_by::<%(n)s>(b);
    s.add_entity_order_by::<%(n)s>(a);
    assert!(s.get_first_entity_ordered_by::<%(n)s>() == Some(b) && s.get_last_entity_ordered_by::<%(n)s>() == Some(a), "order not as added");
}
""" % dict(n=c["name"])


class Proj:
    def __init__(self, drv, tmp):
        self.dir = os.path.join(tmp, "p")
        self.target = os.path.join(drv.BUILD, "derive")
        os.makedirs(os.path.join(self.dir, "src/bin"))
        with open(os.path.join(self.dir, "Cargo.toml"), "w") as f:
            f.write('[package]\nname = "gen"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\ndivision_ecs = { path = "%s" }\n[profile.dev]\ndebug = 0\nincremental = false\n' % drv.REPO)
        lock = os.path.join(drv.VERIF, "harness/Cargo.lock")
        self.lock = lock
        open(os.path.join(self.dir, "src/lib.rs"), "w").close()

    def write(self, bin, text):
        with open(os.path.join(self.dir, "src/bin", bin + ".rs"), "w") as f:
            f.write(text)

    def compile(self, bin, check=False):
        """(ok, [(line, message)], raw)"""
        r = subprocess.run(["cargo", "check" if check else "build", "--offline", "--bin", bin, "--message-format", "json", "--target-dir", self.target],
                           cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
        errs = []
        for l in r.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                if m.get("target", {}).get("name") != bin:
                    errs.append((None, m["message"]["message"]))
                    continue
                lines = [s["line_start"] for s in m["message"]["spans"] if s["is_primary"]] or [s["line_start"] for s in m["message"]["spans"]]
                errs.append((lines[0] if lines else None, m["message"]["message"]))
        return r.returncode == 0, errs, r.stderr[-3000:]

    def exe(self, bin):
        return os.path.join(self.target, "debug", bin)


def lay(items, fn):
    """concatenate; returns text and [(first line, last line)]"""
    out, spans, at = [], [], 1
    for k, it in enumerate(items):
        t = fn(it, k)
        n = t.count("\n")
        spans.append((at, at + n - 1))
        out.append(t)
        at += n
    return "".join(out), spans


def find(spans, line):
    for k, (a, b) in enumerate(spans):
        if line is not None and a <= line <= b:
            return k
    return None


def check(tier, seed, t0, drv):
    n_acc, n_tag, n_rej, n_nc, rounds = (140, 60, 160, 30, 1) if tier == "quick" else (300, 100, 300, 60, 8)
    tmp = tempfile.mkdtemp(prefix="ecsderive-")
    cov = dict(evaluations=0, distinct_nontrivial=0, rule=drv.RULES["derive"], samples=[], accepted=0, rejected=0, used=0)
    seen = set()
    viol = None
    try:
        pr = Proj(drv, tmp)
        for rd in range(rounds):
            r = random.Random(seed * 1000003 + rd)
            acc = [accept_component(r, i) for i in range(n_acc)] + [accept_tag(r, i) for i in range(n_tag)]
            rej = [rejected(r, i) for i in range(n_rej)]
            non = [rejected_noncopy(r, i) for i in range(n_nc)]
            for it in acc + rej + non:
                it["scope"] = r.randrange(1 << 30)
                seen.add(re.sub(r"\b%s\b" % re.escape(it["name"]), "NAME", it["text"]))
            place = lambda it, k, text, extra="": scope(random.Random(it["scope"]), text, k, extra)
            # ---- must be accepted
            alone = "#![allow(warnings)]\nuse division_ecs::*;\n"

            def accept_text(it, k):
                return place(it, k, it["text"], use_component(it) if it["kind"] == "component" else use_tag(it))

            body_, spans = lay(acc, accept_text)
            main = "fn main() {\n    let only = std::env::args().nth(1).map(|s| s.parse::<usize>().unwrap());\n" + "".join(
                "    if only.is_none() || only == Some(%d) { println!(\"item %d\"); m%d::run(); }\n" % (k, k, k) for k in range(len(acc))) + "}\n"
            off = 1
            pr.write("accept", "#![allow(warnings)]\n" + body_ + main)
            ok, errs, raw = pr.compile("accept")
            if not ok:
                bad = next(((find(spans, l - off), m) for l, m in errs if l is not None and find(spans, l - off) is not None), None)
                if bad is None:
                    print("ERROR: C20: generated program does not build: %s\n%s" % (errs[:3], raw))
                    return 2
                it = acc[bad[0]]
                # is the definition itself in order? (control: the trait implemented by hand)
                trait = "Component" if it["kind"] == "component" else "Tag"
                hand = re.sub(r"(division_ecs::)?\b%s\b(, )?" % trait, "", it["text"].split("struct")[0], count=0).replace(", )", ")").replace("#[derive()]\n", "") + "struct" + it["text"].split("struct", 1)[1] + "\nimpl %s for %s {}\n" % (trait, it["name"])
                pr.write("control", "#![allow(warnings)]\n" + place(dict(it), 0, hand, use_component(it) if it["kind"] == "component" else use_tag(it)) + "fn main() { m0::run() }\n")
                okc, ec, rawc = pr.compile("control", True)
                one = "#![allow(warnings)]\n" + accept_text(it, 0) + "fn main() { m0::run() }\n"
                pr.write("single", one)
                ok1, e1, _ = pr.compile("single", True)
                if okc and not ok1:
                    viol = dict(text=one, msg="derive(%s) refused or not usable: %s: %s" % (trait, it["text"].replace("\n", " "), bad[1]))
                    break
                print("ERROR: C20: generated definition out of order (control %s, alone %s): %s\n%s\n%s" % (okc, ok1, it["text"], bad[1], ec[:2]))
                return 2
            cov["accepted"] += len(acc)
            run = subprocess.run([pr.exe("accept")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
            if run.returncode != 0:
                k = int(re.findall(r"item (\d+)", run.stdout)[-1])
                one = "#![allow(warnings)]\n" + accept_text(acc[k], 0) + "fn main() { m0::run() }\n"
                viol = dict(text=one, msg="accepted %s does not behave as one: %s: %s" % (acc[k]["kind"], acc[k]["text"].replace("\n", " "), run.stderr.strip().splitlines()[0:2]))
                break
            cov["used"] += len(acc)
            # ---- must be refused; the same definitions without the derive are in order
            ctl, _ = lay(rej + non, lambda it, k: place(it, k, it["control"], "pub fn run() {}\n"))
            pr.write("control", "#![allow(warnings)]\n" + ctl + "fn main() {}\n")
            okc, ec, raw = pr.compile("control", True)
            if not okc:
                print("ERROR: C20: a control definition does not build: %s\n%s" % (ec[:3], raw))
                return 2
            for group in (rej, non):
                txt, spans = lay(group, lambda it, k: place(it, k, it["text"], "pub fn run() {}\n"))
                pr.write("reject", "#![allow(warnings)]\n" + txt + "fn main() {}\n")
                ok, errs, raw = pr.compile("reject", True)
                hit = {find(spans, l - 1) for l, _ in errs if l is not None}
                if any(l is None for l, _ in errs) and not hit - {None}:
                    print("ERROR: C20: build fails elsewhere: %s\n%s" % (errs[:3], raw))
                    return 2
                for k, it in enumerate(group):
                    if k in hit:
                        cov["rejected"] += 1
                        continue
                    one = "#![allow(warnings)]\n" + place(it, 0, it["text"], "pub fn run() {}\n") + "fn main() {}\n"
                    pr.write("single", one)
                    ok1, _, _ = pr.compile("single", True)
                    if ok1:
                        viol = dict(text=one, msg="derive accepted for a %s: %s" % (it["what"], it["text"].replace("\n", " ")))
                        break
                    cov["rejected"] += 1
                if viol:
                    break
            if viol:
                break
            if rd == 0:
                cov["samples"] = [acc[0]["text"], acc[-1]["text"], rej[0]["text"], rej[1]["text"]]
        cov["evaluations"] = cov["accepted"] + cov["rejected"]
        cov["distinct_nontrivial"] = len(seen)
        drv.write_evidence("C20", tier, cov, time.time() - t0, 1 if viol else 0, ["definitions without generics", "derive macro and trait imported together, as the crate exports them"])
        for rx, desc in drv.known("C20"):
            print("KNOWN-FINDING: property=C20 %s" % desc)
        if viol:
            f = drv.save_replay("C20", dict(variant="derive", kind="compile", msg=viol["msg"]), "".join("// " + l + "\n" for l in []) + viol["text"])
            print("C20: " + viol["msg"])
            print("VIOLATION property=C20 replay=%s" % f)
            return 1
        print("C20 held: %d definitions accepted and used, %d refused, %.0f s" % (cov["used"], cov["rejected"], time.time() - t0))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
