//! Component, tag and tuple vocabulary of the workloads.
use division_ecs::query::access::ComponentQueryAccess;
use division_ecs::*;
use std::any::Any;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// A component type whose values are derived from a 64-bit stamp.
pub trait CompX: Component + 'static {
    const IDX: usize;
    fn make(stamp: u64) -> Self;
    /// Digest of the fields (never of padding).
    fn sig(&self) -> u64;
}

fn fold(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    if cfg!(miri) && bytes.len() > 40 {
        // interpreted code is slow: the ends by byte, the middle (zeros, see
        // fill) by one comparison, which still reads every byte
        let n = bytes.len();
        for b in bytes[..12].iter().chain(&bytes[n - 12..]) {
            h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
        }
        static ZEROS: [u8; 20000] = [0; 20000];
        if bytes[12..n - 12] != ZEROS[..n - 24] {
            h ^= 1;
        }
        return h;
    }
    // Eight bytes at a time: the 8,000-byte components dominate otherwise.
    // Multiplication by an odd constant and the rotation are bijections, so
    // no single changed byte can go unnoticed.
    let words = bytes.chunks_exact(8);
    let rest = words.remainder();
    for w in words {
        h = (h ^ u64::from_le_bytes(w.try_into().unwrap())).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
    }
    for b in rest {
        h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

fn fill<const N: usize>(stamp: u64) -> [u8; N] {
    let mut a = [0u8; N];
    let mut s = stamp;
    let mut i = 0;
    // Only the ends and a sparse middle vary with the stamp: cheap and still
    // sensitive to shifts and overlaps.
    while i < N {
        if i % 8 == 0 {
            s = s.wrapping_add(0x9E37_79B9_7F4A_7C15) ^ (s >> 7);
        }
        a[i] = (s >> ((i % 8) * 8)) as u8;
        i += 1;
        if cfg!(miri) && i == 12 && N > 40 {
            i = N - 12;
        }
    }
    a
}

macro_rules! bytes_comp {
    ($($(#[$m:meta])* $n:ident [$len:expr] = $idx:expr;)*) => {$(
        $(#[$m])* #[derive(Clone, Copy)] pub struct $n([u8; $len]);
        impl Component for $n {}
        impl CompX for $n {
            const IDX: usize = $idx;
            fn make(s: u64) -> Self { $n(fill(mix(s ^ ($idx << 56)))) }
            fn sig(&self) -> u64 { fold(&self.0) }
        }
    )*};
}

macro_rules! num_comp {
    ($($n:ident($t:ty) = $idx:expr;)*) => {$(
        #[derive(Clone, Copy)] pub struct $n(pub $t);
        impl Component for $n {}
        impl CompX for $n {
            const IDX: usize = $idx;
            fn make(s: u64) -> Self {
                let m = mix(s ^ ($idx << 56));
                $n((m as $t).wrapping_add((mix(m) as $t).rotate_left(<$t>::BITS / 2)))
            }
            fn sig(&self) -> u64 { fold(&self.0.to_le_bytes()) }
        }
    )*};
}

num_comp! {
    B1(u8) = 0;
    H2(u16) = 1;
    W4(u32) = 2;
    D8(u64) = 3;
    Q16(u128) = 4;
    I8(i64) = 5;
}

bytes_comp! {
    T3[3] = 6;
    O5[5] = 7;
    N7[7] = 8;
    R17[17] = 9;
    L100[100] = 10;
    L300[300] = 11;
    L1000[1000] = 12;
    G2000[2000] = 13;
    G5000[5000] = 14;
    G8000[8000] = 15;
    G16000[16000] = 16;
    #[repr(align(32))] A32[32] = 17;
    #[repr(align(64))] A64[64] = 18;
    #[repr(align(256))] A256[256] = 19;
    #[repr(align(16))] A16S[48] = 20;
    #[repr(align(4))] A4S[12] = 21;
}

#[derive(Clone, Copy)]
pub struct Pad {
    a: u8,
    b: u32,
}
impl Component for Pad {}
impl CompX for Pad {
    const IDX: usize = 22;
    fn make(s: u64) -> Self {
        let m = mix(s ^ (22 << 56));
        Pad { a: m as u8, b: (m >> 8) as u32 }
    }
    fn sig(&self) -> u64 {
        ((self.a as u64) << 32) | self.b as u64
    }
}

#[derive(Component, Clone, Copy)]
pub struct Fl {
    x: f64,
    y: f32,
}
impl CompX for Fl {
    const IDX: usize = 23;
    fn make(s: u64) -> Self {
        let m = mix(s ^ (23 << 56));
        Fl { x: (m >> 12) as f64, y: (m & 0xffff) as f32 }
    }
    fn sig(&self) -> u64 {
        self.x.to_bits() ^ (self.y.to_bits() as u64).rotate_left(40)
    }
}

static REFS: [u64; 251] = [7; 251];
/// A component with validity requirements: a reference and a bool.
#[derive(Component, Clone, Copy)]
pub struct Ptr {
    r: &'static u64,
    t: bool,
}
impl CompX for Ptr {
    const IDX: usize = 24;
    fn make(s: u64) -> Self {
        let m = mix(s ^ (24 << 56));
        Ptr { r: &REFS[(m % 251) as usize], t: (m >> 60) & 1 == 1 }
    }
    fn sig(&self) -> u64 {
        let off = (self.r as *const u64 as usize).wrapping_sub(REFS.as_ptr() as usize) as u64;
        let t = unsafe { *(&self.t as *const bool as *const u8) };
        off.wrapping_mul(31) ^ ((t as u64) << 50)
    }
}

/// Many small distinct types of equal shape.
#[derive(Clone, Copy)]
pub struct K<const I: usize>(u32);
impl<const I: usize> Component for K<I> {}
impl<const I: usize> CompX for K<I> {
    const IDX: usize = 25 + I;
    fn make(s: u64) -> Self {
        K((mix(s ^ ((25 + I as u64) << 56)) >> 16) as u32)
    }
    fn sig(&self) -> u64 {
        self.0 as u64
    }
}
pub const NK: usize = 15;

/// Distinct types that share one `type_name`: only the type id tells them apart.
pub struct Tw<const I: usize>;
pub trait Has {
    type T;
}
macro_rules! twin {
    ($i:literal, $t:ty, $idx:expr) => {
        const _: () = {
            #[derive(Clone, Copy)]
            pub struct Twin($t);
            impl Component for Twin {}
            impl CompX for Twin {
                const IDX: usize = $idx;
                fn make(s: u64) -> Self {
                    Twin((mix(s ^ ($idx << 56)) >> 16) as $t)
                }
                fn sig(&self) -> u64 {
                    self.0 as u64
                }
            }
            impl Has for Tw<$i> {
                type T = Twin;
            }
        };
    };
}
twin!(0, u32, 40);
twin!(1, u32, 41);
twin!(2, u64, 42);
pub type Tw0 = <Tw<0> as Has>::T;
pub type Tw1 = <Tw<1> as Has>::T;
pub type Tw2 = <Tw<2> as Has>::T;
pub const NTYPES: usize = 25 + NK + 3;

// ---------------------------------------------------------------- tags/groups
pub struct G<const N: usize>;
impl<const N: usize> Tag for G<N> {}

#[derive(Tag)]
pub struct PlainTag;

macro_rules! twin_tag {
    ($i:literal) => {
        const _: () = {
            pub struct TwinTag;
            impl Tag for TwinTag {}
            impl Has for Tw<$i> {
                type T = TwinTag;
            }
        };
    };
}
twin_tag!(10);
twin_tag!(11);
type Tt0 = <Tw<10> as Has>::T;
type Tt1 = <Tw<11> as Has>::T;

pub struct TagVt {
    pub add: fn(&mut Store, Entity),
    pub remove: fn(&mut Store, Entity),
    pub has: fn(&Store, Entity) -> bool,
}
pub struct GroupVt {
    pub append: fn(&mut Store, Entity),
    pub next_to: fn(&mut Store, Entity, Entity),
    pub prev_to: fn(&mut Store, Entity, Entity),
    pub remove: fn(&mut Store, Entity),
    pub first: fn(&Store) -> Option<Entity>,
    pub last: fn(&Store) -> Option<Entity>,
    pub next: fn(&Store, Entity) -> Option<Entity>,
    pub prev: fn(&Store, Entity) -> Option<Entity>,
}
fn tagvt<T: Tag>() -> TagVt {
    TagVt {
        add: |s, e| s.add_tag::<T>(e),
        remove: |s, e| s.remove_tag::<T>(e),
        has: |s, e| s.has_tag::<T>(e),
    }
}
fn groupvt<T: Tag>() -> GroupVt {
    GroupVt {
        append: |s, e| s.add_entity_order_by::<T>(e),
        next_to: |s, e, a| s.add_entity_next_to_order_by::<T>(e, a),
        prev_to: |s, e, a| s.add_entity_previous_to_order_by::<T>(e, a),
        remove: |s, e| s.remove_entity_order_by::<T>(e),
        first: |s| s.get_first_entity_ordered_by::<T>(),
        last: |s| s.get_last_entity_ordered_by::<T>(),
        next: |s, e| s.get_next_entity_ordered_by::<T>(e),
        prev: |s, e| s.get_previous_entity_ordered_by::<T>(e),
    }
}
macro_rules! list_g { ($f:ident: $($n:literal)*) => { vec![$($f::<G<$n>>()),*] }; }

// ---------------------------------------------------------------- flattening
pub trait Flat {
    fn flat(self, out: &mut Vec<*mut u8>);
}
impl<T: CompX> Flat for &T {
    #[inline]
    fn flat(self, out: &mut Vec<*mut u8>) {
        out.push(self as *const T as *mut u8)
    }
}
impl<T: CompX> Flat for &mut T {
    #[inline]
    fn flat(self, out: &mut Vec<*mut u8>) {
        out.push(self as *mut T as *mut u8)
    }
}
macro_rules! flat_tuple { ($($v:ident),+) => {
    #[allow(non_snake_case)]
    impl<$($v: Flat),+> Flat for ($($v,)+) {
        #[inline]
        fn flat(self, out: &mut Vec<*mut u8>) { let ($($v,)+) = self; $($v.flat(out);)+ }
    }
}}
flat_tuple!(A, B);
flat_tuple!(A, B, C);
flat_tuple!(A, B, C, D);
flat_tuple!(A, B, C, D, E);
flat_tuple!(A, B, C, D, E, F);
flat_tuple!(A, B, C, D, E, F, H);
flat_tuple!(A, B, C, D, E, F, H, I);
flat_tuple!(A, B, C, D, E, F, H, I, J);
flat_tuple!(A, B, C, D, E, F, H, I, J, L);
flat_tuple!(A, B, C, D, E, F, H, I, J, L, M);
flat_tuple!(A, B, C, D, E, F, H, I, J, L, M, N);

pub trait Tup: ComponentTuple + 'static {
    const TYPES: &'static [usize];
    fn make(stamps: &[u64]) -> Self;
}
impl<T: CompX> Tup for T
where
    T: ComponentTuple,
{
    const TYPES: &'static [usize] = &[T::IDX];
    fn make(s: &[u64]) -> Self {
        T::make(s[0])
    }
}
macro_rules! tup_tuple { ($($v:ident $i:literal),+) => {
    impl<$($v: CompX),+> Tup for ($($v,)+) where ($($v,)+): ComponentTuple {
        const TYPES: &'static [usize] = &[$($v::IDX),+];
        fn make(s: &[u64]) -> Self { ($($v::make(s[$i]),)+) }
    }
}}
tup_tuple!(A 0, B 1);
tup_tuple!(A 0, B 1, C 2);
tup_tuple!(A 0, B 1, C 2, D 3);
tup_tuple!(A 0, B 1, C 2, D 3, E 4);
tup_tuple!(A 0, B 1, C 2, D 3, E 4, F 5);
tup_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, H 6);
tup_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, H 6, I 7);
tup_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, H 6, I 7, J 8);
tup_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, H 6, I 7, J 8, L 9);
tup_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, H 6, I 7, J 8, L 9, M 10);
tup_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, H 6, I 7, J 8, L 9, M 10, N 11);

// ---------------------------------------------------------------- vtables
pub struct TypeVt {
    pub size: usize,
    pub align: usize,
    pub name: &'static str,
    pub id: std::any::TypeId,
    pub ct: fn() -> ComponentType,
    /// digest of the value behind the pointer
    pub sig: unsafe fn(*const u8) -> u64,
    pub sig_of: fn(u64) -> u64,
    pub write: unsafe fn(*mut u8, u64),
    pub has: fn(&Archetype) -> bool,
    pub find: fn(&Archetype) -> Option<usize>,
}
unsafe fn sig_at<T: CompX>(p: *const u8) -> u64 {
    (*(p as *const T)).sig()
}
unsafe fn write_at<T: CompX>(p: *mut u8, s: u64) {
    (p as *mut T).write(T::make(s))
}
fn typevt<T: CompX>() -> TypeVt {
    TypeVt {
        size: std::mem::size_of::<T>(),
        align: std::mem::align_of::<T>(),
        name: std::any::type_name::<T>(),
        id: std::any::TypeId::of::<T>(),
        ct: ComponentType::of::<T>,
        sig: sig_at::<T>,
        sig_of: |s| T::make(s).sig(),
        write: write_at::<T>,
        has: |a| a.has_component::<T>(),
        find: |a| a.find_component_index_of::<T>(),
    }
}

pub struct TupVt {
    pub types: &'static [usize],
    pub archetype: fn() -> Archetype,
    pub include: fn(&mut ArchetypeBuilder),
    pub exclude: fn(&mut ArchetypeBuilder),
    pub add: fn(&mut Store, Entity, &[u64]),
    pub remove: fn(&mut Store, Entity),
    pub refs: fn(&Store, Entity, &mut Vec<*mut u8>) -> bool,
    pub refs_mut: fn(&mut Store, Entity, &mut Vec<*mut u8>) -> bool,
}
fn get<T: Tup>(s: &Store, e: Entity, out: &mut Vec<*mut u8>) -> bool
where
    for<'x> T::RefTuple<'x>: Flat,
{
    match s.get_components_refs::<T>(e) {
        None => false,
        Some(r) => {
            crate::alloc::outside(|| r.flat(out));
            true
        }
    }
}
fn get_mut<T: Tup>(s: &mut Store, e: Entity, out: &mut Vec<*mut u8>) -> bool
where
    for<'x> T::MutRefTuple<'x>: Flat,
{
    match s.get_components_refs_mut::<T>(e) {
        None => false,
        Some(r) => {
            crate::alloc::outside(|| r.flat(out));
            true
        }
    }
}
fn tupvt<T: Tup>() -> TupVt
where
    for<'x> T::RefTuple<'x>: Flat,
    for<'x> T::MutRefTuple<'x>: Flat,
{
    TupVt {
        types: T::TYPES,
        archetype: Archetype::with_components::<T>,
        include: |b| {
            b.include_components::<T>();
        },
        exclude: |b| {
            b.exclude_components::<T>();
        },
        add: |s, e, st| s.add_components(e, T::make(st)),
        remove: |s, e| s.remove_components::<T>(e),
        refs: get::<T>,
        refs_mut: get_mut::<T>,
    }
}

// ---------------------------------------------------------------- queries
#[derive(Clone, Copy)]
pub struct QOpt {
    pub with_entities: bool,
    /// stop after this many items
    pub take: usize,
    /// record len/size_hint before every `next` (and after the last)
    pub lens: bool,
    /// extra `next` calls after exhaustion (must all be None)
    pub after: usize,
    /// which iterator method consumes it (0: `next`; see `consume!`), and its parameter
    pub style: u8,
    pub k: usize,
}
pub const STYLES: &[&str] = &[
    "next", "for_each", "next and fold", "nth(0)", "take and for_each", // the whole of it, bounded
    "collect", "peekable", "zip", "try_for_each", "chain", // the whole of it
    "nth", "skip", "step_by", "last", "count", "find", "skip_while", "size_hint", // some of it
];
pub const BOUNDED: usize = 5;
pub const WHOLE: usize = 10;
/// What consuming a sequence of `n` items with this style must leave, as indices.
pub fn style_picks(style: usize, k: usize, n: usize) -> Vec<usize> {
    match STYLES[style] {
        "nth" => (0..n).skip(k).step_by(k + 1).collect(),
        "skip" | "skip_while" => (0..n).skip(k).collect(),
        "step_by" => (0..n).step_by(k + 1).collect(),
        "last" => (0..n).last().into_iter().collect(),
        "find" => (0..n).skip(k).collect(),
        _ => (0..n).collect(),
    }
}
/// Consume `$it` by the method of `opt.style`, handing every item to `$item`.
macro_rules! consume {
    ($it:ident, $opt:ident, $n:ident, $item:ident) => {{
        let k = $opt.k;
        let guard = |n: usize| assert!(n <= $opt.take, "more items than can be");
        match STYLES[$opt.style as usize] {
            "for_each" => $it.for_each(|x| {
                $item(x);
                guard($n.get())
            }),
            "next and fold" => {
                for _ in 0..k {
                    match $it.next() {
                        Some(x) => $item(x),
                        None => return,
                    }
                }
                $it.fold((), |_, x| {
                    $item(x);
                    guard($n.get())
                })
            }
            "nth(0)" => {
                while let Some(x) = $it.nth(0) {
                    $item(x);
                    guard($n.get())
                }
            }
            "take and for_each" => {
                $it.by_ref().take(k).for_each(|x| $item(x));
                for x in $it {
                    $item(x);
                    guard($n.get())
                }
            }
            "collect" => {
                let v: Vec<_> = $it.collect();
                v.into_iter().for_each(|x| $item(x))
            }
            "peekable" => {
                let mut p = $it.peekable();
                while p.peek().is_some() {
                    $item(p.next().unwrap());
                }
            }
            "zip" => {
                for (n, x) in (0usize..).zip($it) {
                    assert!(n == $n.get());
                    $item(x)
                }
            }
            "try_for_each" => {
                let mut left = k;
                let _ = $it.try_for_each(|x| {
                    $item(x);
                    left = left.checked_sub(1)?;
                    Some(())
                });
                $it.for_each(|x| $item(x))
            }
            "chain" => $it.chain(std::iter::empty()).fuse().for_each(|x| $item(x)),
            "nth" => {
                while let Some(x) = $it.nth(k) {
                    $item(x)
                }
            }
            "skip" => $it.skip(k).for_each(|x| $item(x)),
            "step_by" => $it.step_by(k + 1).for_each(|x| $item(x)),
            "last" => {
                if let Some(x) = $it.last() {
                    $item(x)
                }
            }
            "count" => $n.set($it.count()),
            "find" => {
                let mut c = 0;
                if let Some(x) = $it.find(|_| {
                    c += 1;
                    c > k
                }) {
                    $item(x)
                }
                $it.for_each(|x| $item(x))
            }
            "skip_while" => {
                let mut c = 0;
                $it.skip_while(|_| {
                    c += 1;
                    c <= k
                })
                .for_each(|x| $item(x))
            }
            "size_hint" => {
                let (lo, hi) = $it.size_hint();
                let n = $it.map(|x| $item(x)).count();
                assert!(lo <= n && hi.map(|h| n <= h).unwrap_or(true), "size_hint ({lo}, {hi:?}) of {n} items");
            }
            _ => unreachable!(),
        }
    }};
}
#[derive(Default)]
pub struct QOut {
    pub ents: Vec<Entity>,
    pub ptrs: Vec<*mut u8>,
    pub n: usize,
    /// len, size_hint, items consumed before
    pub lens: Vec<(usize, usize, Option<usize>, usize)>,
    pub not_fused: bool,
}
impl QOut {
    pub fn clear(&mut self) {
        self.ents.clear();
        self.ptrs.clear();
        self.lens.clear();
        self.n = 0;
        self.not_fused = false;
    }
}
/// Called for each item while the references are live: (entity, pointers).
pub type ItemCb<'c> = &'c mut dyn FnMut(Option<Entity>, &[*mut u8]);

fn drain<I, F: Flat>(mut it: I, opt: &QOpt, out: &mut QOut, cb: ItemCb)
where
    I: Iterator<Item = F>,
{
    while out.n < opt.take {
        match it.next() {
            None => {
                for _ in 0..opt.after {
                    if it.next().is_some() {
                        out.not_fused = true;
                    }
                }
                return;
            }
            Some(r) => crate::alloc::outside(|| {
                let at = out.ptrs.len();
                r.flat(&mut out.ptrs);
                out.n += 1;
                cb(None, &out.ptrs[at..]);
            }),
        }
    }
}
fn drain_e<I, F: Flat>(mut it: I, opt: &QOpt, out: &mut QOut, cb: ItemCb)
where
    I: Iterator<Item = (Entity, F)>,
{
    while out.n < opt.take {
        match it.next() {
            None => {
                for _ in 0..opt.after {
                    if it.next().is_some() {
                        out.not_fused = true;
                    }
                }
                return;
            }
            Some((e, r)) => crate::alloc::outside(|| {
                let at = out.ptrs.len();
                r.flat(&mut out.ptrs);
                out.ents.push(e);
                out.n += 1;
                cb(Some(e), &out.ptrs[at..]);
            }),
        }
    }
}
/// By the iterator method `opt.style` names.
fn drain_styled<I, F>(mut it: I, opt: &QOpt, out: &mut QOut, cb: ItemCb, flat: fn(F, &mut Vec<*mut u8>) -> Option<Entity>)
where
    I: Iterator<Item = F>,
{
    let n = std::cell::Cell::new(0usize);
    let QOut { ptrs, ents, n: total, .. } = out;
    let mut cb = cb;
    let mut item = |r: F| {
        crate::alloc::outside(|| {
            let at = ptrs.len();
            let e = flat(r, ptrs);
            ents.extend(e);
            n.set(n.get() + 1);
            cb(e, &ptrs[at..]);
        })
    };
    let n = &n;
    (|| consume!(it, opt, n, item))();
    *total = n.get();
}
fn flat1<F: Flat>(r: F, out: &mut Vec<*mut u8>) -> Option<Entity> {
    r.flat(out);
    None
}
fn flat2<F: Flat>(r: (Entity, F), out: &mut Vec<*mut u8>) -> Option<Entity> {
    r.1.flat(out);
    Some(r.0)
}

fn drain_len<I, F: Flat>(mut it: I, opt: &QOpt, out: &mut QOut)
where
    I: Iterator<Item = F> + ExactSizeIterator,
{
    let mut left = opt.take;
    let mut done = 0usize;
    loop {
        let l = it.len();
        let (lo, hi) = it.size_hint();
        crate::alloc::outside(|| out.lens.push((l, lo, hi, done)));
        if left == 0 {
            return;
        }
        left -= 1;
        let jump = if opt.style == 0 { 0 } else { (opt.k + out.n) % 7 };
        done += 1 + jump;
        match if opt.style == 0 { it.next() } else { it.nth(jump) } {
            Some(r) => crate::alloc::outside(|| {
                r.flat(&mut out.ptrs);
                out.n += 1;
            }),
            None => {
                left = left.min(opt.after);
                if left == 0 {
                    return;
                }
            }
        }
    }
}

pub type CqRun = fn(&Store, &mut dyn Any, &QOpt, &mut QOut, ItemCb);
pub type EqRun = fn(&Store, &[Entity], &mut dyn Any, &QOpt, &mut QOut, ItemCb);

fn cq_run<const S: bool, A: ComponentQueryAccess + 'static>(s: &Store, q: &mut dyn Any, opt: &QOpt, out: &mut QOut, cb: ItemCb)
where
    for<'x> A::AccessOutput<'x>: Flat,
{
    let q = q.downcast_mut::<ComponentQuery<A>>().unwrap();
    let it = s.component_query_iter(q);
    if opt.lens {
        drain_len(it, opt, out)
    } else if S && opt.style > 0 && opt.with_entities {
        drain_styled(it.with_entities(), opt, out, cb, flat2)
    } else if S && opt.style > 0 {
        drain_styled(it, opt, out, cb, flat1)
    } else if opt.with_entities {
        drain_e(it.with_entities(), opt, out, cb)
    } else {
        drain(it, opt, out, cb)
    }
}
fn fq_run<const S: bool, T: Tag, A: ComponentQueryAccess + 'static>(
    s: &Store,
    q: &mut dyn Any,
    opt: &QOpt,
    out: &mut QOut,
    cb: ItemCb,
) where
    for<'x> A::AccessOutput<'x>: Flat,
{
    let q = q.downcast_mut::<ComponentQuery<A>>().unwrap();
    let it = s.component_query_iter(q).with_entities().filter_tag::<T>();
    if S && opt.style > 0 {
        drain_styled(it, opt, out, cb, flat2)
    } else {
        drain_e(it, opt, out, cb)
    }
}
fn eq_run<const S: bool, A: ComponentQueryAccess + 'static>(
    s: &Store,
    l: &[Entity],
    q: &mut dyn Any,
    opt: &QOpt,
    out: &mut QOut,
    cb: ItemCb,
) where
    for<'x> A::AccessOutput<'x>: Flat,
{
    let q = q.downcast_mut::<EntityComponentQuery<A>>().unwrap();
    let it = s.entity_component_query_iter(l, q);
    if S && opt.style > 0 && opt.with_entities {
        drain_styled(it.with_entities(), opt, out, cb, flat2)
    } else if S && opt.style > 0 {
        drain_styled(it, opt, out, cb, flat1)
    } else if opt.with_entities {
        drain_e(it.with_entities(), opt, out, cb)
    } else {
        drain(it, opt, out, cb)
    }
}
fn oq_run<const S: bool, O: Tag, A: ComponentQueryAccess + 'static>(
    s: &Store,
    q: &mut dyn Any,
    opt: &QOpt,
    out: &mut QOut,
    cb: ItemCb,
) where
    for<'x> A::AccessOutput<'x>: Flat,
{
    let q = q.downcast_mut::<OrderedComponentQuery<O, A>>().unwrap();
    let it = s.ordered_query_iter(q);
    if opt.lens {
        drain_len(it, opt, out)
    } else if S && opt.style > 0 && opt.with_entities {
        drain_styled(it.with_entities(), opt, out, cb, flat2)
    } else if S && opt.style > 0 {
        drain_styled(it, opt, out, cb, flat1)
    } else if opt.with_entities {
        drain_e(it.with_entities(), opt, out, cb)
    } else {
        drain(it, opt, out, cb)
    }
}

pub struct CqVt {
    pub read: &'static [usize],
    pub write: &'static [usize],
    pub new: fn() -> Box<dyn Any>,
    pub run: CqRun,
    pub styled: bool,
}
pub struct FqVt {
    pub tag: usize,
    pub read: &'static [usize],
    pub write: &'static [usize],
    pub new: fn() -> Box<dyn Any>,
    pub run: CqRun,
    pub styled: bool,
}
pub struct OqVt {
    pub group: usize,
    pub read: &'static [usize],
    pub write: &'static [usize],
    pub new: fn() -> Box<dyn Any>,
    pub run: CqRun,
    pub styled: bool,
}
pub struct EqVt {
    pub read: &'static [usize],
    pub write: &'static [usize],
    pub new: fn() -> Box<dyn Any>,
    pub run: EqRun,
    pub styled: bool,
}

pub trait Acc: ComponentQueryAccess + 'static {
    const R: &'static [usize];
    const W: &'static [usize];
}
impl<T: Tup> Acc for ReadonlyAccess<T> {
    const R: &'static [usize] = T::TYPES;
    const W: &'static [usize] = &[];
}
impl<T: Tup> Acc for WriteAccess<T> {
    const R: &'static [usize] = &[];
    const W: &'static [usize] = T::TYPES;
}
impl<T: Tup, U: Tup> Acc for ReadWriteAccess<T, U> {
    const R: &'static [usize] = T::TYPES;
    const W: &'static [usize] = U::TYPES;
}
fn cqvt<A: Acc>() -> CqVt
where
    for<'x> A::AccessOutput<'x>: Flat,
{
    CqVt { read: A::R, write: A::W, new: || Box::new(ComponentQuery::<A>::new()), run: cq_run::<false, A>, styled: false }
}
fn fqvt<const N: usize, A: Acc>() -> FqVt
where
    for<'x> A::AccessOutput<'x>: Flat,
{
    FqVt { tag: N, read: A::R, write: A::W, new: || Box::new(ComponentQuery::<A>::new()), run: fq_run::<false, G<N>, A>, styled: false }
}
fn eqvt<A: Acc>() -> EqVt
where
    for<'x> A::AccessOutput<'x>: Flat,
{
    EqVt { read: A::R, write: A::W, new: || Box::new(EntityComponentQuery::<A>::new()), run: eq_run::<false, A>, styled: false }
}
fn oqvt<const N: usize, A: Acc>() -> OqVt
where
    for<'x> A::AccessOutput<'x>: Flat,
{
    OqVt {
        group: N,
        read: A::R,
        write: A::W,
        new: || Box::new(OrderedComponentQuery::<G<N>, A>::new()),
        run: oq_run::<false, G<N>, A>,
        styled: false,
    }
}

/// The same, with every way to consume the iterator compiled in.
fn cqs<A: Acc>() -> CqVt
where
    for<'x> A::AccessOutput<'x>: Flat,
{
    CqVt { run: cq_run::<true, A>, styled: true, ..cqvt::<A>() }
}
fn fqs<const N: usize, A: Acc>() -> FqVt
where
    for<'x> A::AccessOutput<'x>: Flat,
{
    FqVt { run: fq_run::<true, G<N>, A>, styled: true, ..fqvt::<N, A>() }
}
fn eqs<A: Acc>() -> EqVt
where
    for<'x> A::AccessOutput<'x>: Flat,
{
    EqVt { run: eq_run::<true, A>, styled: true, ..eqvt::<A>() }
}
fn oqs<const N: usize, A: Acc>() -> OqVt
where
    for<'x> A::AccessOutput<'x>: Flat,
{
    OqVt { run: oq_run::<true, G<N>, A>, styled: true, ..oqvt::<N, A>() }
}

pub type Ptrs = Vec<Vec<usize>>;
/// Four read-only iterators over one store, run one after the other and in turns.
pub struct InterVt {
    pub types: Vec<usize>,
    pub group: usize,
    pub run: fn(&Store, &[Entity], u64) -> (Ptrs, Ptrs),
}
fn inter_run<A: Tup, B: Tup, const N: usize>(s: &Store, list: &[Entity], seed: u64) -> (Ptrs, Ptrs)
where
    for<'x> A::RefTuple<'x>: Flat,
    for<'x> B::RefTuple<'x>: Flat,
{
    fn put<F: Flat>(to: &mut Vec<usize>, e: Option<Entity>, f: F) {
        crate::alloc::outside(|| {
            let mut v = Vec::new();
            f.flat(&mut v);
            if let Some(e) = e {
                to.push((e.id() as usize) << 32 | e.version() as usize);
            }
            to.extend(v.into_iter().map(|p| p as usize));
        })
    }
    let mut res: Vec<Ptrs> = crate::alloc::outside(|| vec![vec![vec![]; 4], vec![vec![]; 4]]);
    for (pass, out) in res.iter_mut().enumerate() {
        let mut q1 = ComponentQuery::<ReadonlyAccess<A>>::new();
        let mut q2 = ComponentQuery::<ReadonlyAccess<B>>::new();
        let mut q3 = EntityComponentQuery::<ReadonlyAccess<A>>::new();
        let mut q4 = OrderedComponentQuery::<G<N>, ReadonlyAccess<B>>::new();
        let mut rest = [true; 4];
        if pass == 0 {
            for r in s.component_query_iter(&mut q1) {
                put(&mut out[0], None, r);
            }
            for (e, r) in s.component_query_iter(&mut q2).with_entities() {
                put(&mut out[1], Some(e), r);
            }
            for (e, r) in s.entity_component_query_iter(list, &mut q3).with_entities() {
                put(&mut out[2], Some(e), r);
            }
            for (e, r) in s.ordered_query_iter(&mut q4).with_entities() {
                put(&mut out[3], Some(e), r);
            }
        } else {
            let mut i1 = s.component_query_iter(&mut q1);
            let mut i2 = s.component_query_iter(&mut q2).with_entities();
            let mut i3 = s.entity_component_query_iter(list, &mut q3).with_entities();
            let mut i4 = s.ordered_query_iter(&mut q4).with_entities();
            let mut x = seed;
            while rest.iter().any(|r| *r) {
                x = mix(x);
                match x >> 60 & 3 {
                    0 if rest[0] => match i1.next() {
                        Some(r) => put(&mut out[0], None, r),
                        None => rest[0] = false,
                    },
                    1 if rest[1] => match i2.next() {
                        Some((e, r)) => put(&mut out[1], Some(e), r),
                        None => rest[1] = false,
                    },
                    2 if rest[2] => match i3.next() {
                        Some((e, r)) => put(&mut out[2], Some(e), r),
                        None => rest[2] = false,
                    },
                    3 if rest[3] => match i4.next() {
                        Some((e, r)) => put(&mut out[3], Some(e), r),
                        None => rest[3] = false,
                    },
                    _ => {}
                }
            }
        }
    }
    let mixed = res.pop().unwrap();
    (res.pop().unwrap(), mixed)
}
fn inter<A: Tup, B: Tup, const N: usize>() -> InterVt
where
    for<'x> A::RefTuple<'x>: Flat,
    for<'x> B::RefTuple<'x>: Flat,
{
    let mut types = A::TYPES.to_vec();
    types.extend_from_slice(B::TYPES);
    InterVt { types, group: N, run: inter_run::<A, B, N> }
}

pub struct Vocab {
    pub inters: Vec<InterVt>,
    pub types: Vec<TypeVt>,
    pub tups: Vec<TupVt>,
    /// index into `tups` of the single-type tuple of each type
    pub single: Vec<usize>,
    pub tags: Vec<TagVt>,
    pub groups: Vec<GroupVt>,
    pub cqs: Vec<CqVt>,
    pub fqs: Vec<FqVt>,
    pub eqs: Vec<EqVt>,
    pub oqs: Vec<OqVt>,
}

macro_rules! singles { ($f:ident: $($t:ty),* $(,)?) => { vec![$($f::<$t>()),*] }; }
macro_rules! for_singles { ($f:ident) => { singles!($f:
    B1, H2, W4, D8, Q16, I8, T3, O5, N7, R17, L100, L300, L1000, G2000, G5000, G8000, G16000,
    A32, A64, A256, A16S, A4S, Pad, Fl, Ptr,
    K<0>, K<1>, K<2>, K<3>, K<4>, K<5>, K<6>, K<7>, K<8>, K<9>, K<10>, K<11>, K<12>, K<13>, K<14>,
    Tw0, Tw1, Tw2) }; }

type Ro<T> = ReadonlyAccess<T>;
type Wr<T> = WriteAccess<T>;
type Rw<T, U> = ReadWriteAccess<T, U>;

macro_rules! for_small_tuples { ($f:ident) => { vec![
    $f::<(B1, W4)>(), $f::<(W4, B1)>(), $f::<(D8, T3)>(), $f::<(Q16, B1)>(), $f::<(B1, Q16)>(),
    $f::<(A64, O5)>(), $f::<(T3, A32)>(), $f::<(Pad, Fl)>(), $f::<(Ptr, H2)>(), $f::<(L100, N7)>(),
    $f::<(L1000, W4)>(), $f::<(G2000, B1)>(), $f::<(G5000, D8)>(), $f::<(G8000, W4)>(), $f::<(G5000, G2000)>(),
    $f::<(K<0>, K<1>)>(), $f::<(K<1>, K<2>)>(), $f::<(K<2>, K<0>)>(), $f::<(K<3>, W4)>(), $f::<(A256, T3)>(),
    $f::<(D8, W4)>(), $f::<(W4, H2)>(), $f::<(H2, B1)>(),
    $f::<(B1, H2, W4)>(), $f::<(W4, D8, Q16)>(), $f::<(T3, O5, N7)>(), $f::<(A32, R17, Ptr)>(), $f::<(G2000, G5000, K<0>)>(),
    $f::<(K<0>, K<1>, K<2>)>(), $f::<(K<2>, K<1>, K<0>)>(), $f::<(L300, A16S, B1)>(),
    $f::<(B1, H2, W4, D8)>(), $f::<(D8, W4, H2, B1)>(), $f::<(K<3>, K<4>, K<5>, K<6>)>(),
    $f::<(Q16, T3, A64, Fl, Pad)>(), $f::<(K<0>, B1, K<1>, T3, K<2>)>(),
    $f::<(B1, H2, W4, D8, Q16, T3)>(), $f::<(K<7>, K<8>, K<9>, K<10>, K<11>, K<12>)>(),
    $f::<(Tw0, Tw1)>(), $f::<(Tw1, Tw2)>(), $f::<(W4, Tw0, Tw2, Tw1)>()
] }; }
macro_rules! for_big_tuples { ($f:ident) => { vec![
    $f::<(B1, T3, H2, O5, W4, N7, D8)>(),
    $f::<(K<0>, K<2>, K<4>, K<6>, K<8>, K<10>, K<12>)>(),
    $f::<(Q16, B1, A32, T3, A64, O5, D8, N7)>(),
    $f::<(K<0>, K<1>, K<2>, K<3>, K<4>, K<5>, K<6>, K<7>, K<8>)>(),
    $f::<(A4S, A16S, B1, W4, R17, Pad, Fl, Ptr, H2)>(),
    $f::<(B1, K<0>, T3, K<1>, O5, K<2>, N7, K<3>, Q16, K<4>)>(),
    $f::<(L100, L300, K<5>, B1, W4, D8, H2, T3, K<6>, Fl, Pad)>(),
    $f::<(B1, H2, W4, D8, Q16, I8, T3, O5, N7, R17, A32, A64)>(),
    $f::<(A64, A32, R17, N7, O5, T3, I8, Q16, D8, W4, H2, B1)>(),
    $f::<(K<0>, K<1>, K<2>, K<3>, K<4>, K<5>, K<6>, K<7>, K<8>, K<9>, K<10>, K<11>)>()
] }; }

macro_rules! rw_list { ($f:ident $(, $($g:tt)*)?) => { vec![
    $f::<$($($g)*)? Rw<B1, W4>>(), $f::<$($($g)*)? Rw<(W4, B1), T3>>(), $f::<$($($g)*)? Rw<K<0>, (K<1>, K<2>)>>(),
    $f::<$($($g)*)? Rw<(D8, T3), (B1, H2)>>(), $f::<$($($g)*)? Rw<G5000, D8>>(), $f::<$($($g)*)? Rw<(Q16, B1), (A32, Ptr)>>(),
    $f::<$($($g)*)? Rw<W4, (K<3>, D8)>>()
] }; }
macro_rules! styled_list { ($f:path $(, $($g:tt)*)?) => { vec![
    { use $f as f; f::<$($($g)*)? Ro<B1>>() }, { use $f as f; f::<$($($g)*)? Wr<W4>>() }, { use $f as f; f::<$($($g)*)? Ro<K<0>>>() },
    { use $f as f; f::<$($($g)*)? Ro<G5000>>() }, { use $f as f; f::<$($($g)*)? Rw<D8, (B1, H2)>>() }, { use $f as f; f::<$($($g)*)? Ro<(W4, B1)>>() }
] }; }
fn ro<T: Tup>() -> CqVt where for<'x> T::RefTuple<'x>: Flat { cqvt::<Ro<T>>() }
fn wr<T: Tup>() -> CqVt where for<'x> T::MutRefTuple<'x>: Flat { cqvt::<Wr<T>>() }
fn ero<T: Tup>() -> EqVt where for<'x> T::RefTuple<'x>: Flat { eqvt::<Ro<T>>() }

macro_rules! some_eq { () => { vec![
    eqvt::<Wr<B1>>(), eqvt::<Wr<W4>>(), eqvt::<Wr<(W4, B1)>>(), eqvt::<Wr<(D8, T3)>>(), eqvt::<Wr<G5000>>(), eqvt::<Wr<G16000>>(),
    eqvt::<Wr<(K<0>, K<1>)>>(), eqvt::<Wr<(B1, H2, W4, D8)>>(), eqvt::<Wr<(Q16, B1)>>(),
    eqvt::<Wr<(B1, H2, W4, D8, Q16, I8, T3, O5, N7, R17, A32, A64)>>(),
] }; }
macro_rules! oq_group { ($n:literal) => { vec![
    oqvt::<$n, Ro<B1>>(), oqvt::<$n, Ro<W4>>(), oqvt::<$n, Ro<D8>>(), oqvt::<$n, Ro<G5000>>(), oqvt::<$n, Ro<G2000>>(),
    oqvt::<$n, Ro<K<0>>>(), oqvt::<$n, Ro<K<1>>>(), oqvt::<$n, Ro<Q16>>(), oqvt::<$n, Ro<T3>>(), oqvt::<$n, Ro<A64>>(),
    oqvt::<$n, Ro<(W4, B1)>>(), oqvt::<$n, Ro<(K<0>, K<1>)>>(), oqvt::<$n, Ro<(B1, H2, W4)>>(), oqvt::<$n, Ro<(G5000, D8)>>(),
    oqvt::<$n, Ro<(Pad, Fl)>>(), oqvt::<$n, Ro<(K<0>, B1, K<1>, T3, K<2>)>>(),
    oqvt::<$n, Wr<B1>>(), oqvt::<$n, Wr<W4>>(), oqvt::<$n, Wr<(D8, T3)>>(), oqvt::<$n, Wr<(K<1>, K<2>)>>(), oqvt::<$n, Wr<G2000>>(),
    oqvt::<$n, Rw<B1, W4>>(), oqvt::<$n, Rw<K<0>, (K<1>, K<2>)>>(), oqvt::<$n, Rw<G5000, D8>>(), oqvt::<$n, Rw<(Q16, B1), H2>>(),
    oqvt::<$n, Ro<G16000>>(), oqvt::<$n, Wr<G16000>>(),
] }; }
macro_rules! fq_tag { ($n:literal) => { vec![
    fqvt::<$n, Ro<B1>>(), fqvt::<$n, Ro<W4>>(), fqvt::<$n, Ro<D8>>(), fqvt::<$n, Ro<G5000>>(), fqvt::<$n, Ro<K<0>>>(),
    fqvt::<$n, Ro<(W4, B1)>>(), fqvt::<$n, Ro<(K<0>, K<1>)>>(), fqvt::<$n, Ro<T3>>(),
    fqvt::<$n, Wr<B1>>(), fqvt::<$n, Wr<(D8, T3)>>(), fqvt::<$n, Wr<K<1>>>(),
    fqvt::<$n, Rw<B1, W4>>(), fqvt::<$n, Rw<K<0>, (K<1>, K<2>)>>(), fqvt::<$n, Ro<G16000>>(), fqvt::<$n, Wr<G16000>>(),
] }; }

pub const NTAGS: usize = 128;
pub const NGROUPS: usize = 72;

impl Vocab {
    pub fn new() -> Vocab {
        let types = for_singles!(typevt);
        assert_eq!(types.len(), NTYPES);
        let mut tups: Vec<TupVt> = for_singles!(tupvt);
        for (i, t) in tups.iter().enumerate() {
            assert_eq!(t.types, &[i]);
        }
        let single = (0..NTYPES).collect();
        let st: Vec<TupVt> = for_small_tuples!(tupvt);
        tups.extend(st);
        let bt: Vec<TupVt> = for_big_tuples!(tupvt);
        tups.extend(bt);
        let mut cqs: Vec<CqVt> = for_singles!(ro);
        let c: Vec<CqVt> = for_small_tuples!(ro);
        cqs.extend(c);
        let c: Vec<CqVt> = for_big_tuples!(ro);
        cqs.extend(c);
        let c: Vec<CqVt> = singles!(wr: B1, H2, W4, D8, T3, Q16, G5000, G2000, G16000, K<0>, K<1>, K<2>, A64, Ptr);
        cqs.extend(c);
        let c: Vec<CqVt> = for_small_tuples!(wr);
        cqs.extend(c);
        let c: Vec<CqVt> = for_big_tuples!(wr);
        cqs.extend(c);
        let c: Vec<CqVt> = rw_list!(cqvt);
        cqs.extend(c);
        cqs.extend(styled_list!(self::cqs));
        let mut eqs: Vec<EqVt> = for_singles!(ero);
        let c: Vec<EqVt> = for_small_tuples!(ero);
        eqs.extend(c);
        let c: Vec<EqVt> = for_big_tuples!(ero);
        eqs.extend(c);
        let c: Vec<EqVt> = some_eq!();
        eqs.extend(c);
        let c: Vec<EqVt> = rw_list!(eqvt);
        eqs.extend(c);
        eqs.extend(styled_list!(self::eqs));
        let mut oqs: Vec<OqVt> = oq_group!(0);
        let c: Vec<OqVt> = oq_group!(1);
        oqs.extend(c);
        let c: Vec<OqVt> = oq_group!(2);
        oqs.extend(c);
        oqs.extend(styled_list!(self::oqs, 0,));
        let mut fqs: Vec<FqVt> = fq_tag!(0);
        let c: Vec<FqVt> = fq_tag!(1);
        fqs.extend(c);
        let c: Vec<FqVt> = fq_tag!(2);
        fqs.extend(c);
        let c: Vec<FqVt> = fq_tag!(33);
        fqs.extend(c);
        fqs.extend(styled_list!(self::fqs, 0,));
        let tags: Vec<TagVt> = list_g!(tagvt: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125);
        let mut tags = tags;
        tags.extend([tagvt::<Tt0>(), tagvt::<Tt1>()]);
        assert_eq!(tags.len(), NTAGS);
        let groups: Vec<GroupVt> =
            list_g!(groupvt: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69);
        let mut groups = groups;
        groups.extend([groupvt::<Tt0>(), groupvt::<Tt1>()]);
        assert_eq!(groups.len(), NGROUPS);
        let inters = vec![
            inter::<B1, W4, 0>(),
            inter::<W4, W4, 1>(),
            inter::<(W4, B1), B1, 0>(),
            inter::<K<0>, K<1>, 0>(),
            inter::<K<0>, K<0>, 2>(),
            inter::<(K<0>, K<1>), K<2>, 1>(),
            inter::<G5000, D8, 0>(),
            inter::<D8, (D8, T3), 1>(),
            inter::<G2000, G2000, 0>(),
            inter::<G8000, W4, 1>(),
            inter::<Q16, B1, 0>(),
            inter::<A64, O5, 1>(),
            inter::<(Pad, Fl), Pad, 0>(),
        ];
        Vocab { inters, types, tups, single, tags, groups, cqs, fqs, eqs, oqs }
    }
}
