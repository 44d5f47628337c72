//! C13: key encodings round-trip and sort like the values they encode.
//! C28 (second half of this file): malformed bytes are refused, never a panic.
use std::borrow::Cow;
use std::fmt::Debug;
use std::num::*;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

use bonsaidb_core::key::time::limited::*;
use bonsaidb_core::key::{
    ByteSource, CompositeKeyDecoder, CompositeKeyEncoder, IntoPrefixRange, Key, KeyEncoding, NextValueError, VarInt,
};
use serde_json::json;

use crate::engine::no_panic;
use crate::report::Report;
use crate::seq::{self, Acc, Mode};

fn enc<T: for<'k> Key<'k>>(t: &T) -> Result<Vec<u8>, String> {
    no_panic(|| t.as_ord_bytes().map(Cow::into_owned).map_err(|e| format!("error {e}")))?
}

/// `class` names pairs that are already known to misbehave for this type.
fn check<T>(a: &mut Acc, name: &str, mut v: Vec<T>, class: fn(&T, &T) -> Option<&'static str>)
where
    T: for<'k> Key<'k> + Ord + Debug,
{
    a.at(name);
    v.sort();
    v.dedup();
    let mut e = Vec::with_capacity(v.len());
    for x in &v {
        match enc(x) {
            Ok(b) => e.push(b),
            Err(m) => {
                a.bad(format!("{name}: encoding {x:?}: {m}"), json!({"value": format!("{x:?}")}));
                return;
            }
        }
    }
    a.outcome(&(name, &e));
    // round trips, from all three kinds of source
    for (x, b) in v.iter().zip(&e) {
        a.count("values_round_tripped", 1);
        for src in 0..3 {
            let b2 = b.clone();
            let r = no_panic(|| {
                let s = match src {
                    0 => ByteSource::Borrowed(&b2),
                    1 => ByteSource::Ephemeral(&b2),
                    _ => ByteSource::Owned(b2.clone()),
                };
                T::from_ord_bytes(s).map_err(|e| format!("error {e}")).map(|y| (y == *x, format!("{y:?}")))
            });
            let m = match r {
                Ok(Ok((true, _))) => continue,
                Ok(Ok((false, y))) => format!("decodes to {y}"),
                Ok(Err(m)) | Err(m) => m,
            };
            let sig = match class(x, x) {
                Some(c) => format!("{name}: {c}"),
                None => format!("{name}: {x:?} encoded as {b:02x?} {m}"),
            };
            a.bad(sig, json!({"value": format!("{x:?}"), "source": src}));
        }
    }
    // order
    let n = v.len();
    let pairs: Box<dyn Iterator<Item = (usize, usize)>> = if n <= 3000 {
        Box::new((0..n).flat_map(move |i| (i + 1..n).map(move |j| (i, j))))
    } else {
        Box::new((1..n).map(|i| (i - 1, i)))
    };
    for (i, j) in pairs {
        a.count("evaluations", 1);
        if e[i] >= e[j] {
            let (x, y) = (&v[i], &v[j]);
            let sig = match class(x, y) {
                Some(c) => format!("{name}: {c}"),
                None => format!("{name}: {x:?} < {y:?} but {:02x?} >= {:02x?}", crate::report::short(&format!("{:02x?}", e[i]), 60), crate::report::short(&format!("{:02x?}", e[j]), 60)),
            };
            a.bad(sig, json!({"less": format!("{x:?}"), "greater": format!("{y:?}")}));
        }
    }
    a.sample(json!({"type": name, "values": n, "first": v.first().map(|x| format!("{x:?}")), "last": v.last().map(|x| format!("{x:?}"))}));
}
fn none<T>(_: &T, _: &T) -> Option<&'static str> {
    None
}

/// next_value: the value sorting right after, or WouldWrap at the end.
fn successor<T>(a: &mut Acc, name: &str, v: Vec<T>, max: Option<T>, next: impl Fn(&T) -> Option<T>)
where
    T: for<'k> Key<'k> + Ord + Debug,
{
    a.at(name);
    for x in v {
        a.count("evaluations", 1);
        let got = no_panic(|| x.next_value());
        let want = if max.as_ref() == Some(&x) { None } else { next(&x) };
        let ok = match (&got, &want) {
            (Ok(Ok(y)), Some(w)) => y == w,
            (Ok(Err(NextValueError::WouldWrap)), None) => true,
            _ => false,
        };
        if !ok {
            a.bad(format!("{name}: next_value of {x:?} is {got:?}, expected {want:?}"), json!({"value": format!("{x:?}")}));
        }
    }
}

fn prefixes<T>(a: &mut Acc, name: &str, v: &[T], starts: fn(&T, &T) -> bool)
where
    T: for<'a> IntoPrefixRange<'a, T> + Ord + Debug + Clone + for<'k> Key<'k>,
{
    use std::ops::RangeBounds;
    a.at(name);
    for p in v {
        let r = p.to_prefix_range();
        let mut hits = 0u32;
        for x in v {
            a.count("evaluations", 1);
            let got = r.contains(x);
            hits += u32::from(got);
            if got != starts(x, p) {
                a.bad(
                    format!("{name}: prefix range of {p:?} {} {x:?}", if got { "contains" } else { "misses" }),
                    json!({"prefix": format!("{p:?}"), "value": format!("{x:?}")}),
                );
            }
        }
        a.outcome(&(name, "prefix", hits, format!("{p:?}")));
    }
}

macro_rules! ints {
    ($($t:ident),*) => { $(
        #[allow(dead_code, unused_comparisons)]
        mod $t {
            pub fn values(all16: bool) -> Vec<$t> {
                let mut v: Vec<$t> = Vec::new();
                if $t::BITS <= 8 || ($t::BITS <= 16 && all16) {
                    let mut x = $t::MIN;
                    loop {
                        v.push(x);
                        if x == $t::MAX { break; }
                        x += 1;
                    }
                } else {
                    for b in 0..$t::BITS {
                        let p = (1 as $t).wrapping_shl(b);
                        for d in [-2i8, -1, 0, 1, 2] {
                            let q = p.wrapping_add(d as $t);
                            v.push(q);
                            v.push((0 as $t).wrapping_sub(q));
                        }
                    }
                    for x in 0..=255u8 { v.push(x as $t); v.push((u128::from(x) * 257) as $t); }
                    v.push($t::MIN); v.push($t::MAX);
                    v.sort(); v.dedup();
                }
                v
            }
            /// known finding: plain big-endian two's complement
            pub fn signed(x: &$t, y: &$t) -> Option<&'static str> {
                (*x < 0 && *y >= 0).then_some("a negative number sorts after a non-negative one")
            }
        }
    )* };
}
ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);

/// The 128-bit variable-length integers hold 124 bits; wider values are refused.
fn fits(x: i128, bits: u32, unsigned: bool) -> bool {
    bits < 128 || if unsigned { (x as u128) < 1 << 124 } else { (-(1i128 << 123)..1 << 123).contains(&x) }
}

fn words<T: Clone>(alpha: &[T], max: usize) -> Vec<Vec<T>> {
    let mut out: Vec<Vec<T>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..max {
        let mut next = vec![];
        for w in &last {
            for c in alpha {
                let mut x = w.clone();
                x.push(c.clone());
                next.push(x);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}
fn strings(alpha: &[char], max: usize) -> Vec<String> {
    words(alpha, max).into_iter().map(|w| w.into_iter().collect()).collect()
}
fn bytes(max: usize) -> Vec<Vec<u8>> {
    words(&[0u8, 1, b'a', 0xff], max)
}

/// Known finding: escaping a null byte as two null bytes lets a longer field
/// sort before its own prefix.
const NULLS: &str = "a field followed by a null byte sorts before the same field ending";
fn nul(x: &[u8], y: &[u8]) -> bool {
    // the first difference is that x ends where y goes on with a null byte
    y.len() > x.len() && y.starts_with(x) && y[x.len()] == 0
}

#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Named {
    a: u16,
    b: String,
    c: Option<u8>,
}
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Wrapped(String);
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Pair(u8, Vec<u8>);
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Nothing;
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Shape {
    Unit,
    One(u8),
    Two(String, u16),
    Fields { x: String, y: u8 },
    Last,
}
#[derive(Key, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[repr(u32)]
pub enum Color {
    A = 1,
    B = 0xff,
    C = 0x100,
    D = 0xffff_ffff,
}
#[derive(Key, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Level {
    Lowest = -300,
    Low = -1,
    Zero = 0,
    High = 1,
    Highest = 70000,
}
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[key(null_handling = deny)]
pub struct Denying {
    a: String,
    b: String,
}
#[derive(Key, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[key(null_handling = allow)]
pub struct Allowing {
    a: String,
    b: u8,
}

fn nt(k: u64) -> SystemTime {
    UNIX_EPOCH + Duration::new(k / 8, [0, 1, 999, 1000, 999_999, 1_000_000, 500_000_000, 999_999_999][(k % 8) as usize])
}

fn limited<R: TimeResolution>(a: &mut Acc, name: &str, unit: i128, reprs: Vec<R::Representation>)
where
    R: 'static,
    R::Representation: Into<i64>,
{
    check::<LimitedResolutionDuration<R>>(a, &format!("duration in {name}"), reprs.iter().map(|r| LimitedResolutionDuration::new(*r)).collect(), none);
    check::<LimitedResolutionTimestamp<R, UnixEpoch>>(a, &format!("unix timestamp in {name}"), reprs.iter().map(|r| LimitedResolutionTimestamp::from_representation(*r)).collect(), none);
    check::<LimitedResolutionTimestamp<R, BonsaiEpoch>>(a, &format!("bonsai timestamp in {name}"), reprs.iter().map(|r| LimitedResolutionTimestamp::from_representation(*r)).collect(), none);
    // the smallest representation may be refused: its magnitude has no positive counterpart
    let least = reprs.iter().min().copied();
    let edge = |r| Some(r) == least;
    for r in reprs {
        a.count("evaluations", 1);
        let d = LimitedResolutionDuration::<R>::new(r);
        // a conversion is exact or refused
        let exact = Into::<i64>::into(r) as i128 * unit;
        if let Ok(s) = SignedDuration::try_from(d) {
            let ns = match s {
                SignedDuration::Positive(x) => x.as_nanos() as i128,
                SignedDuration::Negative(x) => -(x.as_nanos() as i128),
            };
            if ns != exact {
                a.bad(format!("duration in {name}: {r} converts to {s:?}"), json!({"repr": format!("{r}")}));
            }
            match LimitedResolutionDuration::<R>::try_from(s) {
                Ok(x) if x == d => {}
                Err(_) if edge(r) => {}
                o => a.bad(format!("duration in {name}: {r} -> {s:?} -> {o:?}"), json!({"repr": format!("{r}")})),
            }
        }
        let t = LimitedResolutionTimestamp::<R, BonsaiEpoch>::from_representation(r);
        if let Ok(Ok(s)) = no_panic(|| t.to_timestamp_string()) {
            match no_panic(|| s.parse::<LimitedResolutionTimestamp<R, BonsaiEpoch>>()) {
                Ok(Ok(x)) if x == t => {}
                o => a.bad(format!("timestamp in {name}: {r} prints {s}, parses {o:?}"), json!({"repr": format!("{r}")})),
            }
        }
        if let Ok(Ok(s)) = no_panic(|| SystemTime::try_from(t)) {
            match LimitedResolutionTimestamp::<R, BonsaiEpoch>::try_from(s) {
                Ok(x) if x == t => {}
                Err(_) if edge(r) => {}
                o => a.bad(format!("timestamp in {name}: {r} -> {s:?} -> {o:?}"), json!({"repr": format!("{r}")})),
            }
        }
    }
}

fn jobs(big: bool) -> Vec<(&'static str, bool)> {
    [
        "ints-unsigned", "ints-signed", "nonzero", "varint", "strings", "bytes", "prefix", "options", "tuple2-string", "tuple2-bytes",
        "tuple2-mixed", "tuple3", "tuple-wide", "lengths", "derived", "time", "limited", "encoder",
    ]
    .into_iter()
    .map(|n| (n, big))
    .collect()
}

fn tuple_nul(x: &(Vec<u8>, Vec<u8>), y: &(Vec<u8>, Vec<u8>)) -> Option<&'static str> {
    (if x.0 == y.0 { nul(&x.1, &y.1) } else { nul(&x.0, &y.0) }).then_some(NULLS)
}

fn job(j: &(&'static str, bool), a: &mut Acc) {
    let big = j.1;
    match j.0 {
        "ints-unsigned" => {
            check(a, "u8", u8::values(true), none);
            check(a, "u16", u16::values(true), none);
            check(a, "u32", u32::values(big), none);
            check(a, "u64", u64::values(big), none);
            check(a, "u128", u128::values(big), none);
            check(a, "usize", usize::values(big), none);
            check(a, "bool", vec![false, true], none);
            check(a, "()", vec![()], none);
            check(a, "[u8; 3]", words(&[0u8, 1, 0xff], 3).into_iter().filter(|w| w.len() == 3).map(|w| [w[0], w[1], w[2]]).collect(), none);
            successor(a, "u8", u8::values(true), Some(u8::MAX), |x| x.checked_add(1));
            successor(a, "u64", u64::values(big), Some(u64::MAX), |x| x.checked_add(1));
            successor(a, "u128", u128::values(big), Some(u128::MAX), |x| x.checked_add(1));
            successor(a, "usize", usize::values(big), Some(usize::MAX), |x| x.checked_add(1));
        }
        "ints-signed" => {
            check(a, "i8", i8::values(true), i8::signed);
            check(a, "i16", i16::values(true), i16::signed);
            check(a, "i32", i32::values(big), i32::signed);
            check(a, "i64", i64::values(big), i64::signed);
            check(a, "i128", i128::values(big), i128::signed);
            check(a, "isize", isize::values(big), none);
            successor(a, "i8", i8::values(true), Some(i8::MAX), |x| x.checked_add(1));
            successor(a, "i64", i64::values(big), Some(i64::MAX), |x| x.checked_add(1));
            successor(a, "isize", isize::values(big), Some(isize::MAX), |x| x.checked_add(1));
        }
        "nonzero" => {
            macro_rules! nz {
                ($($n:ident $t:ident $c:expr;)*) => { $(
                    let v: Vec<$n> = $t::values(true).into_iter().filter_map($n::new).collect();
                    let class: fn(&$n, &$n) -> Option<&'static str> = $c;
                    check(a, stringify!($n), v.clone(), class);
                    successor(a, stringify!($n), v, $n::new($t::MAX), |x| {
                        let n = x.get().checked_add(1)?;
                        $n::new(if n == 0 { 1 } else { n })
                    });
                )* };
            }
            nz! {
                NonZeroU8 u8 none; NonZeroU16 u16 none; NonZeroU32 u32 none; NonZeroU64 u64 none; NonZeroU128 u128 none; NonZeroUsize usize none;
                NonZeroI8 i8 |x, y| i8::signed(&x.get(), &y.get()); NonZeroI16 i16 |x, y| i16::signed(&x.get(), &y.get());
                NonZeroI32 i32 |x, y| i32::signed(&x.get(), &y.get()); NonZeroI64 i64 |x, y| i64::signed(&x.get(), &y.get());
                NonZeroI128 i128 |x, y| i128::signed(&x.get(), &y.get()); NonZeroIsize isize none;
            }
        }
        "varint" => {
            macro_rules! vi {
                ($($t:ident)*) => { $(
                    check(a, concat!("VarInt<", stringify!($t), ">"), $t::values(big).into_iter().filter(|x| fits(*x as i128, $t::BITS, $t::MIN == 0)).map(VarInt).collect::<Vec<_>>(), none);
                )* };
            }
            vi!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
        }
        "strings" => {
            let n = if big { 4 } else { 3 };
            let v = strings(&['\0', '\u{1}', 'a', 'b', '\u{7f}', 'é', '\u{d7ff}', '\u{e000}', '\u{10ffff}'], n);
            check(a, "String", v.clone(), none);
            check(a, "Cow<str>", v.into_iter().map(Wrapped).collect(), none);
        }
        "bytes" => {
            let n = if big { 6 } else { 5 };
            check(a, "Vec<u8>", bytes(n), none);
            check(a, "Bytes", bytes(n).into_iter().map(bonsaidb_core::arc_bytes::serde::Bytes::from).collect(), none);
        }
        "prefix" => {
            let n = if big { 4 } else { 3 };
            let v = strings(&['\0', 'a', 'b', '\u{7f}', '\u{80}', '\u{d7ff}', '\u{e000}', '\u{10fffe}', '\u{10ffff}'], n);
            prefixes(a, "String", &v, |x, p| x.starts_with(p.as_str()));
            prefixes(a, "Vec<u8>", &words(&[0u8, 1, 0xfe, 0xff], n + 1), |x, p| x.starts_with(p));
            prefixes(a, "Bytes", &words(&[0u8, 0xfe, 0xff], n + 1).into_iter().map(bonsaidb_core::arc_bytes::serde::Bytes::from).collect::<Vec<_>>(), |x, p| x.starts_with(p));
        }
        "options" => {
            let o8: Vec<Option<u8>> = std::iter::once(None).chain((0..=255).map(Some)).collect();
            check(a, "Option<u8>", o8, none);
            check(a, "Option<String>", std::iter::once(None).chain(strings(&['\0', 'a', 'b'], 4).into_iter().map(Some)).collect(), none);
            check(a, "Option<()>", vec![None, Some(())], none);
            check(a, "Option<Option<u8>>", [None, Some(None)].into_iter().chain((0..=255u8).map(|x| Some(Some(x)))).collect::<Vec<_>>(), none);
            check(a, "(Option<Option<u8>>, u8)", [None, Some(None), Some(Some(0u8)), Some(Some(255))].iter().flat_map(|x| [0u8, 5, 255].map(|y| (*x, y))).collect(), none);
            check(a, "Result<u8, u16>", (0..=255u8).map(Ok).chain([0, 1, 255, 256, 65535].map(Err)).collect::<Vec<Result<u8, u16>>>(), none);
            check(a, "Result<String, String>", strings(&['\0', 'a', 'b'], 3).into_iter().flat_map(|s| [Ok(s.clone()), Err(s)]).collect::<Vec<Result<String, String>>>(), none);
            successor(a, "Option<u8>", (0..=255u8).map(Some).collect(), Some(Some(255)), |x| Some(Some(x.unwrap() + 1)));
            // options and results as fields
            let small = [None, Some(0u8), Some(1), Some(255)];
            check(a, "(Option<u8>, u8)", small.iter().flat_map(|x| [0u8, 5, 255].map(|y| (*x, y))).collect(), none);
            check(a, "(u8, Option<u8>)", small.iter().flat_map(|x| [0u8, 5, 255].map(|y| (y, *x))).collect(), none);
            check(a, "(Option<u16>, String)", [None, Some(0u16), Some(1), Some(0xff00)].iter().flat_map(|x| ["", "a", "b"].map(|y| (*x, y.to_string()))).collect(), none);
            check(a, "(Option<String>, u8)", [None, Some(""), Some("a"), Some("aa"), Some("b")].iter().flat_map(|x| [0u8, 1, 255].map(|y| (x.map(str::to_string), y))).collect(), none);
            check(a, "(Option<(u8, u16)>, u8)", [None, Some((0u8, 0u16)), Some((1, 256)), Some((255, 65535))].iter().flat_map(|x| [0u8, 1, 255].map(|y| (*x, y))).collect(), none);
            check(a, "(Result<u8, u16>, u8)", [Ok(0u8), Ok(1), Ok(255), Err(0u16), Err(1), Err(65535)].into_iter().flat_map(|x: Result<u8, u16>| [0u8, 1, 255].map(|y| (x, y))).collect(), none);
        }
        "tuple2-string" => {
            let s = strings(&['\u{1}', 'a', 'b', 'é'], 2);
            check(a, "(String, String)", s.iter().flat_map(|x| s.iter().map(move |y| (x.clone(), y.clone()))).collect(), none);
            let s = strings(&['\0', 'a', 'b'], 3);
            check(a, "(String, u8)", s.iter().flat_map(|x| [0u8, 1, b'a', 255].map(|y| (x.clone(), y))).collect(), |x, y| nul(x.0.as_bytes(), y.0.as_bytes()).then_some(NULLS));
            check(a, "(u8, String)", s.iter().flat_map(|x| [0u8, 1, b'a', 255].map(|y| (y, x.clone()))).collect(), |x, y| (x.0 == y.0 && nul(x.1.as_bytes(), y.1.as_bytes())).then_some(NULLS));
            check(a, "(String,)", s.iter().map(|x| (x.clone(),)).collect(), |x, y| nul(x.0.as_bytes(), y.0.as_bytes()).then_some(NULLS));
        }
        "tuple2-bytes" => {
            let s = bytes(if big { 3 } else { 2 });
            let w: Vec<_> = s.iter().flat_map(|x| s.iter().map(move |y| (x.clone(), y.clone()))).collect();
            check(a, "(Vec<u8>, Vec<u8>)", w, tuple_nul);
        }
        "tuple2-mixed" => {
            let u: Vec<VarInt<u64>> = [0u64, 1, 15, 16, 255, 256, 4095, 4096, 65535, 65536, 1 << 28, u64::MAX].map(VarInt).to_vec();
            let i: Vec<VarInt<i64>> = [i64::MIN, -65536, -257, -256, -17, -16, -1, 0, 1, 15, 16, 255, 256, 65536, i64::MAX].map(VarInt).to_vec();
            check(a, "(VarInt<u64>, VarInt<i64>)", u.iter().flat_map(|x| i.iter().map(move |y| (*x, *y))).collect(), none);
            check(a, "(VarInt<i64>, String)", i.iter().flat_map(|x| ["", "a", "b"].map(|y| (*x, y.to_string()))).collect(), none);
            check(a, "(isize, u8)", i.iter().flat_map(|x| [0u8, 255].map(|y| (x.0 as isize, y))).collect(), none);
            check(a, "(bool, u16)", [false, true].iter().flat_map(|x| [0u16, 255, 256, 65535].map(|y| (*x, y))).collect(), none);
            check(a, "((u8, String), u8)", [0u8, 1].iter().flat_map(|x| ["", "a", "ab", "b"].iter().flat_map(move |s| [0u8, 1].map(|y| ((*x, (*s).to_string()), y)))).collect(), none);
            check(a, "((), u8)", [0u8, 1, 255].map(|x| ((), x)).to_vec(), none);
        }
        "tuple3" => {
            let s = strings(&['a', 'b'], if big { 3 } else { 2 });
            let mut v = vec![];
            for x in &s {
                for y in &s {
                    for z in &s {
                        v.push((x.clone(), y.clone(), z.clone()));
                    }
                }
            }
            check(a, "(String, String, String)", v, none);
            let mut v = vec![];
            for x in &s {
                for y in [0u16, 1, 0xff, 0x100, 0xffff] {
                    for z in words(&[1u8, 0xff], 2) {
                        v.push((x.clone(), y, z));
                    }
                }
            }
            check(a, "(String, u16, Vec<u8>)", v, none);
        }
        "tuple-wide" => {
            let s = ["".to_string(), "a".into(), "ab".into()];
            let mut v4 = vec![];
            let mut v5 = vec![];
            for a0 in [0u8, 1] {
                for b in &s {
                    for c in [0u16, 256] {
                        for d in &s {
                            v4.push((a0, b.clone(), c, d.clone()));
                            for e in [false, true] {
                                v5.push((a0, b.clone(), c, d.clone(), e));
                            }
                        }
                    }
                }
            }
            check(a, "4-tuple", v4, none);
            check(a, "5-tuple", v5.clone(), none);
            let mut v6 = vec![];
            let mut v7 = vec![];
            let mut v8 = vec![];
            for (p, q, r, s, t) in v5.iter().step_by(3) {
                for f in ["", "z"] {
                    v6.push((*p, q.clone(), *r, s.clone(), *t, f.to_string()));
                    for g in [0u8, 9] {
                        v7.push((*p, q.clone(), *r, s.clone(), *t, f.to_string(), g));
                        v8.push((*p, q.clone(), *r, s.clone(), *t, f.to_string(), g, vec![g]));
                    }
                }
            }
            check6(a, v6);
            check(a, "7-tuple", v7, none);
            check(a, "8-tuple", v8, none);
        }
        "lengths" => {
            // field lengths around every step of the length encoding
            let lens = [0usize, 1, 126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385, 32767, 32768, 65534, 65535];
            let lens = if big { &lens[..] } else { &lens[..14] };
            let mut v = vec![];
            for x in lens {
                for y in lens {
                    v.push((vec![1u8; *x], vec![2u8; *y]));
                }
            }
            check(a, "lengths (Vec<u8>, Vec<u8>)", v, none);
            check(a, "lengths (Vec<u8>, u8)", lens.iter().map(|x| (vec![7u8; *x], 3u8)).collect(), none);
            for n in [65536usize, 70000, 131_072] {
                a.count("evaluations", 1);
                match no_panic(|| (vec![1u8; n], 1u8).as_ord_bytes().map(|b| b.len()).map_err(|e| e.to_string())) {
                    Ok(Err(_)) => {}
                    o => a.bad(format!("a field of {n} bytes encodes to {o:?} instead of being refused"), json!({"len": n})),
                }
            }
        }
        "derived" => {
            let mut v = vec![];
            for x in [0u16, 1, 255, 256, 65535] {
                for s in strings(&['a', 'b'], 2) {
                    for c in [None, Some(0), Some(255)] {
                        v.push(Named { a: x, b: s.clone(), c });
                    }
                }
            }
            check(a, "struct with named fields", v, none);
            check(a, "newtype", strings(&['\0', 'a', 'b'], 3).into_iter().map(Wrapped).collect(), none);
            check(a, "tuple struct", [0u8, 1, 255].iter().flat_map(|x| words(&[1u8, 255], 2).into_iter().map(|y| Pair(*x, y))).collect(), none);
            check(a, "unit struct", vec![Nothing], none);
            let mut v = vec![Shape::Unit, Shape::Last];
            v.extend([0u8, 1, 255].map(Shape::One));
            for s in strings(&['a', 'b'], 2) {
                for n in [0u16, 255, 256] {
                    v.push(Shape::Two(s.clone(), n));
                }
                for y in [0u8, 255] {
                    v.push(Shape::Fields { x: s.clone(), y });
                }
            }
            check(a, "enum with fields", v, none);
            check(a, "enum repr(u32)", vec![Color::A, Color::B, Color::C, Color::D], none);
            check(a, "enum with negative discriminants", vec![Level::Lowest, Level::Low, Level::Zero, Level::High, Level::Highest], none);
            let s = strings(&['\u{1}', 'a', 'b'], 2);
            check(a, "null_handling = deny", s.iter().flat_map(|x| s.iter().map(move |y| Denying { a: x.clone(), b: y.clone() })).collect(), none);
            check(a, "null_handling = allow", s.iter().flat_map(|x| [0u8, 1, 255].map(|b| Allowing { a: x.clone(), b })).collect(), none);
            for s in ["\0", "a\0", "\0a"] {
                a.count("evaluations", 1);
                if (Denying { a: s.into(), b: String::new() }).as_ord_bytes().is_ok() {
                    a.bad(format!("null_handling = deny accepts {s:?}"), json!({"value": s}));
                }
                let x = Allowing { a: s.into(), b: 3 };
                let b = x.as_ord_bytes().unwrap().into_owned();
                if Allowing::from_ord_bytes(ByteSource::Borrowed(&b)).ok().as_ref() != Some(&x) {
                    a.bad(format!("null_handling = allow does not round-trip {s:?}"), json!({"value": s}));
                }
            }
        }
        "time" => {
            let mut d = vec![Duration::ZERO, Duration::MAX];
            for s in [0u64, 1, 59, 60, 255, 256, 65535, 65536, 1 << 32, u64::MAX - 1, u64::MAX] {
                for n in [0u32, 1, 999, 1000, 999_999, 1_000_000, 999_999_999] {
                    d.push(Duration::new(s, n));
                }
            }
            check(a, "Duration", d, none);
            check(a, "SystemTime", (0..4000).map(|k| nt(k * k * 131)).collect(), none);
            // a moment before 1970 is refused, not a panic
            for back in [Duration::from_nanos(1), Duration::from_secs(1), Duration::from_secs(1 << 32)] {
                a.count("evaluations", 1);
                if let Err(m) = no_panic(|| (UNIX_EPOCH - back).as_ord_bytes().map(Cow::into_owned).is_ok()) {
                    a.bad(format!("encoding a SystemTime {back:?} before 1970: {m}"), json!({"before": format!("{back:?}")}));
                }
            }
        }
        "limited" => {
            let w32 = i32::values(false);
            let w64 = i64::values(false);
            limited::<Weeks>(a, "weeks", 604800000000000, w32.clone());
            limited::<Days>(a, "days", 86400000000000, w32.clone());
            limited::<Hours>(a, "hours", 3600000000000, w32.clone());
            limited::<Minutes>(a, "minutes", 60000000000, w32);
            limited::<Seconds>(a, "seconds", 1000000000, w64.clone());
            limited::<Milliseconds>(a, "milliseconds", 1000000, w64.clone());
            limited::<Microseconds>(a, "microseconds", 1000, w64.clone());
            limited::<Nanoseconds>(a, "nanoseconds", 1, w64);
        }
        "encoder" => {
            // fields decode one by one, wrong finish is noticed
            for s in bytes(3) {
                for n in [0u32, 1, 256, u32::MAX] {
                    a.count("evaluations", 1);
                    let mut e = CompositeKeyEncoder::default();
                    e.encode(&s).unwrap();
                    e.encode(&n).unwrap();
                    e.encode("tail").unwrap();
                    let b = e.finish();
                    let mut d = CompositeKeyDecoder::default_for(ByteSource::Borrowed(&b));
                    let got = (d.decode::<Vec<u8>>().ok(), d.decode::<u32>().ok());
                    let early = d.finish().is_ok();
                    let mut d = CompositeKeyDecoder::default_for(ByteSource::Borrowed(&b));
                    let all = (d.decode::<Vec<u8>>().ok(), d.decode::<u32>().ok(), d.decode::<String>().ok());
                    let fin = d.finish().is_ok();
                    if got != (Some(s.clone()), Some(n)) || early || all != (Some(s.clone()), Some(n), Some("tail".into())) || !fin {
                        a.bad(format!("composite of {s:?}, {n}, \"tail\" decodes to {all:?} (finish {fin}, early finish {early})"), json!({}));
                    }
                }
            }
        }
        _ => unreachable!(),
    }
}
fn check6(a: &mut Acc, v: Vec<(u8, String, u16, String, bool, String)>) {
    check(a, "6-tuple", v, none);
}

pub fn run() -> i32 {
    let mut r = Report::new("C13", "exploration");
    r.set("rule", "every listed key type over every value of a bounded domain: all pairs are compared (all neighbours above 3000 values); non-trivial = distinct encoded value sets / prefix ranges");
    let js = jobs(r.thorough());
    seq::run(&mut r, Mode::Free, js, job);
    r.set("exhaustive", true);
    r.assume("8 and 16-bit integers completely, wider ones around every power of two; strings and byte strings over alphabets with the edge characters up to the stated lengths");
    r.finish()
}

// ------------------------------------------------------------------- C28
/// Decoding any bytes gives a value or an error.
fn total<T>(a: &mut Acc, name: &str, inputs: &[Vec<u8>])
where
    T: for<'k> Key<'k> + Debug,
{
    a.at(name);
    for b in inputs {
        for src in 0..2 {
            a.count("evaluations", 1);
            let r = no_panic(|| {
                let s = if src == 0 { ByteSource::Borrowed(b) } else { ByteSource::Owned(b.clone()) };
                T::from_ord_bytes(s).map(|v| format!("{v:?}")).ok()
            });
            match r {
                Ok(Some(v)) => {
                    a.count("accepted", 1);
                    a.outcome(&(name, v));
                }
                Ok(None) => a.count("refused", 1),
                Err(m) => {
                    a.bad(format!("{name}: decoding panics: {m}"), json!({"type": name, "bytes": format!("{b:02x?}")}));
                }
            }
        }
    }
}

fn job28(j: &(&'static str, bool), a: &mut Acc) {
    let n = if j.1 { 6 } else { 5 };
    let w = words(&[0u8, 1, 2, 3, b'a', 0x7f, 0x80, 0xff], n);
    match j.0 {
        "scalars" => {
            total::<u8>(a, "u8", &w);
            total::<u32>(a, "u32", &w);
            total::<i64>(a, "i64", &w);
            total::<NonZeroU16>(a, "NonZeroU16", &w);
            total::<bool>(a, "bool", &w);
            total::<()>(a, "()", &w);
            total::<[u8; 3]>(a, "[u8; 3]", &w);
            total::<String>(a, "String", &w);
            total::<Vec<u8>>(a, "Vec<u8>", &w);
        }
        "varints" => {
            total::<VarInt<u8>>(a, "VarInt<u8>", &w);
            total::<VarInt<u64>>(a, "VarInt<u64>", &w);
            total::<VarInt<i64>>(a, "VarInt<i64>", &w);
            total::<VarInt<u128>>(a, "VarInt<u128>", &w);
            total::<isize>(a, "isize", &w);
            total::<NonZeroUsize>(a, "NonZeroUsize", &w);
            // longer ones: every first byte with runs of equal bytes
            let mut long = vec![];
            for f in 0..=255u8 {
                for l in 0..=18usize {
                    for fill in [0u8, 1, 0x7f, 0x80, 0xff] {
                        let mut b = vec![f];
                        b.extend(std::iter::repeat(fill).take(l));
                        long.push(b);
                    }
                }
            }
            total::<VarInt<u64>>(a, "VarInt<u64>", &long);
            total::<VarInt<i64>>(a, "VarInt<i64>", &long);
            total::<VarInt<u128>>(a, "VarInt<u128>", &long);
            total::<VarInt<i128>>(a, "VarInt<i128>", &long);
            total::<Duration>(a, "Duration", &long);
            total::<SystemTime>(a, "SystemTime", &long);
            total::<LimitedResolutionTimestamp<Nanoseconds, BonsaiEpoch>>(a, "timestamp", &long);
        }
        "options" => {
            total::<Option<u8>>(a, "Option<u8>", &w);
            total::<Option<String>>(a, "Option<String>", &w);
            total::<Result<u8, u16>>(a, "Result<u8, u16>", &w);
            total::<Result<String, String>>(a, "Result<String, String>", &w);
        }
        "tuples" => {
            total::<(u8, u16)>(a, "(u8, u16)", &w);
            total::<(String, u8)>(a, "(String, u8)", &w);
            total::<(String, String)>(a, "(String, String)", &w);
            total::<(Vec<u8>, Vec<u8>, u8)>(a, "(Vec<u8>, Vec<u8>, u8)", &w);
            total::<(Option<u8>, String)>(a, "(Option<u8>, String)", &w);
            total::<(VarInt<u64>, String)>(a, "(VarInt<u64>, String)", &w);
            total::<((String, u8), String)>(a, "((String, u8), String)", &w);
        }
        "lengths" => {
            // the variable length at the tail, over all its bytes
            let mut v = vec![];
            for x in 0..=255u8 {
                for y in 0..=255u8 {
                    v.push(vec![b'a', 0, x, y]);
                    v.push(vec![b'a', 0, 1, 0, x, y]);
                }
            }
            for l in 1..=24usize {
                for f in [0x80u8, 0xff] {
                    let mut b = vec![1u8];
                    b.extend(std::iter::repeat(f).take(l));
                    v.push(b.clone());
                    b[0] = 0x7f;
                    v.push(b);
                }
            }
            total::<(String, u8)>(a, "(String, u8)", &v);
            total::<(String, String)>(a, "(String, String)", &v);
            total::<(Vec<u8>, Vec<u8>)>(a, "(Vec<u8>, Vec<u8>)", &v);
        }
        "derived" => {
            total::<Named>(a, "struct with named fields", &w);
            total::<Pair>(a, "tuple struct", &w);
            total::<Nothing>(a, "unit struct", &w);
            total::<Shape>(a, "enum with fields", &w);
            total::<Color>(a, "enum repr(u32)", &w);
            total::<Level>(a, "enum with negative discriminants", &w);
            total::<Denying>(a, "null_handling = deny", &w);
            total::<Allowing>(a, "null_handling = allow", &w);
        }
        "names" => {
            use bonsaidb_core::document::DocumentId;
            use bonsaidb_core::schema::{CollectionName, Qualified, QualifiedName, SchemaName, ViewName};
            use std::str::FromStr;
            let alpha = ['a', '.', '-', '%', '_', '0', 'é', '\0', '\\', '2'];
            for s in strings(&alpha, if j.1 { 5 } else { 4 }) {
                a.at("names");
                a.count("evaluations", 1);
                let r = no_panic(|| {
                    let q = QualifiedName::parse_encoded(&s).ok();
                    // what parses prints the same again
                    if let Some(q) = &q {
                        let e = q.encoded();
                        if QualifiedName::parse_encoded(&e).ok().as_ref() != Some(q) {
                            return Err(format!("name {s:?} parses to {q:?}, printed {e:?}, which does not parse back"));
                        }
                    }
                    let c = CollectionName::parse_encoded(&s).ok().map(|c| c.encoded());
                    let n = SchemaName::parse_encoded(&s).ok().map(|c| c.encoded());
                    let v = ViewName::from_str(&s).ok().map(|v| v.to_string());
                    let id = DocumentId::from_str(&s).ok().map(|v| v.to_string());
                    Ok((c, n, v, id))
                });
                match r {
                    Ok(Ok(o)) => a.outcome(&format!("{o:?}")),
                    Ok(Err(m)) | Err(m) => a.bad(format!("name {s:?}: {m}"), json!({"name": s})),
                }
                // any authority and name can be written and read back
                let r = no_panic(|| {
                    for q in [QualifiedName::private(s.clone()), QualifiedName::new("x", s.clone()), QualifiedName::new(s.clone(), "x")] {
                        let e = q.encoded();
                        match QualifiedName::parse_encoded(&e) {
                            Ok(p) if p == q => {}
                            o => return Err(format!("printed {e:?}, parsed {o:?}")),
                        }
                    }
                    Ok(())
                });
                if let Ok(Err(m)) | Err(m) = r {
                    a.bad(format!("name {s:?}: {m}"), json!({"name": s}));
                }
            }
            // document ids: text form round-trips
            for b in words(&[0u8, 1, b'a', b'$', b'~', b'%', 0xff], 4) {
                a.count("evaluations", 1);
                let id = DocumentId::try_from(&b[..]).unwrap();
                let s = id.to_string();
                match no_panic(|| DocumentId::from_str(&s)) {
                    Ok(Ok(x)) if x == id => {}
                    o => a.bad(format!("document id {b:02x?} prints {s:?}, parses {o:?}"), json!({"bytes": b})),
                }
            }
            for n in 0..=80usize {
                a.count("evaluations", 1);
                match no_panic(|| DocumentId::try_from(&vec![7u8; n][..]).is_ok()) {
                    Ok(ok) if ok == (n <= DocumentId::MAX_LENGTH) => {}
                    o => a.bad(format!("a document id of {n} bytes: {o:?}"), json!({"len": n})),
                }
            }
        }
        _ => unreachable!(),
    }
}

pub fn run28() -> i32 {
    let mut r = Report::new("C28", "exploration");
    r.set("rule", "every byte string over an 8-letter alphabet up to a length, and every tail-length pattern, decoded as every listed key type; every short name; non-trivial = distinct accepted values");
    let big = r.thorough();
    let js = ["scalars", "varints", "options", "tuples", "lengths", "derived", "names"].into_iter().map(|n| (n, big)).collect();
    seq::run(&mut r, Mode::Free, js, job28);
    r.set("exhaustive", true);
    r.assume("overflow checks are those of a debug build");
    r.finish()
}
