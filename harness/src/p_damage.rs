//! C28: saved data that is cut short or damaged is refused or read as another object of consistent size, never trusted.

use crate::author::*;
use crate::ensure;
use crate::fw::*;
use crate::mem;
use crate::p_assets::{gen_asset_anim, rkyv_bytes};
use crate::p_sampling::Walk;
use crate::rng::Rng;
use crate::util::*;
use glam::{Quat, Vec3};
use ozz_animation_rs::*;
use rkyv::Deserialize as _;
use serde::de::DeserializeOwned;
use serde_json::json;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Format {
    Json,
    JsonValue,
    Bincode,
    Cbor,
    Rkyv,
}
use Format::*;

fn encode<T: serde::Serialize>(x: &T, f: Format) -> Vec<u8> {
    match f {
        Json | JsonValue => serde_json::to_vec(x).expect("JSON"),
        Bincode => bincode::serialize(x).expect("bincode"),
        Cbor => {
            let mut v = vec![];
            ciborium::into_writer(x, &mut v).expect("CBOR");
            v
        }
        Rkyv => unreachable!(),
    }
}

fn decode<T: DeserializeOwned>(b: &[u8], f: Format) -> Option<T> {
    match f {
        Json => serde_json::from_slice(b).ok(),
        JsonValue => serde_json::from_slice::<serde_json::Value>(b).ok().and_then(|v| serde_json::from_value(v).ok()),
        Bincode => bincode::deserialize(b).ok(),
        Cbor => ciborium::from_reader(b).ok(),
        Rkyv => unreachable!(),
    }
}

/// A sampling context in the middle of some playback.
fn played(r: &mut Rng, least: usize) -> Result<SamplingContext, Fail> {
    let tracks = match r.below(40) {
        0 => 0,
        1..=6 => r.range(30, 80),
        _ => r.range(1, 14),
    };
    if tracks == 0 {
        return Ok(SamplingContext::new(least));
    }
    let (a, b) = gen_fit(r, &AnimOpts { tracks, max_keys: 5, wild: false, flips: false });
    let anim = make_anim(&a)?;
    let room = (tracks + *r.pick(&[0usize, 0, 3, 9, 33])).max(least);
    let mut ctx = SamplingContext::new(room);
    let mut w = Walk::new();
    for _ in 0..r.below(6) {
        let ratio = w.next(r, &b.timepoints);
        sample_with(&mut ctx, &anim, ratio)?;
    }
    Ok(ctx)
}

/// Edits the bytes at a few places.
fn damage(r: &mut Rng, b: &mut Vec<u8>, f: Format) {
    for _ in 0..*r.pick(&[1usize, 1, 1, 2, 3, 8]) {
        if b.is_empty() {
            return;
        }
        let n = b.len();
        // In an rkyv archive what refers to the rest lies at the end.
        let at = if f == Rkyv && r.chance(0.8) { n - 1 - r.below(n.min(128)) } else { r.below(n) };
        match r.below(10) {
            0 => b[at] ^= 1 << r.below(8),
            1 => b[at] = r.u32() as u8,
            2 => b[at] = *r.pick(b"0123456789-+.eE[]{},:\"nN\\"),
            3 | 4 => {
                // A count, an offset or a number.
                let word = if f == Rkyv { at & !3 } else { at };
                let size = *r.pick(&[2usize, 4, 8]);
                let v: i64 = match r.below(6) {
                    0 => -1,
                    1 => r.range(0, 40) as i64,
                    2 => -(r.range(0, 4 * n) as i64),
                    3 => 1 << r.range(8, 62),
                    4 => i64::MAX,
                    _ => r.u64() as i64,
                };
                for (i, x) in v.to_le_bytes().iter().take(size).enumerate() {
                    if word + i < n {
                        b[word + i] = *x;
                    }
                }
            }
            5 if f == Rkyv => {
                // A little off what was there.
                let word = at & !3;
                if word + 4 <= n {
                    let mut w = [0u8; 4];
                    w.copy_from_slice(&b[word..word + 4]);
                    let d = *r.pick(&[-64i32, -16, -8, -4, -1, 1, 4, 8, 16, 64]);
                    b[word..word + 4].copy_from_slice(&i32::from_le_bytes(w).wrapping_add(d).to_le_bytes());
                }
            }
            5 => {
                // Another digit makes another number.
                if let Some(i) = (at..n).find(|i| b[*i].is_ascii_digit()) {
                    b[i] = b'0' + r.below(10) as u8;
                }
            }
            6 => {
                let k = r.range(1, 9).min(n - at);
                b.drain(at..at + k);
            }
            7 => {
                let k = *r.pick(&[1usize, 4, 8, 16]);
                let x: Vec<u8> = (0..k).map(|_| r.u32() as u8).collect();
                b.splice(at..at, x);
            }
            8 => {
                // An element less, or one twice.
                let from = (at..n).find(|i| b[*i] == b',');
                let to = from.and_then(|a| (a + 1..n).find(|i| b[*i] == b','));
                if let (Some(a), Some(z)) = (from, to) {
                    if r.chance(0.5) {
                        b.drain(a..z);
                    } else {
                        let x = b[a..z].to_vec();
                        b.splice(a..a, x);
                    }
                } else {
                    b[at] = 0;
                }
            }
            _ => {
                let k = r.range(1, 16).min(n - at);
                let from = r.below(n - k + 1);
                let x = b[from..from + k].to_vec();
                b[at..at + k].copy_from_slice(&x);
            }
        }
    }
}

/// Reads what may be damaged: no panic, nothing out of proportion, no misuse of memory.
fn read<T>(what: &str, f: Format, b: &[u8], go: impl FnOnce() -> Option<T>) -> Result<Option<T>, Fail> {
    mem::take_largest();
    let d = |extra: serde_json::Value| json!({"format": format!("{:?}", f), "bytes": b.len(), "document": if b.len() < 3000 { format!("{:?}", String::from_utf8_lossy(b)) } else { String::new() }, "detail": extra});
    let r = match guarded(go) {
        Outcome::Done(r) => r,
        Outcome::Panicked(m, l) => return fail(format!("reading {} panics", what), d(json!({"panic": m, "at": l}))),
    };
    let most = mem::take_largest();
    if mem::WATCHING && most > (4 << 20) + 200 * b.len() {
        return fail(format!("reading {} allocates out of proportion to it", what), d(json!({"block": most})));
    }
    if let Some(e) = mem::take_error() {
        return fail(format!("memory misuse in reading {}: {}", what, e), d(json!({})));
    }
    Ok(r)
}

fn consistent(x: &SamplingContext) -> R {
    let soa = x.max_soa_tracks();
    let (all, out) = (soa * 4, soa.div_ceil(8));
    ensure!(x.max_tracks() == all && x.max_outdated() == out && x.size() == SamplingContext::new(all).size(), "a context read from damaged data has inconsistent sizes", {});
    ensure!(x.translations().len() == soa && x.rotations().len() == soa && x.scales().len() == soa, "a context read from damaged data has inconsistent sizes", {});
    ensure!(x.translation_entries().len() == all && x.rotation_outdated().len() == out, "a context read from damaged data has inconsistent sizes", {});
    ensure!(rkyv_bytes(x) == rkyv_bytes(&x.clone()), "a context read from damaged data and its copy differ", {});
    Ok(())
}

/// Reads a context through rkyv's validation.
fn checked(b: &[u8]) -> Result<Option<SamplingContext>, Fail> {
    let mut al = rkyv::AlignedVec::new();
    al.extend_from_slice(b);
    let a = match rkyv::check_archived_root::<SamplingContext>(&al) {
        Ok(a) => a,
        Err(_) => return Ok(None),
    };
    let (lo, hi) = (al.as_ptr() as usize, al.as_ptr() as usize + al.len());
    let within = |p: usize, n: usize, size: usize| n == 0 || p >= lo && n.checked_mul(size).and_then(|k| p.checked_add(k)).is_some_and(|e| e <= hi);
    macro_rules! slot {
        ($($x:ident),*) => {
            $({
                let (p, n, size) = span(&a.$x);
                ensure!(within(p, n, size), "validation accepts an archive of a sampling context that refers to memory outside it", {"part": stringify!($x), "length": n, "archive": b.len()});
            })*
        };
    }
    slot!(translations, rotations, scales, translation_entries, rotation_entries, scale_entries, translation_outdated, rotation_outdated, scale_outdated);
    Ok(Some(a.deserialize(&mut rkyv::Infallible).unwrap()))
}

fn span<T>(v: &rkyv::vec::ArchivedVec<T>) -> (usize, usize, usize) {
    (v.as_ptr() as usize, v.len(), std::mem::size_of::<T>())
}

fn contexts(c: &mut Case) -> R {
    let ctx = played(&mut c.rng, 0)?;
    let f = *c.rng.pick(&[Json, JsonValue, Bincode, Cbor, Rkyv, Rkyv]);
    let n = if cfg!(miri) { 3 } else { 40 };
    one_context(c, ctx, f, n, n + n / 2)
}

/// Contexts with much more room than a skeleton needs.
fn huge(c: &mut Case) -> R {
    let room = (90.0 * (1600.0f64).powf(c.rng.f64())) as usize;
    let ctx = played(&mut c.rng, room)?;
    let f = *c.rng.pick(if room > 12000 { &[Bincode, Rkyv, Rkyv][..] } else { &[Json, Bincode, Cbor, Rkyv, Rkyv][..] });
    c.ev(&format!("contexts of more than {} tracks", if room > 65535 { 65535 } else if room > 1024 { 1024 } else { 90 }), 1);
    one_context(c, ctx, f, 3, 6)
}

fn one_context(c: &mut Case, ctx: SamplingContext, f: Format, cuts: usize, damages: usize) -> R {
    let bytes = if f == Rkyv { rkyv_bytes(&ctx) } else { encode(&ctx, f) };
    c.sig(&bytes);
    c.sample = json!({"format": format!("{:?}", f), "bytes": bytes.len(), "tracks": ctx.max_tracks()});
    let back = |b: &[u8], what: &str| -> Result<Option<SamplingContext>, Fail> {
        let mut own = Ok(());
        let r = read(what, f, b, || match f {
            Rkyv => match checked(b) {
                Ok(x) => x,
                Err(e) => {
                    own = Err(e);
                    None
                }
            },
            _ => decode(b, f),
        })?;
        own?;
        Ok(r)
    };
    match back(&bytes, "a saved sampling context")? {
        Some(x) => ensure!(rkyv_bytes(&x) == rkyv_bytes(&ctx), "a saved sampling context is read back as another", {"format": format!("{:?}", f)}),
        None => return fail("a saved sampling context is refused", json!({"format": format!("{:?}", f), "tracks": ctx.max_tracks()})),
    }
    for k in 0..cuts {
        // The last bytes hold the least: every cut near the end, and any other.
        let cut = if k < cuts / 4 { bytes.len() - 1 - (k % bytes.len()) } else { c.rng.below(bytes.len()) };
        let b = &bytes[..cut];
        match back(b, "a sampling context cut short")? {
            None => c.ev("contexts cut short: refused", 1),
            Some(x) => {
                ensure!(f == Rkyv, "a sampling context cut short is read as if whole", {"format": format!("{:?}", f), "cut": cut, "of": bytes.len()});
                consistent(&x)?;
                c.ev("contexts cut short: another, of consistent size", 1);
            }
        }
    }
    for _ in 0..damages {
        let mut b = bytes.clone();
        damage(&mut c.rng, &mut b, f);
        match back(&b, "a damaged sampling context")? {
            None => c.ev(&format!("damaged contexts refused ({:?})", f), 1),
            Some(x) => {
                consistent(&x)?;
                c.ev(&format!("damaged contexts read, of consistent size ({:?})", f), 1);
            }
        }
    }
    if f == Rkyv {
        for _ in 0..10 {
            let n = c.rng.below(400);
            let kind = c.rng.below(3);
            let b: Vec<u8> = (0..n).map(|_| match kind { 0 => 0, 1 => 0xFF, _ => c.rng.u32() as u8 }).collect();
            if let Some(x) = back(&b, "bytes that never were a context")? {
                consistent(&x)?;
            }
            c.ev("other bytes validated", 1);
        }
    }
    Ok(())
}

fn asset<T: serde::Serialize + DeserializeOwned>(c: &mut Case, what: &str, x: &T, fits: impl Fn(&T) -> bool) -> R {
    let f = *c.rng.pick(&[Json, JsonValue, Bincode, Cbor]);
    let bytes = encode(x, f);
    c.sig(&bytes);
    c.sample = json!({"what": what, "format": format!("{:?}", f), "bytes": bytes.len()});
    ensure!(read(what, f, &bytes, || decode::<T>(&bytes, f))?.is_some_and(|y| fits(&y)), "a saved asset is refused", {"what": what, "format": format!("{:?}", f)});
    for k in 0..if cfg!(miri) { 2 } else { 20 } {
        let cut = if k < 6 { bytes.len() - 1 - k } else { c.rng.below(bytes.len()) };
        let b = &bytes[..cut];
        let r = read(&format!("{} cut short", what), f, b, || decode::<T>(b, f))?;
        ensure!(r.is_none(), "an asset cut short is read as if whole", {"what": what, "format": format!("{:?}", f), "cut": cut, "of": bytes.len()});
        c.ev(&format!("{} cut short: refused", what), 1);
    }
    for _ in 0..if cfg!(miri) { 2 } else { 40 } {
        let mut b = bytes.clone();
        damage(&mut c.rng, &mut b, f);
        match read(&format!("damaged {}", what), f, &b, || decode::<T>(&b, f))? {
            None => c.ev(&format!("damaged {} refused", what), 1),
            Some(y) => {
                ensure!(fits(&y), "an asset read from damaged data has parts of inconsistent length", {"what": what, "format": format!("{:?}", f)});
                c.ev(&format!("damaged {} read, of consistent size", what), 1);
            }
        }
    }
    Ok(())
}

fn assets(c: &mut Case) -> R {
    match c.index % 5 {
        0 | 1 => {
            let n = gen_count(&mut c.rng, 30);
            let s = make_skel(&gen_skel(&mut c.rng, n))?;
            asset(c, "skeletons", &s, |s| s.joint_parents().len() == s.num_joints() && s.joint_rest_poses().len() == s.num_soa_joints() && s.num_soa_joints() == s.num_joints().div_ceil(4))
        }
        2 | 3 => {
            let b = if c.rng.chance(0.3) {
                gen_asset_anim(&mut c.rng, false).1
            } else {
                let tracks = c.rng.range(1, 9);
                gen_fit(&mut c.rng, &AnimOpts { tracks, max_keys: 5, wild: false, flips: false }).1
            };
            let a = lib_ok(load_anim(&b.write(false)), "loading")?;
            asset(c, "animations", &a, |a| {
                let v = serde_json::to_value(a).unwrap();
                let n = |k: &str| v[k].as_array().map(|x| x.len());
                [("t", "translations"), ("r", "rotations"), ("s", "scales")]
                    .iter()
                    .all(|(p, of)| n(&format!("{}_ratios", p)) == n(of) && n(&format!("{}_previouses", p)) == n(of) && n(of).is_some())
            })
        }
        _ => {
            let kind = *c.rng.pick(&[0usize, 2, 4]);
            let m = gen_trk(&mut c.rng, kind, 12);
            let bytes = m.write(false);
            match kind {
                0 => asset(c, "tracks", &lib_ok(load_track::<f32>(&bytes), "loading")?, |_| true),
                2 => asset(c, "tracks", &lib_ok(load_track::<Vec3>(&bytes), "loading")?, |_| true),
                _ => asset(c, "tracks", &lib_ok(load_track::<Quat>(&bytes), "loading")?, |_| true),
            }
        }
    }
}

/// Contexts for more tracks than memory can hold: the arithmetic of sizes must not wrap around to a small block.
fn absurd(c: &mut Case) -> R {
    let n = match c.rng.below(4) {
        0 => usize::MAX - c.rng.below(5000),
        1 => {
            // Where the sum of the sizes wraps around to little.
            let k = c.rng.range(1, 100) as u128;
            let per8 = 3715u128; // bytes for eight groups of four tracks
            let n = (k << (usize::BITS)) / per8 * 32 + c.rng.below(4096) as u128;
            n.min(usize::MAX as u128) as usize
        }
        2 => (1usize << c.rng.range(usize::BITS as usize - 7, usize::BITS as usize - 1)) + c.rng.below(100),
        _ => (isize::MAX as usize) / c.rng.range(1, 100) + c.rng.below(100),
    };
    let need = (n.div_ceil(4) as u128) * 464;
    if need <= isize::MAX as u128 {
        return Ok(());
    }
    c.sig_u(n as u64);
    match guarded(|| SamplingContext::new(n)) {
        Outcome::Panicked(..) => c.ev("contexts of absurd size refused", 1),
        Outcome::Done(x) => {
            let size = x.size();
            std::mem::forget(x);
            return fail("a context larger than memory can hold is made, of a small block", json!({"tracks": n, "block": size}));
        }
    }
    Ok(())
}

pub const GROUPS: &[Group] = &[
    Group { prop: "C28", name: "contexts", quick: 12_000, thorough: 400_000, serial: false, exhaustive: false,
        rule: "sampling contexts of 0 to 110 tracks saved in JSON, bincode, CBOR or rkyv at a random moment, 40 cuts and 60 random damages each", f: contexts },
    Group { prop: "C28", name: "huge", quick: 240, thorough: 8_000, serial: false, exhaustive: false,
        rule: "sampling contexts with room for 90 to 144000 tracks, 3 cuts and 6 damages each", f: huge },
    Group { prop: "C28", name: "absurd", quick: 20_000, thorough: 1_000_000, serial: false, exhaustive: false,
        rule: "contexts for numbers of tracks whose storage exceeds the address space, many of them chosen so that the sum of sizes wraps", f: absurd },
    Group { prop: "C28", name: "assets", quick: 6_000, thorough: 200_000, serial: false, exhaustive: false,
        rule: "skeletons, animations and tracks saved in JSON, bincode or CBOR, 20 cuts and 40 random damages each", f: assets },
];
