//! C24 undefined behaviour. The groups here watch memory through the allocator; the other stages of the check run these and
//! all other groups under the sanitizers and the interpreter.

use crate::author::*;
use crate::ensure;
use crate::fw::*;
use crate::mem;
use crate::p_assets::{gen_asset_anim, rkyv_back, rkyv_bytes};
use crate::p_prog::*;
use crate::rng::Rng;
use crate::util::*;
use ozz_animation_rs::*;
use serde_json::json;
use std::io::Read;

fn misuse(what: &str) -> R {
    match mem::take_error() {
        Some(e) => fail(format!("memory misuse in {}: {}", what, e), json!({})),
        None => Ok(()),
    }
}

/// Runs `f` again and again; what the thread holds must not grow each time.
fn leak_free<T>(what: &str, mut f: impl FnMut(usize) -> T) -> Result<Vec<T>, Fail> {
    let mut at = vec![];
    let mut out = vec![];
    // The places of the results exist before anything is measured.
    out.reserve(4);
    at.reserve(8);
    for k in 0..3 {
        out.push(f(k));
        at.push(mem::balance());
    }
    let _ = misuse(what)?;
    // The results themselves are held: measure them by dropping.
    let before = mem::balance();
    drop(out.pop());
    let one = before.bytes - mem::balance().bytes;
    let (g1, g2) = (at[1].bytes - at[0].bytes - one, at[2].bytes - at[1].bytes - one);
    if g1 > 0 && g2 > 0 {
        return fail(format!("{} leaks: memory in use grows each time", what), json!({"growth": [g1, g2], "blocks": [at[0].blocks, at[1].blocks, at[2].blocks]}));
    }
    Ok(out)
}

fn opts(c: &mut Case, hostile: bool) -> Opts {
    if cfg!(miri) {
        return Opts { steps: 14, small: true, hostile };
    }
    let small = c.rng.chance(0.3);
    Opts { steps: c.rng.range(10, 60), small, hostile }
}

fn programs(c: &mut Case) -> R {
    let o = opts(c, c.index % 2 == 0);
    let seed = c.rng.u64();
    c.sig_u(seed);
    if cfg!(miri) || !mem::WATCHING {
        let t = whole(seed, o)?;
        c.ev("steps", t.steps.len() as u64);
        return Ok(());
    }
    let fills = [0xA5u8, 0x00, 0x7B];
    let start = mem::balance().requests;
    let runs = leak_free("a program", |k| {
        mem::set_fill(fills[k]);
        let t = whole(seed, o);
        mem::set_fill(0xA5);
        t
    })?;
    c.ev("blocks allocated", mem::balance().requests - start);
    let mut ts = vec![];
    for r in runs {
        ts.push(r?);
    }
    for s in &ts[0].steps {
        c.ev(s.name, 1);
    }
    if let Some((k, what)) = ts[0].differs(&ts[1], true) {
        return fail("a result depends on what fresh memory holds", json!({"step": k, "of": what}));
    }
    c.ev("programs", 1);
    c.sample = json!({"steps": ts[0].steps.len(), "hostile": o.hostile, "small": o.small});
    Ok(())
}

/// Three fillings, one after another, of programs on skeletons and animations that fit exactly.
fn load(kind: usize, bytes: &[u8]) -> bool {
    match kind {
        0 => load_skel(bytes).is_ok(),
        1 => load_anim(bytes).is_ok(),
        2 => load_track::<f32>(bytes).is_ok(),
        3 => load_track::<glam::Vec3>(bytes).is_ok(),
        _ => load_track::<glam::Quat>(bytes).is_ok(),
    }
}

fn gen_bytes(r: &mut Rng, kind: usize) -> Vec<u8> {
    let be = r.chance(0.3);
    let big = !cfg!(miri);
    match kind {
        0 => {
            let n = if r.chance(0.05) { 0 } else { gen_count(r, if big { 30 } else { 5 }) };
            gen_skel(r, n).write(be)
        }
        1 if big => gen_asset_anim(r, false).1.write(be),
        1 => gen_fit(r, &AnimOpts { tracks: 3, max_keys: 3, wild: false, flips: false }).1.write(be),
        2 => gen_trk(r, 0, 12).write(be),
        3 => gen_trk(r, 2, 12).write(be),
        _ => gen_trk(r, 4, 12).write(be),
    }
}

/// A reader that panics after some bytes.
struct Bomb<'a> {
    data: &'a [u8],
    left: usize,
}
impl Read for Bomb<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.left == 0 {
            panic!("harness: reader");
        }
        let n = buf.len().min(self.left).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        self.left -= n;
        Ok(n)
    }
}

fn loading(c: &mut Case) -> R {
    let kind = c.rng.below(5);
    let bytes = gen_bytes(&mut c.rng, kind);
    c.sig(&bytes);
    c.ev(["skeletons", "animations", "tracks", "tracks", "tracks"][kind], 1);
    ensure!(load(kind, &bytes), "a generated asset is refused", {"kind": kind});
    misuse("loading")?;
    leak_free("loading and dropping an asset", |_| load(kind, &bytes))?;
    for _ in 0..if cfg!(miri) { 2 } else { 12 } {
        let cut = c.rng.below(bytes.len());
        let b = &bytes[..cut];
        let r = leak_free("a load that fails", |_| load(kind, b))?;
        c.ev("loads cut short", 1);
        if r[0] {
            c.ev("cut, and yet loaded", 1);
        }
    }
    for _ in 0..if cfg!(miri) { 1 } else { 4 } {
        // Loading under a reader that panics.
        let cut = c.rng.below(bytes.len());
        let bomb = |_: usize| {
            let r = std::panic::catch_unwind(|| {
                let mut ar = match Archive::new(Bomb { data: &bytes, left: cut }) {
                    Ok(a) => a,
                    Err(_) => return,
                };
                match kind {
                    0 => drop(Skeleton::from_archive(&mut ar)),
                    1 => drop(Animation::from_archive(&mut ar)),
                    2 => drop(Track::<f32>::from_archive(&mut ar)),
                    3 => drop(Track::<glam::Vec3>::from_archive(&mut ar)),
                    _ => drop(Track::<glam::Quat>::from_archive(&mut ar)),
                }
            });
            r.is_err() as u32
        };
        // Unwinding may leave memory behind, but nothing worse.
        let n = bomb(0);
        misuse("a load whose reader panics")?;
        c.ev("loads whose reader panics", n as u64);
    }
    c.sample = json!({"kind": kind, "bytes": bytes.len()});
    Ok(())
}

/// Contexts of every size: created, used, cloned, dropped in any order.
fn contexts(c: &mut Case) -> R {
    let tracks = if cfg!(miri) { c.rng.range(1, 6) } else { c.rng.below(140) };
    let k = c.rng.below(40);
    let (_, b) = gen_fit(&mut c.rng, &AnimOpts { tracks: tracks.max(1), max_keys: 4, wild: false, flips: false });
    let bytes = b.write(false);
    c.sig(&bytes);
    let seed = c.rng.u64();
    let runs = leak_free("a life of contexts", |_| -> Result<u64, Fail> {
        let mut r = Rng::new(seed);
        let anim = lib_ok(load_anim(&bytes), "loading")?;
        let mut v: Vec<SamplingContext> = vec![SamplingContext::new(tracks + k), SamplingContext::from_animation(&anim), SamplingContext::new(0)];
        let mut n = 0;
        for _ in 0..12 {
            let i = r.below(v.len());
            match r.below(7) {
                0 => v.push(v[i].clone()),
                1 => v.push(v[i].clone_without_animation_id()),
                2 if v.len() > 2 => drop(v.swap_remove(i)),
                3 => v[i].clear(),
                4 => v.push(SamplingContext::new(r.below(200))),
                5 => {
                    let x = v[i].clone();
                    v[0] = x;
                }
                _ => {
                    if v[i].max_tracks() >= anim.num_tracks() {
                        sample_with(&mut v[i], &anim, r.f32(0.0, 1.0))?;
                        n += 1;
                    }
                }
            }
        }
        for x in &v {
            n += (x.translations().len() + x.rotations().len() + x.scales().len()) as u64;
            n += x.translation_entries().iter().map(|e| *e as u64).sum::<u64>();
            n += x.rotation_outdated().iter().map(|e| *e as u64).sum::<u64>();
            n += format!("{:?}", x).starts_with("SamplingContext") as u64;
        }
        Ok(n)
    })?;
    for r in runs {
        r?;
    }
    c.ev("lives of contexts", 1);
    Ok(())
}

/// What only large assets and contexts do to memory.
fn large(c: &mut Case) -> R {
    if cfg!(miri) {
        return Ok(());
    }
    let kind = c.rng.below(4);
    let size = match kind {
        0 => c.rng.range(200, 1024),
        1 => c.rng.range(100, 1024),
        2 => 0,
        _ => *c.rng.pick(&[1023usize, 1024, 1025, 1028, 2047, 4096, 5000, 9999, 65535, 65536, 70000]) + c.rng.below(9),
    };
    let bytes = match kind {
        0 => gen_skel(&mut c.rng, size).write(false),
        1 => gen_fit(&mut c.rng, &AnimOpts { tracks: size, max_keys: 3, wild: false, flips: false }).1.write(false),
        2 => gen_long(&mut c.rng).1.write(false),
        _ => vec![],
    };
    c.sig(&bytes);
    c.sig_u(size as u64);
    let bincode = c.rng.chance(0.5);
    let rs = leak_free(["a large skeleton's life", "a large animation's life", "a long animation's life", "a large context's life"][kind], |_| -> Result<bool, Fail> {
        Ok(match kind {
            0 => {
                let s = lib_ok(load_skel(&bytes), "loading")?;
                let t: Skeleton = if bincode { bincode::deserialize(&bincode::serialize(&s).unwrap()).unwrap() } else { rkyv_back(&rkyv_bytes(&s)) };
                t.num_joints() == size && s.num_joints() == size
            }
            1 | 2 => {
                let a = lib_ok(load_anim(&bytes), "loading")?;
                let b: Animation = if bincode { bincode::deserialize(&bincode::serialize(&a).unwrap()).unwrap() } else { rkyv_back(&rkyv_bytes(&a)) };
                let mut ctx = SamplingContext::from_animation(&a);
                sample_with(&mut ctx, &a, 0.3)?;
                sample_with(&mut ctx.clone(), &b, 0.7)?;
                true
            }
            _ => {
                let x = SamplingContext::new(size);
                let y: SamplingContext = if bincode && size < 10000 { bincode::deserialize(&bincode::serialize(&x).unwrap()).unwrap() } else { rkyv_back(&rkyv_bytes(&x)) };
                let z = y.clone_without_animation_id();
                x == z && x.max_tracks() >= size
            }
        })
    })?;
    for r in rs {
        ensure!(r?, "a large object is not what was saved", {"kind": kind, "size": size});
    }
    c.ev(["large skeletons", "large animations", "long animations", "large contexts"][kind], 1);
    c.sample = json!({"kind": kind, "size": size});
    Ok(())
}

pub const GROUPS: &[Group] = &[
    Group { prop: "C24", name: "programs", quick: 6000, thorough: 200_000, serial: false, exhaustive: false,
        rule: "random programs over the whole public interface, run three times with different fillings of fresh memory", f: programs },
    Group { prop: "C24", name: "loading", quick: 12_000, thorough: 400_000, serial: false, exhaustive: false,
        rule: "loads, loads cut short at random bytes, and loads whose reader panics", f: loading },
    Group { prop: "C24", name: "large", quick: 300, thorough: 10_000, serial: false, exhaustive: false,
        rule: "skeletons of up to 1024 joints, animations of up to 1024 tracks or 70000 keys and contexts of up to 70000 tracks, loaded, copied, saved, read back and dropped", f: large },
    Group { prop: "C24", name: "contexts", quick: 10_000, thorough: 300_000, serial: false, exhaustive: false,
        rule: "contexts of 0 to 200 tracks created, used, cloned, cleared and dropped in random order", f: contexts },
];
