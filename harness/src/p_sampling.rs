//! C03 sampling against a reference, C04 history independence, C05 context sharing, C06 key decompression, C07 saved state.

use crate::author::*;
use crate::ensure;
use crate::fw::*;
use crate::p_assets::*;
use crate::rm;
use crate::rng::Rng;
use crate::util::*;
use ozz_animation_rs::*;
use serde_json::json;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, RwLock};

/// Ratios of interest: key times, their neighbours, the ends, anything between.
pub fn gen_ratio(r: &mut Rng, tps: &[f32]) -> f32 {
    match r.below(10) {
        0 => 0.0,
        1 => 1.0,
        2 | 3 if !tps.is_empty() => *r.pick(tps),
        4 if !tps.is_empty() => {
            let t = *r.pick(tps);
            let d = r.irange(-2, 2) as i32;
            if t > 0.0 {
                f32::from_bits((t.to_bits() as i32 + d) as u32)
            } else {
                f32::from_bits(d.unsigned_abs())
            }
        }
        5 if tps.len() > 1 => {
            let i = r.below(tps.len() - 1);
            0.5 * (tps[i] + tps[i + 1])
        }
        _ => r.f32(0.0, 1.0),
    }
}

/// What a joint must be at a ratio, and how far rounding may take it, per component: (value, tolerance).
pub struct Want {
    pub t: [(f64, f64); 3],
    pub r: Option<([f64; 4], f64)>,
    pub s: [(f64, f64); 3],
}

/// Ratio as the job clamps it.
pub fn clamped(ratio: f32) -> f32 {
    if ratio.is_nan() {
        1.0
    } else {
        ratio.clamp(0.0, 1.0)
    }
}

pub fn want(a: &Anim, track: usize, ratio: f32) -> Want {
    let ratio = clamped(ratio);
    let lin = |c: usize| {
        let (l, r, k) = a.around(c, track, ratio);
        let mut o = [(0.0, 0.0); 3];
        for i in 0..3 {
            let (x, y) = (half_to_f64(l.1[i]), half_to_f64(r.1[i]));
            o[i] = (x + (y - x) * k, 1.5e-6 * (x.abs() + y.abs()) + 1e-12);
        }
        o
    };
    let (l, r, k) = a.around(1, track, ratio);
    let (x, y) = (QuatBits::unpack(l.1).decode(), QuatBits::unpack(r.1).decode());
    let q = rm::qlerp(x, y, k);
    let len = rm::qlen(q);
    // Keys in opposite hemispheres (which no offline tool writes) may pass near zero, where nothing is determined.
    let rot = if len > 0.05 { Some((rm::qnorm(q), 2e-6 / len)) } else { None };
    Want { t: lin(0), r: rot, s: lin(2) }
}

/// Largest deviation, in millionths of the tolerance; an error when it is exceeded.
pub fn check_joint(w: &Want, got: &Xf, track: usize, ratio: f32) -> Result<u64, Fail> {
    let mut worst = 0.0f64;
    for (name, ws, g) in [("translation", &w.t, &got.t), ("scale", &w.s, &got.s)] {
        for i in 0..3 {
            let d = (ws[i].0 - g[i] as f64).abs();
            ensure!(d <= ws[i].1, format!("the sampled {} is not the interpolation of its key frames", name),
                {"joint": track, "ratio": ratio, "ratio_bits": ratio.to_bits(), "want": ws.iter().map(|x| x.0).collect::<Vec<_>>(), "got": g});
            worst = worst.max(d / ws[i].1);
        }
    }
    let l = rm::qlen(rm::q4(got.r));
    if let Some((q, tol)) = w.r {
        let d = (0..4).map(|i| (q[i] - got.r[i] as f64).abs()).fold(0.0, f64::max);
        ensure!(d <= tol, "the sampled rotation is not the interpolation of its key frames",
            {"joint": track, "ratio": ratio, "ratio_bits": ratio.to_bits(), "want": q, "got": got.r});
        worst = worst.max(d / tol);
        ensure!((l - 1.0).abs() < 1e-5, "a sampled rotation is not a unit quaternion", {"joint": track, "ratio": ratio, "length": l, "got": got.r});
    }
    Ok((worst * 1e6) as u64)
}

pub fn check_pose(case: &mut Case, a: &Anim, pose: &[SoaTransform], ratio: f32) -> R {
    for t in 0..a.num_tracks {
        let w = want(a, t, ratio);
        if w.r.is_none() {
            case.ev("near-opposite rotation keys skipped", 1);
        }
        let d = check_joint(&w, &lane(&pose[t / 4], t % 4), t, ratio)?;
        case.max("deviation in millionths of the tolerance", d);
    }
    case.ev("joints compared with the reference", a.num_tracks as u64);
    Ok(())
}

pub fn run_into(anim: &Animation, ctx: &mut SamplingContext, ratio: f32, out: &mut [SoaTransform]) -> Result<(), OzzError> {
    let mut job: SamplingJobRef = SamplingJob::default();
    job.set_animation(anim);
    job.set_context(ctx);
    job.set_ratio(ratio);
    job.set_output(out);
    job.run()
}

fn gen_play(r: &mut Rng, thorough: bool, wild: bool) -> (Anim, Built) {
    let mut tracks = gen_count(r, if thorough { 150 } else { 70 });
    let mut max_keys = *r.pick(&[2usize, 3, 6, 12, 30]);
    if r.chance(0.005) {
        tracks = gen_count(r, 1024);
        max_keys = max_keys.min(6);
    }
    let flips = r.chance(0.2);
    gen_fit(r, &AnimOpts { tracks, max_keys, wild, flips })
}

fn stats(case: &mut Case, a: &Anim, b: &Built) {
    case.sig(&b.write(false));
    case.sample = json!({"tracks": a.num_tracks, "timepoints": b.timepoints.len(), "keys": b.comp.iter().map(|c| c.keys.len()).collect::<Vec<_>>(), "seek_points": b.comp.iter().map(|c| c.desc.len() / 2).collect::<Vec<_>>()});
    if b.comp.iter().any(|c| !c.desc.is_empty()) {
        case.ev("animations with seek points", 1);
    }
    if b.timepoints.len() > 255 {
        case.ev("animations with 16-bit time indices", 1);
    }
    if a.num_tracks > 32 {
        case.ev("animations of more than 32 tracks", 1);
    }
}

// ---------------------------------------------------------------- C03

fn c03_reference(case: &mut Case) -> R {
    let th = case.thorough;
    let (a, b) = gen_play(&mut case.rng, th, true);
    stats(case, &a, &b);
    let anim = lib_ok(load_anim(&b.write(case.rng.chance(0.2))), "loading a generated animation")?;
    let mut ctx = SamplingContext::new(anim.num_tracks());
    for k in 0..24 {
        let ratio = if k < 2 {
            [0.0, 1.0][k]
        } else {
            gen_ratio(&mut case.rng, &b.timepoints)
        };
        let extra = case.rng.below(3);
        let mut out: Vec<SoaTransform> = (0..anim.num_soa_tracks() + extra).map(canary).collect();
        if case.rng.chance(0.4) {
            ctx = SamplingContext::new(anim.num_tracks());
            case.ev("samples with a new context", 1);
        } else {
            case.ev("samples with a used context", 1);
        }
        lib_ok(run_into(&anim, &mut ctx, ratio, &mut out), "sampling")?;
        check_pose(case, &a, &out, ratio)?;
    }
    Ok(())
}

/// Clips with more than 65536 keys.
fn c03_long(case: &mut Case) -> R {
    let (a, b) = gen_long(&mut case.rng);
    stats(case, &a, &b);
    let anim = lib_ok(load_anim(&b.write(case.rng.chance(0.2))), "loading a long animation")?;
    let mut ctx = SamplingContext::new(anim.num_tracks());
    let mut walk = Walk::new();
    for k in 0..30 {
        let ratio = if k % 3 == 0 { gen_ratio(&mut case.rng, &b.timepoints) } else { walk.next(&mut case.rng, &b.timepoints) };
        if case.rng.chance(0.2) {
            ctx = SamplingContext::new(anim.num_tracks());
        }
        let out = sample_with(&mut ctx, &anim, ratio)?;
        check_pose(case, &a, &out, ratio)?;
    }
    Ok(())
}

fn c03_clamp(case: &mut Case) -> R {
    let (a, b) = gen_play(&mut case.rng, false, false);
    stats(case, &a, &b);
    let anim = make_anim(&a)?;
    let odd = [
        (f32::NAN, 1.0f32), (-f32::NAN, 1.0), (f32::INFINITY, 1.0), (f32::NEG_INFINITY, 0.0), (-0.0, 0.0), (-1e-30, 0.0), (-3.5, 0.0), (1.0000001, 1.0),
        (7.25, 1.0), (f32::MAX, 1.0), (f32::MIN, 0.0), (f32::from_bits(0x7F800001), 1.0), (1e-45, 1e-45), (0.99999994, 0.99999994),
    ];
    let mut ctx = SamplingContext::new(anim.num_tracks());
    for (given, eff) in odd {
        let mut job: SamplingJobRef = SamplingJob::default();
        job.set_ratio(given);
        ensure!(job.ratio() == eff, "a ratio is not clamped to the unit interval", {"given_bits": given.to_bits(), "want": eff, "got": job.ratio()});
        drop(job);
        let mut out = vec![SoaTransform::default(); anim.num_soa_tracks()];
        lib_ok(run_into(&anim, &mut ctx, given, &mut out), "sampling")?;
        check_pose(case, &a, &out, eff)?;
        ensure!(pose_bits(&out) == pose_bits(&sample_fresh(&anim, eff)?), "an out-of-range ratio differs from its clamped value", {"given_bits": given.to_bits(), "clamped": eff});
        case.ev("out-of-range ratios", 1);
    }
    Ok(())
}

/// At the time of each key frame the sample is that key's value, for every key of the animation.
fn c03_keys(case: &mut Case) -> R {
    let tracks = gen_count(&mut case.rng, 24);
    let max_keys = case.rng.range(2, 8);
    let (a, b) = gen_fit(&mut case.rng, &AnimOpts { tracks, max_keys, wild: true, flips: true });
    stats(case, &a, &b);
    let anim = make_anim(&a)?;
    let mut ctx = SamplingContext::new(anim.num_tracks());
    let mut times = b.timepoints.clone();
    match case.rng.below(3) {
        0 => {}
        1 => times.reverse(),
        _ => case.rng.shuffle(&mut times),
    }
    times.truncate(80);
    for t in times {
        let mut out = vec![SoaTransform::default(); anim.num_soa_tracks()];
        lib_ok(run_into(&anim, &mut ctx, t, &mut out), "sampling")?;
        for track in 0..a.num_tracks {
            let g = lane(&out[track / 4], track % 4);
            for c in 0..3 {
                for (kt, k) in &a.keys[c][track] {
                    if *kt != t {
                        continue;
                    }
                    case.ev("key frames hit", 1);
                    let others = 0.0f64;
                    if c == 1 {
                        let w = QuatBits::unpack(*k).decode();
                        let d = (0..4).map(|i| (w[i] - g.r[i] as f64).abs()).fold(0.0, f64::max);
                        ensure!(d < 3e-6 + others, "at a key frame the rotation is not the key's", {"joint": track, "ratio": t, "want": w, "got": g.r});
                    } else {
                        let gv = if c == 0 { g.t } else { g.s };
                        let (l, r, _) = a.around(c, track, t);
                        for i in 0..3 {
                            let w = half_to_f64(k[i]);
                            let tol = 1e-6 * (half_to_f64(l.1[i]).abs() + half_to_f64(r.1[i]).abs());
                            ensure!((w - gv[i] as f64).abs() <= tol, "at a key frame the value is not the key's", {"joint": track, "component": c, "ratio": t, "want": w, "got": gv[i]});
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

fn c03_shipped(case: &mut Case) -> R {
    let p = SHIPPED_ANIMATIONS[case.index as usize % SHIPPED_ANIMATIONS.len()];
    let anim = lib_ok(Animation::from_path(shipped(p)), "loading a shipped animation")?;
    let b = built_of(&anim);
    let a = anim_of(&b);
    case.sig(p.as_bytes());
    case.sig_u(case.index);
    case.sample = json!({"file": p, "tracks": a.num_tracks, "timepoints": b.timepoints.len()});
    let mut ctx = SamplingContext::from_animation(&anim);
    let steps = if case.thorough { 1500 } else { 150 };
    let back = case.rng.chance(0.3);
    for k in 0..=steps {
        let ratio = if k % 10 == 9 {
            gen_ratio(&mut case.rng, &b.timepoints)
        } else if back {
            1.0 - k as f32 / steps as f32
        } else {
            k as f32 / steps as f32
        };
        let mut out = vec![canary(1); anim.num_soa_tracks()];
        lib_ok(run_into(&anim, &mut ctx, ratio, &mut out), "sampling a shipped animation")?;
        check_pose(case, &a, &out, ratio)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

/// A walk over ratios with the moves a player makes.
pub struct Walk {
    at: f32,
    mode: usize,
    left: usize,
    step: f32,
}
impl Walk {
    pub fn new() -> Walk {
        Walk { at: 0.0, mode: 0, left: 0, step: 0.01 }
    }
    pub fn next(&mut self, r: &mut Rng, tps: &[f32]) -> f32 {
        if self.left == 0 {
            self.mode = r.below(8);
            self.left = r.range(1, 12);
            self.step = *r.pick(&[0.001, 0.01, 0.05, 0.2, 0.49, 0.07]) * r.f32(0.5, 1.5);
        }
        self.left -= 1;
        self.at = match self.mode {
            0 | 1 => {
                let x = self.at + self.step;
                if x > 1.0 {
                    if r.chance(0.5) {
                        x - 1.0
                    } else {
                        1.0
                    }
                } else {
                    x
                }
            }
            2 | 3 => {
                let x = self.at - self.step;
                if x < 0.0 {
                    if r.chance(0.5) {
                        x + 1.0
                    } else {
                        0.0
                    }
                } else {
                    x
                }
            }
            4 => self.at,
            5 => {
                if r.chance(0.5) {
                    self.at + self.step
                } else {
                    self.at - self.step
                }
            }
            6 => gen_ratio(r, tps),
            _ => {
                // the ends in turn
                if self.at > 0.5 {
                    0.0
                } else {
                    1.0
                }
            }
        }
        .clamp(0.0, 1.0);
        self.at
    }
}

fn c04_history(case: &mut Case) -> R {
    let th = case.thorough;
    let (a, b) = gen_play(&mut case.rng, th, false);
    stats(case, &a, &b);
    let anim = make_anim(&a)?;
    let mut ctx = SamplingContext::new(anim.num_tracks());
    let mut walk = Walk::new();
    let mut hist: Vec<f32> = Vec::new();
    for k in 0..60 {
        let ratio = walk.next(&mut case.rng, &b.timepoints);
        hist.push(ratio);
        match case.rng.below(40) {
            0 => {
                ctx.clear();
                case.ev("contexts cleared", 1);
            }
            1 => {
                ctx = ctx.clone();
                case.ev("contexts cloned", 1);
            }
            2 => {
                ctx = ctx.clone_without_animation_id();
                case.ev("contexts cloned without identity", 1);
            }
            3 => {
                let moved = ctx;
                ctx = moved;
            }
            4 => {
                // A refused job in between: too small an output.
                let mut out: Vec<SoaTransform> = Vec::new();
                let r = run_into(&anim, &mut ctx, case.rng.f32(0.0, 1.0), &mut out);
                ensure!(r.is_err(), "an output with no room is accepted", {});
                case.ev("refused jobs in between", 1);
            }
            _ => {}
        }
        let mut out = vec![canary(k); anim.num_soa_tracks()];
        lib_ok(run_into(&anim, &mut ctx, ratio, &mut out), "sampling")?;
        let fresh = sample_fresh(&anim, ratio)?;
        if pose_bits(&out) != pose_bits(&fresh) {
            let at = (0..out.len()).find(|i| soa_bits(&out[*i]) != soa_bits(&fresh[*i])).unwrap();
            return fail("a sampled pose depends on the history of the context",
                json!({"step": k, "ratio": ratio, "history": hist.iter().rev().take(8).rev().collect::<Vec<_>>(), "group": at, "tracks": a.num_tracks,
                    "got": format!("{:?}", out[at]), "new_context": format!("{:?}", fresh[at])}));
        }
        case.ev("poses compared with a new context", 1);
    }
    Ok(())
}

fn c04_long(case: &mut Case) -> R {
    let (a, b) = gen_long(&mut case.rng);
    stats(case, &a, &b);
    let anim = make_anim(&a)?;
    let mut ctx = SamplingContext::new(anim.num_tracks());
    let mut walk = Walk::new();
    for k in 0..30 {
        let ratio = if k % 3 == 0 { gen_ratio(&mut case.rng, &b.timepoints) } else { walk.next(&mut case.rng, &b.timepoints) };
        let p = sample_with(&mut ctx, &anim, ratio)?;
        ensure!(pose_bits(&p) == pose_bits(&sample_fresh(&anim, ratio)?), "a sampled pose of a long animation depends on history", {"step": k, "ratio": ratio});
        case.ev("poses compared with a new context", 1);
    }
    Ok(())
}

/// Every ordered pair and triple of a few ratios.
fn c04_jumps(case: &mut Case) -> R {
    let tracks = gen_count(&mut case.rng, 12);
    let max_keys = case.rng.range(2, 6);
    let (a, b) = gen_fit(&mut case.rng, &AnimOpts { tracks, max_keys, wild: false, flips: false });
    stats(case, &a, &b);
    let anim = make_anim(&a)?;
    let mut rs: Vec<f32> = vec![0.0, 1.0];
    while rs.len() < 6 {
        let r = gen_ratio(&mut case.rng, &b.timepoints).clamp(0.0, 1.0);
        rs.push(r);
    }
    let fresh: Vec<Vec<u32>> = rs.iter().map(|r| sample_fresh(&anim, *r).map(|p| pose_bits(&p))).collect::<Result<_, _>>()?;
    for i in 0..rs.len() {
        for j in 0..rs.len() {
            for k in 0..rs.len() {
                let mut ctx = SamplingContext::new(anim.num_tracks());
                for x in [i, j, k] {
                    let p = sample_with(&mut ctx, &anim, rs[x])?;
                    ensure!(pose_bits(&p) == fresh[x], "a sampled pose depends on the ratios sampled before", {"ratios": [rs[i], rs[j], rs[k]], "tracks": a.num_tracks});
                    case.ev("poses compared with a new context", 1);
                }
            }
        }
    }
    Ok(())
}

fn c04_shipped(case: &mut Case) -> R {
    let p = SHIPPED_ANIMATIONS[case.index as usize % SHIPPED_ANIMATIONS.len()];
    let anim = lib_ok(Animation::from_path(shipped(p)), "loading a shipped animation")?;
    case.sig(p.as_bytes());
    case.sig_u(case.index);
    case.sample = json!({"file": p});
    let tps = anim.timepoints().to_vec();
    let mut walk = Walk::new();
    let mut ctx = SamplingContext::from_animation(&anim);
    for k in 0..if case.thorough { 600 } else { 80 } {
        let ratio = walk.next(&mut case.rng, &tps);
        let p = sample_with(&mut ctx, &anim, ratio)?;
        ensure!(pose_bits(&p) == pose_bits(&sample_fresh(&anim, ratio)?), "a sampled pose of a shipped animation depends on history", {"step": k, "ratio": ratio});
        case.ev("poses compared with a new context", 1);
    }
    Ok(())
}

/// A context moved between jobs of different kinds.
fn c04_jobs(case: &mut Case) -> R {
    let (a, b) = gen_play(&mut case.rng, false, false);
    stats(case, &a, &b);
    let rc = Rc::new(make_anim(&a)?);
    let arc = Arc::new(make_anim(&a)?);
    let mut ctx = SamplingContext::new(a.num_tracks);
    let mut walk = Walk::new();
    for _ in 0..20 {
        let ratio = walk.next(&mut case.rng, &b.timepoints);
        let want = pose_bits(&sample_fresh(&rc, ratio)?);
        let got = match case.rng.below(3) {
            0 => {
                let out = Rc::new(RefCell::new(vec![canary(0); rc.num_soa_tracks()]));
                let mut job = SamplingJobRc::default();
                job.set_animation(rc.clone());
                job.set_context(ctx);
                job.set_output(out.clone());
                job.set_ratio(ratio);
                lib_ok(job.run(), "sampling (Rc)")?;
                ctx = job.take_context().unwrap();
                let v = pose_bits(&out.borrow());
                v
            }
            1 => {
                let out = Arc::new(RwLock::new(vec![canary(0); rc.num_soa_tracks()]));
                let mut job = SamplingJobArc::default();
                job.set_animation(arc.clone());
                job.set_context(ctx);
                job.set_output(out.clone());
                job.set_ratio(ratio);
                lib_ok(job.run(), "sampling (Arc)")?;
                ctx = job.take_context().unwrap();
                let v = pose_bits(&out.read().unwrap());
                v
            }
            _ => pose_bits(&sample_with(&mut ctx, &rc, ratio)?),
        };
        ensure!(got == want, "a pose differs after the context moved to another job", {"ratio": ratio});
        case.ev("poses compared with a new context", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

/// The same name, duration, tracks and key times, with other values in a few tracks: nothing but the identity of the
/// animation tells a context that its cached keys are another animation's.
fn twin(r: &mut Rng, a: &Anim) -> Option<(Anim, Built)> {
    let mut a = a.clone();
    if a.num_tracks == 0 {
        return None;
    }
    let only = if r.chance(0.5) { Some(r.below(3)) } else { None };
    for _ in 0..r.range(1, 6) {
        let t = r.below(a.num_tracks);
        let comp = only.unwrap_or_else(|| r.below(3));
        for k in a.keys[comp][t].iter_mut() {
            k.1 = if comp == 1 {
                let q = r.quat();
                QuatBits::encode([q[0] as f64, q[1] as f64, q[2] as f64, q[3] as f64]).pack()
            } else {
                [0; 3].map(|_| 0x3800 + r.below(0x800) as u16)
            };
        }
    }
    a.build().map(|b| (a, b))
}

fn c05_shared(case: &mut Case) -> R {
    let n = case.rng.range(2, 5);
    let mut anims = Vec::new();
    let mut builts = Vec::new();
    let mut last: Option<Anim> = None;
    for _ in 0..n {
        let twin = match &last {
            Some(a) if case.rng.chance(0.4) => twin(&mut case.rng, a),
            _ => None,
        };
        let (a, b) = match twin {
            Some(t) => {
                case.ev("animations like another but for some values", 1);
                t
            }
            None => gen_play(&mut case.rng, false, false),
        };
        case.sig(&b.write(false));
        anims.push(make_anim(&a)?);
        builts.push(b);
        last = Some(a);
    }
    let widest = anims.iter().map(|a| a.num_tracks()).max().unwrap();
    let room = widest + *case.rng.pick(&[0usize, 1, 3, 4, 5, 28, 32, 33, 100, 300]);
    case.sample = json!({"tracks": anims.iter().map(|a| a.num_tracks()).collect::<Vec<_>>(), "capacity": room});
    let mut ctx = if case.rng.chance(0.2) {
        let at = (0..n).max_by_key(|i| anims[*i].num_tracks()).unwrap();
        SamplingContext::from_animation(&anims[at])
    } else {
        SamplingContext::new(room)
    };
    let mut walk = Walk::new();
    let mut cur = 0;
    for k in 0..50 {
        if case.rng.chance(0.3) {
            let was = cur;
            cur = case.rng.below(n);
            if was != cur {
                case.ev("switches between animations", 1);
            }
        }
        if case.rng.chance(0.05) {
            ctx = ctx.clone();
        }
        let ratio = walk.next(&mut case.rng, &builts[cur].timepoints);
        let an = &anims[cur];
        if ctx.max_tracks() > an.num_aligned_tracks() {
            case.ev("samples with room to spare", 1);
        }
        let mut out: Vec<SoaTransform> = (0..an.num_soa_tracks() + 2).map(canary).collect();
        let r = guarded(|| run_into(an, &mut ctx, ratio, &mut out));
        match r {
            Outcome::Done(r) => lib_ok(r, "sampling with a shared context")?,
            Outcome::Panicked(m, l) => {
                return fail(format!("sampling with a larger or switched context panics: {} at {}", m, l),
                    json!({"step": k, "tracks": an.num_tracks(), "capacity": ctx.max_tracks(), "ratio": ratio}))
            }
        }
        let want = sample_fresh(an, ratio)?;
        ensure!(pose_bits(&out[..an.num_soa_tracks()]) == pose_bits(&want), "a sample with a shared context differs from one with its own",
            {"step": k, "tracks": an.num_tracks(), "capacity": ctx.max_tracks(), "ratio": ratio});
        for i in an.num_soa_tracks()..out.len() {
            ensure!(soa_bits(&out[i]) == soa_bits(&canary(i)), "sampling writes past the animation's groups", {"group": i});
        }
        case.ev("samples compared with a dedicated context", 1);
    }
    Ok(())
}

fn c05_capacity(case: &mut Case) -> R {
    let (a, b) = gen_play(&mut case.rng, false, false);
    stats(case, &a, &b);
    let anim = make_anim(&a)?;
    let mut walk = Walk::new();
    for _ in 0..12 {
        let cap = match case.rng.below(5) {
            0 => case.rng.below(a.num_tracks + 1),
            1 => a.aligned(),
            2 => (a.num_tracks + 3).saturating_sub(case.rng.below(8)),
            3 => a.aligned() + case.rng.range(1, 70),
            _ => case.rng.range(0, 2 * a.aligned()),
        };
        let mut ctx = SamplingContext::new(cap);
        ensure!(ctx.max_soa_tracks() == (cap + 3) / 4 && ctx.max_tracks() == (cap + 3) / 4 * 4, "a context's capacity is not what was asked for", {"asked": cap, "got": ctx.max_tracks()});
        let enough = (cap + 3) / 4 >= a.nsoa();
        let ratio = walk.next(&mut case.rng, &b.timepoints);
        let mut out: Vec<SoaTransform> = (0..a.nsoa()).map(canary).collect();
        let r = match guarded(|| run_into(&anim, &mut ctx, ratio, &mut out)) {
            Outcome::Done(r) => r,
            Outcome::Panicked(m, l) => return fail(format!("sampling panics: {} at {}", m, l), json!({"tracks": a.num_tracks, "capacity": cap, "ratio": ratio})),
        };
        if enough {
            case.ev("contexts with room", 1);
            lib_ok(r, "sampling with a large enough context")?;
            ensure!(pose_bits(&out) == pose_bits(&sample_fresh(&anim, ratio)?), "a sample differs with the context's capacity", {"tracks": a.num_tracks, "capacity": cap, "ratio": ratio});
            for _ in 0..6 {
                let ratio = walk.next(&mut case.rng, &b.timepoints);
                let r = match guarded(|| run_into(&anim, &mut ctx, ratio, &mut out)) {
                    Outcome::Done(r) => r,
                    Outcome::Panicked(m, l) => return fail(format!("sampling panics: {} at {}", m, l), json!({"tracks": a.num_tracks, "capacity": cap, "ratio": ratio})),
                };
                lib_ok(r, "sampling with a large enough context")?;
                ensure!(pose_bits(&out) == pose_bits(&sample_fresh(&anim, ratio)?), "a sample differs with the context's capacity", {"tracks": a.num_tracks, "capacity": cap, "ratio": ratio});
            }
        } else {
            case.ev("contexts too small", 1);
            ensure!(matches!(r, Err(OzzError::InvalidJob)), "a context that is too small is not refused", {"tracks": a.num_tracks, "capacity": cap});
            for (i, o) in out.iter().enumerate() {
                ensure!(soa_bits(o) == soa_bits(&canary(i)), "a refused sampling job wrote to its output", {"group": i});
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C06

/// All half-precision patterns, each in every component and lane, alone and four together.
fn c06_halves(case: &mut Case) -> R {
    // 1024 patterns per case.
    case.sig_u(case.index);
    for k in 0..1024u32 {
        let h = (case.index as u32 * 1024 + k) as u16;
        let want = half_to_f64(h);
        let exact = |g: f32| if want.is_nan() { g.is_nan() } else { g as f64 == want && g.is_sign_negative() == (h & 0x8000 != 0) };
        let others: [u16; 3] = [case.rng.u32() as u16, case.rng.u32() as u16, case.rng.u32() as u16];
        for c in 0..3 {
            let mut v = [others[0], others[1], others[2]];
            v[c] = h;
            let d = animation::Float3Key::new(v).decompress();
            ensure!(exact(d[c]), "a stored half-precision value decodes wrongly", {"pattern": h, "component": c, "want": format!("{}", want), "got": format!("{}", d[c])});
            for lane in 0..4 {
                let mut keys = [[0u16; 3]; 4];
                for kk in keys.iter_mut() {
                    *kk = [case.rng.u32() as u16, case.rng.u32() as u16, case.rng.u32() as u16];
                }
                keys[lane] = v;
                let ks: Vec<animation::Float3Key> = keys.iter().map(|x| animation::Float3Key::new(*x)).collect();
                let mut soa = SoaVec3::splat(1.0);
                animation::Float3Key::simd_decompress(&ks[0], &ks[1], &ks[2], &ks[3], &mut soa);
                let g = [soa.x, soa.y, soa.z];
                ensure!(exact(g[c][lane]), "a stored half-precision value decodes wrongly among four", {"pattern": h, "component": c, "lane": lane, "want": format!("{}", want), "got": format!("{}", g[c][lane])});
                // The other lanes and components are their own keys'.
                for l in 0..4 {
                    for cc in 0..3 {
                        let w = half_to_f64(keys[l][cc]);
                        let x = g[cc][l];
                        ensure!(if w.is_nan() { x.is_nan() } else { x as f64 == w }, "a stored half-precision value decodes wrongly among four", {"pattern": keys[l][cc], "component": cc, "lane": l, "want": format!("{}", w), "got": format!("{}", x)});
                    }
                }
            }
        }
    }
    case.ev("half-precision patterns decoded in every position", 1024);
    case.sample = json!({"patterns": [case.index * 1024, case.index * 1024 + 1023]});
    Ok(())
}

fn check_quat(k: [u16; 3], g: [f32; 4], how: &str) -> R {
    let b = QuatBits::unpack(k);
    let w = b.decode();
    let l = b.largest as usize;
    for i in 0..4 {
        // The square root amplifies rounding when the omitted component is small.
        let tol = if i == l { (3e-7 / w[l].abs().max(3e-4)).min(6e-4) } else { 2e-7 };
        ensure!((w[i] - g[i] as f64).abs() <= tol, format!("a stored rotation decodes wrongly {}", how), {"key": k, "component": i, "largest": l, "negative": b.negative, "want": w, "got": g});
    }
    Ok(())
}

fn c06_quats(case: &mut Case) -> R {
    case.sig_u(case.index);
    for round in 0..400 {
        let mut keys = [[0u16; 3]; 4];
        let mut source = [None; 4];
        for l in 0..4 {
            let mode = case.rng.below(5);
            match mode {
                0 => {
                    // any bits
                    keys[l] = [case.rng.u32() as u16, case.rng.u32() as u16, case.rng.u32() as u16 & 0xFFFF];
                }
                1 => {
                    // every combination of extremes
                    let ext = [0u16, 1, 16383, 16384, 32766, 32767];
                    keys[l] = QuatBits { largest: case.rng.below(4) as u16, negative: case.rng.chance(0.5), v: [*case.rng.pick(&ext), *case.rng.pick(&ext), *case.rng.pick(&ext)] }.pack();
                }
                _ => {
                    let q = match case.rng.below(6) {
                        0 => {
                            // near ties for the largest component
                            let s = |r: &mut Rng| if r.chance(0.5) { 0.5f32 } else { -0.5 };
                            [s(&mut case.rng), s(&mut case.rng), s(&mut case.rng), s(&mut case.rng)]
                        }
                        1 => {
                            let mut q = [0f32; 4];
                            q[case.rng.below(4)] = if case.rng.chance(0.5) { 1.0 } else { -1.0 };
                            q
                        }
                        2 => {
                            let mut q = [0f32; 4];
                            let i = case.rng.below(4);
                            let j = (i + case.rng.range(1, 3)) % 4;
                            q[i] = std::f32::consts::FRAC_1_SQRT_2;
                            q[j] = if case.rng.chance(0.5) { q[i] } else { -q[i] };
                            q
                        }
                        _ => case.rng.quat(),
                    };
                    let q = [q[0] as f64, q[1] as f64, q[2] as f64, q[3] as f64];
                    keys[l] = QuatBits::encode(q).pack();
                    source[l] = Some(rm::qnorm(q));
                }
            }
        }
        let ks: Vec<animation::QuaternionKey> = keys.iter().map(|x| animation::QuaternionKey::new(*x)).collect();
        let mut soa = SoaQuat::splat(9.0);
        animation::QuaternionKey::simd_decompress(&ks[0], &ks[1], &ks[2], &ks[3], &mut soa);
        for l in 0..4 {
            let one = ks[l].decompress().to_array();
            let four = [soa.x[l], soa.y[l], soa.z[l], soa.w[l]];
            check_quat(keys[l], one, "on its own")?;
            check_quat(keys[l], four, "among four")?;
            let d = (0..4).map(|i| (one[i] - four[i]).abs()).fold(0.0, f32::max);
            ensure!(d < 1e-6, "a rotation decodes differently alone and among four", {"key": keys[l], "alone": one, "four": four});
            if let Some(q) = source[l] {
                let n = rm::qlen(rm::q4(one));
                ensure!((n - 1.0).abs() < 1e-6, "a decoded rotation is not a unit quaternion", {"key": keys[l], "got": one, "length": n});
                let g = rm::q4(one);
                ensure!((0..4).all(|i| (g[i] - q[i]).abs() < 1e-4), "a decoded rotation is not the one that was encoded", {"key": keys[l], "encoded": q, "decoded": one});
                let big = QuatBits::unpack(keys[l]).largest as usize;
                ensure!((0..4).all(|i| one[i].abs() <= one[big].abs() + 2e-4), "the omitted component is not the largest", {"key": keys[l], "decoded": one});
                let again = QuatBits::unpack(keys[l]);
                ensure!((one[big] < 0.0) == again.negative, "the omitted component has the wrong sign", {"key": keys[l], "decoded": one});
                case.ev("encoder keys decoded", 1);
            } else {
                case.ev("arbitrary keys decoded", 1);
            }
        }
        if round == 0 {
            case.sample = json!({"keys": keys});
        }
    }
    Ok(())
}

/// Through sampling: an animation whose keys are constant yields the decoded keys.
fn c06_sampled(case: &mut Case) -> R {
    let tracks = case.rng.range(1, 12);
    let aligned = (tracks + 3) / 4 * 4;
    let mut keys: [Vec<Vec<Key>>; 3] = Default::default();
    for c in 0..3 {
        for _ in 0..aligned {
            let k = if c == 1 {
                let q = case.rng.quat();
                QuatBits::encode([q[0] as f64, q[1] as f64, q[2] as f64, q[3] as f64]).pack()
            } else {
                let mut h = [0u16; 3];
                for x in h.iter_mut() {
                    *x = case.rng.u32() as u16;
                    while *x & 0x7C00 == 0x7C00 {
                        *x = case.rng.u32() as u16;
                    }
                    if case.rng.chance(0.1) {
                        *x = *case.rng.pick(&[0x7BFF, 0xFBFF, 0x0001, 0x8001, 0x03FF, 0x0400, 0x0000, 0x8000, 0x7BFE]);
                    }
                }
                h
            };
            keys[c].push(vec![(0.0, k), (1.0, k)]);
        }
    }
    let a = Anim { duration: 1.0, name: String::new(), num_tracks: tracks, keys, iframes: [0; 3], pad_timepoints: 0 };
    let anim = make_anim(&a)?;
    case.sig(&a.build().unwrap().write(false));
    let ratio = *case.rng.pick(&[0.0f32, 0.5, 1.0, 0.25]);
    let pose = sample_fresh(&anim, ratio)?;
    for t in 0..tracks {
        let g = lane(&pose[t / 4], t % 4);
        let (f, q, s) = (
            animation::Float3Key::new(a.keys[0][t][0].1).decompress(),
            animation::QuaternionKey::new(a.keys[1][t][0].1).decompress(),
            animation::Float3Key::new(a.keys[2][t][0].1).decompress(),
        );
        for i in 0..3 {
            let (wt, ws) = (half_to_f64(a.keys[0][t][0].1[i]), half_to_f64(a.keys[2][t][0].1[i]));
            ensure!(g.t[i] as f64 == wt && f[i] as f64 == wt, "a constant translation is not sampled exactly", {"key": a.keys[0][t][0].1, "want": wt, "sampled": g.t[i], "alone": f[i]});
            ensure!(g.s[i] as f64 == ws && s[i] as f64 == ws, "a constant scale is not sampled exactly", {"key": a.keys[2][t][0].1, "want": ws, "sampled": g.s[i], "alone": s[i]});
        }
        let d = (0..4).map(|i| (q.to_array()[i] - g.r[i]).abs()).fold(0.0, f32::max);
        ensure!(d < 1e-6, "a constant rotation is not sampled as it decodes", {"key": a.keys[1][t][0].1, "alone": q.to_array(), "sampled": g.r});
        case.ev("constant tracks sampled", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

fn same_ctx(a: &SamplingContext, b: &SamplingContext) -> R {
    ensure!(a == b, "a restored context is not equal to the original", {"tracks": a.max_tracks()});
    ensure!(a.max_tracks() == b.max_tracks() && a.animation_id() == b.animation_id() && a.ratio().to_bits() == b.ratio().to_bits(), "a restored context differs from the original", {"ratio": [a.ratio(), b.ratio()]});
    ensure!(a.translation_entries() == b.translation_entries() && a.rotation_entries() == b.rotation_entries() && a.scale_entries() == b.scale_entries(), "the key entries of a restored context differ", {});
    ensure!(a.translation_outdated() == b.translation_outdated() && a.rotation_outdated() == b.rotation_outdated() && a.scale_outdated() == b.scale_outdated(), "the outdated flags of a restored context differ", {});
    ensure!(a.translation_next() == b.translation_next() && a.rotation_next() == b.rotation_next() && a.scale_next() == b.scale_next(), "the next keys of a restored context differ", {});
    let v3 = |v: &SoaVec3| [v.x, v.y, v.z].iter().flat_map(|x| x.to_array()).map(|f| f.to_bits()).collect::<Vec<_>>();
    let v4 = |v: &SoaQuat| [v.x, v.y, v.z, v.w].iter().flat_map(|x| x.to_array()).map(|f| f.to_bits()).collect::<Vec<_>>();
    for (x, y) in a.translations().iter().zip(b.translations()).chain(a.scales().iter().zip(b.scales())) {
        for i in 0..2 {
            ensure!(v3(&x.value[i]) == v3(&y.value[i]) && x.ratio[i] == y.ratio[i], "the cached values of a restored context differ", {});
        }
    }
    for (x, y) in a.rotations().iter().zip(b.rotations()) {
        for i in 0..2 {
            ensure!(v4(&x.value[i]) == v4(&y.value[i]) && x.ratio[i] == y.ratio[i], "the cached values of a restored context differ", {});
        }
    }
    Ok(())
}

fn round_trip(case: &mut Case, ctx: &SamplingContext) -> Result<SamplingContext, Fail> {
    let which = case.rng.below(4);
    let back = match which {
        0 => {
            case.ev("clones", 1);
            ctx.clone()
        }
        1 => {
            case.ev("rkyv round trips", 1);
            rkyv_back::<SamplingContext>(&rkyv_bytes(ctx))
        }
        2 => {
            case.ev("serde round trips", 1);
            serde_back(case, ctx)?
        }
        _ => {
            case.ev("mixed round trips", 1);
            let x = rkyv_back::<SamplingContext>(&rkyv_bytes(&ctx.clone()));
            serde_back(case, &x)?
        }
    };
    same_ctx(ctx, &back)?;
    ensure!(rkyv_bytes(ctx) == rkyv_bytes(&back), "a restored context is written differently with rkyv", {"how": which});
    ensure!(serde_json::to_string(ctx).unwrap() == serde_json::to_string(&back).unwrap(), "a restored context is written differently with serde", {"how": which});
    Ok(back)
}

fn c07_resume(case: &mut Case) -> R {
    let (a, b) = gen_play(&mut case.rng, false, false);
    stats(case, &a, &b);
    let anim = make_anim(&a)?;
    let spare = *case.rng.pick(&[0usize, 0, 0, 4, 40]);
    let mut ctx = match case.rng.below(3) {
        0 if spare == 0 => SamplingContext::from_animation(&anim),
        _ => SamplingContext::new(a.num_tracks + spare),
    };
    let mut other: Option<SamplingContext> = None;
    let mut walk = Walk::new();
    for k in 0..30 {
        if case.rng.chance(0.25) {
            other = Some(round_trip(case, &ctx)?);
        }
        if case.rng.chance(0.05) {
            ctx = round_trip(case, &ctx)?;
        }
        if case.rng.chance(0.05) {
            ctx.clear();
            case.ev("cleared contexts saved", 1);
            other = Some(round_trip(case, &ctx)?);
        }
        let ratio = walk.next(&mut case.rng, &b.timepoints);
        let x = sample_with(&mut ctx, &anim, ratio)?;
        if let Some(o) = &mut other {
            let y = sample_with(o, &anim, ratio)?;
            ensure!(pose_bits(&x) == pose_bits(&y), "playback from a saved state differs from the original", {"step": k, "ratio": ratio, "tracks": a.num_tracks});
            same_ctx(&ctx, o)?;
            case.ev("samples compared after a restore", 1);
            if case.rng.chance(0.3) {
                let mut z = o.clone_without_animation_id();
                ensure!(z.animation_id() == 0 && z.ratio() == o.ratio(), "a copy without identity has one", {});
                let ratio = walk.next(&mut case.rng, &b.timepoints);
                let p = sample_with(&mut z, &anim, ratio)?;
                ensure!(pose_bits(&p) == pose_bits(&sample_fresh(&anim, ratio)?), "playback from a saved state without identity differs", {"step": k, "ratio": ratio});
                case.ev("samples compared after a restore without identity", 1);
            }
        }
    }
    Ok(())
}

/// States saved during one playback, restored out of order.
fn c07_rollback(case: &mut Case) -> R {
    let (a, b) = if case.index % 300 == 7 { gen_long(&mut case.rng) } else { gen_play(&mut case.rng, false, false) };
    stats(case, &a, &b);
    let anim = make_anim(&a)?;
    let mut ctx = SamplingContext::new(a.num_tracks);
    let mut walk = Walk::new();
    let ratios: Vec<f32> = (0..25).map(|_| walk.next(&mut case.rng, &b.timepoints)).collect();
    let mut saves: Vec<(Vec<u8>, String)> = Vec::new();
    let mut poses: Vec<Vec<u32>> = Vec::new();
    let mut states: Vec<SamplingContext> = Vec::new();
    let mut cleared = Vec::new();
    for (i, r) in ratios.iter().enumerate() {
        if case.rng.chance(0.04) {
            ctx.clear();
            cleared.push(i);
        }
        saves.push((rkyv_bytes(&ctx), serde_json::to_string(&ctx).unwrap()));
        states.push(ctx.clone());
        poses.push(pose_bits(&sample_with(&mut ctx, &anim, *r)?));
    }
    for _ in 0..6 {
        let i = case.rng.below(ratios.len());
        let mut c = if case.rng.chance(0.5) {
            rkyv_back::<SamplingContext>(&saves[i].0)
        } else {
            let t = saves[i].1.clone();
            json_back(case, &t)?
        };
        same_ctx(&states[i], &c)?;
        for j in i..ratios.len() {
            if cleared.contains(&j) && j > i {
                c.clear();
            }
            let p = pose_bits(&sample_with(&mut c, &anim, ratios[j])?);
            ensure!(p == poses[j], "playback resumed from an earlier save differs", {"saved_at": i, "step": j, "ratio": ratios[j]});
            case.ev("samples compared after a rollback", 1);
        }
        same_ctx(&ctx, &c)?;
    }
    Ok(())
}

/// Contexts that were never used: comparable and written the same way, whatever the heap held before.
fn c07_new(case: &mut Case) -> R {
    let n = case.rng.range(0, 300);
    case.sig_u(n as u64);
    case.sample = json!({"tracks": n});
    let bytes: Vec<(Vec<u8>, String)> = (0..4)
        .map(|k| {
            // Leave different rubbish behind in the heap.
            let size = SamplingContext::new(n).size();
            let mut junk: Vec<Vec<u8>> = (0..4).map(|i| vec![(0x11 * (k + 1) + i) as u8; size]).collect();
            junk.iter_mut().for_each(|j| {
                std::hint::black_box(j.as_mut_ptr());
            });
            drop(junk);
            let c = SamplingContext::new(n);
            (rkyv_bytes(&c), serde_json::to_string(&c).unwrap())
        })
        .collect();
    ensure!(bytes.iter().all(|b| *b == bytes[0]), "a new context is written differently each time", {"tracks": n});
    let c = SamplingContext::new(n);
    ensure!(c == c.clone(), "a new context is not equal to its copy", {"tracks": n});
    ensure!(c == SamplingContext::new(n), "two new contexts of the same size are not equal", {"tracks": n});
    round_trip(case, &c)?;
    case.ev("new contexts written", 5);
    Ok(())
}

pub const GROUPS: &[Group] = &[
    Group { prop: "C03", name: "reference", quick: 40000, thorough: 400000, serial: false, exhaustive: false, f: c03_reference, rule: "random animations (1 to 70 tracks, 2 to 30 keys per track, with and without seek tables, 8- and 16-bit time indices) sampled at 24 ratios each (key times, neighbouring floats, ends, random), every joint against double-precision interpolation of the authored keys; distinct by archive bytes" },
    Group { prop: "C03", name: "long", quick: 48, thorough: 800, serial: false, exhaustive: false, f: c03_long, rule: "clips of more than 65536 keys of one kind, with up to 40 seek points" },
    Group { prop: "C03", name: "clamp", quick: 8000, thorough: 50000, serial: false, exhaustive: false, f: c03_clamp, rule: "fourteen out-of-range, infinite, denormal and not-a-number ratios on random animations" },
    Group { prop: "C03", name: "keys", quick: 20000, thorough: 100000, serial: false, exhaustive: false, f: c03_keys, rule: "random animations sampled at every key time, forward, backward and shuffled; each key hit must be returned" },
    Group { prop: "C03", name: "shipped", quick: 130, thorough: 1300, serial: false, exhaustive: false, f: c03_shipped, rule: "the shipped animations over the whole clip, keys regrouped from the back references" },
    Group { prop: "C04", name: "history", quick: 40000, thorough: 600000, serial: false, exhaustive: false, f: c04_history, rule: "random walks of 60 ratios (forward, backward, jitter, loops, repeats, jumps, key times) with clears, clones and refused jobs in between; each pose bit-identical to a new context's" },
    Group { prop: "C04", name: "long", quick: 48, thorough: 800, serial: false, exhaustive: false, f: c04_long, rule: "walks on clips of more than 65536 keys of one kind" },
    Group { prop: "C04", name: "jumps", quick: 15000, thorough: 150000, serial: false, exhaustive: false, f: c04_jumps, rule: "every sequence of three out of six ratios on small random animations" },
    Group { prop: "C04", name: "shipped", quick: 260, thorough: 2600, serial: false, exhaustive: false, f: c04_shipped, rule: "random walks on the shipped animations" },
    Group { prop: "C04", name: "jobs", quick: 10000, thorough: 50000, serial: false, exhaustive: false, f: c04_jobs, rule: "one context moved between borrowed, Rc and Arc jobs" },
    Group { prop: "C05", name: "shared", quick: 30000, thorough: 300000, serial: false, exhaustive: false, f: c05_shared, rule: "one context with spare room serving two to five live animations of different sizes in random alternation" },
    Group { prop: "C05", name: "capacity", quick: 30000, thorough: 300000, serial: false, exhaustive: false, f: c05_capacity, rule: "contexts of every capacity around the animation's, too small ones refused" },
    Group { prop: "C06", name: "halves", quick: 64, thorough: 64, serial: false, exhaustive: true, f: c06_halves, rule: "all 65536 half-precision patterns in each component and each lane" },
    Group { prop: "C06", name: "quats", quick: 30000, thorough: 400000, serial: false, exhaustive: false, f: c06_quats, rule: "1600 rotation keys per case: encoded quaternions (with ties and axes), extremes, arbitrary bits" },
    Group { prop: "C06", name: "sampled", quick: 40000, thorough: 400000, serial: false, exhaustive: false, f: c06_sampled, rule: "constant animations with arbitrary finite keys, sampled" },
    Group { prop: "C07", name: "resume", quick: 12000, thorough: 120000, serial: false, exhaustive: false, f: c07_resume, rule: "random walks interrupted by clone, rkyv and serde round trips; both contexts continue side by side" },
    Group { prop: "C07", name: "rollback", quick: 6000, thorough: 60000, serial: false, exhaustive: false, f: c07_rollback, rule: "states saved at each of 25 steps and resumed from random ones" },
    Group { prop: "C07", name: "new", quick: 6000, thorough: 40000, serial: false, exhaustive: false, f: c07_new, rule: "unused contexts of 0 to 300 tracks created in a dirtied heap" },
];
