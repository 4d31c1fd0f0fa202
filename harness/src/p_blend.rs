//! C09 blending, C10 additive layers, C11 motion blending.

use crate::author::*;
use crate::ensure;
use crate::fw::*;
use crate::rm::{self, Q, V3};
use crate::rng::Rng;
use crate::util::*;
use glam::{Vec3A, Vec4};
use glam_ext::Transform3A;
use ozz_animation_rs::*;
use serde_json::json;

pub type JobRef<'t> = BlendingJob<&'t Skeleton, &'t [SoaTransform], &'t mut [SoaTransform]>;

/// One layer, by joint.
#[derive(Clone, Debug)]
pub struct Layer {
    pub pose: Vec<Xf>,
    pub soa: Vec<SoaTransform>,
    pub weight: f32,
    /// One per SoA lane, or none.
    pub jw: Option<Vec<f32>>,
}

impl Layer {
    pub fn new(pose: Vec<Xf>, weight: f32, jw: Option<Vec<f32>>) -> Layer {
        Layer { soa: soa_vec(&pose), pose, weight, jw }
    }
    pub fn jw_vec(&self) -> Vec<Vec4> {
        match &self.jw {
            None => vec![],
            Some(w) => w.chunks(4).map(|c| Vec4::new(c[0], c[1], c[2], c[3])).collect(),
        }
    }
    pub fn blending(&self) -> BlendingLayer<&[SoaTransform]> {
        BlendingLayer { transform: &self.soa, weight: self.weight, joint_weights: self.jw_vec() }
    }
    /// Weight of a joint.
    pub fn w(&self, joint: usize) -> f64 {
        let w = self.weight.abs() as f64;
        match &self.jw {
            None => w,
            Some(j) => w * (j[joint] as f64).max(0.0),
        }
    }
}

pub fn run_blend(
    skel: &Skeleton,
    layers: &[Layer],
    additive: &[Layer],
    threshold: f32,
    ctx: Option<BlendingContext>,
    out: &mut [SoaTransform],
) -> (Result<(), OzzError>, Option<BlendingContext>) {
    let mut job: JobRef = BlendingJob::default();
    job.set_skeleton(skel);
    job.set_threshold(threshold);
    if let Some(c) = ctx {
        job.set_context(c);
    }
    for l in layers {
        job.layers_mut().push(l.blending());
    }
    for l in additive {
        job.additive_layers_mut().push(l.blending());
    }
    job.set_output(out);
    let r = job.run();
    let c = job.take_context();
    (r, c)
}

pub fn gen_jw(r: &mut Rng, lanes: usize) -> Vec<f32> {
    let style = r.below(5);
    (0..lanes)
        .map(|_| match style {
            0 => 1.0,
            1 => *r.pick(&[0.0, 1.0]),
            2 => *r.pick(&[-1.0, 0.0, 0.5, 1.0, 2.0]),
            3 => 0.0,
            _ => r.f32(0.0, 1.0),
        })
        .collect()
}

pub fn gen_pose(r: &mut Rng, n: usize) -> Vec<Xf> {
    // Lengths may be in any unit.
    let unit = gen_unit(r);
    (0..n)
        .map(|_| {
            let mut x = gen_xf(r);
            x.t.iter_mut().for_each(|v| *v *= unit);
            x
        })
        .collect()
}

fn gen_unit(r: &mut Rng) -> f32 {
    *r.pick(&[1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1e-4, 1e-2, 1e3, 1e5])
}

fn gen_weight(r: &mut Rng) -> f32 {
    match r.below(12) {
        0 => 0.0,
        1 => r.f32(-2.0, 0.0),
        2 => r.f32(0.0, 0.05),
        3 => 1.0,
        4 => r.f32(1.0, 10.0),
        5 => -0.0,
        _ => r.f32(0.0, 1.0),
    }
}

fn gen_threshold(r: &mut Rng) -> f32 {
    *r.pick(&[0.1, 0.1, 0.1, 0.5, 1.0, 2.0, 1e-3, 0.05])
}

fn gen_layer(r: &mut Rng, n: usize, near: Option<&Vec<Xf>>) -> Layer {
    let mut pose = gen_pose(r, n);
    if let Some(base) = near {
        // Poses of a blend are usually similar: rotations around one another, of either sign.
        for (p, b) in pose.iter_mut().zip(base) {
            let k = r.f32(0.0, 0.5);
            let mut q: Q = [0.0; 4];
            for i in 0..4 {
                q[i] = b.r[i] as f64 + (k * p.r[i]) as f64;
            }
            let q = rm::qnorm(q);
            let s = if r.chance(0.5) { -1.0 } else { 1.0 };
            for i in 0..4 {
                p.r[i] = (q[i] * s) as f32;
            }
        }
    }
    let jw = if r.chance(0.4) { Some(gen_jw(r, (n + 3) / 4 * 4)) } else { None };
    Layer::new(pose, gen_weight(r), jw)
}

struct Blend {
    t: V3,
    s: V3,
    q: Q,
    /// Scale of the rounding errors.
    mt: f64,
    ms: f64,
    rest: [f64; 2],
    /// Length of the normalized sum before normalization, and how near a hemisphere decision was to flipping.
    qlen: f64,
    near: f64,
    total: f64,
}

/// The weighted average, in double precision.
fn reference(layers: &[Layer], rest: &Xf, threshold: f32, j: usize) -> Blend {
    let (mut t, mut s, mut q) = ([0.0; 3], [0.0; 3], [0.0f64; 4]);
    let (mut mt, mut ms) = (0.0, 0.0);
    let mut total = 0.0;
    let mut near = 1.0f64;
    let mut push = |x: &Xf, w: f64| {
        t = rm::add(t, rm::mul(rm::v3(x.t), w));
        s = rm::add(s, rm::mul(rm::v3(x.s), w));
        mt += w * rm::v3(x.t).iter().fold(0.0f64, |a, b| a.max(b.abs()));
        ms += w * rm::v3(x.s).iter().fold(0.0f64, |a, b| a.max(b.abs()));
        let r = rm::q4(x.r);
        let d = rm::qdot(q, r);
        if w > 0.0 && total > 0.0 {
            near = near.min(d.abs() / rm::qlen(q).max(1e-12));
        }
        q = rm::qadd(q, rm::qscale(r, if d < 0.0 { -w } else { w }));
        total += w;
    };
    for l in layers {
        if l.weight > 0.0 {
            push(&l.pose[j], l.w(j));
        }
    }
    let acc = layers.iter().filter(|l| l.weight > 0.0).map(|l| l.w(j)).sum::<f64>();
    let missing = threshold as f64 - acc;
    if acc <= 0.0 {
        push(rest, 1.0);
    } else if missing > 0.0 {
        push(rest, missing);
    }
    let len = rm::qlen(q);
    Blend {
        t: rm::mul(t, 1.0 / total),
        s: rm::mul(s, 1.0 / total),
        q: rm::qscale(q, 1.0 / len.max(1e-300)),
        mt: mt / total,
        ms: ms / total,
        rest: [&rest.t, &rest.s].map(|v| v.iter().fold(0.0f64, |a, b| a.max(b.abs() as f64))),
        qlen: len / total,
        near,
        total,
    }
}

fn check_blend(c: &mut Case, skel: &Skel, layers: &[Layer], threshold: f32, out: &[SoaTransform]) -> R {
    for j in 0..skel.n() {
        let b = reference(layers, &skel.rest[j], threshold, j);
        let got = lane(&out[j / 4], j % 4);
        // A joint whose weights nearly cancel in rounding against a tiny threshold is still an average.
        // The rest pose's weight is a difference, rounded relative to what it is taken from.
        let (tt, ts) = (3e-6 * b.mt + 5e-7 * b.rest[0], 3e-6 * b.ms + 5e-7 * b.rest[1]);
        let detail = json!({"joint": j, "threshold": threshold, "got": format!("{:?}", got), "want": {"t": b.t, "q": b.q, "s": b.s},
            "weights": layers.iter().map(|l| json!([l.weight, l.jw.as_ref().map(|w| w[j])])).collect::<Vec<_>>(), "total": b.total});
        for i in 0..3 {
            let e = (got.t[i] as f64 - b.t[i]).abs();
            let es = (got.s[i] as f64 - b.s[i]).abs();
            if !(e <= tt) || !(es <= ts) {
                return fail("a blended translation or scale is not the weighted average", detail);
            }
            c.max("largest deviation of a translation (1e-9)", (e * 1e9) as u64);
        }
        let q = rm::q4(got.r);
        // Skip the sign of a rotation whose hemisphere or direction is undetermined by rounding.
        if b.near > 1e-4 && b.qlen > 1e-2 {
            let d = rm::qdiff(q, b.q);
            if !(d <= 2e-5 / b.qlen.min(1.0)) {
                return fail("a blended rotation is not the normalized same-hemisphere sum", detail);
            }
            c.ev("rotations compared", 1);
        } else {
            c.ev("rotations too ambiguous to compare", 1);
        }
        if b.qlen > 1e-3 && !((rm::qlen(q) - 1.0).abs() < 1e-5) {
            return fail("a blended rotation is not a unit quaternion", detail);
        }
        c.ev("joints compared", 1);
        if b.total > 0.0 && layers.iter().all(|l| l.weight <= 0.0 || l.w(j) == 0.0) {
            c.ev("joints with no weight", 1);
        }
    }
    Ok(())
}

fn c09_reference(c: &mut Case) -> R {
    let (n, nl) = match c.index % 400 {
        7 => (c.rng.range(250, 1024), c.rng.range(1, 3)),
        8 | 9 => (gen_count(&mut c.rng, 9), c.rng.range(6, 80)),
        _ => (gen_count(&mut c.rng, 70), c.rng.range(0, 5)),
    };
    let skel = gen_skel(&mut c.rng, n);
    let lib = make_skel(&skel)?;
    let base = gen_pose(&mut c.rng, n);
    let similar = c.rng.chance(0.7);
    let layers: Vec<Layer> = (0..nl).map(|_| gen_layer(&mut c.rng, n, if similar { Some(&base) } else { None })).collect();
    let threshold = gen_threshold(&mut c.rng);
    // A new context, one of any size, or one used before.
    let ctx = match c.rng.below(4) {
        0 => None,
        1 => Some(BlendingContext::new(lib.num_soa_joints())),
        2 => Some(BlendingContext::new(c.rng.below(30))),
        _ => {
            let other: Vec<Layer> = (0..c.rng.range(1, 3)).map(|_| gen_layer(&mut c.rng, n, None)).collect();
            let mut out = vec![canary(0); lib.num_soa_joints()];
            let (r, ctx) = run_blend(&lib, &other, &[], 0.1, None, &mut out);
            lib_ok(r, "blending")?;
            c.ev("contexts reused", 1);
            ctx
        }
    };
    let extra = c.rng.below(3);
    let mut out: Vec<SoaTransform> = (0..lib.num_soa_joints() + extra).map(canary).collect();
    let (r, ctx) = run_blend(&lib, &layers, &[], threshold, ctx, &mut out);
    lib_ok(r, "blending")?;
    c.sig_u(bits_hash(&pose_bits(&out)));
    c.sample = json!({"joints": n, "threshold": threshold, "layers": layers.iter().map(|l| json!([l.weight, l.jw.is_some()])).collect::<Vec<_>>()});
    check_blend(c, &skel, &layers, threshold, &out)?;
    // The same job once more, with the context just used: the same bits.
    let mut again: Vec<SoaTransform> = (0..lib.num_soa_joints() + extra).map(|i| canary(i + 50)).collect();
    let (r, _) = run_blend(&lib, &layers, &[], threshold, ctx, &mut again);
    lib_ok(r, "blending again")?;
    let k = lib.num_soa_joints();
    ensure!(pose_bits(&out[..k]) == pose_bits(&again[..k]), "blending again with the context just used gives another pose", {});
    // Layers without positive weight change nothing, wherever they are.
    let mut more = layers.clone();
    for _ in 0..c.rng.range(1, 2) {
        let mut l = gen_layer(&mut c.rng, n, None);
        l.weight = if c.rng.chance(0.5) { 0.0 } else { -c.rng.f32(0.0, 3.0) };
        let at = c.rng.below(more.len() + 1);
        more.insert(at, l);
    }
    let mut with: Vec<SoaTransform> = (0..k).map(canary).collect();
    let (r, _) = run_blend(&lib, &more, &[], threshold, None, &mut with);
    lib_ok(r, "blending with layers of no weight")?;
    ensure!(pose_bits(&out[..k]) == pose_bits(&with), "a layer of zero or negative weight changes the blended pose",
        {"weights": more.iter().map(|l| l.weight).collect::<Vec<_>>()});
    c.ev("blends with and without ineffective layers", 1);
    Ok(())
}

/// Without effective layers the result is the rest pose, whatever else there is.
fn c09_rest(c: &mut Case) -> R {
    let n = gen_count(&mut c.rng, 40);
    let skel = gen_skel(&mut c.rng, n);
    let lib = make_skel(&skel)?;
    let nl = c.rng.below(3);
    let mut layers = Vec::new();
    for _ in 0..nl {
        let mut l = gen_layer(&mut c.rng, n, None);
        // No weight, or no weight in any joint.
        if c.rng.chance(0.5) {
            l.weight = -l.weight.abs();
        } else {
            l.weight = l.weight.abs();
            l.jw = Some((0..(n + 3) / 4 * 4).map(|_| if c.rng.chance(0.5) { 0.0 } else { -1.0 }).collect());
        }
        layers.push(l);
    }
    let threshold = gen_threshold(&mut c.rng);
    let extra = c.rng.below(4);
    let mut out: Vec<SoaTransform> = (0..lib.num_soa_joints() + extra).map(canary).collect();
    let (r, _) = run_blend(&lib, &layers, &[], threshold, None, &mut out);
    lib_ok(r, "blending nothing")?;
    c.sig_u(bits_hash(&pose_bits(&out)));
    for j in 0..n {
        let (got, rest) = (lane(&out[j / 4], j % 4), skel.rest[j]);
        let ok = (0..3).all(|i| (got.t[i] - rest.t[i]).abs() <= 2e-6 * (rest.t[i].abs() + 1e-3) && (got.s[i] - rest.s[i]).abs() <= 2e-6 * (rest.s[i].abs() + 1e-3))
            && rm::qdiff(rm::q4(got.r), rm::q4(rest.r)) < 2e-6;
        ensure!(ok, "a joint without any weight is not at its rest pose", {"joint": j, "got": format!("{:?}", got), "rest": format!("{:?}", rest),
            "layers": layers.iter().map(|l| l.weight).collect::<Vec<_>>(), "output longer by": extra});
        c.ev("joints at rest", 1);
    }
    Ok(())
}

/// Shipped clips blended on the shipped skeleton.
fn c09_shipped(c: &mut Case) -> R {
    let set: &[(&str, &[&str])] = &[
        ("blend/skeleton.ozz", &["blend/animation1.ozz", "blend/animation2.ozz", "blend/animation3.ozz"]),
        ("partial_blend/skeleton.ozz", &["partial_blend/animation_base.ozz", "partial_blend/animation_partial.ozz"]),
        ("additive/skeleton.ozz", &["additive/animation_base.ozz"]),
    ];
    let (s, anims) = set[c.index as usize % set.len()];
    let lib = lib_ok(Skeleton::from_path(shipped(s)), "loading a shipped skeleton")?;
    let n = lib.num_joints();
    let rest: Vec<Xf> = (0..n).map(|j| lane(&lib.joint_rest_poses()[j / 4], j % 4)).collect();
    let skel = Skel { names: vec![], parents: lib.joint_parents().to_vec(), rest };
    let mut layers = Vec::new();
    for a in anims {
        let anim = lib_ok(Animation::from_path(shipped(a)), "loading a shipped animation")?;
        let soa = sample_fresh(&anim, c.rng.f32(0.0, 1.0))?;
        let pose: Vec<Xf> = (0..n).map(|j| lane(&soa[j / 4], j % 4)).collect();
        let jw = if c.rng.chance(0.5) { Some(gen_jw(&mut c.rng, lib.num_soa_joints() * 4)) } else { None };
        layers.push(Layer { pose, soa, weight: gen_weight(&mut c.rng), jw });
    }
    let threshold = gen_threshold(&mut c.rng);
    let mut out = vec![canary(1); lib.num_soa_joints()];
    let (r, _) = run_blend(&lib, &layers, &[], threshold, None, &mut out);
    lib_ok(r, "blending shipped clips")?;
    c.sig_u(bits_hash(&pose_bits(&out)));
    check_blend(c, &skel, &layers, threshold, &out)
}

// ---------------------------------------------------------------- additive

fn gen_add_layer(r: &mut Rng, n: usize) -> Layer {
    let mut l = gen_layer(r, n, None);
    for x in l.pose.iter_mut() {
        for s in x.s.iter_mut() {
            *s = s.abs().max(0.3);
        }
    }
    l.soa = soa_vec(&l.pose);
    l.weight = match r.below(6) {
        0 => 1.0,
        1 => -1.0,
        2 => r.f32(1.0, 1.3),
        // Exaggerated deltas.
        3 => r.f32(1.0, 3.0) * if r.chance(0.5) { 1.0 } else { -1.0 },
        _ => r.f32(-1.0, 1.0),
    };
    let exaggerated = r.chance(0.2);
    if let Some(jw) = l.jw.as_mut().filter(|_| !exaggerated) {
        jw.iter_mut().for_each(|w| *w = w.min(1.0));
    }
    l
}

/// Applies an additive layer to a pose of one joint, in double precision; and the rounding scale.
fn add_ref(p: &mut (V3, Q, V3), l: &Layer, j: usize, mag: &mut (f64, f64)) {
    if l.weight == 0.0 {
        return;
    }
    let w = l.w(j);
    let x = &l.pose[j];
    let mut q = rm::q4(x.r);
    if q[3] < 0.0 {
        q = rm::qscale(q, -1.0);
    }
    let q = rm::qnorm([q[0] * w, q[1] * w, q[2] * w, (q[3] - 1.0) * w + 1.0]);
    let f: V3 = [1.0 - w + x.s[0] as f64 * w, 1.0 - w + x.s[1] as f64 * w, 1.0 - w + x.s[2] as f64 * w];
    let t = rm::mul(rm::v3(x.t), w);
    mag.0 += rm::len(t);
    if l.weight > 0.0 {
        p.0 = rm::add(p.0, t);
        p.1 = rm::qmul(p.1, q);
        for i in 0..3 {
            p.2[i] *= f[i];
        }
    } else {
        p.0 = rm::sub(p.0, t);
        p.1 = rm::qmul(p.1, rm::qconj(q));
        for i in 0..3 {
            p.2[i] /= f[i];
        }
    }
    // How a rounding error of the pose so far, and of the factor, comes out.
    let big = (0..3).fold(1.0f64, |a, i| a.max((1.0 - w).abs() + (x.s[i] as f64 * w).abs()));
    let small = f.iter().fold(1.0f64, |a, b| a.min(b.abs()));
    mag.1 *= if l.weight > 0.0 { big } else { (big / small / small).max(1.0) };
}

fn c10_reference(c: &mut Case) -> R {
    let (n, na) = match c.index % 400 {
        7 => (c.rng.range(250, 1024), c.rng.range(1, 3)),
        8 | 9 => (gen_count(&mut c.rng, 9), c.rng.range(5, 24)),
        _ => (gen_count(&mut c.rng, 50), c.rng.range(1, 4)),
    };
    let skel = gen_skel(&mut c.rng, n);
    let lib = make_skel(&skel)?;
    let k = lib.num_soa_joints();
    let layers: Vec<Layer> = (0..c.rng.below(3)).map(|_| gen_layer(&mut c.rng, n, Some(&skel.rest))).collect();
    let threshold = gen_threshold(&mut c.rng);
    let adds: Vec<Layer> = (0..na).map(|_| gen_add_layer(&mut c.rng, n)).collect();
    let mut base: Vec<SoaTransform> = (0..k).map(canary).collect();
    lib_ok(run_blend(&lib, &layers, &[], threshold, None, &mut base).0, "blending")?;
    let mut out: Vec<SoaTransform> = (0..k).map(|i| canary(i + 9)).collect();
    lib_ok(run_blend(&lib, &layers, &adds, threshold, None, &mut out).0, "blending with additive layers")?;
    c.sig_u(bits_hash(&pose_bits(&out)));
    c.sample = json!({"joints": n, "layers": layers.len(), "additive": adds.iter().map(|l| json!([l.weight, l.jw.is_some()])).collect::<Vec<_>>()});
    for j in 0..n {
        let b = lane(&base[j / 4], j % 4);
        let mut p = (rm::v3(b.t), rm::q4(b.r), rm::v3(b.s));
        let mut mag = (rm::len(p.0), rm::len(p.2));
        for l in &adds {
            add_ref(&mut p, l, j, &mut mag);
        }
        let got = lane(&out[j / 4], j % 4);
        let detail = json!({"joint": j, "base": format!("{:?}", b), "got": format!("{:?}", got), "want": {"t": p.0, "q": p.1, "s": p.2},
            "additive": adds.iter().map(|l| json!([l.weight, l.jw.as_ref().map(|w| w[j]), format!("{:?}", l.pose[j])])).collect::<Vec<_>>()});
        for i in 0..3 {
            if !((got.t[i] as f64 - p.0[i]).abs() <= 3e-6 * mag.0 + 1e-7) {
                return fail("an additive layer does not add its weighted translation", detail);
            }
            // A scale divided by (almost) nothing is anything.
            if mag.1 < 1e4 * (1.0 + rm::len(rm::v3(b.s))) && !((got.s[i] as f64 - p.2[i]).abs() <= 2e-6 * mag.1 + 1e-7) {
                return fail("an additive layer does not scale by its weighted scale", detail);
            }
        }
        if !(rm::qdiff(rm::q4(got.r), p.1) <= 2e-5) {
            return fail("an additive layer does not compose its weighted rotation", detail);
        }
        c.ev("joints compared", 1);
    }
    c.ev("layers added", adds.iter().filter(|l| l.weight > 0.0).count() as u64);
    c.ev("layers subtracted", adds.iter().filter(|l| l.weight < 0.0).count() as u64);
    // A layer of weight zero changes nothing, wherever it is.
    let mut more = adds.clone();
    let mut zero = gen_add_layer(&mut c.rng, n);
    zero.weight = if c.rng.chance(0.5) { 0.0 } else { -0.0 };
    let at = c.rng.below(more.len() + 1);
    more.insert(at, zero);
    let mut with: Vec<SoaTransform> = (0..k).map(canary).collect();
    lib_ok(run_blend(&lib, &layers, &more, threshold, None, &mut with).0, "blending with a zero additive layer")?;
    ensure!(pose_bits(&out) == pose_bits(&with), "an additive layer of zero weight changes the pose", {"at": at});
    Ok(())
}

/// Adding and then subtracting layers gives the pose without them.
fn c10_inverse(c: &mut Case) -> R {
    let n = gen_count(&mut c.rng, 50);
    let skel = gen_skel(&mut c.rng, n);
    let lib = make_skel(&skel)?;
    let k = lib.num_soa_joints();
    let layers: Vec<Layer> = (0..c.rng.below(3)).map(|_| gen_layer(&mut c.rng, n, Some(&skel.rest))).collect();
    let mut adds: Vec<Layer> = Vec::new();
    for _ in 0..c.rng.range(1, 3) {
        let mut l = gen_add_layer(&mut c.rng, n);
        l.weight = l.weight.abs().min(1.0);
        // A scale that became (almost) nothing cannot be given back.
        l.jw.iter_mut().flatten().for_each(|w| *w = w.min(1.0));
        adds.push(l);
    }
    let mut both = adds.clone();
    for l in adds.iter().rev() {
        let mut m = l.clone();
        m.weight = -m.weight;
        both.push(m);
    }
    let mut base: Vec<SoaTransform> = (0..k).map(canary).collect();
    lib_ok(run_blend(&lib, &layers, &[], 0.1, None, &mut base).0, "blending")?;
    let mut out: Vec<SoaTransform> = (0..k).map(|i| canary(i + 9)).collect();
    lib_ok(run_blend(&lib, &layers, &both, 0.1, None, &mut out).0, "adding and subtracting")?;
    c.sig_u(bits_hash(&pose_bits(&out)));
    for j in 0..n {
        let (a, b) = (lane(&base[j / 4], j % 4), lane(&out[j / 4], j % 4));
        let m: f64 = adds.iter().map(|l| l.w(j) * rm::len(rm::v3(l.pose[j].t))).sum::<f64>() + rm::len(rm::v3(a.t));
        let ok = (0..3).all(|i| ((a.t[i] - b.t[i]).abs() as f64) < 1e-5 * m + 1e-6 && (a.s[i] - b.s[i]).abs() < 3e-5 * (a.s[i].abs() + 1e-3))
            && rm::qdiff(rm::q4(a.r), rm::q4(b.r)) < 2e-5;
        ensure!(ok, "adding and then subtracting a layer does not give the pose back", {"joint": j, "base": format!("{:?}", a), "got": format!("{:?}", b),
            "weights": adds.iter().map(|l| l.weight).collect::<Vec<_>>()});
        c.ev("joints given back", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- motion

fn motion(layers: &[MotionBlendingLayer], start: Transform3A) -> Result<Transform3A, Fail> {
    let mut job = MotionBlendingJob::default();
    job.set_output(start);
    job.layers_mut().extend(layers.iter().cloned());
    lib_ok(job.run(), "blending motions")?;
    // Running again gives the same.
    let a = job.output();
    lib_ok(job.run(), "blending motions again")?;
    ensure!(tbits(&a) == tbits(&job.output()), "running a motion blend again gives another motion", {});
    Ok(a)
}

pub fn tbits(t: &Transform3A) -> Vec<u32> {
    let mut v: Vec<f32> = t.translation.to_array().to_vec();
    v.extend(t.rotation.to_array());
    v.extend(t.scale.to_array());
    f32s(&v)
}

fn c11_reference(c: &mut Case) -> R {
    let n = if c.index % 300 == 7 { c.rng.range(6, 300) } else { c.rng.below(6) };
    let junk = tf3a(&gen_xf(&mut c.rng));
    let base = c.rng.quat();
    let similar = c.rng.chance(0.7);
    let (unit, wunit) = (gen_unit(&mut c.rng), *c.rng.pick(&[1.0f32, 1.0, 1.0, 1e-4, 1e-2, 1e3]));
    let mut layers = Vec::new();
    for _ in 0..n {
        let mut x = gen_xf(&mut c.rng);
        if c.rng.chance(0.15) {
            x.t = [0.0; 3];
        }
        if similar {
            let q: Vec<f64> = (0..4).map(|i| base[i] as f64 + 0.4 * x.r[i] as f64).collect();
            let q = rm::qnorm([q[0], q[1], q[2], q[3]]);
            let s = if c.rng.chance(0.5) { -1.0 } else { 1.0 };
            x.r = [(q[0] * s) as f32, (q[1] * s) as f32, (q[2] * s) as f32, (q[3] * s) as f32];
        }
        let k = unit * *c.rng.pick(&[1.0f32, 1.0, 0.01, 30.0]);
        x.t.iter_mut().for_each(|v| *v *= k);
        layers.push(MotionBlendingLayer { weight: wunit * gen_weight(&mut c.rng), delta: tf3a(&x) });
    }
    let out = motion(&layers, junk)?;
    let (mut acc, mut dl, mut dt, mut dr) = (0.0f64, 0.0f64, [0.0; 3], [0.0f64; 4]);
    let mut near = 1.0f64;
    for l in &layers {
        let w = l.weight as f64;
        if w <= 0.0 {
            continue;
        }
        let t = rm::v3(l.delta.translation.to_array());
        let len = rm::len(t);
        dl += w * len;
        if len > 0.0 {
            dt = rm::add(dt, rm::mul(t, w / len));
        }
        let r = rm::q4(l.delta.rotation.to_array());
        let d = rm::qdot(dr, r);
        if acc > 0.0 {
            near = near.min(d.abs() / rm::qlen(dr).max(1e-12));
        }
        dr = rm::qadd(dr, rm::qscale(r, if d >= 0.0 { w } else { -w }));
        acc += w;
    }
    let detail = json!({"layers": layers.iter().map(|l| format!("{:?}", l)).collect::<Vec<_>>(), "got": format!("{:?}", out)});
    c.sig_u(bits_hash(&tbits(&out)));
    c.sample = json!({"weights": layers.iter().map(|l| l.weight).collect::<Vec<_>>()});
    ensure!(out.scale == Vec3A::ONE, "the scale of a blended motion is not one", detail);
    if acc <= 0.0 {
        ensure!(out.translation == Vec3A::ZERO && out.rotation.to_array() == [0.0, 0.0, 0.0, 1.0], "a motion blend without effective layers is not the identity", detail);
        c.ev("empty blends", 1);
    } else {
        let got = rm::v3(out.translation.to_array());
        let dlen = rm::len(dt);
        if dl == 0.0 {
            ensure!(rm::len(got) == 0.0, "a motion blend of no translation translates", detail);
        } else if dlen > 1e-3 * acc {
            let want = rm::mul(dt, dl / (acc * dlen));
            let tol = (dl / acc) * 3e-6 * (acc / dlen) + 1e-30;
            ensure!(rm::len(rm::sub(got, want)) <= tol, "the translation of a blended motion is not the weighted direction and length", {"want": want, "case": detail});
            c.ev("translations compared", 1);
        } else {
            ensure!(got.iter().all(|x| x.is_finite()), "the translation of a blended motion is not finite", detail);
        }
        let q = rm::q4(out.rotation.to_array());
        let len = rm::qlen(dr) / acc;
        if near > 1e-4 && len > 1e-2 {
            ensure!(rm::qdiff(q, rm::qnorm(dr)) <= 1e-5 / len, "the rotation of a blended motion is not the weighted same-hemisphere sum", {"want": rm::qnorm(dr), "case": detail});
            c.ev("rotations compared", 1);
        }
        if len > 1e-3 {
            ensure!((rm::qlen(q) - 1.0).abs() < 1e-5, "the rotation of a blended motion is not unit", detail);
        }
    }
    // Layers of no weight change nothing.
    let mut more = layers.clone();
    let w = if c.rng.chance(0.5) { 0.0 } else { -c.rng.f32(0.0, 2.0) };
    let at = c.rng.below(more.len() + 1);
    more.insert(at, MotionBlendingLayer { weight: w, delta: tf3a(&gen_xf(&mut c.rng)) });
    let b = motion(&more, junk)?;
    ensure!(tbits(&out) == tbits(&b), "a motion layer of zero or negative weight changes the blended motion", {"weight": w, "at": at, "case": detail});
    // Scaling all weights by a power of two changes nothing at all.
    let k = *c.rng.pick(&[0.25f32, 0.5, 2.0, 64.0]);
    let scaled: Vec<_> = layers.iter().map(|l| MotionBlendingLayer { weight: l.weight * k, delta: l.delta }).collect();
    let b = motion(&scaled, Transform3A::IDENTITY)?;
    if near > 1e-4 {
        let d = rm::len(rm::sub(rm::v3(out.translation.to_array()), rm::v3(b.translation.to_array())));
        let dlen = rm::len(dt) / acc.max(1e-30);
        if acc <= 0.0 || dlen > 1e-3 {
            ensure!(d <= 1e-5 * (dl / acc.max(1e-30)) / dlen.max(1e-3) + 1e-30 && rm::qdiff(rm::q4(out.rotation.to_array()), rm::q4(b.rotation.to_array())) <= 1e-4,
                "scaling all weights together changes the blended motion", {"factor": k, "scaled": format!("{:?}", b), "case": detail});
            c.ev("weights scaled together", 1);
        }
    }
    Ok(())
}

pub const GROUPS: &[Group] = &[
    Group { prop: "C09", name: "reference", quick: 60_000, thorough: 4_000_000, serial: false, exhaustive: false,
        rule: "random skeletons (1 to 70 joints), zero to five layers of positive, zero and negative weight with and without per-joint weights, thresholds from 0.001 to 2, new, oddly sized and used contexts; every joint against a double-precision weighted average; blended again and with ineffective layers added, bit for bit; distinct by the blended pose",
        f: c09_reference },
    Group { prop: "C09", name: "rest", quick: 20_000, thorough: 500_000, serial: false, exhaustive: false,
        rule: "no layers, or layers without effective weight: every joint at its rest pose, output as long as the skeleton or longer",
        f: c09_rest },
    Group { prop: "C09", name: "shipped", quick: 300, thorough: 20_000, serial: false, exhaustive: false,
        rule: "the shipped clips blended at random ratios and weights on the shipped skeletons", f: c09_shipped },
    Group { prop: "C10", name: "reference", quick: 60_000, thorough: 4_000_000, serial: false, exhaustive: false,
        rule: "one to four additive layers of positive and negative weight, with and without per-joint weights, over a blended pose; every joint against the deltas composed in double precision; a zero layer inserted changes no bit; distinct by the pose",
        f: c10_reference },
    Group { prop: "C10", name: "inverse", quick: 40_000, thorough: 2_000_000, serial: false, exhaustive: false,
        rule: "layers added and subtracted in reverse order give the pose without them, up to rounding", f: c10_inverse },
    Group { prop: "C11", name: "reference", quick: 300_000, thorough: 20_000_000, serial: false, exhaustive: false,
        rule: "zero to five motion layers with positive, zero and negative weights, zero and large translations, similar and arbitrary rotations; against double precision; ineffective layers change no bit; weights scaled together; distinct by the result",
        f: c11_reference },
];
