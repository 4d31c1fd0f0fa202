//! Deterministic random programs over the whole public interface. A program is a function of a seed; it leaves a trace of
//! digests, one per step, of everything the library returned. C23, C24 and C25 run the same programs under different conditions.
//!
//! The inputs of a program come from integer arithmetic and correctly rounded operations only, so that they are the same on
//! every host; the trace holds a digest of the inputs too, by which that is checked.

use crate::author::*;
use crate::fw::Fail;
use crate::p_assets::{rkyv_back, rkyv_bytes};
use crate::p_blend::gen_jw;
use crate::p_ik::gen_aim;
use crate::p_jobs::{gen_spec, make, mutate, KArc, KRc, KSlice, KVec};
use crate::p_sampling::Walk;
use crate::p_skin::{gen_affine, gen_mesh, run_skin};
use crate::p_track::gen_edge_track;
use crate::rm;
use crate::rng::{hash_bytes, Rng};
use crate::util::*;
use glam::{Mat4, Quat, Vec2, Vec3, Vec3A, Vec4};
use ozz_animation_rs::math::*;
use ozz_animation_rs::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, RwLock};

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub name: &'static str,
    pub digest: u64,
    /// May differ between builds for this target (raw bytes in an order or layout that is not promised).
    pub raw: bool,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Trace {
    pub inputs: u64,
    pub steps: Vec<Step>,
}

/// Collects the words of one step.
pub struct D(u64);
impl D {
    pub fn new() -> D {
        D(0x9E3779B97F4A7C15)
    }
    pub fn end(self) -> u64 {
        self.0
    }
    pub fn u(&mut self, v: u64) {
        let mut x = self.0 ^ v.wrapping_mul(0xD1342543DE82EF95);
        self.0 = crate::rng::splitmix(&mut x);
    }
    /// All not-a-number values are one: their bits are not the library's to choose.
    pub fn f(&mut self, v: f32) {
        self.u(if v.is_nan() { 0x7FC0_0000 } else { v.to_bits() as u64 });
    }
    pub fn fs(&mut self, v: &[f32]) {
        v.iter().for_each(|x| self.f(*x));
    }
    pub fn words(&mut self, v: &[u32]) {
        v.iter().for_each(|x| self.f(f32::from_bits(*x)));
    }
    pub fn s(&mut self, v: &str) {
        self.u(hash_bytes(1, v.as_bytes()));
    }
    pub fn b(&mut self, v: &[u8]) {
        self.u(hash_bytes(2, v));
    }
}

impl Trace {
    fn put(&mut self, name: &'static str, d: D) {
        self.steps.push(Step { name, digest: d.0, raw: false });
    }
    fn put_raw(&mut self, name: &'static str, d: D) {
        self.steps.push(Step { name, digest: d.0, raw: true });
    }
    fn input(&mut self, words: &[u32]) {
        for w in words {
            let mut x = self.inputs ^ (*w as u64).wrapping_mul(0x9FB21C651E98DF25);
            self.inputs = crate::rng::splitmix(&mut x);
        }
    }
    fn input_bytes(&mut self, b: &[u8]) {
        self.inputs = hash_bytes(self.inputs, b);
    }
    /// The first step at which two traces of the same program part.
    pub fn differs(&self, other: &Trace, raw: bool) -> Option<(usize, &'static str)> {
        for (i, s) in self.steps.iter().enumerate() {
            match other.steps.get(i) {
                None => return Some((i, s.name)),
                Some(o) if o.name != s.name => return Some((i, s.name)),
                Some(o) if o.digest != s.digest && (raw || !s.raw) => return Some((i, s.name)),
                _ => {}
            }
        }
        (other.steps.len() != self.steps.len()).then(|| (self.steps.len(), "more steps"))
    }
}

// ---------------------------------------------------------------- assets

/// What a program works on, as archives.
#[derive(Clone)]
pub struct Assets {
    pub skel: Vec<u8>,
    pub joints: usize,
    pub names: Vec<String>,
    pub anims: Vec<(Vec<u8>, Vec<f32>)>,
    pub tracks: [Vec<u8>; 5],
    pub edges: Vec<u8>,
}

pub struct World {
    pub a: Assets,
    pub skel: Skeleton,
    pub anims: Vec<Animation>,
    pub f1: Track<f32>,
    pub f2: Track<Vec2>,
    pub f3: Track<Vec3>,
    pub f4: Track<Vec4>,
    pub q: Track<Quat>,
    pub edges: Track<f32>,
}

pub fn gen_assets(r: &mut Rng, small: bool) -> Assets {
    let joints = if small { r.range(1, 6) } else { gen_count(r, 70) };
    let skel = gen_skel(r, joints);
    let n = if small { 1 } else { r.range(2, 4) };
    let mut anims = Vec::new();
    for k in 0..n {
        let tracks = if k == 0 || small { joints } else { gen_count(r, 70) };
        let max_keys = if small { r.range(2, 4) } else { r.range(2, 10) };
        let (wild, flips) = (r.chance(0.1), r.chance(0.3));
        let mut a;
        let b = loop {
            a = gen_anim(r, &AnimOpts { tracks, max_keys, wild, flips });
            if small {
                a.pad_timepoints = if r.chance(0.25) { 256 } else { 0 };
            }
            if let Some(b) = a.build() {
                break b;
            }
        };
        anims.push((b.write(r.chance(0.2)), b.timepoints.clone()));
    }
    let keys = if small { 5 } else { 24 };
    let tracks = [0, 1, 2, 3, 4].map(|k| {
        let t = gen_trk(r, k, keys);
        or_empty(r, t, 0.04).write(false)
    });
    let edges = gen_edge_track(r, false).write(false);
    Assets { skel: skel.write(r.chance(0.2)), joints, names: skel.names.clone(), anims, tracks, edges }
}

pub fn load_world(a: &Assets) -> Result<World, Fail> {
    let ok = "loading a generated asset";
    let mut anims = Vec::new();
    for (b, _) in &a.anims {
        anims.push(lib_ok(load_anim(b), ok)?);
    }
    Ok(World {
        a: a.clone(),
        skel: lib_ok(load_skel(&a.skel), ok)?,
        anims,
        f1: lib_ok(load_track(&a.tracks[0]), ok)?,
        f2: lib_ok(load_track(&a.tracks[1]), ok)?,
        f3: lib_ok(load_track(&a.tracks[2]), ok)?,
        f4: lib_ok(load_track(&a.tracks[3]), ok)?,
        q: lib_ok(load_track(&a.tracks[4]), ok)?,
        edges: lib_ok(load_track(&a.edges), ok)?,
    })
}

// ---------------------------------------------------------------- programs

#[derive(Clone, Copy)]
pub struct Opts {
    pub steps: usize,
    pub small: bool,
    /// Values that are not finite and damaged archives too.
    pub hostile: bool,
}

struct P<'w> {
    w: &'w World,
    r: Rng,
    t: Trace,
    o: Opts,
    /// Contexts, with the index of the animation they were used on last.
    ctxs: Vec<(SamplingContext, usize)>,
    poses: Vec<Vec<SoaTransform>>,
    models: Vec<Mat4>,
    walk: Walk,
    max_soa: usize,
}

fn res<T>(d: &mut D, r: &Result<T, OzzError>) {
    d.s(match r {
        Ok(_) => "ok",
        Err(e) => err_name(e),
    });
}

fn xf3(r: &mut Rng, k: f32) -> Vec3A {
    Vec3A::from_array(r.vec3(k))
}

/// A document without what is not promised to be the same everywhere, with the entries of maps in order.
fn canonical(v: &mut serde_json::Value) {
    if let serde_json::Value::Object(m) = v {
        m.remove("size");
    }
}

fn json_digest<T: serde::Serialize>(d: &mut D, x: &T) {
    let mut v = serde_json::to_value(x).expect("serde");
    canonical(&mut v);
    d.s(&v.to_string());
}

fn anim_digest(d: &mut D, a: &Animation) {
    d.u(a.num_tracks() as u64);
    d.u(a.num_soa_tracks() as u64);
    d.u(a.num_aligned_tracks() as u64);
    d.f(a.duration());
    d.s(a.name());
    d.fs(a.timepoints());
    json_digest(d, a);
}

impl<'w> P<'w> {
    fn ratio(&mut self, anim: usize) -> f32 {
        if self.o.hostile && self.r.chance(0.05) {
            return *self.r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -1.0, 7.5, f32::MIN_POSITIVE, -0.0]);
        }
        self.walk.next(&mut self.r, &self.w.a.anims[anim].1)
    }

    fn num(&mut self, lo: f32, hi: f32) -> f32 {
        if self.o.hostile && self.r.chance(0.04) {
            return *self.r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 0.0, -0.0, 1e30, -1e30, 1e-40]);
        }
        self.r.f32(lo, hi)
    }

    fn context(&mut self, anim: usize) -> usize {
        let need = self.w.anims[anim].num_tracks();
        let fits: Vec<usize> = (0..self.ctxs.len()).filter(|i| self.ctxs[*i].0.max_tracks() >= need).collect();
        if fits.is_empty() || self.ctxs.len() < 3 && self.r.chance(0.2) {
            let c = match self.r.below(3) {
                0 => SamplingContext::from_animation(&self.w.anims[anim]),
                1 => SamplingContext::new(need),
                _ => SamplingContext::new(need + self.r.below(40)),
            };
            if self.ctxs.len() >= 3 {
                let k = self.r.below(3);
                self.ctxs[k] = (c, anim);
                return k;
            }
            self.ctxs.push((c, anim));
            return self.ctxs.len() - 1;
        }
        fits[self.r.below(fits.len())]
    }

    fn state(&mut self, c: &SamplingContext) {
        let mut d = D::new();
        json_digest(&mut d, &c.clone_without_animation_id());
        d.u(c.max_tracks() as u64);
        d.f(c.ratio());
        self.t.put("state of a sampling context", d);
    }

    fn sample(&mut self) {
        let k = self.r.below(self.w.anims.len());
        let ratio = self.ratio(k);
        let c = self.context(k);
        self.t.input(&[k as u32, ratio.to_bits()]);
        let anim = &self.w.anims[k];
        let n = anim.num_soa_tracks();
        let p = self.r.below(self.poses.len());
        let mut d = D::new();
        {
            let (ctx, last) = &mut self.ctxs[c];
            *last = k;
            let mut job: SamplingJobRef = SamplingJob::default();
            job.set_animation(anim);
            job.set_context(ctx);
            job.set_ratio(ratio);
            job.set_output(&mut self.poses[p]);
            let r = job.run();
            res(&mut d, &r);
            if self.r.chance(0.1) {
                res(&mut d, &job.run());
            }
        }
        d.words(&pose_bits(&self.poses[p][..n]));
        self.t.put("sampling", d);
    }

    fn contexts(&mut self) {
        if self.ctxs.is_empty() {
            return;
        }
        let k = self.r.below(self.ctxs.len());
        let what = self.r.below(9);
        match what {
            0 => {
                let c = self.ctxs[k].0.clone();
                let mut d = D::new();
                d.u((c == self.ctxs[k].0) as u64);
                self.t.put("comparing a context with its clone", d);
                self.ctxs[k].0 = c;
            }
            1 => self.ctxs[k].0.clear(),
            2 => {
                let v = serde_json::to_string(&self.ctxs[k].0).expect("serde");
                self.ctxs[k].0 = serde_json::from_str(&v).expect("serde");
            }
            3 => {
                let b = rkyv_bytes(&self.ctxs[k].0);
                self.ctxs[k].0 = rkyv_back(&b);
                // Not the identity, which is an address; only contexts without it have comparable bytes.
                let b = rkyv_bytes(&self.ctxs[k].0.clone_without_animation_id());
                let mut d = D::new();
                d.b(&b);
                self.t.put_raw("rkyv bytes of a context", d);
            }
            4 => {
                let v = bincode::serialize(&self.ctxs[k].0).expect("bincode");
                self.ctxs[k].0 = bincode::deserialize(&v).expect("bincode");
            }
            5 => {
                self.ctxs.remove(k);
                return;
            }
            6 => {
                let c = SamplingContext::new(self.r.below(if self.o.small { 9 } else { 100 }));
                self.state(&c);
                if c.max_tracks() > 0 && self.ctxs.len() < 4 {
                    self.ctxs.push((c, 0));
                }
                return;
            }
            _ => {}
        }
        let c = self.ctxs[k].0.clone();
        self.state(&c);
    }

    fn blend(&mut self) {
        let soa = self.w.skel.num_soa_joints();
        let (nl, na) = (self.r.below(4), self.r.below(3));
        let mut weights = Vec::new();
        for k in 0..nl + na {
            let w = match self.r.below(6) {
                0 => 0.0,
                1 => self.num(-1.0, 0.0),
                _ => self.num(0.01, 1.2),
            };
            let jw = if self.r.chance(0.4) { gen_jw(&mut self.r, soa * 4) } else { vec![] };
            let p = self.r.below(self.poses.len());
            self.t.input(&[k as u32, w.to_bits()]);
            self.t.input(&f32s(&jw));
            weights.push((p, w, jw));
        }
        let threshold = *self.r.pick(&[0.1f32, 0.01, 0.5, 1.0]);
        let mut out = vec![SoaTransform::default(); soa];
        let mut d = D::new();
        {
            let mut job: BlendingJobRef = BlendingJob::default();
            job.set_skeleton(&self.w.skel);
            job.set_threshold(threshold);
            if self.r.chance(0.3) {
                job.set_context(BlendingContext::new(self.r.below(soa + 3)));
            }
            for (i, (p, w, jw)) in weights.iter().enumerate() {
                let jw = jw.chunks(4).map(|c| Vec4::new(c[0], c[1], c[2], c[3])).collect();
                let l = BlendingLayer { transform: &self.poses[*p][..], weight: *w, joint_weights: jw };
                if i < nl {
                    job.layers_mut().push(l);
                } else {
                    job.additive_layers_mut().push(l);
                }
            }
            job.set_output(&mut out);
            res(&mut d, &job.run());
            if self.r.chance(0.2) {
                res(&mut d, &job.run());
            }
        }
        d.words(&pose_bits(&out));
        self.t.put("blending", d);
        let p = self.r.below(self.poses.len());
        let ok = out.iter().all(|s| soa_bits(s).iter().all(|w| f32::from_bits(*w).abs() < 1e6));
        if ok || self.o.hostile {
            self.poses[p][..soa].copy_from_slice(&out);
        }
    }

    fn l2m(&mut self) {
        let p = self.r.below(self.poses.len());
        let n = self.w.skel.num_joints();
        let full = self.r.chance(0.5);
        let pick = |r: &mut Rng| match r.below(5) {
            0 => *r.pick(&[-1i32, 0, i32::MAX, i32::MIN, 1024]),
            _ => r.irange(-1, n as i64) as i32,
        };
        let (from, to, ex) = if full { (-1, i32::MAX, false) } else { (pick(&mut self.r), pick(&mut self.r), self.r.chance(0.3)) };
        let root = self.r.chance(0.3).then(|| gen_affine(&mut self.r));
        self.t.input(&[from as u32, to as u32, ex as u32]);
        if let Some(m) = &root {
            self.t.input(&mats_bits(&[*m]));
        }
        let mut d = D::new();
        {
            let mut job: LocalToModelJobRef = LocalToModelJob::default();
            job.set_skeleton(&self.w.skel);
            job.set_input(&self.poses[p]);
            if let Some(m) = &root {
                job.set_root(m);
            }
            job.set_from(from);
            job.set_to(to);
            job.set_from_excluded(ex);
            job.set_output(&mut self.models);
            res(&mut d, &job.run());
        }
        d.words(&mats_bits(&self.models));
        self.t.put("local to model", d);
    }

    fn two_bone(&mut self) {
        let r = &mut self.r;
        let (start, mid, end) = if r.chance(0.2) && self.models.len() > 2 && !self.o.hostile {
            let k = r.below(self.models.len() - 2);
            (self.models[k], self.models[k + 1], self.models[k + 2])
        } else {
            let (a, b) = (r.f32(0.3, 2.0) as f64, r.f32(0.3, 2.0) as f64);
            let c = r.f32(-0.99, 0.99) as f64;
            let s = (1.0 - c * c).sqrt();
            let k = *r.pick(&[1.0f64, 1.0, 0.5, 2.0]);
            let world = rm::affine(rm::v3(r.vec3(3.0)), rm::q4(r.quat()), [k; 3]);
            let at = |p: rm::V3, q: [f32; 4]| rm::mto(&rm::mmul(&world, &rm::affine(p, rm::q4(q), [1.0; 3])));
            (at([0.0; 3], r.quat()), at([a, 0.0, 0.0], r.quat()), at([a - b * c, b * s, 0.0], r.quat()))
        };
        let mut job = IKTwoBoneJob::default();
        job.set_start_joint(start);
        job.set_mid_joint(mid);
        job.set_end_joint(end);
        let axis = Vec3A::from_array(r.unit3());
        job.set_mid_axis(axis);
        let target = xf3(r, 4.0);
        job.set_target(target);
        let pole = xf3(r, 1.0);
        job.set_pole_vector(pole);
        let (twist, soften, weight) = (self.num(-4.0, 4.0), self.num(0.0, 1.1), self.num(-0.1, 1.2));
        job.set_twist_angle(twist);
        job.set_soften(soften);
        job.set_weight(weight);
        self.t.input(&mats_bits(&[start, mid, end]));
        self.t.input(&f32s(&[twist, soften, weight, target.x, target.y, target.z, pole.x, axis.x]));
        let mut d = D::new();
        res(&mut d, &job.run());
        d.fs(&job.start_joint_correction().to_array());
        d.fs(&job.mid_joint_correction().to_array());
        d.u(job.reached() as u64);
        self.t.put("two-bone IK", d);
    }

    fn aim(&mut self) {
        let (a, _) = gen_aim(&mut self.r);
        let mut job = IKAimJob::default();
        job.set_joint(a.joint);
        job.set_target(a.target);
        job.set_forward(a.forward);
        job.set_offset(a.offset);
        job.set_up(a.up);
        job.set_pole_vector(a.pole);
        let (twist, weight) = (self.num(-4.0, 4.0), self.num(-0.1, 1.2));
        job.set_twist_angle(twist);
        job.set_weight(weight);
        self.t.input(&mats_bits(&[a.joint]));
        self.t.input(&f32s(&[twist, weight, a.target.x, a.forward.y, a.offset.z, a.up.x, a.pole.y]));
        let mut d = D::new();
        res(&mut d, &job.run());
        d.fs(&job.joint_correction().to_array());
        d.u(job.reached() as u64);
        self.t.put("aim IK", d);
    }

    fn skin(&mut self) {
        let m = loop {
            let m = gen_mesh(&mut self.r);
            if !self.o.small || m.n * m.inf < 40 && m.mats.len() < 12 {
                break m;
            }
        };
        self.t.input(&mats_bits(&m.mats));
        self.t.input(&f32s(&m.w));
        let s = run_skin(&m, self.r.below(3));
        let mut d = D::new();
        res(&mut d, &s.res);
        for v in s.p.iter().chain(&s.nm).chain(&s.tg) {
            d.fs(&v.to_array());
        }
        self.t.put("skinning", d);
    }

    fn track<V: TrackVal>(&mut self, t: &Track<V>) {
        let mut job: TrackSamplingJobRef<V> = TrackSamplingJob::default();
        job.set_track(t);
        let mut d = D::new();
        for _ in 0..self.r.range(1, 5) {
            let ratio = if self.r.chance(0.3) && t.key_count() > 0 { t.ratios()[self.r.below(t.key_count())] } else { self.num(-0.2, 1.2) };
            self.t.input(&[ratio.to_bits()]);
            job.set_ratio(ratio);
            res(&mut d, &job.run());
            d.fs(&job.result().comps());
        }
        self.t.put("track sampling", d);
    }

    fn triggering(&mut self) {
        let (a, b) = (self.r.f32(-3.0, 3.0), self.r.f32(-3.0, 3.0));
        let th = self.r.range(0, 7) as f32 * 0.5 + 0.25;
        self.t.input(&f32s(&[a, b, th]));
        let mut job: TrackTriggeringJobRef = TrackTriggeringJob::default();
        job.set_track(&self.w.edges);
        job.set_from(a);
        job.set_to(b);
        job.set_threshold(th);
        let mut d = D::new();
        match job.run() {
            Ok(it) => {
                for e in it.take(10_000) {
                    let e = serde_json::to_value(e).unwrap();
                    d.f(e["ratio"].as_f64().unwrap_or(f64::NAN) as f32);
                    d.u(e["rising"].as_bool().unwrap_or(false) as u64);
                }
            }
            Err(e) => d.s(err_name(&e)),
        }
        self.t.put("track triggering", d);
    }

    fn motion(&mut self) {
        let mut job = MotionBlendingJob::default();
        for _ in 0..self.r.below(5) {
            let x = gen_xf(&mut self.r);
            let w = self.num(-0.2, 1.5);
            self.t.input(&f32s(&x.t));
            self.t.input(&f32s(&[w]));
            job.layers_mut().push(MotionBlendingLayer { weight: w, delta: tf3a(&x) });
        }
        let mut d = D::new();
        res(&mut d, &job.run());
        let o = job.output();
        d.fs(&o.translation.to_array());
        d.fs(&o.rotation.to_array());
        d.fs(&o.scale.to_array());
        self.t.put("motion blending", d);
    }

    fn skeleton(&mut self) {
        let s = &self.w.skel;
        let mut d = D::new();
        d.u(s.num_joints() as u64);
        d.u(s.num_soa_joints() as u64);
        let from = self.r.irange(-1, s.num_joints() as i64 - 1) as i32;
        s.iter_depth_first(from, |a, b| {
            d.u(a as u64);
            d.u(b as u16 as u64);
        });
        s.iter_depth_first_reverse(|a, b| {
            d.u(a as u64);
            d.u(b as u16 as u64);
        });
        for j in 0..s.num_joints() {
            d.u(s.is_leaf(j as i16) as u64);
            d.u(s.joint_parent(j as i16) as u16 as u64);
            d.s(s.name_by_joint(j as i16).unwrap_or("\u{1}none"));
        }
        d.s(s.name_by_joint(s.num_joints() as i16).unwrap_or("\u{1}none"));
        for n in &self.w.a.names {
            d.u(s.joint_by_name(n).map_or(u64::MAX, |j| j as u64));
        }
        d.u(s.joint_by_name("no such joint").map_or(u64::MAX, |j| j as u64));
        d.words(&pose_bits(s.joint_rest_poses()));
        self.t.put("skeleton queries", d);
    }

    fn assets(&mut self) -> Result<(), Fail> {
        let k = self.r.below(self.w.anims.len());
        let a = &self.w.anims[k];
        let name;
        let mut d = D::new();
        match self.r.below(8) {
            0 => {
                name = "an animation through CBOR";
                let mut bytes = Vec::new();
                ciborium::into_writer(a, &mut bytes).expect("CBOR");
                let b: Animation = ciborium::from_reader(bytes.as_slice()).expect("CBOR");
                anim_digest(&mut d, &b);
                let p = sample_fresh(&b, self.ratio(k))?;
                d.words(&pose_bits(&p));
            }
            1 => {
                name = "an animation through serde";
                let b: Animation = match self.r.below(2) {
                    0 => serde_json::from_str(&serde_json::to_string(a).expect("serde")).expect("serde"),
                    _ => bincode::deserialize(&bincode::serialize(a).expect("bincode")).expect("bincode"),
                };
                anim_digest(&mut d, &b);
                let p = sample_fresh(&b, self.ratio(k))?;
                d.words(&pose_bits(&p));
            }
            2 => {
                name = "an animation through rkyv";
                let b: Animation = rkyv_back(&rkyv_bytes(a));
                anim_digest(&mut d, &b);
                let p = sample_fresh(&b, self.ratio(k))?;
                d.words(&pose_bits(&p));
            }
            3 => {
                name = "loading an animation again";
                let b = lib_ok(load_anim(&self.w.a.anims[k].0), "loading")?;
                anim_digest(&mut d, &b);
            }
            4 => {
                name = "a skeleton through serde";
                let text = serde_json::to_string(&self.w.skel).expect("serde");
                let s: Skeleton = serde_json::from_str(&text).expect("serde");
                json_digest(&mut d, &s);
                let mut e = D::new();
                e.s(&text);
                self.t.put_raw("serde text of a skeleton", e);
            }
            5 => {
                name = "a skeleton through rkyv";
                let b = rkyv_bytes(&self.w.skel);
                let s: Skeleton = rkyv_back(&b);
                json_digest(&mut d, &s);
                let mut e = D::new();
                e.b(&b);
                self.t.put_raw("rkyv bytes of a skeleton", e);
            }
            6 => {
                name = "loading a skeleton again";
                let s = lib_ok(load_skel(&self.w.a.skel), "loading")?;
                json_digest(&mut d, &s);
                d.words(&pose_bits(s.joint_rest_poses()));
            }
            _ => {
                name = "a track through serde and rkyv";
                let t: Track<Quat> = rkyv_back(&rkyv_bytes(&self.w.q));
                json_digest(&mut d, &t);
                let t: Track<f32> = serde_json::from_str(&serde_json::to_string(&self.w.f1).expect("serde")).expect("serde");
                json_digest(&mut d, &t);
                self.track(&t);
            }
        }
        self.t.put(name, d);
        Ok(())
    }

    /// Loading what is cut short or damaged.
    fn damaged(&mut self) {
        let k = self.r.below(4);
        let mut b = match k {
            0 => self.w.a.skel.clone(),
            1 => self.w.a.anims[self.r.below(self.w.a.anims.len())].0.clone(),
            _ => self.w.a.tracks[self.r.below(5)].clone(),
        };
        let n = self.r.below(b.len() + 1);
        b.truncate(n);
        let mut d = D::new();
        match k {
            0 => res(&mut d, &load_skel(&b)),
            1 => res(&mut d, &load_anim(&b)),
            _ => {
                res(&mut d, &load_track::<f32>(&b));
                res(&mut d, &load_track::<Quat>(&b));
            }
        }
        if let Ok(mut ar) = Archive::from_slice(&b) {
            res(&mut d, &ar.read_tag());
            res(&mut d, &ar.read::<u32>());
            res(&mut d, &ar.read_vec::<Vec3>(2));
            let v = ar.read::<bool>();
            res(&mut d, &v);
            if let Ok(v) = v {
                d.u(v as u64);
            }
        }
        self.t.put("loading a truncated archive", d);
    }

    /// Jobs over every kind of buffer, some of them not acceptable.
    fn kinds(&mut self) -> Result<(), Fail> {
        let which = self.r.below(4);
        let mut s = loop {
            let s = gen_spec(&mut self.r, which);
            if !self.o.small || s.small() {
                break s;
            }
        };
        if self.o.hostile {
            for _ in 0..self.r.below(3) {
                mutate(&mut self.r, &mut s);
            }
        }
        let mut m = match self.r.below(4) {
            0 => make::<KSlice>(&s)?,
            1 => make::<KVec>(&s)?,
            2 => make::<KRc>(&s)?,
            _ => make::<KArc>(&s)?,
        };
        let mut d = D::new();
        d.u(m.job.validate() as u64);
        res(&mut d, &m.job.run());
        for o in m.job.outs() {
            d.words(&o);
        }
        self.t.put("a job over some kind of buffers", d);
        Ok(())
    }

    /// A short pipeline of owning jobs over shared buffers.
    fn pipeline(&mut self) -> Result<(), Fail> {
        let k = self.r.below(self.w.anims.len());
        let anim = &self.w.anims[k];
        let ratio = self.ratio(k);
        let soa = self.w.skel.num_soa_joints().max(anim.num_soa_tracks());
        let mut d = D::new();
        if self.r.chance(0.5) {
            let skel: Rc<Skeleton> = Rc::new(lib_ok(load_skel(&self.w.a.skel), "loading")?);
            let locals = ozz_rc_buf(vec![SoaTransform::default(); soa]);
            let blended = ozz_rc_buf(vec![SoaTransform::default(); soa]);
            let models: Rc<RefCell<Vec<Mat4>>> = ozz_rc_buf(vec![Mat4::default(); skel.num_joints()]);
            let mut s: SamplingJobRc = SamplingJob::default();
            s.set_animation(Rc::new(lib_ok(load_anim(&self.w.a.anims[k].0), "loading")?));
            s.set_context(SamplingContext::new(anim.num_tracks()));
            s.set_output(locals.clone());
            s.set_ratio(ratio);
            let mut b: BlendingJobRc = BlendingJob::default();
            b.set_skeleton(skel.clone());
            b.layers_mut().push(BlendingLayer::with_weight(locals.clone(), 0.7));
            b.set_output(blended.clone());
            let mut l: LocalToModelJobRc = LocalToModelJob::default();
            l.set_skeleton(skel);
            l.set_input(blended);
            l.set_output(models.clone());
            res(&mut d, &s.run());
            res(&mut d, &b.run());
            res(&mut d, &l.run());
            d.words(&mats_bits(&models.borrow()));
        } else {
            let skel: Arc<Skeleton> = Arc::new(lib_ok(load_skel(&self.w.a.skel), "loading")?);
            let locals = ozz_arc_buf(vec![SoaTransform::default(); soa]);
            let models: Arc<RwLock<Vec<Mat4>>> = ozz_arc_buf(vec![Mat4::default(); skel.num_joints()]);
            let mut s: SamplingJobArc = SamplingJob::default();
            s.set_animation(Arc::new(lib_ok(load_anim(&self.w.a.anims[k].0), "loading")?));
            s.set_context(SamplingContext::new(anim.num_tracks()));
            s.set_output(locals.clone());
            s.set_ratio(ratio);
            let mut l: LocalToModelJobArc = LocalToModelJob::default();
            l.set_skeleton(skel);
            l.set_input(locals.clone());
            l.set_output(models.clone());
            res(&mut d, &s.run());
            res(&mut d, &l.run());
            let c = s.take_context();
            res(&mut d, &s.run());
            if let Some(c) = c {
                s.set_context(c);
            }
            res(&mut d, &s.run());
            d.words(&pose_bits(&locals.read().unwrap()));
            d.words(&mats_bits(&models.read().unwrap()));
        }
        self.t.put("a pipeline over shared buffers", d);
        Ok(())
    }

    fn math(&mut self) {
        let mut d = D::new();
        for _ in 0..8 {
            let k = *self.r.pick(&[1.0f32, 10.0, 1000.0]);
            let x = self.num(-k, k);
            self.t.input(&[x.to_bits()]);
            let (s, c) = f32_sin_cos(x);
            d.fs(&[s, c, f32_sin(x), f32_cos(x), f32_asin(x), f32_acos(x)]);
        }
        let q = |r: &mut Rng| SoaQuat::new([0; 4].map(|_| r.f32(-1.0, 1.0)), [0; 4].map(|_| r.f32(-1.0, 1.0)), [0; 4].map(|_| r.f32(-1.0, 1.0)), [0; 4].map(|_| r.f32(-1.0, 1.0)));
        let (a, b) = (q(&mut self.r), q(&mut self.r));
        let f = std::simd::f32x4::from_array([0; 4].map(|_| self.r.f32(0.0, 1.0)));
        let mut put = |q: &SoaQuat| {
            d.fs(q.x.as_array());
            d.fs(q.y.as_array());
            d.fs(q.z.as_array());
            d.fs(q.w.as_array());
        };
        put(&a.mul(&b));
        put(&a.add(&b).normalize());
        put(&a.nlerp(&b, f));
        put(&a.conjugate().positive_w());
        let x = gen_xf(&mut self.r);
        let s = SoaVec3::new(x.r, [x.t[0], x.t[1], x.t[2], x.s[0]], x.r);
        let m = SoaMat4::from_affine(&s, &a.normalize(), &s.mul_num(f));
        m.cols.iter().for_each(|c| d.fs(c.as_array()));
        self.t.put("helpers", d);
    }
}

pub fn run_program(w: &World, rng: Rng, o: Opts) -> Result<Trace, Fail> {
    let max_soa = w.anims.iter().map(|a| a.num_soa_tracks()).max().unwrap_or(0).max(w.skel.num_soa_joints());
    let mut r = rng;
    let poses = (0..3).map(|_| soa_vec(&(0..max_soa * 4).map(|_| gen_xf(&mut r)).collect::<Vec<Xf>>())).collect();
    let mut p = P {
        w,
        r,
        t: Trace::default(),
        o,
        ctxs: vec![],
        poses,
        models: vec![Mat4::IDENTITY; w.skel.num_joints()],
        walk: Walk::new(),
        max_soa,
    };
    p.t.input_bytes(&w.a.skel);
    w.a.anims.iter().for_each(|a| p.t.input_bytes(&a.0));
    w.a.tracks.iter().for_each(|a| p.t.input_bytes(a));
    p.t.input_bytes(&w.a.edges);
    for s in 0..p.max_soa.min(3) {
        let b = soa_bits(&p.poses[0][s]);
        p.t.input(&b);
    }
    for _ in 0..o.steps {
        match p.r.below(30) {
            0..=6 => p.sample(),
            7..=9 => p.contexts(),
            10..=12 => p.blend(),
            13..=15 => p.l2m(),
            16 => p.two_bone(),
            17 => p.aim(),
            18 => p.skin(),
            19 => {
                let w = p.w;
                match p.r.below(5) {
                    0 => p.track(&w.f1),
                    1 => p.track(&w.f2),
                    2 => p.track(&w.f3),
                    3 => p.track(&w.f4),
                    _ => p.track(&w.q),
                }
            }
            20 => p.triggering(),
            21 => p.motion(),
            22 => p.skeleton(),
            23..=24 => p.assets()?,
            25 => p.damaged(),
            26..=27 => p.kinds()?,
            28 => p.pipeline()?,
            _ => p.math(),
        }
    }
    Ok(p.t)
}

/// The whole life of a program: its assets are generated, loaded and dropped too.
pub fn whole(seed: u64, o: Opts) -> Result<Trace, Fail> {
    let mut r = Rng::new(seed);
    let a = gen_assets(&mut r, o.small);
    let w = load_world(&a)?;
    run_program(&w, r, o)
}

/// The trace of the numbered program as text, one line per step; the same on every build and target.
pub fn digest_lines(seed: u64, index: u64, tiny: bool) -> String {
    use std::fmt::Write;
    let mut x = seed ^ index.wrapping_mul(0xA24BAED4963EE407);
    let s = crate::rng::splitmix(&mut x);
    let o = if tiny {
        Opts { steps: 14, small: true, hostile: false }
    } else {
        Opts { steps: 20 + (s % 41) as usize, small: s >> 40 & 3 == 0, hostile: false }
    };
    let mut out = String::new();
    match whole(s, o) {
        Err(f) => {
            let _ = writeln!(out, "{}\t-1\tfailed: {}\t0\t0", index, f.what);
        }
        Ok(t) => {
            let _ = writeln!(out, "{}\t-1\tinputs\t{:016x}\t0", index, t.inputs);
            for (k, s) in t.steps.iter().enumerate() {
                let _ = writeln!(out, "{}\t{}\t{}\t{:016x}\t{}", index, k, s.name, s.digest, s.raw as u8);
            }
        }
    }
    out
}
