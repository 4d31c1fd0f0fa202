//! Loading generated assets and reading results of the library.

use crate::author::*;
use crate::fw::Fail;
use crate::rng::Rng;
use glam::{Mat4, Quat, Vec2, Vec3, Vec3A, Vec4};
use glam_ext::Transform3A;
use ozz_animation_rs::*;
use serde_json::json;

pub fn err_name(e: &OzzError) -> &'static str {
    match e {
        OzzError::LockPoison => "LockPoison",
        OzzError::IO(_) => "IO",
        OzzError::Utf8(_) => "Utf8",
        OzzError::InvalidTag => "InvalidTag",
        OzzError::InvalidVersion => "InvalidVersion",
        OzzError::InvalidJob => "InvalidJob",
        OzzError::InvalidIndex => "InvalidIndex",
        _ => "other",
    }
}

/// Whether the questions an error answers agree with what it is.
pub fn sorted(e: &OzzError) -> bool {
    let is = [e.is_lock_poison(), e.is_invalid_job(), e.is_io(), e.is_utf8(), e.is_invalid_tag(), e.is_invalid_version(), e.is_unexcepted()];
    let names = ["LockPoison", "InvalidJob", "IO", "Utf8", "InvalidTag", "InvalidVersion", "other"];
    is.iter().zip(names).all(|(i, n)| *i == (err_name(e) == n)) && !e.to_string().is_empty()
}

pub fn lib_ok<T>(r: Result<T, OzzError>, what: &str) -> Result<T, Fail> {
    r.map_err(|e| Fail { what: format!("{}: the library refused valid input: {:?}", what, e), detail: json!({"error": err_name(&e)}) })
}

pub fn load_skel(bytes: &[u8]) -> Result<Skeleton, OzzError> {
    Skeleton::from_archive(&mut Archive::from_slice(bytes)?)
}
pub fn load_anim(bytes: &[u8]) -> Result<Animation, OzzError> {
    Animation::from_archive(&mut Archive::from_slice(bytes)?)
}
pub fn load_track<V: track::TrackValue>(bytes: &[u8]) -> Result<Track<V>, OzzError> {
    Track::<V>::from_archive(&mut Archive::from_slice(bytes)?)
}

pub fn make_skel(s: &Skel) -> Result<Skeleton, Fail> {
    lib_ok(load_skel(&s.write(false)), "loading a generated skeleton")
}
pub fn make_anim(a: &Anim) -> Result<Animation, Fail> {
    let b = a.build().expect("generated animation too large");
    lib_ok(load_anim(&b.write(false)), "loading a generated animation")
}

/// A generated animation that fits the format.
pub fn gen_fit(r: &mut Rng, o: &AnimOpts) -> (Anim, Built) {
    loop {
        let a = gen_anim(r, o);
        if let Some(b) = a.build() {
            return (a, b);
        }
    }
}

pub fn lane(s: &SoaTransform, l: usize) -> Xf {
    Xf {
        t: [s.translation.x[l], s.translation.y[l], s.translation.z[l]],
        r: [s.rotation.x[l], s.rotation.y[l], s.rotation.z[l], s.rotation.w[l]],
        s: [s.scale.x[l], s.scale.y[l], s.scale.z[l]],
    }
}
pub fn soa_of(x: &[Xf; 4]) -> SoaTransform {
    let f = |g: &dyn Fn(&Xf) -> f32| [g(&x[0]), g(&x[1]), g(&x[2]), g(&x[3])];
    SoaTransform::new(
        SoaVec3::new(f(&|x| x.t[0]), f(&|x| x.t[1]), f(&|x| x.t[2])),
        SoaQuat::new(f(&|x| x.r[0]), f(&|x| x.r[1]), f(&|x| x.r[2]), f(&|x| x.r[3])),
        SoaVec3::new(f(&|x| x.s[0]), f(&|x| x.s[1]), f(&|x| x.s[2])),
    )
}
pub fn soa_vec(xs: &[Xf]) -> Vec<SoaTransform> {
    xs.chunks(4)
        .map(|c| {
            let mut a = [XF_ID; 4];
            a[..c.len()].copy_from_slice(c);
            soa_of(&a)
        })
        .collect()
}

pub fn f32s(v: &[f32]) -> Vec<u32> {
    v.iter().map(|x| x.to_bits()).collect()
}
pub fn soa_bits(s: &SoaTransform) -> [u32; 40] {
    let mut o = [0u32; 40];
    let vs = [
        s.translation.x, s.translation.y, s.translation.z, s.rotation.x, s.rotation.y, s.rotation.z, s.rotation.w,
        s.scale.x, s.scale.y, s.scale.z,
    ];
    for (i, v) in vs.iter().enumerate() {
        for l in 0..4 {
            o[i * 4 + l] = v[l].to_bits();
        }
    }
    o
}
pub fn pose_bits(v: &[SoaTransform]) -> Vec<u32> {
    v.iter().flat_map(|s| soa_bits(s)).collect()
}
pub fn mats_bits(v: &[Mat4]) -> Vec<u32> {
    v.iter().flat_map(|m| m.to_cols_array().map(|x| x.to_bits())).collect()
}
pub fn bits_hash(v: &[u32]) -> u64 {
    let mut h = 0x1234567u64;
    for x in v {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}

/// A recognisable pattern to fill outputs with before a job runs.
pub fn canary(i: usize) -> SoaTransform {
    let f = 7.0e5 + i as f32;
    SoaTransform::new(SoaVec3::splat(f), SoaQuat::splat(f + 0.25), SoaVec3::splat(f + 0.5))
}
pub fn canary_mat(i: usize) -> Mat4 {
    Mat4::from_cols_array(&[9.0e5 + i as f32; 16])
}

pub fn tf3a(x: &Xf) -> Transform3A {
    Transform3A {
        translation: Vec3A::from_array(x.t),
        rotation: Quat::from_array(x.r),
        scale: Vec3A::from_array(x.s),
    }
}

pub trait TrackVal: track::TrackValue {
    fn comps(&self) -> [f32; 4];
    const KIND: usize;
}
impl TrackVal for f32 {
    fn comps(&self) -> [f32; 4] {
        [*self, 0.0, 0.0, 0.0]
    }
    const KIND: usize = 0;
}
impl TrackVal for Vec2 {
    fn comps(&self) -> [f32; 4] {
        [self.x, self.y, 0.0, 0.0]
    }
    const KIND: usize = 1;
}
impl TrackVal for Vec3 {
    fn comps(&self) -> [f32; 4] {
        [self.x, self.y, self.z, 0.0]
    }
    const KIND: usize = 2;
}
impl TrackVal for Vec4 {
    fn comps(&self) -> [f32; 4] {
        self.to_array()
    }
    const KIND: usize = 3;
}
impl TrackVal for Quat {
    fn comps(&self) -> [f32; 4] {
        self.to_array()
    }
    const KIND: usize = 4;
}

/// A new context, one sample.
pub fn sample_fresh(anim: &Animation, ratio: f32) -> Result<Vec<SoaTransform>, Fail> {
    let mut out = vec![SoaTransform::default(); anim.num_soa_tracks()];
    let mut ctx = SamplingContext::new(anim.num_tracks());
    let mut job: SamplingJobRef = SamplingJob::default();
    job.set_animation(anim);
    job.set_context(&mut ctx);
    job.set_ratio(ratio);
    job.set_output(&mut out);
    lib_ok(job.run(), "sampling with a new context")?;
    drop(job);
    Ok(out)
}

pub fn sample_with(ctx: &mut SamplingContext, anim: &Animation, ratio: f32) -> Result<Vec<SoaTransform>, Fail> {
    let mut out = vec![SoaTransform::default(); anim.num_soa_tracks()];
    let mut job: SamplingJobRef = SamplingJob::default();
    job.set_animation(anim);
    job.set_context(ctx);
    job.set_ratio(ratio);
    job.set_output(&mut out);
    lib_ok(job.run(), "sampling")?;
    drop(job);
    Ok(out)
}

pub fn max_abs(v: &[f64]) -> f64 {
    v.iter().fold(0.0, |a, b| a.max(b.abs()))
}

/// The clips and skeletons shipped in the repository, as (folder, file) pairs that exist.
pub const SHIPPED_SKELETONS: &[&str] = &[
    "additive/skeleton.ozz", "blend/skeleton.ozz", "look_at/skeleton.ozz", "motion/skeleton.ozz", "motion_blend/skeleton.ozz",
    "partial_blend/skeleton.ozz", "playback/skeleton.ozz", "two_bone_ik/skeleton.ozz",
];
pub const SHIPPED_ANIMATIONS: &[&str] = &[
    "additive/animation_base.ozz", "additive/animation_curl_additive.ozz", "additive/animation_splay_additive.ozz",
    "blend/animation1.ozz", "blend/animation2.ozz", "blend/animation3.ozz", "look_at/animation.ozz", "motion/animation.ozz",
    "motion_blend/animation1.ozz", "motion_blend/animation2.ozz", "partial_blend/animation_base.ozz",
    "partial_blend/animation_partial.ozz", "playback/animation.ozz",
];
pub const SHIPPED_TRACKS: &[&str] = &["motion/motion.ozz", "motion_blend/motion1.ozz", "motion_blend/motion2.ozz", "track/track.ozz"];
pub fn shipped(p: &str) -> String {
    format!("/repo/resource/{}", p)
}
