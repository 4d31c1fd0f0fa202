#![feature(portable_simd)]
#![allow(clippy::all)]

pub mod author;
pub mod fw;
pub mod mem;
pub mod p_assets;
pub mod p_blend;
pub mod p_conc;
pub mod p_damage;
pub mod p_ik;
pub mod p_jobs;
pub mod p_l2m;
pub mod p_math;
pub mod p_mem;
pub mod p_prog;
pub mod p_reuse;
pub mod p_sampling;
pub mod p_skin;
pub mod p_track;
pub mod rm;
pub mod rng;
pub mod util;

pub fn groups() -> Vec<&'static fw::Group> {
    let mut v: Vec<&'static fw::Group> = Vec::new();
    v.extend(p_assets::GROUPS.iter());
    v.extend(p_sampling::GROUPS.iter());
    v.extend(p_blend::GROUPS.iter());
    v.extend(p_l2m::GROUPS.iter());
    v.extend(p_ik::GROUPS.iter());
    v.extend(p_skin::GROUPS.iter());
    v.extend(p_track::GROUPS.iter());
    v.extend(p_jobs::GROUPS.iter());
    v.extend(p_math::GROUPS.iter());
    v.extend(p_mem::GROUPS.iter());
    v.extend(p_conc::GROUPS.iter());
    v.extend(p_reuse::GROUPS.iter());
    v.extend(p_damage::GROUPS.iter());
    v
}
