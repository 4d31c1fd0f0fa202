//! C15 two-bone IK, C16 aim IK.

use crate::author::*;
use crate::ensure;
use crate::fw::*;
use crate::rm::{self, Q, V3};
use crate::rng::Rng;
use crate::util::*;
use glam::{Mat4, Quat, Vec3A};
use ozz_animation_rs::*;
use serde_json::json;

fn va(v: V3) -> Vec3A {
    Vec3A::new(v[0] as f32, v[1] as f32, v[2] as f32)
}
fn vd(v: Vec3A) -> V3 {
    rm::v3(v.to_array())
}
fn qd(q: Quat) -> Q {
    rm::q4(q.to_array())
}
fn qmat(q: Q) -> rm::M4 {
    rm::affine([0.0; 3], q, [1.0; 3])
}
fn col(m: &rm::M4, c: usize) -> V3 {
    [m[c][0], m[c][1], m[c][2]]
}
fn rigid(r: &mut Rng, uniform: f64) -> rm::M4 {
    rm::affine(rm::v3(r.vec3(3.0)), rm::q4(r.quat()), [uniform; 3])
}

/// The length of a vector that only gives a direction.
fn gen_length(r: &mut Rng) -> f64 {
    *r.pick(&[1.0f64, 1.0, 1.0, 1.0, 1e-3, 1e3]) * r.f32(0.3, 3.0) as f64
}
fn gen_twist(r: &mut Rng) -> f32 {
    match r.below(12) {
        0..=5 => 0.0,
        6 => r.f32(-20.0, 20.0),
        7 => r.f32(-1e-2, 1e-2),
        _ => r.f32(-3.0, 3.0),
    }
}

/// A two-bone chain in a plane, with whatever its joints' own orientations are.
pub struct Chain {
    pub start: Mat4,
    pub mid: Mat4,
    pub end: Mat4,
    pub mid_axis: Vec3A,
    pub target: Vec3A,
    pub pole: Vec3A,
    pub twist: f32,
    pub soften: f32,
    pub weight: f32,
}

pub struct ChainOut {
    pub start: Quat,
    pub mid: Quat,
    pub reached: bool,
}

pub fn run_chain(c: &Chain, job: &mut IKTwoBoneJob) -> Result<ChainOut, Fail> {
    job.set_start_joint(c.start);
    job.set_mid_joint(c.mid);
    job.set_end_joint(c.end);
    job.set_mid_axis(c.mid_axis);
    job.set_target(c.target);
    job.set_pole_vector(c.pole);
    job.set_twist_angle(c.twist);
    job.set_soften(c.soften);
    job.set_weight(c.weight);
    lib_ok(job.run(), "two-bone IK")?;
    Ok(ChainOut { start: job.start_joint_correction(), mid: job.mid_joint_correction(), reached: job.reached() })
}

pub fn bits_chain(o: &ChainOut) -> Vec<u32> {
    let mut v = f32s(&o.start.to_array());
    v.extend(f32s(&o.mid.to_array()));
    v.push(o.reached as u32);
    v
}

pub fn gen_chain(r: &mut Rng) -> (Chain, f64, f64, f64) {
    // Lengths of the bones, the angle between them, and the target's distance.
    // The unit of length may be anything.
    let size = *r.pick(&[1.0f64, 1.0, 1.0, 1.0, 0.05, 20.0, 300.0]);
    let a = size * r.f32(0.3, 2.0) as f64;
    let b = match r.below(4) {
        0 => a,
        _ => size * r.f32(0.3, 2.0) as f64,
    };
    let bend = match r.below(12) {
        0 => 0.05,
        1 => std::f64::consts::PI - 0.02,
        _ => r.f32(0.1, 3.0) as f64,
    };
    let k = *r.pick(&[1.0f64, 1.0, 0.5, 2.0]);
    let mut world = rigid(r, k);
    for x in &mut world[3][..3] {
        *x *= size;
    }
    // The chain in its plane: start at the origin, mid up the x axis, end bent by `bend` (interior angle) around z.
    let s_rot = rm::q4(r.quat());
    let m_rot = rm::q4(r.quat());
    let e_rot = rm::q4(r.quat());
    let mid_pos = [a, 0.0, 0.0];
    let end_pos = [a - b * bend.cos(), b * bend.sin(), 0.0];
    let start = rm::mmul(&world, &rm::affine([0.0; 3], s_rot, [1.0; 3]));
    let mid = rm::mmul(&world, &rm::affine(mid_pos, m_rot, [1.0; 3]));
    let end = rm::mmul(&world, &rm::affine(end_pos, e_rot, [1.0; 3]));
    let flip = if r.chance(0.3) { -1.0 } else { 1.0 };
    let axis = rm::qrot(rm::qconj(m_rot), [0.0, 0.0, flip]);
    let (lo, hi) = ((a - b).abs(), a + b);
    let soften = match r.below(3) {
        0 => r.f32(0.3, 0.99),
        1 => *r.pick(&[1.0f32, 1.5, 0.0]),
        _ => 1.0,
    };
    let dist = match r.below(10) {
        0 => hi * r.f32(1.02, 3.0) as f64,
        1 => lo * r.f32(0.1, 0.98) as f64 + 0.01 * size,
        2 => hi * (soften as f64).clamp(0.0, 1.0) * r.f32(0.9, 1.1) as f64 + 0.01 * size,
        3 => rm::len(end_pos),
        _ => lo + (hi - lo) * r.f32(0.02, 0.98) as f64,
    };
    // Rotations between vectors whose lengths' product is under 1e-6 are taken for none.
    let dist = if size < 1.0 { dist.max(0.004) } else { dist };
    let dir = rm::v3(r.unit3());
    let target = rm::mpoint(&world, rm::mul(dir, dist));
    let mut pole = rm::v3(r.unit3());
    while rm::len(rm::cross(rm::norm(dir), pole)) < 0.15 {
        pole = rm::v3(r.unit3());
    }
    let pole = rm::mul(rm::mvec(&world, pole), gen_length(r));
    let chain = Chain {
        start: rm::mto(&start),
        mid: rm::mto(&mid),
        end: rm::mto(&end),
        mid_axis: va(axis),
        target: va(target),
        pole: va(pole),
        twist: gen_twist(r),
        soften,
        weight: *r.pick(&[1.0f32, 1.0, 1.0, 1.5]),
    };
    (chain, a, b, k)
}

fn describe(c: &Chain) -> serde_json::Value {
    json!({"start": c.start.to_cols_array(), "mid": c.mid.to_cols_array(), "end": c.end.to_cols_array(), "mid axis": c.mid_axis.to_array(),
        "target": c.target.to_array(), "pole": c.pole.to_array(), "twist": c.twist, "soften": c.soften, "weight": c.weight})
}

/// Where the chain's joints are after the corrections.
fn corrected(c: &Chain, o: &ChainOut) -> (rm::M4, rm::M4, rm::M4) {
    let (s, m, e) = (rm::mfrom(&c.start), rm::mfrom(&c.mid), rm::mfrom(&c.end));
    let lm = rm::mmul(&rm::minv(&s).unwrap(), &m);
    let le = rm::mmul(&rm::minv(&m).unwrap(), &e);
    let s2 = rm::mmul(&s, &qmat(qd(o.start)));
    let m2 = rm::mmul(&rm::mmul(&s2, &lm), &qmat(qd(o.mid)));
    let e2 = rm::mmul(&m2, &le);
    (s2, m2, e2)
}

fn c15_reach(c: &mut Case) -> R {
    let (ch, a, b, k) = gen_chain(&mut c.rng);
    let mut job = IKTwoBoneJob::default();
    if c.rng.chance(0.5) {
        // A job used for something else before.
        let (other, ..) = gen_chain(&mut c.rng);
        run_chain(&other, &mut job)?;
    }
    let o = run_chain(&ch, &mut job)?;
    c.sig_u(bits_hash(&bits_chain(&o)));
    c.sample = describe(&ch);
    let fresh = run_chain(&ch, &mut IKTwoBoneJob::default())?;
    ensure!(bits_chain(&o) == bits_chain(&fresh), "a used IK job gives other corrections than a new one", describe(&ch));
    for (n, q) in [("start", qd(o.start)), ("mid", qd(o.mid))] {
        ensure!((rm::qlen(q) - 1.0).abs() < 2e-3, format!("the {} correction is not a unit quaternion", n), {"correction": q, "job": describe(&ch)});
    }
    let origin = col(&rm::mfrom(&ch.start), 3);
    let (_, m2, e2) = corrected(&ch, &o);
    let to_target = rm::sub(vd(ch.target), origin);
    let dist = rm::len(to_target) / k;
    let chain_len = a + b;
    let da = chain_len * (ch.soften as f64).clamp(0.0, 1.0);
    let ds = chain_len - da;
    // How far along the line the end is to be.
    let softened = dist > da && ds > 0.0;
    let want = if softened {
        let alpha = (dist - da) / ds;
        da + ds - ds * 81.0 / (alpha + 3.0).powi(4)
    } else {
        dist
    };
    let want = want.clamp((a - b).abs(), chain_len);
    let goal = rm::add(origin, rm::mul(rm::norm(to_target), want * k));
    let err = rm::len(rm::sub(col(&e2, 3), goal)) / (k * chain_len);
    // The arc cosine is within 1e-4 of the true one; near a straight or a folded chain the square root magnifies.
    let slack = ((want - (a - b).abs()).min(chain_len - want) / chain_len).max(0.0);
    let tol = 4e-3;
    c.max("largest miss of the goal, of the chain length (1e-6)", (err * 1e6) as u64);
    ensure!(err <= tol, "the corrected chain does not put its end where reach and softening allow",
        {"miss": err, "wanted distance": want, "target distance": dist, "bones": [a, b], "slack": slack, "softened": softened, "job": describe(&ch)});
    c.ev(if softened { "softened targets" } else if want < dist - 1e-9 { "targets out of reach" } else if want > dist + 1e-9 { "targets too near" } else { "targets met" }, 1);
    // The flag.
    let met = dist > (a - b).abs() && dist <= da;
    let margin = 1e-4 * chain_len;
    if (dist - (a - b).abs()).abs() > margin && (dist - da).abs() > margin {
        ensure!(o.reached == (met && ch.weight >= 1.0), "the reached flag is wrong", {"reached": o.reached, "target distance": dist, "bones": [a, b], "job": describe(&ch)});
        c.ev(if met { "reached flags true" } else { "reached flags false" }, 1);
    }
    // The middle joint turns about its axis only.
    let q = qd(o.mid);
    let ax = vd(ch.mid_axis);
    let off = rm::len(rm::cross([q[0], q[1], q[2]], ax));
    ensure!(off < 1e-5, "the middle joint's correction is not about its axis", {"correction": q, "axis": ax, "off": off, "job": describe(&ch)});
    // The bend plane: the middle axis, after correction, is the normal of the plane of target and pole, turned by the twist.
    let t = rm::norm(to_target);
    let normal = rm::norm(rm::cross(t, vd(ch.pole)));
    let wanted = rm::qrot(rm::qaxis(t, ch.twist as f64), normal);
    let got = rm::norm(rm::mvec(&m2, ax));
    let off = rm::len(rm::sub(got, wanted));
    c.max("largest error of the bend plane (1e-6)", (off * 1e6) as u64);
    ensure!(off < 6e-3, "the chain does not bend in the plane of the pole vector and twist", {"normal": got, "wanted": wanted, "off": off, "job": describe(&ch)});
    c.ev("bend planes checked", 1);
    Ok(())
}

fn c15_weight(c: &mut Case) -> R {
    let (mut ch, ..) = gen_chain(&mut c.rng);
    ch.weight = 1.0;
    let mut job = IKTwoBoneJob::default();
    let full = run_chain(&ch, &mut job)?;
    ch.weight = *c.rng.pick(&[1.0f32, 2.0, f32::INFINITY]);
    let more = run_chain(&ch, &mut job)?;
    ensure!(bits_chain(&full) == bits_chain(&more), "a weight over one is not taken as one", describe(&ch));
    ch.weight = *c.rng.pick(&[0.0f32, -0.0, -1.0, f32::NEG_INFINITY]);
    let none = run_chain(&ch, &mut job)?;
    ensure!(none.start == Quat::IDENTITY && none.mid == Quat::IDENTITY && !none.reached, "a weight of zero or less does not give identity corrections", describe(&ch));
    for _ in 0..4 {
        ch.weight = match c.rng.below(4) {
            0 => f32::from_bits(0x3F7FFFFF),
            1 => c.rng.f32(0.0, 0.01).max(1e-6),
            _ => c.rng.f32(0.01, 0.999),
        };
        let part = run_chain(&ch, &mut job)?;
        let w = ch.weight as f64;
        for (f, p) in [(full.start, part.start), (full.mid, part.mid)] {
            let mut q = qd(f);
            if q[3] < 0.0 {
                q = rm::qscale(q, -1.0);
            }
            let l = rm::qlerp(rm::Q_ID, q, w);
            let want = rm::qnorm(l);
            ensure!(rm::qdiff(qd(p), want) < 1e-4 / rm::qlen(l).min(1.0).max(1e-2), "a partial weight does not move part way", {"full": qd(f), "partial": qd(p), "wanted": want, "job": describe(&ch)});
            ensure!((rm::qlen(qd(p)) - 1.0).abs() < 1e-4, "a partial correction is not a unit quaternion", describe(&ch));
        }
        ensure!(!part.reached, "the reached flag is true at a partial weight", describe(&ch));
        c.ev("partial weights", 1);
    }
    c.sig_u(bits_hash(&bits_chain(&full)));
    Ok(())
}

/// The whole scene in another place, turned and scaled: the same corrections.
fn c15_moved(c: &mut Case) -> R {
    let (ch, a, b, k0) = gen_chain(&mut c.rng);
    let o = run_chain(&ch, &mut IKTwoBoneJob::default())?;
    let k = *c.rng.pick(&[0.5f64, 1.0, 3.0]);
    let w = rigid(&mut c.rng, k);
    let f = |m: &Mat4| rm::mto(&rm::mmul(&w, &rm::mfrom(m)));
    let moved = Chain {
        start: f(&ch.start),
        mid: f(&ch.mid),
        end: f(&ch.end),
        mid_axis: ch.mid_axis,
        target: va(rm::mpoint(&w, vd(ch.target))),
        pole: va(rm::mvec(&w, vd(ch.pole))),
        ..ch
    };
    let p = run_chain(&moved, &mut IKTwoBoneJob::default())?;
    c.sig_u(bits_hash(&bits_chain(&p)));
    let (d1, d2) = (rm::qangle(qd(o.start), qd(p.start)), rm::qangle(qd(o.mid), qd(p.mid)));
    // The middle angle is only known to the root of the rounding where the chain is folded or straight, which turns
    // an end close to the start.
    let (s2, _, e2) = corrected(&ch, &o);
    let end = rm::len(rm::sub(col(&e2, 3), col(&s2, 3))) / k0;
    let t1 = (1e-2 * (a + b) / end.max(1e-9)).max(5e-2);
    ensure!(d1 < t1 && d2 < 5e-2, "moving the whole scene changes the corrections", {"start": d1, "mid": d2, "job": describe(&ch), "moved": describe(&moved)});
    c.max("largest change of a correction by moving the scene (1e-6 rad)", (d1.max(d2) * 1e6) as u64);
    c.max("largest change by moving the scene, of what is tolerated (1e-6)", ((d1 / t1).max(d2 / 5e-2) * 1e6) as u64);
    c.ev("scenes moved", 1);
    Ok(())
}

fn c15_refuse(c: &mut Case) -> R {
    let (mut ch, ..) = gen_chain(&mut c.rng);
    let mut job = IKTwoBoneJob::default();
    let before = run_chain(&ch, &mut job)?;
    let k = *c.rng.pick(&[0.0f32, 0.5, 1.1, 2.0, -0.3, f32::NAN]);
    ch.mid_axis = ch.mid_axis * k;
    job.set_mid_axis(ch.mid_axis);
    job.set_target(Vec3A::new(0.1, 0.2, 0.3));
    if c.rng.chance(0.5) {
        job.set_weight(*c.rng.pick(&[0.0, 0.5, 1.0]));
    }
    let r = job.run();
    ensure!(matches!(r, Err(OzzError::InvalidJob)), "an axis that is not normalized is not refused", {"factor": k, "result": format!("{:?}", r.is_ok())});
    let after = ChainOut { start: job.start_joint_correction(), mid: job.mid_joint_correction(), reached: job.reached() };
    ensure!(bits_chain(&before) == bits_chain(&after), "a refused IK job changes its outputs", {"factor": k});
    c.sig_u(bits_hash(&bits_chain(&after)) ^ k.to_bits() as u64);
    c.ev("refused", 1);
    Ok(())
}

// ---------------------------------------------------------------- aim

pub struct Aim {
    pub joint: Mat4,
    pub target: Vec3A,
    pub forward: Vec3A,
    pub offset: Vec3A,
    pub up: Vec3A,
    pub pole: Vec3A,
    pub twist: f32,
    pub weight: f32,
}

pub fn run_aim(a: &Aim, job: &mut IKAimJob) -> Result<(Quat, bool), Fail> {
    job.set_joint(a.joint);
    job.set_target(a.target);
    job.set_forward(a.forward);
    job.set_offset(a.offset);
    job.set_up(a.up);
    job.set_pole_vector(a.pole);
    job.set_twist_angle(a.twist);
    job.set_weight(a.weight);
    lib_ok(job.run(), "aim IK")?;
    Ok((job.joint_correction(), job.reached()))
}

fn describe_aim(a: &Aim) -> serde_json::Value {
    json!({"joint": a.joint.to_cols_array(), "target": a.target.to_array(), "forward": a.forward.to_array(), "offset": a.offset.to_array(),
        "up": a.up.to_array(), "pole": a.pole.to_array(), "twist": a.twist, "weight": a.weight})
}

/// The aim, and the distance of the target and the direction to it, both in the joint's space.
pub fn gen_aim(r: &mut Rng) -> (Aim, V3) {
    let k = *r.pick(&[1.0f64, 1.0, 0.5, 2.0]);
    let joint = rigid(r, k);
    let forward = rm::v3(match r.below(4) {
        0 => [1.0, 0.0, 0.0],
        1 => [0.0, 0.0, -1.0],
        _ => r.unit3(),
    });
    let offset = match r.below(3) {
        0 => [0.0; 3],
        1 => rm::v3(r.vec3(0.5)),
        _ => rm::v3(r.vec3(1.5)),
    };
    let dir = rm::v3(r.unit3());
    // The unit of length may be anything; under a thousandth, directions are taken for none.
    let size = *r.pick(&[1.0f64, 1.0, 1.0, 1.0, 0.01, 0.1, 30.0, 1000.0]);
    let offset = rm::mul(offset, size);
    let t = rm::mul(dir, size * r.f32(0.3, 5.0) as f64);
    let apart = |r: &mut Rng, from: V3| loop {
        let v = rm::v3(r.unit3());
        if rm::len(rm::cross(rm::norm(v), rm::norm(from))) > 0.15 {
            return v;
        }
    };
    let up = apart(r, forward);
    let pole = apart(r, dir);
    let a = Aim {
        joint: rm::mto(&joint),
        target: va(rm::mpoint(&joint, t)),
        forward: va(forward),
        offset: va(offset),
        up: va(rm::mul(up, gen_length(r))),
        pole: va(rm::mul(rm::mvec(&joint, pole), gen_length(r))),
        twist: gen_twist(r),
        weight: *r.pick(&[1.0f32, 1.0, 2.0]),
    };
    (a, t)
}

/// A target nearer than directions are told apart, in line with the forward vector already: what is left is to
/// turn about it.
fn gen_near_aim(r: &mut Rng) -> (Aim, V3) {
    let (mut a, _) = gen_aim(r);
    let turn = rm::affine([0.0; 3], rm::q4(r.quat()), [1.0; 3]);
    let f = vd(a.forward);
    let t = rm::mul(f, *r.pick(&[1e-3f64, 1e-4, 1e-5]) * r.f32(0.1, 1.0) as f64);
    let mut pole = rm::v3(r.unit3());
    while rm::len(rm::cross(pole, f)) < 0.15 {
        pole = rm::v3(r.unit3());
    }
    a.joint = rm::mto(&turn);
    a.offset = Vec3A::ZERO;
    a.target = va(rm::mvec(&turn, t));
    a.pole = va(rm::mul(rm::mvec(&turn, pole), r.f32(0.5, 2.0) as f64));
    (a, t)
}

fn c16_near(c: &mut Case) -> R {
    let (a, t) = gen_near_aim(&mut c.rng);
    check_aim(c, a, t)
}

fn c16_aim(c: &mut Case) -> R {
    let (a, t) = gen_aim(&mut c.rng);
    check_aim(c, a, t)
}

fn check_aim(c: &mut Case, a: Aim, t: V3) -> R {
    let mut job = IKAimJob::default();
    if c.rng.chance(0.5) {
        let (other, _) = gen_aim(&mut c.rng);
        run_aim(&other, &mut job)?;
    }
    let (q, reached) = run_aim(&a, &mut job)?;
    let (q2, reached2) = run_aim(&a, &mut IKAimJob::default())?;
    ensure!(f32s(&q.to_array()) == f32s(&q2.to_array()) && reached == reached2, "a used aim job gives another correction than a new one", describe_aim(&a));
    c.sig_u(bits_hash(&f32s(&q.to_array())));
    c.sample = describe_aim(&a);
    let (f, off) = (vd(a.forward), vd(a.offset));
    let r = rm::len(t);
    let ao = rm::dot(f, off);
    let perp = rm::len(rm::sub(off, rm::mul(f, ao)));
    if (perp - r).abs() > 1e-4 * (perp + r) {
        ensure!(reached == (perp < r), "the reached flag is wrong", {"reached": reached, "distance": r, "offset's distance from the line": perp, "job": describe_aim(&a)});
    }
    if !reached {
        ensure!(q == Quat::IDENTITY, "an unreachable aim is not corrected by the identity", describe_aim(&a));
        c.ev("out of reach", 1);
        return Ok(());
    }
    if perp > 0.98 * r {
        c.ev("barely reachable", 1);
        ensure!(q.is_finite() && (rm::qlen(qd(q)) - 1.0).abs() < 1e-3, "a correction is not a finite unit quaternion", describe_aim(&a));
        return Ok(());
    }
    let qq = qd(q);
    ensure!((rm::qlen(qq) - 1.0).abs() < 1e-3, "a correction is not a unit quaternion", {"correction": qq, "job": describe_aim(&a)});
    // In the joint's space: origin and direction of the line, after the correction.
    let m = rm::mfrom(&a.joint);
    let inv = rm::minv(&m).unwrap();
    let tj = rm::mpoint(&inv, vd(a.target));
    let qn = rm::qnorm(qq);
    let (o2, f2) = (rm::qrot(qn, off), rm::qrot(qn, f));
    let d = rm::sub(tj, o2);
    let along = rm::dot(d, f2);
    let miss = rm::len(rm::sub(d, rm::mul(f2, along))) / r;
    c.max("largest miss of the target, of its distance (1e-6)", (miss * 1e6) as u64);
    ensure!(miss < 5e-3, "the corrected joint does not aim at the target", {"miss": miss, "job": describe_aim(&a)});
    if r > rm::len(off) * 1.001 {
        ensure!(along > 0.0, "the corrected joint aims away from the target", describe_aim(&a));
        c.ev("targets ahead", 1);
    }
    // The up vector, as far toward the pole as turning about the aim allows, then turned by the twist.
    let dir = rm::norm(tj);
    let flat = |v: V3| rm::sub(v, rm::mul(dir, rm::dot(v, dir)));
    let pole = flat(rm::mvec(&inv, vd(a.pole)));
    let up = flat(rm::qrot(qn, vd(a.up)));
    // The up vector may come to lie along the aim (an offset turns the line).
    if rm::len(up) > 0.1 * rm::len(vd(a.up)) {
        let want = rm::qrot(rm::qaxis(dir, a.twist as f64), rm::norm(pole));
        let e = rm::len(rm::sub(rm::norm(up), want));
        c.max("largest error of the up vector (1e-6)", (e * 1e6) as u64);
        ensure!(e < 1e-2, "the up vector is not turned toward the pole vector and by the twist", {"up": rm::norm(up), "wanted": want, "job": describe_aim(&a)});
        c.ev("up vectors checked", 1);
    }
    c.ev("aims checked", 1);
    Ok(())
}

fn c16_weight(c: &mut Case) -> R {
    let (mut a, _) = gen_aim(&mut c.rng);
    let mut job = IKAimJob::default();
    a.weight = 1.0;
    let (full, reached) = run_aim(&a, &mut job)?;
    for _ in 0..4 {
        a.weight = match c.rng.below(6) {
            0 => 0.0,
            1 => -c.rng.f32(0.0, 2.0),
            2 => 1.0 + c.rng.f32(0.0, 2.0),
            _ => c.rng.f32(0.0, 1.0),
        };
        let (q, flag) = run_aim(&a, &mut job)?;
        ensure!(flag == reached, "the reached flag depends on the weight", describe_aim(&a));
        let w = (a.weight as f64).clamp(0.0, 1.0);
        let mut f = qd(full);
        if f[3] < 0.0 {
            f = rm::qscale(f, -1.0);
        }
        let l = rm::qlerp(rm::Q_ID, f, w);
        let want = rm::qnorm(l);
        ensure!(rm::qdiff(qd(q), want) < 1e-4 / rm::qlen(l).clamp(1e-2, 1.0), "a partial weight does not interpolate the correction", {"full": f, "got": qd(q), "job": describe_aim(&a)});
        if a.weight <= 0.0 {
            ensure!(rm::qdiff(qd(q), rm::Q_ID) < 1e-6, "a weight of zero does not give the identity", describe_aim(&a));
        }
        c.ev("weights", 1);
    }
    c.sig_u(bits_hash(&f32s(&full.to_array())));
    Ok(())
}

/// Degenerate but legal aims: finite unit corrections.
fn c16_degenerate(c: &mut Case) -> R {
    let (mut a, t) = gen_aim(&mut c.rng);
    match c.rng.below(6) {
        0 => a.pole = a.target - Vec3A::from(a.joint.w_axis.truncate()),
        1 => {
            a.up = a.forward;
            a.offset = Vec3A::ZERO;
        }
        2 => a.pole = Vec3A::ZERO,
        3 => a.up = Vec3A::ZERO,
        4 => {
            // straight behind
            let f = vd(a.forward);
            a.joint = Mat4::IDENTITY;
            a.target = va(rm::mul(f, -rm::len(t)));
            a.offset = Vec3A::ZERO;
        }
        _ => {
            a.joint = Mat4::IDENTITY;
            a.target = Vec3A::ZERO;
        }
    }
    let (q, _) = run_aim(&a, &mut IKAimJob::default())?;
    ensure!(q.is_finite() && (rm::qlen(qd(q)) - 1.0).abs() < 2e-3, "a correction is not a finite unit quaternion", {"correction": format!("{:?}", q), "job": describe_aim(&a)});
    c.sig_u(bits_hash(&f32s(&q.to_array())));
    c.ev("degenerate aims", 1);
    Ok(())
}

fn c16_refuse(c: &mut Case) -> R {
    let (mut a, _) = gen_aim(&mut c.rng);
    let mut job = IKAimJob::default();
    let (q, r) = run_aim(&a, &mut job)?;
    let k = *c.rng.pick(&[0.0f32, 0.5, 1.1, 2.0, -0.3, f32::NAN]);
    a.forward = a.forward * k;
    job.set_forward(a.forward);
    job.set_target(Vec3A::new(0.1, 0.2, 0.3));
    if c.rng.chance(0.5) {
        job.set_weight(*c.rng.pick(&[0.0, 0.5, 1.0]));
    }
    let e = job.run();
    ensure!(matches!(e, Err(OzzError::InvalidJob)), "a forward vector that is not normalized is not refused", {"factor": k});
    ensure!(f32s(&q.to_array()) == f32s(&job.joint_correction().to_array()) && r == job.reached(), "a refused aim job changes its outputs", {"factor": k});
    c.sig_u(bits_hash(&f32s(&q.to_array())) ^ k.to_bits() as u64);
    c.ev("refused", 1);
    Ok(())
}

#[allow(dead_code)]
fn unused(_: &Xf) {}

pub const GROUPS: &[Group] = &[
    Group { prop: "C15", name: "reach", quick: 200_000, thorough: 10_000_000, serial: false, exhaustive: false,
        rule: "random two-bone chains (bone lengths, bends, joint orientations, uniform scale, either axis sign), targets within reach, too far, too near, in the softening range; the corrected chain is rebuilt in double precision and its end, bend plane, middle axis, flags and quaternions checked; distinct by the corrections",
        f: c15_reach },
    Group { prop: "C15", name: "weight", quick: 60_000, thorough: 3_000_000, serial: false, exhaustive: false,
        rule: "weights at, below, between and over the ends against the full correction", f: c15_weight },
    Group { prop: "C15", name: "moved", quick: 60_000, thorough: 3_000_000, serial: false, exhaustive: false,
        rule: "the scene moved, turned and scaled gives the same corrections", f: c15_moved },
    Group { prop: "C15", name: "refuse", quick: 5_000, thorough: 100_000, serial: false, exhaustive: false,
        rule: "axes that are not unit vectors are refused, outputs kept", f: c15_refuse },
    Group { prop: "C16", name: "aim", quick: 200_000, thorough: 10_000_000, serial: false, exhaustive: false,
        rule: "random joints, forwards, offsets, ups, poles, twists and targets; the corrected line, up vector and flag checked in double precision; distinct by the correction",
        f: c16_aim },
    Group { prop: "C16", name: "near", quick: 40_000, thorough: 2_000_000, serial: false, exhaustive: false,
        rule: "targets within a thousandth of the joint and in line with it: the up vector turned toward the pole vector and by the twist; distinct by the correction",
        f: c16_near },
    Group { prop: "C16", name: "weight", quick: 60_000, thorough: 3_000_000, serial: false, exhaustive: false,
        rule: "weights at, below, between and over the ends against the full correction", f: c16_weight },
    Group { prop: "C16", name: "degenerate", quick: 30_000, thorough: 1_000_000, serial: false, exhaustive: false,
        rule: "pole or up along the aim or zero, target straight behind or at the joint: finite unit corrections", f: c16_degenerate },
    Group { prop: "C16", name: "refuse", quick: 5_000, thorough: 100_000, serial: false, exhaustive: false,
        rule: "forward vectors that are not unit are refused, outputs kept", f: c16_refuse },
];
