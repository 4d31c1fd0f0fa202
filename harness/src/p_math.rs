//! C26 trigonometric helpers and four-wide operations; C08 round trips of single values.

use crate::ensure;
use crate::fw::*;
use crate::p_assets::{rkyv_bytes, serde_back};
use crate::rng::Rng;
use crate::util::*;
use glam::{Quat, Vec3, Vec3A};
use glam_ext::Transform3A;
use ozz_animation_rs::math::*;
use rkyv::Deserialize;
use serde_json::json;
use std::simd::prelude::*;

// ---------------------------------------------------------------- trigonometry

const TRIG_TOP: u32 = 0x4780_0000; // 65536.0
const BLOCK: u32 = 1 << 16;
pub const TRIG_BLOCKS: u64 = (TRIG_TOP / BLOCK) as u64 + 1;
const INV_TOP: u32 = 0x3F80_0000; // 1.0
pub const INV_BLOCKS: u64 = (INV_TOP / BLOCK) as u64 + 1;

fn block(c: &mut Case, blocks: u64, top: u32) -> (u32, u32, u32) {
    // Every block is visited; all of its numbers in the thorough tier, one in eight (from a random start) in the quick one.
    let start = (c.index % blocks) as u32 * BLOCK;
    let step = if c.thorough { 1 } else { 8 };
    let off = if c.thorough { 0 } else { c.rng.below(8) as u32 };
    c.sig_u((start as u64) << 8 | off as u64);
    (start + off, (start + BLOCK - 1).min(top), step)
}

fn trig(c: &mut Case) -> R {
    let (lo, hi, step) = block(c, TRIG_BLOCKS, TRIG_TOP);
    let mut b = lo;
    let mut n = 0u64;
    let mut worst = 0f64;
    while b <= hi {
        let x = f32::from_bits(b);
        let (s, k) = f32_sin_cos(x);
        let (es, ek) = (x as f64).sin_cos();
        let d = (s as f64 - es).abs().max((k as f64 - ek).abs());
        worst = worst.max(d);
        // The reduction of the angle is exact to about 10000, then loses accuracy slowly.
        let tol = if x <= 8192.0 { 1e-6 } else { 1e-5 };
        ensure!(d <= tol, "sine or cosine is off", {"x": x, "sin": s, "cos": k, "true_sin": es, "true_cos": ek});
        ensure!(s.abs() <= 1.0 + tol as f32 && k.abs() <= 1.0 + tol as f32, "sine or cosine leaves [-1, 1]", {"x": x, "sin": s, "cos": k});
        let (ms, mk) = f32_sin_cos(-x);
        ensure!(ms == -s && mk == k, "sine is not odd or cosine not even", {"x": x, "sin": s, "sin_of_minus": ms, "cos": k, "cos_of_minus": mk});
        if n % 16 == 0 {
            let d = (f32_sin(x) - s).abs().max((f32_cos(x) - k).abs()).max((f32_sin(-x) + s).abs()).max((f32_cos(-x) - k).abs());
            ensure!(d <= 1e-6, "sine or cosine alone differs from both together", {"x": x});
        }
        n += 1;
        b += step;
    }
    c.ev("arguments", 2 * n);
    c.max("error of sine and cosine (1e-9)", (worst * 1e9) as u64);
    Ok(())
}

fn inverse(c: &mut Case) -> R {
    let (lo, hi, step) = block(c, INV_BLOCKS, INV_TOP);
    let mut b = lo;
    let mut n = 0u64;
    let mut worst = 0f64;
    while b <= hi {
        let x = f32::from_bits(b);
        let (s, k, ms, mk) = (f32_asin(x), f32_acos(x), f32_asin(-x), f32_acos(-x));
        let d = (s as f64 - (x as f64).asin()).abs().max((k as f64 - (x as f64).acos()).abs()).max((mk as f64 - (-x as f64).acos()).abs());
        worst = worst.max(d);
        ensure!(d <= 1e-6, "arc sine or arc cosine is off", {"x": x, "asin": s, "acos": k, "acos_of_minus": mk});
        ensure!(ms == -s, "arc sine is not odd", {"x": x, "asin": s, "asin_of_minus": ms});
        let (h, p) = (std::f32::consts::FRAC_PI_2 + 1e-6, std::f32::consts::PI + 2e-6);
        ensure!(s.abs() <= h && k >= -1e-6 && k <= p && mk >= -1e-6 && mk <= p, "an inverse leaves its range", {"x": x, "asin": s, "acos": k, "acos_of_minus": mk});
        n += 1;
        b += step;
    }
    // Outside the domain: clamped.
    for _ in 0..200 {
        let x = match c.rng.below(4) {
            0 => f32::from_bits(INV_TOP + 1 + c.rng.below(1000) as u32),
            1 => c.rng.f32(1.0, 2.0),
            2 => c.rng.f32(1.0, 1e6),
            _ => f32::INFINITY,
        };
        let h = std::f64::consts::FRAC_PI_2;
        let bad = (f32_asin(x) as f64 - h).abs() > 1e-6
            || (f32_asin(-x) as f64 + h).abs() > 1e-6
            || (f32_acos(x) as f64).abs() > 1e-6
            || (f32_acos(-x) as f64 - 2.0 * h).abs() > 1e-6;
        ensure!(!bad, "an inverse does not clamp outside [-1, 1]", {"x": x, "asin": [f32_asin(x), f32_asin(-x)], "acos": [f32_acos(x), f32_acos(-x)]});
    }
    c.ev("arguments", 2 * n);
    c.ev("arguments outside [-1, 1]", 400);
    c.max("error of arc sine and arc cosine (1e-9)", (worst * 1e9) as u64);
    Ok(())
}

// ---------------------------------------------------------------- four-wide operations

fn scalar(r: &mut Rng) -> f32 {
    match r.below(10) {
        0 => 0.0,
        1 => -0.0,
        2 => 1.0,
        3 => -1.0,
        4 => r.f32(-1e3, 1e3),
        5 => r.f32(-1e-3, 1e-3),
        _ => r.f32(-2.0, 2.0),
    }
}

/// A value for a lane whose content must not matter.
fn noise(r: &mut Rng) -> f32 {
    match r.below(6) {
        0 => f32::NAN,
        1 => f32::INFINITY,
        2 => f32::NEG_INFINITY,
        3 => f32::MAX,
        4 => 0.0,
        _ => f32::from_bits(r.u32()),
    }
}

type L = [f32; 12];

/// The inputs of one lane: two quaternions (whose first three also serve as vectors), a number, and more.
fn gen_lane(r: &mut Rng) -> L {
    let mut l = [0.0; 12];
    for x in l.iter_mut() {
        *x = scalar(r);
    }
    if r.chance(0.7) {
        l[..4].copy_from_slice(&r.quat());
        l[4..8].copy_from_slice(&r.quat());
    }
    l[8] = match r.below(4) {
        0 => 0.0,
        1 => 1.0,
        2 => r.f32(0.0, 1.0),
        _ => r.f32(-2.0, 3.0),
    };
    l
}

struct Soa {
    a: SoaQuat,
    b: SoaQuat,
    va: SoaVec3,
    vb: SoaVec3,
    f: f32x4,
    s: SoaVec3,
}

fn build(ls: &[L; 4]) -> Soa {
    let k = |i: usize| [ls[0][i], ls[1][i], ls[2][i], ls[3][i]];
    Soa {
        a: SoaQuat::new(k(0), k(1), k(2), k(3)),
        b: SoaQuat::new(k(4), k(5), k(6), k(7)),
        va: SoaVec3::new(k(0), k(1), k(2)),
        vb: SoaVec3::new(k(4), k(5), k(6)),
        f: f32x4::from_array(k(8)),
        s: SoaVec3::new(k(9), k(10), k(11)),
    }
}

/// One lane of the result of every operation, by name.
fn results(s: &Soa, m: i32x4, lane: usize) -> Vec<(&'static str, Vec<f32>)> {
    let q = |q: SoaQuat| vec![q.x[lane], q.y[lane], q.z[lane], q.w[lane]];
    let v = |v: SoaVec3| vec![v.x[lane], v.y[lane], v.z[lane]];
    let mat = SoaMat4::from_affine(&s.va, &s.b, &s.s);
    vec![
        ("vec neg", v(s.va.neg())),
        ("vec add", v(s.va.add(&s.vb))),
        ("vec sub", v(s.va.sub(&s.vb))),
        ("vec mul_num", v(s.va.mul_num(s.f))),
        ("vec lerp", v(SoaVec3::lerp(&s.va, &s.vb, s.f))),
        ("vec and_num", v(s.va.and_num(m))),
        ("vec or_num", v(s.va.or_num(m))),
        ("vec xor_num", v(s.va.xor_num(m))),
        ("quat conjugate", q(s.a.conjugate())),
        ("quat add", q(s.a.add(&s.b))),
        ("quat mul", q(s.a.mul(&s.b))),
        ("quat mul_num", q(s.a.mul_num(s.f))),
        ("quat normalize", q(s.a.normalize())),
        ("quat dot", vec![s.a.dot(&s.b)[lane]]),
        ("quat nlerp", q(s.a.nlerp(&s.b, s.f))),
        ("quat and_num", q(s.a.and_num(m))),
        ("quat or_num", q(s.a.or_num(m))),
        ("quat xor_num", q(s.a.xor_num(m))),
        ("quat positive_w", q(s.a.positive_w())),
        ("mat from_affine", (0..16).map(|i| mat.cols[i][lane]).collect()),
    ]
}

/// (expected value, size of the terms it is made of); a size of 0 asks for the exact bits.
fn expected(l: &L, m: i32) -> Vec<(&'static str, Vec<(f64, f64)>, Vec<u32>)> {
    let d: Vec<f64> = l.iter().map(|x| *x as f64).collect();
    let (a, b, f) = (&d[0..4], &d[4..8], d[8]);
    let near = |v: Vec<(f64, f64)>| (v, vec![]);
    let bits = |v: Vec<f32>| (vec![], v.iter().map(|x| x.to_bits()).collect::<Vec<u32>>());
    let mask = |n: usize, g: fn(u32, u32) -> u32| (vec![], (0..n).map(|i| g(l[i].to_bits(), m as u32)).collect::<Vec<u32>>());
    let lerp = |n: usize| (0..n).map(|i| (a[i] + (b[i] - a[i]) * f, (a[i].abs() + b[i].abs()) * (1.0 + f.abs()))).collect::<Vec<_>>();
    let prod = |ts: [(f64, f64, f64); 4]| {
        (ts.iter().map(|t| t.0 * t.1 * t.2).sum::<f64>(), ts.iter().map(|t| (t.1 * t.2).abs()).sum::<f64>())
    };
    let mul = vec![
        prod([(1., a[3], b[0]), (1., a[0], b[3]), (1., a[1], b[2]), (-1., a[2], b[1])]),
        prod([(1., a[3], b[1]), (1., a[1], b[3]), (1., a[2], b[0]), (-1., a[0], b[2])]),
        prod([(1., a[3], b[2]), (1., a[2], b[3]), (1., a[0], b[1]), (-1., a[1], b[0])]),
        prod([(1., a[3], b[3]), (-1., a[0], b[0]), (-1., a[1], b[1]), (-1., a[2], b[2])]),
    ];
    let unit = |v: &[f64], err: f64| {
        let n = v.iter().map(|x| x * x).sum::<f64>().sqrt();
        v.iter().map(|x| (x / n, 1.0 + err / n)).collect::<Vec<_>>()
    };
    let lq = lerp(4);
    let lv: Vec<f64> = lq.iter().map(|x| x.0).collect();
    let le = lq.iter().map(|x| x.1).fold(0.0, f64::max);
    let sc = &d[9..12];
    let (x, y, z, w) = (b[0], b[1], b[2], b[3]);
    let r = 1.0 + 2.0 * (x * x + y * y + z * z + w * w);
    let rot = [
        [1. - 2. * (y * y + z * z), 2. * (x * y + z * w), 2. * (x * z - y * w)],
        [2. * (x * y - z * w), 1. - 2. * (x * x + z * z), 2. * (y * z + x * w)],
        [2. * (x * z + y * w), 2. * (y * z - x * w), 1. - 2. * (x * x + y * y)],
    ];
    let mut mat = Vec::new();
    for c in 0..3 {
        for k in 0..3 {
            mat.push((sc[c] * rot[c][k], sc[c].abs() * r * 2.0));
        }
        mat.push((0.0, 0.0));
    }
    for k in 0..3 {
        mat.push((a[k], 0.0));
    }
    mat.push((1.0, 0.0));
    let flip = l[3] < 0.0;
    let mut out = Vec::new();
    let mut add = |n: &'static str, e: (Vec<(f64, f64)>, Vec<u32>)| out.push((n, e.0, e.1));
    add("vec neg", bits((0..3).map(|i| -l[i]).collect()));
    add("vec add", bits((0..3).map(|i| l[i] + l[i + 4]).collect()));
    add("vec sub", bits((0..3).map(|i| l[i] - l[i + 4]).collect()));
    add("vec mul_num", bits((0..3).map(|i| l[i] * l[8]).collect()));
    add("vec lerp", near(lerp(3)));
    add("vec and_num", mask(3, |x, m| x & m));
    add("vec or_num", mask(3, |x, m| x | m));
    add("vec xor_num", mask(3, |x, m| x ^ m));
    add("quat conjugate", bits(vec![-l[0], -l[1], -l[2], l[3]]));
    add("quat add", bits((0..4).map(|i| l[i] + l[i + 4]).collect()));
    add("quat mul", near(mul));
    add("quat mul_num", bits((0..4).map(|i| l[i] * l[8]).collect()));
    add("quat normalize", near(unit(a, 0.0)));
    add("quat dot", near(vec![(0..4).fold((0., 0.), |s, i| (s.0 + a[i] * b[i], s.1 + (a[i] * b[i]).abs()))]));
    add("quat nlerp", near(unit(&lv, le)));
    add("quat and_num", mask(4, |x, m| x & m));
    add("quat or_num", mask(4, |x, m| x | m));
    add("quat xor_num", mask(4, |x, m| x ^ m));
    add("quat positive_w", bits((0..4).map(|i| if flip { -l[i] } else { l[i] }).collect()));
    add("mat from_affine", near(mat));
    out
}

fn lanes(c: &mut Case) -> R {
    let ls: [L; 4] = std::array::from_fn(|_| gen_lane(&mut c.rng));
    let m = match c.rng.below(4) {
        0 => i32x4::splat(i32::MIN),
        1 => i32x4::from_array([0, -1, i32::MIN, i32::MAX]),
        _ => i32x4::from_array(std::array::from_fn(|_| c.rng.u32() as i32)),
    };
    for l in &ls {
        c.sig(&l.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>());
    }
    if c.index < 2 {
        c.sample = json!({"lanes": ls, "mask": m.to_array()});
    }
    let soa = build(&ls);
    let lane = c.rng.below(4);
    let got = results(&soa, m, lane);
    for ((name, g), (n2, near, bits)) in got.iter().zip(expected(&ls[lane], m[lane])) {
        assert_eq!(*name, n2);
        if near.is_empty() {
            assert_eq!(g.len(), bits.len());
            // Zeros may differ in sign, a NaN (made by a mask) in its bits.
            let same = g.iter().zip(&bits).all(|(x, e)| x.to_bits() == *e || *x == f32::from_bits(*e) || (x.is_nan() && f32::from_bits(*e).is_nan()));
            ensure!(same, format!("{} is not the operation on the lane", name), {"lane": lane, "input": ls[lane], "mask": m[lane], "got": g,
                "expected": bits.iter().map(|b| f32::from_bits(*b)).collect::<Vec<_>>()});
        } else {
            assert_eq!(g.len(), near.len());
            for (x, (e, size)) in g.iter().zip(&near) {
                if !e.is_finite() || *size > 1e5 {
                    continue; // a quaternion with (nearly) no length cannot be normalized
                }
                let ok = (*x as f64 - e).abs() <= 1e-6 * (size + e.abs());
                ensure!(ok, format!("{} is not the operation on the lane", name), {"lane": lane, "input": ls[lane], "got": g, "expected": near});
            }
        }
        c.ev("results compared with the lane's own operation", 1);
    }
    // Whatever the other lanes hold, this lane's result has the same bits.
    let mut other = ls;
    for (i, l) in other.iter_mut().enumerate() {
        if i != lane {
            for x in l.iter_mut() {
                *x = noise(&mut c.rng);
            }
        }
    }
    let mut m2 = i32x4::from_array(std::array::from_fn(|_| c.rng.u32() as i32));
    m2[lane] = m[lane];
    let got2 = results(&build(&other), m2, lane);
    for ((name, a), (_, b)) in got.iter().zip(&got2) {
        let same = a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()));
        ensure!(same, format!("{} of one lane depends on the other lanes", name), {"lane": lane, "with": a, "without": b, "other_lanes": format!("{:?}", other)});
    }
    c.ev("results compared under other neighbours", got.len() as u64);
    // The same lane in another place.
    let to = (lane + c.rng.range(1, 3)) % 4;
    let mut moved = other;
    moved[to] = ls[lane];
    let mut m3 = m2;
    m3[to] = m[lane];
    let got3 = results(&build(&moved), m3, to);
    for ((name, a), (_, b)) in got.iter().zip(&got3) {
        let same = a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()));
        ensure!(same, format!("{} depends on which lane it is done in", name), {"lanes": [lane, to], "in_one": a, "in_other": b});
    }
    Ok(())
}

fn tf_bits(t: &Transform3A) -> Vec<u32> {
    f32s(&[
        t.translation.x, t.translation.y, t.translation.z, t.rotation.x, t.rotation.y, t.rotation.z, t.rotation.w, t.scale.x, t.scale.y, t.scale.z,
    ])
}

fn words(v: &[f32x4]) -> Vec<u32> {
    v.iter().flat_map(|x| x.to_array()).map(|x| x.to_bits()).collect()
}

fn rand_tf(r: &mut Rng) -> SoaTransform {
    let mut k = || -> [f32; 4] { std::array::from_fn(|_| scalar(r)) };
    SoaTransform::new(SoaVec3::new(k(), k(), k()), SoaQuat::new(k(), k(), k(), k()), SoaVec3::new(k(), k(), k()))
}

/// Getting, setting, splatting.
fn access(c: &mut Case) -> R {
    let s = rand_tf(&mut c.rng);
    let before = soa_bits(&s);
    c.sig(&before.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>());
    let i = c.rng.below(4);
    let v: [f32; 10] = std::array::from_fn(|_| scalar(&mut c.rng));
    let t = Transform3A {
        translation: Vec3A::new(v[0], v[1], v[2]),
        rotation: Quat::from_xyzw(v[3], v[4], v[5], v[6]),
        scale: Vec3A::new(v[7], v[8], v[9]),
    };
    // Getting.
    let g = tf_bits(&s.transform(i));
    let e: Vec<u32> = (0..10).map(|k| before[k * 4 + i]).collect();
    ensure!(g == e, "transform() is not the lane", {"lane": i, "got": g, "expected": e});
    let p = s.translation.vec3(i);
    let q = s.rotation.quat(i);
    ensure!(f32s(&[p.x, p.y, p.z]) == e[..3] && f32s(&[q.x, q.y, q.z, q.w]) == e[3..7], "vec3() or quat() is not the lane", {"lane": i});
    // Setting one lane leaves the others.
    let mut w = before;
    for k in 0..10 {
        w[k * 4 + i] = v[k].to_bits();
    }
    let mut x = s;
    x.set_transform(i, t);
    ensure!(soa_bits(&x) == w, "set_transform() changes something else than the lane", {"lane": i, "set": v});
    let mut y = s;
    y.translation.set_vec3(i, Vec3::new(v[0], v[1], v[2]));
    y.rotation.set_quat(i, Quat::from_xyzw(v[3], v[4], v[5], v[6]));
    y.scale.set_vec3(i, Vec3::new(v[7], v[8], v[9]));
    ensure!(soa_bits(&y) == w, "set_vec3() or set_quat() changes something else than the lane", {"lane": i, "set": v});
    // Splatting.
    let z = SoaTransform::splat_transform(t);
    let e: Vec<u32> = v.iter().flat_map(|x| [x.to_bits(); 4]).collect();
    ensure!(soa_bits(&z).to_vec() == e, "splat_transform() is not the transform in every lane", {"set": v});
    let sv = SoaVec3::splat_vec3(Vec3::new(v[0], v[1], v[2]));
    let sq = SoaQuat::splat_quat(Quat::from_xyzw(v[3], v[4], v[5], v[6]));
    let sn = (SoaVec3::splat(v[7]), SoaQuat::splat(v[8]));
    ensure!(words(&[sv.x, sv.y, sv.z]) == e[..12] && words(&[sq.x, sq.y, sq.z, sq.w]) == e[12..28], "splat_vec3() or splat_quat() is wrong", {"set": v});
    ensure!(words(&[sn.0.x, sn.0.y, sn.0.z]) == vec![v[7].to_bits(); 12] && words(&[sn.1.x, sn.1.y, sn.1.z, sn.1.w]) == vec![v[8].to_bits(); 16], "splat() is wrong", {"set": v});
    if c.index == 0 {
        let v3 = |s: SoaVec3| [s.vec3(0), s.vec3(1), s.vec3(2), s.vec3(3)];
        let all = [
            (SoaVec3::ZERO, Vec3::ZERO), (SoaVec3::ONE, Vec3::ONE), (SoaVec3::NEG_ONE, Vec3::NEG_ONE), (SoaVec3::MIN, Vec3::MIN),
            (SoaVec3::MAX, Vec3::MAX), (SoaVec3::INFINITY, Vec3::INFINITY), (SoaVec3::NEG_INFINITY, Vec3::NEG_INFINITY), (SoaVec3::X, Vec3::X),
            (SoaVec3::Y, Vec3::Y), (SoaVec3::Z, Vec3::Z), (SoaVec3::NEG_X, Vec3::NEG_X), (SoaVec3::NEG_Y, Vec3::NEG_Y), (SoaVec3::NEG_Z, Vec3::NEG_Z),
        ];
        for (k, (a, b)) in all.iter().enumerate() {
            ensure!(v3(*a) == [*b; 4], "a constant is not what it says", {"constant": k});
        }
        ensure!(v3(SoaVec3::NAN).iter().all(|v| v.x.is_nan() && v.y.is_nan() && v.z.is_nan()), "NAN is a number", {});
        for i in 0..4 {
            ensure!(SoaTransform::IDENTITY.transform(i) == Transform3A::IDENTITY && SoaQuat::IDENTITY.quat(i) == Quat::IDENTITY, "IDENTITY is not the identity", {});
            ensure!(SoaQuat::ZERO.quat(i).to_array() == [0.0; 4] && SoaQuat::NAN.quat(i).is_nan(), "a quaternion constant is wrong", {});
            let (z, n) = (SoaTransform::ZERO.transform(i), SoaTransform::NAN.transform(i));
            ensure!(z.translation == Vec3A::ZERO && z.scale == Vec3A::ZERO && z.rotation.to_array() == [0.0; 4], "ZERO is not zero", {});
            ensure!(n.translation.is_nan() && n.scale.is_nan() && n.rotation.is_nan(), "NAN is a number", {});
        }
        c.ev("constants", 19);
    }
    c.ev("accesses", 8);
    Ok(())
}

// ---------------------------------------------------------------- C08, single values

fn rk<T>(v: &T) -> Result<T, Fail>
where
    T: rkyv::Serialize<rkyv::ser::serializers::AllocSerializer<30720>> + rkyv::Archive,
    for<'a> T::Archived: rkyv::CheckBytes<rkyv::validation::validators::DefaultValidator<'a>> + Deserialize<T, rkyv::Infallible>,
{
    let bytes = rkyv_bytes(v);
    let mut al = rkyv::AlignedVec::new();
    al.extend_from_slice(&bytes);
    match rkyv::check_archived_root::<T>(&al) {
        Ok(a) => Ok(a.deserialize(&mut rkyv::Infallible).unwrap()),
        Err(_) => fail("what was written with rkyv is refused by its own check", json!({})),
    }
}

fn values(c: &mut Case) -> R {
    let s = rand_tf(&mut c.rng);
    let b = soa_bits(&s);
    c.sig(&b.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>());
    let bad = |what: &str, how: &str| fail::<()>(format!("{} is not the same after a {} round trip", what, how), json!({}));
    for how in ["serde", "rkyv"] {
        let (t, q, x): (SoaVec3, SoaQuat, SoaTransform) = if how == "serde" {
            (serde_back(c, &s.translation)?, serde_back(c, &s.rotation)?, serde_back(c, &s)?)
        } else {
            (rk(&s.translation)?, rk(&s.rotation)?, rk(&s)?)
        };
        if soa_bits(&x) != b {
            return bad("SoaTransform", how);
        }
        if words(&[t.x, t.y, t.z]) != b[..12] {
            return bad("SoaVec3", how);
        }
        if words(&[q.x, q.y, q.z, q.w]) != b[12..28] {
            return bad("SoaQuat", how);
        }
        let i3 = ozz_animation_rs::InterpSoaFloat3 { ratio: [s.scale.x, s.scale.y], value: [s.translation, s.scale] };
        let i4 = ozz_animation_rs::InterpSoaQuaternion { ratio: [s.scale.x, s.scale.y], value: [s.rotation, SoaQuat::IDENTITY] };
        let (r3, r4) = if how == "serde" { (serde_back(c, &i3)?, serde_back(c, &i4)?) } else { (rk(&i3)?, rk(&i4)?) };
        if r3 != i3 {
            return bad("InterpSoaFloat3", how);
        }
        if r4 != i4 {
            return bad("InterpSoaQuaternion", how);
        }
        // Several at once, behind something that is not aligned.
        let many = vec![s; c.rng.range(1, 5)];
        let pair: (u8, Vec<SoaTransform>) = (7, many);
        let back = if how == "serde" {
            serde_back(c, &pair)?
        } else {
            let bytes = rkyv_bytes(&pair.1);
            let mut al = rkyv::AlignedVec::new();
            al.extend_from_slice(&bytes);
            let a = match rkyv::check_archived_root::<Vec<SoaTransform>>(&al) {
                Ok(a) => a,
                Err(_) => return fail("what was written with rkyv is refused by its own check", json!({})),
            };
            (7, a.deserialize(&mut rkyv::Infallible).unwrap())
        };
        if back.0 != 7 || pose_bits(&back.1) != pose_bits(&pair.1) {
            return bad("a list of SoaTransform", how);
        }
    }
    c.ev("values through serde and rkyv", 12);
    Ok(())
}

pub const GROUPS: &[Group] = &[
    Group { prop: "C26", name: "sine-cosine", quick: TRIG_BLOCKS, thorough: TRIG_BLOCKS, serial: false, exhaustive: false, f: trig,
        rule: "every block of 65536 neighbouring single-precision arguments in [-65536, 65536], one in eight (quick) or all (thorough) of each" },
    Group { prop: "C26", name: "arc-sine-cosine", quick: INV_BLOCKS, thorough: INV_BLOCKS, serial: false, exhaustive: false, f: inverse,
        rule: "every block of 65536 neighbouring single-precision arguments in [-1, 1], one in eight (quick) or all (thorough) of each, and arguments outside" },
    Group { prop: "C26", name: "lanes", quick: 300_000, thorough: 10_000_000, serial: false, exhaustive: false, f: lanes,
        rule: "random lanes through each of the 20 four-wide operations; against double precision, under other neighbours, in another lane" },
    Group { prop: "C26", name: "access", quick: 100_000, thorough: 2_000_000, serial: false, exhaustive: false, f: access,
        rule: "getting, setting and splatting random lanes; all constants" },
    Group { prop: "C08", name: "values", quick: 20_000, thorough: 500_000, serial: false, exhaustive: false, f: values,
        rule: "random four-wide vectors, quaternions, transforms and cached key pairs through serde (JSON, bincode, CBOR) and checked rkyv" },
];
