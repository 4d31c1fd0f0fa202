//! C17: skinning against a double-precision weighted sum of matrices.

use crate::fw::*;
use crate::rm;
use crate::rng::Rng;
use crate::util::*;
use crate::{ensure, fw};
use glam::{Mat4, Vec3};
use ozz_animation_rs::*;
use serde_json::json;

#[derive(Clone, Debug)]
pub struct Mesh {
    pub n: usize,
    pub inf: usize,
    pub mats: Vec<Mat4>,
    pub its: Option<Vec<Mat4>>,
    pub idx: Vec<u16>,
    pub w: Vec<f32>,
    pub p: Vec<Vec3>,
    pub nm: Option<Vec<Vec3>>,
    pub tg: Option<Vec<Vec3>>,
}

pub struct Skinned {
    pub p: Vec<Vec3>,
    pub nm: Vec<Vec3>,
    pub tg: Vec<Vec3>,
    pub res: Result<(), OzzError>,
}

pub fn vcanary(k: usize, i: usize) -> Vec3 {
    Vec3::new(3.0e5 + i as f32, 4.0e5 + k as f32, -5.0e5)
}

pub fn gen_affine(r: &mut Rng) -> Mat4 {
    match r.below(10) {
        0 => Mat4::IDENTITY,
        // A general affine matrix: shear, mirror, anything.
        1..=3 => {
            let c = |r: &mut Rng| Vec3::from_array(r.vec3(3.0));
            let (a, b, d, t) = (c(r), c(r), c(r), c(r) * 5.0);
            Mat4::from_cols(a.extend(0.0), b.extend(0.0), d.extend(0.0), t.extend(1.0))
        }
        4 => Mat4::from_translation(Vec3::from_array(r.vec3(100.0))),
        _ => Mat4::from_scale_rotation_translation(
            Vec3::new(r.f32(0.2, 3.0), r.f32(0.2, 3.0), r.f32(-3.0, 3.0)),
            glam::Quat::from_array(r.quat()),
            Vec3::from_array(r.vec3(10.0)),
        ),
    }
}

pub fn gen_mesh(r: &mut Rng) -> Mesh {
    gen_mesh_of(r, false)
}

fn gen_mesh_of(r: &mut Rng, large: bool) -> Mesh {
    let n = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => r.range(64, 300),
        _ => r.range(2, 40),
    };
    let inf = match r.below(24) {
        0..=14 => r.range(1, 5),
        // No limit is documented.
        15 => r.range(18, 70),
        16..=18 => r.range(6, 8),
        19..=21 => r.range(9, 17),
        _ => r.range(1, 8),
    };
    let (n, inf, nj) = if large {
        // More than any short integer counts, of one or the other.
        match r.below(3) {
            0 => (r.range(65_000, 90_000), r.range(1, 5), r.range(1, 300)),
            1 => (r.range(300, 3000), r.range(1, 6), *r.pick(&[256, 257, 1024, 32_768, 32_769, 65_535, 65_536, 70_000])),
            _ => (r.range(300, 3000), r.range(6, 40), r.range(1, 5000)),
        }
    } else {
        (n, inf, *r.pick(&[1usize, 2, 3, 10, 67, 255, 300]))
    };
    let mats: Vec<Mat4> = (0..nj).map(|_| gen_affine(r)).collect();
    let its = r.chance(0.5).then(|| {
        if r.chance(0.5) {
            mats.iter().map(|_| gen_affine(r)).collect()
        } else {
            mats.iter().map(|m| Mat4 { w_axis: glam::Vec4::W, ..m.inverse().transpose() }).map(|m| if m.is_finite() { m } else { Mat4::IDENTITY }).collect()
        }
    });
    let over = |r: &mut Rng, k: usize| if r.chance(0.3) { k + r.range(1, 9) } else { k };
    let idx = (0..over(r, n * inf)).map(|_| r.below(nj.min(65536)) as u16).collect();
    let wmode = r.below(4);
    let mut w: Vec<f32> = Vec::new();
    for _ in 0..n {
        let raw: Vec<f32> = (0..inf).map(|_| r.f32(0.0, 1.0) + 1e-6).collect();
        let s: f32 = raw.iter().sum();
        for x in &raw[..inf - 1] {
            w.push(match wmode {
                0 | 1 => x / s,
                2 => *r.pick(&[0.0, 1.0, 0.5, 0.25]),
                _ => r.f32(-0.5, 1.0),
            });
        }
    }
    let k = over(r, w.len()) - w.len();
    w.extend(std::iter::repeat(7.0f32).take(k));
    let scale = *r.pick(&[1.0f32, 2.0, 50.0]);
    let vs = |r: &mut Rng, unit: bool| -> Vec<Vec3> {
        let k = if r.chance(0.3) { n + r.range(1, 5) } else { n };
        (0..k).map(|_| Vec3::from_array(if unit { r.unit3() } else { r.vec3(scale) })).collect()
    };
    let p = vs(r, false);
    let s = r.below(3);
    let nm = (s >= 1).then(|| vs(r, true));
    let tg = (s >= 2).then(|| vs(r, true));
    Mesh { n, inf, mats, its, idx, w, p, nm, tg }
}

/// Runs the job over borrowed slices, with outputs `extra` longer than needed.
pub fn run_skin(m: &Mesh, extra: usize) -> Skinned {
    let mut s = Skinned {
        p: (0..m.n + extra).map(|i| vcanary(0, i)).collect(),
        nm: (0..m.n + extra).map(|i| vcanary(1, i)).collect(),
        tg: (0..m.n + extra).map(|i| vcanary(2, i)).collect(),
        res: Ok(()),
    };
    let mut job: SkinningJobRef = SkinningJob::default();
    job.set_vertex_count(m.n);
    job.set_influences_count(m.inf);
    job.set_joint_matrices(&m.mats);
    if let Some(i) = &m.its {
        job.set_joint_it_matrices(i);
    }
    job.set_joint_indices(&m.idx);
    if m.inf > 1 || !m.w.is_empty() {
        job.set_joint_weights(&m.w);
    }
    job.set_in_positions(&m.p);
    job.set_out_positions(&mut s.p);
    if let Some(i) = &m.nm {
        job.set_in_normals(i);
        job.set_out_normals(&mut s.nm);
    }
    if let Some(i) = &m.tg {
        job.set_in_tangents(i);
        job.set_out_tangents(&mut s.tg);
    }
    s.res = job.run();
    drop(job);
    s
}

/// Weighted sum applied to a vector, and the scale of the rounding errors of doing it in single precision.
fn expect(m: &Mesh, mats: &[Mat4], i: usize, v: Vec3, point: bool) -> ([f64; 3], f64) {
    let mut wl = 1.0;
    let mut wabs = 1.0;
    let mut acc = [[0.0f64; 4]; 4];
    let mut mag = 0.0;
    let x = [v.x as f64, v.y as f64, v.z as f64];
    for j in 0..m.inf {
        let w = if j + 1 == m.inf {
            wl
        } else {
            let w = m.w[i * (m.inf - 1) + j] as f64;
            wl -= w;
            wabs += w.abs();
            w
        };
        let werr = if j + 1 == m.inf { wabs } else { w.abs() };
        let a = rm::mfrom(&mats[m.idx[i * m.inf + j] as usize]);
        let mut big: f64 = 0.0;
        for c in 0..4 {
            for r in 0..4 {
                acc[c][r] += a[c][r] * w;
            }
            let k = if c < 3 { x[c].abs() } else if point { 1.0 } else { 0.0 };
            big += k * a[c].iter().take(3).fold(0.0, |s: f64, e| s.max(e.abs()));
        }
        mag += werr * big;
    }
    let e = if point { rm::mpoint(&acc, x) } else { rm::mvec(&acc, x) };
    (e, mag * (m.inf as f64 + 8.0) * 1.2e-7 + 1e-30)
}

fn reference(c: &mut Case) -> R {
    let m = gen_mesh(&mut c.rng);
    against_oracle(c, m)
}

fn large(c: &mut Case) -> R {
    let m = gen_mesh_of(&mut c.rng, true);
    c.ev(if m.n > 65535 { "meshes of more than 65535 vertices" } else if m.mats.len() > 255 { "meshes of more than 255 joints" } else { "other meshes" }, 1);
    against_oracle(c, m)
}

fn against_oracle(c: &mut Case, m: Mesh) -> R {
    let extra = *c.rng.pick(&[0usize, 0, 1, 5]);
    let s = run_skin(&m, extra);
    if m.n == 0 {
        c.ev("empty meshes", 1);
    }
    lib_ok(s.res, "skinning a valid mesh")?;
    let branch = format!("influences {} streams {} it {}", m.inf.min(5), 1 + m.nm.is_some() as u8 + m.tg.is_some() as u8, m.its.is_some());
    c.ev(&branch, 1);
    c.sig(branch.as_bytes());
    c.sig_u(m.n as u64);
    c.sig(&m.idx.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>());
    let its = m.its.as_ref().unwrap_or(&m.mats);
    let mut streams: Vec<(&str, &Vec<Vec3>, &Vec<Vec3>, &[Mat4], bool)> = vec![("position", &m.p, &s.p, &m.mats, true)];
    if let Some(i) = &m.nm {
        streams.push(("normal", i, &s.nm, its, false));
    }
    if let Some(i) = &m.tg {
        streams.push(("tangent", i, &s.tg, its, false));
    }
    for (k, (name, inp, out, mats, point)) in streams.iter().enumerate() {
        for i in 0..m.n {
            let (e, tol) = expect(&m, mats, i, inp[i], *point);
            let g = out[i].to_array();
            for d in 0..3 {
                let err = (g[d] as f64 - e[d]).abs();
                ensure!(err <= tol, format!("skinned {} differs from the weighted sum of matrices", name),
                    {"vertex": i, "component": d, "got": g[d], "expected": e[d], "tolerance": tol, "influences": m.inf, "vertices": m.n,
                     "inverse_transposes": m.its.is_some()});
                c.max("rounding, thousandths of the allowance", (err / tol * 1000.0) as u64);
            }
            c.ev("vertices checked", 1);
        }
        for i in m.n..out.len() {
            ensure!(out[i] == vcanary(k, i), format!("skinning wrote {} beyond the given number of vertices", name), {"vertex": i, "vertices": m.n});
        }
    }
    if m.nm.is_none() {
        ensure!(s.nm.iter().enumerate().all(|(i, v)| *v == vcanary(1, i)), "normals written though none were given", {"vertices": m.n});
    }
    if c.index < 2 {
        c.sample = json!({"vertices": m.n, "influences": m.inf, "joints": m.mats.len(), "branch": branch});
    }
    Ok(())
}

/// One joint index outside the matrices: the invalid-index error, whichever influence and set it concerns.
fn bad_index(c: &mut Case) -> R {
    let mut m = gen_mesh(&mut c.rng);
    while m.n == 0 {
        m = gen_mesh(&mut c.rng);
    }
    let nj = m.mats.len();
    let mode = c.rng.below(4);
    if mode == 0 {
        // Only the inverse-transpose set is too short.
        let short = c.rng.below(nj);
        m.its = Some(m.mats[..short].to_vec());
        let used = m.idx[..m.n * m.inf].iter().any(|i| *i as usize >= short);
        let s = run_skin(&m, 0);
        if used && m.nm.is_some() {
            ensure!(matches!(&s.res, Err(OzzError::InvalidIndex)), "an index outside the inverse-transpose matrices is not the invalid-index error",
                {"got": format!("{:?}", s.res), "short": short});
            c.ev("indices outside the inverse transposes refused", 1);
        } else {
            lib_ok(s.res, "skinning that never uses the missing inverse transposes")?;
            c.ev("unused short inverse transposes accepted", 1);
        }
        c.sig_u(short as u64);
    } else {
        let at = c.rng.below(m.n * m.inf);
        let v = match mode {
            1 => nj,
            2 => 65535,
            _ => c.rng.range(nj, 65535),
        };
        let beyond = mode == 3 && m.idx.len() > m.n * m.inf;
        let at = if beyond { m.n * m.inf } else { at };
        m.idx[at] = v as u16;
        let s = run_skin(&m, 0);
        if beyond {
            lib_ok(s.res, "skinning with a bad index beyond the last vertex")?;
            c.ev("bad indices beyond the vertices ignored", 1);
        } else {
            ensure!(matches!(&s.res, Err(OzzError::InvalidIndex)), "a joint index outside the matrices is not the invalid-index error",
                {"got": format!("{:?}", s.res), "index": v, "joints": nj, "influence": at % m.inf, "influences": m.inf});
            c.ev("indices outside the matrices refused", 1);
        }
        c.sig_u((at * 65536 + v) as u64);
    }
    Ok(())
}

/// The last vertex, alone, equals the same vertex inside the mesh: vertices do not influence each other.
fn independent(c: &mut Case) -> R {
    let mut m = gen_mesh(&mut c.rng);
    while m.n < 2 {
        m = gen_mesh(&mut c.rng);
    }
    let whole = run_skin(&m, 0);
    lib_ok(whole.res, "skinning a valid mesh")?;
    let cut = c.rng.range(1, m.n - 1);
    let mut a = m.clone();
    a.n = cut;
    let mut b = m.clone();
    b.n = m.n - cut;
    b.idx = m.idx[cut * m.inf..].to_vec();
    b.w = m.w[cut * (m.inf - 1)..].to_vec();
    b.p = m.p[cut..].to_vec();
    b.nm = m.nm.as_ref().map(|v| v[cut..].to_vec());
    b.tg = m.tg.as_ref().map(|v| v[cut..].to_vec());
    let (sa, sb) = (run_skin(&a, 0), run_skin(&b, 0));
    lib_ok(sa.res, "skinning the first part of a mesh")?;
    lib_ok(sb.res, "skinning the second part of a mesh")?;
    let join = |x: &Vec<Vec3>, y: &Vec<Vec3>| -> Vec<u32> { x.iter().chain(y).flat_map(|v| v.to_array()).map(|f| f.to_bits()).collect() };
    let bits = |x: &Vec<Vec3>| -> Vec<u32> { x.iter().flat_map(|v| v.to_array()).map(|f| f.to_bits()).collect() };
    let mut ok = join(&sa.p, &sb.p) == bits(&whole.p);
    if m.nm.is_some() {
        ok &= join(&sa.nm, &sb.nm) == bits(&whole.nm);
    }
    if m.tg.is_some() {
        ok &= join(&sa.tg, &sb.tg) == bits(&whole.tg);
    }
    ensure!(ok, "skinning a mesh in two parts differs from skinning it at once", {"vertices": m.n, "cut": cut, "influences": m.inf});
    c.ev("meshes skinned in parts", 1);
    c.sig_u((m.n * 1000 + cut) as u64);
    Ok(())
}

pub const GROUPS: &[fw::Group] = &[
    Group { prop: "C17", name: "reference", quick: 60_000, thorough: 3_000_000, serial: false, exhaustive: false,
        rule: "random meshes: 0-300 vertices, 1-17 influences, all stream and inverse-transpose combinations, over-long buffers, weights summing to one or not", f: reference },
    Group { prop: "C17", name: "large", quick: 60, thorough: 3_000, serial: false, exhaustive: false,
        rule: "meshes of 300 to 90000 vertices, up to 70000 joints, up to 40 influences", f: large },
    Group { prop: "C17", name: "bad-index", quick: 30_000, thorough: 1_000_000, serial: false, exhaustive: false,
        rule: "random meshes with one index outside the matrices, at any influence, or in the inverse transposes only, or beyond the last vertex", f: bad_index },
    Group { prop: "C17", name: "parts", quick: 15_000, thorough: 600_000, serial: false, exhaustive: false,
        rule: "random meshes skinned at once and in two parts, compared bit for bit", f: independent },
];
