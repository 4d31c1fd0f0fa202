//! C12 model-space matrices, C13 partial updates.

use crate::author::*;
use crate::ensure;
use crate::fw::*;
use crate::p_blend::gen_pose;
use crate::rm;
use crate::rng::Rng;
use crate::util::*;
use glam::Mat4;
use ozz_animation_rs::*;
use serde_json::json;

pub struct Update {
    pub root: Option<Mat4>,
    pub from: Option<i32>,
    pub to: Option<i32>,
    pub excluded: bool,
}

pub const FULL: Update = Update { root: None, from: None, to: None, excluded: false };

pub fn run_l2m(skel: &Skeleton, input: &[SoaTransform], u: &Update, out: &mut [Mat4]) -> Result<(), OzzError> {
    let mut job: LocalToModelJobRef = LocalToModelJob::default();
    job.set_skeleton(skel);
    job.set_input(input);
    if let Some(m) = &u.root {
        job.set_root(m);
    }
    if let Some(f) = u.from {
        job.set_from(f);
    }
    if let Some(t) = u.to {
        job.set_to(t);
    }
    job.set_from_excluded(u.excluded);
    job.set_output(out);
    job.run()
}

pub fn gen_root(r: &mut Rng) -> Option<Mat4> {
    match r.below(4) {
        0 => None,
        1 => {
            // Any matrix.
            let mut a = [0f32; 16];
            a.iter_mut().for_each(|x| *x = r.f32(-2.0, 2.0));
            Some(Mat4::from_cols_array(&a))
        }
        _ => {
            let x = gen_xf(r);
            Some(rm::mto(&rm::affine(rm::v3(x.t), rm::q4(x.r), rm::v3(x.s))))
        }
    }
}

/// Joint j's matrix against its parent's computed matrix times its local affine matrix.
pub fn check_joint(skel: &Skel, pose: &[Xf], root: &Option<Mat4>, out: &[Mat4], j: usize) -> R {
    let x = &pose[j];
    let local = rm::affine(rm::v3(x.t), rm::q4(x.r), rm::v3(x.s));
    let parent = match skel.parents[j] {
        -1 => root.map(|m| rm::mfrom(&m)).unwrap_or(rm::M_ID),
        p => rm::mfrom(&out[p as usize]),
    };
    let (want, scale) = (rm::mmul(&parent, &local), rm::mmul_abs(&parent, &local));
    let got = rm::mfrom(&out[j]);
    // Rounding of the local matrix is relative to its largest factor, not to its small differences.
    let ms = (0..3).map(|i| x.s[i].abs() as f64).fold(0.0, f64::max);
    for c in 0..4 {
        for r in 0..4 {
            let pr = (0..3).map(|k| parent[k][r].abs()).fold(0.0, f64::max);
            let tol = 2e-6 * (scale[c][r] + if c < 3 { pr * ms } else { 0.0 }) + 1e-30;
            if !((got[c][r] - want[c][r]).abs() <= tol) {
                return fail("a model-space matrix is not its parent's times the local transform", json!({"joint": j, "parent": skel.parents[j],
                    "column": c, "row": r, "got": got[c][r], "want": want[c][r], "local": format!("{:?}", x), "joints": skel.n(), "root set": root.is_some()}));
            }
        }
    }
    Ok(())
}

fn c12_reference(c: &mut Case) -> R {
    let n = if c.index % 200 == 0 { c.rng.range(200, 1024) } else { gen_count(&mut c.rng, 100) };
    let skel = gen_skel(&mut c.rng, n);
    let lib = make_skel(&skel)?;
    let pose = gen_pose(&mut c.rng, n);
    let mut input = soa_vec(&pose);
    for i in 0..c.rng.below(3) {
        input.push(canary(i));
    }
    let u = Update { root: gen_root(&mut c.rng), ..FULL };
    let mut out: Vec<Mat4> = (0..n + c.rng.below(3)).map(canary_mat).collect();
    lib_ok(run_l2m(&lib, &input, &u, &mut out), "local to model")?;
    c.sig_u(bits_hash(&mats_bits(&out)));
    c.sample = json!({"joints": n, "roots": skel.parents.iter().filter(|p| **p < 0).count(), "root matrix": u.root.is_some()});
    for j in 0..n {
        check_joint(&skel, &pose, &u.root, &out, j)?;
    }
    c.ev("matrices compared", n as u64);
    c.ev("roots", skel.parents.iter().filter(|p| **p < 0).count() as u64);
    Ok(())
}

/// The whole chain in double precision: error does not accumulate beyond rounding.
fn c12_chain(c: &mut Case) -> R {
    let n = gen_count(&mut c.rng, 40);
    let mut skel = gen_skel(&mut c.rng, n);
    for x in skel.rest.iter_mut() {
        x.s = [1.0; 3];
    }
    let lib = make_skel(&skel)?;
    let pose = skel.rest.clone();
    let input = lib.joint_rest_poses().to_vec();
    let mut out: Vec<Mat4> = (0..n).map(canary_mat).collect();
    lib_ok(run_l2m(&lib, &input, &FULL, &mut out), "local to model")?;
    c.sig_u(bits_hash(&mats_bits(&out)));
    let mut want: Vec<rm::M4> = Vec::new();
    let mut reach: Vec<f64> = Vec::new();
    for j in 0..n {
        let x = &pose[j];
        let local = rm::affine(rm::v3(x.t), rm::q4(x.r), rm::v3(x.s));
        let (p, len) = match skel.parents[j] {
            -1 => (rm::M_ID, 0.0),
            p => (want[p as usize], reach[p as usize]),
        };
        want.push(rm::mmul(&p, &local));
        reach.push(len + rm::len(rm::v3(x.t)) + 1.0);
        let got = rm::mfrom(&out[j]);
        for col in 0..4 {
            for r in 0..4 {
                let tol = 5e-6 * reach[j] * (1.0 + j as f64 * 0.2);
                ensure!((got[col][r] - want[j][col][r]).abs() <= tol, "a model-space matrix is not the product of the local transforms up the chain",
                    {"joint": j, "got": got, "want": want[j]});
            }
        }
    }
    c.ev("matrices compared with whole chains", n as u64);
    Ok(())
}

fn c12_shipped(c: &mut Case) -> R {
    let s = SHIPPED_SKELETONS[c.index as usize % SHIPPED_SKELETONS.len()];
    let lib = lib_ok(Skeleton::from_path(shipped(s)), "loading a shipped skeleton")?;
    let n = lib.num_joints();
    let skel = Skel { names: vec![], parents: lib.joint_parents().to_vec(), rest: (0..n).map(|j| lane(&lib.joint_rest_poses()[j / 4], j % 4)).collect() };
    let pose = if c.rng.chance(0.5) { skel.rest.clone() } else { gen_pose(&mut c.rng, n) };
    let u = Update { root: gen_root(&mut c.rng), ..FULL };
    let mut out: Vec<Mat4> = (0..n).map(canary_mat).collect();
    lib_ok(run_l2m(&lib, &soa_vec(&pose), &u, &mut out), "local to model")?;
    c.sig_u(bits_hash(&mats_bits(&out)));
    for j in 0..n {
        check_joint(&skel, &pose, &u.root, &out, j)?;
    }
    c.ev("matrices compared", n as u64);
    Ok(())
}

fn gen_from(r: &mut Rng, n: usize) -> i32 {
    match r.below(16) {
        0 => -1,
        1 => *r.pick(&[-2, -1024, i32::MIN, i32::MIN + 1, -7]),
        2 => *r.pick(&[i32::MAX, i32::MAX - 1, 1024, 1 << 16, 32768]),
        3 => n as i32 + r.irange(-1, 2) as i32,
        _ => r.below(n) as i32,
    }
}
fn gen_to(r: &mut Rng, n: usize) -> i32 {
    match r.below(16) {
        0 => -1,
        1 => *r.pick(&[-2, -1024, i32::MIN, i32::MIN + 1]),
        2 | 3 => *r.pick(&[i32::MAX, i32::MAX - 1, 1024, 1 << 16, 32768]),
        4 => n as i32 + r.irange(-2, 2) as i32,
        _ => r.below(n) as i32,
    }
}

/// The joints an update is to rewrite.
pub fn covered(skel: &Skel, from: i32, to: i32, excluded: bool) -> Vec<bool> {
    let n = skel.n();
    let mut v = if from < 0 {
        vec![true; n]
    } else if (from as usize) < n {
        skel.subtree(from as usize)
    } else {
        vec![false; n]
    };
    if excluded && from >= 0 && (from as usize) < n {
        v[from as usize] = false;
    }
    for (j, x) in v.iter_mut().enumerate() {
        *x &= j as i64 <= to as i64;
    }
    v
}

fn c13_partial(c: &mut Case) -> R {
    let n = if c.index % 100 == 3 { c.rng.range(60, 1024) } else { gen_count(&mut c.rng, 60) };
    let skel = gen_skel(&mut c.rng, n);
    let lib = make_skel(&skel)?;
    let root = gen_root(&mut c.rng);
    let before = gen_pose(&mut c.rng, n);
    let after = gen_pose(&mut c.rng, n);
    let extra = c.rng.below(3);
    let mut out: Vec<Mat4> = (0..n + extra).map(canary_mat).collect();
    lib_ok(run_l2m(&lib, &soa_vec(&before), &Update { root, ..FULL }, &mut out), "full update")?;
    // Change the pose, then update a part; several times in a row.
    let mut current: Vec<bool> = vec![true; n];
    for step in 0..3 {
        let from = gen_from(&mut c.rng, n);
        let to = gen_to(&mut c.rng, n);
        let excluded = c.rng.chance(0.4);
        let pose = if step % 2 == 0 { &after } else { &before };
        let old = out.clone();
        let u = Update { root, from: Some(from), to: Some(to), excluded };
        let info = json!({"from": from, "to": to, "excluded": excluded, "joints": n, "parents": skel.parents});
        match guarded(|| run_l2m(&lib, &soa_vec(pose), &u, &mut out)) {
            Outcome::Done(r) => lib_ok(r, "partial update")?,
            Outcome::Panicked(m, l) => return fail(format!("a partial update panicked: {} at {}", m, l), info),
        }
        let want = covered(&skel, from, to, excluded);
        for j in 0..out.len() {
            if j < n && want[j] {
                if let Err(f) = check_joint(&skel, pose, &root, &out, j) {
                    return fail("a partial update gives a joint another matrix than a full update would", json!({"update": info, "joint": f.detail}));
                }
                c.ev("joints rewritten", 1);
                current[j] = false;
            } else {
                ensure!(mats_bits(&old[j..j + 1]) == mats_bits(&out[j..j + 1]), "a partial update rewrites a joint outside the requested part", {"joint": j, "update": info});
                c.ev("joints left alone", 1);
            }
        }
        c.sig_u(((from as u32 as u64) << 32) ^ to as u32 as u64 ^ ((excluded as u64) << 63));
    }
    c.sig_u(bits_hash(&mats_bits(&out[..n])));
    c.sample = json!({"joints": n, "parents": skel.parents});
    Ok(())
}

/// Updating piecewise until every joint is covered equals one full update, bit for bit.
fn c13_piecewise(c: &mut Case) -> R {
    let n = if c.index % 200 == 3 { c.rng.range(60, 300) } else { gen_count(&mut c.rng, 60) };
    let skel = gen_skel(&mut c.rng, n);
    let lib = make_skel(&skel)?;
    let root = gen_root(&mut c.rng);
    let pose = soa_vec(&gen_pose(&mut c.rng, n));
    let mut full: Vec<Mat4> = (0..n).map(canary_mat).collect();
    lib_ok(run_l2m(&lib, &pose, &Update { root, ..FULL }, &mut full), "full update")?;
    let mut out: Vec<Mat4> = (0..n).map(|i| canary_mat(i + 77)).collect();
    let mut pieces = Vec::new();
    match c.rng.below(3) {
        0 => {
            // Up to an index, then on from there: every joint's own subtree, in order.
            let to = c.rng.below(n) as i32;
            pieces.push((None, Some(to), false));
            for j in 0..n as i32 {
                if j > to {
                    pieces.push((Some(j), None, false));
                }
            }
        }
        1 => {
            // One joint at a time.
            for j in 0..n as i32 {
                pieces.push((Some(j), Some(j), false));
            }
        }
        _ => {
            // Each joint, then its children's subtrees excluding it.
            for j in 0..n as i32 {
                if skel.parents[j as usize] < 0 {
                    pieces.push((Some(j), Some(j), false));
                    pieces.push((Some(j), None, true));
                }
            }
        }
    }
    for (from, to, excluded) in &pieces {
        lib_ok(run_l2m(&lib, &pose, &Update { root, from: *from, to: *to, excluded: *excluded }, &mut out), "piecewise update")?;
    }
    c.sig_u(bits_hash(&mats_bits(&out)));
    for j in 0..n {
        let (a, b) = (rm::mfrom(&full[j]), rm::mfrom(&out[j]));
        let m = a.iter().flatten().fold(0.0f64, |x, y| x.max(y.abs()));
        for k in 0..4 {
            for r in 0..4 {
                ensure!((a[k][r] - b[k][r]).abs() <= 1e-6 * m, "piecewise updates do not give the matrices of one full update",
                    {"joint": j, "parents": skel.parents, "pieces": format!("{:?}", pieces)});
            }
        }
    }
    c.ev("pieces", pieces.len() as u64);
    Ok(())
}

/// Every (from, to, excluded) of small skeletons.
fn c13_small(c: &mut Case) -> R {
    let n = c.rng.range(1, 9);
    let skel = gen_skel(&mut c.rng, n);
    let lib = make_skel(&skel)?;
    let pose = gen_pose(&mut c.rng, n);
    let soa = soa_vec(&pose);
    c.sig(format!("{:?}", skel.parents).as_bytes());
    for from in -2..=n as i32 + 1 {
        for to in -2..=n as i32 + 1 {
            for excluded in [false, true] {
                let mut out: Vec<Mat4> = (0..n).map(|_| Mat4::IDENTITY).collect();
                lib_ok(run_l2m(&lib, &soa, &FULL, &mut out), "full update")?;
                let full = out.clone();
                let want = covered(&skel, from, to, excluded);
                for j in 0..n {
                    if want[j] {
                        out[j] = canary_mat(j);
                    }
                }
                let before = out.clone();
                lib_ok(run_l2m(&lib, &soa, &Update { root: None, from: Some(from), to: Some(to), excluded }, &mut out), "partial update")?;
                for j in 0..n {
                    let a = &if want[j] { full[j] } else { before[j] };
                    let m = a.to_cols_array().iter().fold(0.0f32, |x, y| x.max(y.abs()));
                    let same = if want[j] { a.to_cols_array().iter().zip(out[j].to_cols_array()).all(|(x, y)| (x - y).abs() <= 1e-6 * m) } else { mats_bits(&[*a]) == mats_bits(&out[j..j + 1]) };
                    ensure!(same, "a partial update rewrites other joints than the requested part, or with other values",
                        {"joint": j, "from": from, "to": to, "excluded": excluded, "parents": skel.parents, "requested": want[j]});
                }
                c.ev("updates of small skeletons", 1);
            }
        }
    }
    Ok(())
}

pub const GROUPS: &[Group] = &[
    Group { prop: "C12", name: "reference", quick: 60_000, thorough: 4_000_000, serial: false, exhaustive: false,
        rule: "random forests (1 to 100 joints, sometimes up to 1024), random poses, no root matrix, affine ones or any; every matrix against parent times local in double precision; distinct by the matrices",
        f: c12_reference },
    Group { prop: "C12", name: "chain", quick: 20_000, thorough: 1_000_000, serial: false, exhaustive: false,
        rule: "rest poses of rigid skeletons: every matrix against the product of the whole chain in double precision", f: c12_chain },
    Group { prop: "C12", name: "shipped", quick: 400, thorough: 10_000, serial: false, exhaustive: false,
        rule: "the shipped skeletons at rest and in random poses", f: c12_shipped },
    Group { prop: "C13", name: "partial", quick: 60_000, thorough: 4_000_000, serial: false, exhaustive: false,
        rule: "random forests; three partial updates in a row after a full one, from and to in range, around the ends and at the extremes of i32, start included or excluded; exactly the requested joints change, to the right values; distinct by update and result",
        f: c13_partial },
    Group { prop: "C13", name: "piecewise", quick: 20_000, thorough: 1_000_000, serial: false, exhaustive: false,
        rule: "random forests updated piece by piece until covered: equal to one full update", f: c13_piecewise },
    Group { prop: "C13", name: "small", quick: 3_000, thorough: 100_000, serial: false, exhaustive: false,
        rule: "skeletons of 1 to 9 joints with every start from -2 to n+1, every end, included and excluded; distinct by hierarchy", f: c13_small },
];
