//! C27: a job computes from its current configuration only. One long-lived job is configured, cleared, run and refused at
//! random; each time it is compared with a brand-new job of the same configuration.

use crate::author::*;
use crate::ensure;
use crate::fw::*;
use crate::p_blend::tbits;
use crate::p_ik::{gen_aim, gen_chain};
use crate::p_jobs::*;
use crate::rng::Rng;
use crate::util::*;
use glam::{Mat4, Quat, Vec2, Vec3, Vec3A, Vec4};
use glam_ext::Transform3A;
use ozz_animation_rs::*;
use serde_json::json;
use std::cell::RefCell;
use std::rc::Rc;

type Cell<T> = Rc<RefCell<Vec<T>>>;

fn cell<T>(v: Vec<T>) -> Cell<T> {
    Rc::new(RefCell::new(v))
}
fn same<T: ?Sized>(a: Option<&Rc<T>>, b: Option<&Rc<T>>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => Rc::ptr_eq(a, b),
        _ => false,
    }
}
fn content<T: Clone>(c: &Option<Cell<T>>) -> Option<Vec<T>> {
    c.as_ref().map(|c| c.borrow().clone())
}

/// Runs the long-lived job and a new one of the same configuration; both must do the same.
fn against_new(c: &mut Case, spec: &Spec, valid: bool, run: &mut dyn FnMut() -> Result<(), OzzError>, outs: &dyn Fn() -> Vec<Vec<u32>>) -> R {
    let mut fresh = make::<KRc>(spec)?;
    let name = spec.name();
    ensure!(fresh.job.validate() == valid, "a reused job and a new job of the same configuration disagree about being valid", {"job": name, "reused": valid});
    if let Spec::Skin { n, .. } = spec {
        if valid && *n > 1 << 20 {
            return Ok(());
        }
    }
    let (a, b) = (run(), fresh.job.run());
    match (&a, &b) {
        (Ok(()), Ok(())) => c.ev(&format!("{}: runs compared with a new job", name), 1),
        (Err(x), Err(y)) if err_name(x) == err_name(y) => c.ev(&format!("{}: refusals compared with a new job", name), 1),
        _ => {
            return fail("a reused job returns something else than a new job of the same configuration",
                json!({"job": name, "reused": a.as_ref().err().map(err_name), "new": b.as_ref().err().map(err_name)}))
        }
    }
    ensure!(outs() == fresh.job.outs(), "a reused job gives another result than a new job of the same configuration", {"job": name});
    Ok(())
}

fn sampling(c: &mut Case) -> R {
    // All animations stay alive: contexts recognise them by identity.
    let pool: Vec<(Built, Rc<Animation>, usize)> = (0..3)
        .map(|_| {
            let n = gen_count(&mut c.rng, 24).max(1);
            let o = AnimOpts { tracks: n, max_keys: 6, wild: false, flips: false };
            let (mut a, mut b) = gen_fit(&mut c.rng, &o);
            if c.rng.chance(0.08) {
                let z = Anim { duration: 1.0, name: "z".into(), num_tracks: 0, keys: Default::default(), iframes: Default::default(), pad_timepoints: 0 };
                if let Some(e) = z.build() {
                    (a, b) = (z, e);
                    c.ev("empty animations", 1);
                }
            }
            let l = Rc::new(lib_ok(load_anim(&b.write(false)), "loading a generated animation")?);
            Ok((b, l, a.num_tracks))
        })
        .collect::<Result<_, Fail>>()?;
    let most = pool.iter().map(|p| (p.2 + 3) / 4).max().unwrap();
    let mut job: SamplingJobRc = SamplingJob::default();
    let (mut anim, mut cap, mut out, mut ratio): (Option<usize>, Option<usize>, Option<Cell<SoaTransform>>, f32) = (None, None, None, 0.0);
    for step in 0..40 {
        for _ in 0..c.rng.range(1, 3) {
            match c.rng.below(14) {
                0..=2 => {
                    let k = c.rng.below(3);
                    anim = Some(k);
                    job.set_animation(pool[k].1.clone());
                }
                3 => {
                    if c.rng.chance(0.3) {
                        anim = None;
                        job.clear_animation();
                    }
                }
                4 | 5 => {
                    let k = *c.rng.pick(&[most * 4, most * 4, most * 4 + 8, pool[0].2, pool[1].2]);
                    cap = Some(k);
                    job.set_context(SamplingContext::new(k));
                }
                6 => {
                    if c.rng.chance(0.3) {
                        cap = None;
                        job.clear_context();
                    }
                }
                7 => {
                    let t = job.take_context();
                    ensure!(t.is_some() == cap.is_some(), "taking the context gives something else than was set", {"step": step});
                    ensure!(job.context().is_none() && !job.validate(), "a job still has the context that was taken", {"step": step});
                    if let Some(mut t) = t {
                        if c.rng.chance(0.3) {
                            t.clear();
                        }
                        job.set_context(t);
                    }
                }
                8 => {
                    let o = cell((0..c.rng.range(most.saturating_sub(1), most + 2)).map(canary).collect());
                    out = Some(o.clone());
                    job.set_output(o);
                }
                9 => {
                    if c.rng.chance(0.3) {
                        out = None;
                        job.clear_output();
                    }
                }
                _ => {
                    ratio = c.rng.f32(-0.1, 1.1);
                    job.set_ratio(ratio);
                    ratio = ratio.max(0.0).min(1.0);
                }
            }
        }
        ensure!(same(job.animation(), anim.map(|k| &pool[k].1)) && same(job.output(), out.as_ref()), "a sampling job reports another configuration", {"step": step});
        ensure!(job.ratio() == ratio, "a sampling job reports another ratio", {"step": step, "set": ratio, "got": job.ratio()});
        ensure!(job.context().map(|x| x.max_soa_tracks()) == cap.map(|x| (x + 3) / 4), "a sampling job reports another context", {"step": step});
        let spec = Spec::Sampling { model: anim.map(|k| pool[k].0.clone()), tracks: anim.map_or(0, |k| pool[k].2), cap, ratio, out: content(&out) };
        let v = job.validate();
        let o = out.clone();
        against_new(c, &spec, v, &mut || job.run(), &|| o.iter().map(|o| pose_bits(&o.borrow())).collect())?;
    }
    Ok(())
}

fn blending(c: &mut Case) -> R {
    let pool: Vec<(Skel, Rc<Skeleton>)> = (0..3)
        .map(|_| {
            let n = if c.rng.chance(0.08) { 0 } else { gen_count(&mut c.rng, 20) };
            let s = gen_skel(&mut c.rng, n);
            let l = Rc::new(make_skel(&s)?);
            Ok((s, l))
        })
        .collect::<Result<_, Fail>>()?;
    let most = pool.iter().map(|p| (p.0.n() + 3) / 4).max().unwrap();
    let mut job: BlendingJobRc = BlendingJob::default();
    let mut skel: Option<usize> = None;
    let mut ctx = Some(0usize);
    let mut th = 0.1f32;
    let mut out: Option<Cell<SoaTransform>> = None;
    // Shared with the job; kept here with the content.
    let gen_layer = |r: &mut Rng, add: bool| -> BlendingLayer<Cell<SoaTransform>> {
        let n = if r.chance(0.93) { most } else { r.below(most + 1) };
        let xs: Vec<Xf> = (0..n * 4).map(|_| gen_xf(r)).collect();
        let mut l = match r.below(3) {
            0 => BlendingLayer::new(cell(soa_vec(&xs))),
            1 => BlendingLayer::with_weight(cell(soa_vec(&xs)), if add { r.f32(-1.0, 1.0) } else { r.f32(-0.2, 1.5) }),
            _ => {
                let k = if r.chance(0.9) { most } else { r.below(most + 1) };
                let jw = (0..k).map(|_| Vec4::new(r.f32(-0.3, 1.0), r.f32(0.0, 1.0), 0.0, r.f32(0.0, 2.0))).collect();
                let mut l = BlendingLayer::with_joint_weights(cell(soa_vec(&xs)), jw);
                l.weight = r.f32(0.0, 1.0);
                l
            }
        };
        if r.chance(0.1) {
            l.weight = 0.0;
        }
        l
    };
    for step in 0..30 {
        for _ in 0..c.rng.range(1, 3) {
            match c.rng.below(18) {
                0 | 1 => {
                    let k = c.rng.below(3);
                    skel = Some(k);
                    job.set_skeleton(pool[k].1.clone());
                }
                2 => {
                    if c.rng.chance(0.3) {
                        skel = None;
                        job.clear_skeleton();
                    }
                }
                3 => {
                    let k = c.rng.range(0, most + 2);
                    ctx = Some(k);
                    job.set_context(BlendingContext::new(k));
                }
                4 => {
                    if c.rng.chance(0.3) {
                        ctx = None;
                        job.clear_context();
                    }
                }
                5 => {
                    let t = job.take_context();
                    ensure!(t.is_some() == ctx.is_some() && job.context().is_none() && !job.validate(), "taking a blending context leaves it in the job", {"step": step});
                    if let Some(t) = t {
                        job.set_context(t);
                    }
                }
                6 | 7 => {
                    let o = cell((0..c.rng.range(most.saturating_sub(1), most + 2)).map(canary).collect());
                    out = Some(o.clone());
                    job.set_output(o);
                }
                8 => {
                    if c.rng.chance(0.3) {
                        out = None;
                        job.clear_output();
                    }
                }
                9 => {
                    th = *c.rng.pick(&[0.1f32, 0.5, 1e-3, 2.0, 0.0, 1.0]);
                    job.set_threshold(th);
                }
                10..=12 => {
                    let l = gen_layer(&mut c.rng, false);
                    job.layers_mut().push(l);
                }
                13 | 14 => {
                    let l = gen_layer(&mut c.rng, true);
                    job.additive_layers_mut().push(l);
                }
                15 => {
                    let k = job.layers().len();
                    if k > 0 {
                        let i = c.rng.below(k);
                        if c.rng.chance(0.5) {
                            job.layers_mut().remove(i);
                        } else {
                            job.layers_mut().clear();
                        }
                    }
                }
                16 => {
                    let k = job.additive_layers().len();
                    if k > 0 {
                        let i = c.rng.below(k);
                        if c.rng.chance(0.7) {
                            job.additive_layers_mut().remove(i);
                        } else {
                            job.additive_layers_mut().clear();
                        }
                    }
                }
                _ => {
                    // The layer itself, or what it refers to, is edited.
                    let r = &mut c.rng;
                    let ls = if r.chance(0.6) || job.additive_layers().is_empty() { job.layers_mut() } else { job.additive_layers_mut() };
                    if !ls.is_empty() {
                        let i = r.below(ls.len());
                        match r.below(3) {
                            0 => ls[i].weight = r.f32(-0.5, 1.0),
                            1 => {
                                let x = [gen_xf(r), gen_xf(r), gen_xf(r), gen_xf(r)];
                                if let Some(s) = ls[i].transform.borrow_mut().last_mut() {
                                    *s = soa_of(&x);
                                }
                            }
                            _ => ls[i].joint_weights.clear(),
                        }
                    }
                }
            }
        }
        ensure!(same(job.skeleton(), skel.map(|k| &pool[k].1)) && same(job.output(), out.as_ref()) && job.context().is_some() == ctx.is_some()
            && job.threshold().to_bits() == th.to_bits(), "a blending job reports another configuration", {"step": step});
        let ls = |x: &[BlendingLayer<Cell<SoaTransform>>]| -> Vec<LayerSpec> {
            x.iter().map(|l| LayerSpec { tf: l.transform.borrow().clone(), w: l.weight, jw: l.joint_weights.clone() }).collect()
        };
        let spec = Spec::Blending {
            model: skel.map(|k| pool[k].0.clone()), ctx, threshold: th,
            layers: ls(job.layers()), adds: ls(job.additive_layers()), out: content(&out),
        };
        let v = job.validate();
        let o = out.clone();
        against_new(c, &spec, v, &mut || job.run(), &|| o.iter().map(|o| pose_bits(&o.borrow())).collect())?;
    }
    Ok(())
}

fn local_to_model(c: &mut Case) -> R {
    let pool: Vec<(Skel, Rc<Skeleton>)> = (0..3)
        .map(|_| {
            let n = if c.rng.chance(0.08) { 0 } else { gen_count(&mut c.rng, 24) };
            let s = gen_skel(&mut c.rng, n);
            let l = Rc::new(make_skel(&s)?);
            Ok((s, l))
        })
        .collect::<Result<_, Fail>>()?;
    let most = pool.iter().map(|p| p.0.n()).max().unwrap();
    let msoa = (most + 3) / 4;
    let mut job: LocalToModelJobRc = LocalToModelJob::default();
    let mut skel: Option<usize> = None;
    let (mut input, mut out): (Option<Cell<SoaTransform>>, Option<Cell<Mat4>>) = (None, None);
    let mut root: Option<Mat4> = None;
    let (mut from, mut to, mut ex) = (job.from(), job.to(), job.from_excluded());
    ensure!(from < 0 && to as i64 >= SKELETON_MAX_JOINTS as i64 - 1 && !ex, "a new local-to-model job does not cover the whole skeleton", {"from": from, "to": to});
    for step in 0..30 {
        for _ in 0..c.rng.range(1, 3) {
            match c.rng.below(13) {
                0 | 1 => {
                    let k = c.rng.below(3);
                    skel = Some(k);
                    job.set_skeleton(pool[k].1.clone());
                }
                2 => {
                    if c.rng.chance(0.3) {
                        skel = None;
                        job.clear_skeleton();
                    }
                }
                3 | 4 => {
                    let n = c.rng.range(msoa.saturating_sub(1), msoa + 1) * 4;
                    let i = cell(soa_vec(&(0..n).map(|_| gen_xf(&mut c.rng)).collect::<Vec<Xf>>()));
                    input = Some(i.clone());
                    job.set_input(i);
                }
                5 => {
                    if c.rng.chance(0.3) {
                        input = None;
                        job.clear_input();
                    }
                }
                6 | 7 => {
                    let n = c.rng.range(most.saturating_sub(1), most + 2);
                    let o = cell((0..n).map(|i| Mat4::from_translation(Vec3::new(i as f32, 2.0, 3.0))).collect());
                    out = Some(o.clone());
                    job.set_output(o);
                }
                8 => {
                    if c.rng.chance(0.3) {
                        out = None;
                        job.clear_output();
                    }
                }
                9 => {
                    let m = if c.rng.chance(0.3) { Mat4::IDENTITY } else { crate::p_skin::gen_affine(&mut c.rng) };
                    root = Some(m);
                    job.set_root(&m);
                }
                10 => {
                    from = *c.rng.pick(&[-1i32, -1, 0, 1, 3, most as i32 - 1, most as i32, i32::MAX]);
                    job.set_from(from);
                }
                11 => {
                    to = *c.rng.pick(&[SKELETON_MAX_JOINTS as i32, i32::MAX, most as i32 - 1, 0, 2, -1]);
                    job.set_to(to);
                }
                _ => {
                    ex = c.rng.chance(0.3);
                    job.set_from_excluded(ex);
                }
            }
        }
        let r = root.unwrap_or(Mat4::IDENTITY);
        ensure!(same(job.skeleton(), skel.map(|k| &pool[k].1)) && same(job.input(), input.as_ref()) && same(job.output(), out.as_ref())
            && job.from() == from && job.to() == to && job.from_excluded() == ex && mats_bits(&[job.root()]) == mats_bits(&[r]),
            "a local-to-model job reports another configuration", {"step": step});
        let spec = Spec::L2M { model: skel.map(|k| pool[k].0.clone()), input: content(&input), root, from, to, excluded: ex, out: content(&out) };
        let v = job.validate();
        let o = out.clone();
        against_new(c, &spec, v, &mut || job.run(), &|| o.iter().map(|o| mats_bits(&o.borrow())).collect())?;
    }
    Ok(())
}

fn skinning(c: &mut Case) -> R {
    let spec_pool: Vec<Spec> = (0..3).map(|_| gen_spec(&mut c.rng, 3)).collect();
    let mut job: SkinningJobRc = SkinningJob::default();
    let (mut n, mut inf) = (job.vertex_count(), job.influences_count());
    ensure!(n == 0 && inf == 0, "a new skinning job already has vertices", {});
    let (mut mats, mut its): (Option<Cell<Mat4>>, Option<Cell<Mat4>>) = (None, None);
    let mut idx: Option<Cell<u16>> = None;
    let mut w: Option<Cell<f32>> = None;
    let mut ins: [Option<Cell<Vec3>>; 3] = Default::default();
    let mut outs: [Option<Cell<Vec3>>; 3] = Default::default();
    for step in 0..40 {
        let whole = c.rng.chance(0.25);
        for _ in 0..c.rng.range(1, 4) {
            let which = c.rng.below(3);
            if let Spec::Skin { n: sn, inf: si, mats: sm, its: st, idx: sx, w: sw, ins: sin, outs: sout } = &spec_pool[which] {
                for op in 0..24 {
                    if !whole && op != 0 {
                        break;
                    }
                    let op = if whole { op } else { c.rng.below(24) };
                    macro_rules! put {
                        ($slot:expr, $v:expr, $set:ident) => {
                            if let Some(v) = $v {
                                let b = cell(v.clone());
                                $slot = Some(b.clone());
                                job.$set(b);
                            }
                        };
                    }
                    macro_rules! clear {
                        ($slot:expr, $f:ident) => {
                            if !whole && c.rng.chance(0.6) {
                                $slot = None;
                                job.$f();
                            }
                        };
                    }
                    match op {
                        0 => {
                            n = *sn;
                            job.set_vertex_count(n);
                        }
                        1 => {
                            inf = *si;
                            job.set_influences_count(inf);
                        }
                        2 => put!(mats, sm, set_joint_matrices),
                        3 => put!(its, st, set_joint_it_matrices),
                        4 => put!(idx, sx, set_joint_indices),
                        5 => put!(w, sw, set_joint_weights),
                        6 => put!(ins[0], &sin[0], set_in_positions),
                        7 => put!(ins[1], &sin[1], set_in_normals),
                        8 => put!(ins[2], &sin[2], set_in_tangents),
                        9 => put!(outs[0], &sout[0], set_out_positions),
                        10 => put!(outs[1], &sout[1], set_out_normals),
                        11 => put!(outs[2], &sout[2], set_out_tangents),
                        12 => clear!(mats, clear_joint_matrices),
                        13 | 14 => clear!(its, clear_joint_it_matrices),
                        15 => clear!(idx, clear_joint_indices),
                        16 => clear!(w, clear_joint_weights),
                        17 => clear!(ins[0], clear_in_positions),
                        18 => clear!(ins[1], clear_in_normals),
                        19 => clear!(ins[2], clear_in_tangents),
                        20 => clear!(outs[0], clear_out_positions),
                        21 => clear!(outs[1], clear_out_normals),
                        22 => clear!(outs[2], clear_out_tangents),
                        _ => {
                            if let Some(m) = &mats {
                                if let Some(x) = m.borrow_mut().last_mut() {
                                    *x = crate::p_skin::gen_affine(&mut c.rng);
                                }
                            }
                        }
                    }
                }
            }
        }
        ensure!(job.vertex_count() == n && job.influences_count() == inf && same(job.joint_matrices(), mats.as_ref()) && same(job.joint_it_matrices(), its.as_ref())
            && same(job.joint_indices(), idx.as_ref()) && same(job.joint_weights(), w.as_ref()) && same(job.in_positions(), ins[0].as_ref())
            && same(job.in_normals(), ins[1].as_ref()) && same(job.in_tangents(), ins[2].as_ref()) && same(job.out_positions(), outs[0].as_ref())
            && same(job.out_normals(), outs[1].as_ref()) && same(job.out_tangents(), outs[2].as_ref()),
            "a skinning job reports another configuration", {"step": step});
        let spec = Spec::Skin {
            n, inf, mats: content(&mats), its: content(&its), idx: content(&idx), w: content(&w),
            ins: [content(&ins[0]), content(&ins[1]), content(&ins[2])], outs: [content(&outs[0]), content(&outs[1]), content(&outs[2])],
        };
        let v = job.validate();
        let o = outs.clone();
        let bits = |v: &Cell<Vec3>| -> Vec<u32> { v.borrow().iter().flat_map(|x| x.to_array().map(f32::to_bits)).collect() };
        against_new(c, &spec, v, &mut || job.run(), &|| o.iter().flatten().map(&bits).collect())?;
    }
    Ok(())
}

// ---------------------------------------------------------------- jobs of plain values

/// The same vector; the unused fourth lane may hold anything.
fn junk(r: &mut Rng, v: Vec3A) -> Vec3A {
    let x = *r.pick(&[0.0f32, 1.0, -7.5e8, f32::NAN, f32::INFINITY, 1e-40]);
    Vec3A::from_vec4(Vec4::new(v.x, v.y, v.z, x))
}
fn bits3(v: Vec3A) -> [u32; 3] {
    v.to_array().map(f32::to_bits)
}
fn bits4(q: Quat) -> [u32; 4] {
    q.to_array().map(f32::to_bits)
}

fn two_bone(c: &mut Case) -> R {
    let mut job = IKTwoBoneJob::default();
    let (mut cur, ..) = gen_chain(&mut c.rng);
    let f = |j: &mut IKTwoBoneJob, x: &crate::p_ik::Chain| {
        j.set_start_joint(x.start);
        j.set_mid_joint(x.mid);
        j.set_end_joint(x.end);
    };
    f(&mut job, &cur);
    job.set_mid_axis(cur.mid_axis);
    job.set_target(cur.target);
    job.set_pole_vector(cur.pole);
    job.set_twist_angle(cur.twist);
    job.set_soften(cur.soften);
    job.set_weight(cur.weight);
    let mut last: Option<(Quat, Quat, bool)> = Some((Quat::IDENTITY, Quat::IDENTITY, false));
    for step in 0..20 {
        let (g, ..) = gen_chain(&mut c.rng);
        match c.rng.below(10) {
            0 | 1 => {
                f(&mut job, &g);
                job.set_mid_axis(g.mid_axis);
                (cur.start, cur.mid, cur.end, cur.mid_axis) = (g.start, g.mid, g.end, g.mid_axis);
            }
            2 | 3 => {
                cur.target = g.target;
                job.set_target(g.target);
            }
            4 => {
                cur.pole = g.pole;
                job.set_pole_vector(g.pole);
            }
            5 => {
                cur.twist = g.twist;
                job.set_twist_angle(g.twist);
            }
            6 => {
                cur.soften = *c.rng.pick(&[1.0f32, 0.5, 0.97, 0.0]);
                job.set_soften(cur.soften);
            }
            7 => {
                cur.mid_axis = if c.rng.chance(0.5) { Vec3A::new(0.3, 0.0, 0.1) } else { g.mid_axis };
                job.set_mid_axis(cur.mid_axis);
            }
            _ => {
                cur.weight = *c.rng.pick(&[0.0f32, 1.0, 1.0, 0.5, -1.0, 2.0]);
                job.set_weight(cur.weight);
            }
        }
        match c.rng.below(6) {
            0 => {
                job.clear_outs();
                last = Some((Quat::IDENTITY, Quat::IDENTITY, false));
            }
            1 => {
                job.clear_reached();
                last = last.map(|l| (l.0, l.1, false));
            }
            2 => {
                job.clear_start_joint_correction();
                last = last.map(|l| (Quat::IDENTITY, l.1, l.2));
            }
            3 => {
                job.clear_mid_joint_correction();
                last = last.map(|l| (l.0, Quat::IDENTITY, l.2));
            }
            _ => {}
        }
        ensure!(mats_bits(&[job.start_joint(), job.mid_joint(), job.end_joint()]) == mats_bits(&[cur.start, cur.mid, cur.end])
            && bits3(job.mid_axis()) == bits3(cur.mid_axis) && bits3(job.target()) == bits3(cur.target) && bits3(job.pole_vector()) == bits3(cur.pole)
            && job.twist_angle().to_bits() == cur.twist.to_bits() && job.soften().to_bits() == cur.soften.to_bits() && job.weight().to_bits() == cur.weight.to_bits(),
            "a two-bone job reports another configuration", {"step": step});
        if let Some(l) = last {
            ensure!(bits4(job.start_joint_correction()) == bits4(l.0) && bits4(job.mid_joint_correction()) == bits4(l.1) && job.reached() == l.2,
                "results of a two-bone job changed without a run, or clearing did not reset them", {"step": step});
        }
        let mut fresh = IKTwoBoneJob::default();
        f(&mut fresh, &cur);
        fresh.set_mid_axis(junk(&mut c.rng, cur.mid_axis));
        fresh.set_target(junk(&mut c.rng, cur.target));
        fresh.set_pole_vector(junk(&mut c.rng, cur.pole));
        fresh.set_twist_angle(cur.twist);
        fresh.set_soften(cur.soften);
        fresh.set_weight(cur.weight);
        match (job.run(), fresh.run()) {
            (Ok(()), Ok(())) => {
                let l = (job.start_joint_correction(), job.mid_joint_correction(), job.reached());
                ensure!(bits4(l.0) == bits4(fresh.start_joint_correction()) && bits4(l.1) == bits4(fresh.mid_joint_correction()) && l.2 == fresh.reached(),
                    "a reused job gives another result than a new job of the same configuration", {"job": "two-bone IK", "step": step});
                last = Some(l);
                c.ev("two-bone IK: runs compared with a new job", 1);
            }
            (Err(a), Err(b)) => {
                ensure!(a.is_invalid_job() && b.is_invalid_job(), "two-bone IK refuses with another error", {"step": step});
                if let Some(l) = last {
                    ensure!(bits4(job.start_joint_correction()) == bits4(l.0) && bits4(job.mid_joint_correction()) == bits4(l.1) && job.reached() == l.2,
                        "a refused two-bone job changed its results", {"step": step});
                }
                c.ev("two-bone IK: refusals compared with a new job", 1);
            }
            _ => return fail("a reused job returns something else than a new job of the same configuration", json!({"job": "two-bone IK"})),
        }
    }
    Ok(())
}

fn aim(c: &mut Case) -> R {
    let mut job = IKAimJob::default();
    let (mut cur, _) = gen_aim(&mut c.rng);
    job.set_joint(cur.joint);
    job.set_target(cur.target);
    job.set_forward(cur.forward);
    job.set_offset(cur.offset);
    job.set_up(cur.up);
    job.set_pole_vector(cur.pole);
    job.set_twist_angle(cur.twist);
    job.set_weight(cur.weight);
    let mut last = (Quat::IDENTITY, false);
    for step in 0..20 {
        let (g, _) = gen_aim(&mut c.rng);
        match c.rng.below(10) {
            0 => {
                cur.joint = g.joint;
                job.set_joint(g.joint);
            }
            1 | 2 => {
                cur.target = g.target;
                job.set_target(g.target);
            }
            3 => {
                cur.forward = if c.rng.chance(0.3) { Vec3A::new(0.5, 0.5, 0.5) } else { g.forward };
                job.set_forward(cur.forward);
            }
            4 => {
                cur.offset = g.offset;
                job.set_offset(g.offset);
            }
            5 => {
                cur.up = g.up;
                job.set_up(g.up);
            }
            6 => {
                cur.pole = g.pole;
                job.set_pole_vector(g.pole);
            }
            7 => {
                cur.twist = g.twist;
                job.set_twist_angle(g.twist);
            }
            _ => {
                cur.weight = *c.rng.pick(&[0.0f32, 1.0, 1.0, 0.5, -1.0, 2.0]);
                job.set_weight(cur.weight);
            }
        }
        match c.rng.below(5) {
            0 => {
                job.clear_outs();
                last = (Quat::IDENTITY, false);
            }
            1 => {
                job.clear_reached();
                last.1 = false;
            }
            2 => {
                job.clear_joint_correction();
                last.0 = Quat::IDENTITY;
            }
            _ => {}
        }
        ensure!(mats_bits(&[job.joint()]) == mats_bits(&[cur.joint]) && bits3(job.target()) == bits3(cur.target) && bits3(job.forward()) == bits3(cur.forward)
            && bits3(job.offset()) == bits3(cur.offset) && bits3(job.up()) == bits3(cur.up) && bits3(job.pole_vector()) == bits3(cur.pole)
            && job.twist_angle().to_bits() == cur.twist.to_bits() && job.weight().to_bits() == cur.weight.to_bits(),
            "an aim job reports another configuration", {"step": step});
        ensure!(bits4(job.joint_correction()) == bits4(last.0) && job.reached() == last.1,
            "results of an aim job changed without a run, or clearing did not reset them", {"step": step});
        let mut fresh = IKAimJob::default();
        fresh.set_joint(cur.joint);
        fresh.set_target(junk(&mut c.rng, cur.target));
        fresh.set_forward(junk(&mut c.rng, cur.forward));
        fresh.set_offset(junk(&mut c.rng, cur.offset));
        fresh.set_up(junk(&mut c.rng, cur.up));
        fresh.set_pole_vector(junk(&mut c.rng, cur.pole));
        fresh.set_twist_angle(cur.twist);
        fresh.set_weight(cur.weight);
        match (job.run(), fresh.run()) {
            (Ok(()), Ok(())) => {
                let l = (job.joint_correction(), job.reached());
                ensure!(bits4(l.0) == bits4(fresh.joint_correction()) && l.1 == fresh.reached(),
                    "a reused job gives another result than a new job of the same configuration", {"job": "aim IK", "step": step});
                last = l;
                c.ev("aim IK: runs compared with a new job", 1);
            }
            (Err(a), Err(b)) => {
                ensure!(a.is_invalid_job() && b.is_invalid_job(), "aim IK refuses with another error", {"step": step});
                ensure!(bits4(job.joint_correction()) == bits4(last.0) && job.reached() == last.1, "a refused aim job changed its results", {"step": step});
                c.ev("aim IK: refusals compared with a new job", 1);
            }
            _ => return fail("a reused job returns something else than a new job of the same configuration", json!({"job": "aim IK"})),
        }
    }
    Ok(())
}

fn tf(x: &Xf) -> Transform3A {
    Transform3A { translation: Vec3A::from_array(x.t), rotation: Quat::from_array(x.r), scale: Vec3A::from_array(x.s) }
}

fn motion(c: &mut Case) -> R {
    let mut job = MotionBlendingJob::default();
    let mut last = tbits(&Transform3A::default());
    for step in 0..20 {
        match c.rng.below(8) {
            0..=2 => {
                let x = gen_xf(&mut c.rng);
                let l = MotionBlendingLayer { weight: c.rng.f32(-0.5, 1.0), delta: tf(&x) };
                job.layers_mut().push(l);
            }
            3 => {
                let k = job.layers().len();
                if k > 0 {
                    let i = c.rng.below(k);
                    job.layers_mut().remove(i);
                }
            }
            4 => job.layers_mut().clear(),
            5 => {
                let x = gen_xf(&mut c.rng);
                job.set_output(tf(&x));
                last = tbits(&tf(&x));
            }
            6 => {
                job.clear_output();
                last = tbits(&Transform3A::default());
            }
            _ => {
                let w = c.rng.f32(-1.0, 2.0);
                if let Some(l) = job.layers_mut().last_mut() {
                    l.weight = w;
                }
            }
        }
        ensure!(tbits(&job.output()) == last, "the result of a motion blend changed without a run, or setting or clearing it did not", {"step": step});
        ensure!(job.validate(), "a motion blend is invalid", {"step": step});
        let mut fresh = MotionBlendingJob::default();
        for l in job.layers() {
            let mut d = l.delta;
            d.translation = junk(&mut c.rng, d.translation);
            d.scale = junk(&mut c.rng, d.scale);
            fresh.layers_mut().push(MotionBlendingLayer { weight: l.weight, delta: d });
        }
        lib_ok(job.run(), "blending motions")?;
        lib_ok(fresh.run(), "blending motions")?;
        last = tbits(&job.output());
        ensure!(last == tbits(&fresh.output()), "a reused job gives another result than a new job of the same configuration", {"job": "motion blending", "step": step});
        c.ev("motion blending: runs compared with a new job", 1);
    }
    Ok(())
}

fn track_job<V: track::TrackValue + 'static>(c: &mut Case, kind: usize, bits: &dyn Fn(&V) -> Vec<u32>) -> R {
    let pool: Vec<(Trk, Rc<Track<V>>)> = (0..3)
        .map(|_| {
            let t = gen_trk(&mut c.rng, kind, 10);
            let t = or_empty(&mut c.rng, t, 0.15);
            let l = Rc::new(lib_ok(load_track::<V>(&t.write(false)), "loading a generated track")?);
            Ok((t, l))
        })
        .collect::<Result<_, Fail>>()?;
    let mut job: TrackSamplingJobRc<V> = TrackSamplingJob::default();
    let (mut tr, mut ratio): (Option<usize>, f32) = (None, 0.0);
    let mut last = bits(&V::default());
    for step in 0..20 {
        match c.rng.below(8) {
            0 | 1 => {
                let k = c.rng.below(3);
                tr = Some(k);
                job.set_track(pool[k].1.clone());
            }
            2 => {
                tr = None;
                job.clear_track();
            }
            3 => {
                if c.rng.chance(0.5) {
                    job.clear_result();
                } else {
                    job.clear_outs();
                }
                last = bits(&V::default());
            }
            _ => {
                ratio = c.rng.f32(-0.2, 1.2);
                job.set_ratio(ratio);
            }
        }
        let got = job.ratio();
        ensure!(same(job.track(), tr.map(|k| &pool[k].1)) && (got == ratio || got == ratio.max(0.0).min(1.0)), "a track job reports another configuration", {"step": step});
        ensure!(bits(&job.result()) == last, "the result of a track job changed without a run, or clearing did not reset it", {"step": step});
        let mut fresh: TrackSamplingJobRc<V> = TrackSamplingJob::default();
        if let Some(k) = tr {
            fresh.set_track(pool[k].1.clone());
        }
        fresh.set_ratio(ratio);
        ensure!(job.validate() == tr.is_some() && fresh.validate() == tr.is_some(), "a track job is valid exactly when it has a track", {"step": step});
        match (job.run(), fresh.run()) {
            (Ok(()), Ok(())) if tr.is_some() => {
                ensure!(bits(&job.result()) == bits(&fresh.result()), "a reused job gives another result than a new job of the same configuration",
                    {"job": "track sampling", "step": step, "kind": kind});
                last = bits(&job.result());
                c.ev("track sampling: runs compared with a new job", 1);
            }
            (Err(a), Err(b)) if tr.is_none() => {
                ensure!(a.is_invalid_job() && b.is_invalid_job() && bits(&job.result()) == last, "a refused track job changed its result or gives another error", {"step": step});
                c.ev("track sampling: refusals compared with a new job", 1);
            }
            _ => return fail("a reused job returns something else than a new job of the same configuration", json!({"job": "track sampling"})),
        }
    }
    Ok(())
}

fn tracks(c: &mut Case) -> R {
    let kind = c.rng.below(5);
    match kind {
        0 => track_job::<f32>(c, 0, &|v| vec![v.to_bits()]),
        1 => track_job::<Vec2>(c, 1, &|v| v.to_array().map(f32::to_bits).to_vec()),
        2 => track_job::<Vec3>(c, 2, &|v| v.to_array().map(f32::to_bits).to_vec()),
        3 => track_job::<Vec4>(c, 3, &|v| v.to_array().map(f32::to_bits).to_vec()),
        _ => track_job::<Quat>(c, 4, &|v| v.to_array().map(f32::to_bits).to_vec()),
    }
}

fn triggering(c: &mut Case) -> R {
    let pool: Vec<Rc<Track<f32>>> = (0..3)
        .map(|_| {
            let t = crate::p_track::gen_edge_track(&mut c.rng, false);
            let t = or_empty(&mut c.rng, t, 0.15);
            Ok(Rc::new(lib_ok(load_track::<f32>(&t.write(false)), "loading a generated track")?))
        })
        .collect::<Result<_, Fail>>()?;
    let mut job: TrackTriggeringJobRc = TrackTriggeringJob::default();
    let (mut tr, mut from, mut to, mut th): (Option<usize>, f32, f32, f32) = (None, 0.0, 0.0, 0.0);
    let read = |j: &mut TrackTriggeringJobRc, part: Option<usize>| -> Result<Vec<(u32, bool)>, OzzError> {
        let it = j.run()?;
        Ok(it.take(part.unwrap_or(100_000)).map(|e| {
            let e = serde_json::to_value(e).unwrap();
            ((e["ratio"].as_f64().unwrap_or(f64::NAN) as f32).to_bits(), e["rising"].as_bool().unwrap())
        }).collect())
    };
    for step in 0..20 {
        match c.rng.below(8) {
            0 | 1 => {
                let k = c.rng.below(3);
                tr = Some(k);
                job.set_track(pool[k].clone());
            }
            2 => {
                if c.rng.chance(0.4) {
                    tr = None;
                    job.clear_track();
                }
            }
            3 | 4 => {
                from = c.rng.f32(-3.0, 3.0);
                job.set_from(from);
            }
            5 | 6 => {
                to = c.rng.f32(-3.0, 3.0);
                job.set_to(to);
            }
            _ => {
                th = c.rng.f32(-1.0, 1.0);
                job.set_threshold(th);
            }
        }
        ensure!(same(job.track(), tr.map(|k| &pool[k])) && job.from().to_bits() == from.to_bits() && job.to().to_bits() == to.to_bits()
            && job.threshold().to_bits() == th.to_bits(), "a triggering job reports another configuration", {"step": step});
        ensure!(job.validate() == tr.is_some(), "a triggering job is valid exactly when it has a track", {"step": step});
        let mut fresh: TrackTriggeringJobRc = TrackTriggeringJob::default();
        if let Some(k) = tr {
            fresh.set_track(pool[k].clone());
        }
        fresh.set_from(from);
        fresh.set_to(to);
        fresh.set_threshold(th);
        // An iterator that is given up half way leaves nothing behind.
        if c.rng.chance(0.3) {
            let _ = read(&mut job, Some(1));
        }
        match (read(&mut job, None), read(&mut fresh, None)) {
            (Ok(a), Ok(b)) if tr.is_some() => {
                ensure!(a == b, "a reused job gives another result than a new job of the same configuration", {"job": "track triggering", "step": step});
                c.ev("track triggering: runs compared with a new job", 1);
                c.ev("track triggering: edges", a.len() as u64);
            }
            (Err(a), Err(b)) if tr.is_none() => {
                ensure!(a.is_invalid_job() && b.is_invalid_job(), "a triggering job without a track gives another error", {"step": step});
                c.ev("track triggering: refusals compared with a new job", 1);
            }
            _ => return fail("a reused job returns something else than a new job of the same configuration", json!({"job": "track triggering"})),
        }
    }
    Ok(())
}

fn reuse(c: &mut Case) -> R {
    let which = c.index as usize % 9;
    c.sig_u(c.index);
    let mut r = c.rng.clone();
    c.sig_u(r.u64());
    let name = ["sampling", "blending", "local to model", "skinning", "two-bone IK", "aim IK", "motion blending", "track sampling", "track triggering"][which];
    c.sample = json!({"job": name});
    match which {
        0 => sampling(c),
        1 => blending(c),
        2 => local_to_model(c),
        3 => skinning(c),
        4 => two_bone(c),
        5 => aim(c),
        6 => motion(c),
        7 => tracks(c),
        _ => triggering(c),
    }
}

/// What a new job has before anything is set: every value as documented, and running without having set a value is the same
/// as setting it to that.
fn defaults(c: &mut Case) -> R {
    c.sig_u(c.rng.clone().u64());
    macro_rules! are {
        ($job:expr, $($cond:expr),* $(,)?) => { $( ensure!($cond, "a new job differs from what is documented", {"job": $job, "expected": stringify!($cond)}); )* };
    }
    let a = IKAimJob::default();
    are!("aim IK", a.target() == Vec3A::ZERO, a.forward() == Vec3A::X, a.offset() == Vec3A::ZERO, a.up() == Vec3A::Y, a.pole_vector() == Vec3A::Y,
        a.twist_angle() == 0.0, a.weight() == 1.0, a.joint() == Mat4::IDENTITY, a.joint_correction() == Quat::IDENTITY, !a.reached());
    let t = IKTwoBoneJob::default();
    are!("two-bone IK", t.target() == Vec3A::ZERO, t.mid_axis() == Vec3A::Z, t.pole_vector() == Vec3A::Y, t.twist_angle() == 0.0, t.soften() == 1.0,
        t.weight() == 1.0, t.start_joint() == Mat4::IDENTITY, t.mid_joint() == Mat4::IDENTITY, t.end_joint() == Mat4::IDENTITY,
        t.start_joint_correction() == Quat::IDENTITY, t.mid_joint_correction() == Quat::IDENTITY, !t.reached());
    let l: LocalToModelJobRc = LocalToModelJob::default();
    are!("local to model", l.skeleton().is_none(), l.input().is_none(), l.output().is_none(), l.root() == Mat4::IDENTITY, l.from() == SKELETON_NO_PARENT,
        l.to() == SKELETON_MAX_JOINTS, !l.from_excluded(), !l.validate());
    let b: BlendingJobRc = BlendingJob::default();
    are!("blending", b.skeleton().is_none(), b.context().is_some(), b.threshold() == 0.1, b.layers().is_empty(), b.additive_layers().is_empty(), b.output().is_none(), !b.validate());
    let s: SamplingJobRc = SamplingJob::default();
    are!("sampling", s.animation().is_none(), s.context().is_none(), s.ratio() == 0.0, s.output().is_none(), !s.validate());
    let k: SkinningJobRc = SkinningJob::default();
    are!("skinning", k.vertex_count() == 0, k.influences_count() == 0, k.joint_matrices().is_none(), k.joint_it_matrices().is_none(), k.joint_indices().is_none(),
        k.joint_weights().is_none(), k.in_positions().is_none(), k.in_normals().is_none(), k.in_tangents().is_none(), k.out_positions().is_none(),
        k.out_normals().is_none(), k.out_tangents().is_none(), !k.validate());
    let m = MotionBlendingJob::default();
    are!("motion blending", m.layers().is_empty(), m.validate());
    let x: TrackSamplingJobRc<Vec3> = TrackSamplingJob::default();
    are!("track sampling", x.track().is_none(), x.ratio() == 0.0, x.result() == Vec3::ZERO, !x.validate());
    let g: TrackTriggeringJobRc = TrackTriggeringJob::default();
    are!("track triggering", g.track().is_none(), g.from() == 0.0, g.to() == 0.0, g.threshold() == 0.0, !g.validate());
    let e = BlendingLayer::new(cell(vec![SoaTransform::IDENTITY; 2]));
    are!("a blending layer", e.weight == 0.0, e.joint_weights.is_empty(), e.transform.borrow().len() == 2);
    let (w, jw) = (c.rng.f32(-1.0, 1.0), vec![Vec4::splat(c.rng.f32(0.0, 1.0)); 2]);
    let e = BlendingLayer::with_weight(cell(vec![SoaTransform::IDENTITY; 2]), w);
    are!("a blending layer with a weight", e.weight == w, e.joint_weights.is_empty());
    let e = BlendingLayer::with_joint_weights(cell(vec![SoaTransform::IDENTITY; 2]), jw.clone());
    are!("a blending layer with joint weights", e.weight == 0.0, e.joint_weights == jw);
    let e = MotionBlendingLayer::default();
    are!("a motion layer", e.weight == 0.0);
    are!("the limits", SKELETON_MAX_JOINTS == 1024, SKELETON_MAX_SOA_JOINTS == 256, SKELETON_NO_PARENT == -1);
    c.ev("new jobs looked at", 10);

    // Left alone or set to the documented value.
    let (q, _) = gen_aim(&mut c.rng);
    let mut jobs = [IKAimJob::default(), IKAimJob::default()];
    for (set, j) in jobs.iter_mut().enumerate() {
        let mut r = c.rng.clone();
        j.set_joint(q.joint);
        j.set_target(q.target);
        for part in 0..6 {
            let chosen = r.chance(0.4);
            match (part, chosen, set == 1) {
                (_, false, false) => {}
                (0, ch, _) => j.set_forward(if ch { q.forward } else { Vec3A::X }),
                (1, ch, _) => j.set_up(if ch { q.up } else { Vec3A::Y }),
                (2, ch, _) => j.set_pole_vector(if ch { q.pole } else { Vec3A::Y }),
                (3, ch, _) => j.set_offset(if ch { q.offset } else { Vec3A::ZERO }),
                (4, ch, _) => j.set_twist_angle(if ch { q.twist } else { 0.0 }),
                (_, ch, _) => j.set_weight(if ch { q.weight } else { 1.0 }),
            }
        }
        if let Err(e) = j.run() {
            return fail("a job with its remaining values left alone is refused", json!({"job": "aim IK", "error": err_name(&e)}));
        }
    }
    ensure!(bits4(jobs[0].joint_correction()) == bits4(jobs[1].joint_correction()) && jobs[0].reached() == jobs[1].reached(),
        "a value left alone is not the documented one", {"job": "aim IK"});
    let (q, ..) = gen_chain(&mut c.rng);
    let mut jobs = [IKTwoBoneJob::default(), IKTwoBoneJob::default()];
    for (set, j) in jobs.iter_mut().enumerate() {
        let mut r = c.rng.clone();
        j.set_start_joint(q.start);
        j.set_mid_joint(q.mid);
        j.set_end_joint(q.end);
        j.set_target(q.target);
        for part in 0..5 {
            let chosen = r.chance(0.4);
            match (part, chosen, set == 1) {
                (_, false, false) => {}
                (0, ch, _) => j.set_mid_axis(if ch { q.mid_axis } else { Vec3A::Z }),
                (1, ch, _) => j.set_pole_vector(if ch { q.pole } else { Vec3A::Y }),
                (2, ch, _) => j.set_twist_angle(if ch { q.twist } else { 0.0 }),
                (3, ch, _) => j.set_soften(if ch { q.soften } else { 1.0 }),
                (_, ch, _) => j.set_weight(if ch { q.weight } else { 1.0 }),
            }
        }
        if let Err(e) = j.run() {
            return fail("a job with its remaining values left alone is refused", json!({"job": "two-bone IK", "error": err_name(&e)}));
        }
    }
    ensure!(bits4(jobs[0].start_joint_correction()) == bits4(jobs[1].start_joint_correction())
        && bits4(jobs[0].mid_joint_correction()) == bits4(jobs[1].mid_joint_correction()) && jobs[0].reached() == jobs[1].reached(),
        "a value left alone is not the documented one", {"job": "two-bone IK"});
    c.ev("jobs with values left alone", 2);
    Ok(())
}

pub static GROUPS: &[Group] = &[
    Group { prop: "C27", name: "defaults", quick: 2_000, thorough: 100_000, serial: false, exhaustive: false, f: defaults,
        rule: "every getter of a new job of each kind gives the documented value; IK jobs with some values left alone give the results of jobs where those are set to the documented values" },
    Group { prop: "C27", name: "reuse", quick: 36_000, thorough: 1_800_000, serial: false, exhaustive: false, f: reuse,
        rule: "one job object of each kind is set, cleared, run and refused 20 to 40 times; after each step its getters, its validity and its results are compared with a brand-new job of the same configuration" },
];
