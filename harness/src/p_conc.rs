//! C23 concurrent jobs: shared assets, pipelines over lock-protected buffers, and buffers read while they are written.

use crate::fw::*;
use crate::p_prog::*;
use crate::p_sampling::Walk;
use crate::rng::Rng;
use crate::util::*;
use glam::{Mat4, Vec3};
use ozz_animation_rs::*;
use serde_json::json;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

const SLOW: bool = cfg!(miri);

// ---------------------------------------------------------------- threads that may never end

/// The threads of one case. They own everything they use, so that a deadlocked case can be left behind.
struct Crew<T: Send + 'static> {
    tx: Sender<(usize, Result<T, String>, Option<String>)>,
    rx: Receiver<(usize, Result<T, String>, Option<String>)>,
    tids: Arc<Mutex<Vec<u64>>>,
    n: usize,
}

fn asleep(tids: &[u64]) -> bool {
    tids.iter().all(|t| match std::fs::read_to_string(format!("/proc/self/task/{}/stat", t)) {
        Ok(s) => s[s.rfind(')').unwrap_or(0) + 1..].trim_start().starts_with('S'),
        Err(_) => true,
    })
}

impl<T: Send + 'static> Crew<T> {
    fn new() -> Crew<T> {
        let (tx, rx) = channel();
        Crew { tx, rx, tids: Arc::new(Mutex::new(vec![])), n: 0 }
    }
    fn spawn(&mut self, f: impl FnOnce() -> T + Send + 'static) {
        let (tx, id, tids) = (self.tx.clone(), self.n, self.tids.clone());
        self.n += 1;
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                if !SLOW {
                    tids.lock().unwrap().push(gettid());
                }
                // A panic message is kept for the case's thread.
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                let panic = r.is_err().then(|| take_panic());
                let r = r.map_err(|_| "panicked".to_string());
                // A panic of the library is a verdict, one of the harness is not.
                let (r, panic) = match panic {
                    Some((m, lib)) => (r, Some(format!("{}{}", if lib { "" } else { "harness: " }, m))),
                    None => (r, None),
                };
                let _ = tx.send((id, r, panic));
            })
            .unwrap();
    }
    /// Waits for everyone. Blocked for good: nobody has ended for a minute and every thread sleeps, seen again and again.
    fn join(self) -> Result<Vec<T>, Fail> {
        let mut out: Vec<Option<T>> = (0..self.n).map(|_| None).collect();
        let mut left = self.n;
        let mut last = Instant::now();
        while left > 0 {
            match self.rx.recv_timeout(Duration::from_millis(if SLOW { 60_000_000 } else { 500 })) {
                Ok((id, Ok(v), _)) => {
                    out[id] = Some(v);
                    left -= 1;
                    last = Instant::now();
                }
                Ok((_, Err(_), p)) => {
                    let p = p.unwrap_or_default();
                    if p.starts_with("harness: ") {
                        panic!("{}", p);
                    }
                    return fail(format!("a job panicked on one of the threads: {}", p), json!({}));
                }
                Err(RecvTimeoutError::Timeout) => {
                    if last.elapsed() > Duration::from_secs(40) {
                        let tids = self.tids.lock().unwrap().clone();
                        let mut still = true;
                        for _ in 0..50 {
                            std::thread::sleep(Duration::from_millis(100));
                            still &= asleep(&tids);
                        }
                        if still && self.rx.try_recv().is_err() {
                            return fail("deadlock: the threads wait for each other", json!({"waiting": left, "threads": self.n}));
                        }
                    }
                }
                Err(RecvTimeoutError::Disconnected) => break,
            }
        }
        Ok(out.into_iter().map(|v| v.unwrap()).collect())
    }
}

fn pause(r: &mut Rng) {
    if SLOW {
        if r.chance(0.5) {
            std::thread::yield_now();
        }
        return;
    }
    match r.below(8) {
        0 => std::thread::yield_now(),
        1 => {
            for _ in 0..r.below(400) {
                std::hint::spin_loop();
            }
        }
        2 if r.chance(0.05) => std::thread::sleep(Duration::from_micros(r.below(60) as u64)),
        _ => {}
    }
}

// ---------------------------------------------------------------- shared assets

fn shared(c: &mut Case) -> R {
    let small = SLOW || c.rng.chance(0.3);
    let assets = gen_assets(&mut c.rng, small);
    c.sig(&assets.anims[0].0);
    let threads = if SLOW { 2 } else { c.rng.range(2, 6) };
    let steps = if SLOW { 6 } else { c.rng.range(8, 40) };
    let o = Opts { steps, small, hostile: false };
    // Some threads run the very same program.
    let same = c.rng.chance(0.4);
    let first = c.rng.u64();
    let seeds: Vec<u64> = (0..threads).map(|_| if same { first } else { c.rng.u64() }).collect();
    // Alone, on assets of their own.
    let mut alone = vec![];
    for s in &seeds {
        let w = load_world(&assets)?;
        alone.push(run_program(&w, Rng::new(*s), o)?);
    }
    let world = Arc::new(load_world(&assets)?);
    let barrier = Arc::new(Barrier::new(threads));
    let mut crew: Crew<Result<Trace, Fail>> = Crew::new();
    for s in &seeds {
        let (w, b, s) = (world.clone(), barrier.clone(), *s);
        crew.spawn(move || {
            b.wait();
            run_program(&w, Rng::new(s), o)
        });
    }
    drop(world); // The last thread drops the assets.
    let got = crew.join()?;
    for (i, (t, a)) in got.into_iter().zip(&alone).enumerate() {
        let t = t?;
        if let Some((k, what)) = a.differs(&t, true) {
            return fail(format!("{} gives another result among other threads than alone", what), json!({"thread": i, "of": threads, "step": k, "same_program": same}));
        }
        c.ev("steps compared with running alone", t.steps.len() as u64);
    }
    c.ev("threads", threads as u64);
    c.sample = json!({"threads": threads, "steps": steps, "same": same, "joints": assets.joints});
    Ok(())
}

// ---------------------------------------------------------------- pipelines

struct Rig {
    assets: Assets,
    agents: usize,
    frames: usize,
    /// Ratio of each agent in each frame.
    ratios: Vec<Vec<f32>>,
    weights: Vec<f32>,
    indices: Vec<u16>,
    points: Vec<Vec3>,
    inf: usize,
    jw: Vec<f32>,
}

fn gen_rig(r: &mut Rng) -> Rig {
    let small = SLOW || r.chance(0.5);
    let assets = gen_assets(r, small);
    let agents = if SLOW { 2 } else { r.range(1, 3) };
    let frames = if SLOW { 2 } else { r.range(3, 12) };
    let mut walk = Walk::new();
    let ratios = (0..agents).map(|_| (0..frames).map(|_| walk.next(r, &assets.anims[0].1)).collect()).collect();
    let n = if SLOW { 2 } else { r.range(1, 40) };
    let inf = r.range(1, 4);
    Rig {
        agents,
        frames,
        ratios,
        weights: (0..agents).map(|_| r.f32(0.1, 1.0)).collect(),
        indices: (0..n * inf).map(|_| r.below(assets.joints) as u16).collect(),
        points: (0..n).map(|_| Vec3::from_array(r.vec3(2.0))).collect(),
        inf,
        jw: (0..n * (inf - 1)).map(|_| r.f32(0.0, 0.3)).collect(),
        assets,
    }
}

/// All the jobs of one rig over shared buffers.
struct Jobs {
    samplers: Vec<SamplingJobArc>,
    blend: BlendingJobArc,
    l2m: LocalToModelJobArc,
    skin: SkinningJobArc,
    locals: Vec<OzzArcBuf<SoaTransform>>,
    blended: OzzArcBuf<SoaTransform>,
    models: OzzArcBuf<Mat4>,
    skinned: OzzArcBuf<Vec3>,
}

fn build(rig: &Rig, skel: &Arc<Skeleton>, anim: &Arc<Animation>) -> Jobs {
    let soa = skel.num_soa_joints().max(anim.num_soa_tracks());
    let locals: Vec<_> = (0..rig.agents).map(|_| ozz_arc_buf(vec![SoaTransform::default(); soa])).collect();
    let blended = ozz_arc_buf(vec![SoaTransform::default(); skel.num_soa_joints()]);
    let models = ozz_arc_buf(vec![Mat4::IDENTITY; skel.num_joints()]);
    let skinned = ozz_arc_buf(vec![Vec3::ZERO; rig.points.len()]);
    let samplers = locals
        .iter()
        .map(|l| {
            let mut s: SamplingJobArc = SamplingJob::default();
            s.set_animation(anim.clone());
            s.set_context(SamplingContext::new(anim.num_tracks()));
            s.set_output(l.clone());
            s
        })
        .collect();
    let mut blend: BlendingJobArc = BlendingJob::default();
    blend.set_skeleton(skel.clone());
    for (l, w) in locals.iter().zip(&rig.weights) {
        blend.layers_mut().push(BlendingLayer::with_weight(l.clone(), *w));
    }
    blend.set_output(blended.clone());
    let mut l2m: LocalToModelJobArc = LocalToModelJob::default();
    l2m.set_skeleton(skel.clone());
    l2m.set_input(blended.clone());
    l2m.set_output(models.clone());
    let mut skin: SkinningJobArc = SkinningJob::default();
    skin.set_vertex_count(rig.points.len());
    skin.set_influences_count(rig.inf);
    skin.set_joint_matrices(models.clone());
    skin.set_joint_indices(ozz_arc_buf(rig.indices.clone()));
    if rig.inf > 1 {
        skin.set_joint_weights(ozz_arc_buf(rig.jw.clone()));
    }
    skin.set_in_positions(ozz_arc_buf(rig.points.clone()));
    skin.set_out_positions(skinned.clone());
    Jobs { samplers, blend, l2m, skin, locals, blended, models, skinned }
}

#[derive(Clone, PartialEq, Debug)]
struct Frame {
    locals: Vec<u64>,
    blended: u64,
    models: u64,
    skinned: u64,
}

fn h_pose(v: &[SoaTransform]) -> u64 {
    let mut d = D::new();
    d.words(&pose_bits(v));
    d.end()
}
fn h_mats(v: &[Mat4]) -> u64 {
    let mut d = D::new();
    d.words(&mats_bits(v));
    d.end()
}
fn h_vecs(v: &[Vec3]) -> u64 {
    let mut d = D::new();
    v.iter().for_each(|x| d.fs(&x.to_array()));
    d.end()
}

impl Jobs {
    fn frame(&self) -> Frame {
        Frame {
            locals: self.locals.iter().map(|l| h_pose(&l.read().unwrap())).collect(),
            blended: h_pose(&self.blended.read().unwrap()),
            models: h_mats(&self.models.read().unwrap()),
            skinned: h_vecs(&self.skinned.read().unwrap()),
        }
    }
}

fn run_ok(r: Result<(), OzzError>, what: &str) -> Result<(), String> {
    r.map_err(|e| format!("{} was refused: {}", what, err_name(&e)))
}

/// What every frame is when one thread does everything.
fn alone(rig: &Rig) -> Result<Vec<Frame>, Fail> {
    let w = load_world(&rig.assets)?;
    let World { skel, anims, .. } = w;
    let (skel, anim) = (Arc::new(skel), Arc::new(anims.into_iter().next().unwrap()));
    let mut j = build(rig, &skel, &anim);
    let mut out = vec![];
    for f in 0..rig.frames {
        for (s, rs) in j.samplers.iter_mut().zip(&rig.ratios) {
            s.set_ratio(rs[f]);
            lib_ok(s.run(), "sampling")?;
        }
        lib_ok(j.blend.run(), "blending")?;
        lib_ok(j.l2m.run(), "local to model")?;
        lib_ok(j.skin.run(), "skinning")?;
        out.push(j.frame());
    }
    Ok(out)
}

/// A thread per stage; each hands over to the next, and the jobs themselves move between two threads of a stage.
fn pipeline(c: &mut Case) -> R {
    let rig = Arc::new(gen_rig(&mut c.rng));
    c.sig(&rig.assets.anims[0].0);
    let want = alone(&rig)?;
    let World { skel, anims, .. } = load_world(&rig.assets)?;
    let (skel, anim) = (Arc::new(skel), Arc::new(anims.into_iter().next().unwrap()));
    let j = build(&rig, &skel, &anim);
    drop((skel, anim));
    let Jobs { samplers, blend, l2m, skin, locals, blended, models, skinned } = j;
    let mut crew: Crew<Result<Vec<Frame>, String>> = Crew::new();
    // Samplers: each job lives on two threads in turn.
    let (done_tx, done_rx) = channel::<usize>();
    let mut go = vec![];
    for (k, s) in samplers.into_iter().enumerate() {
        let (a_tx, a_rx) = channel::<(usize, SamplingJobArc)>();
        let (b_tx, b_rx) = channel::<(usize, SamplingJobArc)>();
        let (start_tx, start_rx) = channel::<usize>();
        go.push(start_tx);
        let mut rng = Rng::new(c.rng.u64());
        let start_rx = Arc::new(Mutex::new(start_rx));
        a_tx.send((0, s)).unwrap();
        for (rx, tx) in [(a_rx, b_tx), (b_rx, a_tx)] {
            let (rig, done, start) = (rig.clone(), done_tx.clone(), start_rx.clone());
            let mut rng = Rng::new(rng.u64());
            crew.spawn(move || {
                while let Ok((f, mut s)) = rx.recv() {
                    if f == rig.frames {
                        let _ = tx.send((f, s));
                        break;
                    }
                    if start.lock().unwrap().recv().is_err() {
                        break;
                    }
                    s.set_ratio(rig.ratios[k][f]);
                    pause(&mut rng);
                    run_ok(s.run(), "sampling")?;
                    // Hand the job over before telling that the frame is there.
                    let _ = tx.send((f + 1, s));
                    if done.send(k).is_err() {
                        break;
                    }
                }
                Ok(vec![])
            });
        }
    }
    drop(done_tx);
    let (b_tx, b_rx) = channel::<(usize, LocalToModelJobArc)>();
    let (m_tx, m_rx) = channel::<usize>();
    let (back_tx, back_rx) = channel::<LocalToModelJobArc>();
    back_tx.send(l2m).unwrap();
    let (next_tx, next_rx) = channel::<()>();
    let mut rng = Rng::new(c.rng.u64());
    {
        let rig = rig.clone();
        let mut blend = blend;
        crew.spawn(move || {
            for f in 0..rig.frames {
                for g in &go {
                    let _ = g.send(f);
                }
                for _ in 0..rig.agents {
                    done_rx.recv().map_err(|_| "a sampler stopped".to_string())?;
                }
                pause(&mut rng);
                run_ok(blend.run(), "blending")?;
                let l = back_rx.recv().map_err(|_| "local to model stopped".to_string())?;
                let _ = b_tx.send((f, l));
                next_rx.recv().map_err(|_| "the end of the pipeline stopped".to_string())?;
            }
            Ok(vec![])
        });
    }
    let mut rng = Rng::new(c.rng.u64());
    crew.spawn(move || {
        while let Ok((f, mut l)) = b_rx.recv() {
            pause(&mut rng);
            run_ok(l.run(), "local to model")?;
            let _ = back_tx.send(l);
            let _ = m_tx.send(f);
        }
        Ok(vec![])
    });
    {
        let mut skin = skin;
        crew.spawn(move || {
            let mut out = vec![];
            while let Ok(_) = m_rx.recv() {
                run_ok(skin.run(), "skinning")?;
                out.push(Frame {
                    locals: locals.iter().map(|l| h_pose(&l.read().unwrap())).collect(),
                    blended: h_pose(&blended.read().unwrap()),
                    models: h_mats(&models.read().unwrap()),
                    skinned: h_vecs(&skinned.read().unwrap()),
                });
                let _ = next_tx.send(());
            }
            Ok(out)
        });
    }
    let got = crew.join()?;
    let mut frames = vec![];
    for g in got {
        match g {
            Ok(f) => frames.extend(f),
            Err(e) => return fail(format!("in a pipeline of threads {}", e), json!({})),
        }
    }
    if frames != want {
        let k = (0..want.len()).find(|i| frames.get(*i) != Some(&want[*i]));
        return fail("a pipeline of threads gives other frames than one thread", json!({"frame": k, "frames": want.len(), "got": frames.len()}));
    }
    c.ev("frames handed through threads", want.len() as u64);
    c.sample = json!({"agents": rig.agents, "frames": rig.frames, "joints": rig.assets.joints});
    Ok(())
}

/// Jobs that read a buffer while another job writes it: each run sees one complete state of it.
fn contention(c: &mut Case) -> R {
    let rig = Arc::new(gen_rig(&mut c.rng));
    c.sig(&rig.assets.anims[0].0);
    let World { skel, anims, .. } = load_world(&rig.assets)?;
    let (skel, anim) = (Arc::new(skel), Arc::new(anims.into_iter().next().unwrap()));
    let soa = skel.num_soa_joints().max(anim.num_soa_tracks());
    let buf = ozz_arc_buf(vec![SoaTransform::default(); soa]);
    // Everything the buffer will ever hold, and the matrices each state gives.
    let mut states = HashSet::new();
    let mut matrices = HashSet::new();
    {
        let mut ctx = SamplingContext::new(anim.num_tracks());
        let mut put = |v: &[SoaTransform]| -> R {
            states.insert(h_pose(v));
            let mut m = vec![Mat4::IDENTITY; skel.num_joints()];
            let mut l: LocalToModelJobRef = LocalToModelJob::default();
            l.set_skeleton(&skel);
            l.set_input(v);
            l.set_output(&mut m);
            lib_ok(l.run(), "local to model")?;
            drop(l);
            matrices.insert(h_mats(&m));
            Ok(())
        };
        let mut v = vec![SoaTransform::default(); soa];
        put(&v)?;
        for r in &rig.ratios[0] {
            let p = sample_with(&mut ctx, &anim, *r)?;
            v[..p.len()].copy_from_slice(&p);
            put(&v)?;
        }
    }
    let stop = Arc::new(AtomicBool::new(false));
    let seen = Arc::new(AtomicU64::new(0));
    let readers = if SLOW { 1 } else { c.rng.range(1, 3) };
    let mut crew: Crew<Result<(HashSet<u64>, HashSet<u64>, u64), String>> = Crew::new();
    let barrier = Arc::new(Barrier::new(readers + 2));
    {
        let (rig, anim, buf, stop, barrier, seen) = (rig.clone(), anim.clone(), buf.clone(), stop.clone(), barrier.clone(), seen.clone());
        let mut rng = Rng::new(c.rng.u64());
        crew.spawn(move || {
            let mut s: SamplingJobArc = SamplingJob::default();
            s.set_animation(anim.clone());
            s.set_context(SamplingContext::new(anim.num_tracks()));
            s.set_output(buf);
            barrier.wait();
            let mut n = 0;
            let rounds = if SLOW { 1 } else { 4 };
            for _ in 0..rounds {
                for r in &rig.ratios[0] {
                    pause(&mut rng);
                    s.set_ratio(*r);
                    if let Err(e) = s.run() {
                        stop.store(true, Ordering::SeqCst);
                        return Err(format!("sampling was refused: {}", err_name(&e)));
                    }
                    n += 1;
                }
            }
            // Until every reader has run at least a few times.
            let t = Instant::now();
            while !SLOW && seen.load(Ordering::SeqCst) < 3 * readers as u64 && t.elapsed() < Duration::from_secs(20) {
                std::thread::yield_now();
            }
            stop.store(true, Ordering::SeqCst);
            Ok((HashSet::new(), HashSet::new(), n))
        });
    }
    for _ in 0..readers {
        let (skel, buf, stop, barrier, seen) = (skel.clone(), buf.clone(), stop.clone(), barrier.clone(), seen.clone());
        let mut rng = Rng::new(c.rng.u64());
        crew.spawn(move || {
            let models = ozz_arc_buf(vec![Mat4::IDENTITY; skel.num_joints()]);
            let mut l: LocalToModelJobArc = LocalToModelJob::default();
            l.set_skeleton(skel);
            l.set_input(buf);
            l.set_output(models.clone());
            barrier.wait();
            let (mut got, mut n) = (HashSet::new(), 0);
            loop {
                pause(&mut rng);
                run_ok(l.run(), "local to model")?;
                got.insert(h_mats(&models.read().unwrap()));
                n += 1;
                seen.fetch_add(1, Ordering::SeqCst);
                if stop.load(Ordering::SeqCst) {
                    break;
                }
            }
            Ok((got, HashSet::new(), n))
        });
    }
    {
        // A plain reader of the lock.
        let (buf, stop, barrier) = (buf.clone(), stop.clone(), barrier.clone());
        let mut rng = Rng::new(c.rng.u64());
        crew.spawn(move || {
            barrier.wait();
            let (mut got, mut n) = (HashSet::new(), 0);
            loop {
                pause(&mut rng);
                got.insert(h_pose(&buf.read().unwrap()));
                n += 1;
                if stop.load(Ordering::SeqCst) {
                    break;
                }
            }
            Ok((HashSet::new(), got, n))
        });
    }
    drop((skel, anim, buf));
    let got = crew.join()?;
    for g in got {
        match g {
            Err(e) => return fail(format!("beside jobs that use the same buffer, {}", e), json!({})),
            Ok((m, s, n)) => {
                if !m.is_subset(&matrices) {
                    return fail("a job that reads a shared buffer while another writes it computes from a mixture of states", json!({"runs": n}));
                }
                if !s.is_subset(&states) {
                    return fail("a reader of a shared buffer sees a half-written state", json!({"reads": n}));
                }
                c.ev("runs and reads of a contended buffer", n);
                c.ev("distinct states seen by readers", (m.len() + s.len()) as u64);
            }
        }
    }
    c.sample = json!({"readers": readers, "states": states.len()});
    Ok(())
}

pub const GROUPS: &[Group] = &[
    Group { prop: "C23", name: "shared", quick: 1500, thorough: 60_000, serial: false, exhaustive: false,
        rule: "2-6 threads run random programs at once over one set of loaded assets; each trace is compared with the same program alone", f: shared },
    Group { prop: "C23", name: "pipeline", quick: 2500, thorough: 80_000, serial: false, exhaustive: false,
        rule: "sampling, blending, local-to-model and skinning on threads of their own over shared locks, jobs handed between threads; every frame compared with one thread", f: pipeline },
    Group { prop: "C23", name: "contention", quick: 2500, thorough: 80_000, serial: false, exhaustive: false,
        rule: "jobs and plain readers on a buffer that another job writes; every result belongs to one complete state", f: contention },
];
