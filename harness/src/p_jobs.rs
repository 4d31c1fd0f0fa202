//! C20 acceptance and refusal, C21 what jobs write, C22 kinds of buffers. Jobs are described once and built over every kind of
//! buffer, including buffers of our own (through the library's public buffer traits) that record and fault every acquisition.

use crate::author::*;
use crate::fw::*;
use crate::p_assets::{check_anim, check_skel};
use crate::p_blend::gen_jw;
use crate::p_ik::{bits_chain, gen_aim, gen_chain, run_aim, run_chain};
use crate::p_skin::{gen_affine, gen_mesh, vcanary};
use crate::rng::Rng;
use crate::util::*;
use crate::{ensure, fw};
use glam::{Mat4, Quat, Vec2, Vec3, Vec3A, Vec4};
use glam_ext::Transform3A;
use ozz_animation_rs::*;
use serde_json::json;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use std::ops::{Deref, DerefMut};
use std::rc::Rc;
use std::sync::{Arc, RwLock};

// ---------------------------------------------------------------- element types

pub trait Elem: 'static + Debug + Clone + Send + Sync {
    fn put(&self, v: &mut Vec<u32>);
}
impl Elem for SoaTransform {
    fn put(&self, v: &mut Vec<u32>) {
        v.extend(soa_bits(self));
    }
}
impl Elem for Mat4 {
    fn put(&self, v: &mut Vec<u32>) {
        v.extend(self.to_cols_array().map(f32::to_bits));
    }
}
impl Elem for Vec3 {
    fn put(&self, v: &mut Vec<u32>) {
        v.extend(self.to_array().map(f32::to_bits));
    }
}
impl Elem for f32 {
    fn put(&self, v: &mut Vec<u32>) {
        v.push(self.to_bits());
    }
}
impl Elem for u16 {
    fn put(&self, v: &mut Vec<u32>) {
        v.push(*self as u32);
    }
}
pub fn bits_of<T: Elem>(x: &[T]) -> Vec<u32> {
    let mut v = Vec::new();
    x.iter().for_each(|e| e.put(&mut v));
    v
}

// ---------------------------------------------------------------- handles on shared buffers

pub trait Handle {
    fn bits(&self) -> Vec<u32>;
    /// Holds the buffer, exclusively or shared, while `f` runs.
    fn held(&self, exclusive: bool, f: &mut dyn FnMut());
    /// Nobody holds the buffer.
    fn free(&self) -> bool;
    fn poison(&self) {}
}

impl<T: Elem> Handle for Rc<RefCell<Vec<T>>> {
    fn bits(&self) -> Vec<u32> {
        bits_of(&self.borrow())
    }
    fn held(&self, exclusive: bool, f: &mut dyn FnMut()) {
        if exclusive {
            let _g = self.borrow_mut();
            f();
        } else {
            let _g = self.borrow();
            f();
        }
    }
    fn free(&self) -> bool {
        self.try_borrow_mut().is_ok()
    }
}

impl<T: Elem> Handle for Arc<RwLock<Vec<T>>> {
    fn bits(&self) -> Vec<u32> {
        match self.read() {
            Ok(g) => bits_of(&g),
            Err(e) => bits_of(&e.into_inner()),
        }
    }
    fn held(&self, exclusive: bool, f: &mut dyn FnMut()) {
        if exclusive {
            let _g = self.write();
            f();
        } else {
            let _g = self.read();
            f();
        }
    }
    fn free(&self) -> bool {
        !matches!(self.try_write(), Err(std::sync::TryLockError::WouldBlock))
    }
    fn poison(&self) {
        let me = self.clone();
        let _ = std::thread::spawn(move || {
            let _g = me.write().unwrap();
            // A quiet panic, without going through the hook.
            std::panic::resume_unwind(Box::new("poison"));
        })
        .join();
    }
}

/// What the recording buffers saw since the last reset.
#[derive(Default, Clone, Copy, Debug)]
pub struct Log {
    pub acquired: u64,
    pub live: i64,
    /// Acquisition to refuse (1 is the first).
    pub fail_at: u64,
    pub failed: bool,
    /// The refused acquisition was the first one of that buffer.
    pub first: bool,
    pub conflict: bool,
}
thread_local! {
    static LOG: Cell<Log> = const { Cell::new(Log { acquired: 0, live: 0, fail_at: 0, failed: false, first: false, conflict: false }) };
}
fn log_set(fail_at: u64) {
    LOG.with(|l| l.set(Log { fail_at, ..Log::default() }));
}
fn log_get() -> Log {
    LOG.with(|l| l.get())
}
fn log(f: impl FnOnce(&mut Log)) {
    LOG.with(|l| {
        let mut x = l.get();
        f(&mut x);
        l.set(x);
    })
}

/// A buffer type of ours.
#[derive(Debug, Clone)]
pub struct Mon<T>(pub Rc<RefCell<Vec<T>>>, Rc<Cell<bool>>);

pub struct MonRef<'t, T>(std::cell::Ref<'t, Vec<T>>);
pub struct MonRefMut<'t, T>(std::cell::RefMut<'t, Vec<T>>);
impl<T> Drop for MonRef<'_, T> {
    fn drop(&mut self) {
        log(|l| l.live -= 1);
    }
}
impl<T> Drop for MonRefMut<'_, T> {
    fn drop(&mut self) {
        log(|l| l.live -= 1);
    }
}
impl<T> Deref for MonRef<'_, T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        &self.0
    }
}
impl<T> Deref for MonRefMut<'_, T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        &self.0
    }
}
impl<T> DerefMut for MonRefMut<'_, T> {
    fn deref_mut(&mut self) -> &mut [T] {
        &mut self.0
    }
}
fn acquire(seen: &Cell<bool>) -> bool {
    let mut ok = true;
    let first = !seen.replace(true);
    log(|l| {
        l.acquired += 1;
        if l.acquired == l.fail_at {
            l.failed = true;
            l.first = first;
            ok = false;
        }
    });
    ok
}
impl<T: Elem> OzzBuf<T> for Mon<T> {
    type Buf<'t> = MonRef<'t, T>;
    fn buf(&self) -> Result<MonRef<'_, T>, OzzError> {
        if !acquire(&self.1) {
            return Err(OzzError::LockPoison);
        }
        match self.0.try_borrow() {
            Ok(g) => {
                log(|l| l.live += 1);
                Ok(MonRef(g))
            }
            Err(_) => {
                log(|l| l.conflict = true);
                Err(OzzError::LockPoison)
            }
        }
    }
}
impl<T: Elem> OzzMutBuf<T> for Mon<T> {
    type MutBuf<'t> = MonRefMut<'t, T>;
    fn mut_buf(&mut self) -> Result<MonRefMut<'_, T>, OzzError> {
        if !acquire(&self.1) {
            return Err(OzzError::LockPoison);
        }
        match self.0.try_borrow_mut() {
            Ok(g) => {
                log(|l| l.live += 1);
                Ok(MonRefMut(g))
            }
            Err(_) => {
                log(|l| l.conflict = true);
                Err(OzzError::LockPoison)
            }
        }
    }
}
impl<T: Elem> Handle for Mon<T> {
    fn bits(&self) -> Vec<u32> {
        bits_of(&self.0.borrow())
    }
    fn held(&self, exclusive: bool, f: &mut dyn FnMut()) {
        self.0.held(exclusive, f)
    }
    fn free(&self) -> bool {
        self.0.free()
    }
}

// ---------------------------------------------------------------- kinds of buffers

pub trait Kind: 'static {
    const NAME: &'static str;
    type In<T: Elem>: OzzBuf<T> + Debug + 'static;
    type Out<T: Elem>: OzzMutBuf<T> + Debug + 'static;
    type Obj<T: Debug + 'static>: OzzObj<T> + Debug + 'static;
    fn input<T: Elem>(v: Vec<T>, a: &mut Arena) -> Self::In<T>;
    fn output<T: Elem>(v: Vec<T>, a: &mut Arena) -> Self::Out<T>;
    fn obj<T: Debug + 'static>(v: T, a: &mut Arena) -> Self::Obj<T>;
    fn hin<T: Elem>(_b: &Self::In<T>) -> Option<Box<dyn Handle>> {
        None
    }
    fn hout<T: Elem>(_b: &Self::Out<T>) -> Option<Box<dyn Handle>> {
        None
    }
}

/// Owns what slices refer to; must be dropped after the job.
#[derive(Default)]
pub struct Arena(Vec<*mut dyn Any>);
impl Arena {
    fn put<T: 'static>(&mut self, v: T) -> *mut T {
        let p = Box::into_raw(Box::new(v));
        self.0.push(p);
        p
    }
}
impl Drop for Arena {
    fn drop(&mut self) {
        for p in self.0.drain(..) {
            drop(unsafe { Box::from_raw(p) });
        }
    }
}

pub struct KSlice;
impl Kind for KSlice {
    const NAME: &'static str = "slices";
    type In<T: Elem> = &'static [T];
    type Out<T: Elem> = &'static mut [T];
    type Obj<T: Debug + 'static> = &'static T;
    fn input<T: Elem>(v: Vec<T>, a: &mut Arena) -> &'static [T] {
        unsafe { (*a.put(v)).as_slice() }
    }
    fn output<T: Elem>(v: Vec<T>, a: &mut Arena) -> &'static mut [T] {
        unsafe { (*a.put(v)).as_mut_slice() }
    }
    fn obj<T: Debug + 'static>(v: T, a: &mut Arena) -> &'static T {
        unsafe { &*a.put(v) }
    }
}
pub struct KVec;
impl Kind for KVec {
    const NAME: &'static str = "vectors";
    type In<T: Elem> = Vec<T>;
    type Out<T: Elem> = Vec<T>;
    type Obj<T: Debug + 'static> = T;
    fn input<T: Elem>(v: Vec<T>, _: &mut Arena) -> Vec<T> {
        v
    }
    fn output<T: Elem>(v: Vec<T>, _: &mut Arena) -> Vec<T> {
        v
    }
    fn obj<T: Debug + 'static>(v: T, _: &mut Arena) -> T {
        v
    }
}
pub struct KRc;
impl Kind for KRc {
    const NAME: &'static str = "reference-counted cells";
    type In<T: Elem> = Rc<RefCell<Vec<T>>>;
    type Out<T: Elem> = Rc<RefCell<Vec<T>>>;
    type Obj<T: Debug + 'static> = Rc<T>;
    fn input<T: Elem>(v: Vec<T>, _: &mut Arena) -> Self::In<T> {
        Rc::new(RefCell::new(v))
    }
    fn output<T: Elem>(v: Vec<T>, _: &mut Arena) -> Self::Out<T> {
        Rc::new(RefCell::new(v))
    }
    fn obj<T: Debug + 'static>(v: T, _: &mut Arena) -> Rc<T> {
        Rc::new(v)
    }
    fn hin<T: Elem>(b: &Self::In<T>) -> Option<Box<dyn Handle>> {
        Some(Box::new(b.clone()))
    }
    fn hout<T: Elem>(b: &Self::Out<T>) -> Option<Box<dyn Handle>> {
        Some(Box::new(b.clone()))
    }
}
pub struct KArc;
impl Kind for KArc {
    const NAME: &'static str = "shared locks";
    type In<T: Elem> = Arc<RwLock<Vec<T>>>;
    type Out<T: Elem> = Arc<RwLock<Vec<T>>>;
    type Obj<T: Debug + 'static> = Arc<T>;
    fn input<T: Elem>(v: Vec<T>, _: &mut Arena) -> Self::In<T> {
        Arc::new(RwLock::new(v))
    }
    fn output<T: Elem>(v: Vec<T>, _: &mut Arena) -> Self::Out<T> {
        Arc::new(RwLock::new(v))
    }
    fn obj<T: Debug + 'static>(v: T, _: &mut Arena) -> Arc<T> {
        Arc::new(v)
    }
    fn hin<T: Elem>(b: &Self::In<T>) -> Option<Box<dyn Handle>> {
        Some(Box::new(b.clone()))
    }
    fn hout<T: Elem>(b: &Self::Out<T>) -> Option<Box<dyn Handle>> {
        Some(Box::new(b.clone()))
    }
}
pub struct KMon;
impl Kind for KMon {
    const NAME: &'static str = "recording buffers";
    type In<T: Elem> = Mon<T>;
    type Out<T: Elem> = Mon<T>;
    type Obj<T: Debug + 'static> = Rc<T>;
    fn input<T: Elem>(v: Vec<T>, _: &mut Arena) -> Mon<T> {
        Mon(Rc::new(RefCell::new(v)), Rc::new(Cell::new(false)))
    }
    fn output<T: Elem>(v: Vec<T>, _: &mut Arena) -> Mon<T> {
        Mon(Rc::new(RefCell::new(v)), Rc::new(Cell::new(false)))
    }
    fn obj<T: Debug + 'static>(v: T, _: &mut Arena) -> Rc<T> {
        Rc::new(v)
    }
    fn hin<T: Elem>(b: &Mon<T>) -> Option<Box<dyn Handle>> {
        Some(Box::new(b.clone()))
    }
    fn hout<T: Elem>(b: &Mon<T>) -> Option<Box<dyn Handle>> {
        Some(Box::new(b.clone()))
    }
}

// ---------------------------------------------------------------- jobs

pub trait AnyJob {
    fn validate(&self) -> bool;
    fn run(&mut self) -> Result<(), OzzError>;
    /// Contents of the outputs that are set.
    fn outs(&self) -> Vec<Vec<u32>>;
    /// The assets still hold what was authored.
    fn assets(&self, s: &Spec) -> R;
}

pub struct H {
    pub name: String,
    pub output: bool,
    /// The job cannot run without it.
    pub needed: bool,
    pub handle: Box<dyn Handle>,
}

/// The job first: it may borrow from the arena.
pub struct Made {
    pub job: Box<dyn AnyJob>,
    pub handles: Vec<H>,
    _arena: Arena,
}

#[derive(Clone, Debug)]
pub struct LayerSpec {
    pub tf: Vec<SoaTransform>,
    pub w: f32,
    pub jw: Vec<Vec4>,
}

#[derive(Clone, Debug)]
pub enum Spec {
    Sampling { model: Option<Built>, tracks: usize, cap: Option<usize>, ratio: f32, out: Option<Vec<SoaTransform>> },
    Blending {
        model: Option<Skel>,
        ctx: Option<usize>,
        threshold: f32,
        layers: Vec<LayerSpec>,
        adds: Vec<LayerSpec>,
        out: Option<Vec<SoaTransform>>,
    },
    L2M { model: Option<Skel>, input: Option<Vec<SoaTransform>>, root: Option<Mat4>, from: i32, to: i32, excluded: bool, out: Option<Vec<Mat4>> },
    Skin {
        n: usize,
        inf: usize,
        mats: Option<Vec<Mat4>>,
        its: Option<Vec<Mat4>>,
        idx: Option<Vec<u16>>,
        w: Option<Vec<f32>>,
        ins: [Option<Vec<Vec3>>; 3],
        outs: [Option<Vec<Vec3>>; 3],
    },
}

impl Spec {
    pub fn name(&self) -> &'static str {
        match self {
            Spec::Sampling { .. } => "sampling",
            Spec::Blending { .. } => "blending",
            Spec::L2M { .. } => "local to model",
            Spec::Skin { .. } => "skinning",
        }
    }
    /// Whether the documentation accepts the job.
    pub fn valid(&self) -> bool {
        match self {
            Spec::Sampling { model, tracks, cap, out, .. } => {
                let soa = (tracks + 3) / 4;
                model.is_some() && cap.map_or(false, |c| (c + 3) / 4 >= soa) && out.as_ref().map_or(false, |o| o.len() >= soa)
            }
            Spec::Blending { model, ctx, threshold, layers, adds, out } => {
                let soa = match model {
                    None => return false,
                    Some(m) => (m.n() + 3) / 4,
                };
                ctx.is_some()
                    && *threshold > 0.0
                    && out.as_ref().map_or(false, |o| o.len() >= soa)
                    && layers.iter().chain(adds).all(|l| l.tf.len() >= soa && (l.jw.is_empty() || l.jw.len() >= soa))
            }
            Spec::L2M { model, input, out, .. } => match model {
                None => false,
                Some(m) => {
                    input.as_ref().map_or(false, |i| i.len() >= (m.n() + 3) / 4) && out.as_ref().map_or(false, |o| o.len() >= m.n())
                }
            },
            Spec::Skin { n, inf, mats, idx, w, ins, outs, .. } => {
                let (n, k) = (*n as u128, *inf as u128);
                let has = |v: Option<usize>, min: u128| v.map_or(false, |l| l as u128 >= min);
                let len3 = |v: &Option<Vec<Vec3>>| v.as_ref().map(|v| v.len());
                let mut ok = k > 0 && has(mats.as_ref().map(|m| m.len()), 1) && has(idx.as_ref().map(|m| m.len()), n * k);
                ok &= k <= 1 || has(w.as_ref().map(|m| m.len()), n * (k - 1));
                ok &= has(len3(&ins[0]), n) && has(len3(&outs[0]), n);
                if ins[1].is_some() {
                    ok &= has(len3(&ins[1]), n) && has(len3(&outs[1]), n);
                    if ins[2].is_some() {
                        ok &= has(len3(&ins[2]), n) && has(len3(&outs[2]), n);
                    }
                } else {
                    ok &= ins[2].is_none();
                }
                ok
            }
        }
    }
    /// Small enough for slow interpreters.
    pub fn small(&self) -> bool {
        match self {
            Spec::Sampling { tracks, .. } => *tracks <= 8,
            Spec::Blending { model, .. } => model.as_ref().map_or(true, |m| m.n() <= 8),
            Spec::L2M { model, .. } => model.as_ref().map_or(true, |m| m.n() <= 8),
            Spec::Skin { n, inf, mats, .. } => *n <= 8 && *inf <= 8 && mats.as_ref().map_or(true, |m| m.len() <= 10),
        }
    }
    /// Number of leading 32-bit words of each output, in the order of `outs`, that the job may write.
    pub fn owned(&self) -> Vec<usize> {
        match self {
            Spec::Sampling { tracks, .. } => vec![(tracks + 3) / 4 * 40],
            Spec::Blending { model, .. } => vec![model.as_ref().map_or(0, |m| (m.n() + 3) / 4 * 40)],
            Spec::L2M { model, .. } => vec![model.as_ref().map_or(0, |m| m.n() * 16)],
            Spec::Skin { n, ins, outs, .. } => (0..3)
                .filter(|i| outs[*i].is_some())
                .map(|i| if ins[i].is_some() { n.saturating_mul(3) } else { 0 })
                .collect(),
        }
    }
}

macro_rules! outs {
    ($v:ident, $o:expr) => {
        if let Some(o) = $o {
            if let Ok(b) = o.buf() {
                $v.push(bits_of(&b));
            }
        }
    };
}

struct JS<K: Kind>(SamplingJob<K::Obj<Animation>, K::Out<SoaTransform>, SamplingContext>);
impl<K: Kind> AnyJob for JS<K> {
    fn validate(&self) -> bool {
        self.0.validate()
    }
    fn run(&mut self) -> Result<(), OzzError> {
        self.0.run()
    }
    fn outs(&self) -> Vec<Vec<u32>> {
        let mut v = vec![];
        outs!(v, self.0.output());
        v
    }
    fn assets(&self, s: &Spec) -> R {
        match (s, self.0.animation()) {
            (Spec::Sampling { model: Some(m), .. }, Some(a)) => check_anim(m, a.obj()),
            _ => Ok(()),
        }
    }
}
struct JB<K: Kind>(BlendingJob<K::Obj<Skeleton>, K::In<SoaTransform>, K::Out<SoaTransform>>);
impl<K: Kind> AnyJob for JB<K> {
    fn validate(&self) -> bool {
        self.0.validate()
    }
    fn run(&mut self) -> Result<(), OzzError> {
        self.0.run()
    }
    fn outs(&self) -> Vec<Vec<u32>> {
        let mut v = vec![];
        outs!(v, self.0.output());
        v
    }
    fn assets(&self, s: &Spec) -> R {
        if let Spec::Blending { model, layers, adds, threshold, .. } = s {
            if let (Some(m), Some(a)) = (model, self.0.skeleton()) {
                check_skel(m, a.obj())?;
            }
            ensure!(self.0.threshold().to_bits() == threshold.to_bits(), "blending changed its own threshold", {"now": self.0.threshold()});
            for (l, x) in layers.iter().zip(self.0.layers()).chain(adds.iter().zip(self.0.additive_layers())) {
                ensure!(l.w.to_bits() == x.weight.to_bits() && l.jw.len() == x.joint_weights.len()
                    && l.jw.iter().zip(&x.joint_weights).all(|(a, b)| a.to_array().map(f32::to_bits) == b.to_array().map(f32::to_bits)),
                    "blending changed the weights of a layer", {"weight": x.weight});
            }
            ensure!(layers.len() == self.0.layers().len() && adds.len() == self.0.additive_layers().len(), "blending changed its layers", {});
        }
        Ok(())
    }
}
struct JL<K: Kind>(LocalToModelJob<K::Obj<Skeleton>, K::In<SoaTransform>, K::Out<Mat4>>);
impl<K: Kind> AnyJob for JL<K> {
    fn validate(&self) -> bool {
        self.0.validate()
    }
    fn run(&mut self) -> Result<(), OzzError> {
        self.0.run()
    }
    fn outs(&self) -> Vec<Vec<u32>> {
        let mut v = vec![];
        outs!(v, self.0.output());
        v
    }
    fn assets(&self, s: &Spec) -> R {
        if let Spec::L2M { model, from, to, excluded, root, .. } = s {
            if let (Some(m), Some(a)) = (model, self.0.skeleton()) {
                check_skel(m, a.obj())?;
            }
            ensure!(self.0.from() == *from && self.0.to() == *to && self.0.from_excluded() == *excluded, "local to model changed its own range", {});
            if let Some(r) = root {
                ensure!(mats_bits(&[self.0.root()]) == mats_bits(&[*r]), "local to model changed its root", {});
            }
        }
        Ok(())
    }
}
struct JK<K: Kind>(SkinningJob<K::In<Mat4>, K::In<u16>, K::In<f32>, K::In<Vec3>, K::Out<Vec3>>);
impl<K: Kind> AnyJob for JK<K> {
    fn validate(&self) -> bool {
        self.0.validate()
    }
    fn run(&mut self) -> Result<(), OzzError> {
        self.0.run()
    }
    fn outs(&self) -> Vec<Vec<u32>> {
        let mut v = vec![];
        outs!(v, self.0.out_positions());
        outs!(v, self.0.out_normals());
        outs!(v, self.0.out_tangents());
        v
    }
    fn assets(&self, _: &Spec) -> R {
        Ok(())
    }
}

pub fn make<K: Kind>(s: &Spec) -> Result<Made, Fail> {
    let mut a = Arena::default();
    let mut hs: Vec<H> = Vec::new();
    let mut add = |name: &str, output: bool, needed: bool, h: Option<Box<dyn Handle>>| {
        if let Some(handle) = h {
            hs.push(H { name: name.to_string(), output, needed, handle });
        }
    };
    let job: Box<dyn AnyJob> = match s.clone() {
        Spec::Sampling { model, cap, ratio, out, .. } => {
            let mut j = SamplingJob::default();
            if let Some(m) = model {
                j.set_animation(K::obj(lib_ok(load_anim(&m.write(false)), "loading a generated animation")?, &mut a));
            }
            if let Some(c) = cap {
                j.set_context(SamplingContext::new(c));
            }
            j.set_ratio(ratio);
            if let Some(o) = out {
                let o = K::output(o, &mut a);
                add("output", true, true, K::hout(&o));
                j.set_output(o);
            }
            Box::new(JS::<K>(j))
        }
        Spec::Blending { model, ctx, threshold, layers, adds, out } => {
            let mut j = BlendingJob::default();
            if let Some(m) = model {
                j.set_skeleton(K::obj(make_skel(&m)?, &mut a));
            }
            match ctx {
                Some(c) => j.set_context(BlendingContext::new(c)),
                None => j.clear_context(),
            }
            j.set_threshold(threshold);
            for (k, l) in layers.into_iter().enumerate() {
                let t = K::input(l.tf, &mut a);
                add(&format!("layer {}", k), false, l.w > 0.0, K::hin(&t));
                j.layers_mut().push(BlendingLayer { transform: t, weight: l.w, joint_weights: l.jw });
            }
            for (k, l) in adds.into_iter().enumerate() {
                let t = K::input(l.tf, &mut a);
                add(&format!("additive layer {}", k), false, l.w != 0.0 && !l.w.is_nan(), K::hin(&t));
                j.additive_layers_mut().push(BlendingLayer { transform: t, weight: l.w, joint_weights: l.jw });
            }
            if let Some(o) = out {
                let o = K::output(o, &mut a);
                add("output", true, true, K::hout(&o));
                j.set_output(o);
            }
            Box::new(JB::<K>(j))
        }
        Spec::L2M { model, input, root, from, to, excluded, out } => {
            let mut j = LocalToModelJob::default();
            if let Some(m) = model {
                j.set_skeleton(K::obj(make_skel(&m)?, &mut a));
            }
            if let Some(i) = input {
                let i = K::input(i, &mut a);
                add("input", false, true, K::hin(&i));
                j.set_input(i);
            }
            if let Some(r) = root {
                j.set_root(&r);
            }
            j.set_from(from);
            j.set_to(to);
            j.set_from_excluded(excluded);
            if let Some(o) = out {
                let o = K::output(o, &mut a);
                add("output", true, true, K::hout(&o));
                j.set_output(o);
            }
            Box::new(JL::<K>(j))
        }
        Spec::Skin { n, inf, mats, its, idx, w, ins, outs } => {
            let mut j = SkinningJob::default();
            j.set_vertex_count(n);
            j.set_influences_count(inf);
            let nrm = ins[1].is_some();
            if let Some(v) = mats {
                let b = K::input(v, &mut a);
                add("matrices", false, true, K::hin(&b));
                j.set_joint_matrices(b);
            }
            if let Some(v) = its {
                let b = K::input(v, &mut a);
                add("inverse transposes", false, nrm, K::hin(&b));
                j.set_joint_it_matrices(b);
            }
            if let Some(v) = idx {
                let b = K::input(v, &mut a);
                add("indices", false, true, K::hin(&b));
                j.set_joint_indices(b);
            }
            if let Some(v) = w {
                let b = K::input(v, &mut a);
                add("weights", false, inf > 1, K::hin(&b));
                j.set_joint_weights(b);
            }
            let names = ["positions", "normals", "tangents"];
            let given: Vec<bool> = ins.iter().map(|v| v.is_some()).collect();
            for (k, v) in ins.into_iter().enumerate() {
                if let Some(v) = v {
                    let b = K::input(v, &mut a);
                    add(&format!("in {}", names[k]), false, true, K::hin(&b));
                    match k {
                        0 => j.set_in_positions(b),
                        1 => j.set_in_normals(b),
                        _ => j.set_in_tangents(b),
                    }
                }
            }
            for (k, v) in outs.into_iter().enumerate() {
                if let Some(v) = v {
                    let b = K::output(v, &mut a);
                    add(&format!("out {}", names[k]), true, given[k], K::hout(&b));
                    match k {
                        0 => j.set_out_positions(b),
                        1 => j.set_out_normals(b),
                        _ => j.set_out_tangents(b),
                    }
                }
            }
            Box::new(JK::<K>(j))
        }
    };
    Ok(Made { job, handles: hs, _arena: a })
}

// ---------------------------------------------------------------- generation

fn out_soa(r: &mut Rng, min: usize) -> Vec<SoaTransform> {
    let n = if r.chance(0.5) { min } else { min + r.range(1, 4) };
    (0..n).map(canary).collect()
}
fn in_soa(r: &mut Rng, n: usize) -> Vec<SoaTransform> {
    let k = if r.chance(0.7) { n } else { n + r.range(1, 3) };
    soa_vec(&(0..k * 4).map(|_| gen_xf(r)).collect::<Vec<Xf>>())
}

pub fn gen_spec(r: &mut Rng, which: usize) -> Spec {
    match which {
        0 => {
            let tracks = if r.chance(0.1) { 0 } else { gen_count(r, 40).max(1) };
            let (tracks, b) = if tracks == 0 {
                let a = Anim { duration: 1.0, name: "z".into(), num_tracks: 0, keys: Default::default(), iframes: Default::default(), pad_timepoints: 0 };
                match a.build() {
                    Some(b) => (0, b),
                    None => gen_some_anim(r, 3),
                }
            } else {
                gen_some_anim(r, tracks)
            };
            let soa = (tracks + 3) / 4;
            let cap = if r.chance(0.6) { tracks } else { tracks + r.range(1, 20) };
            let out = Some(out_soa(r, soa));
            Spec::Sampling { model: Some(b), tracks, cap: Some(cap), ratio: r.f32(-0.1, 1.1), out }
        }
        1 => {
            let n = if r.chance(0.05) { 0 } else { gen_count(r, 40) };
            let m = gen_skel(r, n);
            let soa = (m.n() + 3) / 4;
            let layer = |r: &mut Rng, add: bool| LayerSpec {
                tf: in_soa(r, soa),
                w: match r.below(6) {
                    0 => 0.0,
                    1 if add => r.f32(-1.0, 0.0),
                    _ => r.f32(0.01, 1.5),
                },
                jw: if r.chance(0.5) {
                    vec![]
                } else {
                    let k = soa + r.below(2);
                    gen_jw(r, k * 4).chunks(4).map(|c| Vec4::new(c[0], c[1], c[2], c[3])).collect()
                },
            };
            let layers = (0..r.below(4)).map(|_| layer(r, false)).collect();
            let adds = (0..r.below(3)).map(|_| layer(r, true)).collect();
            let ctx = match r.below(3) {
                0 => 0,
                1 => soa,
                _ => r.range(0, soa + 4),
            };
            let out = Some(out_soa(r, soa));
            Spec::Blending { model: Some(m), ctx: Some(ctx), threshold: *r.pick(&[0.1f32, 0.5, 1e-3]), layers, adds, out }
        }
        2 => {
            let n = if r.chance(0.05) { 0 } else { gen_count(r, 60) };
            let m = gen_skel(r, n);
            let soa = (m.n() + 3) / 4;
            let k = m.n() + if r.chance(0.5) { 0 } else { r.range(1, 5) };
            let pick = |r: &mut Rng| match r.below(5) {
                0 => *r.pick(&[-1i32, 0, 1, i32::MAX, i32::MIN, 1024, 1023]),
                _ => r.irange(-1, n as i64) as i32,
            };
            let full = r.chance(0.5);
            let (from, to) = if full { (-1, i32::MAX) } else { (pick(r), pick(r)) };
            let input = Some(in_soa(r, soa));
            let root = r.chance(0.4).then(|| gen_affine(r));
            // Ancestors that an update relies on are finite matrices.
            let out = Some((0..k).map(|i| Mat4::from_translation(Vec3::new(i as f32 + 3.0, 7.0, -2.0))).collect());
            Spec::L2M { model: Some(m), input, root, from, to, excluded: r.chance(0.3), out }
        }
        _ => {
            let m = gen_mesh(r);
            let o = |r: &mut Rng, k: usize| -> Vec<Vec3> { (0..m.n + if r.chance(0.5) { 0 } else { r.range(1, 4) }).map(|i| vcanary(k, i)).collect() };
            let outs = [
                Some(o(r, 0)),
                (m.nm.is_some() || r.chance(0.2)).then(|| o(r, 1)),
                (m.tg.is_some() || r.chance(0.2)).then(|| o(r, 2)),
            ];
            let w = if m.inf > 1 || r.chance(0.3) { Some(m.w.clone()) } else { None };
            Spec::Skin { n: m.n, inf: m.inf, mats: Some(m.mats), its: m.its, idx: Some(m.idx), w, ins: [Some(m.p), m.nm, m.tg], outs }
        }
    }
}

fn gen_some_anim(r: &mut Rng, tracks: usize) -> (usize, Built) {
    let k = if tracks > 20 { 4 } else { 8 };
    let o = AnimOpts { tracks, max_keys: r.range(2, k), wild: false, flips: false };
    let (a, b) = gen_fit(r, &o);
    (a.num_tracks, b)
}

fn shorten<T>(r: &mut Rng, v: &mut Option<Vec<T>>) -> &'static str {
    match r.below(4) {
        0 => {
            *v = None;
            "missing"
        }
        1 => {
            if let Some(v) = v {
                v.clear();
            }
            "empty"
        }
        2 => {
            if let Some(v) = v {
                v.pop();
            }
            "one less"
        }
        _ => {
            if let Some(v) = v {
                let k = r.below(v.len() + 1);
                v.truncate(k);
            }
            "short"
        }
    }
}

/// Damages one thing; says what.
pub fn mutate(r: &mut Rng, s: &mut Spec) -> String {
    match s {
        Spec::Sampling { model, cap, ratio, out, tracks } => match r.below(5) {
            0 => {
                *model = None;
                "no animation".into()
            }
            1 => {
                *cap = match r.below(4) {
                    0 => None,
                    1 => Some(0),
                    2 => Some(tracks.saturating_sub(1)),
                    _ => Some(r.below(*tracks + 1)),
                };
                "context".into()
            }
            2 => {
                *ratio = *r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -5.0, 1e30]);
                "ratio".into()
            }
            _ => format!("output {}", shorten(r, out)),
        },
        Spec::Blending { model, ctx, threshold, layers, adds, out } => match r.below(9) {
            0 => {
                *model = None;
                "no skeleton".into()
            }
            1 => {
                *ctx = None;
                "no context".into()
            }
            2 => {
                *threshold = *r.pick(&[0.0, -0.0, -1.0, f32::NAN, f32::NEG_INFINITY, f32::INFINITY, f32::MIN_POSITIVE]);
                "threshold".into()
            }
            3..=6 => {
                let l = if r.chance(0.5) && !layers.is_empty() || adds.is_empty() { layers } else { adds };
                if l.is_empty() {
                    return "nothing".into();
                }
                let k = r.below(l.len());
                if r.chance(0.5) {
                    let n = l[k].tf.len();
                    let t = r.below(n + 1);
                    l[k].tf.truncate(if r.chance(0.5) { n.saturating_sub(1) } else { t });
                    format!("layer {} short", k)
                } else if !l[k].jw.is_empty() {
                    let n = l[k].jw.len();
                    let t = r.range(1, n);
                    l[k].jw.truncate(if r.chance(0.5) { n.saturating_sub(1) } else { t });
                    format!("joint weights {} short", k)
                } else {
                    l[k].jw = vec![Vec4::ONE; 1];
                    l[k].w = *r.pick(&[0.0, 0.0, -1.0, 1.0]);
                    format!("joint weights {} of one", k)
                }
            }
            _ => format!("output {}", shorten(r, out)),
        },
        Spec::L2M { model, input, from, to, out, .. } => match r.below(6) {
            0 => {
                *model = None;
                "no skeleton".into()
            }
            1 => {
                *from = *r.pick(&[i32::MIN, i32::MAX, -2, 100_000]);
                *to = *r.pick(&[i32::MIN, i32::MAX, -2, 100_000]);
                "range".into()
            }
            2 | 3 => format!("input {}", shorten(r, input)),
            _ => format!("output {}", shorten(r, out)),
        },
        Spec::Skin { n, inf, mats, its, idx, w, ins, outs } => match r.below(12) {
            0 => format!("matrices {}", if r.chance(0.5) { *mats = None; "missing" } else { *mats = Some(vec![]); "empty" }),
            1 => {
                *its = None;
                "no inverse transposes".into()
            }
            2 | 3 => format!("indices {}", shorten(r, idx)),
            4 | 5 => format!("weights {}", shorten(r, w)),
            6 => {
                *inf = *r.pick(&[0usize, 1, 2, usize::MAX, usize::MAX / 2 + 1, (1u64 << 33) as usize]);
                "influences".into()
            }
            7 => {
                *n = *r.pick(&[0usize, 1, usize::MAX, usize::MAX / 3, usize::MAX / 4 + 1, n.saturating_add(1)]);
                "vertices".into()
            }
            8 | 9 => {
                let k = r.below(3);
                format!("in {} {}", k, shorten(r, &mut ins[k]))
            }
            _ => {
                let k = r.below(3);
                format!("out {} {}", k, shorten(r, &mut outs[k]))
            }
        },
    }
}

fn bad_indices(s: &Spec) -> bool {
    if let Spec::Skin { n, inf, mats: Some(m), its, idx: Some(i), ins, .. } = s {
        let used = n.saturating_mul(*inf).min(i.len());
        let lim = match its {
            Some(t) if ins[1].is_some() => m.len().min(t.len()),
            _ => m.len(),
        };
        return i[..used].iter().any(|x| *x as usize >= lim);
    }
    false
}

fn describe(s: &Spec, muts: &[String], kind: &str) -> serde_json::Value {
    let sizes = match s {
        Spec::Sampling { tracks, cap, out, ratio, .. } => json!({"tracks": tracks, "capacity": cap, "output": out.as_ref().map(|o| o.len()), "ratio": ratio}),
        Spec::Blending { model, ctx, threshold, layers, adds, out } => json!({"joints": model.as_ref().map(|m| m.n()), "context": ctx, "threshold": threshold,
            "layers": layers.iter().chain(adds).map(|l| (l.tf.len(), l.w, l.jw.len())).collect::<Vec<_>>(), "output": out.as_ref().map(|o| o.len())}),
        Spec::L2M { model, input, from, to, out, .. } => json!({"joints": model.as_ref().map(|m| m.n()), "input": input.as_ref().map(|o| o.len()),
            "from": from, "to": to, "output": out.as_ref().map(|o| o.len())}),
        Spec::Skin { n, inf, mats, its, idx, w, ins, outs } => json!({"vertices": n, "influences": inf, "matrices": mats.as_ref().map(|m| m.len()),
            "inverse_transposes": its.as_ref().map(|m| m.len()), "indices": idx.as_ref().map(|m| m.len()), "weights": w.as_ref().map(|m| m.len()),
            "ins": ins.iter().map(|v| v.as_ref().map(|x| x.len())).collect::<Vec<_>>(), "outs": outs.iter().map(|v| v.as_ref().map(|x| x.len())).collect::<Vec<_>>()}),
    };
    json!({"job": s.name(), "changed": muts, "buffers": kind, "sizes": sizes})
}

fn bits_list(h: &[H]) -> Vec<Vec<u32>> {
    h.iter().map(|h| h.handle.bits()).collect()
}

// ---------------------------------------------------------------- C20

fn accept<K: Kind>(c: &mut Case, s: &Spec, muts: &[String]) -> R {
    let info = || describe(s, muts, K::NAME);
    let mut m = make::<K>(s)?;
    let before = m.job.outs();
    let hb = bits_list(&m.handles);
    let want = s.valid();
    let v = m.job.validate();
    ensure!(v == want, if want { "validate() refuses a complete job" } else { "validate() accepts an incomplete job" }, {"case": info()});
    if v && !K::NAME.is_empty() && matches!(s, Spec::Skin { n, .. } if *n > 1 << 20) {
        return Ok(());
    }
    let r = m.job.run();
    match (&r, v) {
        (Ok(()), true) => {
            c.ev(&format!("{} accepted", s.name()), 1);
            ensure!(!bad_indices(s), "a joint index outside the matrices was accepted", {"case": info()});
        }
        (Err(OzzError::InvalidIndex), true) if bad_indices(s) => c.ev("bad joint indices refused", 1),
        (Err(e), true) => return fail("run() refuses a job that validate() accepts", json!({"error": err_name(e), "case": info()})),
        (Ok(()), false) => return fail("run() accepts a job that validate() refuses", info()),
        (Err(e), false) => {
            ensure!(e.is_invalid_job(), "a refused job does not return the invalid-job error", {"error": err_name(e), "case": info()});
            let after = m.job.outs();
            ensure!(after == before, "a refused job changed an output", {"case": info()});
            let ha = bits_list(&m.handles);
            ensure!(ha == hb, "a refused job changed a buffer", {"case": info()});
            c.ev(&format!("{} refused", s.name()), 1);
            // Still refused, and still without effect.
            let r2 = m.job.run();
            ensure!(matches!(&r2, Err(e) if e.is_invalid_job()) && m.job.outs() == before, "a refused job behaves differently when run again", {"case": info()});
        }
    }
    ensure!(m.job.validate() == want, "validate() changes its answer after run()", {"case": info()});
    Ok(())
}

fn configs(c: &mut Case) -> R {
    let which = c.index as usize % 4;
    let mut s = gen_spec(&mut c.rng, which);
    let k = *c.rng.pick(&[0usize, 1, 1, 1, 2, 3, 5]);
    let muts: Vec<String> = (0..k).map(|_| mutate(&mut c.rng, &mut s)).collect();
    for m in &muts {
        c.ev(&format!("{}: {}", s.name(), m), 1);
        c.sig(m.as_bytes());
    }
    c.sig(format!("{}", describe(&s, &muts, "")).as_bytes());
    if c.index < 4 {
        c.sample = describe(&s, &muts, "");
    }
    match c.rng.below(5) {
        0 => accept::<KSlice>(c, &s, &muts),
        1 => accept::<KVec>(c, &s, &muts),
        2 => accept::<KRc>(c, &s, &muts),
        3 => accept::<KArc>(c, &s, &muts),
        _ => accept::<KMon>(c, &s, &muts),
    }
}

fn q_bits(q: Quat) -> [u32; 4] {
    q.to_array().map(f32::to_bits)
}

/// Jobs whose results are values of their own: IK, motion blending, tracks.
fn results(c: &mut Case) -> R {
    let bad: Vec3A = Vec3A::from_array(*c.rng.pick(&[
        [0.0, 0.0, 0.0],
        [f32::NAN, 0.0, 0.0],
        [0.0, 2.0, 0.0],
        [0.5, 0.5, 0.5],
        [f32::INFINITY, 0.0, 0.0],
        [0.0, 0.0, 0.9],
        [1e20, 1e20, 0.0],
    ]));
    c.sig_u(c.index);
    match c.index % 6 {
        0 => {
            let (ch, ..) = gen_chain(&mut c.rng);
            let mut job = IKTwoBoneJob::default();
            let first = run_chain(&ch, &mut job)?;
            let before = bits_chain(&first);
            let (mut other, ..) = gen_chain(&mut c.rng);
            other.mid_axis = bad;
            if c.rng.chance(0.5) {
                other.weight = *c.rng.pick(&[0.0, 0.5, 1.0, -1.0, 2.0]);
            }
            let r = run_chain(&other, &mut job);
            ensure!(r.is_err(), "two-bone IK accepts an axis that is not a unit vector", {"axis": bad.to_array()});
            ensure!(matches!(job.run(), Err(OzzError::InvalidJob)), "two-bone IK does not return the invalid-job error", {"axis": bad.to_array()});
            let now = [q_bits(job.start_joint_correction()).to_vec(), q_bits(job.mid_joint_correction()).to_vec(), vec![job.reached() as u32]].concat();
            ensure!(now == before, "a refused two-bone IK changed its results", {"axis": bad.to_array()});
            c.ev("two-bone IK refused", 1);
        }
        1 => {
            let (a, _) = gen_aim(&mut c.rng);
            let mut job = IKAimJob::default();
            let (q, reached) = run_aim(&a, &mut job)?;
            let (mut b, _) = gen_aim(&mut c.rng);
            b.forward = bad;
            if c.rng.chance(0.5) {
                b.weight = *c.rng.pick(&[0.0, 0.5, 1.0, -1.0, 2.0]);
            }
            ensure!(run_aim(&b, &mut job).is_err(), "aim IK accepts a forward vector that is not a unit vector", {"forward": bad.to_array()});
            ensure!(matches!(job.run(), Err(OzzError::InvalidJob)), "aim IK does not return the invalid-job error", {"forward": bad.to_array()});
            ensure!(q_bits(job.joint_correction()) == q_bits(q) && job.reached() == reached, "a refused aim IK changed its results", {"forward": bad.to_array()});
            c.ev("aim IK refused", 1);
        }
        2 => {
            let mut job = MotionBlendingJob::default();
            for _ in 0..c.rng.below(5) {
                let w = *c.rng.pick(&[0.0f32, -1.0, 0.5, 1.0, f32::NAN, f32::INFINITY, 1e-30]);
                let x = gen_xf(&mut c.rng);
                let mut t = tf3a(&x);
                if c.rng.chance(0.1) {
                    t.translation.x = f32::NAN;
                }
                job.layers_mut().push(MotionBlendingLayer { delta: t, weight: w });
            }
            job.set_output(Transform3A::IDENTITY);
            let v = job.validate();
            let r = job.run();
            ensure!(v == r.is_ok(), "motion blending's validate() and run() disagree", {"validate": v});
            c.ev("motion blends run", 1);
        }
        k => {
            macro_rules! go {
                ($v:ty) => {{
                    let kind = <$v as TrackVal>::KIND;
                    let mut job: TrackSamplingJobRc<$v> = TrackSamplingJob::default();
                    ensure!(!job.validate() && matches!(job.run(), Err(OzzError::InvalidJob)), "a track job without a track is not refused", {"kind": kind});
                    let t = gen_trk(&mut c.rng, kind, 9);
                    let tr = Rc::new(lib_ok(load_track::<$v>(&t.write(false)), "loading a generated track")?);
                    job.set_track(tr);
                    job.set_ratio(c.rng.f32(-0.2, 1.2));
                    ensure!(job.validate(), "a complete track job is not valid", {"kind": kind});
                    lib_ok(job.run(), "sampling a track")?;
                    let before = job.result().comps().map(f32::to_bits);
                    job.clear_track();
                    job.set_ratio(c.rng.f32(-0.2, 1.2));
                    ensure!(!job.validate() && matches!(job.run(), Err(OzzError::InvalidJob)), "a track job without a track is not refused", {"kind": kind});
                    ensure!(job.result().comps().map(f32::to_bits) == before, "a refused track job changed its result", {"kind": kind});
                    c.ev("track jobs refused", 1);
                }};
            }
            match c.rng.below(6) {
                0 => go!(f32),
                1 => go!(Vec2),
                2 => go!(Vec3),
                3 => go!(Vec4),
                4 => go!(Quat),
                _ => {
                    let mut job: TrackTriggeringJobRc = TrackTriggeringJob::default();
                    job.set_from(c.rng.f32(-2.0, 2.0));
                    job.set_to(*c.rng.pick(&[0.0, 1.0, -3.0, f32::NAN]));
                    ensure!(!job.validate() && matches!(job.run(), Err(OzzError::InvalidJob)), "a triggering job without a track is not refused", {});
                    let t = gen_trk(&mut c.rng, 0, 9);
                    job.set_track(Rc::new(lib_ok(load_track::<f32>(&t.write(false)), "loading a generated track")?));
                    job.set_threshold(*c.rng.pick(&[0.0, 1.0, f32::NAN, f32::INFINITY]));
                    ensure!(job.validate(), "a complete triggering job is not valid", {});
                    let n = match job.run() {
                        Ok(it) => it.take(1000).count(),
                        Err(e) => return fail("triggering refuses a complete job", json!({"error": err_name(&e)})),
                    };
                    ensure!(n < 1000, "triggering over a small window does not end", {"edges": n});
                    job.clear_track();
                    ensure!(!job.validate() && job.run().is_err(), "a triggering job whose track was cleared is not refused", {});
                    c.ev("triggering jobs refused", 1);
                }
            }
            let _ = k;
        }
    }
    Ok(())
}

/// One job object, reconfigured again and again: a refusal leaves nothing behind.
fn reconfigured(c: &mut Case) -> R {
    let n = gen_count(&mut c.rng, 24).max(1);
    let (tracks, b) = gen_some_anim(&mut c.rng, n);
    let anim = Rc::new(lib_ok(load_anim(&b.write(false)), "loading a generated animation")?);
    let soa = anim.num_soa_tracks();
    let mut job: SamplingJobRc = SamplingJob::default();
    job.set_context(SamplingContext::new(tracks));
    let mut has = (false, true, 0usize);
    let out = Rc::new(RefCell::new(Vec::<SoaTransform>::new()));
    job.set_output(out.clone());
    for step in 0..30 {
        match c.rng.below(6) {
            0 => {
                job.set_animation(anim.clone());
                has.0 = true;
            }
            1 => {
                job.clear_animation();
                has.0 = false;
            }
            2 => {
                let cap = *c.rng.pick(&[tracks, tracks + 9, 0, (soa.max(1) - 1) * 4]);
                job.set_context(SamplingContext::new(cap));
                has.1 = (cap + 3) / 4 >= soa;
            }
            3 | 4 => {
                let k = c.rng.range(0, soa + 2);
                *out.borrow_mut() = (0..k).map(canary).collect();
                has.2 = k;
            }
            _ => job.set_ratio(c.rng.f32(0.0, 1.0)),
        }
        let want = has.0 && has.1 && has.2 >= soa;
        let before = pose_bits(&out.borrow());
        ensure!(job.validate() == want, "validate() of a reconfigured job is wrong", {"step": step, "expected": want});
        let r = job.run();
        if want {
            lib_ok(r, "sampling with a reconfigured job")?;
            let e = sample_fresh(&anim, job.ratio())?;
            ensure!(pose_bits(&out.borrow()[..soa]) == pose_bits(&e), "a reconfigured job gives another pose", {"step": step});
            c.ev("reconfigured jobs accepted", 1);
        } else {
            ensure!(matches!(&r, Err(OzzError::InvalidJob)), "run() of a reconfigured job is not refused", {"step": step});
            ensure!(pose_bits(&out.borrow()) == before, "a refused reconfigured job changed its output", {"step": step});
            c.ev("reconfigured jobs refused", 1);
        }
    }
    c.sig_u(tracks as u64 * 977 + c.index);
    Ok(())
}

// ---------------------------------------------------------------- C21

fn writes<K: Kind>(c: &mut Case, s: &Spec) -> R {
    let info = || describe(s, &[], K::NAME);
    let mut m = make::<K>(s)?;
    let before = m.job.outs();
    let hb = bits_list(&m.handles);
    for round in 0..2 {
        match m.job.run() {
            Ok(()) => {}
            Err(e) => return fail("a valid job is refused", json!({"error": err_name(&e), "case": info()})),
        }
        let after = m.job.outs();
        let own = s.owned();
        ensure!(after.len() == before.len() && own.len() == after.len(), "an output disappeared", {"case": info()});
        for (k, (a, b)) in after.iter().zip(&before).enumerate() {
            ensure!(a.len() == b.len(), "a job changed the length of an output", {"case": info()});
            if let Some(p) = (own[k]..a.len()).find(|p| a[*p] != b[*p]) {
                return fail("a job wrote beyond its own part of an output", json!({"output": k, "word": p, "own": own[k], "case": info()}));
            }
            c.ev("output words beyond the job's part", (a.len().saturating_sub(own[k])) as u64);
        }
        if let Spec::L2M { model: Some(sk), from, to, excluded, .. } = s {
            let cov = crate::p_l2m::covered(sk, *from, *to, *excluded);
            for j in 0..sk.n() {
                if !cov[j] {
                    ensure!(after[0][j * 16..j * 16 + 16] == before[0][j * 16..j * 16 + 16], "a partial update wrote another joint", {"joint": j, "case": info()});
                }
            }
        }
        for (h, b) in m.handles.iter().zip(&hb) {
            if !h.output {
                ensure!(h.handle.bits() == *b, "a job changed one of its inputs", {"input": h.name, "round": round, "case": info()});
                c.ev("inputs compared", 1);
            }
        }
        m.job.assets(s)?;
        c.ev("jobs run", 1);
    }
    Ok(())
}

fn own_part(c: &mut Case) -> R {
    let which = c.index as usize % 4;
    let mut s = gen_spec(&mut c.rng, which);
    while !s.valid() || bad_indices(&s) {
        s = gen_spec(&mut c.rng, which);
    }
    c.sig(format!("{}", describe(&s, &[], "")).as_bytes());
    c.sig_u(c.index);
    if c.index < 4 {
        c.sample = describe(&s, &[], "");
    }
    match c.rng.below(5) {
        0 => writes::<KSlice>(c, &s),
        1 => writes::<KVec>(c, &s),
        2 | 3 => writes::<KRc>(c, &s),
        _ => writes::<KArc>(c, &s),
    }
}

/// Reading jobs leave tracks as they were.
fn tracks_kept(c: &mut Case) -> R {
    let t = gen_trk(&mut c.rng, 0, 30);
    let tr = lib_ok(load_track::<f32>(&t.write(false)), "loading a generated track")?;
    let mut job: TrackSamplingJobRef<f32> = TrackSamplingJob::default();
    job.set_track(&tr);
    for _ in 0..20 {
        job.set_ratio(c.rng.f32(-0.1, 1.1));
        lib_ok(job.run(), "sampling a track")?;
        let mut j: TrackTriggeringJobRef = TrackTriggeringJob::default();
        j.set_track(&tr);
        j.set_from(c.rng.f32(-3.0, 3.0));
        j.set_to(c.rng.f32(-3.0, 3.0));
        let (f, o) = (j.from(), j.to());
        let n = j.run().map(|i| i.count()).unwrap_or(0);
        ensure!(j.from() == f && j.to() == o, "triggering changed its own window", {});
        c.ev("edges", n as u64);
    }
    crate::p_assets::check_track(&t, &tr)?;
    c.ev("tracks compared", 1);
    c.sig(&t.write(false));
    Ok(())
}

// ---------------------------------------------------------------- C22

fn outcome<K: Kind>(s: &Spec) -> Result<(Result<(), &'static str>, Vec<Vec<u32>>, bool), Fail> {
    let mut m = make::<K>(s)?;
    let v = m.job.validate();
    let r = m.job.run().map_err(|e| err_name(&e));
    for h in &m.handles {
        ensure!(h.handle.free(), "a buffer is still held after run() returned", {"buffer": h.name, "case": describe(s, &[], K::NAME)});
    }
    Ok((r, m.job.outs(), v))
}

fn kinds(c: &mut Case) -> R {
    let which = c.index as usize % 4;
    let mut s = gen_spec(&mut c.rng, which);
    let mut muts = vec![];
    if c.rng.chance(0.25) {
        muts.push(mutate(&mut c.rng, &mut s));
    }
    if matches!(&s, Spec::Skin { n, .. } if *n > 1 << 20) {
        c.trivial();
        return Ok(());
    }
    c.sig(format!("{}", describe(&s, &muts, "")).as_bytes());
    c.sig_u(c.index);
    let a = outcome::<KSlice>(&s)?;
    log_set(0);
    let all = [(KVec::NAME, outcome::<KVec>(&s)?), (KRc::NAME, outcome::<KRc>(&s)?), (KArc::NAME, outcome::<KArc>(&s)?), (KMon::NAME, outcome::<KMon>(&s)?)];
    let l = log_get();
    ensure!(l.live == 0, "a buffer is still held after run() returned", {"live": l.live, "case": describe(&s, &muts, KMon::NAME)});
    for (name, o) in &all {
        ensure!(o.0 == a.0 && o.2 == a.2, "a job over other buffers returns another result", {"slices": format!("{:?}", a.0), "other": format!("{:?}", o.0), "case": describe(&s, &muts, name)});
        ensure!(o.1 == a.1, "a job over other buffers writes other values", {"case": describe(&s, &muts, name)});
    }
    c.ev(&format!("{} over five kinds of buffers", s.name()), 1);
    c.ev("acquisitions recorded", l.acquired);
    if c.index < 4 {
        c.sample = describe(&s, &muts, "all");
    }
    Ok(())
}

fn track_kinds(c: &mut Case) -> R {
    let t = gen_trk(&mut c.rng, 4, 12);
    let bytes = t.write(false);
    let again = || lib_ok(load_track::<Quat>(&bytes), "loading a generated track");
    let tr = again()?;
    let ratio = c.rng.f32(-0.1, 1.1);
    macro_rules! s {
        ($o:expr) => {{
            let mut j = TrackSamplingJob::default();
            j.set_track($o);
            j.set_ratio(ratio);
            lib_ok(j.run(), "sampling a track")?;
            q_bits(j.result())
        }};
    }
    let e = s!(&tr);
    ensure!(s!(again()?) == e && s!(Rc::new(again()?)) == e && s!(Arc::new(again()?)) == e, "a track behind another reference gives another value", {"ratio": ratio});
    let t = gen_trk(&mut c.rng, 0, 12);
    let bytes = t.write(false);
    let again = || lib_ok(load_track::<f32>(&bytes), "loading a generated track");
    let tr = again()?;
    let (f, o, th) = (c.rng.f32(-2.0, 2.0), c.rng.f32(-2.0, 2.0), c.rng.f32(-1.0, 1.0));
    macro_rules! g {
        ($o:expr) => {{
            let mut j = TrackTriggeringJob::default();
            j.set_track($o);
            j.set_from(f);
            j.set_to(o);
            j.set_threshold(th);
            let v: Vec<Edge> = match j.run() {
                Ok(i) => i.collect(),
                Err(e) => return fail("triggering refuses a complete job", json!({"error": err_name(&e)})),
            };
            v
        }};
    }
    let e = g!(&tr);
    ensure!(g!(again()?) == e && g!(Rc::new(again()?)) == e && g!(Arc::new(again()?)) == e, "a track behind another reference gives other edges", {"from": f, "to": o});
    c.ev("track jobs over four kinds of references", 2);
    c.sig(&t.write(false));
    c.sig_u(ratio.to_bits() as u64);
    Ok(())
}

/// Every buffer in turn is held by somebody else while the job runs.
fn borrowed(c: &mut Case) -> R {
    let which = c.index as usize % 4;
    let mut s = gen_spec(&mut c.rng, which);
    while !s.valid() || bad_indices(&s) {
        s = gen_spec(&mut c.rng, which);
    }
    c.sig(format!("{}", describe(&s, &[], "")).as_bytes());
    c.sig_u(c.index);
    let good = outcome::<KRc>(&s)?;
    lib_ok(good.0.map_err(|_| OzzError::InvalidJob), "running a valid job")?;
    let n = make::<KRc>(&s)?.handles.len();
    for k in 0..n {
        for exclusive in [true, false] {
            let mut m = make::<KRc>(&s)?;
            let before = bits_list(&m.handles);
            let Made { job, handles, .. } = &mut m;
            let (name, output, needed) = (handles[k].name.clone(), handles[k].output, handles[k].needed);
            let info = || json!({"buffer": name, "held_exclusively": exclusive, "case": describe(&s, &[], KRc::NAME)});
            let mut res = None;
            let mut valid = false;
            handles[k].handle.held(exclusive, &mut || {
                valid = job.validate();
                res = Some(job.run());
            });
            let res = res.unwrap();
            let blocked = exclusive || output;
            if blocked && needed {
                ensure!(res.is_err(), "run() computes although a buffer is already borrowed", {"case": info()});
                ensure!(bits_list(handles) == before, "run() changed a buffer although another one is already borrowed", {"case": info()});
                if exclusive {
                    ensure!(!valid, "validate() accepts a job whose buffer is already borrowed", {"case": info()});
                }
                c.ev("borrowed buffers refused", 1);
            } else if !blocked {
                ensure!(res.is_ok(), "run() refuses an input that others only read", {"error": res.as_ref().err().map(err_name), "case": info()});
                ensure!(job.outs() == good.1, "run() computes something else when others read an input", {"case": info()});
                c.ev("inputs read by others accepted", 1);
            }
            for h in handles.iter() {
                ensure!(h.handle.free(), "a buffer is still held after run() returned", {"held": h.name, "case": info()});
            }
            if res.is_err() {
                // Released: now it runs.
                ensure!(job.run().is_ok() && job.outs() == good.1, "a job does not run once its buffer has been released", {"case": info()});
            }
        }
    }
    Ok(())
}

/// Every lock in turn was left poisoned by a thread that panicked.
fn poisoned(c: &mut Case) -> R {
    let which = c.index as usize % 4;
    let mut s = gen_spec(&mut c.rng, which);
    while !s.valid() || bad_indices(&s) {
        s = gen_spec(&mut c.rng, which);
    }
    c.sig(format!("{}", describe(&s, &[], "")).as_bytes());
    c.sig_u(c.index);
    let n = make::<KArc>(&s)?.handles.len();
    for k in 0..n {
        let mut m = make::<KArc>(&s)?;
        let before = bits_list(&m.handles);
        let name = m.handles[k].name.clone();
        let info = || json!({"lock": name, "case": describe(&s, &[], KArc::NAME)});
        m.handles[k].handle.poison();
        let res = m.job.run();
        if m.handles[k].needed {
            ensure!(matches!(&res, Err(e) if e.is_lock_poison()), "run() does not return the lock-poison error for a poisoned lock",
                {"got": res.as_ref().err().map(err_name), "case": info()});
            ensure!(!m.job.validate(), "validate() accepts a job with a poisoned lock", {"case": info()});
            ensure!(bits_list(&m.handles) == before, "run() changed a buffer although a lock is poisoned", {"case": info()});
            c.ev("poisoned locks refused", 1);
        } else {
            c.ev("poisoned locks of unused buffers", 1);
        }
        for h in &m.handles {
            ensure!(h.handle.free(), "a lock is still held after run() returned", {"held": h.name, "case": info()});
        }
    }
    Ok(())
}

/// Every single acquisition of a buffer fails in turn.
fn faults(c: &mut Case) -> R {
    let which = c.index as usize % 4;
    let mut s = gen_spec(&mut c.rng, which);
    while !s.valid() || bad_indices(&s) {
        s = gen_spec(&mut c.rng, which);
    }
    c.sig(format!("{}", describe(&s, &[], "")).as_bytes());
    c.sig_u(c.index);
    let good = outcome::<KSlice>(&s)?;
    let mut k = 1;
    loop {
        let mut m = make::<KMon>(&s)?;
        let before = bits_list(&m.handles);
        log_set(k);
        let r = m.job.run();
        let l = log_get();
        log_set(0);
        let info = || json!({"acquisition": k, "case": describe(&s, &[], KMon::NAME)});
        ensure!(l.live == 0, "a buffer is still held after run() returned", {"live": l.live, "case": info()});
        ensure!(!l.conflict, "a job acquires a buffer that it holds already", {"case": info()});
        if !l.failed {
            ensure!(r.is_ok() && m.job.outs() == good.1, "a job over recording buffers does not give the same result", {"case": info()});
            c.max("acquisitions in one run", l.acquired);
            break;
        }
        ensure!(r.is_err(), "run() reports success although a buffer could not be acquired", {"case": info()});
        // A buffer that was there when the job was checked may fail later, when outputs have been written already.
        ensure!(!l.first || bits_list(&m.handles) == before, "run() changed a buffer although another one could not be acquired", {"case": info()});
        c.ev("failed acquisitions injected", 1);
        ensure!(m.job.run().is_ok() && m.job.outs() == good.1, "a job does not recover after a failed acquisition", {"case": info()});
        k += 1;
        if k > 500 {
            break;
        }
    }
    Ok(())
}

pub const GROUPS: &[fw::Group] = &[
    Group { prop: "C20", name: "configurations", quick: 160_000, thorough: 5_000_000, serial: false, exhaustive: false,
        rule: "random sampling, blending, local-to-model and skinning jobs with 0-5 things missing, empty, short, long or extreme, over five kinds of buffers", f: configs },
    Group { prop: "C20", name: "results", quick: 30_000, thorough: 1_000_000, serial: false, exhaustive: false,
        rule: "IK, motion blending and track jobs refused after a successful run", f: results },
    Group { prop: "C20", name: "reconfigured", quick: 8000, thorough: 300_000, serial: false, exhaustive: false,
        rule: "one sampling job reconfigured 30 times, accepted and refused", f: reconfigured },
    Group { prop: "C21", name: "own-part", quick: 100_000, thorough: 3_000_000, serial: false, exhaustive: false,
        rule: "random valid jobs over four kinds of buffers with over-long outputs; outputs, inputs, settings and assets compared bit for bit, twice", f: own_part },
    Group { prop: "C21", name: "tracks", quick: 5000, thorough: 100_000, serial: false, exhaustive: false,
        rule: "tracks sampled and triggered, then compared with what was authored", f: tracks_kept },
    Group { prop: "C22", name: "kinds", quick: 60_000, thorough: 2_000_000, serial: false, exhaustive: false,
        rule: "the same random job, valid or not, over slices, vectors, cells, locks and recording buffers", f: kinds },
    Group { prop: "C22", name: "track-kinds", quick: 20_000, thorough: 400_000, serial: false, exhaustive: false,
        rule: "track jobs over references, values, Rc and Arc", f: track_kinds },
    Group { prop: "C22", name: "borrowed", quick: 12_000, thorough: 400_000, serial: false, exhaustive: false,
        rule: "each buffer of a random valid job held by somebody else in turn, exclusively and shared", f: borrowed },
    Group { prop: "C22", name: "poisoned", quick: 4000, thorough: 100_000, serial: false, exhaustive: false,
        rule: "each lock of a random valid job poisoned by a panicking thread in turn", f: poisoned },
    Group { prop: "C22", name: "faults", quick: 12_000, thorough: 400_000, serial: false, exhaustive: false,
        rule: "each single acquisition of a buffer in a random valid job made to fail in turn", f: faults },
];
