//! C01 archive fidelity, C02 malformed archives, C08 asset serialization, C14 skeleton queries.

use crate::author::*;
use crate::ensure;
use crate::fw::*;
use crate::rng::Rng;
use crate::util::*;
use glam::{Quat, Vec2, Vec3, Vec4};
use ozz_animation_rs::*;
use rkyv::ser::serializers::AllocSerializer;
use rkyv::ser::Serializer;
use rkyv::Deserialize as _;
use serde_json::json;
use std::io::{Cursor, Read};

/// A reader that returns few bytes at a time, is interrupted now and then, and fails at a chosen point.
pub struct Hostile {
    data: Vec<u8>,
    at: usize,
    chunk: usize,
    interrupt_every: usize,
    calls: usize,
    fail_at: Option<usize>,
}

impl Hostile {
    pub fn new(data: Vec<u8>, chunk: usize, interrupt_every: usize, fail_at: Option<usize>) -> Hostile {
        Hostile { data, at: 0, chunk, interrupt_every, calls: 0, fail_at }
    }
}

impl Read for Hostile {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.interrupt_every != 0 && self.calls % self.interrupt_every == 0 {
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        let mut n = buf.len().min(self.chunk).min(self.data.len() - self.at);
        if let Some(f) = self.fail_at {
            if self.at >= f && !buf.is_empty() {
                return Err(std::io::Error::new(std::io::ErrorKind::ConnectionReset, "injected"));
            }
            n = n.min(f - self.at);
        }
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

// ---------------------------------------------------------------- expected content

pub fn check_skel(m: &Skel, s: &Skeleton) -> R {
    ensure!(s.num_joints() == m.n(), "number of joints differs", {"want": m.n(), "got": s.num_joints()});
    ensure!(s.num_soa_joints() == m.nsoa(), "number of joint groups differs", {"want": m.nsoa(), "got": s.num_soa_joints()});
    ensure!(s.num_aligned_joints() == m.nsoa() * 4, "number of aligned joints differs", {"want": m.nsoa() * 4, "got": s.num_aligned_joints()});
    ensure!(s.joint_parents() == &m.parents[..], "joint parents differ", {"want": m.parents, "got": s.joint_parents()});
    ensure!(s.joint_names().len() == m.n(), "number of joint names differs", {"want": m.n(), "got": s.joint_names().len()});
    for (i, n) in m.names.iter().enumerate() {
        ensure!(s.joint_by_name(n) == Some(i as i16), "joint not found by its name", {"name": n, "joint": i, "got": s.joint_by_name(n)});
        ensure!(s.name_by_joint(i as i16) == Some(n.as_str()), "name not found by its joint", {"name": n, "joint": i, "got": s.name_by_joint(i as i16)});
        ensure!(s.joint_parent(i) == m.parents[i] && s.joint_parent(i as i16) == m.parents[i] && s.joint_parent(i as i32) == m.parents[i], "joint parent differs", {"joint": i});
    }
    ensure!(s.joint_rest_poses().len() == m.nsoa(), "number of rest poses differs", {"want": m.nsoa(), "got": s.joint_rest_poses().len()});
    for g in 0..m.nsoa() {
        for l in 0..4 {
            let (w, x) = (m.rest_lane(g * 4 + l), lane(&s.joint_rest_poses()[g], l));
            ensure!(xf_bits(&w) == xf_bits(&x), "rest pose differs", {"joint": g * 4 + l, "want": format!("{:?}", w), "got": format!("{:?}", x)});
        }
    }
    Ok(())
}

pub fn xf_bits(x: &Xf) -> Vec<u32> {
    let mut v: Vec<f32> = Vec::new();
    v.extend(x.t);
    v.extend(x.r);
    v.extend(x.s);
    f32s(&v)
}

/// The raw 16-bit components of a stored key, read through the serialized form (the only public view of them).
fn key_raw<T: serde::Serialize>(k: &T) -> [u16; 3] {
    let v = serde_json::to_value(k).unwrap();
    let a: Vec<u16> = match &v {
        serde_json::Value::Array(a) => a.iter().map(|x| x.as_u64().unwrap() as u16).collect(),
        other => panic!("unexpected form of a key: {}", other),
    };
    [a[0], a[1], a[2]]
}

pub fn check_anim(m: &Built, a: &Animation) -> R {
    let n4 = (m.num_tracks + 3) / 4;
    ensure!(a.duration().to_bits() == m.duration.to_bits(), "duration differs", {"want": m.duration, "got": a.duration()});
    ensure!(a.num_tracks() == m.num_tracks, "number of tracks differs", {"want": m.num_tracks, "got": a.num_tracks()});
    ensure!(a.num_soa_tracks() == n4, "number of track groups differs", {"want": n4, "got": a.num_soa_tracks()});
    ensure!(a.num_aligned_tracks() == n4 * 4, "number of aligned tracks differs", {"want": n4 * 4, "got": a.num_aligned_tracks()});
    ensure!(a.name() == m.name, "name differs", {"want": m.name, "got": a.name()});
    ensure!(f32s(a.timepoints()) == f32s(&m.timepoints), "time points differ", {"want_len": m.timepoints.len(), "got_len": a.timepoints().len()});
    let ctrl = [a.translations_ctrl(), a.rotations_ctrl(), a.scales_ctrl()];
    let names = ["translation", "rotation", "scale"];
    for c in 0..3 {
        let w = &m.comp[c];
        ensure!(ctrl[c].ratios == &w.ratios[..], format!("{} time indices differ", names[c]), {"component": c});
        ensure!(ctrl[c].previouses == &w.previouses[..], format!("{} back references differ", names[c]), {"component": c});
        ensure!(ctrl[c].iframe_entries == &w.entries[..], format!("{} seek entries differ", names[c]), {"component": c});
        ensure!(ctrl[c].iframe_desc == &w.desc[..], format!("{} seek descriptors differ", names[c]), {"component": c});
        ensure!(ctrl[c].iframe_interval.to_bits() == w.interval.to_bits(), format!("{} seek interval differs", names[c]), {"want": w.interval, "got": ctrl[c].iframe_interval});
    }
    ensure!(a.translations().len() == m.comp[0].keys.len(), "number of translation keys differs", {"got": a.translations().len()});
    ensure!(a.rotations().len() == m.comp[1].keys.len(), "number of rotation keys differs", {"got": a.rotations().len()});
    ensure!(a.scales().len() == m.comp[2].keys.len(), "number of scale keys differs", {"got": a.scales().len()});
    for (i, k) in m.comp[0].keys.iter().enumerate() {
        ensure!(a.translations()[i] == animation::Float3Key::new(*k), "a translation key differs", {"key": i, "want": k});
    }
    for (i, k) in m.comp[1].keys.iter().enumerate() {
        ensure!(a.rotations()[i] == animation::QuaternionKey::new(*k), "a rotation key differs", {"key": i, "want": k});
    }
    for (i, k) in m.comp[2].keys.iter().enumerate() {
        ensure!(a.scales()[i] == animation::Float3Key::new(*k), "a scale key differs", {"key": i, "want": k});
    }
    Ok(())
}

pub fn check_track<V: TrackVal>(m: &Trk, t: &Track<V>) -> R {
    ensure!(t.key_count() == m.ratios.len(), "number of keys differs", {"want": m.ratios.len(), "got": t.key_count()});
    ensure!(f32s(t.ratios()) == f32s(&m.ratios), "key ratios differ", {"want": m.ratios, "got": t.ratios()});
    ensure!(t.values().len() == m.values.len(), "number of values differs", {"want": m.values.len(), "got": t.values().len()});
    for (i, v) in m.values.iter().enumerate() {
        ensure!(f32s(&v[..m.dim]) == f32s(&t.values()[i].comps()[..m.dim]), "a key value differs", {"key": i, "want": v, "got": t.values()[i].comps()});
    }
    ensure!(t.steps() == &m.step_bits()[..], "step flags differ", {"want": m.step_bits(), "got": t.steps()});
    ensure!(t.name() == m.name, "name differs", {"want": m.name, "got": t.name()});
    Ok(())
}

// ---------------------------------------------------------------- C01

fn scratch_file(bytes: &[u8]) -> std::path::PathBuf {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let dir = std::env::var("OZZMON_SCRATCH").map(std::path::PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let p = dir.join(format!("ozzmon_{}_{}.ozz", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    std::fs::write(&p, bytes).expect("scratch file");
    p
}

/// Loads through every entry point in turn.
fn every_way<T>(
    case: &mut Case,
    bytes: &[u8],
    load: &dyn Fn(&mut dyn AnyLoad) -> Result<T, OzzError>,
    from_path: &dyn Fn(&std::path::Path) -> Result<T, OzzError>,
    check: &dyn Fn(&T) -> R,
) -> R {
    let mut vec_a = lib_ok(Archive::from_vec(bytes.to_vec()), "opening an archive")?;
    check(&lib_ok(load(&mut vec_a), "loading from a vector")?)?;
    let mut sl_a = lib_ok(Archive::from_slice(bytes), "opening an archive")?;
    check(&lib_ok(load(&mut sl_a), "loading from a slice")?)?;
    let chunk = case.rng.range(1, 9);
    let int = *case.rng.pick(&[0usize, 2, 3, 7]);
    let mut h = lib_ok(Archive::new(Hostile::new(bytes.to_vec(), chunk, int, None)), "opening a slow reader")?;
    check(&lib_ok(load(&mut h), "loading from a slow reader")?)?;
    case.ev("loads", 3);
    if !cfg!(miri) && case.rng.chance(0.05) {
        let p = scratch_file(bytes);
        let r = from_path(&p);
        let r2 = std::fs::File::open(&p).map_err(OzzError::from).and_then(|f| Archive::from_file(f)).and_then(|mut a| load(&mut a));
        let _ = std::fs::remove_file(&p);
        check(&lib_ok(r, "loading from a path")?)?;
        check(&lib_ok(r2, "loading from a file")?)?;
        case.ev("loads from files", 2);
    }
    Ok(())
}

/// Any archive, whatever its reader.
pub trait AnyLoad {
    fn skel(&mut self) -> Result<Skeleton, OzzError>;
    fn anim(&mut self) -> Result<Animation, OzzError>;
    fn t1(&mut self) -> Result<Track<f32>, OzzError>;
    fn t2(&mut self) -> Result<Track<Vec2>, OzzError>;
    fn t3(&mut self) -> Result<Track<Vec3>, OzzError>;
    fn t4(&mut self) -> Result<Track<Vec4>, OzzError>;
    fn tq(&mut self) -> Result<Track<Quat>, OzzError>;
}
impl<Rd: Read> AnyLoad for Archive<Rd> {
    fn skel(&mut self) -> Result<Skeleton, OzzError> {
        Skeleton::from_archive(self)
    }
    fn anim(&mut self) -> Result<Animation, OzzError> {
        Animation::from_archive(self)
    }
    fn t1(&mut self) -> Result<Track<f32>, OzzError> {
        Track::from_archive(self)
    }
    fn t2(&mut self) -> Result<Track<Vec2>, OzzError> {
        Track::from_archive(self)
    }
    fn t3(&mut self) -> Result<Track<Vec3>, OzzError> {
        Track::from_archive(self)
    }
    fn t4(&mut self) -> Result<Track<Vec4>, OzzError> {
        Track::from_archive(self)
    }
    fn tq(&mut self) -> Result<Track<Quat>, OzzError> {
        Track::from_archive(self)
    }
}

pub fn gen_asset_anim(r: &mut Rng, big: bool) -> (Anim, Built) {
    let tracks = if r.chance(0.04) {
        0
    } else if big {
        gen_count(r, 80)
    } else {
        gen_count(r, 24)
    };
    let max_keys = r.range(2, 12);
    let (mut a, mut b) = gen_fit(r, &AnimOpts { tracks, max_keys, wild: true, flips: true });
    if r.chance(0.1) {
        a.name = gen_name(r, 200);
        if r.chance(0.5) {
            a.name.push('\0');
            a.name.push('x');
        }
        b.name = a.name.clone();
    }
    (a, b)
}

fn c01_animation(case: &mut Case) -> R {
    let (_a, b) = if case.index % 400 == 7 { gen_long(&mut case.rng) } else { gen_asset_anim(&mut case.rng, true) };
    case.sig(&b.write(false));
    if b.num_tracks == 0 {
        case.ev("empty assets", 1);
    }
    if b.timepoints.len() > 255 {
        case.ev("16-bit time indices", 1);
    }
    case.sample = json!({"tracks": b.num_tracks, "timepoints": b.timepoints.len(), "keys": b.comp.iter().map(|c| c.keys.len()).collect::<Vec<_>>(), "seek": b.comp.iter().map(|c| c.desc.len() / 2).collect::<Vec<_>>(), "name": b.name});
    for be in [false, true] {
        let bytes = b.write(be);
        every_way(case, &bytes, &|a| a.anim(), &|p| Animation::from_path(p), &|a| check_anim(&b, a))?;
        let mut ar = lib_ok(Archive::from_slice(&bytes), "opening an archive")?;
        ensure!(ar.endian_swap() == be, "byte order detected wrongly", {"big_endian": be});
        let meta = lib_ok(Animation::read_meta(&mut ar), "reading animation meta data")?;
        let counts = [meta.translations_count, meta.rotations_count, meta.scales_count, meta.t_iframe_entries_count, meta.t_iframe_desc_count, meta.r_iframe_entries_count, meta.r_iframe_desc_count, meta.s_iframe_entries_count, meta.s_iframe_desc_count];
        let mut want: Vec<u32> = b.comp.iter().map(|c| c.keys.len() as u32).collect();
        for c in &b.comp {
            want.push(c.entries.len() as u32);
            want.push(c.desc.len() as u32);
        }
        ensure!(counts[..] == want[..] && meta.name == b.name && meta.num_tracks as usize == b.num_tracks && meta.duration == b.duration && meta.version == 7 && meta.timepoints_count as usize == b.timepoints.len(),
            "animation meta data differs", {"want": want, "got": counts, "big_endian": be});
    }
    // Both byte orders animate identically.
    if b.num_tracks > 0 {
        let le = lib_ok(load_anim(&b.write(false)), "loading")?;
        let be = lib_ok(load_anim(&b.write(true)), "loading")?;
        for _ in 0..3 {
            let ratio = case.rng.f32(0.0, 1.0);
            let (x, y) = (sample_fresh(&le, ratio)?, sample_fresh(&be, ratio)?);
            ensure!(pose_bits(&x) == pose_bits(&y), "the two byte orders animate differently", {"ratio": ratio});
        }
        case.ev("samples compared across byte orders", 3);
    }
    Ok(())
}

fn c01_skeleton(case: &mut Case) -> R {
    let n = if case.rng.chance(0.03) {
        0
    } else if case.rng.chance(0.02) {
        case.rng.range(1000, 1024)
    } else {
        gen_count(&mut case.rng, 100)
    };
    let m = gen_skel(&mut case.rng, n);
    case.sig(&m.write(false));
    case.ev(if n == 0 { "empty assets" } else { "non-empty skeletons" }, 1);
    case.sample = json!({"joints": n, "names": m.names.iter().take(5).collect::<Vec<_>>(), "parents": m.parents.iter().take(12).collect::<Vec<_>>()});
    for be in [false, true] {
        let bytes = m.write(be);
        every_way(case, &bytes, &|a| a.skel(), &|p| Skeleton::from_path(p), &|s| check_skel(&m, s))?;
        for joints in [false, true] {
            let mut ar = lib_ok(Archive::from_slice(&bytes), "opening an archive")?;
            let meta = lib_ok(Skeleton::read_meta(&mut ar, joints), "reading skeleton meta data")?;
            ensure!(meta.num_joints as usize == n && meta.version == 2, "skeleton meta data differs", {"got": meta.num_joints, "want": n});
            if joints {
                ensure!(meta.joint_parents == m.parents, "parents in skeleton meta data differ", {"got": meta.joint_parents, "want": m.parents});
                for (i, name) in m.names.iter().enumerate() {
                    ensure!(meta.joint_names.get_by_left(name) == Some(&(i as i16)), "names in skeleton meta data differ", {"joint": i, "name": name});
                }
            }
        }
    }
    Ok(())
}

fn one_track<V: TrackVal>(case: &mut Case, m: &Trk, load: &dyn Fn(&mut dyn AnyLoad) -> Result<Track<V>, OzzError>) -> R {
    for be in [false, true] {
        let bytes = m.write(be);
        every_way(case, &bytes, load, &|p| Track::<V>::from_path(p), &|t| check_track(m, t))?;
    }
    Ok(())
}

fn c01_track(case: &mut Case) -> R {
    let kind = (case.index % 5) as usize;
    let max = match case.index % 2000 {
        0..=4 => case.rng.range(66_000, 70_000),
        5..=24 => case.rng.range(41, 3000),
        _ => *case.rng.pick(&[4, 9, 40]),
    };
    let mut m = gen_trk(&mut case.rng, kind, max);
    if case.rng.chance(0.05) {
        m.ratios.clear();
        m.values.clear();
        m.steps.clear();
    }
    if case.rng.chance(0.05) {
        m.name = gen_name(&mut case.rng, 300);
    }
    case.sig(&m.write(false));
    case.ev(&format!("tracks of kind {}", m.tag()), 1);
    case.sample = json!({"tag": m.tag(), "keys": m.ratios.len(), "name": m.name});
    match kind {
        0 => one_track::<f32>(case, &m, &|a| a.t1()),
        1 => one_track::<Vec2>(case, &m, &|a| a.t2()),
        2 => one_track::<Vec3>(case, &m, &|a| a.t3()),
        3 => one_track::<Vec4>(case, &m, &|a| a.t4()),
        _ => one_track::<Quat>(case, &m, &|a| a.tq()),
    }
}

/// Several objects behind one another in a single archive.
fn c01_sequence(case: &mut Case) -> R {
    let be = case.rng.chance(0.5);
    let mut bytes = vec![if be { 0u8 } else { 1 }];
    let k = case.rng.range(2, 5);
    enum O {
        S(Skel),
        A(Built),
        T(Trk),
    }
    let mut os = Vec::new();
    for _ in 0..k {
        let (o, b) = match case.rng.below(3) {
            0 => {
                let n = gen_count(&mut case.rng, 20);
                let s = gen_skel(&mut case.rng, n);
                let b = s.write(be);
                (O::S(s), b)
            }
            1 => {
                let (_, bt) = gen_asset_anim(&mut case.rng, false);
                let b = bt.write(be);
                (O::A(bt), b)
            }
            _ => {
                let t = gen_trk(&mut case.rng, 2, 12);
                let b = t.write(be);
                (O::T(t), b)
            }
        };
        bytes.extend_from_slice(&b[1..]);
        os.push(o);
    }
    bytes.extend_from_slice(b"tail\0");
    case.sig(&bytes);
    let mut ar = lib_ok(Archive::new(Cursor::new(bytes)), "opening an archive")?;
    for o in &os {
        match o {
            O::S(s) => check_skel(s, &lib_ok(Skeleton::from_archive(&mut ar), "loading a skeleton inside a sequence")?)?,
            O::A(a) => check_anim(a, &lib_ok(Animation::from_archive(&mut ar), "loading an animation inside a sequence")?)?,
            O::T(t) => check_track::<Vec3>(t, &lib_ok(Track::from_archive(&mut ar), "loading a track inside a sequence")?)?,
        }
        case.ev("objects loaded in sequence", 1);
    }
    let tail: String = lib_ok(ar.read(), "reading after the objects")?;
    ensure!(tail == "tail", "loading consumed more or fewer bytes than the object has", {"read": tail});
    Ok(())
}

/// The raw readers of an archive: every primitive, vectors of them and slices, in both byte orders.
fn c01_primitives(case: &mut Case) -> R {
    let be = case.index % 2 == 1;
    let mut w = W::new(be);
    let r = &mut case.rng;
    let (a, b, c, d) = (r.u64(), r.u64(), r.u32(), r.u32() as u16);
    macro_rules! put {
        ($v:expr) => {{
            let v = $v;
            let x = if be { v.to_be_bytes() } else { v.to_le_bytes() };
            w.b.extend_from_slice(&x);
        }};
    }
    let f = f32::from_bits(c & 0xBFFFFFFF);
    let g = f64::from_bits(a & 0xBFFFFFFFFFFFFFFF);
    let bo = r.chance(0.5);
    put!(bo as u8);
    put!(a as u8);
    put!(a as i8);
    put!(d);
    put!(d as i16);
    put!(c);
    put!(c as i32);
    put!(b);
    put!(b as i64);
    put!(f);
    put!(g);
    let v: Vec<f32> = (0..13).map(|_| r.f32(-9.0, 9.0)).collect();
    for x in &v {
        put!(*x);
    }
    let n = r.range(0, 9);
    let us: Vec<u16> = (0..n).map(|_| r.u32() as u16).collect();
    for x in us.iter().chain(us.iter()) {
        put!(*x);
    }
    w.tag("héllo 骨");
    w.u32(0xA1B2C3D4);
    w.tag("t");
    w.u32(3);
    case.sig(&w.b);
    case.ev("primitives read", 11 + 13 + 2 * n as u64);
    let mut ar = lib_ok(Archive::from_slice(&w.b), "opening an archive")?;
    macro_rules! get {
        ($t:ty, $want:expr) => {{
            let x: $t = lib_ok(ar.read(), "reading a primitive")?;
            ensure!(x == $want, concat!("read a wrong ", stringify!($t)), {"got": format!("{:?}", x), "want": format!("{:?}", $want), "big_endian": be});
        }};
    }
    get!(bool, bo);
    get!(u8, a as u8);
    get!(i8, a as i8);
    get!(u16, d);
    get!(i16, d as i16);
    get!(u32, c);
    get!(i32, c as i32);
    get!(u64, b);
    get!(i64, b as i64);
    get!(f32, f);
    get!(f64, g);
    get!(Vec2, Vec2::new(v[0], v[1]));
    get!(Vec3, Vec3::new(v[2], v[3], v[4]));
    get!(Vec4, Vec4::new(v[5], v[6], v[7], v[8]));
    get!(Quat, Quat::from_xyzw(v[9], v[10], v[11], v[12]));
    let x: Vec<u16> = lib_ok(ar.read_vec(n), "reading a vector")?;
    ensure!(x == us, "read a wrong vector", {"got": x, "want": us});
    let mut y = vec![0u16; n];
    lib_ok(ar.read_slice(&mut y), "reading a slice")?;
    ensure!(y == us, "read a wrong slice", {"got": y, "want": us});
    get!(String, "héllo 骨");
    let ver = lib_ok(ar.read_version(), "reading a version")?;
    ensure!(ver == 0xA1B2C3D4, "read a wrong version", {"got": ver});
    let tv = lib_ok(ar.read_tag_version(), "reading a tag and version")?;
    ensure!(tv == ("t".to_string(), 3), "read a wrong tag and version", {"got": tv});
    ensure!(ar.read::<u8>().is_err(), "read past the end of the archive", {});
    Ok(())
}

/// The assets shipped with the repository, re-written byte for byte from what was loaded.
fn c01_shipped(case: &mut Case) -> R {
    let i = case.index as usize;
    if i < SHIPPED_SKELETONS.len() {
        let p = shipped(SHIPPED_SKELETONS[i]);
        let bytes = std::fs::read(&p).expect("shipped asset");
        let s = lib_ok(Skeleton::from_path(&p), "loading a shipped skeleton")?;
        let m = Skel {
            names: (0..s.num_joints()).map(|j| s.name_by_joint(j as i16).unwrap_or("?").to_string()).collect(),
            parents: s.joint_parents().to_vec(),
            rest: (0..s.num_soa_joints() * 4).map(|j| lane(&s.joint_rest_poses()[j / 4], j % 4)).collect(),
        };
        let again = m.write(false);
        ensure!(again == bytes, "a shipped skeleton re-written from the loaded object differs from its file", {"file": p});
        let mut be = lib_ok(Archive::from_vec(m.write(true)), "opening")?;
        check_skel(&m, &lib_ok(Skeleton::from_archive(&mut be), "loading big-endian")?)?;
        case.sig(p.as_bytes());
        case.ev("shipped files rewritten identically", 1);
    } else if i < SHIPPED_SKELETONS.len() + SHIPPED_ANIMATIONS.len() {
        let p = shipped(SHIPPED_ANIMATIONS[i - SHIPPED_SKELETONS.len()]);
        let bytes = std::fs::read(&p).expect("shipped asset");
        let a = lib_ok(Animation::from_path(&p), "loading a shipped animation")?;
        let b = built_of(&a);
        let again = b.write(false);
        ensure!(again == bytes, "a shipped animation re-written from the loaded object differs from its file", {"file": p});
        check_anim(&b, &lib_ok(load_anim(&b.write(true)), "loading big-endian")?)?;
        case.sig(p.as_bytes());
        case.ev("shipped files rewritten identically", 1);
    } else {
        let name = SHIPPED_TRACKS[i - SHIPPED_SKELETONS.len() - SHIPPED_ANIMATIONS.len()];
        let p = shipped(name);
        let bytes = std::fs::read(&p).expect("shipped asset");
        let mut ar = lib_ok(Archive::from_path(&p), "opening a shipped track")?;
        let mut again = vec![1u8];
        if name.starts_with("track/") {
            let t: Track<f32> = lib_ok(Track::from_archive(&mut ar), "loading a shipped track")?;
            again.extend_from_slice(&trk_of(&t).write(false)[1..]);
        } else {
            let t: Track<Vec3> = lib_ok(Track::from_archive(&mut ar), "loading a shipped track")?;
            again.extend_from_slice(&trk_of(&t).write(false)[1..]);
            let t: Track<Quat> = lib_ok(Track::from_archive(&mut ar), "loading a shipped track")?;
            again.extend_from_slice(&trk_of(&t).write(false)[1..]);
        }
        ensure!(again == bytes, "a shipped track re-written from the loaded object differs from its file", {"file": p});
        case.sig(p.as_bytes());
        case.ev("shipped files rewritten identically", 1);
    }
    Ok(())
}

/// The author's model of a loaded track.
pub fn trk_of<V: TrackVal>(t: &Track<V>) -> Trk {
    let (dim, quat) = [(1, false), (2, false), (3, false), (4, false), (4, true)][V::KIND];
    let n = t.key_count();
    Trk {
        dim,
        quat,
        name: t.name().to_string(),
        ratios: t.ratios().to_vec(),
        values: t.values().iter().map(|v| v.comps()).collect(),
        steps: (0..n).map(|i| t.steps()[i / 8] & (1 << (i % 8)) != 0).collect(),
    }
}

/// The content of a loaded animation.
pub fn built_of(a: &Animation) -> Built {
    let f = |c: animation::KeyframesCtrl<'_>, keys: Vec<[u16; 3]>| Comp {
        ratios: c.ratios.to_vec(),
        previouses: c.previouses.to_vec(),
        entries: c.iframe_entries.to_vec(),
        desc: c.iframe_desc.to_vec(),
        interval: c.iframe_interval,
        keys,
    };
    Built {
        duration: a.duration(),
        name: a.name().to_string(),
        num_tracks: a.num_tracks(),
        timepoints: a.timepoints().to_vec(),
        comp: [
            f(a.translations_ctrl(), a.translations().iter().map(key_raw).collect()),
            f(a.rotations_ctrl(), a.rotations().iter().map(key_raw).collect()),
            f(a.scales_ctrl(), a.scales().iter().map(key_raw).collect()),
        ],
    }
}

/// The author's model of a loaded animation (keys regrouped per track).
pub fn anim_of(b: &Built) -> Anim {
    let n = (b.num_tracks + 3) / 4 * 4;
    let mut keys: [Vec<Vec<Key>>; 3] = Default::default();
    for c in 0..3 {
        let o = &b.comp[c];
        let mut tracks: Vec<Vec<Key>> = vec![Vec::new(); n];
        let mut owner = vec![0usize; o.keys.len()];
        for i in 0..o.keys.len() {
            owner[i] = if i < n { i } else { owner[i - o.previouses[i] as usize] };
            tracks[owner[i]].push((b.timepoints[o.ratios[i] as usize], o.keys[i]));
        }
        keys[c] = tracks;
    }
    Anim { duration: b.duration, name: b.name.clone(), num_tracks: b.num_tracks, keys, iframes: [0; 3], pad_timepoints: 0 }
}

// ---------------------------------------------------------------- C02

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    S,
    A,
    T(usize),
}

pub const KINDS: [Kind; 7] = [Kind::S, Kind::A, Kind::T(0), Kind::T(1), Kind::T(2), Kind::T(3), Kind::T(4)];

/// Loads as a kind; the object is dropped, or an error comes back.
pub fn load_as<Rd: Read>(k: Kind, ar: &mut Archive<Rd>) -> Result<(), OzzError> {
    match k {
        Kind::S => Skeleton::from_archive(ar).map(|s| {
            let _ = (s.num_joints(), s.joint_parents().len(), s.joint_rest_poses().len(), s.joint_names().len());
        }),
        Kind::A => Animation::from_archive(ar).map(|a| {
            let _ = (a.timepoints().len(), a.translations().len(), a.scales_ctrl().iframe_desc.len());
        }),
        Kind::T(0) => Track::<f32>::from_archive(ar).map(|_| ()),
        Kind::T(1) => Track::<Vec2>::from_archive(ar).map(|_| ()),
        Kind::T(2) => Track::<Vec3>::from_archive(ar).map(|_| ()),
        Kind::T(3) => Track::<Vec4>::from_archive(ar).map(|_| ()),
        Kind::T(_) => Track::<Quat>::from_archive(ar).map(|_| ()),
    }
}

fn load_bytes(k: Kind, b: &[u8]) -> Result<(), OzzError> {
    let r = Archive::from_slice(b).and_then(|mut a| load_as(k, &mut a));
    if let Err(e) = &r {
        assert!(sorted(e), "the error {:?} is not of its own kind", e);
    }
    r
}

fn gen_archive(r: &mut Rng, k: Kind, be: bool, small: bool) -> Vec<u8> {
    match k {
        Kind::S => {
            let n = if small { r.range(1, 9) } else { gen_count(r, 60) };
            gen_skel(r, n).write(be)
        }
        Kind::A => {
            let tracks = if small { r.range(1, 5) } else { gen_count(r, 30) };
            let (_, b) = gen_fit(r, &AnimOpts { tracks, max_keys: if small { 3 } else { 6 }, wild: true, flips: true });
            b.write(be)
        }
        Kind::T(t) => gen_trk(r, t, if small { 6 } else { 30 }).write(be),
    }
}

fn header_len(k: Kind, b: &[u8]) -> usize {
    let tag_end = 1 + b[1..].iter().position(|c| *c == 0).unwrap() + 1;
    tag_end
        + match k {
            Kind::S => 4 + 8,
            Kind::A => 4 + 52,
            Kind::T(_) => 4 + 8,
        }
}

fn c02_truncate(case: &mut Case) -> R {
    let k = KINDS[(case.index % 7) as usize];
    let be = case.rng.chance(0.4);
    let bytes = gen_archive(&mut case.rng, k, be, true);
    case.sig(&bytes);
    case.sample = json!({"kind": format!("{:?}", k), "bytes": bytes.len(), "big_endian": be});
    lib_ok(load_bytes(k, &bytes), "loading the whole archive")?;
    let total = bytes.len();
    let stride = 1 + total / 3000;
    let mut cut = 0;
    while cut < total {
        match guarded(|| load_bytes(k, &bytes[..cut])) {
            Outcome::Done(Err(OzzError::IO(kind))) => {
                ensure!(kind == std::io::ErrorKind::UnexpectedEof, "a truncated archive gives an unexpected I/O error kind", {"cut": cut, "kind": format!("{:?}", kind)});
            }
            Outcome::Done(Err(e)) => return fail("a truncated archive gives an error that does not say the data ended", json!({"cut": cut, "of": total, "error": err_name(&e), "kind": format!("{:?}", k)})),
            Outcome::Done(Ok(())) => return fail("a truncated archive loads as if complete", json!({"cut": cut, "of": total, "kind": format!("{:?}", k)})),
            Outcome::Panicked(m, l) => return fail("loading a truncated archive panics", json!({"cut": cut, "of": total, "panic": m, "at": l})),
        }
        case.ev("truncation points", 1);
        cut += if cut + 64 > total || cut < 128 { 1 } else { stride };
    }
    Ok(())
}

fn c02_reader_errors(case: &mut Case) -> R {
    let k = KINDS[(case.index % 7) as usize];
    let be = case.rng.chance(0.4);
    let bytes = gen_archive(&mut case.rng, k, be, true);
    case.sig(&bytes);
    let points = if case.thorough { 200 } else { 40 };
    for _ in 0..points {
        let at = case.rng.below(bytes.len());
        let chunk = case.rng.range(1, 16);
        let r = guarded(|| {
            let mut a = Archive::new(Hostile::new(bytes.clone(), chunk, 3, Some(at)))?;
            load_as(k, &mut a)
        });
        match r {
            Outcome::Done(Err(OzzError::IO(kind))) => {
                ensure!(kind == std::io::ErrorKind::ConnectionReset, "a reader's error is reported as another one", {"at": at, "kind": format!("{:?}", kind)});
            }
            Outcome::Done(Err(e)) => return fail("a reader's error is reported as another one", json!({"at": at, "error": err_name(&e)})),
            Outcome::Done(Ok(())) => return fail("loading succeeds although the reader failed", json!({"at": at, "of": bytes.len()})),
            Outcome::Panicked(m, l) => return fail("a failing reader makes loading panic", json!({"at": at, "panic": m, "where": l})),
        }
        case.ev("injected reader errors", 1);
    }
    Ok(())
}

fn c02_labels(case: &mut Case) -> R {
    let i = case.index as usize % 49;
    let (have, want) = (KINDS[i / 7], KINDS[i % 7]);
    let be = case.rng.chance(0.5);
    let bytes = gen_archive(&mut case.rng, have, be, true);
    case.sig(&bytes);
    case.sig_u(i as u64);
    let get = |k: Kind, b: &[u8]| guarded(|| load_bytes(k, b));
    // Another object's archive.
    if have != want {
        match get(want, &bytes) {
            Outcome::Done(Err(OzzError::InvalidTag)) => case.ev("foreign tags refused", 1),
            Outcome::Done(r) => return fail("an archive of another object is not refused with the invalid-tag error", json!({"archive": format!("{:?}", have), "loaded_as": format!("{:?}", want), "got": r.err().map(|e| err_name(&e))})),
            Outcome::Panicked(m, l) => return fail("an archive of another object makes loading panic", json!({"panic": m, "at": l})),
        }
    } else {
        // Near-miss tags.
        let end = 1 + bytes[1..].iter().position(|c| *c == 0).unwrap();
        for _ in 0..8 {
            let mut b = bytes.clone();
            match case.rng.below(4) {
                0 => {
                    let p = case.rng.range(1, end - 1);
                    b[p] ^= 0x20;
                }
                1 => {
                    let p = case.rng.range(1, end - 1);
                    b[p] = b[p].wrapping_add(1) & 0x7F;
                    if b[p] == 0 {
                        b[p] = b'a';
                    }
                }
                2 => b.insert(end, b'x'),
                _ => {
                    b.remove(end - 1);
                }
            }
            match get(want, &b) {
                Outcome::Done(Err(OzzError::InvalidTag)) => case.ev("damaged tags refused", 1),
                Outcome::Done(r) => return fail("an archive with a wrong tag is not refused with the invalid-tag error", json!({"kind": format!("{:?}", want), "got": r.err().map(|e| err_name(&e)), "tag": b[..end + 1]})),
                Outcome::Panicked(m, l) => return fail("a wrong tag makes loading panic", json!({"panic": m, "at": l})),
            }
        }
        // Versions.
        let right = match want {
            Kind::S => 2u32,
            Kind::A => 7,
            _ => 1,
        };
        for _ in 0..12 {
            let v = match case.rng.below(4) {
                0 => right.wrapping_add(1),
                1 => right.wrapping_sub(1),
                2 => right.swap_bytes(),
                _ => case.rng.u32() >> case.rng.below(31),
            };
            if v == right {
                continue;
            }
            let mut b = bytes.clone();
            let x = if be { v.to_be_bytes() } else { v.to_le_bytes() };
            b[end + 1..end + 5].copy_from_slice(&x);
            match get(want, &b) {
                Outcome::Done(Err(OzzError::InvalidVersion)) => case.ev("other versions refused", 1),
                Outcome::Done(r) => return fail("an archive of another version is not refused with the invalid-version error", json!({"kind": format!("{:?}", want), "version": v, "got": r.err().map(|e| err_name(&e))})),
                Outcome::Panicked(m, l) => return fail("another version makes loading panic", json!({"panic": m, "at": l})),
            }
            // The meta readers refuse likewise.
            let meta = guarded(|| -> Result<(), OzzError> {
                let mut a = Archive::from_slice(&b)?;
                match want {
                    Kind::S => Skeleton::read_meta(&mut a, true).map(|_| ()),
                    Kind::A => Animation::read_meta(&mut a).map(|_| ()),
                    _ => Err(OzzError::InvalidVersion),
                }
            });
            ensure!(matches!(meta, Outcome::Done(Err(OzzError::InvalidVersion))), "reading the meta data of another version is not refused", {"version": v});
        }
    }
    Ok(())
}

fn c02_text(case: &mut Case) -> R {
    const BAD: &[&[u8]] = &[&[0xFF], &[0xC3], &[0xE2, 0x82], &[0x80], &[0xF8, 0x88, 0x80, 0x80, 0x80], &[0xED, 0xA0, 0x80], &[0xC0, 0xAF]];
    let bad = *case.rng.pick(BAD);
    let good = gen_name(&mut case.rng, 4);
    let mut name = good.clone().into_bytes();
    name.extend_from_slice(bad);
    let be = case.rng.chance(0.5);
    let k = KINDS[(case.index % 7) as usize];
    let mut bytes;
    match k {
        Kind::S => {
            let n = case.rng.range(1, 9);
            let mut m = gen_skel(&mut case.rng, n);
            let at = case.rng.below(n);
            let marker = format!("@@@@{}@@@@", "~".repeat(name.len()));
            m.names[at] = marker.clone();
            bytes = m.write(be);
            let p = bytes.windows(marker.len()).position(|w| w == marker.as_bytes()).unwrap();
            bytes.splice(p..p + marker.len(), name.iter().copied());
        }
        Kind::A => {
            let (_, mut b) = gen_fit(&mut case.rng, &AnimOpts { tracks: 2, max_keys: 3, wild: false, flips: false });
            b.name = "~".repeat(name.len());
            bytes = b.write(be);
            let h = header_len(k, &bytes);
            bytes.splice(h..h + name.len(), name.iter().copied());
        }
        Kind::T(t) => {
            let mut m = gen_trk(&mut case.rng, t, 5);
            m.name = "~".repeat(name.len());
            bytes = m.write(be);
            let l = bytes.len();
            bytes.splice(l - name.len()..l, name.iter().copied());
        }
    }
    case.sig(&bytes);
    match guarded(|| load_bytes(k, &bytes)) {
        Outcome::Done(Err(OzzError::Utf8(upto))) => {
            ensure!(upto as usize == good.len(), "the UTF-8 error names the wrong position", {"got": upto, "want": good.len()});
            case.ev("invalid names refused", 1)
        }
        Outcome::Done(r) => return fail("a name that is not UTF-8 is not refused with the UTF-8 error", json!({"kind": format!("{:?}", k), "name": name, "got": r.err().map(|e| err_name(&e))})),
        Outcome::Panicked(m, l) => return fail("a name that is not UTF-8 makes loading panic", json!({"panic": m, "at": l})),
    }
    Ok(())
}

fn c02_damage(case: &mut Case) -> R {
    let k = KINDS[(case.index % 7) as usize];
    let be = case.rng.chance(0.4);
    let small = case.rng.chance(0.5);
    let bytes = gen_archive(&mut case.rng, k, be, small);
    case.sig(&bytes);
    let h = header_len(k, &bytes);
    let rounds = if case.thorough { 60 } else { 12 };
    for _ in 0..rounds {
        let mut b = bytes.clone();
        let mut what = "payload";
        match case.rng.below(4) {
            0 if h < b.len() => {
                for _ in 0..case.rng.range(1, 8) {
                    let p = case.rng.range(h, b.len() - 1);
                    b[p] = case.rng.u32() as u8;
                }
            }
            1 if h < b.len() => {
                let p = case.rng.range(h, b.len() - 1);
                let n = case.rng.range(1, 40).min(b.len() - p);
                let fill = *case.rng.pick(&[0u8, 0xFF, 0x80, 1]);
                b[p..p + n].iter_mut().for_each(|x| *x = fill);
            }
            2 => {
                // A plausible but wrong count.
                what = "count";
                let fields = match k {
                    Kind::A => 13,
                    _ => 2,
                };
                let first = h - 4 * match k {
                    Kind::A => 13,
                    _ => 2,
                };
                let f = first + 4 * case.rng.below(fields);
                if matches!(k, Kind::A) && f == first {
                    continue; // the duration
                }
                let cur = if be { u32::from_be_bytes(b[f..f + 4].try_into().unwrap()) } else { u32::from_le_bytes(b[f..f + 4].try_into().unwrap()) };
                let v = match case.rng.below(4) {
                    0 => cur.wrapping_add(1),
                    1 => cur.saturating_sub(1),
                    2 => case.rng.below(300) as u32,
                    _ => case.rng.below(70000) as u32,
                };
                let x = if be { v.to_be_bytes() } else { v.to_le_bytes() };
                b[f..f + 4].copy_from_slice(&x);
            }
            _ => {
                what = "removed or inserted bytes";
                if h + 1 < b.len() {
                    let p = case.rng.range(h, b.len() - 1);
                    if case.rng.chance(0.5) {
                        b.remove(p);
                    } else {
                        b.insert(p, case.rng.u32() as u8);
                    }
                }
            }
        }
        match guarded(|| load_bytes(k, &b)) {
            Outcome::Done(Ok(())) => case.ev("damaged archives loaded", 1),
            Outcome::Done(Err(_)) => case.ev("damaged archives refused", 1),
            Outcome::Panicked(m, l) => return fail("loading a damaged archive panics", json!({"kind": format!("{:?}", k), "damage": what, "panic": m, "at": l})),
        }
    }
    Ok(())
}

fn c02_empty_and_missing(case: &mut Case) -> R {
    ensure!(matches!(Archive::from_slice(&[]), Err(OzzError::IO(std::io::ErrorKind::UnexpectedEof))), "an empty input opens as an archive", {});
    if !cfg!(miri) {
        let p = std::env::temp_dir().join("ozzmon-no-such-file.ozz");
        ensure!(matches!(Skeleton::from_path(&p), Err(OzzError::IO(std::io::ErrorKind::NotFound))), "a missing skeleton file gives no not-found error", {});
        ensure!(matches!(Animation::from_path(&p), Err(OzzError::IO(std::io::ErrorKind::NotFound))), "a missing animation file gives no not-found error", {});
        ensure!(matches!(Track::<f32>::from_path(&p), Err(OzzError::IO(std::io::ErrorKind::NotFound))), "a missing track file gives no not-found error", {});
    }
    // Random bytes.
    for _ in 0..200 {
        let n = case.rng.below(200);
        let b: Vec<u8> = (0..n).map(|_| case.rng.u32() as u8).collect();
        for k in KINDS {
            match guarded(|| load_bytes(k, &b)) {
                Outcome::Done(Err(_)) => case.ev("random inputs refused", 1),
                Outcome::Done(Ok(())) => return fail("random bytes load as an object", json!({"bytes": b})),
                Outcome::Panicked(m, l) => return fail("random bytes make loading panic", json!({"bytes": b, "panic": m, "at": l})),
            }
        }
        case.sig(&b);
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

pub fn rkyv_bytes<T: rkyv::Serialize<AllocSerializer<30720>>>(x: &T) -> Vec<u8> {
    let mut s = AllocSerializer::<30720>::default();
    s.serialize_value(x).expect("rkyv serialization");
    s.into_serializer().into_inner().to_vec()
}

pub fn rkyv_back<T>(bytes: &[u8]) -> T
where
    T: rkyv::Archive,
    T::Archived: rkyv::Deserialize<T, rkyv::Infallible>,
{
    let mut al = rkyv::AlignedVec::new();
    al.extend_from_slice(bytes);
    let a = unsafe { rkyv::archived_root::<T>(&al) };
    a.deserialize(&mut rkyv::Infallible).unwrap()
}

pub fn json_back<T: serde::de::DeserializeOwned>(case: &mut Case, text: &str) -> Result<T, Fail> {
    let r: Result<T, serde_json::Error> = match case.rng.below(4) {
        0 => serde_json::from_str(text),
        1 => serde_json::from_slice(text.as_bytes()),
        2 => serde_json::from_reader(Cursor::new(text.as_bytes().to_vec())),
        _ => serde_json::from_str::<serde_json::Value>(text).and_then(serde_json::from_value),
    };
    r.map_err(|e| Fail { what: format!("what was written with serde cannot be read back: {}", e), detail: json!({"json": text.chars().take(300).collect::<String>()}) })
}

/// Writes with serde in one of several formats, textual and binary, and reads back.
pub fn serde_back<T: serde::Serialize + serde::de::DeserializeOwned>(case: &mut Case, value: &T) -> Result<T, Fail> {
    fn no<T, E: std::fmt::Display>(step: &str, e: E) -> Result<T, Fail> {
        fail(format!("{}: {}", step, e), json!({}))
    }
    match case.rng.below(4) {
        0 => {
            case.ev("bincode round trips", 1);
            let bytes = match bincode::serialize(value) {
                Ok(b) => b,
                Err(e) => return no("cannot be written with serde (bincode)", e),
            };
            match bincode::deserialize(&bytes) {
                Ok(v) => Ok(v),
                Err(e) => no("what was written with serde (bincode) cannot be read back", e),
            }
        }
        1 => {
            case.ev("CBOR round trips", 1);
            let mut bytes = Vec::new();
            if let Err(e) = ciborium::into_writer(value, &mut bytes) {
                return no("cannot be written with serde (CBOR)", e);
            }
            match ciborium::from_reader(bytes.as_slice()) {
                Ok(v) => Ok(v),
                Err(e) => no("what was written with serde (CBOR) cannot be read back", e),
            }
        }
        _ => {
            case.ev("JSON round trips", 1);
            let text = match serde_json::to_string(value) {
                Ok(t) => t,
                Err(e) => return no("cannot be written with serde (JSON)", e),
            };
            json_back(case, &text)
        }
    }
}

fn c08_skeleton(case: &mut Case) -> R {
    let n = match case.rng.below(200) {
        0..=5 => 0,
        6 => case.rng.range(250, 1024),
        _ => gen_count(&mut case.rng, 60),
    };
    let m = gen_skel(&mut case.rng, n);
    case.sig(&m.write(false));
    case.sample = json!({"joints": n});
    let s = make_skel(&m)?;
    let text = serde_json::to_string(&s).expect("serde");
    ensure!(text == serde_json::to_string(&s).unwrap(), "the same skeleton is written differently each time", {});
    let s2: Skeleton = serde_back(case, &s)?;
    check_skel(&m, &s2)?;
    let bin = rkyv_bytes(&s);
    let s3: Skeleton = rkyv_back(&bin);
    check_skel(&m, &s3)?;
    // Again, crossing frameworks.
    let s4: Skeleton = rkyv_back(&rkyv_bytes(&s2));
    check_skel(&m, &s4)?;
    let s5: Skeleton = serde_back(case, &s3)?;
    check_skel(&m, &s5)?;
    let trav = |s: &Skeleton| {
        let mut v = Vec::new();
        s.iter_depth_first(-1, |a, b| v.push((a, b)));
        v
    };
    ensure!(trav(&s) == trav(&s2) && trav(&s) == trav(&s3) && trav(&s) == trav(&s4) && trav(&s) == trav(&s5), "a restored skeleton is traversed differently", {});
    let v1: serde_json::Value = serde_json::from_str(&text).unwrap();
    let v2: serde_json::Value = serde_json::from_str(&serde_json::to_string(&s4).unwrap()).unwrap();
    ensure!(v1 == v2, "a restored skeleton serializes to different content", {});
    case.ev("round trips", 4);
    Ok(())
}

fn c08_animation(case: &mut Case) -> R {
    let (_, b) = if case.index % 800 == 7 { gen_long(&mut case.rng) } else { gen_asset_anim(&mut case.rng, false) };
    case.sig(&b.write(false));
    case.sample = json!({"tracks": b.num_tracks, "keys": b.comp.iter().map(|c| c.keys.len()).collect::<Vec<_>>()});
    let a = lib_ok(load_anim(&b.write(false)), "loading")?;
    let text = serde_json::to_string(&a).expect("serde");
    let a2: Animation = serde_back(case, &a)?;
    check_anim(&b, &a2)?;
    let bin = rkyv_bytes(&a);
    let a3: Animation = rkyv_back(&bin);
    check_anim(&b, &a3)?;
    ensure!(serde_json::to_string(&a2).unwrap() == text && serde_json::to_string(&a3).unwrap() == text, "a restored animation is written differently with serde", {});
    ensure!(rkyv_bytes(&a2) == bin && rkyv_bytes(&a3) == bin, "a restored animation is written differently with rkyv", {});
    if b.num_tracks > 0 {
        for _ in 0..4 {
            let ratio = case.rng.f32(0.0, 1.0);
            let x = pose_bits(&sample_fresh(&a, ratio)?);
            ensure!(x == pose_bits(&sample_fresh(&a2, ratio)?), "an animation restored by serde samples differently", {"ratio": ratio});
            ensure!(x == pose_bits(&sample_fresh(&a3, ratio)?), "an animation restored by rkyv samples differently", {"ratio": ratio});
        }
        case.ev("samples of restored animations", 8);
    }
    case.ev("round trips", 2);
    Ok(())
}

fn track_rt<V>(case: &mut Case, m: &Trk) -> R
where
    V: TrackVal + serde::Serialize + serde::de::DeserializeOwned + rkyv::Archive,
    Track<V>: rkyv::Serialize<AllocSerializer<30720>> + rkyv::Archive,
    <Track<V> as rkyv::Archive>::Archived: rkyv::Deserialize<Track<V>, rkyv::Infallible>,
{
    let t = lib_ok(load_track::<V>(&m.write(false)), "loading a track")?;
    let text = serde_json::to_string(&t).expect("serde");
    let t2: Track<V> = serde_back(case, &t)?;
    check_track(m, &t2)?;
    let bin = rkyv_bytes(&t);
    let t3: Track<V> = rkyv_back(&bin);
    check_track(m, &t3)?;
    ensure!(serde_json::to_string(&t2).unwrap() == text && serde_json::to_string(&t3).unwrap() == text, "a restored track is written differently with serde", {});
    ensure!(rkyv_bytes(&t2) == bin && rkyv_bytes(&t3) == bin, "a restored track is written differently with rkyv", {});
    for _ in 0..4 {
        let ratio = case.rng.f32(-0.1, 1.1);
        let s = |t: &Track<V>| -> Result<[u32; 4], Fail> {
            let mut j: TrackSamplingJobRef<V> = TrackSamplingJob::default();
            j.set_track(t);
            j.set_ratio(ratio);
            lib_ok(j.run(), "sampling a track")?;
            Ok(j.result().comps().map(|x| x.to_bits()))
        };
        let x = s(&t)?;
        ensure!(x == s(&t2)? && x == s(&t3)?, "a restored track samples differently", {"ratio": ratio});
    }
    case.ev("round trips", 2);
    Ok(())
}

fn c08_track(case: &mut Case) -> R {
    let kind = (case.index % 5) as usize;
    let max = match case.index % 2000 {
        0..=4 => case.rng.range(66_000, 70_000),
        5..=24 => case.rng.range(21, 3000),
        _ => 20,
    };
    let mut m = gen_trk(&mut case.rng, kind, max);
    if case.rng.chance(0.05) {
        m.ratios.clear();
        m.values.clear();
        m.steps.clear();
    }
    case.sig(&m.write(false));
    match kind {
        0 => {
            track_rt::<f32>(case, &m)?;
            // Edges too.
            let t = lib_ok(load_track::<f32>(&m.write(false)), "loading a track")?;
            let t2: Track<f32> = serde_back(case, &t)?;
            let t3: Track<f32> = rkyv_back(&rkyv_bytes(&t));
            let e = |t: &Track<f32>| -> Result<Vec<String>, Fail> {
                let mut j: TrackTriggeringJobRef = TrackTriggeringJob::default();
                j.set_track(t);
                j.set_from(-0.3);
                j.set_to(1.6);
                j.set_threshold(0.1);
                Ok(lib_ok(j.run(), "triggering")?.take(1000).map(|e| format!("{:?}", e)).collect())
            };
            let x = e(&t)?;
            ensure!(x == e(&t2)? && x == e(&t3)?, "a restored track triggers differently", {});
            Ok(())
        }
        1 => track_rt::<Vec2>(case, &m),
        2 => track_rt::<Vec3>(case, &m),
        3 => track_rt::<Vec4>(case, &m),
        _ => track_rt::<Quat>(case, &m),
    }
}

// ---------------------------------------------------------------- C14

fn c14_queries(case: &mut Case) -> R {
    let n = if case.rng.chance(0.02) { case.rng.range(900, 1024) } else { gen_count(&mut case.rng, 90) };
    let m = gen_skel(&mut case.rng, n);
    case.sig(&m.write(false));
    case.sample = json!({"joints": n, "parents": m.parents.iter().take(16).collect::<Vec<_>>()});
    let s = make_skel(&m)?;
    check_skel(&m, &s)?;
    // Everything from no joint.
    let want_all: Vec<(i16, i16)> = (0..n).map(|i| (i as i16, m.parents[i])).collect();
    let mut got = Vec::new();
    s.iter_depth_first(-1, |j, p| got.push((j, p)));
    ensure!(got == want_all, "iterating from no joint does not visit every joint once, parents first", {"got": got, "parents": m.parents});
    let mut got2 = Vec::new();
    s.iter_depth_first(SKELETON_NO_PARENT, |j, p| got2.push((j, p)));
    ensure!(got2 == want_all, "iterating from the no-parent marker does not visit every joint", {"got": got2});
    let mut rev = Vec::new();
    s.iter_depth_first_reverse(|j, p| rev.push((j, p)));
    let mut seen = vec![false; n];
    for (j, p) in &rev {
        ensure!((*j as usize) < n && !seen[*j as usize], "reverse iteration visits a joint twice", {"joint": j});
        ensure!(*p == m.parents[*j as usize], "reverse iteration reports a wrong parent", {"joint": j, "parent": p});
        ensure!(*p < 0 || !seen[*p as usize], "reverse iteration visits a parent before its child", {"joint": j, "parent": p});
        seen[*j as usize] = true;
    }
    ensure!(rev.len() == n, "reverse iteration does not visit every joint", {"visited": rev.len(), "joints": n});
    let full = if n <= 40 || case.thorough { n } else { 40 };
    for k in 0..full {
        let j = if full == n { k } else { case.rng.below(n) };
        let sub = m.subtree(j);
        let mut visits = Vec::new();
        match case.rng.below(3) {
            0 => s.iter_depth_first(j, |a, b| visits.push((a, b))),
            1 => s.iter_depth_first(j as i16, |a, b| visits.push((a, b))),
            _ => s.iter_depth_first(j as i32, |a, b| visits.push((a, b))),
        }
        let want: Vec<(i16, i16)> = (0..n).filter(|i| sub[*i]).map(|i| (i as i16, m.parents[i])).collect();
        // Depth-first order of the storage: parents before children, each exactly once.
        let mut sorted = visits.clone();
        sorted.sort();
        ensure!(sorted == want, "iterating from a joint does not visit exactly its subtree", {"joint": j, "got": visits, "want": want, "parents": m.parents});
        let mut seen = vec![false; n];
        for (a, b) in &visits {
            ensure!(*a as usize == j || seen[*b as usize], "iteration visits a child before its parent", {"joint": a});
            seen[*a as usize] = true;
        }
        let leaf = !m.parents.iter().any(|p| *p == j as i16);
        ensure!(s.is_leaf(j) == leaf && s.is_leaf(j as i16) == leaf && s.is_leaf(j as i32) == leaf, "leaf test is wrong", {"joint": j, "leaf": leaf, "parents": m.parents});
        case.ev("joints queried", 1);
    }
    let mut none = 0;
    s.iter_depth_first(n, |_, _| none += 1);
    s.iter_depth_first(n + 3, |_, _| none += 1);
    ensure!(none == 0, "iterating from beyond the last joint visits joints", {"visits": none});
    for _ in 0..20 {
        let name = gen_name(&mut case.rng, 5);
        if !m.names.contains(&name) {
            ensure!(s.joint_by_name(&name).is_none(), "an unknown name is found", {"name": name});
        }
    }
    for i in [-1i16, i16::MIN, n as i16, i16::MAX] {
        ensure!(s.name_by_joint(i).is_none(), "a name is found for an unknown joint", {"joint": i});
    }
    case.ev("skeletons", 1);
    Ok(())
}

/// Every hierarchy up to a size, by enumeration.
fn c14_small(case: &mut Case) -> R {
    let n = case.index as usize + 1;
    let mut parents: Vec<i16> = vec![-1];
    fn rec(n: usize, parents: &mut Vec<i16>, case: &mut Case) -> R {
        if parents.len() == n {
            let m = Skel { names: (0..n).map(|i| format!("j{}", i)).collect(), parents: parents.clone(), rest: vec![XF_ID; n] };
            let s = make_skel(&m)?;
            for j in 0..n {
                let sub = m.subtree(j);
                let mut v = Vec::new();
                s.iter_depth_first(j, |a, _| v.push(a as usize));
                let want: Vec<usize> = (0..n).filter(|i| sub[*i]).collect();
                ensure!(v == want, "iterating from a joint does not visit exactly its subtree", {"joint": j, "got": v, "want": want, "parents": m.parents});
                ensure!(s.is_leaf(j) == (want.len() == 1), "leaf test is wrong", {"joint": j, "parents": m.parents});
            }
            case.ev("hierarchies enumerated", 1);
            return Ok(());
        }
        // The next joint's parent is on the current path.
        let mut path = vec![-1i16];
        let mut chain = Vec::new();
        let mut k = parents.len() as i16 - 1;
        while k >= 0 {
            chain.push(k);
            k = parents[k as usize];
        }
        path.extend(chain);
        for p in path {
            parents.push(p);
            rec(n, parents, case)?;
            parents.pop();
        }
        Ok(())
    }
    case.sig_u(n as u64);
    rec(n, &mut parents, case)
}

pub static GROUPS: &[Group] = &[
    Group { prop: "C01", name: "animation", quick: 12000, thorough: 120000, serial: false, exhaustive: false, f: c01_animation, rule: "random animations authored independently of the library, written little- and big-endian, loaded through every entry point and compared field by field with what was authored; distinct by archive bytes" },
    Group { prop: "C01", name: "skeleton", quick: 8000, thorough: 80000, serial: false, exhaustive: false, f: c01_skeleton, rule: "random skeletons, as above" },
    Group { prop: "C01", name: "track", quick: 20000, thorough: 200000, serial: false, exhaustive: false, f: c01_track, rule: "random tracks of the five value types, as above" },
    Group { prop: "C01", name: "sequence", quick: 5000, thorough: 50000, serial: false, exhaustive: false, f: c01_sequence, rule: "several random objects in one archive, loaded one after the other; the reader must end exactly behind the last" },
    Group { prop: "C01", name: "primitives", quick: 10000, thorough: 60000, serial: false, exhaustive: false, f: c01_primitives, rule: "every primitive and vector reader on random values in both byte orders" },
    Group { prop: "C01", name: "shipped", quick: 25, thorough: 25, serial: false, exhaustive: true, f: c01_shipped, rule: "every shipped skeleton, animation and track, re-written from the loaded object, must equal its file byte for byte" },
    Group { prop: "C02", name: "truncate", quick: 2800, thorough: 14000, serial: false, exhaustive: false, f: c02_truncate, rule: "every truncation point of random archives of all seven kinds; must be the end-of-data error" },
    Group { prop: "C02", name: "reader_errors", quick: 2800, thorough: 14000, serial: false, exhaustive: false, f: c02_reader_errors, rule: "readers with short reads, interruptions and an injected failure at random points" },
    Group { prop: "C02", name: "labels", quick: 4900, thorough: 49000, serial: false, exhaustive: false, f: c02_labels, rule: "all 49 pairs of archive kind and requested kind, damaged tags, other versions" },
    Group { prop: "C02", name: "text", quick: 7000, thorough: 70000, serial: false, exhaustive: false, f: c02_text, rule: "names with each kind of invalid UTF-8 at random positions" },
    Group { prop: "C02", name: "damage", quick: 42000, thorough: 420000, serial: false, exhaustive: false, f: c02_damage, rule: "payload bytes overwritten, inserted or removed, and plausible wrong counts" },
    Group { prop: "C02", name: "empty_and_missing", quick: 100, thorough: 1000, serial: false, exhaustive: false, f: c02_empty_and_missing, rule: "empty input, missing files, random bytes" },
    Group { prop: "C08", name: "skeleton", quick: 8000, thorough: 60000, serial: false, exhaustive: false, f: c08_skeleton, rule: "random skeletons through serde (JSON from string, slice, reader and value, bincode, CBOR) and rkyv and both in turn" },
    Group { prop: "C08", name: "animation", quick: 8000, thorough: 60000, serial: false, exhaustive: false, f: c08_animation, rule: "random animations through serde (JSON, bincode, CBOR) and rkyv, sampled before and after" },
    Group { prop: "C08", name: "track", quick: 20000, thorough: 100000, serial: false, exhaustive: false, f: c08_track, rule: "random tracks of the five types through serde (JSON, bincode, CBOR) and rkyv, sampled and triggered before and after" },
    Group { prop: "C14", name: "queries", quick: 15000, thorough: 150000, serial: false, exhaustive: false, f: c14_queries, rule: "random depth-first forests, all queries against subtree sets computed from the parents" },
    Group { prop: "C14", name: "small", quick: 9, thorough: 11, serial: false, exhaustive: true, f: c14_small, rule: "every depth-first hierarchy of up to 9 (thorough 11) joints whose first joint is a root" },
];
