//! C18 and C19: tracks sampled and triggered, against oracles that work on the authored keys in double precision.

use crate::author::*;
use crate::fw::*;
use crate::rm;
use crate::rng::Rng;
use crate::util::*;
use crate::{ensure, fw};
use glam::{Quat, Vec2, Vec3, Vec4};
use ozz_animation_rs::*;
use serde_json::json;

pub fn step_at(t: &Trk, i: usize) -> bool {
    t.steps[i]
}

fn sample<V: TrackVal>(t: &Track<V>, ratio: f32) -> Result<[f32; 4], Fail> {
    let mut job: TrackSamplingJobRef<V> = TrackSamplingJob::default();
    job.set_track(t);
    job.set_ratio(ratio);
    lib_ok(job.run(), "sampling a track")?;
    Ok(job.result().comps())
}

/// Deviation of a value from the authored keys at a ratio, in units of the allowance.
fn deviation(t: &Trk, ratio: f32, got: [f32; 4]) -> (f64, [f64; 4]) {
    let n = t.ratios.len();
    let f = |i: usize| -> [f64; 4] { std::array::from_fn(|k| t.values[i][k] as f64) };
    let x = if ratio.is_nan() { 1.0 } else { ratio.clamp(0.0, 1.0) } as f64;
    // The keys around x; at a key's own ratio, the key.
    let hi = t.ratios.iter().position(|r| *r as f64 > x).unwrap_or(n);
    let g: [f64; 4] = std::array::from_fn(|k| got[k] as f64);
    let exact = |e: [f64; 4]| -> f64 {
        let d = (0..4).map(|k| (g[k] - e[k]).abs()).fold(0.0, f64::max);
        let m = (0..4).map(|k| e[k].abs()).fold(0.0, f64::max);
        d / (m * 3e-7 + 1e-30)
    };
    let exact_q = |e: [f64; 4]| -> f64 {
        let d = rm::qdiff(e, g).min((0..4).map(|k| (g[k] - e[k]).abs()).fold(0.0, f64::max));
        d / 2e-6
    };
    if hi == 0 || n == 1 {
        return (if t.quat { exact_q(f(0)) } else { exact(f(0)) }, f(0));
    }
    let i = hi - 1;
    if hi == n || t.steps[i] {
        return (if t.quat { exact_q(f(i)) } else { exact(f(i)) }, f(i));
    }
    let (r0, r1) = (t.ratios[i] as f64, t.ratios[hi] as f64);
    let a = (x - r0) / (r1 - r0);
    // Single-precision error of the parameter.
    let aerr = 3.0e-7 * (1.0 + 0.5 / (r1 - r0) * 0.4) + 1.0e-7 * (x.abs() + r0.abs()) / (r1 - r0);
    let (v0, v1) = (f(i), f(hi));
    if t.quat {
        let d = rm::qdot(v0, v1);
        let e = rm::qnorm(rm::qlerp(v0, if d < 0.0 { rm::qscale(v1, -1.0) } else { v1 }, a));
        let sep = (2.0 * (1.0 - d.abs())).max(0.0).sqrt();
        // Opposite rotations have no shortest arc, and the chord vanishes only then.
        if d.abs() < 1e-3 {
            let e2 = rm::qnorm(rm::qlerp(v0, if d < 0.0 { v1 } else { rm::qscale(v1, -1.0) }, a));
            return (rm::qdiff(e, g).min(rm::qdiff(e2, g)) / (8e-6 + 4.0 * aerr), e);
        }
        return (rm::qdiff(e, g) / (2e-6 + 3.0 * aerr * sep), e);
    }
    let e: [f64; 4] = std::array::from_fn(|k| v0[k] + (v1[k] - v0[k]) * a);
    let mut worst: f64 = 0.0;
    for k in 0..4 {
        let tol = (v0[k].abs() + v1[k].abs()) * 4e-7 + (v1[k] - v0[k]).abs() * aerr + 1e-30;
        worst = worst.max((g[k] - e[k]).abs() / tol);
    }
    (worst, e)
}

fn ratios_for(r: &mut Rng, t: &Trk, n: usize) -> Vec<f32> {
    let mut v = vec![0.0, -0.0, 1.0, -1.0, 2.0, -1e-30, f32::MIN_POSITIVE, f32::INFINITY, f32::NEG_INFINITY, f32::NAN];
    v.push(f32::from_bits(1.0f32.to_bits() + 1));
    v.push(f32::from_bits(1.0f32.to_bits() - 1));
    for _ in 0..n {
        let k = *r.pick(&t.ratios);
        v.push(match r.below(4) {
            0 => k,
            1 if k > 0.0 => f32::from_bits(k.to_bits() - 1),
            2 => f32::from_bits(k.to_bits() + 1),
            _ => r.f32(0.0, 1.0),
        });
    }
    v
}

fn sampling_of<V: TrackVal>(c: &mut Case, t: &Trk) -> R {
    let be = c.rng.chance(0.3);
    let track = lib_ok(load_track::<V>(&t.write(be)), "loading a generated track")?;
    let mut job: TrackSamplingJobRef<V> = TrackSamplingJob::default();
    job.set_track(&track);
    let rs = ratios_for(&mut c.rng, t, if c.thorough { 60 } else { 30 });
    for ratio in rs {
        let got = sample::<V>(&track, ratio)?;
        let (d, e) = deviation(t, ratio, got);
        ensure!(d <= 1.0, "a sampled track value is not the interpolation of its two keys",
            {"ratio": ratio, "got": got, "expected": e, "deviation": d, "keys": t.ratios.len(), "kind": V::KIND,
             "ratios": &t.ratios[..t.ratios.len().min(300)], "steps": &t.steps[..t.steps.len().min(300)]});
        c.max("deviation, thousandths of the allowance", (d * 1000.0) as u64);
        c.ev("samples checked", 1);
        if t.ratios.contains(&ratio) {
            c.ev("samples at a key", 1);
        }
        // The same job, reused: no history.
        job.set_ratio(ratio);
        lib_ok(job.run(), "sampling a track")?;
        let again = job.result().comps();
        ensure!(again.map(f32::to_bits) == got.map(f32::to_bits), "a reused track job gives another value", {"ratio": ratio, "got": again, "new": got});
    }
    Ok(())
}

fn sampling(c: &mut Case) -> R {
    let kind = c.index as usize % 5;
    let max = match c.index % 4000 {
        0..=4 => c.rng.range(66_000, 70_000),
        5..=24 => c.rng.range(201, 3000),
        _ => *c.rng.pick(&[1usize, 2, 9, 33, 200]),
    };
    let mut t = gen_trk(&mut c.rng, kind, max);
    if t.quat && c.rng.chance(0.3) {
        // The same rotation stored with the other sign: the arc must be the short one.
        for i in 1..t.values.len() {
            if c.rng.chance(0.5) {
                let p = t.values[i - 1];
                let e = c.rng.f32(-0.2, 0.2);
                let v: [f64; 4] = [p[0] as f64 + e as f64, p[1] as f64, p[2] as f64, p[3] as f64];
                let q = rm::qnorm(v);
                t.values[i] = std::array::from_fn(|k| -q[k] as f32);
            }
        }
    }
    c.sig_u(kind as u64);
    c.sig(&t.ratios.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>());
    c.ev("tracks", 1);
    if t.steps.iter().any(|s| *s) {
        c.ev("tracks with steps", 1);
    }
    if c.index < 3 {
        c.sample = json!({"kind": kind, "keys": t.ratios.len(), "ratios": &t.ratios[..t.ratios.len().min(8)], "steps": &t.steps[..t.steps.len().min(8)]});
    }
    match kind {
        0 => sampling_of::<f32>(c, &t),
        1 => sampling_of::<Vec2>(c, &t),
        2 => sampling_of::<Vec3>(c, &t),
        3 => sampling_of::<Vec4>(c, &t),
        _ => sampling_of::<Quat>(c, &t),
    }
}

fn empty_of<V: TrackVal>(c: &mut Case) -> R {
    let d = V::default().comps();
    let t: std::rc::Rc<Track<V>> = Default::default();
    let mut job: TrackSamplingJobRc<V> = TrackSamplingJob::default();
    for ratio in [0.0f32, 0.5, 1.0, -3.0, f32::NAN] {
        // A value of another track must not remain.
        let other = gen_trk(&mut c.rng, V::KIND, 5);
        let other = lib_ok(load_track::<V>(&other.write(false)), "loading a generated track")?;
        job.set_ratio(ratio);
        let keys = other.key_count();
        job.set_track(std::rc::Rc::new(other));
        lib_ok(job.run(), "sampling a track")?;
        job.set_track(t.clone());
        lib_ok(job.run(), "sampling an empty track")?;
        ensure!(job.result().comps() == d, "an empty track does not give the default value", {"got": job.result().comps(), "default": d});
        c.ev("empty tracks sampled", 1);
        c.sig_u(keys as u64);
    }
    // An archived empty track.
    let e = Trk { dim: [1, 2, 3, 4, 4][V::KIND], quat: V::KIND == 4, name: "e".into(), ratios: vec![], values: vec![], steps: vec![] };
    let e = lib_ok(load_track::<V>(&e.write(false)), "loading an empty track")?;
    ensure!(sample::<V>(&e, 0.5)?.map(f32::to_bits) == d.map(f32::to_bits), "an empty track does not give the default value", {"kind": V::KIND});
    Ok(())
}

fn empty(c: &mut Case) -> R {
    match c.index % 5 {
        0 => empty_of::<f32>(c),
        1 => empty_of::<Vec2>(c),
        2 => empty_of::<Vec3>(c),
        3 => empty_of::<Vec4>(c),
        _ => empty_of::<Quat>(c),
    }
}

/// The tracks shipped with the library, against what they themselves hold.
fn shipped_tracks(c: &mut Case) -> R {
    let mut seen = 0;
    for f in SHIPPED_TRACKS {
        let path = shipped(f);
        if !std::path::Path::new(&path).exists() {
            continue;
        }
        let data = std::fs::read(&path).unwrap();
        // Motion files hold a position track followed by a rotation track; the other one holds a float track.
        let mut ar = match Archive::from_slice(&data) {
            Ok(a) => a,
            Err(_) => continue,
        };
        macro_rules! one {
            ($v:ty) => {
                match Track::<$v>::from_archive(&mut ar) {
                    Ok(tr) => {
                        let kind = <$v as TrackVal>::KIND;
                        let t = Trk {
                            dim: [1, 2, 3, 4, 4][kind],
                            quat: kind == 4,
                            name: tr.name().to_string(),
                            ratios: tr.ratios().to_vec(),
                            values: tr.values().iter().map(|v| v.comps()).collect(),
                            steps: (0..tr.key_count()).map(|i| tr.steps()[i / 8] >> (i % 8) & 1 == 1).collect(),
                        };
                        for _ in 0..if t.ratios.is_empty() { 0 } else { 400 } {
                            let ratio = c.rng.f32(-0.1, 1.1);
                            let got = sample::<$v>(&tr, ratio)?;
                            let (d, e) = deviation(&t, ratio, got);
                            ensure!(d <= 1.0, "a sampled value of a shipped track is not the interpolation of its two keys",
                                {"file": f, "ratio": ratio, "got": got, "expected": e, "deviation": d});
                            c.ev("samples of shipped tracks", 1);
                        }
                        seen += 1;
                    }
                    Err(_) => {}
                }
            };
        }
        if f.starts_with("track") {
            one!(f32);
        } else {
            one!(Vec3);
            one!(Quat);
        }
        c.sig(f.as_bytes());
    }
    if seen == 0 {
        c.trivial();
    }
    c.sig_u(c.index);
    Ok(())
}

// ---------------------------------------------------------------- C19

/// Many keys, evenly spaced.
fn gen_long_edge_track(r: &mut Rng) -> Trk {
    let n = match r.below(4) {
        0 => r.range(250, 260),
        1 => r.range(41, 250),
        2 => r.range(261, 4000),
        _ => r.range(65_530, 66_000),
    };
    let ratios = (0..n).map(|i| i as f32 / (n - 1) as f32).collect();
    let p = *r.pick(&[0.02, 0.5, 1.0]);
    let mut high = false;
    let values = (0..n)
        .map(|_| {
            high ^= r.chance(p);
            [if high { r.range(2, 3) } else { r.range(0, 1) } as f32, 0.0, 0.0, 0.0]
        })
        .collect();
    let p = *r.pick(&[0.0, 0.5, 1.0]);
    let steps = (0..n).map(|_| r.chance(p)).collect();
    Trk { dim: 1, quat: false, name: "e".into(), ratios, values, steps }
}

pub fn gen_edge_track(r: &mut Rng, fine: bool) -> Trk {
    let n = match r.below(5) {
        0 => 1,
        1 => 2,
        2 => r.range(8, 9),
        3 => r.range(15, 40),
        _ => r.range(2, 14),
    };
    let grid = *r.pick(&[8usize, 10, 16, 50, 64, 100]);
    let mut ratios = vec![0.0f32];
    if n > 1 {
        ratios.push(1.0);
    }
    for _ in 2..n {
        ratios.push(if fine && r.chance(0.3) {
            (r.f32(0.002, 0.998) * 512.0).round() / 512.0
        } else {
            r.range(0, grid) as f32 / grid as f32
        });
    }
    ratios.sort_by(|a, b| a.partial_cmp(b).unwrap());
    // Keys well apart: positions of edges must be representable next to one another after many loops.
    let mut rs: Vec<f32> = Vec::new();
    for x in &ratios {
        if rs.last().map_or(true, |p| x - p > 1e-3) {
            rs.push(*x);
        }
    }
    if n > 1 {
        *rs.last_mut().unwrap() = 1.0;
    }
    let levels = r.chance(0.6);
    let values = rs.iter().map(|_| [if levels { r.range(0, 4) as f32 } else { r.f32(0.0, 4.0) }, 0.0, 0.0, 0.0]).collect();
    let p = *r.pick(&[0.0, 0.5, 1.0]);
    let steps = rs.iter().map(|_| r.chance(p)).collect();
    Trk { dim: 1, quat: false, name: "e".into(), ratios: rs, values, steps }
}

/// (ratio, rising) of every edge in playback order.
pub fn edges_of(track: &Track<f32>, th: f32, from: f32, to: f32) -> Result<Vec<(f32, bool)>, Fail> {
    let mut job: TrackTriggeringJobRef = TrackTriggeringJob::default();
    job.set_track(track);
    job.set_threshold(th);
    job.set_from(from);
    job.set_to(to);
    let mut v = Vec::new();
    let mut it = match job.run() {
        Ok(i) => i,
        Err(e) => return fail("triggering refused a track", json!({"error": err_name(&e)})),
    };
    loop {
        match it.next() {
            None => break,
            Some(edge) => {
                let e = serde_json::to_value(edge).unwrap();
                let (ratio, rising) = (e["ratio"].as_f64().unwrap_or(f64::NAN) as f32, e["rising"].as_bool().unwrap());
                if !ratio.is_nan() && (Edge::new(ratio, rising) != edge || Edge::new(ratio, !rising) == edge) {
                    return fail("an edge differs from one made of its parts", json!({"ratio": ratio, "rising": rising}));
                }
                v.push((ratio, rising));
                if v.len() > 2_000_000 {
                    return fail("triggering reports edges without end", json!({"from": from, "to": to}));
                }
            }
        }
    }
    for _ in 0..3 {
        if it.next().is_some() {
            return fail("an exhausted edge iterator yields more", json!({"from": from, "to": to}));
        }
    }
    Ok(v)
}

/// The same edges, each as often, in the same order up to the resolution of their ratios: the ratio of an edge that
/// lies on a key may round to the other side of that key, where the next edge is, and a cut can fall between the two.
pub fn same_edges(x: &[(f32, bool)], y: &[(f32, bool)]) -> bool {
    let near = |p: &(f32, bool), q: &(f32, bool)| (p.0 - q.0).abs() <= (p.0.abs() + 1.0) * 3e-7;
    let sorted = |v: &[(f32, bool)]| {
        let mut v: Vec<(u32, bool)> = v.iter().map(|e| ((e.0 + 0.0).to_bits(), e.1)).collect();
        v.sort();
        v
    };
    x.len() == y.len() && x.iter().zip(y).all(|(p, q)| near(p, q)) && sorted(x) == sorted(y)
}

pub struct Exp {
    pub pos: f64,
    pub rising: bool,
    pub sure: bool,
}

/// The crossings of the looped track in [lo, hi), in forward order.
pub fn oracle(t: &Trk, th: f32, lo: f32, hi: f32) -> Vec<Exp> {
    let n = t.ratios.len();
    let (lo64, hi64, th) = (lo as f64, hi as f64, th as f64);
    let mut out = Vec::new();
    if n == 0 {
        return out;
    }
    let mut k = lo64.floor();
    while k < hi64 {
        for i in 0..n {
            let p = if i == 0 { n - 1 } else { i - 1 };
            let (v0, v1) = (t.values[p][0] as f64, t.values[i][0] as f64);
            let rising = v0 <= th && v1 > th;
            let falling = v0 > th && v1 <= th;
            if !rising && !falling {
                continue;
            }
            let (r, exact) = if i == 0 {
                (0.0, true)
            } else if t.steps[p] {
                (t.ratios[i] as f64, true)
            } else {
                let (r0, r1) = (t.ratios[p] as f64, t.ratios[i] as f64);
                let a = (th - v0) / (v1 - v0);
                (r0 + (r1 - r0) * a, a == 0.0)
            };
            let pos = k + r;
            let eps = (pos.abs() + 1.0) * 3e-7;
            let whole_tail = hi64 >= k + 1.0;
            // Positions that single precision may put on either side of a bound.
            let representable = exact && (pos as f32) as f64 == pos;
            let near = |b: f64| (pos - b).abs() <= eps && !representable;
            let inside = pos >= lo64 && (pos < hi64 || whole_tail);
            let unsure = near(lo64) || (near(hi64) && !whole_tail);
            if inside || unsure {
                out.push(Exp { pos, rising, sure: !unsure });
            }
        }
        k += 1.0;
    }
    out
}

fn gen_bound(r: &mut Rng, t: &Trk, span: f32) -> f32 {
    let k = r.irange(-(span as i64), span as i64) as f32;
    match r.below(6) {
        0 => k,
        1 => k + *r.pick(&t.ratios),
        2 => {
            let x = k + *r.pick(&t.ratios);
            if x != 0.0 {
                f32::from_bits(x.to_bits() + 1)
            } else {
                1e-6
            }
        }
        3 => {
            let x = k + *r.pick(&t.ratios);
            if x != 0.0 {
                f32::from_bits(x.to_bits() - 1)
            } else {
                -1e-6
            }
        }
        _ => r.f32(-span, span),
    }
}

fn edges(c: &mut Case) -> R {
    let far = c.rng.chance(0.15);
    let t = gen_edge_track(&mut c.rng, !far);
    edges_in(c, t, far)
}

fn long_edges(c: &mut Case) -> R {
    let t = gen_long_edge_track(&mut c.rng);
    c.ev(if t.ratios.len() > 65535 { "tracks of more than 65535 keys" } else { "tracks of up to 65535 keys" }, 1);
    edges_in(c, t, false)
}

fn edges_in(c: &mut Case, t: Trk, far: bool) -> R {
    let track = lib_ok(load_track::<f32>(&t.write(c.rng.chance(0.3))), "loading a generated track")?;
    c.sig(&t.ratios.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>());
    c.sig(&t.values.iter().flat_map(|x| x[0].to_le_bytes()).collect::<Vec<u8>>());
    let span = if far { 60.0 } else { *c.rng.pick(&[1.0f32, 2.0, 5.0]) };
    let mut total = 0u64;
    for _ in 0..12 {
        let th = match c.rng.below(4) {
            0 => t.values[c.rng.below(t.values.len())][0],
            1 => c.rng.range(0, 4) as f32,
            2 => c.rng.range(0, 4) as f32 + 0.5,
            _ => c.rng.f32(-0.5, 4.5),
        };
        let (a, b) = (gen_bound(&mut c.rng, &t, span), gen_bound(&mut c.rng, &t, span));
        let (lo, hi) = if a < b { (a, b) } else { (b, a) };
        let fw = edges_of(&track, th, lo, hi)?;
        let ctx = |got: &Vec<(f32, bool)>| json!({"from": lo, "to": hi, "threshold": th, "keys": t.ratios.len(),
            "ratios": &t.ratios[..t.ratios.len().min(60)], "steps": &t.steps[..t.steps.len().min(60)],
            "values": t.values.iter().take(60).map(|v| v[0]).collect::<Vec<f32>>(), "edges": &got[..got.len().min(200)]});
        if lo == hi {
            ensure!(fw.is_empty(), "an empty window reports edges", {"case": ctx(&fw)});
            continue;
        }
        // Against the oracle.
        let exp = oracle(&t, th, lo, hi);
        let mut gi = 0;
        for e in &exp {
            let hit = gi < fw.len() && fw[gi].1 == e.rising && (fw[gi].0 as f64 - e.pos).abs() <= (e.pos.abs() + 1.0) * 1e-6 + 2e-6;
            if hit {
                gi += 1;
            } else if e.sure {
                return fail("an edge of the track is missing, misplaced or has the wrong direction",
                    json!({"expected_ratio": e.pos, "expected_rising": e.rising, "reported": fw.get(gi), "case": ctx(&fw)}));
            }
        }
        ensure!(gi == fw.len(), "an edge is reported that the track does not have", {"edge": fw[gi], "case": ctx(&fw)});
        total += fw.len() as u64;
        c.ev("edges reported and expected", fw.len() as u64);
        c.ev("windows", 1);
        if hi - lo > 1.0 {
            c.ev("windows over several loops", 1);
        }
        // Backward: the same edges, reversed and flipped.
        let bw = edges_of(&track, th, hi, lo)?;
        let mut rev: Vec<(f32, bool)> = fw.iter().rev().map(|e| (e.0, !e.1)).collect();
        let same = |x: &Vec<(f32, bool)>, y: &Vec<(f32, bool)>| {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.1 == q.1 && p.0 == q.0)
        };
        ensure!(same(&rev, &bw), "playing the window backward does not report the same edges in reverse", {"backward": bw, "case": ctx(&fw)});
        rev.clear();
        // Split at any points.
        let mut cuts: Vec<f32> = (0..c.rng.range(1, 4)).map(|_| gen_bound(&mut c.rng, &t, span)).filter(|x| *x > lo && *x < hi).collect();
        if !fw.is_empty() && c.rng.chance(0.6) {
            let e = fw[c.rng.below(fw.len())].0;
            if e > lo && e < hi {
                cuts.push(e);
            }
        }
        if c.rng.chance(0.4) {
            let k = lo.ceil();
            if k > lo && k < hi {
                cuts.push(k);
            }
        }
        cuts.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let mut pts = vec![lo];
        pts.extend(&cuts);
        pts.push(hi);
        let mut joined = Vec::new();
        let mut joined_bw = Vec::new();
        for w in pts.windows(2) {
            joined.extend(edges_of(&track, th, w[0], w[1])?);
        }
        for w in pts.windows(2).rev() {
            joined_bw.extend(edges_of(&track, th, w[1], w[0])?);
        }
        ensure!(same_edges(&joined, &fw), "consecutive windows together do not report the edges of the joined window", {"cuts": cuts, "parts": joined, "case": ctx(&fw)});
        ensure!(same_edges(&joined_bw, &bw), "consecutive backward windows together do not report the edges of the joined window",
            {"cuts": cuts, "parts": joined_bw, "backward": bw, "case": ctx(&fw)});
        c.ev("windows split", (pts.len() - 1) as u64);
        // What sampling shows: high after a rising edge, low after a falling one.
        if !far {
            for e in fw.iter().take(6) {
                let k = e.0.floor();
                let frac = e.0 - k;
                if t.ratios.iter().any(|r| (r - frac).abs() < 4e-3 && !t.steps.is_empty() && *r != frac) || frac > 0.996 {
                    continue;
                }
                let after = sample::<f32>(&track, frac + 2e-3)?[0];
                let i = t.ratios.iter().position(|r| *r > frac + 2e-3).unwrap_or(t.ratios.len()) - 1;
                let v_next = t.values.get(i + 1).map(|v| v[0]).unwrap_or(after);
                if (after - th).abs() > 1e-3 && (v_next - t.values[i][0]).abs() < 1e3 {
                    // Only when nothing else crosses within the probe.
                    let others = fw.iter().filter(|o| (o.0 - e.0).abs() < 4e-3).count();
                    if others == 1 && e.0 + 4e-3 < hi {
                        ensure!((after > th) == e.1, "sampling after an edge does not show its direction", {"edge": e, "value": after, "case": ctx(&fw)});
                        c.ev("edges confirmed by sampling", 1);
                    }
                }
            }
        }
    }
    if total == 0 {
        c.ev("tracks without any edge", 1);
    }
    if c.index < 2 {
        c.sample = json!({"ratios": t.ratios, "values": t.values.iter().map(|v| v[0]).collect::<Vec<f32>>(), "steps": t.steps, "edges": total});
    }
    Ok(())
}

/// Playback: time advances by irregular steps over many loops; every edge arrives exactly once.
fn playback(c: &mut Case) -> R {
    let t = gen_edge_track(&mut c.rng, false);
    let track = lib_ok(load_track::<f32>(&t.write(false)), "loading a generated track")?;
    let th = if c.rng.chance(0.5) { c.rng.range(0, 3) as f32 } else { c.rng.f32(0.0, 4.0) };
    let steps = c.rng.range(50, 300);
    let speed = *c.rng.pick(&[0.01f32, 0.05, 0.125, 0.3, 1.0]);
    let backward = c.rng.chance(0.4);
    let fixed = c.rng.chance(0.5);
    let start = if c.rng.chance(0.5) { 0.0f32 } else { c.rng.f32(-3.0, 3.0) };
    let mut x = start;
    let mut all: Vec<(f32, bool)> = Vec::new();
    for _ in 0..steps {
        let d = if fixed { speed } else { c.rng.f32(0.0, 2.0 * speed) };
        let y = if backward { x - d } else { x + d };
        if y.abs() > 60.0 {
            break;
        }
        all.extend(edges_of(&track, th, x, y)?);
        x = y;
        c.ev("playback steps", 1);
    }
    let whole = edges_of(&track, th, start, x)?;
    let ok = same_edges(&all, &whole);
    ensure!(ok, "the edges reported step by step are not those of the whole playback",
        {"threshold": th, "start": start, "end": x, "ratios": t.ratios, "values": t.values.iter().map(|v| v[0]).collect::<Vec<f32>>(), "steps": t.steps,
         "step_by_step": all.len(), "whole": whole.len(), "first_difference": all.iter().zip(&whole).position(|(a, b)| a != b)});
    // Edges of one loop alternate.
    for w in whole.windows(2) {
        ensure!(w[0].1 != w[1].1, "two successive edges have the same direction", {"edges": w, "threshold": th});
        let eps = (w[0].0.abs() + 1.0) * 3e-7;
        ensure!(if backward { w[1].0 <= w[0].0 + eps } else { w[1].0 >= w[0].0 - eps }, "edges are not reported in playback order", {"edges": w, "threshold": th});
    }
    c.ev("edges in playbacks", all.len() as u64);
    c.sig_u(all.len() as u64);
    c.sig(&t.values.iter().flat_map(|x| x[0].to_le_bytes()).collect::<Vec<u8>>());
    c.sig(&start.to_le_bytes());
    Ok(())
}

pub const GROUPS: &[fw::Group] = &[
    Group { prop: "C18", name: "keys", quick: 80_000, thorough: 3_000_000, serial: false, exhaustive: false,
        rule: "random tracks of each of the five value types in turn (1-200 keys, steps on none, half or all), sampled at keys, one representable number beside keys, between them, outside [0,1], infinities and NaN", f: sampling },
    Group { prop: "C18", name: "empty", quick: 50, thorough: 500, serial: false, exhaustive: false,
        rule: "empty tracks of each type, default and archived, after another track in the same job", f: empty },
    Group { prop: "C18", name: "shipped", quick: 4, thorough: 40, serial: false, exhaustive: false,
        rule: "tracks shipped in the repository at random ratios", f: shipped_tracks },
    Group { prop: "C19", name: "long", quick: 60, thorough: 3_000, serial: false, exhaustive: false,
        rule: "windows as below over tracks of 41 to 66000 evenly spaced keys", f: long_edges },
    Group { prop: "C19", name: "windows", quick: 80_000, thorough: 3_000_000, serial: false, exhaustive: false,
        rule: "random float tracks (1-40 keys, thresholds on and off key values), 12 windows each with bounds on, beside and between keys and loops; oracle, backward, split and sampling checks", f: edges },
    Group { prop: "C19", name: "playback", quick: 30_000, thorough: 1_000_000, serial: false, exhaustive: false,
        rule: "playbacks of 50-300 steps over up to 60 loops, forward and backward", f: playback },
];
