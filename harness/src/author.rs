//! An offline authoring tool written from the archive format, independent of the library: models of skeletons,
//! animations and tracks, their key-frame layout, and writers for little- and big-endian archives.

use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Xf {
    pub t: [f32; 3],
    pub r: [f32; 4],
    pub s: [f32; 3],
}

pub const XF_ID: Xf = Xf { t: [0.0; 3], r: [0.0, 0.0, 0.0, 1.0], s: [1.0; 3] };

pub struct W {
    pub be: bool,
    pub b: Vec<u8>,
}

impl W {
    pub fn new(be: bool) -> W {
        W { be, b: vec![if be { 0 } else { 1 }] }
    }
    pub fn tag(&mut self, s: &str) {
        self.b.extend_from_slice(s.as_bytes());
        self.b.push(0);
    }
    pub fn u8(&mut self, v: u8) {
        self.b.push(v);
    }
    pub fn u16(&mut self, v: u16) {
        let x = if self.be { v.to_be_bytes() } else { v.to_le_bytes() };
        self.b.extend_from_slice(&x);
    }
    pub fn u32(&mut self, v: u32) {
        let x = if self.be { v.to_be_bytes() } else { v.to_le_bytes() };
        self.b.extend_from_slice(&x);
    }
    pub fn f32(&mut self, v: f32) {
        self.u32(v.to_bits());
    }
}

// ---------------------------------------------------------------- skeleton

#[derive(Clone, Debug)]
pub struct Skel {
    pub names: Vec<String>,
    pub parents: Vec<i16>,
    /// One per joint; lanes past the last joint are padded with identity.
    pub rest: Vec<Xf>,
}

impl Skel {
    pub fn n(&self) -> usize {
        self.parents.len()
    }
    pub fn nsoa(&self) -> usize {
        (self.n() + 3) / 4
    }
    pub fn rest_lane(&self, i: usize) -> Xf {
        self.rest.get(i).copied().unwrap_or(XF_ID)
    }
    pub fn write(&self, be: bool) -> Vec<u8> {
        let mut w = W::new(be);
        w.tag("ozz-skeleton");
        w.u32(2);
        w.u32(self.n() as u32);
        if self.n() == 0 {
            return w.b;
        }
        let chars: usize = self.names.iter().map(|n| n.len() + 1).sum();
        w.u32(chars as u32);
        for n in &self.names {
            w.tag(n);
        }
        for p in &self.parents {
            w.u16(*p as u16);
        }
        for g in 0..self.nsoa() {
            let x: Vec<Xf> = (0..4).map(|l| self.rest_lane(g * 4 + l)).collect();
            for c in 0..3 {
                x.iter().for_each(|x| w.f32(x.t[c]));
            }
            for c in 0..4 {
                x.iter().for_each(|x| w.f32(x.r[c]));
            }
            for c in 0..3 {
                x.iter().for_each(|x| w.f32(x.s[c]));
            }
        }
        w.b
    }
    /// The joints in j's subtree, j included.
    pub fn subtree(&self, j: usize) -> Vec<bool> {
        let mut v = vec![false; self.n()];
        for i in 0..self.n() {
            let mut k = i as i64;
            while k >= 0 {
                if k as usize == j {
                    v[i] = true;
                    break;
                }
                k = self.parents[k as usize] as i64;
            }
        }
        v
    }
}

// ---------------------------------------------------------------- animation

/// A half-precision pattern as the real number it denotes.
pub fn half_to_f64(h: u16) -> f64 {
    let s = if h & 0x8000 != 0 { -1.0 } else { 1.0 };
    let e = ((h >> 10) & 0x1F) as i32;
    let m = (h & 0x3FF) as f64;
    match e {
        0 => s * m * 2f64.powi(-24),
        31 => {
            if m == 0.0 {
                s * f64::INFINITY
            } else {
                f64::NAN
            }
        }
        _ => s * (1.0 + m / 1024.0) * 2f64.powi(e - 15),
    }
}

/// Nearest half-precision pattern of a number in the finite range.
pub fn f64_to_half(v: f64) -> u16 {
    let s: u16 = if v.is_sign_negative() { 0x8000 } else { 0 };
    let a = v.abs();
    // Binary search over the ordered non-negative finite patterns.
    let (mut lo, mut hi) = (0u16, 0x7BFFu16);
    while lo < hi {
        let mid = lo + (hi - lo + 1) / 2;
        if half_to_f64(mid) <= a {
            lo = mid;
        } else {
            hi = mid - 1;
        }
    }
    if lo < 0x7BFF && (half_to_f64(lo + 1) - a) < (a - half_to_f64(lo)) {
        lo += 1;
    }
    s | lo
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct QuatBits {
    pub largest: u16,
    pub negative: bool,
    pub v: [u16; 3],
}

impl QuatBits {
    pub fn pack(&self) -> [u16; 3] {
        let b: u64 = (self.largest as u64 & 3)
            | ((self.negative as u64) << 2)
            | ((self.v[0] as u64) << 3)
            | ((self.v[1] as u64) << 18)
            | ((self.v[2] as u64) << 33);
        [b as u16, (b >> 16) as u16, (b >> 32) as u16]
    }
    pub fn unpack(k: [u16; 3]) -> QuatBits {
        let b = k[0] as u64 | (k[1] as u64) << 16 | (k[2] as u64) << 32;
        QuatBits {
            largest: (b & 3) as u16,
            negative: b & 4 != 0,
            v: [((b >> 3) & 0x7FFF) as u16, ((b >> 18) & 0x7FFF) as u16, ((b >> 33) & 0x7FFF) as u16],
        }
    }
    /// The quantization of the offline tools: three smallest components on 15 bits over [-sqrt(2)/2, sqrt(2)/2].
    pub fn encode(q: [f64; 4]) -> QuatBits {
        let l = q.iter().map(|c| c * c).sum::<f64>().sqrt();
        let q: Vec<f64> = q.iter().map(|c| c / l).collect();
        let mut largest = 0;
        for i in 1..4 {
            if q[i].abs() > q[largest].abs() {
                largest = i;
            }
        }
        let mut v = [0u16; 3];
        let mut k = 0;
        for i in 0..4 {
            if i != largest {
                let x = (q[i] / std::f64::consts::SQRT_2 + 0.5) * 32767.0;
                v[k] = (x + 0.5).floor().clamp(0.0, 32767.0) as u16;
                k += 1;
            }
        }
        QuatBits { largest: largest as u16, negative: q[largest] < 0.0, v }
    }
    pub fn decode(&self) -> [f64; 4] {
        let mut q = [0f64; 4];
        let mut k = 0;
        for i in 0..4 {
            if i != self.largest as usize {
                q[i] = (self.v[k] as f64 / 32767.0 - 0.5) * std::f64::consts::SQRT_2;
                k += 1;
            }
        }
        let d: f64 = q.iter().map(|c| c * c).sum();
        let w = (1.0 - d).max(0.0).sqrt();
        q[self.largest as usize] = if self.negative { -w } else { w };
        q
    }
}

pub type Key = (f32, [u16; 3]);

#[derive(Clone, Debug)]
pub struct Anim {
    pub duration: f32,
    pub name: String,
    pub num_tracks: usize,
    /// Keys per aligned track, for translations, rotations and scales: strictly increasing ratios from 0 to 1.
    pub keys: [Vec<Vec<Key>>; 3],
    /// Number of seek points per component (0: none).
    pub iframes: [usize; 3],
    /// Extra time points that no key uses (force 16-bit time indices).
    pub pad_timepoints: usize,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Comp {
    pub ratios: Vec<u16>,
    pub previouses: Vec<u16>,
    pub entries: Vec<u8>,
    pub desc: Vec<u32>,
    pub interval: f32,
    pub keys: Vec<[u16; 3]>,
}

#[derive(Clone, Debug)]
pub struct Built {
    pub duration: f32,
    pub name: String,
    pub num_tracks: usize,
    pub timepoints: Vec<f32>,
    pub comp: [Comp; 3],
}

fn gv4(out: &mut Vec<u8>, v: &[u32]) {
    let mut prefix = 0u8;
    let mut data = Vec::new();
    for (i, x) in v.iter().enumerate() {
        let n = if *x < 1 << 8 {
            1
        } else if *x < 1 << 16 {
            2
        } else if *x < 1 << 24 {
            3
        } else {
            4
        };
        prefix |= ((n - 1) as u8) << (2 * i);
        data.extend_from_slice(&x.to_le_bytes()[..n]);
    }
    out.push(prefix);
    out.extend(data);
}

impl Anim {
    pub fn aligned(&self) -> usize {
        (self.num_tracks + 3) / 4 * 4
    }
    pub fn nsoa(&self) -> usize {
        self.aligned() / 4
    }

    /// Lays the keys out as the offline tools do. None when a back reference would not fit in 16 bits.
    pub fn build(&self) -> Option<Built> {
        let mut tps: Vec<f32> = self.keys.iter().flatten().flatten().map(|k| k.0).collect();
        for i in 0..self.pad_timepoints {
            tps.push((i as f32 + 0.5) / self.pad_timepoints as f32);
        }
        tps.sort_by(|a, b| a.partial_cmp(b).unwrap());
        tps.dedup();
        if tps.len() > 65536 {
            return None;
        }
        let n = self.aligned();
        let mut comp: [Comp; 3] = Default::default();
        for c in 0..3 {
            // (time of the previous key of the track, track, index in track)
            let mut order: Vec<(f32, usize, usize)> = Vec::new();
            for (t, ks) in self.keys[c].iter().enumerate() {
                for i in 0..ks.len() {
                    let prev = if i == 0 { -1.0 } else { ks[i - 1].0 };
                    order.push((prev, t, i));
                }
            }
            order.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let mut last = vec![usize::MAX; n];
            let o = &mut comp[c];
            for (at, (_, t, i)) in order.iter().enumerate() {
                let (ratio, key) = self.keys[c][*t][*i];
                let tp = tps.binary_search_by(|x| x.partial_cmp(&ratio).unwrap()).unwrap();
                o.ratios.push(tp as u16);
                let d = if *i == 0 { 0 } else { at - last[*t] };
                if d > 65535 {
                    return None;
                }
                o.previouses.push(d as u16);
                last[*t] = at;
                o.keys.push(key);
            }
            let m = self.iframes[c];
            o.interval = 1.0;
            if m > 0 && n > 0 {
                o.interval = 1.0 / m as f32;
                for k in 1..=m {
                    let at_ratio = (k as f32) * o.interval;
                    let mut entries: Vec<u32> = vec![0; n];
                    let mut last_key = 0;
                    for (at, (prev, t, _)) in order.iter().enumerate() {
                        if *prev > at_ratio {
                            break;
                        }
                        entries[*t] = at as u32;
                        last_key = at;
                    }
                    o.desc.push(o.entries.len() as u32);
                    o.desc.push(last_key as u32);
                    for ch in entries.chunks(4) {
                        gv4(&mut o.entries, ch);
                    }
                }
            }
        }
        Some(Built { duration: self.duration, name: self.name.clone(), num_tracks: self.num_tracks, timepoints: tps, comp })
    }

    /// The keys around a ratio for one component of one track, and the ratio between them.
    pub fn around(&self, c: usize, track: usize, ratio: f32) -> (Key, Key, f64) {
        let ks = &self.keys[c][track];
        let mut i = 0;
        while i + 2 < ks.len() && ks[i + 1].0 <= ratio {
            i += 1;
        }
        let (a, b) = (ks[i], ks[i + 1]);
        (a, b, (ratio as f64 - a.0 as f64) / (b.0 as f64 - a.0 as f64))
    }
}

impl Built {
    pub fn write(&self, be: bool) -> Vec<u8> {
        let mut w = W::new(be);
        w.tag("ozz-animation");
        w.u32(7);
        w.f32(self.duration);
        w.u32(self.num_tracks as u32);
        w.u32(self.name.len() as u32);
        w.u32(self.timepoints.len() as u32);
        for c in &self.comp {
            w.u32(c.keys.len() as u32);
        }
        for c in &self.comp {
            w.u32(c.entries.len() as u32);
            w.u32(c.desc.len() as u32);
        }
        w.b.extend_from_slice(self.name.as_bytes());
        for t in &self.timepoints {
            w.f32(*t);
        }
        let wide = self.timepoints.len() > 255;
        for c in &self.comp {
            for r in &c.ratios {
                if wide {
                    w.u16(*r);
                } else {
                    w.u8(*r as u8);
                }
            }
            c.previouses.iter().for_each(|p| w.u16(*p));
            w.b.extend_from_slice(&c.entries);
            c.desc.iter().for_each(|d| w.u32(*d));
            w.f32(c.interval);
            for k in &c.keys {
                k.iter().for_each(|h| w.u16(*h));
            }
        }
        w.b
    }
}

// ---------------------------------------------------------------- track

/// A track of N-component values.
#[derive(Clone, Debug)]
pub struct Trk {
    pub dim: usize,
    pub quat: bool,
    pub name: String,
    pub ratios: Vec<f32>,
    pub values: Vec<[f32; 4]>,
    pub steps: Vec<bool>,
}

impl Trk {
    pub fn tag(&self) -> &'static str {
        match (self.quat, self.dim) {
            (true, _) => "ozz-quat_track",
            (_, 1) => "ozz-float_track",
            (_, 2) => "ozz-float2_track",
            (_, 3) => "ozz-float3_track",
            _ => "ozz-float4_track",
        }
    }
    pub fn step_bits(&self) -> Vec<u8> {
        let mut v = vec![0u8; (self.steps.len() + 7) / 8];
        for (i, s) in self.steps.iter().enumerate() {
            if *s {
                v[i / 8] |= 1 << (i % 8);
            }
        }
        v
    }
    pub fn write(&self, be: bool) -> Vec<u8> {
        let mut w = W::new(be);
        w.tag(self.tag());
        w.u32(1);
        w.u32(self.ratios.len() as u32);
        w.u32(self.name.len() as u32);
        self.ratios.iter().for_each(|r| w.f32(*r));
        for v in &self.values {
            v[..self.dim].iter().for_each(|c| w.f32(*c));
        }
        w.b.extend(self.step_bits());
        w.b.extend_from_slice(self.name.as_bytes());
        w.b
    }
}

// ---------------------------------------------------------------- generators

pub fn gen_name(r: &mut Rng, max: usize) -> String {
    const POOL: &[&str] = &["a", "B", "z", "_", "0", "9", " ", "-", "é", "ß", "骨", "🦴", ".", "/", "joint", "Hips", "L"];
    let n = r.below(max + 1);
    (0..n).map(|_| *r.pick(POOL)).collect()
}

pub fn gen_xf(r: &mut Rng) -> Xf {
    let t = r.vec3(3.0);
    let q = match r.below(6) {
        0 => [0.0, 0.0, 0.0, 1.0],
        1 => [0.0, 0.0, 0.0, -1.0],
        2 => [1.0, 0.0, 0.0, 0.0],
        _ => r.quat(),
    };
    let s = match r.below(5) {
        0 => [1.0; 3],
        1 => {
            let k = r.f32(0.3, 2.0);
            [k; 3]
        }
        2 => [r.f32(-2.0, -0.2), r.f32(0.2, 2.0), r.f32(0.2, 2.0)],
        _ => [r.f32(0.2, 2.0), r.f32(0.2, 2.0), r.f32(0.2, 2.0)],
    };
    Xf { t, r: q, s }
}

/// Parents of a random forest in depth-first order.
pub fn gen_parents(r: &mut Rng, n: usize) -> Vec<i16> {
    let mut parents: Vec<i16> = Vec::with_capacity(n);
    let mut path: Vec<i16> = Vec::new();
    // Shape: 0 chain, 1 star, 2 several roots, other: random.
    let shape = r.below(6);
    for i in 0..n {
        if i == 0 {
            parents.push(-1);
        } else {
            let keep = match shape {
                0 => path.len(),
                1 => 1,
                2 => {
                    if r.chance(0.3) {
                        0
                    } else {
                        r.range(0, path.len())
                    }
                }
                _ => {
                    if r.chance(0.6) {
                        path.len()
                    } else {
                        r.range(1, path.len().max(1))
                    }
                }
            };
            path.truncate(keep);
            parents.push(path.last().copied().unwrap_or(-1));
        }
        path.push(i as i16);
    }
    parents
}

pub fn gen_count(r: &mut Rng, max: usize) -> usize {
    match r.below(10) {
        0 => r.range(1, 5.min(max)),
        1 => r.range(1, 9.min(max)),
        2 => (r.range(1, (max / 4).max(1)) * 4).min(max),
        3 => (r.range(1, (max / 32).max(1)) * 32).min(max),
        4 => ((r.range(1, (max / 32).max(1)) * 32) + r.range(0, 8)).saturating_sub(4).clamp(1, max),
        _ => r.range(1, max),
    }
}

pub fn gen_skel(r: &mut Rng, n: usize) -> Skel {
    let parents = gen_parents(r, n);
    let mut names: Vec<String> = Vec::new();
    let plain = r.chance(0.3);
    let longest = *r.pick(&[6, 6, 6, 40, 250]);
    let mut used = std::collections::HashSet::new();
    for i in 0..n {
        let mut name = if plain { format!("joint_{}", i) } else { gen_name(r, longest) };
        while used.contains(&name) {
            name.push_str(&format!("#{}", i));
        }
        used.insert(name.clone());
        names.push(name);
    }
    let rest = (0..n).map(|_| gen_xf(r)).collect();
    Skel { names, parents, rest }
}

fn half3(r: &mut Rng, style: usize) -> [u16; 3] {
    let mut h = [0u16; 3];
    for x in h.iter_mut() {
        *x = match style {
            0 => f64_to_half(r.f32(-4.0, 4.0) as f64),
            1 => {
                // any finite pattern
                let mut v = r.u32() as u16;
                while v & 0x7C00 == 0x7C00 {
                    v = r.u32() as u16;
                }
                v
            }
            2 => *r.pick(&[0x3C00, 0xBC00, 0x0000, 0x8000, 0x4000]),
            _ => f64_to_half(r.f32(0.25, 2.0) as f64),
        };
    }
    h
}

pub struct AnimOpts {
    pub tracks: usize,
    pub max_keys: usize,
    /// Finite but extreme translations and scales too.
    pub wild: bool,
    /// Successive rotation keys may lie in opposite hemispheres.
    pub flips: bool,
}

pub fn gen_anim(r: &mut Rng, o: &AnimOpts) -> Anim {
    let aligned = (o.tracks + 3) / 4 * 4;
    let duration = *r.pick(&[1.0f32, 0.5, 2.0, 3.2666667, 10.0, 0.033333335]);
    let mut keys: [Vec<Vec<Key>>; 3] = Default::default();
    // Common time grid, like a sampled clip, or free times.
    let grid_n = r.range(2, (o.max_keys * 2).max(3));
    let free = r.chance(0.3);
    let wide = r.chance(0.15);
    let density = r.f64();
    for c in 0..3 {
        let style = if c == 0 {
            if o.wild && r.chance(0.3) {
                1
            } else {
                0
            }
        } else {
            3
        };
        for t in 0..aligned {
            let nk = match r.below(5) {
                0 => 2,
                1 => o.max_keys,
                _ => r.range(2, o.max_keys.max(2)),
            };
            let nk = if r.chance(density) { nk } else { 2 };
            let nk = if t >= o.tracks { 2 } else { nk };
            let mut times: Vec<f32> = vec![0.0, 1.0];
            for _ in 2..nk {
                let x = if free || wide {
                    r.f32(0.0, 1.0)
                } else {
                    r.range(0, grid_n) as f32 / grid_n as f32
                };
                times.push(x);
            }
            times.sort_by(|a, b| a.partial_cmp(b).unwrap());
            times.dedup();
            let mut ks: Vec<Key> = Vec::new();
            let mut prev = r.quat();
            for time in times {
                let k = if t >= o.tracks {
                    match c {
                        0 => [0, 0, 0],
                        1 => QuatBits::encode([0.0, 0.0, 0.0, 1.0]).pack(),
                        _ => [0x3C00; 3],
                    }
                } else if c == 1 {
                    let mut q = r.quat();
                    if r.chance(0.5) {
                        // a small step
                        for i in 0..4 {
                            q[i] = prev[i] + 0.3 * q[i];
                        }
                    }
                    let d: f32 = (0..4).map(|i| q[i] * prev[i]).sum();
                    if d < 0.0 && !o.flips {
                        q.iter_mut().for_each(|x| *x = -*x);
                    }
                    prev = q;
                    QuatBits::encode([q[0] as f64, q[1] as f64, q[2] as f64, q[3] as f64]).pack()
                } else if o.wild && r.chance(0.1) {
                    half3(r, 2)
                } else {
                    half3(r, style)
                };
                ks.push((time, k));
            }
            keys[c].push(ks);
        }
    }
    let mut iframes = [0usize; 3];
    match r.below(4) {
        0 => {}
        1 => iframes = [r.range(1, 4); 3],
        _ => iframes.iter_mut().for_each(|x| *x = r.range(0, 12)),
    }
    let pad_timepoints = match r.below(8) {
        0 => 300,
        1 => 256,
        2 => r.range(200, 260),
        _ => 0,
    };
    Anim { duration, name: gen_name(r, 8), num_tracks: o.tracks, keys, iframes, pad_timepoints }
}

/// A long clip: one component with more keys than 16 bits can count, most of its time indices wide.
pub fn gen_long(r: &mut Rng) -> (Anim, Built) {
    loop {
        let tracks = r.range(61, 80);
        let aligned = (tracks + 3) / 4 * 4;
        let long = r.below(3);
        let per = 68000 / tracks + r.range(0, 200);
        let duration = per as f32 / 30.0;
        let mut keys: [Vec<Vec<Key>>; 3] = Default::default();
        for c in 0..3 {
            for t in 0..aligned {
                let n = if c == long && t < tracks { per } else { 2 };
                let mut q = r.quat();
                let ks = (0..n)
                    .map(|i| {
                        let time = if i + 1 == n { 1.0 } else { i as f32 / (n - 1) as f32 };
                        let k = if c == 1 {
                            let d = r.vec3(0.1);
                            for j in 0..3 {
                                q[j] += d[j];
                            }
                            QuatBits::encode([q[0] as f64, q[1] as f64, q[2] as f64, q[3] as f64]).pack()
                        } else {
                            half3(r, if c == 0 { 0 } else { 3 })
                        };
                        (time, k)
                    })
                    .collect();
                keys[c].push(ks);
            }
        }
        let mut iframes = [0usize; 3];
        if r.chance(0.85) {
            iframes[long] = r.range(1, 40);
        }
        let a = Anim { duration, name: gen_name(r, 8), num_tracks: tracks, keys, iframes, pad_timepoints: 0 };
        if let Some(b) = a.build() {
            return (a, b);
        }
    }
}

/// Without keys, now and then.
pub fn or_empty(r: &mut Rng, mut t: Trk, p: f64) -> Trk {
    if r.chance(p) {
        t.ratios.clear();
        t.values.clear();
        t.steps.clear();
    }
    t
}

pub fn gen_trk(r: &mut Rng, kind: usize, max_keys: usize) -> Trk {
    let quat = kind == 4;
    let dim = if quat { 4 } else { kind + 1 };
    let n = match r.below(6) {
        0 => 1,
        1 => 2,
        2 => r.range(7, 9.min(max_keys).max(7)),
        3 => max_keys,
        _ => r.range(2, max_keys.max(2)),
    };
    let mut ratios: Vec<f32> = vec![0.0];
    if n > 1 {
        ratios.push(1.0);
    }
    let grid = r.range(2, 2 * max_keys.max(2));
    let free = r.chance(0.5);
    for _ in 2..n {
        ratios.push(if free { r.f32(0.0, 1.0) } else { r.range(0, grid) as f32 / grid as f32 });
    }
    ratios.sort_by(|a, b| a.partial_cmp(b).unwrap());
    ratios.dedup();
    let n = ratios.len();
    let scale = *r.pick(&[1.0f32, 1.0, 5.0, 100.0]);
    let values = (0..n)
        .map(|_| {
            if quat {
                r.quat()
            } else {
                let mut v = [0f32; 4];
                for x in v[..dim].iter_mut() {
                    *x = r.f32(-scale, scale);
                }
                v
            }
        })
        .collect();
    let p = *r.pick(&[0.0, 0.5, 1.0]);
    let steps = (0..n).map(|_| r.chance(p)).collect();
    Trk { dim, quat, name: gen_name(r, 6), ratios, values, steps }
}
