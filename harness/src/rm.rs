//! Reference mathematics in double precision.

pub type V3 = [f64; 3];
pub type Q = [f64; 4];
/// Column-major 4x4 matrix.
pub type M4 = [[f64; 4]; 4];

pub const M_ID: M4 = [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0]];
pub const Q_ID: Q = [0.0, 0.0, 0.0, 1.0];

pub fn v3(a: [f32; 3]) -> V3 {
    [a[0] as f64, a[1] as f64, a[2] as f64]
}
pub fn q4(a: [f32; 4]) -> Q {
    [a[0] as f64, a[1] as f64, a[2] as f64, a[3] as f64]
}
pub fn add(a: V3, b: V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn mul(a: V3, k: f64) -> V3 {
    [a[0] * k, a[1] * k, a[2] * k]
}
pub fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn len(a: V3) -> f64 {
    dot(a, a).sqrt()
}
pub fn norm(a: V3) -> V3 {
    mul(a, 1.0 / len(a))
}
pub fn lerp(a: V3, b: V3, t: f64) -> V3 {
    add(a, mul(sub(b, a), t))
}
pub fn qdot(a: Q, b: Q) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
}
pub fn qlen(a: Q) -> f64 {
    qdot(a, a).sqrt()
}
pub fn qscale(a: Q, k: f64) -> Q {
    [a[0] * k, a[1] * k, a[2] * k, a[3] * k]
}
pub fn qadd(a: Q, b: Q) -> Q {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]]
}
pub fn qnorm(a: Q) -> Q {
    qscale(a, 1.0 / qlen(a))
}
pub fn qmul(a: Q, b: Q) -> Q {
    [
        a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1],
        a[3] * b[1] + a[1] * b[3] + a[2] * b[0] - a[0] * b[2],
        a[3] * b[2] + a[2] * b[3] + a[0] * b[1] - a[1] * b[0],
        a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2],
    ]
}
pub fn qconj(a: Q) -> Q {
    [-a[0], -a[1], -a[2], a[3]]
}
pub fn qlerp(a: Q, b: Q, t: f64) -> Q {
    qadd(a, qscale(qadd(b, qscale(a, -1.0)), t))
}
pub fn qrot(q: Q, v: V3) -> V3 {
    let u = [q[0], q[1], q[2]];
    let c1 = add(cross(u, v), mul(v, q[3]));
    add(v, mul(cross(u, c1), 2.0))
}
pub fn qaxis(axis: V3, angle: f64) -> Q {
    let (s, c) = (angle / 2.0).sin_cos();
    [axis[0] * s, axis[1] * s, axis[2] * s, c]
}
/// Angle of the rotation between two orientations (sign of the quaternions ignored).
pub fn qangle(a: Q, b: Q) -> f64 {
    let d = qdot(qnorm(a), qnorm(b)).abs().min(1.0);
    2.0 * d.acos()
}
/// Largest component difference, up to the sign of the quaternion.
pub fn qdiff(a: Q, b: Q) -> f64 {
    let f = |s: f64| (0..4).map(|i| (a[i] - s * b[i]).abs()).fold(0.0, f64::max);
    f(1.0).min(f(-1.0))
}
pub fn affine(t: V3, r: Q, s: V3) -> M4 {
    let (x, y, z, w) = (r[0], r[1], r[2], r[3]);
    [
        [s[0] * (1.0 - 2.0 * (y * y + z * z)), s[0] * 2.0 * (x * y + z * w), s[0] * 2.0 * (x * z - y * w), 0.0],
        [s[1] * 2.0 * (x * y - z * w), s[1] * (1.0 - 2.0 * (x * x + z * z)), s[1] * 2.0 * (y * z + x * w), 0.0],
        [s[2] * 2.0 * (x * z + y * w), s[2] * 2.0 * (y * z - x * w), s[2] * (1.0 - 2.0 * (x * x + y * y)), 0.0],
        [t[0], t[1], t[2], 1.0],
    ]
}
pub fn mmul(a: &M4, b: &M4) -> M4 {
    let mut o = [[0.0; 4]; 4];
    for c in 0..4 {
        for r in 0..4 {
            o[c][r] = (0..4).map(|k| a[k][r] * b[c][k]).sum();
        }
    }
    o
}
/// Sum of absolute products: scale of the rounding error of a product.
pub fn mmul_abs(a: &M4, b: &M4) -> M4 {
    let mut o = [[0.0; 4]; 4];
    for c in 0..4 {
        for r in 0..4 {
            o[c][r] = (0..4).map(|k| (a[k][r] * b[c][k]).abs()).sum();
        }
    }
    o
}
pub fn mpoint(m: &M4, p: V3) -> V3 {
    let mut o = [0.0; 3];
    for r in 0..3 {
        o[r] = m[0][r] * p[0] + m[1][r] * p[1] + m[2][r] * p[2] + m[3][r];
    }
    o
}
pub fn mvec(m: &M4, p: V3) -> V3 {
    let mut o = [0.0; 3];
    for r in 0..3 {
        o[r] = m[0][r] * p[0] + m[1][r] * p[1] + m[2][r] * p[2];
    }
    o
}
pub fn mfrom(m: &glam::Mat4) -> M4 {
    let a = m.to_cols_array_2d();
    let mut o = [[0.0; 4]; 4];
    for c in 0..4 {
        for r in 0..4 {
            o[c][r] = a[c][r] as f64;
        }
    }
    o
}
pub fn mto(m: &M4) -> glam::Mat4 {
    let mut a = [[0f32; 4]; 4];
    for c in 0..4 {
        for r in 0..4 {
            a[c][r] = m[c][r] as f32;
        }
    }
    glam::Mat4::from_cols_array_2d(&a)
}
pub fn minv(m: &M4) -> Option<M4> {
    // Gauss-Jordan on the row-major view.
    let mut a = [[0.0f64; 8]; 4];
    for r in 0..4 {
        for c in 0..4 {
            a[r][c] = m[c][r];
        }
        a[r][4 + r] = 1.0;
    }
    for i in 0..4 {
        let p = (i..4).max_by(|x, y| a[*x][i].abs().partial_cmp(&a[*y][i].abs()).unwrap()).unwrap();
        if a[p][i].abs() < 1e-300 {
            return None;
        }
        a.swap(i, p);
        let d = a[i][i];
        a[i].iter_mut().for_each(|x| *x /= d);
        for r in 0..4 {
            if r != i {
                let f = a[r][i];
                for c in 0..8 {
                    a[r][c] -= f * a[i][c];
                }
            }
        }
    }
    let mut o = [[0.0; 4]; 4];
    for r in 0..4 {
        for c in 0..4 {
            o[c][r] = a[r][4 + c];
        }
    }
    Some(o)
}
