//! The sky over a building, written from its published definition: the position of the sun (Duffie and Beckman),
//! the luminance of the sky (Perez et al. 1993) and Reinhart's division of the hemisphere.
use calendar::Date;
use std::f64::consts::PI;
use weather::CurrentWeather;

/// Reinhart's patches: direction of the centre and solid angle; the ground first, the zenith last.
pub fn patches(mf: usize) -> Vec<([f64; 3], f64)> {
    const TREGENZA: [usize; 7] = [30, 30, 24, 24, 18, 12, 6];
    let h = PI / 2.0 / (7 * mf) as f64 / (1.0 + 0.5 / (7 * mf) as f64);
    let mut v = vec![([0.0, 0.0, -1.0], 2.0 * PI)];
    for (ring, n) in TREGENZA.iter().enumerate() {
        for sub in 0..mf {
            let row = (ring * mf + sub) as f64;
            let (lo, hi) = (row * h, (row + 1.0) * h);
            let m = (lo + hi) / 2.0;
            for k in 0..n * mf {
                let az = 2.0 * PI * k as f64 / (n * mf) as f64;
                v.push(([az.sin() * m.cos(), az.cos() * m.cos(), m.sin()], 2.0 * PI * (hi.sin() - lo.sin()) / (n * mf) as f64));
            }
        }
    }
    v.push(([0.0, 0.0, 1.0], 2.0 * PI * (1.0 - (h / 2.0).cos())));
    v
}

pub struct Place {
    pub lat: f64,
    /// degrees east
    pub lon: f64,
    /// degrees east
    pub mer: f64,
}

fn day_of_year(d: Date) -> f64 {
    let len = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let before: usize = len[..d.month as usize - 1].iter().sum();
    // counted from zero, as everywhere in the code
    before as f64 + d.day as f64 - 1.0 + d.hour / 24.0
}

/// Solar time (days) and direction to the sun (x east, y north, z up), if it has risen.
pub fn sun(p: &Place, d: Date, nudge: f64) -> (f64, Option<[f64; 3]>) {
    let b = |n: f64| (n - 1.0) * 2.0 * PI / 365.0;
    let n = day_of_year(d);
    let g = b(n);
    let eot = 229.2 * (0.000075 + 0.001868 * g.cos() - 0.032077 * g.sin() - 0.014615 * (2.0 * g).cos() - 0.04089 * (2.0 * g).sin());
    let t = n + (4.0 * (p.lon - p.mer) + eot) / 1440.0 + nudge;
    let decl = |n: f64| {
        let g = b(n);
        0.006918 - 0.399912 * g.cos() + 0.070257 * g.sin() - 0.006758 * (2.0 * g).cos() + 0.000907 * (2.0 * g).sin() - 0.002697 * (3.0 * g).cos() + 0.00148 * (3.0 * g).sin()
    };
    let dec = decl(t);
    let w = (t.rem_euclid(1.0) * 24.0 - 12.0) * PI / 12.0;
    let up = p.lat.cos() * dec.cos() * w.cos() + p.lat.sin() * dec.sin();
    let half = (-p.lat.tan() * dec.tan()).acos() / (2.0 * PI);
    let noon = t.floor() + 0.5;
    if t < noon - half || t > noon + half || up < 0.0 {
        return (t, None);
    }
    if up > 0.9999 {
        return (t, Some([0.0, 0.0, 1.0]));
    }
    // in equatorial terms: east, north, up
    (t, Some([-dec.cos() * w.sin(), dec.sin() * p.lat.cos() - dec.cos() * p.lat.sin() * w.cos(), up]))
}

/// Radiance of every patch, in W/m2sr: ground of albedo 0.2, sky, and the sun spread over the four nearest patches.
pub fn sky_vec(mf: usize, p: &Place, d: Date, cw: &CurrentWeather, nudge: f64) -> Vec<f64> {
    let pt = patches(mf);
    let mut out = vec![0.0; pt.len()];
    let (dif, dni) = (cw.diffuse_horizontal_radiation, cw.direct_normal_radiation);
    if dif + dni < 1e-4 {
        return out;
    }
    let (t, Some(s)) = sun(p, d, nudge) else { return out };
    let z = s[2].min(1.0).acos().clamp(3f64.to_radians(), PI / 2.0);
    out[0] += 0.2 * (dif + dni * s[2].max(0.0)) / PI;
    // diffuse
    let g = (t - 1.0) * 2.0 * PI / 365.0;
    let extra = 1367.7 * (1.00011 + 0.034221 * g.cos() + 0.00128 * g.sin() + 0.000719 * (2.0 * g).cos() + 0.000077 * (2.0 * g).sin());
    let mass = 1.0 / (z.cos() + 0.15 * (93.885 - z.to_degrees()).powf(-1.253));
    let bright = (dif * mass / extra).max(0.01).min(9e9);
    let clear = (((dif + dni) / dif + 1.041 * z.powi(3)) / (1.0 + 1.041 * z.powi(3))).min(11.9);
    let q = perez(z, clear, bright);
    let lum = |dir: &[f64; 3]| -> f64 {
        let c = dir[0] * s[0] + dir[1] * s[1] + dir[2] * s[2];
        let l = (1.0 + q[0] * (q[1] / dir[2].max(0.01)).exp()) * (1.0 + q[2] * (q[3] * c.acos()).exp() + q[4] * c * c);
        if l.is_nan() {
            0.0
        } else {
            l
        }
    };
    // scaled so that Tregenza's patches give the diffuse horizontal irradiance
    let norm: f64 = patches(1)[1..].iter().map(|(dir, om)| lum(dir).max(0.0) * om * dir[2]).sum();
    if norm > 1e-4 {
        for (o, (dir, _)) in out.iter_mut().zip(&pt).skip(1) {
            let x = lum(dir) * dif / norm;
            if !x.is_nan() {
                *o += x;
            }
        }
    }
    // direct
    if dni > 1e-4 {
        let mut near: Vec<(usize, f64)> = pt.iter().enumerate().map(|(k, (dir, _))| (k, dir[0] * s[0] + dir[1] * s[1] + dir[2] * s[2])).collect();
        near.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
        near.truncate(4);
        let w: f64 = near.iter().map(|x| 1.0 / (1.002 - x.1)).sum();
        for (k, c) in near {
            out[k] += dni / (1.002 - c) / w / pt[k].1;
        }
    }
    out
}

/// Perez' five coefficients.
fn perez(z: f64, clear: f64, mut bright: f64) -> [f64; 5] {
    #[rustfmt::skip]
    const T: [[[f64; 4]; 5]; 8] = [
        [[1.3525, -0.2576, -0.2690, -1.4366], [-0.7670, 0.0007, 1.2734, -0.1233], [2.8000, 0.6004, 1.2375, 1.0000], [1.8734, 0.6297, 0.9738, 0.2809], [0.0356, -0.1246, -0.5718, 0.9938]],
        [[-1.2219, -0.7730, 1.4148, 1.1016], [-0.2054, 0.0367, -3.9128, 0.9156], [6.9750, 0.1774, 6.4477, -0.1239], [-1.5798, -0.5081, -1.7812, 0.1080], [0.2624, 0.0672, -0.2190, -0.4285]],
        [[-1.1000, -0.2515, 0.8952, 0.0156], [0.2782, -0.1812, -4.5000, 1.1766], [24.7219, -13.0812, -37.7000, 34.8438], [-5.0000, 1.5218, 3.9229, -2.6204], [-0.0156, 0.1597, 0.4199, -0.5562]],
        [[-0.5484, -0.6654, -0.2672, 0.7117], [0.7234, -0.6219, -5.6812, 2.6297], [33.3389, -18.3000, -62.2500, 52.0781], [-3.5000, 0.0016, 1.1477, 0.1062], [0.4659, -0.3296, -0.0876, -0.0329]],
        [[-0.6000, -0.3566, -2.5000, 2.3250], [0.2937, 0.0496, -5.6812, 1.8415], [21.0000, -4.7656, -21.5906, 7.2492], [-3.5000, -0.1554, 1.4062, 0.3988], [0.0032, 0.0766, -0.0656, -0.1294]],
        [[-1.0156, -0.3670, 1.0078, 1.4051], [0.2875, -0.5328, -3.8500, 3.3750], [14.0000, -0.9999, -7.1406, 7.5469], [-3.4000, -0.1078, -1.0750, 1.5702], [-0.0672, 0.4016, 0.3017, -0.4844]],
        [[-1.0000, 0.0211, 0.5025, -0.5119], [-0.3000, 0.1922, 0.7023, -1.6317], [19.0000, -5.0000, 1.2438, -1.9094], [-4.0000, 0.0250, 0.3844, 0.2656], [1.0468, -0.3788, -2.4517, 1.4656]],
        [[-1.0500, 0.0289, 0.4260, 0.3590], [-0.3250, 0.1156, 0.7781, 0.0025], [31.0625, -14.5000, -46.1148, 55.3750], [-7.2312, 0.4050, 13.3500, 0.6234], [1.5000, -0.6426, 1.8564, 0.5636]],
    ];
    let cat = [1.065, 1.23, 1.5, 1.95, 2.8, 4.5, 6.2].iter().take_while(|x| !(clear < **x)).count();
    if clear > 1.065 && clear < 2.8 && bright < 0.2 {
        bright = 0.2;
    }
    let x = &T[cat];
    let mut p = [0.0; 5];
    for k in 0..5 {
        p[k] = x[k][0] + x[k][1] * z + bright * (x[k][2] + x[k][3] * z);
    }
    if cat == 0 {
        p[2] = (bright * (x[2][0] + x[2][1] * z)).powf(x[2][2]).exp() - x[2][3];
        p[3] = -(bright * (x[3][0] + x[3][1] * z)).exp() + x[3][2] + bright * x[3][3];
    }
    p
}

/// The patch a direction belongs to.
pub fn patch_of(mf: usize, d: [f64; 3]) -> usize {
    const TREGENZA: [usize; 7] = [30, 30, 24, 24, 18, 12, 6];
    if d[2] < 0.0 {
        return 0;
    }
    let h = PI / 2.0 / (7.0 * mf as f64 + 0.5);
    let row = (d[2].min(1.0).asin() / h).floor() as usize;
    if row >= 7 * mf {
        return 144 * mf * mf + 1;
    }
    let before: usize = (0..row).map(|r| TREGENZA[r / mf] * mf).sum();
    let n = TREGENZA[row / mf] * mf;
    let az = d[0].atan2(d[1]).rem_euclid(2.0 * PI) / (2.0 * PI) * n as f64;
    1 + before + (az + 0.5).floor() as usize % n
}
fn axes(n: [f64; 3]) -> ([f64; 3], [f64; 3]) {
    let t = if n[0].abs() < 0.6 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] };
    let c = |a: [f64; 3], b: [f64; 3]| [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
    let mut u = c(n, t);
    let l = (u[0] * u[0] + u[1] * u[1] + u[2] * u[2]).sqrt();
    u = u.map(|x| x / l);
    (u, c(n, u))
}
/// What an open sensor facing `n` (of length one) sees of each patch: the share of its view, weighted with the cosine.
pub fn open_view(mf: usize, n: [f64; 3], fine: usize) -> Vec<f64> {
    let (u, v) = axes(n);
    let mut w = vec![0.0; 144 * mf * mf + 2];
    let (a, b) = (160 * fine, 320 * fine);
    for i in 0..a {
        let r2 = (i as f64 + 0.5) / a as f64;
        let (r, z) = (r2.sqrt(), (1.0 - r2).sqrt());
        for j in 0..b {
            let f = 2.0 * PI * (j as f64 + 0.5) / b as f64;
            let (x, y) = (r * f.cos(), r * f.sin());
            let d = [0, 1, 2].map(|k| x * u[k] + y * v[k] + z * n[k]);
            w[patch_of(mf, d)] += 1.0 / (a * b) as f64;
        }
    }
    w
}
