//! Saving and loading images and matrices.
use crate::bldg::*;
use crate::child::{panic_text, Env};
use crate::rng::Rng;
use rendering::colour_matrix::*;
use rendering::colourmap::Colourmap;
use rendering::image::ImageBuffer;
use rendering::{ColourMatrix, Spectrum};
use serde_json::{json, Value};
use std::path::Path;

pub fn value(r: &mut Rng, style: i64) -> f64 {
    match style {
        0 => r.f(),
        1 => r.ff(0.0, 1.0) * 10f64.powi(r.r(-6, 6) as i32),
        2 => 2f64.powi(r.r(-20, 20) as i32),
        3 => *r.pick(&[0.0, 1e-25, 1e-18, 0.5, 1.0, 0.999999999999, 255.0, 256.0, 1e9]),
        _ => {
            if r.p(30) {
                0.0
            } else {
                r.ff(0.0, 500.0)
            }
        }
    }
}
pub fn pixels(w: usize, h: usize, seed: u64, style: i64) -> Vec<[f64; 3]> {
    let mut r = Rng::new(seed);
    (0..w * h).map(|_| [value(&mut r, style), value(&mut r, style), value(&mut r, style)]).collect()
}
pub fn scalars(n: usize, seed: u64, style: i64) -> Vec<f64> {
    let mut r = Rng::new(seed);
    (0..n).map(|_| value(&mut r, style) * if r.p(30) { -1.0 } else { 1.0 }).collect()
}
pub fn maps(k: i64) -> (Colourmap, &'static str) {
    match k {
        0 => (Colourmap::Radiance, "radiance"),
        1 => (Colourmap::Inferno, "inferno"),
        2 => (Colourmap::Magma, "magma"),
        3 => (Colourmap::Plasma, "plasma"),
        _ => (Colourmap::Viridis, "viridis"),
    }
}

pub fn files(env: &Env) -> Result<Value, String> {
    let a = env.a();
    let kind = a["kind"].as_str().unwrap_or("img").to_string();
    let f = a["file"].as_str().unwrap_or("f").to_string();
    let p = Path::new(&f);
    let (w, h) = (un(&a["w"]).max(1), un(&a["h"]).max(1));
    let (seed, style) = (un(&a["seed"]) as u64, i(&a["style"]));
    let load = a["load"].as_bool().unwrap_or(false);
    env.start();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<Value, String> {
        if load {
            Ok(match kind.as_str() {
                "img" => {
                    let b = ImageBuffer::from_file(p)?;
                    json!({"w": b.width, "h": b.height, "v": b.pixels.iter().map(|x| x.0.to_vec()).collect::<Vec<_>>()})
                }
                "mat" => {
                    let m = read_matrix(p)?;
                    let (nr, nc) = m.size();
                    json!({"w": nc, "h": nr, "v": (0..nr * nc).map(|k| m.get(k / nc, k % nc).unwrap()).collect::<Vec<_>>()})
                }
                _ => {
                    let m = read_colour_matrix(p)?;
                    let (nr, nc) = m.size();
                    json!({"w": nc, "h": nr, "v": (0..nr * nc).map(|k| m.get(k / nc, k % nc).unwrap().0.to_vec()).collect::<Vec<_>>()})
                }
            })
        } else {
            match kind.as_str() {
                "mat" => save_matrix(&matrix::Matrix::from_data(h, w, scalars(w * h, seed, style)), p)?,
                "cmat" => {
                    let mut m = ColourMatrix::new(Spectrum::BLACK, h, w);
                    for (k, x) in pixels(w, h, seed, style).into_iter().enumerate() {
                        m.set(k / w, k % w, Spectrum(x))?;
                    }
                    save_colour_matrix(&m, p)?
                }
                _ => {
                    let b = ImageBuffer::from_pixels(w, h, pixels(w, h, seed, style).into_iter().map(Spectrum).collect());
                    match kind.as_str() {
                        "img" => b.save_hdre(p)?,
                        "jpg" => b.save_falsecolour(None, None, maps(style).0, p)?,
                        _ => b.save_log_falsecolour(None, None, maps(style).0, p)?,
                    }
                }
            }
            Ok(Value::Null)
        }
    }));
    crate::rt::stop();
    Ok(match r {
        Ok(Ok(v)) => json!({"res": "ok", "data": v}),
        Ok(Err(e)) => json!({"res": "err", "err": e}),
        Err(e) => json!({"res": "panic", "err": panic_text(&*e)}),
    })
}
