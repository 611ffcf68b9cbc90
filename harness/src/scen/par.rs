//! Parallel workloads: daylight coefficients, rendering, matrix products, optical information.
use crate::bldg::*;
use crate::child::Env;
use geometry::{Point3D, Ray3D, Vector3D};
use model::{Model, SolarOptions};
use rendering::{Camera, CameraSample, DCFactory, Film, Pinhole, RayTracer, Scene, View};
use serde_json::{json, Value};
use weather::ReinhartSky;

fn fl(v: &Value) -> f64 {
    v.as_f64().unwrap_or(0.0)
}
fn p3(v: &Value) -> (f64, f64, f64) {
    (fl(&v[0]), fl(&v[1]), fl(&v[2]))
}
pub fn scene(file: &str) -> Result<Scene, String> {
    let mut s = Scene::from_radiance(file.to_string())?;
    s.build_accelerator();
    Ok(s)
}
pub fn rays(v: &Value) -> Vec<Ray3D> {
    arr(v)
        .iter()
        .map(|r| {
            let (o, d) = (p3(&r[0]), p3(&r[1]));
            Ray3D { origin: Point3D::new(o.0, o.1, o.2), direction: Vector3D::new(d.0, d.1, d.2).get_normalized() }
        })
        .collect()
}
pub fn camera(c: &Value) -> Pinhole {
    let (p, d) = (p3(&c["p"]), p3(&c["d"]));
    let up = if d.0.abs() < 1e-9 && d.1.abs() < 1e-9 { (0., 1., 0.) } else { (0., 0., 1.) };
    Pinhole::new(
        View { view_direction: Vector3D::new(d.0, d.1, d.2).get_normalized(), view_point: Point3D::new(p.0, p.1, p.2), view_up: Vector3D::new(up.0, up.1, up.2), field_of_view: fl(&c["fov"]) },
        Film { resolution: (un(&c["x"]).max(1), un(&c["y"]).max(1)) },
    )
}

pub fn dc(env: &Env) -> Result<Value, String> {
    let a = env.a();
    let sc = scene(a["scene"].as_str().unwrap_or("s.rad"))?;
    let rs = rays(&a["rays"]);
    let f = DCFactory { max_depth: un(&a["depth"]), n_ambient_samples: un(&a["samples"]).max(1), reinhart: ReinhartSky::new(un(&a["mf"]).max(1)) };
    let one = a["one_by_one"].as_bool().unwrap_or(false);
    env.start();
    let bar = utils::ProgressBar::new("dc".into(), rs.len() * f.n_ambient_samples);
    let ms = if one { rs.iter().map(|r| f.calc_dc(&[*r], &sc, None)).collect::<Vec<_>>() } else { vec![f.calc_dc(&rs, &sc, Some(&bar))] };
    crate::rt::stop();
    let mut rows = vec![];
    for m in &ms {
        let (nr, nc) = m.size();
        for r in 0..nr {
            rows.push((0..nc).map(|c| m.get(r, c).unwrap().0.to_vec()).collect::<Vec<_>>());
        }
    }
    Ok(json!({ "rows": rows }))
}

pub fn render(env: &Env) -> Result<Value, String> {
    let a = env.a();
    let sc = scene(a["scene"].as_str().unwrap_or("s.rad"))?;
    let cam = camera(&a["cam"]);
    let (w, h) = cam.film_resolution();
    let rt = RayTracer { max_depth: un(&a["depth"]), n_shadow_samples: un(&a["shadow"]), n_ambient_samples: un(&a["samples"]).max(1) };
    env.start();
    let img = rt.render(&sc, &cam);
    crate::rt::stop();
    let px: Vec<Vec<f64>> = (0..w * h).map(|k| img.pixels[k].0.to_vec()).collect();
    // the viewing rays, for the oracle
    let rays: Vec<Value> = if a["want_rays"].as_bool().unwrap_or(false) {
        (0..w * h)
            .map(|k| {
                let (r, _) = cam.gen_ray(&CameraSample { p_film: (k % w, k / w) });
                json!([[r.origin.x, r.origin.y, r.origin.z], [r.direction.x, r.direction.y, r.direction.z]])
            })
            .collect()
    } else {
        vec![]
    };
    Ok(json!({"w": img.width, "h": img.height, "px": px, "rays": rays}))
}

pub fn matmul(env: &Env) -> Result<Value, String> {
    let a = env.a();
    let (m, k, n) = (un(&a["m"]), un(&a["k"]), un(&a["n"]));
    let mut r = crate::rng::Rng::new(un(&a["mseed"]) as u64);
    let da: Vec<f64> = (0..m * k).map(|_| r.r(-50, 50) as f64).collect();
    let db: Vec<f64> = (0..k * n).map(|_| r.r(-50, 50) as f64).collect();
    let x = matrix::Matrix::from_data(m, k, da.clone());
    let y = matrix::Matrix::from_data(k, n, db.clone());
    let mut into = matrix::Matrix::new(777.0, m, n);
    env.start();
    let r1 = x.prod_into(&y, &mut into);
    let z = &x * &y;
    crate::rt::stop();
    r1?;

    let mut want = vec![0.0; m * n];
    for r in 0..m {
        for c in 0..n {
            want[r * n + c] = (0..k).map(|q| da[r * k + q] * db[q * n + c]).sum();
        }
    }
    let get = |mm: &matrix::Matrix| (0..m * n).map(|q| mm.get(q / n, q % n).unwrap()).collect::<Vec<f64>>();
    Ok(json!({"got": get(&into), "op": get(&z), "want": want}))
}

/// Optical information of a model, computed from scratch.
pub fn optical(env: &Env) -> Result<Value, String> {
    let a = env.a();
    let (model, mut header) = super::run::load(env)?;
    let model: Model = model;
    let mut o = SolarOptions::new();
    o.set_n_solar_irradiance_points(un(&a["points"]).max(1));
    o.set_solar_ambient_divitions(un(&a["samples"]).max(1));
    o.set_solar_sky_discretization(un(&a["mf"]).max(1));
    env.start();
    let info = light::OpticalInfo::new(&o, &model, &mut header)?;
    crate::rt::stop();
    serde_json::to_value(&info).map_err(|e| e.to_string())
}
