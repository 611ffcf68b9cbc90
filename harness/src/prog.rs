//! Small control programs, rendered as scripts and executed natively on the state vector.
use crate::bldg::*;
use crate::rng::*;
use model::SimulationStateElement as E;
use serde_json::{json, Value};

/// A statement: [target kind, target index, by name, source kind, source index, threshold, a*100, b, integer literal]
pub fn gen_prog(r: &mut Rng) -> Value {
    let k = r.r(1, 6);
    json!((0..k)
        .map(|_| json!([r.r(0, 2), r.r(0, 5), r.p(50), r.r(0, 13), r.r(0, 5), r.r(0, 30), r.r(-150, 150), r.r(0, 900), r.p(40)]))
        .collect::<Vec<_>>())
}

pub struct Stmt {
    pub t: E,
    pub tn: String,
    pub src: Option<(E, String)>,
    pub thr: f64,
    pub a: f64,
    pub b: f64,
    pub int: bool,
    pub lo: f64,
    pub hi: f64,
}
fn obj(kind: &str, k: usize, name: String, by_name: bool) -> String {
    if by_name {
        format!("{kind}(\"{name}\")")
    } else {
        format!("{kind}({k})")
    }
}
/// The statements that make sense for this building.
pub fn stmts(p: &Value, b: &Built) -> Vec<Stmt> {
    let mut v = vec![];
    let ops: Vec<usize> = (0..b.nfen).collect();
    for s in arr(p) {
        let by = s[2].as_bool().unwrap_or(false);
        let (ti, si) = (un(&s[1]), un(&s[4]));
        let (t, tn, lo, hi) = match i(&s[0]) {
            0 if b.nlum > 0 => (E::LuminairePowerConsumption(ti % b.nlum), format!("{}.power_consumption", obj("luminaire", ti % b.nlum, lum_name(ti % b.nlum), by)), 0.0, 3000.0),
            1 if !b.hvac.is_empty() => {
                let k = ti % b.hvac.len();
                (E::HeatingCoolingPowerConsumption(k), format!("{}.power_consumption", obj("hvac", k, hvac_name(k), by)), -2000.0, 2000.0)
            }
            2 if !ops.is_empty() => {
                let k = ops[ti % ops.len()];
                (E::FenestrationOpenFraction(k), format!("{}.open_fraction", obj("fenestration", k, fen_name(k), by)), 0.0, 1.0)
            }
            _ => continue,
        };
        let sp = si % b.ns.max(1);
        let su = si % b.nsurf.max(1);
        let space = |p: &str| format!("{}.{p}", obj("space", sp, space_name(sp), !by));
        let surf = |p: &str| format!("{}.{p}", obj("surface", su, surf_name(su), !by));
        let src = match i(&s[3]) {
            1 | 2 => Some((E::SpaceDryBulbTemperature(sp), space("dry_bulb_temperature"))),
            3 if b.nlum > 0 => Some((E::LuminairePowerConsumption(si % b.nlum), format!("{}.power_consumption", obj("luminaire", si % b.nlum, lum_name(si % b.nlum), !by)))),
            4 if !b.hvac.is_empty() => {
                let k = si % b.hvac.len();
                Some((E::HeatingCoolingPowerConsumption(k), format!("{}.power_consumption", obj("hvac", k, hvac_name(k), !by))))
            }
            5 if !ops.is_empty() => {
                let k = ops[si % ops.len()];
                Some((E::FenestrationOpenFraction(k), format!("{}.open_fraction", obj("fenestration", k, fen_name(k), !by))))
            }
            6 if b.nsurf > 0 => Some((E::SurfaceNodeTemperature(su, 0), surf("front_temperature"))),
            7 if b.nsurf > 0 => Some((E::SurfaceBackConvectiveHeatFlow(su), surf("back_convective_heat_flow"))),
            8 if b.nsurf > 0 => Some((E::SurfaceFrontConvectionCoefficient(su), surf("front_convection_coefficient"))),
            9 => Some((E::SpaceInfiltrationVolume(sp), space("infiltration_volume"))),
            10 if b.nfen > 0 => Some((E::FenestrationNodeTemperature(si % b.nfen, 0), format!("{}.front_temperature", obj("fenestration", si % b.nfen, fen_name(si % b.nfen), !by)))),
            11 if b.nsurf > 0 => Some((E::SurfaceFrontIRIrradiance(su), surf("front_ir_irradiance"))),
            12 if b.nsurf > 0 => Some((E::SurfaceNodeTemperature(su, usize::MAX), surf("back_temperature"))),
            13 if b.nfen > 0 => Some((E::FenestrationBackConvectiveHeatFlow(si % b.nfen), format!("{}.back_convective_heat_flow", obj("fenestration", si % b.nfen, fen_name(si % b.nfen), !by)))),
            _ => None,
        };
        let sc = if hi <= 1.0 { 0.001 } else { 1.0 };
        v.push(Stmt { t, tn, src, thr: i(&s[5]) as f64, a: i(&s[6]) as f64 / 100.0 * sc * 20.0, b: i(&s[7]) as f64 * sc, int: s[8].as_bool().unwrap_or(false) && hi > 1.0, lo, hi });
    }
    v
}
pub fn script_of(v: &[Stmt]) -> String {
    let mut s = String::new();
    for (k, x) in v.iter().enumerate() {
        let lit = if x.int { format!("{}", x.b as i64) } else { format!("{:?}", x.b) };
        match &x.src {
            None => s.push_str(&format!("let t{k} = {};\n", x.tn.rsplit_once('.').unwrap().0)),
            Some((_, src)) => {
                let (so, sp) = src.rsplit_once('.').unwrap();
                s.push_str(&format!("let t{k} = {};\nlet o{k} = {so};\nlet v{k} = o{k}.{sp};\n", x.tn.rsplit_once('.').unwrap().0))
            }
        }
        let prop = x.tn.rsplit_once('.').unwrap().1;
        if x.src.is_some() {
            s.push_str(&format!(
                "if v{k} < {:?} {{\n  let w = v{k} * {:?} + {:?};\n  if w < {:?} {{ w = {:?}; }}\n  if w > {:?} {{ w = {:?}; }}\n  t{k}.{prop} = w;\n}} else {{\n  t{k}.{prop} = {lit};\n}}\n",
                x.thr, x.a, x.b, x.lo, x.lo, x.hi, x.hi
            ));
        } else {
            s.push_str(&format!("t{k}.{prop} = {lit};\n"));
        }
    }
    s.push_str("let zz = 1;\n");
    s
}
fn at(e: &E, els: &[E]) -> Option<usize> {
    match e {
        E::SurfaceNodeTemperature(k, usize::MAX) => els.iter().rposition(|x| matches!(x, E::SurfaceNodeTemperature(q, _) if q == k)),
        e => els.iter().position(|x| x == e),
    }
}
/// Executes the program on the state vector.
pub fn exec(v: &[Stmt], els: &[E], st: &mut [f64]) -> Result<(), String> {
    for x in v {
        let t = at(&x.t, els).ok_or_else(|| format!("scenario: the state has no {:?}", x.t))?;
        st[t] = match &x.src {
            None => x.b,
            Some((e, _)) => {
                let q = st[at(e, els).ok_or_else(|| format!("scenario: the state has no {e:?}"))?];
                if q < x.thr {
                    (q * x.a + x.b).max(x.lo).min(x.hi)
                } else {
                    x.b
                }
            }
        };
    }
    Ok(())
}
