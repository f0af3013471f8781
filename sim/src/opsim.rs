//! Seeded search over operation/fault histories of the in-process world (C01..C08, C15).
use crate::gen::{Kind, Profile};
use crate::oracle::*;
use crate::rng::{mix, Rng};
use crate::run::{caught, RunOut};
use crate::world::*;
use serde_json::{json, Value};

pub fn prop_of(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => Prop::C01,
        "C02" => Prop::C02,
        "C03" => Prop::C03,
        "C04" => Prop::C04,
        "C05" => Prop::C05,
        "C06" => Prop::C06,
        "C07" => Prop::C07,
        "C08" => Prop::C08,
        "C15" => Prop::C15,
        _ => return None,
    })
}

fn profile(p: Prop, seed: u64) -> Profile {
    let mut r = Rng::new(mix(seed, 3));
    let mut pr = Profile { max_types: *r.pick(&[1, 3, 5]), max_demand: *r.pick(&[2, 5, 9]), ..Default::default() };
    match p {
        Prop::C08 => {
            pr.kind = Kind::Strip;
            pr.must_fit = true;
        }
        Prop::C04 => pr.allow_no_hpg = false,
        Prop::C05 | Prop::C06 => pr.max_types = 4,
        _ => {}
    }
    pr.wide = is_wide(seed);
    pr
}

/// one run in 20 is larger than the others in every respect
fn is_wide(seed: u64) -> bool {
    mix(seed, 7) % 20 == 0
}

fn weights(p: Prop) -> [u32; 32] {
    use K::*;
    let base: &[(K, u32)] = match p {
        Prop::C01 | Prop::C02 | Prop::C03 | Prop::C04 => &[
            (Place, 16), (Remove, 12), (Refill, 6), (RemoveLayout, 1), (Solve, 4), (SolveInc, 3), (Restore, 6), (Flush, 3), (Fork, 2),
            (Crash, 1), (Persist, 1), (Load, 1), (ReReg, 1), (StripBack, 1), (StripFront, 1), (StripCentered, 1), (StripRect, 1),
            (FitStrip, 1), (DropSol, 1), (Lbf, 3), (LNew, 3), (LPlace, 30), (LRemove, 22), (LFlush, 4), (LSnap, 7), (LRestore, 8),
            (LFrom, 2), (LClone, 3), (LChangeBin, 3), (LDrop, 1), (SDrop, 1), (Burst, 3),
        ],
        Prop::C05 => &[
            (LNew, 3), (LPlace, 26), (LRemove, 20), (LFlush, 4), (LSnap, 12), (LRestore, 14), (LFrom, 4), (LClone, 5), (LChangeBin, 4),
            (LDrop, 1), (SDrop, 2),
        ],
        Prop::C06 | Prop::C07 => &[
            (Place, 30), (Remove, 18), (Refill, 8), (RemoveLayout, 4), (Solve, 6), (SolveInc, 9), (Restore, 14), (Flush, 2), (Fork, 3),
            (Crash, 2), (Persist, 3), (Load, 3), (ReReg, 3), (StripBack, 2), (StripFront, 2), (StripCentered, 2), (StripRect, 2),
            (FitStrip, 2), (DropSol, 1), (Lbf, 4), (Burst, 4),
        ],
        Prop::C08 => &[
            (Place, 24), (Remove, 8), (Refill, 3), (Solve, 3), (SolveInc, 2), (Restore, 4), (Flush, 2), (Fork, 2), (Crash, 1), (Persist, 1),
            (Load, 1), (StripBack, 6), (StripFront, 6), (StripCentered, 6), (StripRect, 6), (FitStrip, 6), (Lbf, 6), (Burst, 2),
        ],
        Prop::C15 => &[
            (Place, 30), (Remove, 10), (Refill, 3), (RemoveLayout, 1), (Solve, 12), (SolveInc, 4), (Restore, 3), (Fork, 2), (Crash, 4),
            (Persist, 16), (Load, 14), (StripBack, 2), (StripFront, 4), (StripCentered, 3), (StripRect, 4), (FitStrip, 4), (DropSol, 1),
            (Lbf, 6), (Burst, 2),
        ],
    };
    let mut w = [0; 32];
    for (k, n) in base {
        w[KINDS.iter().position(|x| x == k).unwrap()] = *n;
    }
    w
}

fn nq(p: Prop) -> usize {
    match p {
        Prop::C01 | Prop::C02 => 4,
        Prop::C03 => 3,
        Prop::C04 => 12,
        _ => 3,
    }
}

pub fn gen_ops(p: Prop, seed: u64) -> Vec<Op> {
    let mut r = Rng::new(mix(seed, 4));
    let mut w = weights(p);
    // swarm: a random subset of the step kinds per run, some of them boosted
    for x in w.iter_mut() {
        if r.chance(0.2) {
            *x = 0;
        } else if r.chance(0.12) {
            *x *= 3;
        }
    }
    use K::*;
    for k in [Place, LPlace, Remove, LRemove] {
        let i = KINDS.iter().position(|x| *x == k).unwrap();
        w[i] = w[i].max(weights(p)[i]);
    }
    // a run plays either mostly on problems or mostly on standalone layouts
    if matches!(p, Prop::C01 | Prop::C02 | Prop::C03 | Prop::C04) {
        let lay = r.chance(0.5);
        for (i, k) in KINDS.iter().enumerate() {
            let is_l = matches!(k, LNew | LPlace | LRemove | LFlush | LSnap | LRestore | LFrom | LClone | LChangeBin | LDrop | SDrop);
            if is_l != lay {
                w[i] = 0;
            }
        }
    }
    let n = if is_wide(seed) { *r.pick(&[70usize, 140, 220]) } else { *r.pick(&[8usize, 20, 40, 70]) };
    let few_workers = r.chance(0.5);
    // some runs alternate between filling up and taking (mostly deferred) out again
    let phased = r.chance(if is_wide(seed) { 0.6 } else { 0.15 });
    let (mut phase, mut left) = (0, 0);
    (0..n)
        .map(|_| {
            let mut k = KINDS[r.weighted(&w)];
            let mut o = Op { k, w: if few_workers { 0 } else { r.u32() }, a: r.u32(), b: r.u32(), c: r.u32(), q: r.u32() };
            if phased {
                if left == 0 {
                    phase = r.below(3);
                    left = n / 8 + r.below(n / 4 + 1) + 1;
                }
                left -= 1;
                if phase < 2 && r.chance(0.85) {
                    let layouts = matches!(k, LNew | LPlace | LRemove | LFlush | LSnap | LRestore | LFrom | LClone | LChangeBin | LDrop | SDrop);
                    k = match (phase, layouts) {
                        (0, false) => Place,
                        (0, true) => LPlace,
                        (_, false) => Remove,
                        (_, true) => LRemove,
                    };
                    o = Op { k, ..o };
                    if phase == 1 {
                        if r.chance(0.9) {
                            o.b |= 1;
                        }
                        o.c |= 1;
                    } else if r.chance(0.8) {
                        o.w = 0;
                    }
                }
            }
            o
        })
        .collect()
}

fn play(p: Prop, seed: u64, ops: &[Op]) -> (Option<Viol>, World, usize) {
    let piers = mix(seed, 5) % 8 == 0;
    let sseed = if piers { 1000 + mix(seed, 6) % 6 } else { seed };
    let mut pr = profile(p, sseed);
    if piers {
        pr.piers = true;
        pr.wide = false;
        pr.max_types = 2;
    }
    let mut wd = World::new(p, seed, scen(sseed, &pr), nq(p));
    for (i, op) in ops.iter().enumerate() {
        if let Err(v) = caught(|| wd.exec(op)) {
            return (Some(v), wd, i + 1);
        }
    }
    let r = caught(|| wd.finish());
    (r.err(), wd, ops.len())
}

pub fn run(id: &str, seed: u64) -> RunOut {
    let p = prop_of(id).unwrap();
    let ops = gen_ops(p, seed);
    let (v, wd, n) = match caught(|| Ok(play(p, seed, &ops))) {
        Ok(x) => x,
        Err(v) => {
            // the scenario itself could not be set up
            return RunOut { viol: Some((v, json!({"prop": id, "seed": seed, "ops": []}))), ..Default::default() };
        }
    };
    let mut out = RunOut { steps: n as u64, ..Default::default() };
    let mut h = 0u64;
    for s in &wd.states {
        h = mix(h, *s);
    }
    out.evh = mix(h, hash_str(&format!("{:?}", wd.cov.c)));
    out.states = wd.states.iter().copied().collect();
    out.inter = hash_str(&ops.iter().map(|o| format!("{:?}{}", o.k, o.w % 4)).collect::<String>());
    out.cov = wd.cov;
    if let Some(v) = v {
        let rep = json!({"prop": id, "seed": seed, "ops": &ops[..n]});
        out.viol = Some((v, rep));
    }
    out
}

pub fn replay(id: &str, rep: &Value) -> Option<Viol> {
    let p = prop_of(id)?;
    let ops: Vec<Op> = serde_json::from_value(rep["ops"].clone()).ok()?;
    let seed = rep["seed"].as_u64()?;
    match caught(|| Ok(play(p, seed, &ops))) {
        Ok((v, _, _)) => v,
        Err(v) => Some(v),
    }
}

pub fn minimise(id: &str, v: &Viol, rep: &Value) -> Value {
    let Some(p) = prop_of(id) else { return rep.clone() };
    let seed = rep["seed"].as_u64().unwrap();
    let Ok(mut ops) = serde_json::from_value::<Vec<Op>>(rep["ops"].clone()) else { return rep.clone() };
    let t0 = std::time::Instant::now();
    let fails = |o: &[Op]| match caught(|| Ok(play(p, seed, o))) {
        Ok((Some(x), _, n)) if x.class == v.class => Some(n),
        Err(x) if x.class == v.class => Some(o.len()),
        _ => None,
    };
    let mut chunk = (ops.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < ops.len() {
            if t0.elapsed().as_secs() > 40 {
                break;
            }
            let mut o = ops.clone();
            o.drain(i..(i + chunk).min(o.len()));
            if let Some(n) = fails(&o) {
                o.truncate(n.max(1).min(o.len()));
                ops = o;
                any = true;
            } else {
                i += chunk;
            }
        }
        if t0.elapsed().as_secs() > 40 || (chunk == 1 && !any) {
            break;
        }
        if !any || chunk > 1 {
            chunk = (chunk / 2).max(1);
        }
    }
    // simpler arguments
    for i in 0..ops.len() {
        for f in 0..4 {
            if t0.elapsed().as_secs() > 60 {
                break;
            }
            let mut o = ops.clone();
            match f {
                0 => o[i].w = 0,
                1 => o[i].a %= 64,
                2 => o[i].b %= 64,
                _ => o[i].c %= 64,
            }
            if fails(&o).is_some() {
                ops = o;
            }
        }
    }
    json!({"prop": id, "seed": seed, "ops": ops})
}
