//! C18: the scoped map against a model.
use layout::adt::map::ScopedMap;
use std::collections::HashMap;
use vp::*;

fn run(t: &mut Tape, c: &mut Case, max: usize) -> Verdict {
    let mut m: ScopedMap<String, u32> = ScopedMap::new();
    let mut model: Vec<HashMap<String, u32>> = Vec::new();
    let mut log = String::new();
    let steps = t.range(1, max);
    let keys = if max > 100 { t.range(1, 90) } else { t.range(1, 12) };
    let up = if max > 100 { t.range(2, 9) } else { 3 };
    let ins = if max > 100 { *t.pick(&[8, 30, 90]) } else { 8 };
    let (mut shadow, mut pops) = (0, 0);
    for i in 0..steps {
        match t.weighted(&[up, 3, ins, 2]) {
            0 => {
                log.push_str("push; ");
                m.push();
                model.push(HashMap::new());
            }
            1 => {
                log.push_str("pop; ");
                m.pop();
                pops += model.pop().is_some() as usize;
            }
            2 => {
                if model.is_empty() {
                    continue;
                }
                let k = format!("k{}", t.below(keys));
                log.push_str(&format!("{}={}; ", k, i));
                no_panic("insert", || m.insert(&k, &(i as u32)))?;
                let n = model.len();
                shadow += model[..n - 1].iter().any(|s| s.contains_key(&k)) as usize;
                model[n - 1].insert(k, i as u32);
            }
            _ => {}
        }
        c.input(log.clone());
        ensure!(m.len() == model.len() && m.is_empty() == model.is_empty(), "{} scopes, expected {} [{}]", m.len(), model.len(), log);
        let mut flat: HashMap<String, u32> = HashMap::new();
        for s in &model {
            for (k, v) in s {
                flat.insert(k.clone(), *v);
            }
        }
        for k in 0..keys + 1 {
            let k = format!("k{}", k);
            let want = flat.get(&k).copied();
            let got = m.get(&k);
            ensure!(got == want, "get({}) = {:?}, expected {:?} [{}]", k, got, want, log);
            ensure!(m.has(&k) == want.is_some(), "has({}) = {} [{}]", k, m.has(&k), log);
        }
        let f = m.flatten();
        ensure!(f == flat, "flatten() = {:?}, expected {:?} [{}]", f, flat, log);
    }
    c.nontrivial(shadow > 0 && pops > 0);
    c.label_if(model.len() > 3, "deep");
    c.label_if(model.iter().any(|x| x.len() > 16), "large scope");
    Ok(())
}

fn short(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, 20)
}
fn long(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, 100)
}
/// Deep nesting, many keys.
fn deep(t: &mut Tape, c: &mut Case) -> Verdict {
    run(t, c, 400)
}

fn main() {
    run_main(Check {
        id: "C18",
        rule: "Random histories of push, pop and insert on the scoped map are compared with a stack of maps after every step, by all queries and by the flattened map. Non-trivial: an insertion shadows an outer scope, and a scope is popped.",
        assumptions: &["insertions happen in a scope"],
        subs: vec![
            Sub::new("short", short, 1_000_000, 8_000_000).guided(),
            Sub::new("long", long, 200_000, 1_500_000),
            Sub::new("deep", deep, 3_000, 60_000).tape(3000),
        ],
    });
}
