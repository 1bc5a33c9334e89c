//! Which random draw feeds which parameter. The models need the drawn parameters, the API hides
//! them; the order of the draws is not part of the specification. The binding is learned from
//! behaviour: first by trying plain orders, then by perturbing one draw at a time.

use crate::gen::cval;
use crate::refm::Rf;

/// `eval_impl(draws)` runs the real code with these draws (None: it panicked); `eval_ref(slots)` runs the
/// model with these parameter values. Returns for every slot the index of its draw.
pub fn learn<R: Rf>(
    f: &R,
    nslots: usize,
    orders: &[Vec<usize>],
    mut eval_impl: impl FnMut(&[R::E]) -> Option<(Vec<R::E>, usize)>,
    mut eval_ref: impl FnMut(&[R::E]) -> Vec<R::E>,
    onehot_limit: usize,
) -> Result<Vec<usize>, String> {
    let val = |j: usize| f.add(&cval(f, 11, j as u64), &f.of64(2));
    let probe: Vec<R::E> = (0..nslots + 64).map(val).collect();
    let (out, used) = eval_impl(&probe).ok_or("the constructor or the permutation panicked")?;
    if used < nslots {
        return Err(format!("only {used} random draws for {nslots} independent parameters"));
    }
    for o in orders {
        let slots: Vec<R::E> = (0..nslots).map(|i| probe[o[i]].clone()).collect();
        if eval_ref(&slots) == out {
            return Ok(o.clone());
        }
    }
    // whatever the order, equal draws give every parameter the same value
    for b in [3u64, 1, 12_345_678_901, 0x7fff_fff1] {
        let b = f.of64(b);
        match eval_impl(&vec![b.clone(); used]) {
            Some((o, _)) if o == eval_ref(&vec![b.clone(); nslots]) => {}
            Some(_) => return Err("equal draws for all parameters still do not give the model's result".into()),
            None => return Err("the constructor or the permutation panicked on equal draws".into()),
        }
    }
    if nslots > onehot_limit {
        return Err("unknown".into());
    }
    let b = f.of64(3);
    let d = f.of64(1_000_003);
    let mut bound: Vec<Option<usize>> = vec![None; nslots];
    loop {
        let mut draws = vec![b.clone(); used];
        let mut slots = vec![b.clone(); nslots];
        for (i, x) in bound.iter().enumerate() {
            if let Some(j) = x {
                draws[*j] = val(*j);
                slots[i] = val(*j);
            }
        }
        let base = eval_impl(&draws).ok_or("panic")?.0;
        if base != eval_ref(&slots) {
            return Err("equal draws for all parameters still do not give the model's result".into());
        }
        let mut progress = false;
        let mut ambiguous = false;
        let free_draws: Vec<usize> = (0..used).filter(|j| !bound.contains(&Some(*j))).collect();
        let free_slots: Vec<usize> = (0..nslots).filter(|i| bound[*i].is_none()).collect();
        let refs: Vec<Vec<R::E>> = free_slots
            .iter()
            .map(|&i| {
                let mut s = slots.clone();
                s[i] = f.add(&s[i], &d);
                eval_ref(&s)
            })
            .collect();
        for j in free_draws {
            let mut x = draws.clone();
            x[j] = f.add(&x[j], &d);
            let o = eval_impl(&x).ok_or("panic")?.0;
            if o == base {
                continue;
            }
            let m: Vec<usize> = (0..free_slots.len()).filter(|&k| refs[k] == o).collect();
            if m.is_empty() {
                return Err(format!("draw {j} influences the result in a way no single parameter does"));
            }
            if m.len() == 1 {
                let s = free_slots[m[0]];
                if bound[s].is_some() {
                    return Err(format!("draw {j} and another feed the same parameter"));
                }
                bound[s] = Some(j);
                progress = true;
            }
            ambiguous |= m.len() > 1;
        }
        if bound.iter().all(|x| x.is_some()) {
            return Ok(bound.into_iter().map(|x| x.unwrap()).collect());
        }
        if !progress && ambiguous {
            return Err("unknown".into());
        }
        // parameters of this shape that nothing depends on (no internal round, no external round) may be fed by any other draw
        if !progress && refs.iter().all(|r| *r == base) {
            let mut rest = (0..used).filter(|j| !bound.contains(&Some(*j))).collect::<Vec<_>>().into_iter();
            return Ok(bound.iter().map(|b| b.unwrap_or_else(|| rest.next().unwrap())).collect());
        }
        if !progress {
            return Err("some parameters are not fed by an independent draw of their own".into());
        }
    }
}

/// the script that gives every slot its value
pub fn script<R: Rf>(f: &R, bind: &[usize], slots: &[R::E]) -> Vec<num_bigint::BigUint> {
    let n = bind.iter().max().map(|m| m + 1).unwrap_or(0);
    let mut s = vec![num_bigint::BigUint::from(1u32); n];
    for (i, &j) in bind.iter().enumerate() {
        s[j] = f.big(&slots[i]);
    }
    s
}
