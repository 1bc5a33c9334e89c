//! C12 matrix helpers, C13 equivalent constants and sparse matrices.
use num_bigint::BigUint;
use pmc::explore::*;
use pmc::gen::*;
use pmc::refm::*;
use pmc::with_fld;
use zkhash::poseidon::poseidon_params::PoseidonParams;
use zkhash::poseidon2::poseidon2_params::Poseidon2Params;
use zkhash::utils::{mat_inverse, mat_transpose};

fn mshow<R: Rf>(f: &R, m: &Mat<R::E>) -> String {
    trunc(&format!("[{}]", m.iter().map(|r| show(f, r)).collect::<Vec<_>>().join(",")))
}
fn mhash<R: Rf>(f: &R, m: &Mat<R::E>) -> u64 {
    m.iter().fold(m.len() as u64, |h, r| mix(h, f.hash(r)))
}
/// inverse of one matrix
fn inverse<A: Fld>(c: &mut Ctx, m: &Mat<<A::R as Rf>::E>) -> Result<(), String> {
    let f = A::r();
    let e = f.encm::<A::F>(m);
    c.step(mhash(&f, m));
    if invertible(&f, m) {
        let y = c.call(|| mat_inverse(&e)).map_err(|x| format!("{}: mat_inverse({}), which is invertible: {x}", A::NAME, mshow(&f, m)))?;
        let y: Mat<_> = y.iter().map(|r| f.decv(r)).collect();
        c.trace(mhash(&f, &y));
        let id = ident(&f, m.len());
        let shape = y.len() == m.len() && y.iter().all(|r| r.len() == m.len());
        if !shape || mat_mat(&f, m, &y) != id || mat_mat(&f, &y, m) != id {
            return Err(format!("{}: mat_inverse({}) = {}", A::NAME, mshow(&f, m), mshow(&f, &y)));
        }
        c.sample(|| format!("{} {} -> {}", A::NAME, mshow(&f, m), mshow(&f, &y)));
        Ok(())
    } else {
        c.refuses(|| format!("{}: mat_inverse({}), which is singular", A::NAME, mshow(&f, m)), || mat_inverse(&e))
    }
}
/// transpose and products of one matrix
fn products<A: Fld>(c: &mut Ctx, m: &Mat<<A::R as Rf>::E>, o: &Mat<<A::R as Rf>::E>, x: &[<A::R as Rf>::E]) -> Result<(), String> {
    let f = A::r();
    let (e, oe, xe) = (f.encm::<A::F>(m), f.encm::<A::F>(o), f.encv::<A::F>(x));
    let want = mat_vec(&f, m, x);
    c.step(f.hash(&want));
    for (who, y) in [
        ("PoseidonParams::mat_vec_mul", c.call(|| PoseidonParams::mat_vec_mul(&e, &xe))),
        ("Poseidon2Params::mat_vec_mul", c.call(|| Poseidon2Params::mat_vec_mul(&e, &xe))),
    ] {
        let y = f.decv(&y.map_err(|p| format!("{}: {who}: {p}", A::NAME))?);
        c.trace(f.hash(&y));
        if y != want {
            return Err(format!("{}: {who}({}, {}) = {} want {}", A::NAME, mshow(&f, m), show(&f, x), show(&f, &y), show(&f, &want)));
        }
    }
    let y = c.call(|| PoseidonParams::mat_mat_mul(&e, &oe)).map_err(|p| format!("{}: mat_mat_mul: {p}", A::NAME))?;
    let y: Mat<_> = y.iter().map(|r| f.decv(r)).collect();
    let w = mat_mat(&f, m, o);
    c.step(mhash(&f, &w));
    c.trace(mhash(&f, &y));
    if y != w {
        return Err(format!("{}: mat_mat_mul({}, {}) = {} want {}", A::NAME, mshow(&f, m), mshow(&f, o), mshow(&f, &y), mshow(&f, &w)));
    }
    transpose::<A>(c, m)
}
fn transpose<A: Fld>(c: &mut Ctx, m: &Mat<<A::R as Rf>::E>) -> Result<(), String> {
    let f = A::r();
    let e = f.encm::<A::F>(m);
    let w: Mat<_> = (0..m[0].len()).map(|j| m.iter().map(|r| r[j].clone()).collect()).collect();
    let y = c.call(|| mat_transpose(&e)).map_err(|p| format!("{}: mat_transpose({}x{}): {p}", A::NAME, m.len(), m[0].len()))?;
    let y: Mat<_> = y.iter().map(|r| f.decv(r)).collect();
    c.step(mhash(&f, &w));
    c.trace(mhash(&f, &y));
    if y != w {
        return Err(format!("{}: mat_transpose({}) = {}", A::NAME, mshow(&f, m), mshow(&f, &y)));
    }
    Ok(())
}
fn square(n: usize, v: &[u64]) -> Mat<u64> {
    v.chunks(n).map(|r| r.to_vec()).collect()
}
fn cauchy<R: Rf>(f: &R, n: usize, off: u64) -> Mat<R::E> {
    let s = |k: u64| f.add(&f.of64(k * k + 3 * k + off), &f.of(&(BigUint::from(0xabcdef12345u64) * (k + 1))));
    (0..n).map(|i| (0..n).map(|j| f.inv(&f.add(&s(i as u64), &s((n + j) as u64))).unwrap_or(f.one())).collect()).collect()
}
fn nth_perm(n: usize, mut k: u64) -> Vec<usize> {
    let mut rest: Vec<usize> = (0..n).collect();
    let mut v = vec![];
    for i in (1..=n as u64).rev() {
        v.push(rest.remove((k % i) as usize));
        k /= i;
    }
    v
}
fn gen_mat<R: Rf>(f: &R, n: usize, g: impl Fn(usize, usize) -> R::E) -> Mat<R::E> {
    let _ = f;
    (0..n).map(|i| (0..n).map(|j| g(i, j)).collect()).collect()
}
/// structured matrices of every kind of pivoting
fn families<R: Rf>(f: &R, n: usize) -> Vec<Mat<R::E>> {
    let z = f.zero();
    let o = f.one();
    let s = |k: usize| cval(f, 5, k as u64);
    let nz = |k: usize| { let x = s(k); if f.is0(&x) { f.one() } else { x } };
    let (c1, c3, c5) = (cauchy(f, n, 1), cauchy(f, n, 3), cauchy(f, n, 5));
    let mut v = vec![
        ident(f, n),
        gen_mat(f, n, |_, _| z.clone()),
        gen_mat(f, n, |_, _| o.clone()),
        gen_mat(f, n, |i, j| if i + j + 1 == n { nz(i) } else { z.clone() }),
        gen_mat(f, n, |i, j| if i <= j { nz(i * n + j) } else { z.clone() }),
        gen_mat(f, n, |i, j| if i >= j { nz(i * n + j) } else { z.clone() }),
        gen_mat(f, n, |i, j| if i < j { nz(i * n + j) } else { z.clone() }),
        gen_mat(f, n, |i, j| if i + j + 1 >= n { nz(i * n + j) } else { z.clone() }),
        gen_mat(f, n, |i, j| if i == j { z.clone() } else { o.clone() }),
        gen_mat(f, n, |i, j| if i == j { z.clone() } else { nz(i * n + j) }),
        gen_mat(f, n, |i, j| s(i * n + j)),
        gen_mat(f, n, |i, j| f.pow(&f.of64(i as u64 + 1), j as u64)),
        gen_mat(f, n, |i, j| if (i + 1) % n == j { nz(i) } else { z.clone() }),
        gen_mat(f, n, |i, j| if i == (j + 1) % n { nz(i) } else { z.clone() }),
        gen_mat(f, n, |i, j| if i ^ 1 == j || (i == j && i == n - 1 && n % 2 == 1) { nz(j) } else { z.clone() }),
        gen_mat(f, n, |i, j| if i / 2 == j / 2 { nz(i * n + j) } else { z.clone() }),
        gen_mat(f, n, |i, j| f.mul(&nz(i), &nz(n + j))),
        gen_mat(f, n, |i, j| f.add(&f.mul(&nz(i), &nz(n + j)), &if i == j { o.clone() } else { z.clone() })),
        gen_mat(f, n, |i, j| f.neg(&if i == j { f.of64(2) } else { o.clone() })),
        c1,
    ];
    // a pivot that vanishes exactly at step k
    for k in 1..n {
        let mut m = c3.clone();
        // make row k agree with row 0 on the leading k+1 columns times a scalar plus nothing: leading minor k+1 vanishes
        for j in 0..=k {
            m[k][j] = f.mul(&f.of64(3), &m[0][j]);
        }
        v.push(m);
        let mut m = ident(f, n);
        m[k][k] = z.clone();
        m[k][k - 1] = o.clone();
        m[k - 1][k] = o.clone();
        m[k - 1][k - 1] = if k % 2 == 0 { z.clone() } else { o.clone() };
        v.push(m);
    }
    // rank deficiency of every shape
    for i in 0..n {
        let mut m = c5.clone();
        m[i] = vec![z.clone(); n];
        v.push(m);
        let mut m = c5.clone();
        for r in m.iter_mut() {
            r[i] = z.clone();
        }
        v.push(m);
        for j in 0..i {
            let mut m = c5.clone();
            m[i] = m[j].clone();
            v.push(m);
            let mut m = c5.clone();
            for r in m.iter_mut() {
                r[i] = f.neg(&r[j]);
            }
            v.push(m);
        }
        if n > 2 {
            let mut m = c5.clone();
            m[i] = (0..n).map(|c| (0..n).filter(|r| *r != i).fold(f.zero(), |a, r| f.add(&a, &m[r][c]))).collect();
            v.push(m);
        }
    }
    v
}

fn c12(tier: Tier) -> Vec<Space> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    let mut items: Vec<(&str, usize)> = vec![("3", 1), ("3", 2), ("3", 3), ("5", 1), ("5", 2), ("5", 3), ("7", 1), ("7", 2), ("13", 1), ("13", 2), ("17", 1), ("17", 2), ("31", 1), ("31", 2), ("257", 1)];
    if th {
        items.extend([("3", 4), ("7", 3)]);
    }
    for (fl, n) in items {
        let p: u64 = fl.parse().unwrap();
        let total = upow(p, n * n);
        let ch = total.div_ceil(4096).max(1);
        v.push(Space::new(&format!("all-matrices-F{fl}-{n}x{n}"), total.div_ceil(ch), "item = block of matrices; the inverse of every n-by-n matrix over F_p", move |k, c| {
            with_fld!(fl, A => {
                let f = A::r();
                for x in k * ch..((k + 1) * ch).min(total) {
                    let m: Mat<_> = square(n, &nth_state(p, n * n, x)).iter().map(|r| r.iter().map(|y| f.of64(*y)).collect()).collect();
                    inverse::<A>(c, &m)?;
                }
                Ok(())
            })
        }));
    }
    // 0/1 and -1/0/1 matrices over larger fields
    let mut items: Vec<(&str, u64, usize)> = vec![("17", 2, 4), ("goldi", 2, 4), ("bls", 3, 3), ("baby", 3, 3), ("vesta", 2, 3), ("pallas", 2, 3), ("bn", 2, 3), ("31", 4, 3)];
    if th {
        items.extend([("17", 2, 5), ("baby", 3, 4)]);
    }
    for (fl, b, n) in items {
        let total = upow(b, n * n);
        let ch = total.div_ceil(4096).max(1);
        v.push(Space::new(&format!("sign-matrices-{fl}-{b}-{n}x{n}"), total.div_ceil(ch), "item = block of matrices; the inverse of every n-by-n matrix with entries in {0,1}, {0,1,-1} or {0,1,-1,2}", move |k, c| {
            with_fld!(fl, A => {
                let f = A::r();
                let al = [f.zero(), f.one(), f.neg(&f.one()), f.of64(2)];
                for x in k * ch..((k + 1) * ch).min(total) {
                    let m: Mat<_> = square(n, &nth_state(b, n * n, x)).iter().map(|r| r.iter().map(|y| al[*y as usize].clone()).collect()).collect();
                    inverse::<A>(c, &m)?;
                }
                Ok(())
            })
        }));
    }
    let mut items = vec![];
    for n in 2..=(if th { 9usize } else { 7 }) {
        let fact: u64 = (1..=n as u64).product();
        let ch = fact.div_ceil(256).max(1);
        for k in 0..fact.div_ceil(ch) {
            items.push((n, k * ch, ((k + 1) * ch).min(fact)));
        }
    }
    v.push(Space::list("permutation-matrices", "item = (size, block); the inverse of every permutation matrix, plain, scaled, and with one row or column merged into another", items, |&(n, a, b), c| {
        let f = Goldi::r();
        for k in a..b {
            let p = nth_perm(n, k);
            for scale in [false, true] {
                let mut m = gen_mat(&f, n, |i, j| if p[i] == j { if scale { cval(&f, 5, i as u64) } else { 1 } } else { 0 });
                inverse::<Goldi>(c, &m)?;
                m[0] = (0..n).map(|j| f.add(&m[0][j], &m[n - 1][j])).collect();
                inverse::<Goldi>(c, &m)?;
                for r in m.iter_mut() {
                    r[n / 2] = f.add(&r[n / 2], &r[0]);
                }
                inverse::<Goldi>(c, &m)?;
            }
        }
        Ok(())
    }));
    let mut items = vec![];
    for fl in ["3", "5", "7", "17", "257"].into_iter().chain(REAL) {
        for n in 1..=(if th { 32usize } else { 24 }) {
            if th || n <= 9 || n % 4 == 0 {
                items.push((fl, n));
            }
        }
    }
    items.sort_by_key(|x| std::cmp::Reverse(x.1));
    v.push(Space::list("structured-matrices", "item = (field, size up to 24); structured matrices with every position of a vanishing pivot and every shape of rank deficiency; their inverses", items.clone(), |&(fl, n), c| {
        with_fld!(fl, A => {
            let f = A::r();
            families(&f, n).iter().try_for_each(|m| inverse::<A>(c, m))
        })
    }));
    let mut it2 = vec![];
    for fl in ["3", "7", "goldi", "bls"] {
        for n in 2..=(if th { 7usize } else { 5 }) {
            it2.push((fl, n));
        }
    }
    v.push(Space::list("entry-deviations", "item = (field, size); structured backgrounds with every one or two entries replaced by boundary values; inverse and products", it2, move |&(fl, n), c| {
        with_fld!(fl, A => {
            let f = A::r();
            let o = cauchy(&f, n, 7);
            let x: Vec<_> = (0..n).map(|i| cval(&f, 5, i as u64)).collect();
            for bg in [ident(&f, n), gen_mat(&f, n, |_, _| f.one()), cauchy(&f, n, 1), gen_mat(&f, n, |i, j| if i == j { f.zero() } else { f.one() })] {
                let flat: Vec<_> = bg.concat();
                deviations(&f, &[flat], &alphabet(&f, 4), 2, |m| {
                    let m: Mat<_> = m.chunks(n).map(|r| r.to_vec()).collect();
                    inverse::<A>(c, &m)?;
                    products::<A>(c, &m, &o, &x)?;
                    products::<A>(c, &o, &m, &x)
                })?;
            }
            Ok(())
        })
    }));
    v.push(Space::list("products", "item = (field, size); products of the structured matrices with each other, with unit vectors and with every vector within one word of the backgrounds", items, |&(fl, n), c| {
        with_fld!(fl, A => {
            let f = A::r();
            let ms = families(&f, n);
            let k = ms.len().min(20 + 2 * n);
            for (i, m) in ms[..k].iter().enumerate() {
                for (j, o) in ms[..20].iter().enumerate() {
                    if n > 8 && (i + j) % 5 != 0 { continue; }
                    products::<A>(c, m, o, &backgrounds(&f, n, 11)[(i + j) % 11])?;
                }
            }
            let id = ident(&f, n);
            let m = cauchy(&f, n, 2);
            for i in 0..n {
                products::<A>(c, &m, &id, &id[i])?;
            }
            let (e, al) = (f.encm::<<A as Fld>::F>(&m), alphabet(&f, 4));
            deviations(&f, &backgrounds(&f, n, 5), &al, 1, |x| {
                let xe = f.encv::<<A as Fld>::F>(x);
                let w = mat_vec(&f, &m, x);
                let (a, b) = c.call(|| (PoseidonParams::mat_vec_mul(&e, &xe), Poseidon2Params::mat_vec_mul(&e, &xe)))?;
                c.trace(f.hash(&w));
                if f.decv(&a) != w || f.decv(&b) != w { return Err(format!("{fl}: mat_vec_mul of the {n}x{n} Cauchy matrix and {}", show(&f, x))); }
                Ok(())
            })
        })
    }));
    // all products over F_3
    v.push(Space::new("all-products-F3", 81 * 81, "item = ordered pair of 2x2 matrices over F_3; every vector", |k, c| {
        let m = square(2, &nth_state(3, 4, k / 81));
        let o = square(2, &nth_state(3, 4, k % 81));
        (0..9).try_for_each(|x| products::<T3>(c, &m, &o, &nth_state(3, 2, x)))
    }));
    let mut items = vec![];
    for (fl, ns) in [("7", vec![25usize, 28, 31, 32, 33, 40, 48, 63, 64, 65, 100, 128]), ("baby", vec![25, 32, 33, 48, 64]), ("goldi", vec![26, 32, 33, 48, 63, 64, 65, 129]), ("bls", vec![27, 32, 33, 48])] {
        items.extend(ns.into_iter().map(|n| (fl, n)));
    }
    items.sort_by_key(|x| std::cmp::Reverse(x.1));
    v.push(Space::list("large-matrices", "item = (field, size up to 129); a dozen structured and dense matrices, half of them singular; inverse, product with another and with a vector", items, |&(fl, n), c| {
        with_fld!(fl, A => {
            let f = A::r();
            let (z, o) = (f.zero(), f.one());
            let dense = gen_mat(&f, n, |i, j| gval(&f, 3, (i * n + j) as u64));
            let mut dup = dense.clone();
            dup[n - 1] = dup[0].clone();
            let mut low = dense.clone();
            for r in low.iter_mut().enumerate() { for j in r.0 + 1..n { r.1[j] = z.clone(); } r.1[r.0] = f.of64(r.0 as u64 % 2 + 1); }
            let up: Mat<_> = (0..n).map(|i| (0..n).map(|j| low[j][i].clone()).collect()).collect();
            let mut late = low.clone();
            late.swap(0, n - 1);
            let mut sing = up.clone();
            sing[n / 2][n / 2] = z.clone();
            let x: Vec<_> = (0..n).map(|i| gval(&f, 4, i as u64)).collect();
            for m in [
                dense.clone(), dup, low, up, late, sing,
                gen_mat(&f, n, |i, j| if i + j == n - 1 { f.of64(2) } else { z.clone() }),
                gen_mat(&f, n, |i, j| if i == j { f.of64(2) } else if i.abs_diff(j) == 1 { o.clone() } else { z.clone() }),
                gen_mat(&f, n, |i, j| if j == (i + 1) % n { o.clone() } else { z.clone() }),
                gen_mat(&f, n, |i, j| if i == j { f.of64(i as u64 + 2) } else { o.clone() }),
                gen_mat(&f, n, |_, _| o.clone()),
                gen_mat(&f, n, |_, _| z.clone()),
            ] {
                inverse::<A>(c, &m)?;
                products::<A>(c, &m, &dense, &x)?;
            }
            Ok(())
        })
    }));
    let mut items = vec![(1usize, 300usize), (300, 1), (64, 65), (65, 64), (2, 1000), (1000, 2), (257, 256), (256, 257), (128, 3), (3, 129)];
    for r in 1..=(if th { 40usize } else { 26 }) {
        for cc in 1..=(if th { 40usize } else { 26 }) {
            items.push((r, cc));
        }
    }
    v.push(Space::list("transposes", "item = shape (rows, columns); the transpose of a matrix with all entries different, over three fields", items, |&(r, k), c| {
        macro_rules! go { ($a:ident) => {{ let f = $a::r(); transpose::<$a>(c, &(0..r).map(|i| (0..k).map(|j| f.of64((i * k + j + 1) as u64)).collect()).collect())?; }} }
        go!(Goldi);
        go!(Bls);
        go!(T257);
        Ok(())
    }));
    v
}

// ------------------------------------------------------------------ C13

struct Part<R: Rf> {
    f: R,
    t: usize,
    rp: usize,
    m: Mat<R::E>,
    /// all rows, the partial ones start at `beg`
    rc: Mat<R::E>,
    beg: usize,
}
impl<R: Rf> Part<R> {
    fn dense(&self, x: &[R::E], consts: bool, sbox: &dyn Fn(&R::E) -> R::E, c: &mut Ctx) -> Vec<R::E> {
        let f = &self.f;
        let mut s = x.to_vec();
        for r in 0..self.rp {
            if consts {
                for i in 0..self.t {
                    s[i] = f.add(&s[i], &self.rc[self.beg + r][i]);
                }
            }
            s[0] = sbox(&s[0]);
            s = mat_vec(f, &self.m, &s);
            c.step(mix(r as u64, f.hash(&s)));
        }
        s
    }
}
type Xs<E> = Vec<Vec<E>>;
fn equivalents<A: Fld>(c: &mut Ctx, p: &Part<A::R>, xs: &dyn Fn(&mut dyn FnMut(&[<A::R as Rf>::E]) -> Result<(), String>) -> Result<(), String>, which: u8) -> Result<(), String> {
    let f = &p.f;
    let (t, rp) = (p.t, p.rp);
    let desc = || format!("{} t={t} rounds_p={rp} first partial row {} matrix {} constants {}", A::NAME, p.beg, mshow(f, &p.m), mshow(f, &p.rc));
    let me = f.encm::<A::F>(&p.m);
    let rce = f.encm::<A::F>(&p.rc);
    let boxes: [&dyn Fn(&<A::R as Rf>::E) -> <A::R as Rf>::E; 3] = [&|x| f.powd(x, 3), &|x| f.powd(x, 5), &|x| if f.is0(x) { f.one() } else { f.neg(x) }];
    if which & 1 != 0 {
        for (who, opt) in [
            ("PoseidonParams", c.call(|| PoseidonParams::equivalent_round_constants(&rce, &me, p.beg, rp))),
            ("Poseidon2Params", c.call(|| Poseidon2Params::equivalent_round_constants(&rce, &me, p.beg, rp))),
        ] {
            if !invertible(f, &p.m) {
                if opt.is_ok() {
                    return Err(format!("{who}::equivalent_round_constants returned a value for a singular matrix: {}", desc()));
                }
                c.cov.refusals += 1;
                continue;
            }
            let opt = opt.map_err(|e| format!("{who}::equivalent_round_constants: {e}: {}", desc()))?;
            let opt: Mat<_> = opt.iter().map(|r| f.decv(r)).collect();
            let shape = opt.len() >= rp && opt[0].len() == t && opt[1..rp].iter().all(|r| !r.is_empty());
            if !shape {
                return Err(format!("{who}::equivalent_round_constants: shape {:?}: {}", opt.iter().map(|r| r.len()).collect::<Vec<_>>(), desc()));
            }
            xs(&mut |x| {
                for b in boxes {
                    let want = p.dense(x, true, b, c);
                    let mut s: Vec<_> = x.iter().zip(&opt[0]).map(|(a, b)| f.add(a, b)).collect();
                    for r in 0..rp {
                        s[0] = b(&s[0]);
                        if r + 1 < rp {
                            s[0] = f.add(&s[0], &opt[r + 1][0]);
                        }
                        s = mat_vec(f, &p.m, &s);
                    }
                    c.trace(f.hash(&s));
                    if s != want {
                        return Err(format!("{who}::equivalent_round_constants: from state {} the partial rounds give {} instead of {}: {}", show(f, x), show(f, &s), show(f, &want), desc()));
                    }
                }
                Ok(())
            })?;
        }
    }
    if which & 2 != 0 {
        let hat: Mat<_> = (1..t).map(|i| p.m[i][1..].to_vec()).collect();
        let r = c.call(|| PoseidonParams::equivalent_matrices(&me, t, rp));
        if !invertible(f, &hat) {
            if let Ok((mi, _, _)) = r {
                return Err(format!("equivalent_matrices returned a value although no sparse form exists: {:?}: {}", mi.len(), desc()));
            }
            c.cov.refusals += 1;
            return Ok(());
        }
        let (mi, v, w) = r.map_err(|e| format!("equivalent_matrices: {e}: {}", desc()))?;
        let (mi, v, w): (Mat<_>, Mat<_>, Mat<_>) = (mi.iter().map(|r| f.decv(r)).collect(), v.iter().map(|r| f.decv(r)).collect(), w.iter().map(|r| f.decv(r)).collect());
        if mi.len() != t || mi.iter().any(|r| r.len() != t) || v.len() != rp || w.len() != rp || v.iter().chain(&w).any(|r| r.len() != t - 1) {
            return Err(format!("equivalent_matrices: shapes m_i {}, v {}, w_hat {}: {}", mi.len(), v.len(), w.len(), desc()));
        }
        // the first word is untouched by the initial matrix
        xs(&mut |x| {
            for b in boxes {
                let want = p.dense(x, false, b, c);
                let mut s = mat_vec(f, &mi, x);
                if s[0] != x[0] {
                    return Err(format!("equivalent_matrices: the initial matrix changes the first word: {}", desc()));
                }
                for r in 0..rp {
                    let k = rp - 1 - r;
                    s[0] = b(&s[0]);
                    let mut y = vec![f.mul(&p.m[0][0], &s[0])];
                    for i in 1..t {
                        y[0] = f.add(&y[0], &f.mul(&w[k][i - 1], &s[i]));
                        y.push(f.add(&s[i], &f.mul(&v[k][i - 1], &s[0])));
                    }
                    s = y;
                }
                c.trace(f.hash(&s));
                if s != want {
                    return Err(format!("equivalent_matrices: from state {} the sparse partial rounds give {} instead of {}: {}", show(f, x), show(f, &s), show(f, &want), desc()));
                }
            }
            Ok(())
        })?;
        c.sample(desc);
    }
    Ok(())
}
fn all_states(p: u64, t: usize) -> impl Fn(&mut dyn FnMut(&[u64]) -> Result<(), String>) -> Result<(), String> {
    move |g| (0..upow(p, t)).try_for_each(|k| g(&nth_state(p, t, k)))
}
fn listed<E: Clone>(v: Xs<E>) -> impl Fn(&mut dyn FnMut(&[E]) -> Result<(), String>) -> Result<(), String> {
    move |g| v.iter().try_for_each(|x| g(x))
}
/// rows before and after the partial ones that must not matter
fn table<R: Rf>(f: &R, t: usize, beg: usize, after: usize, part: Mat<R::E>) -> Mat<R::E> {
    let junk = |k: usize| (0..t).map(|i| f.add(&cval(f, 9, (k * t + i) as u64), &f.one())).collect::<Vec<_>>();
    let mut v: Mat<R::E> = (0..beg).map(junk).collect();
    v.extend(part);
    v.extend((0..after).map(|k| junk(k + 100)));
    v
}
fn c13(tier: Tier) -> Vec<Space> {
    let th = tier == Tier::Thorough;
    let mut v = vec![];
    // every matrix
    for (fl, t, rps) in [("3", 2usize, vec![1usize, 2, 3, 4, 5]), ("5", 2, vec![1, 2, 3]), ("7", 2, vec![1, 2, 4]), ("3", 3, vec![1, 2, 3]), ("17", 2, vec![2, 3])] {
        let p: u64 = fl.parse().unwrap();
        let total = upow(p, t * t);
        let ch = total.div_ceil(2048).max(1);
        v.push(Space::new(&format!("all-matrices-F{fl}-{t}x{t}"), total.div_ceil(ch), "item = block of matrices; every matrix over F_p, several round numbers, two constant patterns, every state (F_17, F_3 width 3: listed states), three S-box maps", move |k, c| {
            macro_rules! go { ($a:ident) => {{
                let f = $a::r();
                for x in k * ch..((k + 1) * ch).min(total) {
                    for &rp in &rps {
                        for pat in [3u64, 5] {
                            let beg = (x % 4) as usize;
                            let rows = (0..rp).map(|r| (0..t).map(|i| cval(&f, pat, (r * t + i) as u64)).collect()).collect();
                            let part = Part { m: square(t, &nth_state(p, t * t, x)), rc: table(&f, t, beg, (x % 3) as usize, rows), f: f.clone(), t, rp, beg };
                            if p == 17 || (t == 3 && pat == 3) {
                                equivalents::<$a>(c, &part, &listed(backgrounds(&f, t, 5)), 3)?;
                            } else {
                                equivalents::<$a>(c, &part, &all_states(p, t), 3)?;
                            }
                        }
                    }
                }
                Ok(())
            }} }
            match fl { "3" => go!(T3), "5" => go!(T5), "7" => go!(T7), _ => go!(T17) }
        }));
    }
    // every constant table
    let mut items = vec![];
    for (fl, t, rp) in [("3", 2usize, 1usize), ("3", 2, 2), ("3", 2, 3), ("3", 3, 1), ("3", 3, 2), ("5", 2, 1), ("5", 2, 2), ("7", 2, 1), ("7", 2, 2)].into_iter().chain(if th { vec![("3", 2, 4), ("5", 2, 3), ("3", 4, 2)] } else { vec![] }) {
        let p: u64 = fl.parse().unwrap();
        let total = upow(p, t * rp);
        let ch = total.div_ceil(64).max(1);
        for k in 0..total.div_ceil(ch) {
            items.push((fl, p, t, rp, k * ch, ((k + 1) * ch).min(total)));
        }
    }
    v.push(Space::list("all-constants", "item = (field, width, partial rounds, block of constant tables); every table of the partial rounds, matrices in several positions, every state", items, |&(fl, p, t, rp, a, b), c| {
        macro_rules! go { ($a:ident) => {{
            let f = $a::r();
            let ms = [square(t, &(0..t * t).map(|k| if k / t == k % t { 2 } else { 1 }).collect::<Vec<_>>()), square(t, &(0..t * t).map(|k| u64::from(k / t <= k % t)).collect::<Vec<_>>()), square(t, &(0..t * t).map(|k| u64::from(k / t + k % t >= t - 1)).collect::<Vec<_>>())];
            for x in a..b {
                for (k, m) in ms.iter().enumerate() {
                    let part = Part { m: m.clone(), rc: table(&f, t, k, 2 - k, square(t, &nth_state(p, t * rp, x))), f: f.clone(), t, rp, beg: k };
                    equivalents::<$a>(c, &part, &all_states(p, t), 1)?;
                }
            }
            Ok(())
        }} }
        match fl { "3" => go!(T3), "5" => go!(T5), _ => go!(T7) }
    }));
    // sizes
    let mut items = vec![];
    for fl in ["257"].into_iter().chain(REAL) {
        for t in 2..=24usize {
            for rp in [1usize, 2, 3, 5, 8, 13] {
                if !th && t > 8 && (t % 4 != 0 || rp > 5) {
                    continue;
                }
                items.push((fl, t, rp));
            }
        }
        for rp in [21usize, 22, 56, 57, 60, 63, 64, 65, 127, 128, 129, 255, 256, 257, 513, 1025] {
            for t in [2usize, 3, 4] {
                if rp < 100 || t < 4 && ["257", "baby", "goldi"].contains(&fl) || t == 2 && rp < 600 {
                    items.push((fl, t, rp));
                }
            }
        }
    }
    items.sort_by_key(|x| std::cmp::Reverse(x.1 * x.1 * x.2));
    v.push(Space::list("sizes", "item = (field, width to 24, partial rounds); several matrices and offsets; states within one word of the backgrounds", items, |&(fl, t, rp), c| {
        with_fld!(fl, A => {
            let f = A::r();
            let diag: Vec<_> = (0..t).map(|i| cval(&f, 5, i as u64)).collect();
            for (k, m) in [cauchy(&f, t, 1), ones_plus_diag(&f, &diag), gen_mat(&f, t, |i, j| f.of64(if i == j { 2 } else { 1 })), gen_mat(&f, t, |i, j| if i <= j { f.of64((i + 2 * j + 1) as u64) } else { f.zero() })].into_iter().enumerate() {
                for pat in [5u64, 1] {
                    let rows = (0..rp).map(|r| (0..t).map(|i| cval(&f, pat, (r * t + i) as u64)).collect()).collect();
                    let part = Part { m: m.clone(), rc: table(&f, t, k, 3 - k, rows), f: f.clone(), t, rp, beg: k };
                    let mut xs = vec![];
                    deviations(&f, &backgrounds(&f, t, if t > 8 { 2 } else { 3 }), &alphabet(&f, 3)[1..], if t > 4 { 0 } else { 1 }, |x| { xs.push(x.to_vec()); Ok(()) })?;
                    equivalents::<A>(c, &part, &listed(xs), 3)?;
                }
            }
            Ok(())
        })
    }));
    // word boundaries and carries
    let mut items = vec![];
    for fl in REAL {
        let small = fl == "baby" || fl == "goldi";
        for t in [2usize, 3, 5] {
            for z in 0..if th || small { 64usize } else { 20 } {
                items.push((fl, t, z, small));
            }
        }
    }
    v.push(Space::list("boundary-words", "item = (field, width, matrix entry out of 45 boundary values; 255-bit fields: 20): matrices whose inverse (two kinds), diagonal or all of whose entries are that value and the constants each of the boundary values", items, move |&(fl, t, z, small), c| {
        with_fld!(fl, A => {
            let f = A::r();
            let al = alphabet(&f, if th || small { 64 } else { 20 });
            let Some(z) = al.get(z) else { return Ok(()) };
            let xs = listed(vec![backgrounds(&f, t, 5).pop().unwrap()]);
            for w in &al {
                let one = |i, j| if i == j { f.one() } else { f.zero() };
                let nz = f.neg(z);
                let mut ms = vec![
                    gen_mat(&f, t, |i, j| if (i, j) == (0, t - 1) { nz.clone() } else { one(i, j) }),
                    gen_mat(&f, t, |i, j| if (i, j) == (t - 1, 0) { nz.clone() } else { one(i, j) }),
                    gen_mat(&f, t, |i, j| if i == j { f.add(z, &f.of64(i as u64)) } else if (i + j) % 2 == 1 { w.clone() } else { f.one() }),
                    gen_mat(&f, t, |i, j| if i == j { f.one() } else if i < j { z.clone() } else { f.zero() }),
                ];
                if let Some(iz) = f.inv(z) {
                    ms.push(gen_mat(&f, t, |i, j| if i == j { iz.clone() } else { f.zero() }));
                }
                for m in ms {
                    for rp in [2usize, 3] {
                        let rows = (0..rp).map(|r| (0..t).map(|i| if r + 1 == rp || i == 0 { w.clone() } else { cval(&f, 5, (r * t + i) as u64) }).collect()).collect();
                        let part = Part { m: m.clone(), rc: table(&f, t, 1, 1, rows), f: f.clone(), t, rp, beg: 1 };
                        equivalents::<A>(c, &part, &xs, 3)?;
                    }
                }
            }
            Ok(())
        })
    }));
    v
}

fn main() {
    main_with(|c, t| match c {
        "C12" => c12(t),
        "C13" => c13(t),
        _ => vec![],
    })
}
