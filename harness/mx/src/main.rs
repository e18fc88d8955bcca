use hx::*;
use matrix::{Matrix, NDiagMatrix};
use polynomial::{poly, Polynomial};

fn mat(name: &str, r: usize, c: usize) -> Matrix {
    let mut v = Vec::new();
    for i in 0..r {
        for j in 0..c {
            v.push(sym(&format!("{name}{i}{j}"), -100.0, 100.0));
        }
    }
    Matrix::from_data(r, c, v)
}
fn dim(n: &str) -> usize {
    1 + choose(n, if thorough() { 4 } else { 3 })
}
fn at(m: &Matrix, i: usize, j: usize) -> Float {
    m.get(i, j).unwrap()
}
fn same(a: &Matrix, b: &Matrix, l: &str) {
    check(a.size() == b.size(), "same size");
    let (r, c) = a.size();
    for i in 0..r {
        for j in 0..c {
            close(at(a, i, j), at(b, i, j), 1e-9, l);
        }
    }
}
fn ref_prod(a: &Matrix, b: &Matrix) -> Matrix {
    let (n, k) = a.size();
    let (_, m) = b.size();
    let mut v = Vec::new();
    for i in 0..n {
        for j in 0..m {
            let mut e = 0.0;
            for l in 0..k {
                e += at(a, i, l) * at(b, l, j);
            }
            v.push(e);
        }
    }
    Matrix::from_data(n, m, v)
}

// ------------------------------------------------------------------ M01
fn dense_product() {
    let (n, k, m) = (dim("n"), dim("k"), dim("m"));
    let a = mat("a", n, k);
    let b = mat("b", k, m);
    let e = ref_prod(&a, &b);
    let p = &a * &b;
    check(p.size() == (n, m), "product size");
    same(&p, &e, "operator product");
    let mut into = mat("g", n, m);
    check(a.prod_into(&b, &mut into).is_ok(), "prod_into accepts matching sizes");
    same(&into, &e, "prod_into");
}
fn dense_product_mismatch() {
    let (n, k, k2, m) = (dim("n"), dim("k"), dim("k2"), dim("m"));
    let (r, c) = (dim("r"), dim("c"));
    let a = mat("a", n, k);
    let b = mat("b", k2, m);
    let mut into = mat("g", r, c);
    let ok = k == k2 && (r, c) == (n, m);
    check(a.prod_into(&b, &mut into).is_ok() == ok, "prod_into accepts exactly matching sizes");
    let mut into = mat("g", r, c);
    check(a.prod_n_diag_into(&b, 3, &mut into).is_ok() == ok, "prod_n_diag_into accepts exactly matching sizes");
    check(a.from_prod_n_diag(&b, 3).is_ok() == (k == k2), "from_prod_n_diag accepts exactly matching sizes");
}
fn dense_elementwise() {
    let (n, m) = (dim("n"), dim("m"));
    let a = mat("a", n, m);
    let b = mat("b", n, m);
    let s = sym("s", -100.0, 100.0);
    let d = sym("d", 0.01, 100.0);
    let add = &a + &b;
    let sub = &a - &b;
    let mul = &a * s;
    let div = &a / d;
    let mut adda = a.clone();
    adda += &b;
    let mut suba = a.clone();
    suba -= &b;
    let mut mula = a.clone();
    mula *= s;
    let mut diva = a.clone();
    diva /= d;
    let mut addi = mat("g", n, m);
    check(a.add_into(&b, &mut addi).is_ok(), "add_into accepts matching sizes");
    let mut subi = mat("g", n, m);
    check(a.sub_into(&b, &mut subi).is_ok(), "sub_into accepts matching sizes");
    let mut muli = mat("g", n, m);
    check(a.scale_into(s, &mut muli).is_ok(), "scale_into accepts matching sizes");
    for i in 0..n {
        for j in 0..m {
            let (x, y) = (at(&a, i, j), at(&b, i, j));
            for r in [&add, &adda, &addi] {
                close(at(r, i, j), x + y, 1e-9, "sum");
            }
            for r in [&sub, &suba, &subi] {
                close(at(r, i, j), x - y, 1e-9, "difference");
            }
            for r in [&mul, &mula, &muli] {
                close(at(r, i, j), x * s, 1e-9, "scaling");
            }
            for r in [&div, &diva] {
                close(at(r, i, j), x / d, 1e-9, "division");
            }
        }
    }
    // the operands are left alone
    same(&a, &mat("a", n, m), "left operand unchanged");
    same(&b, &mat("b", n, m), "right operand unchanged");
}
fn dense_elementwise_mismatch() {
    let (n, m) = (dim("n"), dim("m"));
    let (r, c) = (dim("r"), dim("c"));
    let (p, q) = (1 + choose("p", 3), 1 + choose("q", 2));
    let a = mat("a", n, m);
    let b = mat("b", r, c);
    let ok = (n, m) == (r, c) && (p, q) == (n, m);
    let mut into = mat("g", p, q);
    check(a.add_into(&b, &mut into).is_ok() == ok, "add_into accepts exactly matching sizes");
    let mut into = mat("g", p, q);
    check(a.sub_into(&b, &mut into).is_ok() == ok, "sub_into accepts exactly matching sizes");
    let mut into = mat("g", p, q);
    check(a.scale_into(2.0, &mut into).is_ok() == ((p, q) == (n, m)), "scale_into accepts exactly matching sizes");
}
fn dense_access() {
    let (n, m) = (dim("n"), dim("m"));
    let (i, j) = (choose("i", 4), choose("j", 4));
    let a = mat("a", n, m);
    let v = sym("v", -100.0, 100.0);
    let inside = i < n && j < m;
    check(a.get(i, j).is_ok() == inside, "get is defined exactly inside");
    let mut set = a.clone();
    check(set.set(i, j, v).is_ok() == inside, "set is defined exactly inside");
    let mut add = a.clone();
    check(add.add_to_element(i, j, v).is_ok() == inside, "add_to_element is defined exactly inside");
    let mut sca = a.clone();
    check(sca.scale_element(i, j, v).is_ok() == inside, "scale_element is defined exactly inside");
    for r in 0..n {
        for c in 0..m {
            let x = sym(&format!("a{r}{c}"), -100.0, 100.0);
            close(at(&a, r, c), x, 1e-9, "row-major layout");
            let here = r == i && c == j;
            close(at(&set, r, c), if here { v } else { x }, 1e-9, "set changes one element");
            close(at(&add, r, c), if here { x + v } else { x }, 1e-9, "add_to_element changes one element");
            close(at(&sca, r, c), if here { x * v } else { x }, 1e-9, "scale_element changes one element");
        }
    }
}
fn dense_special() {
    let n = dim("n");
    let e = Matrix::eye(n);
    let mut dv = vec![];
    for i in 0..n {
        dv.push(sym(&format!("d{i}"), -100.0, 100.0));
    }
    let d = Matrix::diag(dv.clone());
    let v = sym("v", -100.0, 100.0);
    let m = dim("m");
    let f = Matrix::new(v, n, m);
    check(e.size() == (n, n) && d.size() == (n, n) && f.size() == (n, m), "sizes");
    for i in 0..n {
        for j in 0..n {
            close(at(&e, i, j), if i == j { 1.0 } else { 0.0 }, 1e-9, "identity");
            close(at(&d, i, j), if i == j { dv[i] } else { 0.0 }, 1e-9, "diagonal");
        }
        for j in 0..m {
            close(at(&f, i, j), v, 1e-9, "filled");
        }
    }
    let a = mat("a", n, m);
    same(&(&e * &a), &a, "I A = A");
    let mut cp = f.clone();
    cp.copy_from(&a);
    same(&cp, &a, "copy_from");
    // stacking
    let r = dim("r");
    let b = mat("b", r, m);
    let mut st = a.clone();
    check(st.concat_rows(&b).is_ok(), "concat_rows accepts equal widths");
    check(st.size() == (n + r, m), "concat_rows size");
    for i in 0..n + r {
        for j in 0..m {
            let x = if i < n { at(&a, i, j) } else { at(&b, i - n, j) };
            close(at(&st, i, j), x, 1e-9, "concat_rows");
        }
    }
    let w = mat("w", r, m + 1);
    check(a.clone().concat_rows(&w).is_err(), "concat_rows refuses different widths");
}
fn dense_compare() {
    let (n, m) = (1 + choose("n", 2), 1 + choose("m", 2));
    let (r, c) = (1 + choose("r", 2), 1 + choose("c", 2));
    let a = mat("a", n, m);
    let b = mat("b", r, c);
    let mut eq = (n, m) == (r, c);
    if eq {
        for i in 0..n {
            for j in 0..m {
                if at(&a, i, j) != at(&b, i, j) {
                    eq = false;
                }
            }
        }
    }
    check(a.compare(&b) == eq, "compare is elementwise equality");
    check(a.compare(&a.clone()), "compare is reflexive");
}
fn banded(n: usize, w: usize, name: &str) -> Matrix {
    let mut v = vec![];
    for i in 0..n {
        for j in 0..n {
            let d = if i > j { i - j } else { j - i };
            v.push(if d <= (w - 1) / 2 { sym(&format!("{name}{i}{j}"), -100.0, 100.0) } else { 0.0 });
        }
    }
    Matrix::from_data(n, n, v)
}
fn banded_product() {
    let n = 1 + choose("n", if thorough() { 6 } else { 5 });
    let w = [1, 3, 5][choose("w", 3)];
    let m = 1 + choose("m", 2);
    let a = banded(n, w, "a");
    let b = mat("b", n, m);
    let e = ref_prod(&a, &b);
    let mut into = mat("g", n, m);
    check(a.prod_n_diag_into(&b, w, &mut into).is_ok(), "accepted");
    same(&into, &e, "prod_n_diag_into equals the full product");
    same(&a.from_prod_n_diag(&b, w).unwrap(), &e, "from_prod_n_diag equals the full product");
    if w == 3 {
        let mut into = mat("g", n, m);
        check(a.prod_tri_diag_into(&b, &mut into).is_ok(), "accepted");
        same(&into, &e, "prod_tri_diag_into equals the full product");
    }
}

// ------------------------------------------------------------------ M02
/// strictly diagonally dominant; every off-diagonal entry of the band is 0 or of magnitude 0.01..10
fn dominant(n: usize, w: usize) -> Matrix {
    let signs = choose("signs", 3);
    let mut slots = 0;
    for i in 0..n {
        for j in 0..n {
            let d = if i > j { i - j } else { j - i };
            if d > 0 && d <= (w - 1) / 2 {
                slots += 1;
            }
        }
    }
    let hole = choose("hole", slots + 1);
    let mut v = vec![];
    let mut k = 0;
    for i in 0..n {
        for j in 0..n {
            let d = if i > j { i - j } else { j - i };
            if d == 0 {
                let x = sym(&format!("a{i}{j}"), 50.0, 100.0);
                v.push(if signs == 2 && i == 1 { -x } else { x });
            } else if d <= (w - 1) / 2 {
                // wider bands: the outer diagonals are smaller, so that no fill-in cancels to nearly nothing
                let (lo, hi) = if w == 3 {
                    (1e-6, 10.0)
                } else if d == 1 {
                    (1.0, 10.0)
                } else {
                    (0.01, 1.0)
                };
                let x = sym(&format!("a{i}{j}"), lo, hi);
                v.push(if k == hole {
                    0.0
                } else if signs == 0 || (signs == 2 && k % 2 == 0) {
                    -x
                } else {
                    x
                });
                k += 1;
            } else {
                v.push(0.0);
            }
        }
    }
    Matrix::from_data(n, n, v)
}
fn residual(a: &Matrix, x: &Matrix, b: &Matrix, l: &str) {
    let p = ref_prod(a, x);
    let (r, c) = b.size();
    for i in 0..r {
        for j in 0..c {
            close(at(&p, i, j), at(b, i, j), 1e-6, l);
        }
    }
}
fn solve_case(n: usize, w: usize, cols: usize) {
    drop_div_zero();
    let a = dominant(n, w);
    let b = mat("b", n, cols);
    let r = a.n_diag_gaussian(&b, w);
    check(r.is_ok(), "solves diagonally dominant systems");
    if let Ok(x) = r {
        residual(&a, &x, &b, "A x = b");
        let mut a2 = a.clone();
        let mut b2 = b.clone();
        check(a2.mut_n_diag_gaussian(&mut b2, w).is_ok(), "in-place version solves");
        same(&b2, &x, "in-place version gives the same solution");
    }
}
fn solve_diag() {
    solve_case(1 + choose("n", 4), 1, 1);
}
fn solve_tri_2() {
    solve_case(2, 3, 1 + choose("c", 2));
}
fn solve_tri_3() {
    solve_case(3, 3, 1);
}
fn solve_tri_4() {
    solve_case(4, 3, 1);
}
fn solve_penta_3() {
    solve_case(3, 5, 1);
}
fn solve_singular() {
    // a zero pivot is reported, never divided by
    let n = 1 + choose("n", 3);
    let z = choose("z", n);
    let mut a = Matrix::eye(n);
    for i in 0..n {
        let x = sym(&format!("d{i}"), 1.0, 10.0);
        a.set(i, i, if i == z { 0.0 } else { x }).unwrap();
    }
    let b = mat("b", n, 1);
    check(a.n_diag_gaussian(&b, 3).is_err(), "a zero in the diagonal is reported");
}
/// whenever an answer is given, the residual is within what the convergence bound implies
fn gauss_seidel_2() {
    drop_div_zero();
    let n = 2;
    let a = mat("a", n, n);
    for i in 0..n {
        let d = at(&a, i, i);
        assume_le(1.0, d);
    }
    let b = mat("b", n, 1);
    let mut x = mat("x", n, 1);
    let it = 1 + choose("it", 2);
    let tol = 1e-3;
    if a.gauss_seidel(&b, &mut x, it, tol).is_ok() {
        let p = ref_prod(&a, &x);
        for i in 0..n {
            let mut w = 0.0;
            for j in 0..n {
                w += at(&a, i, j).abs();
            }
            le((at(&p, i, 0) - at(&b, i, 0)).abs(), w * tol, 1e-6, "residual of an accepted answer");
        }
    }
}
/// a system that is already triangular is solved in one sweep, and the second one says so
fn gauss_seidel_done() {
    drop_div_zero();
    let n = 1 + choose("n", 3);
    let mut a = mat("a", n, n);
    for i in 0..n {
        let d = at(&a, i, i);
        assume_le(1.0, d);
        for j in i + 1..n {
            a.set(i, j, 0.0).unwrap();
        }
    }
    let b = mat("b", n, 1);
    let mut x = mat("x", n, 1);
    check(a.gauss_seidel(&b, &mut x, 2, 1e-3).is_ok(), "success is reported once the answer stops changing");
    let p = ref_prod(&a, &x);
    for i in 0..n {
        let mut w = 0.0;
        for j in 0..n {
            w += at(&a, i, j).abs();
        }
        le((at(&p, i, 0) - at(&b, i, 0)).abs(), w * 1e-3, 1e-6, "residual of an accepted answer");
    }
}
fn gauss_seidel_dims() {
    let (n, m, r, c) = (dim("n"), dim("m"), dim("r"), dim("c"));
    let a = mat("a", n, m);
    let b = mat("b", r, 1);
    let mut x = mat("x", c, 1);
    if !(n == m && r == n && c == n) {
        check(a.gauss_seidel(&b, &mut x, 1, 0.1).is_err(), "sizes that do not match are refused");
    } else {
        check(a.size() == (n, n), "-");
    }
}

fn compact<const N: usize>() {
    let (n, m) = (1 + choose("n", 4), 1 + choose("m", 4));
    let s = (N - 1) / 2;
    let v = sym("v", -100.0, 100.0);
    let fresh = NDiagMatrix::<N>::new(v, n, m);
    check(fresh.size() == (n, m), "size");
    let inband = |i: usize, j: usize| j + s >= i && j <= i + s;
    let mut d = NDiagMatrix::<N>::new(0.0, n, m);
    for i in 0..n {
        for j in 0..m {
            close(fresh.get(i, j).unwrap(), if inband(i, j) { v } else { 0.0 }, 1e-9, "filled with the value given");
            let x = sym(&format!("a{i}{j}"), -100.0, 100.0);
            check(d.set(i, j, x).is_ok() == inband(i, j), "set is defined exactly on the band");
        }
    }
    let want = |i: usize, j: usize| if inband(i, j) { sym(&format!("a{i}{j}"), -100.0, 100.0) } else { 0.0 };
    let s0 = sym("s", -10.0, 10.0);
    let mut scaled = d.clone();
    scaled *= s0;
    let mut into = NDiagMatrix::<N>::new(1.0, n, m);
    check(d.scale_into(s0, &mut into).is_ok(), "scale_into accepted");
    for i in 0..n + 1 {
        for j in 0..m + 1 {
            let g = d.get(i, j);
            check(g.is_ok() == (i < n && j < m), "get is defined exactly inside");
            if let Ok(g) = g {
                close(g, want(i, j), 1e-9, "every element keeps its own value");
                close(scaled.get(i, j).unwrap(), want(i, j) * s0, 1e-9, "scaling");
                close(into.get(i, j).unwrap(), want(i, j) * s0, 1e-9, "scale_into");
            }
        }
    }
    let (p, q) = (choose("p", 4), choose("q", 4));
    let y = sym("y", -100.0, 100.0);
    let mut e = d.clone();
    let ok = p < n && q < m && inband(p, q);
    check(e.add_to_element(p, q, y).is_ok() == ok, "add_to_element is defined exactly on the band");
    let mut f = d.clone();
    check(f.scale_element(p, q, y).is_ok() == ok, "scale_element is defined exactly on the band");
    for i in 0..n {
        for j in 0..m {
            let here = ok && i == p && j == q;
            close(e.get(i, j).unwrap(), if here { want(i, j) + y } else { want(i, j) }, 1e-9, "add_to_element changes one element");
            close(f.get(i, j).unwrap(), if here { want(i, j) * y } else { want(i, j) }, 1e-9, "scale_element changes one element");
        }
    }
}
fn compact_1() {
    compact::<1>()
}
fn compact_3() {
    compact::<3>()
}
fn compact_5() {
    compact::<5>()
}
fn compact_prod_n<const N: usize>() {
    let n = 1 + choose("n", if thorough() { 6 } else { 5 });
    let s = (N - 1) / 2;
    let mut d = NDiagMatrix::<N>::new(0.0, n, n);
    let mut x = vec![];
    for i in 0..n {
        x.push(sym(&format!("x{i}"), -100.0, 100.0));
        for j in 0..n {
            if j + s >= i && j <= i + s {
                d.set(i, j, sym(&format!("a{i}{j}"), -100.0, 100.0)).unwrap();
            }
        }
    }
    let mut into = vec![sym("g", -100.0, 100.0); n];
    check(d.column_prod_into(&x, &mut into).is_ok(), "matching sizes accepted");
    for i in 0..n {
        let mut e = 0.0;
        for j in 0..n {
            e += d.get(i, j).unwrap() * x[j];
        }
        close(into[i], e, 1e-9, "product with a column");
    }
    let mut short = vec![0.0; n + 1];
    check(d.column_prod_into(&x, &mut short).is_err(), "destination of another size refused");
    check(d.column_prod_into(&short, &mut into).is_err(), "vector of another size refused");
}
fn compact_prod() {
    match choose("N", 3) {
        0 => compact_prod_n::<1>(),
        1 => compact_prod_n::<3>(),
        _ => compact_prod_n::<5>(),
    }
}
fn compact_solve() {
    drop_div_zero();
    let n = 2 + choose("n", 2);
    let a = dominant(n, 3);
    let mut d = NDiagMatrix::<3>::new(0.0, n, n);
    for i in 0..n {
        for j in 0..n {
            let k = if i > j { i - j } else { j - i };
            if k <= 1 {
                d.set(i, j, at(&a, i, j)).unwrap();
            }
        }
    }
    let b = mat("b", n, 1);
    let mut x: Vec<Float> = (0..n).map(|i| at(&b, i, 0)).collect();
    check(d.mut_gaussian(&mut x).is_ok(), "solves");
    let xm = Matrix::from_data(n, 1, x);
    residual(&a, &xm, &b, "A x = b");
}

// ------------------------------------------------------------------ P01
fn poly_eval() {
    let n = choose("n", if thorough() { 13 } else { 9 });
    let mut p = Polynomial::new();
    check(p.is_empty(), "new polynomial is empty");
    let x = sym("x", -10.0, 10.0);
    for i in 0..n {
        p.push(sym(&format!("c{i}"), -100.0, 100.0));
    }
    check(p.len() == n, "length");
    let mut e = 0.0;
    let mut xp = 1.0;
    for i in 0..n {
        e += sym(&format!("c{i}"), -100.0, 100.0) * xp;
        xp *= x;
    }
    close(p.eval(x), e, 1e-6, "sum of c_i x^i");
}
fn poly_macro() {
    let x = sym("x", -10.0, 10.0);
    let c: Vec<Float> = (0..12).map(|i| sym(&format!("c{i}"), -100.0, 100.0)).collect();
    let ps: Vec<Polynomial> = vec![
        poly![],
        poly![c[0]],
        poly![c[0], c[1]],
        poly![c[0], c[1], c[2], c[3]],
        poly![c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8], c[9], c[10], c[11]],
    ];
    let n = [0, 1, 2, 4, 12];
    for (p, n) in ps.iter().zip(n) {
        check(p.len() == n, "length");
        let mut e = 0.0;
        let mut xp = 1.0;
        for ci in c.iter().take(n) {
            e += *ci * xp;
            xp *= x;
        }
        close(p.eval(x), e, 1e-6, "sum of c_i x^i");
    }
}

fn main() {
    hx::main(vec![
        case("M01", "dense_product", dense_product),
        case("M01", "dense_product_mismatch", dense_product_mismatch),
        case("M01", "dense_elementwise", dense_elementwise),
        case("M01", "dense_elementwise_mismatch", dense_elementwise_mismatch),
        case("M01", "dense_access", dense_access),
        case("M01", "dense_special", dense_special),
        case("M01", "dense_compare", dense_compare),
        case("M01", "banded_product", banded_product),
        case("M02", "solve_diag", solve_diag),
        case("M02", "solve_tri_2", solve_tri_2),
        case("M02", "solve_tri_3", solve_tri_3),
        deep("M02", "solve_tri_4", solve_tri_4),
        case("M02", "solve_penta_3", solve_penta_3),
        case("M02", "solve_singular", solve_singular),
        case("M02", "gauss_seidel_2", gauss_seidel_2),
        case("M02", "gauss_seidel_done", gauss_seidel_done),
        case("M02", "gauss_seidel_dims", gauss_seidel_dims),
        case("M02", "compact_1", compact_1),
        case("M02", "compact_3", compact_3),
        case("M02", "compact_5", compact_5),
        case("M02", "compact_prod", compact_prod),
        case("M02", "compact_solve", compact_solve),
        case("P01", "poly_eval", poly_eval),
        case("P01", "poly_macro", poly_macro),
    ]);
}
