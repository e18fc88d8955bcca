ID = "M02-tiny"
PROPERTY = "M02"
NEEDS = "A banded system with an off-diagonal element smaller than a thousandth, and unknowns large enough to notice."
WHAT = "Small (but not negligible) off-diagonal elements are skipped by the elimination, so the answer does not satisfy the equations."
EDITS = [("matrix/src/matrix.rs", "const TINY: Float = 1e-26;", "const TINY: Float = 1e-3;")]
DEPS = ["matrix"]
MAIN = '''
use matrix::Matrix;
fn main() {
    let a = Matrix::from_data(3, 3, vec![10., 5e-4, 0., 1., 10., 1., 0., 1., 10.]);
    let x = Matrix::from_data(3, 1, vec![1., 2., 3.]);
    let b = &a * &x;
    let y = a.n_diag_gaussian(&b, 3).unwrap();
    for i in 0..3 {
        let d = (y.get(i, 0).unwrap() - x.get(i, 0).unwrap()).abs();
        println!("{i}: {d}");
        if d > 1e-9 {
            std::process::exit(1);
        }
    }
}
'''
