ID = "H01-three"
PROPERTY = "H01"
NEEDS = "Three or more panes, where the third one reflects differently than nothing, i.e. the pane behind the next one matters."
WHAT = "The absorptance of a pane of a triple glazing ignores what the third pane reflects back, so energy is not conserved."
EDITS = [("heat/src/glazing.rs", "            let g1 = Self::combine_layers(&layers[i..]);\n", "            let g1 = Self::combine_layers(&layers[i..layers.len().min(i + 2)]);\n")]
DEPS = ["heat"]
MAIN = '''
use heat::glazing::Glazing;
fn main() {
    let l = vec![Glazing::new(0.8, 0.1, 0.1), Glazing::new(0.6, 0.2, 0.1), Glazing::new(0.7, 0.1, 0.2), Glazing::new(0.3, 0.6, 0.5)];
    let a = Glazing::alphas(&l);
    // the first pane, and all of those behind it as one
    let (e, _) = l[0].combined_alphas(&Glazing::combine_layers(&l[1..]));
    println!("{a:?} {e}");
    if (a[0] - e).abs() > 1e-9 {
        std::process::exit(1);
    }
}
'''
