//! Reference peak picking with three-valued comparisons: values that differ by less than
//! the single-precision error may be ordered either way, values computed from identical
//! data are exactly equal.
use std::cmp::Ordering;

#[derive(Clone, Copy, Debug)]
pub struct Fl {
    pub v: f64,
    pub err: f64,
    /// equal class (non-zero) means bit-identical input data, hence exactly equal values
    pub cls: u64,
}
pub const ZERO: u64 = 1;
pub fn cmp(a: &Fl, b: &Fl) -> Option<Ordering> {
    if a.cls != 0 && a.cls == b.cls {
        return Some(Ordering::Equal);
    }
    if (a.v - b.v).abs() <= a.err + b.err {
        return None;
    }
    a.v.partial_cmp(&b.v)
}
fn and(xs: &[Option<bool>]) -> Option<bool> {
    if xs.iter().any(|x| *x == Some(false)) {
        Some(false)
    } else if xs.iter().any(|x| x.is_none()) {
        None
    } else {
        Some(true)
    }
}
fn gt(a: &Fl, b: &Fl) -> Option<bool> {
    cmp(a, b).map(|o| o == Ordering::Greater)
}
fn ge(a: &Fl, b: &Fl) -> Option<bool> {
    cmp(a, b).map(|o| o != Ordering::Less)
}
/// rising peaks: above thr, greater than the previous, at least the next
pub fn rising_peaks(f: &[Fl], thr: &dyn Fn(&Fl) -> Option<bool>) -> Vec<Option<bool>> {
    let n = f.len();
    if n < 2 {
        return vec![Some(false); n];
    }
    (0..n)
        .map(|i| {
            let mut c = vec![thr(&f[i])];
            if i > 0 {
                c.push(gt(&f[i], &f[i - 1]));
            }
            if i + 1 < n {
                c.push(ge(&f[i], &f[i + 1]));
            }
            and(&c)
        })
        .collect()
}
/// value at the given percentile (nearest rank from below, as documented), as a bracket
pub fn percentile_above(f: &[Fl], p: f32) -> impl Fn(&Fl) -> Option<bool> + '_ {
    let mut o: Vec<usize> = (0..f.len()).collect();
    o.sort_by(|&a, &b| f[a].v.total_cmp(&f[b].v));
    let x = f.len() as f64 * p as f64;
    // the product is formed in single precision: near an integer either index is possible
    let lo = ((x - 1e-6 * x - 1e-9).max(0.0) as usize).min(f.len() - 1);
    let hi = ((x + 1e-6 * x + 1e-9) as usize).min(f.len() - 1);
    let exact = (x - x.round()).abs() < 1e-9;
    let (lo, hi) = if exact && (f.len() as f32 * p) as usize == x.round() as usize {
        let k = (x.round() as usize).min(f.len() - 1);
        (k, k)
    } else {
        (lo, hi)
    };
    let (a, b) = (f[o[lo]], f[o[hi]]);
    // every value that could sit at the threshold rank
    let near: Vec<Fl> = f.iter().copied().filter(|x| cmp(x, &a) != Some(Ordering::Less) && cmp(x, &b) != Some(Ordering::Greater)).collect();
    move |v: &Fl| {
        let mut any_t = false;
        let mut any_f = false;
        for t in &near {
            match gt(v, t) {
                Some(true) => any_t = true,
                Some(false) => any_f = true,
                None => {
                    any_t = true;
                    any_f = true;
                }
            }
        }
        if any_t && any_f {
            None
        } else {
            Some(any_t)
        }
    }
}
/// got must contain every certain peak and no impossible one; returns (certain, free)
pub fn check(name: &str, got: &[usize], want: &[Option<bool>], pos: &dyn Fn(usize) -> Option<usize>) -> Result<(u64, u64), String> {
    for w in got.windows(2) {
        if w[0] >= w[1] {
            return Err(format!("{name}: not strictly increasing: {:?}", w));
        }
    }
    let mut g = got.iter().copied().peekable();
    let (mut must, mut free) = (0, 0);
    for (i, w) in want.iter().enumerate() {
        let Some(p) = pos(i) else { continue };
        if let Some(&x) = g.peek() {
            if x < p {
                return Err(format!("{name}: reports position {x}, which is no frame position after {}", i));
            }
        }
        let here = g.peek() == Some(&p);
        if here {
            g.next();
        }
        match w {
            Some(true) => {
                must += 1;
                if !here {
                    return Err(format!("{name}: misses the peak at {p} (step {i} of {}); reported {:?}", want.len(), &got[..got.len().min(30)]));
                }
            }
            Some(false) => {
                if here {
                    return Err(format!("{name}: reports {p} (step {i} of {}), which is not a peak above the threshold", want.len()));
                }
            }
            None => free += 1,
        }
    }
    if let Some(x) = g.next() {
        return Err(format!("{name}: reports {x}, beyond the last frame"));
    }
    Ok((must, free))
}
