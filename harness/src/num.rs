//! Reference mathematics in f64 and comparison helpers.

use std::f64::consts::PI;
use std::sync::OnceLock;

/// Half an ulp of an f32 of magnitude 1.
pub const U: f64 = 5.960_464_477_539_063e-8;

pub fn close(a: f32, b: f64, tol: f64) -> bool {
    let d = (a as f64 - b).abs();
    d <= tol // false for NaN
}

/// sin(t)/t
fn sinc64(t: f64) -> f64 {
    if t.abs() < 1e-9 {
        1.0
    } else {
        t.sin() / t
    }
}

/// Integral of sin(t)/t over [a,b] by composite Simpson.
pub fn si_between(a: f64, b: f64, n: usize) -> f64 {
    let n = n + n % 2;
    let h = (b - a) / n as f64;
    let mut s = sinc64(a) + sinc64(b);
    for k in 1..n {
        s += if k % 2 == 1 { 4.0 } else { 2.0 } * sinc64(a + k as f64 * h);
    }
    s * h / 3.0
}

/// Sine integral for |x| <= 60 or so.
pub fn si(x: f64) -> f64 {
    si_between(0.0, x, 2 * (16.0 + x.abs() * 8.0) as usize)
}

/// Si(pi*i/100) for i = 0..=5075
pub fn si_table() -> &'static [f64] {
    static T: OnceLock<Vec<f64>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![0.0; 5076];
        for i in 1..v.len() {
            v[i] = v[i - 1] + si_between(PI * (i - 1) as f64 / 100.0, PI * i as f64 / 100.0, 4);
        }
        v
    })
}

/// Lagrange basis weights L_i(x) on the nodes 0..n.
pub fn lagrange_weights(n: usize, x: f64) -> Vec<f64> {
    (0..n)
        .map(|i| {
            let mut w = 1.0;
            for j in 0..n {
                if i != j {
                    w *= (x - j as f64) / (i as f64 - j as f64);
                }
            }
            w
        })
        .collect()
}

/// Value and sum of absolute terms (for the error bound).
pub fn lagrange64(ys: &[f32], x: f64) -> (f64, f64) {
    let w = lagrange_weights(ys.len(), x);
    let v = ys.iter().zip(&w).map(|(y, w)| *y as f64 * w).sum();
    let c = ys.iter().zip(&w).map(|(y, w)| (*y as f64 * w).abs()).sum();
    (v, c)
}

#[derive(Clone, Copy, Debug)]
pub struct C64 {
    pub re: f64,
    pub im: f64,
}
impl C64 {
    pub fn new(re: f64, im: f64) -> C64 {
        C64 { re, im }
    }
    pub fn cis(a: f64) -> C64 {
        C64 { re: a.cos(), im: a.sin() }
    }
    pub fn abs(self) -> f64 {
        self.re.hypot(self.im)
    }
}
impl std::ops::Add for C64 {
    type Output = C64;
    fn add(self, o: C64) -> C64 {
        C64::new(self.re + o.re, self.im + o.im)
    }
}
impl std::ops::Sub for C64 {
    type Output = C64;
    fn sub(self, o: C64) -> C64 {
        C64::new(self.re - o.re, self.im - o.im)
    }
}
impl std::ops::Mul for C64 {
    type Output = C64;
    fn mul(self, o: C64) -> C64 {
        C64::new(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    }
}
impl std::ops::Mul<C64> for f64 {
    type Output = C64;
    fn mul(self, o: C64) -> C64 {
        C64::new(self * o.re, self * o.im)
    }
}
impl std::ops::Div for C64 {
    type Output = C64;
    fn div(self, o: C64) -> C64 {
        let d = o.re * o.re + o.im * o.im;
        C64::new((self.re * o.re + self.im * o.im) / d, (self.im * o.re - self.re * o.im) / d)
    }
}
