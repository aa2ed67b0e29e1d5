//! Complex numbers, gates and a dense state vector over dynamically allocated qubits.
use crate::rng::Rng;
use std::ops::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct C(pub f64, pub f64);
pub const I: C = C(0., 1.);
pub const ONE: C = C(1., 0.);
pub const ZERO: C = C(0., 0.);
impl Add for C {
    type Output = C;
    fn add(self, o: C) -> C {
        C(self.0 + o.0, self.1 + o.1)
    }
}
impl AddAssign for C {
    fn add_assign(&mut self, o: C) {
        *self = *self + o
    }
}
impl Sub for C {
    type Output = C;
    fn sub(self, o: C) -> C {
        C(self.0 - o.0, self.1 - o.1)
    }
}
impl Mul for C {
    type Output = C;
    fn mul(self, o: C) -> C {
        C(self.0 * o.0 - self.1 * o.1, self.0 * o.1 + self.1 * o.0)
    }
}
impl Mul<f64> for C {
    type Output = C;
    fn mul(self, o: f64) -> C {
        C(self.0 * o, self.1 * o)
    }
}
impl Neg for C {
    type Output = C;
    fn neg(self) -> C {
        C(-self.0, -self.1)
    }
}
impl C {
    pub fn conj(self) -> C {
        C(self.0, -self.1)
    }
    pub fn n2(self) -> f64 {
        self.0 * self.0 + self.1 * self.1
    }
    pub fn abs(self) -> f64 {
        self.n2().sqrt()
    }
    pub fn cis(t: f64) -> C {
        C(t.cos(), t.sin())
    }
}

/// Square matrix, row major. For multi-qubit gates, the *first* operand is the
/// most significant bit of the index.
#[derive(Clone, Debug, PartialEq)]
pub struct Mat {
    pub n: usize,
    pub a: Vec<C>,
}
impl Mat {
    pub fn new(n: usize, a: Vec<C>) -> Self {
        assert_eq!(a.len(), n * n);
        Mat { n, a }
    }
    pub fn id(n: usize) -> Self {
        let mut a = vec![ZERO; n * n];
        for i in 0..n {
            a[i * n + i] = ONE;
        }
        Mat { n, a }
    }
    pub fn at(&self, r: usize, c: usize) -> C {
        self.a[r * self.n + c]
    }
    pub fn mul(&self, o: &Mat) -> Mat {
        let n = self.n;
        let mut a = vec![ZERO; n * n];
        for r in 0..n {
            for k in 0..n {
                let x = self.at(r, k);
                if x == ZERO {
                    continue;
                }
                for c in 0..n {
                    a[r * n + c] += x * o.at(k, c);
                }
            }
        }
        Mat { n, a }
    }
    pub fn dagger(&self) -> Mat {
        let n = self.n;
        let mut a = vec![ZERO; n * n];
        for r in 0..n {
            for c in 0..n {
                a[c * n + r] = self.at(r, c).conj();
            }
        }
        Mat { n, a }
    }
    pub fn controlled(&self, k: usize) -> Mat {
        let n = self.n << k;
        let mut m = Mat::id(n);
        let off = n - self.n;
        for r in 0..self.n {
            for c in 0..self.n {
                m.a[(off + r) * n + off + c] = self.at(r, c);
            }
        }
        m
    }
    pub fn scale(&self, s: C) -> Mat {
        Mat { n: self.n, a: self.a.iter().map(|x| *x * s).collect() }
    }
    pub fn kron(&self, o: &Mat) -> Mat {
        let n = self.n * o.n;
        let mut a = vec![ZERO; n * n];
        for r in 0..n {
            for c in 0..n {
                a[r * n + c] = self.at(r / o.n, c / o.n) * o.at(r % o.n, c % o.n);
            }
        }
        Mat { n, a }
    }
    /// Largest entry difference.
    pub fn dist(&self, o: &Mat) -> f64 {
        self.a.iter().zip(&o.a).map(|(x, y)| (*x - *y).abs()).fold(0., f64::max)
    }
    /// Distance after optimal global phase alignment.
    pub fn dist_phase(&self, o: &Mat) -> f64 {
        vec_dist_phase(&self.a, &o.a)
    }
    /// Haar-ish random unitary by Gram-Schmidt.
    pub fn random_unitary(n: usize, rng: &mut Rng) -> Mat {
        let mut cols: Vec<Vec<C>> = vec![];
        for _ in 0..n {
            let mut v: Vec<C> = (0..n).map(|_| C(rng.gauss(), rng.gauss())).collect();
            for u in &cols {
                let mut ip = ZERO;
                for i in 0..n {
                    ip += u[i].conj() * v[i];
                }
                for i in 0..n {
                    v[i] = v[i] - ip * u[i];
                }
            }
            let nn = v.iter().map(|x| x.n2()).sum::<f64>().sqrt();
            for x in &mut v {
                *x = *x * (1. / nn);
            }
            cols.push(v);
        }
        let mut a = vec![ZERO; n * n];
        for (c, col) in cols.iter().enumerate() {
            for r in 0..n {
                a[r * n + c] = col[r];
            }
        }
        Mat { n, a }
    }
}
pub fn vec_dist_phase(a: &[C], b: &[C]) -> f64 {
    assert_eq!(a.len(), b.len());
    let mut ip = ZERO;
    for (x, y) in a.iter().zip(b) {
        ip += y.conj() * *x;
    }
    let ph = if ip.abs() < 1e-12 { ONE } else { ip * (1. / ip.abs()) };
    a.iter().zip(b).map(|(x, y)| (*x - ph * *y).abs()).fold(0., f64::max)
}

// --- gates; angles in half turns -------------------------------------------
const PI: f64 = std::f64::consts::PI;
pub fn m2(a: C, b: C, c: C, d: C) -> Mat {
    Mat::new(2, vec![a, b, c, d])
}
pub fn g_h() -> Mat {
    let s = C(std::f64::consts::FRAC_1_SQRT_2, 0.);
    m2(s, s, s, -s)
}
pub fn g_x() -> Mat {
    m2(ZERO, ONE, ONE, ZERO)
}
pub fn g_y() -> Mat {
    m2(ZERO, -I, I, ZERO)
}
pub fn g_z() -> Mat {
    m2(ONE, ZERO, ZERO, -ONE)
}
pub fn g_phase(ht: f64) -> Mat {
    m2(ONE, ZERO, ZERO, C::cis(PI * ht))
}
pub fn g_rz(ht: f64) -> Mat {
    m2(C::cis(-PI * ht / 2.), ZERO, ZERO, C::cis(PI * ht / 2.))
}
pub fn g_rx(ht: f64) -> Mat {
    let (c, s) = ((PI * ht / 2.).cos(), (PI * ht / 2.).sin());
    m2(C(c, 0.), C(0., -s), C(0., -s), C(c, 0.))
}
pub fn g_ry(ht: f64) -> Mat {
    let (c, s) = ((PI * ht / 2.).cos(), (PI * ht / 2.).sin());
    m2(C(c, 0.), C(-s, 0.), C(s, 0.), C(c, 0.))
}
/// sqrt(X) with eigenvalue-1 normalisation: SX = e^{i pi/4} Rx(1/2)
pub fn g_sx() -> Mat {
    g_rx(0.5).scale(C::cis(PI / 4.))
}
pub fn g_phasedx(theta: f64, phi: f64) -> Mat {
    g_rz(phi).mul(&g_rx(theta)).mul(&g_rz(-phi))
}
pub fn g_zzphase(ht: f64) -> Mat {
    let (m, p) = (C::cis(-PI * ht / 2.), C::cis(PI * ht / 2.));
    let mut r = Mat::id(4);
    r.a[0] = m;
    r.a[5] = p;
    r.a[10] = p;
    r.a[15] = m;
    r
}
pub fn g_swap() -> Mat {
    let mut r = Mat::id(4);
    r.a[5] = ZERO;
    r.a[6] = ONE;
    r.a[9] = ONE;
    r.a[10] = ZERO;
    r
}

#[derive(Clone, Debug)]
pub struct QState {
    /// qubit ids; position i is bit i of the amplitude index
    pub qs: Vec<u32>,
    pub amp: Vec<C>,
}
impl QState {
    pub fn new() -> Self {
        QState { qs: vec![], amp: vec![ONE] }
    }
    pub fn pos(&self, q: u32) -> Option<usize> {
        self.qs.iter().position(|x| *x == q)
    }
    pub fn alloc(&mut self, q: u32) {
        assert!(self.pos(q).is_none());
        self.qs.push(q);
        let n = self.amp.len();
        self.amp.resize(2 * n, ZERO);
    }
    /// Prepare a random entangled pure state on (fresh) qubits.
    pub fn alloc_random(&mut self, qs: &[u32], rng: &mut Rng) {
        assert!(self.qs.is_empty());
        self.qs = qs.to_vec();
        let n = 1usize << qs.len();
        let mut v: Vec<C> = (0..n).map(|_| C(rng.gauss(), rng.gauss())).collect();
        let nn = v.iter().map(|x| x.n2()).sum::<f64>().sqrt();
        for x in &mut v {
            *x = *x * (1. / nn);
        }
        self.amp = v;
    }
    pub fn apply(&mut self, m: &Mat, qs: &[usize]) {
        // qs are bit positions; first is most significant of m's index
        let k = qs.len();
        assert_eq!(m.n, 1 << k);
        if k == 1 {
            let b = 1usize << qs[0];
            let (a00, a01, a10, a11) = (m.a[0], m.a[1], m.a[2], m.a[3]);
            for i in 0..self.amp.len() {
                if i & b == 0 {
                    let (x, y) = (self.amp[i], self.amp[i | b]);
                    self.amp[i] = a00 * x + a01 * y;
                    self.amp[i | b] = a10 * x + a11 * y;
                }
            }
            return;
        }
        let mask: usize = qs.iter().map(|q| 1usize << q).sum();
        let idx: Vec<usize> = (0..m.n)
            .map(|j| {
                let mut r = 0;
                for (t, q) in qs.iter().enumerate() {
                    if j >> (k - 1 - t) & 1 == 1 {
                        r |= 1 << q;
                    }
                }
                r
            })
            .collect();
        let mut tmp = vec![ZERO; m.n];
        for i in 0..self.amp.len() {
            if i & mask != 0 {
                continue;
            }
            for j in 0..m.n {
                tmp[j] = self.amp[i | idx[j]];
            }
            for r in 0..m.n {
                let mut s = ZERO;
                for c in 0..m.n {
                    s += m.a[r * m.n + c] * tmp[c];
                }
                self.amp[i | idx[r]] = s;
            }
        }
    }
    pub fn prob(&self, pos: usize, v: bool) -> f64 {
        self.amp
            .iter()
            .enumerate()
            .filter(|(i, _)| (i >> pos & 1 == 1) == v)
            .map(|(_, a)| a.n2())
            .sum()
    }
    /// Project (unnormalised).
    pub fn project(&mut self, pos: usize, v: bool) {
        for (i, a) in self.amp.iter_mut().enumerate() {
            if (i >> pos & 1 == 1) != v {
                *a = ZERO;
            }
        }
    }
    /// Remove a qubit known to be in basis state v.
    pub fn remove(&mut self, pos: usize, v: bool) {
        let n = self.amp.len() / 2;
        let mut out = Vec::with_capacity(n);
        for (i, a) in self.amp.iter().enumerate() {
            if (i >> pos & 1 == 1) == v {
                out.push(*a);
            }
        }
        assert_eq!(out.len(), n);
        self.amp = out;
        self.qs.remove(pos);
    }
    pub fn norm2(&self) -> f64 {
        self.amp.iter().map(|a| a.n2()).sum()
    }
    pub fn scale(&mut self, c: C) {
        for a in &mut self.amp {
            *a = *a * c;
        }
    }
    /// Amplitudes reordered so that `order[0]` is the most significant bit. All qubits must be listed.
    pub fn in_order(&self, order: &[u32]) -> Vec<C> {
        assert_eq!(order.len(), self.qs.len());
        let pos: Vec<usize> = order.iter().map(|q| self.pos(*q).expect("live qubit")).collect();
        let k = order.len();
        (0..1usize << k)
            .map(|j| {
                let mut i = 0;
                for (t, p) in pos.iter().enumerate() {
                    if j >> (k - 1 - t) & 1 == 1 {
                        i |= 1 << p;
                    }
                }
                self.amp[i]
            })
            .collect()
    }
}
