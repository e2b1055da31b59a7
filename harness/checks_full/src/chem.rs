//! The chemistry of hydrogen, written down independently.
#![allow(dead_code)]
pub const M_P: f64 = 1.67262192369e-24;
pub const K_B: f64 = 1.380649e-16;
pub const EV: f64 = 1.602176634e-12;
pub const SIGMA: f64 = 2.9580524545305314e-18;
pub const EXCESS: f64 = (18.028356312818811 - 13.605693) * EV;
pub const PC: f64 = 3.0857e18;
pub const YEAR: f64 = 3.15576e7;
/// Fractions closer to 0 or 1 are not distinguished from it.
pub const EPS: f64 = 1e-10;
/// Histories with more substeps are left out.
pub static BUDGET: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(5000);
pub fn budget() -> u64 {
    BUDGET.load(std::sync::atomic::Ordering::Relaxed)
}

// Rates of Rosdahl et al (2015) in cgs, as functions of temperature.
pub fn recombination(t: f64) -> f64 {
    let l = 315614.0 / t;
    2.753e-14 * l.powf(1.5) / (1.0 + (l / 2.74).powf(0.407)).powf(2.242)
}
pub fn collisions(t: f64) -> f64 {
    5.85e-11 * t.sqrt() / (1.0 + (t / 1e5).sqrt()) * (-157809.1 / t).exp()
}
pub fn cooling(t: f64, x: f64, n: f64, a: f64) -> f64 {
    let l = 315614.0 / t;
    let (ne, hi, hii) = (n * x, n * (1.0 - x), n * x);
    let exc = 7.5e-19 / (1.0 + (t / 1e5).sqrt()) * (-118348.0 / t).exp();
    let ion = 1.27e-21 * t.sqrt() / (1.0 + (t / 1e5).sqrt()) * (-157809.1 / t).exp();
    let rec = 3.435e-30 * t * l.powf(1.97) / (1.0 + (l / 2.25).powf(0.376)).powf(3.72);
    let brems = 1.42e-27 * t.sqrt();
    let cmb = 2.727 / a;
    let compton = 1.017e-37 * cmb.powi(4) * (t - cmb);
    (exc + ion) * ne * hi + (rec + brems) * ne * hii + compton * ne
}
pub fn slope(f: impl Fn(f64) -> f64, t: f64) -> f64 {
    // fourth order
    let h = 1e-3 * t;
    (8.0 * (f(t + h) - f(t - h)) - (f(t + 2.0 * h) - f(t - 2.0 * h))) / (12.0 * h)
}

#[derive(Clone, Copy, Debug)]
pub struct Setup {
    pub n: f64,
    pub length: f64,
    pub volume: f64,
    pub a: f64,
    pub safety: f64,
    pub hold: bool,
}

impl Setup {
    pub fn absorbed(&self, x: f64) -> f64 {
        -(-self.n * (1.0 - x) * SIGMA * self.length).exp_m1()
    }
    pub fn temperature_change(&self, x: f64, t: f64, rate: f64, dt: f64) -> f64 {
        let k = (5.0 / 3.0 - 1.0) / (self.n * K_B) / (1.0 + x);
        let heat = rate * self.absorbed(x) / self.volume * EXCESS;
        let net = heat - cooling(t, x, self.n, self.a);
        k * net * dt / (1.0 + k * slope(|t| cooling(t, x, self.n, self.a), t) * dt)
    }
    pub fn fraction_change(&self, x: f64, t: f64, rate: f64, dt: f64) -> f64 {
        let ne = self.n * x;
        let photo = rate * self.absorbed(x) / (self.n * (1.0 - x) * self.volume);
        let create = collisions(t) * ne + photo;
        let destroy = recombination(t) * ne;
        let mu = 1.0 / (1.0 + x);
        let dc = self.n * collisions(t) - ne * t * mu * slope(collisions, t);
        let dd = self.n * recombination(t) - ne * t * mu * slope(recombination, t);
        let j = dc - (create + destroy) - x * (dc + dd);
        dt * (create - x * (create + destroy)) / (1.0 - j * dt)
    }
    pub fn clamp(&self, s: (f64, f64), floor: (f64, f64)) -> (f64, f64) {
        let low = if self.hold { floor.0.max(EPS).min(1.0 - EPS) } else { EPS };
        (s.0.max(low).min(1.0 - EPS), if self.hold { s.1.max(floor.1) } else { s.1 })
    }
    /// Returns the recommended step and whether temperature limits it.
    pub fn step(&self, s: &mut (f64, f64), floor: (f64, f64), rate: f64, dt: f64, depth: usize, steps: &mut u64) -> (f64, bool) {
        assert!(depth < 90, "the reference does not converge");
        *s = self.clamp(*s, floor);
        *steps += 1;
        if *steps > budget() {
            return (0.0, false);
        }
        let dtemp = self.temperature_change(s.0, s.1, rate, dt);
        let r1 = (dtemp / s.1).abs();
        if !(r1 > self.safety) {
            let t = s.1 + dtemp;
            let dx = self.fraction_change(s.0, t, rate, dt);
            let r2 = (dx / s.0).abs();
            if !(r2 > self.safety) {
                *s = self.clamp((s.0 + dx, t), floor);
                return (dt * self.safety / r1.max(r2), r1 > r2);
            }
        }
        self.step(s, floor, rate, dt / 2.0, depth + 1, steps);
        self.step(s, floor, rate, dt / 2.0, depth + 1, steps)
    }
}

pub fn same(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol * a.abs().max(b.abs())
}

