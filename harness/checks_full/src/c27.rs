//! C27: units, cosmological scalings, times and temperatures convert to what they are defined as.
use mc::*;
use subsweep::parameters::Cosmology;
use subsweep::units::*;
use subsweep::verif::scalings::*;

const VALUES: [f64; 9] = [0.0, 1.0, -1.0, 2.5, 1e-30, 3.3e12, -7e-5, 1e40, 0.1];

/// m, kg, s, K
const PC: f64 = 3.0857e16;
const YR: f64 = 3.15576e7;
const MSOL: f64 = 1.988477e30;
const EV: f64 = 1.602176634e-19;

fn near(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-12 * b.abs()
}

/// One unit: the value in SI, and back, and what is read for its symbol.
fn unit(
    c: &Check,
    name: &str,
    symbol: Option<&str>,
    si: f64,
    make: impl Fn(f64) -> f64,
    back: impl Fn(f64) -> f64,
    read: impl Fn(&str) -> Result<f64, String>,
) {
    for v in VALUES {
        let got = make(v);
        // Measured values are known to five digits or so.
        if !(got == v * si || (got - v * si).abs() <= 1e-4 * (v * si).abs()) {
            c.violation("unit", &format!("{v} {name} are {got:e} in SI units, not {:e}", v * si), json!({"unit": name, "value": v}));
        }
        if !near(back(v), v) {
            c.violation("unit", &format!("{v} {name} are {} in the same unit", back(v)), json!({"unit": name, "value": v}));
        }
        if let Some(s) = symbol {
            let text = format!("{v:?} {s}");
            match read(&text) {
                Ok(x) if near(x, got) => {}
                x => c.violation("symbol", &format!("{text:?} is read as {x:?}, not as {got:e}"), json!({"unit": name, "value": v})),
            }
        }
        c.count(1, 3, 1);
    }
}

macro_rules! units {
    ($c:expr, $($q:ident $name:ident $symbol:expr, $si:expr;)*) => {
        $(unit($c, stringify!($name), $symbol, $si,
            |v| $q::$name(v).value_unchecked(),
            |v| paste_in!($q, $name, v),
            |s| serde_yaml::from_str::<$q>(&format!("{s:?}")).map(|x| x.value_unchecked()).map_err(|e| e.to_string()));)*
    };
}

/// The unit's own accessor is named in_<unit>; the reciprocal of one unit is used where macros
/// cannot build that name.
macro_rules! paste_in {
    ($q:ident, $name:ident, $v:expr) => {
        $q::$name($v).value_unchecked() / $q::$name(1.0).value_unchecked()
    };
}

fn all_units(c: &Check) {
    units!(c,
        Dimensionless dimensionless None, 1.0;
        Dimensionless percent Some("%"), 0.01;
        Length meters Some("m"), 1.0;
        Length centimeters Some("cm"), 1e-2;
        Length kilometers Some("km"), 1e3;
        Length parsec Some("pc"), PC;
        Length kiloparsec Some("kpc"), 1e3 * PC;
        Length megaparsec Some("Mpc"), 1e6 * PC;
        Length gigaparsec Some("Gpc"), 1e9 * PC;
        ComovingLength comoving_parsec Some("cpc"), PC;
        ComovingLength comoving_kiloparsec Some("ckpc"), 1e3 * PC;
        ComovingLength comoving_megaparsec Some("cMpc"), 1e6 * PC;
        ComovingLength comoving_gigaparsec Some("cGpc"), 1e9 * PC;
        ComovingLengthTimesH weird_cosmological_notation_parsec None, PC;
        ComovingLengthTimesH weird_cosmological_notation_kiloparsec None, 1e3 * PC;
        ComovingLengthTimesH weird_cosmological_notation_megaparsec None, 1e6 * PC;
        Time seconds Some("s"), 1.0;
        Time milliseconds Some("ms"), 1e-3;
        Time microseconds Some("µs"), 1e-6;
        Time nanoseconds Some("ns"), 1e-9;
        Time years Some("yr"), YR;
        Time kiloyears Some("kyr"), 1e3 * YR;
        Time megayears Some("Myr"), 1e6 * YR;
        Time gigayears Some("Gyr"), 1e9 * YR;
        Mass kilograms Some("kg"), 1.0;
        Mass grams Some("g"), 1e-3;
        Mass solar Some("Msol"), MSOL;
        Velocity meters_per_second Some("m/s"), 1.0;
        Energy joules Some("J"), 1.0;
        Energy ergs None, 1e-7;
        Energy electron_volts Some("eV"), EV;
        Temperature kelvins Some("K"), 1.0;
        Area square_meters None, 1.0;
        Area square_centimeters None, 1e-4;
        EnergyPerTime ergs_per_s None, 1e-7;
        Volume3D cubic_meters Some("m^3"), 1.0;
        Volume3D cubic_centimeters Some("cm^3"), 1e-6;
        Density grams_per_cubic_centimeters Some("g/cm^3"), 1e3;
        Rate per_second Some("s^-1"), 1.0;
        PhotonRate photons_per_second None, 1.0;
        PhotonRateDensity photons_per_second_per_cubic_meter Some("s^-1 m^-3"), 1.0;
        PhotonRateDensity photons_per_second_per_cubic_centimeter Some("s^-1 cm^-3"), 1e6;
        PhotonFlux photons_per_s_per_cm_squared None, 1e4;
        CrossSection centimeters_squared None, 1e-4;
        VolumeRate centimeters_cubed_per_s None, 1e-6;
        HeatingTerm ergs_centimeters_cubed_per_s None, 1e-13;
        HeatingRate ergs_per_centimeters_cubed_per_s None, 0.1;
        NumberDensity per_centimeters_cubed None, 1e6;
    );
    // the accessors
    let l = Length::meters(1.0);
    let t = Time::seconds(1.0);
    let checks = [
        ("cm", l.in_centimeters(), 1e2),
        ("km", l.in_kilometers(), 1e-3),
        ("pc", l.in_parsec(), 1.0 / PC),
        ("kpc", l.in_kiloparsec(), 1e-3 / PC),
        ("Mpc", l.in_megaparsec(), 1e-6 / PC),
        ("ms", t.in_milliseconds(), 1e3),
        ("yr", t.in_years(), 1.0 / YR),
        ("kyr", t.in_kiloyears(), 1e-3 / YR),
        ("Myr", t.in_megayears(), 1e-6 / YR),
        ("Gyr", t.in_gigayears(), 1e-9 / YR),
        ("g", Mass::kilograms(1.0).in_grams(), 1e3),
        ("Msol", Mass::kilograms(1.0).in_solar(), 1.0 / MSOL),
        ("erg", Energy::joules(1.0).in_ergs(), 1e7),
        ("eV", Energy::joules(1.0).in_electron_volts(), 1.0 / EV),
        ("%", Dimensionless::dimensionless(0.25).in_percent(), 25.0),
        // CODATA, and Hui and Gnedin's cross sections and energies of a black body of 1e5 K
        ("the Boltzmann constant", BOLTZMANN_CONSTANT.value_unchecked(), 1.380649e-23),
        ("the proton mass", PROTON_MASS.value_unchecked(), 1.67262192369e-27),
        ("the speed of light", SPEED_OF_LIGHT.value_unchecked(), 299792458.0),
        ("the adiabatic index", GAMMA.value_unchecked(), 5.0 / 3.0),
        ("the cross section", NUMBER_WEIGHTED_AVERAGE_CROSS_SECTION.value_unchecked(), 2.95805245e-22),
        ("the energy weighted cross section", ENERGY_WEIGHTED_AVERAGE_CROSS_SECTION.value_unchecked(), 2.73525204e-22),
        ("the energy of a photon", PHOTON_AVERAGE_ENERGY.value_unchecked(), 18.0283563 * EV),
        ("the ionization energy of hydrogen", RYDBERG_CONSTANT.value_unchecked(), 13.605693 * EV),
    ];
    for (name, got, want) in checks {
        if (got - want).abs() > 1e-4 * want.abs() {
            c.violation("constant", &format!("{name}: {got:e}, not {want:e}"), json!({"what": name}));
        }
        c.count(1, 1, 1);
    }
    for v in [1.0, 5.5] {
        for (text, want) in [
            (format!("({v:?} 2.0 -3.0) kpc"), Some([v * 1e3 * PC, 2e3 * PC, -3e3 * PC])),
            (format!("({v:?} 0.0 1e3) m"), Some([v, 0.0, 1e3])),
            (format!("({v:?} 0.0) m"), None),
            (format!("({v:?} 0.0 1.0) s"), None),
        ] {
            let got = serde_yaml::from_str::<Vec3Length>(&text).ok().map(|x| x.value_unchecked().to_array());
            let ok = match (got, want) {
                (Some(a), Some(b)) => (0..3).all(|k| (a[k] - b[k]).abs() <= 1e-4 * b[k].abs()),
                (None, None) => true,
                _ => false,
            };
            if !ok {
                c.violation("symbol", &format!("{text:?} is read as {got:?}"), json!({"text": text}));
            }
            c.count(1, 1, 1);
        }
    }
}

fn cosmology(a: f64, h: f64, params: Option<(f64, f64)>) -> Cosmology {
    let p = params.map(|(o, l)| format!("\nparams: {{omega_0: {o:?}, omega_lambda: {l:?}}}")).unwrap_or_default();
    serde_yaml::from_str(&format!("a: {a:?}\nh: {h:?}{p}")).expect("a cosmology")
}

/// H0 t(a0, a1): the integral of da / (a E(a)), E^2 = omega_0 a^-3 + omega_lambda. With a = x^(2/3)
/// the integrand is smooth at 0.
fn elapsed(a0: f64, a1: f64, o: f64, l: f64) -> f64 {
    let f = |x: f64| 2.0 / 3.0 / (o + l * x * x).sqrt();
    let (x0, x1) = (a0.powf(1.5), a1.powf(1.5));
    let n = 4000;
    let d = (x1 - x0) / n as f64;
    let mut s = f(x0) + f(x1);
    for i in 1..n {
        s += f(x0 + i as f64 * d) * if i % 2 == 1 { 4.0 } else { 2.0 };
    }
    s * d / 3.0
}

fn scalings(c: &Check) {
    // every power of a and h
    for a in [1.0, 0.5, 0.1, 0.125, 0.0625, 1.5] {
        for h in [1.0, 0.7, 0.6774, 0.5] {
            let cosmo = cosmology(a, h, None);
            let f = facts(&cosmo);
            if !near(f[0], a) || !near(f[1], h) || (f[2] - (1.0 / a - 1.0)).abs() > 1e-12 {
                c.violation("cosmology", &format!("{cosmo:?} has a, h, z = {f:?}"), json!({"a": a, "h": h}));
            }
            for pa in -4..=4 {
                for ph in -4..=4 {
                    for (length, time, mass, temperature) in [(0, 0, 0, 0), (1, 0, 0, 0), (-3, 0, 1, 0), (2, -2, 1, 0), (0, 0, 0, 1)] {
                        let d = Dimension { length, time, mass, temperature, h: ph, a: pa };
                        let got = cosmo.get_factor(&d);
                        let want = (-(pa as f64) * a.ln() - ph as f64 * h.ln()).exp();
                        if !near(got, want) {
                            c.violation("scaling", &format!("a quantity of dimension {d:?} at a = {a}, h = {h} is multiplied by {got}, not by {want}"), json!({"a": a, "h": h}));
                        }
                        let n = d.non_cosmological();
                        let want = Dimension { length, time, mass, temperature, h: 0, a: 0 };
                        if n != want || d.base_conversion_factor() != 1.0 {
                            c.violation("scaling", &format!("{d:?} without scalings is {n:?}"), json!({}));
                        }
                        c.count(1, 2, 1);
                    }
                }
            }
            for v in [1.0, 0.0, 33.5] {
                let m = v * 1e3 * PC;
                let got = physical(v, &cosmo);
                let want = [a * m, a / h * m, 1.0 / (a / h * m).powi(3), 2.0 * a * m, -a * m, m];
                for k in 0..6 {
                    if (got[k] - want[k]).abs() > 1e-4 * want[k].abs() {
                        c.violation("scaling", &format!("{v} ckpc (length, /h, density, vector components, kpc) at a = {a}, h = {h} gives {got:?}, not {want:?}"), json!({"a": a, "h": h}));
                        break;
                    }
                }
                c.count(1, 1, 1);
            }
        }
    }
}

fn times(c: &Check) {
    let hubble = 3.2407789e-18;
    let n = c.pick(40, 200);
    let grid: Vec<f64> = (0..=n).map(|i| 0.001f64.powf(1.0 - i as f64 / n as f64)).chain([1.25, 2.0]).collect();
    let params = [(0.3, 0.7), (0.308983, 0.6911), (0.25, 0.75), (0.9, 0.1), (0.01, 0.99), (0.999, 0.001), (1.0, 0.0)];
    let cases: Vec<_> = params.iter().flat_map(|p| [0.7, 0.5, 1.0].map(|h| (*p, h))).collect();
    par(cases.len(), |i| {
        let ((o, l), h) = cases[i];
        for &a0 in &grid {
            let cosmo = cosmology(a0, h, Some((o, l)));
            for &a1 in &grid {
                let case = json!({"omega_0": o, "omega_lambda": l, "h": h, "a0": a0, "a1": a1});
                let want = elapsed(a0, a1, o, l) / (hubble * h);
                let total = elapsed(0.0, a0.max(a1), o, l) / (hubble * h);
                let got = seconds_between(&cosmo, a0, a1);
                if !((got - want).abs() <= 1e-4 * want.abs() + 1e-10 * total) {
                    c.violation("time", &format!("from a = {a0} to {a1} {got:e} s pass, not {want:e} s"), case.clone());
                }
                c.count(1, 1, 1);
                let r = c.guard("scale-factor", || case.clone(), || {
                    let found = scale_factor_after(&cosmo, got);
                    // found within 100 years
                    let off = elapsed(a1, found, o, l) / (hubble * h);
                    if !(off.abs() <= 101.0 * YR + 1e-9 * total) {
                        return Err(format!("{got:e} s after a = {a0} the scale factor is {found}, not {a1} ({} years off)", off / YR));
                    }
                    let spec = written(got, &cosmo);
                    let (s, z) = (spec["scale_factor"].as_f64(), spec["redshift"].as_f64());
                    let t = serde_yaml::from_value::<Time>(spec["time_elapsed"].clone()).map(|t| t.in_seconds()).ok();
                    if s != Some(found) || !z.is_some_and(|z| (z - (1.0 / found - 1.0)).abs() <= 1e-12 / found) || !t.is_some_and(|t| near(t, got)) {
                        return Err(format!("{got:e} s after a = {a0} is written as {spec:?}"));
                    }
                    Ok(())
                });
                if let Some(Err(e)) = r {
                    c.violation("scale-factor", &e, case);
                }
                c.count(1, 2, 1);
            }
        }
    });
    for t in VALUES {
        for cosmo in [Cosmology::NonCosmological, cosmology(0.5, 0.7, None)] {
            let spec = written(t, &cosmo);
            let got = serde_yaml::from_value::<Time>(spec.clone()).map(|t| t.in_seconds()).ok();
            if got != Some(t) {
                c.violation("time", &format!("{t} s without cosmology are written as {spec:?}"), json!({"t": t}));
            }
            c.count(1, 1, 1);
        }
    }
}

fn energies(c: &Check) {
    const K_B: f64 = 1.380649e-23;
    const M_P: f64 = 1.67262192369e-27;
    for t in [1.0, 10.0, 100.0, 1e4, 2e5, 1e9] {
        for x in [0.0, 1e-6, 0.1, 0.5, 0.9, 1.0] {
            let mu = 1.0 / (1.0 + x);
            let (e, back) = internal_energy(t, mu);
            let want = 1.5 * K_B * t / (mu * M_P);
            if (e - want).abs() > 1e-9 * want || !near(back, t) {
                c.violation("energy", &format!("gas of {t} K and molecular weight {mu} has {e:e} J/kg, not {want:e}, and these are {back} K"), json!({"t": t, "x": x}));
            }
            for rho in [1e-27, 1e-20, 1e-15, 1.0] {
                let (e, back) = energy_density(t, x, rho);
                let want = want * rho * 1e3;
                if (e - want).abs() > 1e-9 * want || !near(back, t) {
                    c.violation("energy", &format!("gas of {t} K, ionization {x} and {rho:e} g/cm^3 has {e:e} J/m^3, not {want:e}, and these are {back} K"), json!({"t": t, "x": x}));
                }
                c.count(1, 2, 1);
            }
        }
    }
}

fn main() {
    let c = Check::new("C27");
    c.assume("the unit_system! macro and the arithmetic of quantities are those of the stand-in for diman in harness/shims; hydrogen's ionization energy etc. are compared with CODATA to 1e-4");
    all_units(c);
    scalings(c);
    times(c);
    energies(c);
    c.info("bounds", json!("all 48 units of the unit system with 9 values, all accessors in use and all constants; all powers -4..4 of a and h for 5 dimensions, 6 scale factors and 4 values of h; all pairs of 43 (203 thorough) scale factors from 0.001 to 2 in 7 flat cosmologies with 3 values of h; 6 temperatures, 6 ionizations, 4 densities"));
    c.finish()
}
