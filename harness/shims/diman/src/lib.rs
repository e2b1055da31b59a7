//! Stand-in for the `diman` crate: quantities with compile-time dimensions.
pub use diman_macros::{dimension, unit_system};

pub type Product<A, B> = <A as std::ops::Mul<B>>::Output;
pub type Quotient<A, B> = <A as std::ops::Div<B>>::Output;

/// "3.0 kpc", "(1.0 2.0 3.0) kpc", "1e-3 kg m^-3": values, then symbols with exponents.
pub fn split_quantity(s: &str) -> Result<(Vec<f64>, Vec<(String, i32)>), String> {
    let s = s.trim();
    let (values, rest) = if let Some(inner) = s.strip_prefix('(').or_else(|| s.strip_prefix('[')) {
        let end = inner
            .find(|c| c == ')' || c == ']')
            .ok_or_else(|| format!("unclosed bracket in {s:?}"))?;
        (inner[..end].to_string(), inner[end + 1..].to_string())
    } else {
        match s.split_once(char::is_whitespace) {
            Some((a, b)) => (a.to_string(), b.to_string()),
            None => (s.to_string(), String::new()),
        }
    };
    let values = values
        .split(|c: char| c.is_whitespace() || c == ',')
        .filter(|v| !v.is_empty())
        .map(|v| v.parse::<f64>().map_err(|_| format!("no number: {v:?}")))
        .collect::<Result<Vec<_>, _>>()?;
    let units = rest
        .split_whitespace()
        .map(|u| (u.to_string(), 1))
        .collect();
    Ok((values, units))
}

/// The symbol itself, or the symbol before '^' with the exponent after it.
pub fn lookup<D: Copy>(
    table: &[(&str, f64, D)],
    symbol: &str,
) -> Result<(f64, D, i32), String> {
    if let Some(e) = table.iter().find(|e| e.0 == symbol) {
        return Ok((e.1, e.2, 1));
    }
    if let Some((base, exp)) = symbol.split_once('^') {
        let exp: i32 = exp.parse().map_err(|_| format!("no exponent: {symbol:?}"))?;
        if let Some(e) = table.iter().find(|e| e.0 == base) {
            return Ok((e.1, e.2, exp));
        }
    }
    Err(format!("unknown unit {symbol:?}"))
}
