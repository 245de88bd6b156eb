//! Small statistics kit: chi-square survival function and tests with pooled cells.

fn ln_gamma(x: f64) -> f64 {
    const G: [f64; 9] = [
        0.999_999_999_999_809_9,
        676.520_368_121_885_1,
        -1_259.139_216_722_402_8,
        771.323_428_777_653_1,
        -176.615_029_162_140_6,
        12.507_343_278_686_905,
        -0.138_571_095_265_720_12,
        9.984_369_578_019_572e-6,
        1.505_632_735_149_311_6e-7,
    ];
    if x < 0.5 {
        return (std::f64::consts::PI / (std::f64::consts::PI * x).sin()).ln() - ln_gamma(1.0 - x);
    }
    let x = x - 1.0;
    let mut a = G[0];
    let t = x + 7.5;
    for (i, g) in G.iter().enumerate().skip(1) {
        a += g / (x + i as f64);
    }
    0.5 * (2.0 * std::f64::consts::PI).ln() + (x + 0.5) * t.ln() - t + a.ln()
}

/// Upper regularised incomplete gamma Q(a, x).
pub fn gamma_q(a: f64, x: f64) -> f64 {
    if x <= 0.0 {
        return 1.0;
    }
    if x < a + 1.0 {
        let mut ap = a;
        let mut sum = 1.0 / a;
        let mut del = sum;
        for _ in 0..10_000 {
            ap += 1.0;
            del *= x / ap;
            sum += del;
            if del.abs() < sum.abs() * 1e-16 {
                break;
            }
        }
        1.0 - sum * (-x + a * x.ln() - ln_gamma(a)).exp()
    } else {
        let mut b = x + 1.0 - a;
        let mut c = 1e300;
        let mut d = 1.0 / b;
        let mut h = d;
        for i in 1..10_000 {
            let an = -(i as f64) * (i as f64 - a);
            b += 2.0;
            d = an * d + b;
            if d.abs() < 1e-300 {
                d = 1e-300;
            }
            c = b + an / c;
            if c.abs() < 1e-300 {
                c = 1e-300;
            }
            d = 1.0 / d;
            let del = d * c;
            h *= del;
            if (del - 1.0).abs() < 1e-15 {
                break;
            }
        }
        (-x + a * x.ln() - ln_gamma(a)).exp() * h
    }
}

pub fn chi2_p(stat: f64, df: f64) -> f64 {
    gamma_q(df / 2.0, stat / 2.0)
}

/// Significance below which a deviation is called a violation.
pub const ALPHA: f64 = 1e-11;

/// Chi-square goodness of fit with cells of small expectation pooled. Returns (p-value, cells used).
pub fn gof(obs: &[u64], expect: &[f64]) -> (f64, usize) {
    let n: u64 = obs.iter().sum();
    let tot: f64 = expect.iter().sum();
    let mut cells: Vec<(f64, f64)> =
        obs.iter().zip(expect).map(|(o, e)| (*o as f64, e / tot * n as f64)).collect();
    cells.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap());
    let mut pooled: Vec<(f64, f64)> = vec![];
    let mut acc = (0.0, 0.0);
    for c in cells {
        if acc.1 > 0.0 || c.1 < 60.0 {
            acc.0 += c.0;
            acc.1 += c.1;
            if acc.1 >= 60.0 {
                pooled.push(acc);
                acc = (0.0, 0.0);
            }
        } else {
            pooled.push(c);
        }
    }
    if acc.1 > 0.0 || acc.0 > 0.0 {
        match pooled.last_mut() {
            Some(l) => {
                l.0 += acc.0;
                l.1 += acc.1;
            }
            None => pooled.push(acc),
        }
    }
    if pooled.len() < 2 {
        return (1.0, pooled.len());
    }
    let s: f64 = pooled.iter().map(|(o, e)| (o - e) * (o - e) / e).sum();
    (chi2_p(s, (pooled.len() - 1) as f64), pooled.len())
}

#[cfg(test)]
mod t {
    #[test]
    fn q() {
        assert!((super::chi2_p(3.841_458_820_694_124, 1.0) - 0.05).abs() < 1e-9);
        assert!((super::chi2_p(124.342_113_404_004_08, 100.0) - 0.05).abs() < 1e-9);
        let p = super::chi2_p(60.0, 1.0);
        assert!(p > 1e-15 && p < 1e-13, "{p}");
    }
}
