"""Reference formulas: equations of state and spiciness."""
from momlevel.derived import calc_rho


def wright_density(T, S, p):
    # Wright (1997), J. Atmos. Ocean. Tech., Table 1, reduced range
    alpha0 = 7.057924e-4 + 3.480336e-7 * T - 1.112733e-7 * S
    p0 = 5.790749e8 + 3.516535e6 * T - 4.002714e4 * T**2 + 2.084372e2 * T**3 + 5.944068e5 * S - 9.643486e3 * T * S
    lam = 1.704853e5 + 7.904722e2 * T - 7.984422 * T**2 + 5.140652e-2 * T**3 - 2.302158e2 * S - 3.079464 * T * S
    return (p + p0) / (lam + alpha0 * (p + p0))


def linear_density(T, S, p=None, rho_ref=None):
    rho = 1000.0 - 0.2 * T + 0.8 * S
    return rho if rho_ref is None else rho - rho_ref


def pdens_wright(thetao, so, level, patm):
    assert 0.0 <= level <= 7500.0
    return wright_density(thetao, so, level * 1.0e4 + patm)


def pdens_linear(thetao, so, level, patm):
    assert 0.0 <= level <= 7500.0
    return linear_density(thetao, so)


def spice(T, S):
    b = [
        [0.0, 7.7442e-1, -5.85e-3, -9.84e-4, -2.06e-4],
        [5.1655e-2, 2.034e-3, -2.742e-4, -8.5e-6, 1.36e-5],
        [6.64783e-3, -2.4681e-4, -1.428e-5, 3.337e-5, 7.894e-6],
        [-5.4023e-5, 7.326e-6, 7.0036e-6, -3.0412e-6, -1.0853e-6],
        [3.949e-7, -3.029e-8, -3.8209e-7, 1.0012e-7, 4.7133e-8],
        [-6.36e-10, -1.309e-9, 6.048e-9, -1.1409e-9, -6.676e-10],
    ]
    total = 0.0
    for i in range(6):
        for j in range(5):
            total = total + b[i][j] * T**i * (S - 35.0) ** j
    return total
