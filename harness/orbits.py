"""Orbital elements from states (independently of sorcha's conversions)."""
import numpy as np
from . import fakesky as F

COLS = {"COM": ["q", "e", "inc", "node", "argPeri", "t_p_MJD_TDB"], "KEP": ["a", "e", "inc", "node", "argPeri", "ma"], "CART": ["x", "y", "z", "xdot", "ydot", "zdot"]}
for _f in list(COLS):
    COLS["B" + _f] = COLS[_f]


def since_peri(q, e, nu, mu):
    """Days since perihelion at true anomaly nu."""
    if abs(e - 1) < 1e-7:
        D = np.tan(nu / 2)
        return np.sqrt(2 * q ** 3 / mu) * (D + D ** 3 / 3)
    a = q / abs(1 - e)
    n = np.sqrt(mu / a ** 3)
    if e < 1:
        E = 2 * np.arctan2(np.sqrt(1 - e) * np.sin(nu / 2), np.sqrt(1 + e) * np.cos(nu / 2))
        return (E - e * np.sin(E)) / n
    H = 2 * np.arctanh(np.sqrt((e - 1) / (e + 1)) * np.tan(nu / 2))
    return (e * np.sinh(H) - H) / n


def elements(r, v, mu=F.GM):
    """q, e, inc, node, argPeri (degrees), days since perihelion."""
    r, v = np.asarray(r, float), np.asarray(v, float)
    h = np.cross(r, v)
    rn, hn = np.linalg.norm(r), np.linalg.norm(h)
    ev = np.cross(v, h) / mu - r / rn
    e = np.linalg.norm(ev)
    q = hn ** 2 / mu / (1 + e)
    inc = np.arctan2(np.hypot(h[0], h[1]), h[2])
    node = np.arctan2(h[0], -h[1]) if np.hypot(h[0], h[1]) > 1e-12 * hn else 0.0
    n = np.array([np.cos(node), np.sin(node), 0.0])
    m = np.cross(h / hn, n)
    argp = np.arctan2(ev @ m, ev @ n) if e > 1e-9 else 0.0
    p = np.cos(argp) * n + np.sin(argp) * m
    k = np.cross(h / hn, p)
    nu = np.arctan2(r @ k, r @ p)
    return q, e, np.degrees(inc), np.degrees(node) % 360, np.degrees(argp) % 360, since_peri(q, e, nu, mu)


def row(oid, fmt, state, epoch_mjd, jd_epoch=False):
    """Orbit-file row for a barycentric equatorial state at the epoch."""
    jd = epoch_mjd + 2400000.5
    base, bv, mu = (np.zeros(3), np.zeros(3), F.GM_TOTAL) if fmt.startswith("B") else (F.sun(jd), F.SUNV, F.GM)
    p, v = F.eq2ec(np.asarray(state[:3]) - base), F.eq2ec(np.asarray(state[3:]) - bv)
    ep = epoch_mjd + (2400000.5 if jd_epoch else 0.0)
    if fmt.endswith("CART"):
        el = [*p, *v]
    else:
        q, e, i, O, w, dt = elements(p, v, mu)
        if fmt.endswith("COM"):
            el = [q, e, i, O, w, epoch_mjd - dt]
        else:
            a = q / (1 - e)
            el = [a, e, i, O, w, np.degrees(dt * np.sqrt(mu / a ** 3)) % 360]
    return [oid, fmt, *map(float, el), ep]
