"""A small solar system standing in for the third-party libraries' data (ASSIST ephemerides, SPICE kernels), which are not
available offline: the Sun in uniform barycentric motion, the Earth on a circular orbit and rotating, objects moving along
analytic two-body (or straight) paths.  Only names of the third-party packages are replaced (assist.Ephem, assist.Extras, functions of
spiceypy), before sorcha is imported; everything of sorcha's own runs unchanged."""
import json
import os
from types import SimpleNamespace

import numpy as np

AU_KM = 149597870.7
GM = 2.9591220828559115e-04
J2000 = 2451545.0
C_AU_D = 2.99792458e5 * 86400.0 / AU_KM
GM_TOTAL = GM * 1.00134
SUN0, SUNV = np.array([0.002, -0.001, 0.0005]), np.array([-2.5e-6, 5.5e-6, -2e-6])  # barycentric position (au, at J2000) and velocity of the Sun
EPS = np.radians(84381.448 / 3600)
calls = []  # what the fake libraries were asked (furnished kernels ...)


def sun(t):
    """Barycentric position of the Sun at JD t."""
    return SUN0 + SUNV * (t - J2000)


def earth(t):
    """Barycentric equatorial position/velocity (au, au/d) of the Earth at JD t."""
    w = 2 * np.pi / 365.25
    a = w * (t - J2000) + 1.75
    p = np.array([np.cos(a), np.sin(a) * np.cos(EPS), np.sin(a) * np.sin(EPS)])
    v = w * np.array([-np.sin(a), np.cos(a) * np.cos(EPS), np.cos(a) * np.sin(EPS)])
    return p + sun(t), v + SUNV


def rot(t):
    """Earth-fixed to J2000 at JD t."""
    g = 2 * np.pi * 1.00273790935 * (t - J2000) + 4.89
    c, s = np.cos(g), np.sin(g)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])


def _stumpff(z):
    if abs(z) < .5:
        c = d = 0.0
        for k in range(12, -1, -1):
            c, d = (1 - c * z) / ((2 * k + 1) * (2 * k + 2)), (1 - d * z) / ((2 * k + 2) * (2 * k + 3))
        return c, d
    if z > 0:
        s = np.sqrt(z)
        return (1 - np.cos(s)) / z, (s - np.sin(s)) / s ** 3
    s = np.sqrt(-z)
    return (np.cosh(s) - 1) / -z, (np.sinh(s) - s) / s ** 3


def kepler(r0, v0, dt, mu=GM):
    """Two-body propagation by universal variables (bisection-safeguarded Newton)."""
    r0, v0 = np.asarray(r0, float), np.asarray(v0, float)
    if dt == 0:
        return r0.copy(), v0.copy()
    rm, rv = np.linalg.norm(r0), r0 @ v0
    alpha = 2 / rm - v0 @ v0 / mu
    sq = np.sqrt(mu)

    def f(x):
        if alpha * x * x < -1e4:  # far outside
            return np.sign(x) * np.inf, 1.0
        C, S = _stumpff(alpha * x * x)
        return rv / sq * x * x * C + (1 - alpha * rm) * x ** 3 * S + rm * x - sq * dt, rv / sq * x * (1 - alpha * x * x * S) + (1 - alpha * rm) * x * x * C + rm

    # f grows with x (its derivative is the distance): bracket the root, then Newton steps inside the bracket
    h = sq * dt / rm
    lo, hi = min(0.0, h), max(0.0, h)
    while f(hi)[0] < 0:
        lo, hi = hi, hi + abs(h)
    while f(lo)[0] > 0:
        lo, hi = lo - abs(h), lo
    x = 0.5 * (lo + hi)
    for _ in range(200):
        y, fp = f(x)
        if y > 0:
            hi = x
        else:
            lo = x
        n = x - y / fp if fp > 0 else lo
        if not lo < n < hi:
            n = 0.5 * (lo + hi)
        if abs(n - x) < 1e-15 * max(1, abs(x)):
            x = n
            break
        x = n
    C, S = _stumpff(alpha * x * x)
    fl, g = 1 - x * x / rm * C, dt - x ** 3 * S / sq
    r = fl * r0 + g * v0
    rn = np.linalg.norm(r)
    fd, gd = sq / (rn * rm) * (alpha * x ** 3 * S - x), 1 - x * x / rn * C
    return r, fd * r0 + gd * v0


class FakeEphem:
    jd_ref = J2000

    def __init__(self, *a, **k):
        calls.append(("Ephem", a, dict(k)))

    def get_particle(self, body, t):
        if body in ("Sun", "sun", 0):
            p = sun(J2000 + t)
            return SimpleNamespace(x=p[0], y=p[1], z=p[2], vx=SUNV[0], vy=SUNV[1], vz=SUNV[2], m=GM)
        return SimpleNamespace(x=0.0, y=0.0, z=0.0, vx=0.0, vy=0.0, vz=0.0, m=(GM_TOTAL - GM) / 26)


class FakeExtras:
    """Moves the simulation's single particle along its analytic path."""

    def __init__(self, sim, ephem):
        self.sim = sim
        p = sim.particles[0]
        self.t0 = sim.t
        self.r0 = np.array([p.x, p.y, p.z]) - sun(J2000 + sim.t)
        self.v0 = np.array([p.vx, p.vy, p.vz]) - SUNV
        self.forces = ["SUN", "PLANETS", "GR_EIH"]

    def integrate_or_interpolate(self, t):
        r, v = kepler(self.r0, self.v0, t - self.t0)
        p = self.sim.particles[0]
        p.x, p.y, p.z = (r + sun(J2000 + t)).tolist()
        p.vx, p.vy, p.vz = (v + SUNV).tolist()
        self.sim.t = t


def install():
    """Replace the third-party entry points. Call before importing sorcha."""
    import assist
    import spiceypy as spice
    assist.Ephem = FakeEphem
    assist.Extras = FakeExtras

    def spkpos(target, et, ref, abcorr, obs):
        p, _ = earth(J2000 + et / 86400.0)
        return p * AU_KM, 0.0

    def spkezr(target, et, ref, abcorr, obs):
        p, v = earth(J2000 + et / 86400.0)
        return np.concatenate([p * AU_KM, v * AU_KM / 86400.0]), 0.0

    def pxform(a, b, et):
        return rot(J2000 + et / 86400.0)

    def str2et(s):
        w = s.split()
        if w[0] == "JD":  # terrestrial time; TDB - TT is below 2 ms
            return (float(w[1]) - J2000) * 86400.0
        if s.startswith("1962"):
            return (2437684.5 - J2000) * 86400.0
        raise ValueError(s)

    spice.spkpos, spice.spkezr, spice.pxform, spice.str2et = spkpos, spkezr, pxform, str2et
    spice.j2000 = lambda: J2000
    spice.furnsh = lambda p: calls.append(("furnsh", p))
    spice.kclear = lambda: calls.append(("kclear",))


OBS = {"I11": dict(Longitude=289.25058, cos=0.864981, sin=-0.500958), "X05": dict(Longitude=289.25058, cos=0.864981, sin=-0.500958),
       "W84": dict(Longitude=289.19, cos=0.864981, sin=-0.500958), "500": dict(Longitude=0.0, cos=0.0, sin=0.0), "000": dict(Longitude=0.0, cos=0.62411, sin=0.77873), "C51": dict(Name="WISE")}


def data_dir(path, aux=None):
    """Dummy auxiliary files so that nothing is fetched."""
    from sorcha.utilities.sorchaConfigs import auxiliaryConfigs
    aux = aux or auxiliaryConfigs()
    os.makedirs(path, exist_ok=True)
    for n in list(aux.ordered_kernel_files) + [aux.jpl_planets, aux.jpl_small_bodies]:
        with open(os.path.join(path, n), "w") as f:
            f.write("dummy\n")
    with open(os.path.join(path, aux.observatory_codes), "w") as f:
        json.dump(OBS, f)
    return path


def observer(t, code="X05"):
    """Barycentric position of the observatory (au) at JD t, independently of sorcha."""
    o = OBS[code]
    lon = np.radians(o["Longitude"])
    xyz = np.array([o["cos"] * np.cos(lon), o["cos"] * np.sin(lon), o["sin"]])
    p, v = earth(t)
    return p + rot(t) @ xyz * 6378.137 / AU_KM


def jd_of(mjd_tai):
    """JD TDB of a TAI time as sorcha defines it (to the six decimals of its SPICE time string)."""
    return float("%lf" % (mjd_tai + 2400000.5 + 32.184 / 86400.0))


def apparent(state, epoch_jd, t, code="X05"):
    """Light-time-corrected observer-to-object vector (au) at JD t for a barycentric state at epoch_jd."""
    r0, v0 = np.asarray(state[:3]) - sun(epoch_jd), np.asarray(state[3:]) - SUNV
    o = observer(t, code)
    lt = 0.0
    for _ in range(30):
        r, v = kepler(r0, v0, t - lt - epoch_jd)
        x = r + sun(t - lt)
        rho = x - o
        n = np.linalg.norm(rho) / C_AU_D
        if abs(n - lt) < 1e-14:
            break
        lt = n
    return rho, x, v + SUNV, o


def ec2eq(v):
    """Ecliptic to equatorial."""
    x, y, z = v
    c, s = np.cos(EPS), np.sin(EPS)
    return np.array([x, c * y - s * z, s * y + c * z])


def eq2ec(v):
    x, y, z = v
    c, s = np.cos(EPS), np.sin(EPS)
    return np.array([x, c * y + s * z, -s * y + c * z])


def object_toward(ra, dec, dist, jd, vel, epoch_jd, code="X05"):
    """Barycentric equatorial state at epoch_jd of an object that appears at (ra, dec) and distance dist (au) at JD jd,
    moving there with barycentric velocity vel (au/d)."""
    u = np.array([np.cos(np.radians(dec)) * np.cos(np.radians(ra)), np.cos(np.radians(dec)) * np.sin(np.radians(ra)), np.sin(np.radians(dec))])
    t = jd - dist / C_AU_D
    r0, v0 = kepler(observer(jd, code) + dist * u - sun(t), np.asarray(vel, float) - SUNV, epoch_jd - t)
    return np.concatenate([r0 + sun(epoch_jd), v0 + SUNV])


def bcart_row(oid, state, epoch_mjd):
    """Row of an orbit file (barycentric cartesian, ecliptic)."""
    p, v = eq2ec(state[:3]), eq2ec(state[3:])
    return [oid, "BCART", *map(float, p), *map(float, v), epoch_mjd]
