"""Reference quasi-dipole coordinates: the expansion of the coefficient files (extended precision)."""
import numpy as np
from vk.ref import geo, sh

LD = np.longdouble
F = 1 / LD("298.257223563")
RE = geo.A * (1 - F / 3)
ECC2 = F * (2 - F)


def terms(nmax, mmax):
    """ (n, m, kind) in the order of the file, kind 0 cosine, 1 sine """
    out = [(n, 0, 0) for n in range(nmax + 1)]
    for m in range(1, mmax + 1):
        for n in range(m, nmax + 1):
            out += [(n, m, 0), (n, m, 1)]
    return out


class ApexFile:
    """ content of a coefficient file """

    def __init__(self, epochs, nmax, mmax, lmax, coef):
        self.epochs = np.asarray(epochs, np.float32)
        self.nmax, self.mmax, self.lmax = nmax, mmax, lmax
        self.coef = coef    # [6, epochs, lmax+1, terms]

    @classmethod
    def read(cls, path):
        """ parse """
        with open(path) as fin:
            words = fin.read().split()
        nepoch, nmax, mmax, lmax, nterm = [int(v) for v in words[:5]]
        epochs = [float(v) for v in words[5:5 + nepoch]]
        data = np.array([float(v.replace("D", "E")) for v in words[5 + nepoch:5 + nepoch + 6 * nepoch * nterm]])
        return cls(epochs, nmax, mmax, lmax, data.reshape(6, nepoch, lmax + 1, nterm // (lmax + 1)))

    def write(self, path, rng):
        """ list directed Fortran input """
        nterm = self.coef.shape[2] * self.coef.shape[3]
        words = [str(v) for v in (len(self.epochs), self.nmax, self.mmax, self.lmax, nterm)]
        sep = [" ", "  ", "\n"][rng.integers(0, 3)]
        with open(path, "w") as out:
            out.write(" ".join(words) + "\n" + " ".join(repr(float(v)) for v in self.epochs) + "\n")
            out.write(sep.join(repr(float(v)) for v in self.coef.ravel()) + "\n")

    def at(self, epoch):
        """ interpolated coefficients, epoch is an array """
        epoch = np.clip(np.asarray(epoch, np.float32).astype(LD), LD(self.epochs[0]), LD(self.epochs[-1]))
        coef = self.coef[:3].astype(LD)
        if len(self.epochs) == 1:
            return np.broadcast_to(coef[:, 0], epoch.shape + coef[:, 0].shape)
        grid = self.epochs.astype(LD)
        pos = np.clip(np.searchsorted(grid, epoch, side="right") - 1, 0, len(grid) - 2)
        weight = ((epoch - grid[pos]) / (grid[pos + 1] - grid[pos]))[..., None, None, None]
        coef = np.moveaxis(coef, 1, 0)
        return coef[pos] * (1 - weight) + coef[pos + 1] * weight

    def evaluate(self, lat, lon, rad, epoch):
        """ dictionary with the results at geocentric coordinates """
        lat, lon, rad, epoch = np.broadcast_arrays(lat, lon, rad, epoch)
        cart = np.stack(geo.sph2cart(lat, lon, rad), axis=-1)
        gdlat, _, height = np.moveaxis(np.asarray(geo.cart2geod(cart), LD), -1, 0)
        return self.evaluate_geodetic(gdlat, np.asarray(lon, LD), height, epoch)

    def evaluate_geodetic(self, gdlat, lon, height, epoch):
        """ the same in geodetic coordinates """
        coef = self.at(epoch)   # [..., 3, l, t]
        rho = RE / (RE + height)
        power = rho[..., None] ** np.arange(self.lmax + 1)
        coef = np.einsum("...clt,...l->...ct", coef, power)
        p, d, q = sh.legendre(gdlat, self.nmax)
        cos, sin = sh.cossin(lon, max(self.mmax, 1))
        val, north, east = [], [], []
        for n, m, kind in terms(self.nmax, self.mmax):
            norm = np.sqrt(LD(2 * n + 1) / 2 / (2 if m else 1))
            i = sh.index(n, m)
            trig, deriv = (sin[..., m], m * cos[..., m]) if kind else (cos[..., m], -m * sin[..., m])
            val.append(norm * p[..., i] * trig)
            north.append(norm * d[..., i] * trig)
            east.append(norm * q[..., i] * deriv)
        val, north, east = [np.stack(v, axis=-1) for v in (val, north, east)]
        vec = np.einsum("...ct,...t->...c", coef, val)
        total = np.einsum("...ct,...t->...", np.abs(coef), np.abs(val) + np.abs(north) + np.abs(east))
        grad_n = np.einsum("...ct,...t->...c", coef, north)
        grad_e = np.einsum("...ct,...t->...c", coef, east)
        x, y, z = np.moveaxis(vec, -1, 0)
        hor = np.hypot(x, y)
        norm = np.hypot(hor, z)
        qlon, qlat = np.arctan2(y, x), np.arctan2(z, hor)
        sinlat = geo.sincosd(gdlat)[0]
        jtemp = 1 - ECC2 * sinlat * sinlat
        prime = geo.A / np.sqrt(jtemp)
        scale_e = (height + prime) / (RE + height)
        scale_n = (height + (1 - ECC2) * prime / jtemp) / (RE + height)
        up = np.stack([-np.sin(qlat) * np.cos(qlon), -np.sin(qlat) * np.sin(qlon), np.cos(qlat)], axis=-1)
        side = np.stack([-np.sin(qlon), np.cos(qlon), 0 * qlon], axis=-1)
        lat_e, lat_n = (up * grad_e).sum(axis=-1) / scale_e, (up * grad_n).sum(axis=-1) / scale_n
        lon_e, lon_n = (side * grad_e).sum(axis=-1) / scale_e, (side * grad_n).sum(axis=-1) / scale_n
        return {
            "qdlat": qlat / geo.DEG, "qdlon": qlon / geo.DEG, "unit": vec / norm[..., None], "norm": norm, "total": total,
            "cosqlat": hor / norm,
            "f11": lat_n, "f12": -lat_e, "f21": -lon_n, "f22": lon_e, "f": lat_n * lon_e - lat_e * lon_n,
        }
