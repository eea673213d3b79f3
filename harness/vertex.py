"""Random local vertices with the symmetries of the physical ones, and brute-force solutions in the full box."""
import numpy as np

UR = {'dens': 1, 'magn': -1, 'updo': 1, 'upup': -1}


def rand_gamma(rng, wn, niv, beta, u, channel, strength=0.25, sym=True, conj=True):
    """Gamma/beta^2 [w,v,v'] = u_r/beta^2 + localized random part.
    wn may be any list; Gamma(-w,-v,-v') = conj Gamma(w,v,v') when conj, symmetric in v,v' when sym"""
    wmax = int(np.max(np.abs(wn)))
    full = np.arange(-wmax, wmax + 1)
    v = 2 * np.arange(-niv, niv) + 1
    env = np.exp(-(np.abs(v)[:, None] / niv + np.abs(v)[None, :] / niv))[None] / (1 + np.abs(full))[:, None, None]
    m = (rng.normal(size=env.shape) + 1j * rng.normal(size=env.shape)) * env * strength
    if sym:
        m = 0.5 * (m + m.transpose(0, 2, 1))
    if conj:
        m = 0.5 * (m + np.conj(m[::-1, ::-1, ::-1]))
    m = (m + UR[channel] * u) / beta ** 2
    return m[np.asarray(wn) + wmax]


def pad(gam, ur_b2, niv_full):
    n = gam.shape[-1] // 2
    s = niv_full - n
    out = np.full(gam.shape[:-2] + (2 * niv_full, 2 * niv_full), ur_b2, dtype=complex)
    out[..., s:s + 2 * n, s:s + 2 * n] = gam
    return out


def solve_box(gam, gchi0):
    """X = (1/X0 + Gamma)^-1 slice by slice"""
    out = np.empty(gam.shape, dtype=complex)
    for j in range(len(gam)):
        out[j] = np.linalg.inv(np.diag(1 / gchi0[j]) + gam[j])
    return out
