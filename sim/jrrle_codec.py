"""The jrrle text format (run length encoded, log-quantised values), written and read back independently of the library."""
import math

import numpy as np


def e14(x):
    """Fortran 3e14.7"""
    if x == 0:
        return " 0.0000000E+00"
    e = int(math.floor(math.log10(abs(x)))) + 1
    m = x / 10.0 ** e
    if abs(round(m, 7)) >= 1.0:
        e += 1
        m = x / 10.0 ** e
    s = "%.7fE%+03d" % (m, e)
    return s.rjust(14)


def enc_record(ints):
    out = []
    i = 0
    while i < len(ints):
        j = i
        while j < len(ints) and ints[j] == ints[i]:
            j += 1
        if j - i > 1:
            out.append(j - i + 170)
        out.append(ints[i])
        i = j
    return bytes([33 + sum(ints) % 92] + out)


def encode(a, name, timestr, it):
    a = np.asarray(a)
    dims = a.shape
    flat = a.reshape(-1, order="F").astype("f8")
    mag = np.abs(flat)
    zmin = max(1e-33, float(mag.min()))
    zmax = min(1e33, float(mag.max()))
    z2 = math.log(zmax)
    z1 = max(math.log(zmin), z2 - 37.0)
    if abs(z2 - z1) <= 1e-5:
        z1 -= 1.0
        z2 += 1.0
    dz = 4410.0 / (z2 - z1)
    out = b"FIELD-%dD-1\n" % len(dims)
    out += name.ljust(80).encode() + b"\n" + timestr.ljust(80).encode() + b"\n"
    out += b"".join(b"%12d" % x for x in (it,) + tuple(dims)) + b"\n"
    out += ("WRN2%8d" % len(flat) + e14(z1) + e14(z2) + e14(0.0) + "%8d" % it + "FUNC-%d-1" % len(dims)).encode() + b"\n"
    for k in range(0, len(flat), 64):
        r1, r2 = [], []
        for x in flat[k:k + 64]:
            i3 = int(dz * (math.log(min(1e33, max(math.exp(z1), abs(x)))) - z1) + 0.5)
            i3 = min(4414, max(0, i3))
            i1 = i3 // 94
            r2.append(i3 - 94 * i1 + 33)
            r1.append(i1 + (47 if x < 0 else 0) + 33)
        out += enc_record(r1) + b"\n" + enc_record(r2) + b"\n"
    return out


def dec_record(b):
    vals = []
    j = 0
    while j < len(b):
        if b[j] > 127:
            vals.extend([b[j + 1]] * (b[j] - 170))
            j += 2
        else:
            vals.append(b[j])
            j += 1
    assert vals[0] == 33 + sum(vals[1:]) % 92
    return vals[1:]


def decode(blob):
    """{name: float32 array} of an intact file"""
    lines = blob.split(b"\n")
    out = {}
    i = 0
    f = np.float32
    while i < len(lines) and lines[i].startswith(b"FIELD-"):
        name = lines[i + 1].decode().strip()
        dims = [int(x) for x in lines[i + 3].split()][1:]
        h = lines[i + 4].decode()
        n = int(h[4:12])
        z1, z2 = f(float(h[12:26])), f(float(h[26:40]))
        i += 5
        vals = []
        dzi = f(z2 - z1) / f(4410.0)
        for k in range(0, n, 64):
            r1, r2 = dec_record(lines[i]), dec_record(lines[i + 1])
            i += 2
            for a, b in zip(r1, r2):
                a -= 33
                b -= 33
                sig = 1.0
                if a >= 47:
                    sig, a = -1.0, a - 47
                vals.append(f(sig) * np.exp(f(f(dzi * f(b + 94 * a)) + z1), dtype=f))
        out[name] = np.array(vals, f).reshape(dims, order="F")
    return out
