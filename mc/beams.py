"""Small particle sets and file encoders shared by the data conversion checks."""
import struct
import numpy as np

C_LIGHT = 299792458.0
ROWS = [[1.5e-3, 2.0e-2, -3.0e-4, 5.0e-3, 1.25e-2, 97.5], [-2.0e-3, -1.0e-2, 7.0e-4, 0.0, -3.0e-3, 101.0],
        [0.0, 3.0e-3, 0.0, -2.5e-2, 0.0, 33.25], [4.0e-6, 1.0e-9, -9.0e-6, 8.0e-9, 2.0e3, 1.0e4],
        [1.0 / 3.0, -1.0 / 7.0, 2.0 / 3.0, 1.0 / 9.0, -1.0 / 11.0, 1.0 / 13.0]]


def coords(n, shift=0):
    a = np.array([ROWS[(k + shift) % len(ROWS)] for k in range(n)]).reshape(n, 6)
    return a * (1.0 + 1e-3 * np.arange(n)[:, None]) if n > len(ROWS) else a


def decode_doubles(path, ncols, nparams):
    """Independent decoder for a little-endian binary SDDS file with only double parameters and columns."""
    data = open(path, "rb").read()
    i = data.index(b"&data")
    i = data.index(b"&end\n", i) + 5
    n, = struct.unpack_from("<i", data, i)
    i += 4
    params = struct.unpack_from("<%dd" % nparams, data, i)
    i += 8 * nparams
    rows = [struct.unpack_from("<%dd" % ncols, data, i + 8 * ncols * k) for k in range(n)]
    assert i + 8 * ncols * n == len(data), "%d bytes left over" % (len(data) - i - 8 * ncols * n)
    return data[:data.index(b"&data")].decode(), params, np.array(rows).reshape(n, ncols)


def close(a, b, rtol=1e-13, atol=0.0):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)))
