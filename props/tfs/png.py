"""PNG encoding and decoding of uint8/uint16 images with 1 to 4 channels."""
import struct
import zlib

import numpy as np

_CT = {1: 0, 2: 4, 3: 2, 4: 6}


def encode(a):
    if a.ndim == 2:
        a = a[..., None]
    h, w, c = a.shape
    depth = 8 if a.dtype == np.uint8 else 16
    raw = a.astype(">u2").tobytes() if depth == 16 else a.tobytes()
    n = w * c * depth // 8
    data = b"".join(b"\0" + raw[i * n:(i + 1) * n] for i in range(h))

    def chunk(t, d):
        return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))
    return (b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, depth, _CT[c], 0, 0, 0)) +
            chunk(b"IDAT", zlib.compress(data)) + chunk(b"IEND", b""))


def decode(b):
    if b[:8] != b"\x89PNG\r\n\x1a\n":
        from . import InvalidArgumentError
        raise InvalidArgumentError("not a PNG")
    i, data = 8, b""
    while i < len(b):
        n, t = struct.unpack(">I4s", b[i:i + 8])
        d = b[i + 8:i + 8 + n]
        i += 12 + n
        if t == b"IHDR":
            w, h, depth, ct, _, _, inter = struct.unpack(">IIBBBBB", d)
        elif t == b"IDAT":
            data += d
    from . import NotModelled
    if inter or depth < 8 or ct == 3:
        raise NotModelled("png format")
    c = {v: k for k, v in _CT.items()}[ct]
    bpp = c * depth // 8
    n = w * bpp
    raw = zlib.decompress(data)
    out = np.zeros((h, n), np.int32)
    prev = np.zeros(n, np.int32)
    for y in range(h):
        ft = raw[y * (n + 1)]
        line = np.frombuffer(raw, np.uint8, n, y * (n + 1) + 1).astype(np.int32)
        if ft == 2:
            line = (line + prev) & 255
        elif ft:
            for x in range(n):
                l = line[x - bpp] if x >= bpp else 0
                u = prev[x]
                ul = prev[x - bpp] if x >= bpp else 0
                if ft == 1:
                    p = l
                elif ft == 3:
                    p = (l + u) >> 1
                else:
                    e = l + u - ul
                    q = sorted(((abs(e - l), 0, l), (abs(e - u), 1, u), (abs(e - ul), 2, ul)))
                    p = q[0][2]
                line[x] = (line[x] + p) & 255
        out[y] = line
        prev = line
    o = out.astype(np.uint8)
    return o.reshape(h, w, c) if depth == 8 else o.tobytes() and np.frombuffer(o.tobytes(), ">u2").reshape(h, w, c).astype(np.uint16)
