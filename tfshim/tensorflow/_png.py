"""PNG reading and writing (gray, gray+alpha, RGB, RGBA; 8 and 16 bits)."""
import struct
import zlib

import numpy as np

MAGIC = b"\x89PNG\r\n\x1a\n"
CHANNELS = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}


def _chunk(kind, data):
    return struct.pack(">I", len(data)) + kind + data + struct.pack(">I", zlib.crc32(kind + data))


def encode(a):
    a = np.asarray(a)
    h, w, c = a.shape
    depth = 16 if a.dtype == np.uint16 else 8
    color = {1: 0, 2: 4, 3: 2, 4: 6}[c]
    raw = np.ascontiguousarray(a.astype(">u2" if depth == 16 else np.uint8)).tobytes()
    row = w * c * depth // 8
    body = b"".join(b"\0" + raw[i * row:(i + 1) * row] for i in range(h))
    return (MAGIC + _chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, depth, color, 0, 0, 0)) +
            _chunk(b"IDAT", zlib.compress(body, 1)) + _chunk(b"IEND", b""))


def decode(data):
    """The image as stored: [h, w, channels], uint8 or uint16."""
    if data[:8] != MAGIC:
        raise ValueError("not a PNG")
    pos, idat, head, plte = 8, b"", None, None
    while pos + 8 <= len(data):
        n, kind = struct.unpack(">I4s", data[pos:pos + 8])
        body = data[pos + 8:pos + 8 + n]
        if len(body) != n:
            raise ValueError("truncated PNG")
        pos += 12 + n
        if kind == b"IHDR":
            head = struct.unpack(">IIBBBBB", body)
        elif kind == b"PLTE":
            plte = np.frombuffer(body, np.uint8).reshape(-1, 3)
        elif kind == b"IDAT":
            idat += body
        elif kind == b"IEND":
            break
    if head is None:
        raise ValueError("no PNG header")
    w, h, depth, color, _, _, lace = head
    if lace:
        raise ValueError("interlaced PNG")
    c = CHANNELS[color]
    bits = depth * c
    row, bpp = (w * bits + 7) // 8, max(1, bits // 8)
    try:
        raw = zlib.decompress(idat)
    except zlib.error as e:
        raise ValueError(str(e))
    if len(raw) != h * (row + 1):
        raise ValueError("PNG data of the wrong size")
    out = np.zeros((h, row), np.uint8)
    prev = np.zeros(row, np.uint8)
    for y in range(h):
        f = raw[y * (row + 1)]
        cur = np.frombuffer(raw, np.uint8, row, y * (row + 1) + 1).copy()
        if f == 1:
            for i in range(bpp, row):
                cur[i] = (int(cur[i]) + int(cur[i - bpp])) & 255
        elif f == 2:
            cur = cur + prev
        elif f == 3:
            for i in range(row):
                cur[i] = (int(cur[i]) + ((int(cur[i - bpp]) if i >= bpp else 0) + int(prev[i])) // 2) & 255
        elif f == 4:
            for i in range(row):
                a = int(cur[i - bpp]) if i >= bpp else 0
                b = int(prev[i])
                d = int(prev[i - bpp]) if i >= bpp else 0
                p = a + b - d
                pa, pb, pd = abs(p - a), abs(p - b), abs(p - d)
                cur[i] = (int(cur[i]) + (a if pa <= pb and pa <= pd else b if pb <= pd else d)) & 255
        out[y] = cur
        prev = cur
    if depth == 16:
        img = out.reshape(-1).view(">u2").astype(np.uint16).reshape(h, w, c)
    elif depth == 8:
        img = out.reshape(h, w, c)
    else:
        u = np.unpackbits(out, axis=1).reshape(h, -1, depth)[:, :w * c]
        img = (u * (1 << np.arange(depth - 1, -1, -1))).sum(-1).astype(np.uint8).reshape(h, w, c)
        if color == 0:
            img = (img.astype(int) * (255 // ((1 << depth) - 1))).astype(np.uint8)
    if color == 3:
        img = plte[img[..., 0]]
    return img
