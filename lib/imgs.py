"""Writes the images the generated documents refer to (no imaging library needed)."""
import os, struct, zlib

def png(w, h):
    raw = b"".join(b"\0" + b"\x80\x40\x20" * w for _ in range(h))
    def chunk(t, d):
        return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))
    return b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, 2, 0, 0, 0)) + chunk(b"IDAT", zlib.compress(raw)) + chunk(b"IEND", b"")

def gif(w, h):
    # one colour, uncompressed LZW codes (clear code before every pixel)
    codes = []
    for _ in range(w * h):
        codes += [4, 0]
    codes += [4, 5]
    bits = 0; n = 0; data = bytearray()
    for c in codes:
        bits |= c << n; n += 3
        while n >= 8:
            data.append(bits & 255); bits >>= 8; n -= 8
    if n:
        data.append(bits & 255)
    out = b"GIF89a" + struct.pack("<HHBBB", w, h, 0x80, 0, 0) + b"\x80\x40\x20\0\0\0" + b"," + struct.pack("<HHHHB", 0, 0, w, h, 0) + b"\x02"
    for i in range(0, len(data), 255):
        b = bytes(data[i:i + 255]); out += bytes([len(b)]) + b
    return out + b"\0;"

def jpg(w, h):
    """a grey baseline JPEG: every block has DC difference 0"""
    q = b"\xff\xdb\0\x43\0" + b"\x10" * 64
    sof = b"\xff\xc0\0\x0b\x08" + struct.pack(">HH", h, w) + b"\x01\x01\x11\0"
    dc = b"\xff\xc4\0\x14\0" + bytes([1] + [0] * 15) + b"\0"
    ac = b"\xff\xc4\0\x14\x10" + bytes([1] + [0] * 15) + b"\0"
    sos = b"\xff\xda\0\x08\x01\x01\0\0\x3f\0"
    blocks = ((w + 7) // 8) * ((h + 7) // 8)
    nbits = 2 * blocks            # DC category 0 and end of block, one bit (0) each
    data = bytearray(nbits // 8)
    if nbits % 8:
        data.append((1 << (8 - nbits % 8)) - 1)
    return b"\xff\xd8" + q + sof + dc + ac + sos + bytes(data) + b"\xff\xd9"

FILES = {"a.png": png(40, 20), "b.png": png(30, 90), "c.jpg": jpg(64, 64), "d.gif": gif(100, 10),
         "sub/e.png": png(7, 13), "big.png": png(900, 700), "broken.png": b"\x89PNG\r\n\x1a\nnot really"}
# the same names, other images
OTHERS = {"a.png": png(30, 33), "b.png": png(90, 12), "c.jpg": jpg(16, 80), "d.gif": gif(20, 15),
          "sub/e.png": b"\x89PNG\r\n\x1a\nnot really", "big.png": png(50, 70), "broken.png": png(25, 10)}

def write(d, files=FILES):
    os.makedirs(os.path.join(d, "sub"), exist_ok=True)
    for name, data in files.items():
        with open(os.path.join(d, name), "wb") as f:
            f.write(data)
