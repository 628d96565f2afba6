"""Independent reader and writer of the bidiff patch format (uncompressed form).

magic u32le 0xB1DF, version u32le 0x1000, then until the end:
varint add_len, add_len bytes (old + diff, mod 256), varint copy_len, copy_len
bytes, zigzag varint seek (relative move in the old file, after the add)."""
import struct

MAGIC = struct.pack("<II", 0xB1DF, 0x1000)


class BadPatch(Exception):
    pass


def uvar(n):
    o = bytearray()
    while True:
        b = n & 127
        n >>= 7
        if n:
            o.append(b | 128)
        else:
            o.append(b)
            return bytes(o)


def svar(n):
    return uvar((n << 1) ^ (n >> 63) if n >= 0 else ((-n) << 1) - 1)


def _read_uvar(d, p):
    n = s = 0
    while True:
        if p >= len(d) or s > 63:
            raise BadPatch("varint at %d" % p)
        b = d[p]
        p += 1
        n |= (b & 127) << s
        s += 7
        if not b & 128:
            return n, p


def controls(d):
    if d[:8] != MAGIC:
        raise BadPatch("header")
    p = 8
    while p < len(d):
        n, p = _read_uvar(d, p)
        if p + n > len(d):
            raise BadPatch("add")
        add, p = d[p:p + n], p + n
        n, p = _read_uvar(d, p)
        if p + n > len(d):
            raise BadPatch("copy")
        copy, p = d[p:p + n], p + n
        z, p = _read_uvar(d, p)
        yield add, copy, (z >> 1) ^ -(z & 1)


def _add(a, b):
    """byte-wise sum mod 256, done on big integers lane by lane"""
    if not any(b):
        return a
    n = len(a)
    x, y = int.from_bytes(a, "little"), int.from_bytes(b, "little")
    m7 = int.from_bytes(b"\x7f" * n, "little")
    m1 = int.from_bytes(b"\x80" * n, "little")
    return (((x & m7) + (y & m7)) ^ ((x ^ y) & m1)).to_bytes(n, "little")


def apply(patch, old):
    out, pos = [], 0
    for add, copy, seek in controls(patch):
        if add:
            if pos < 0 or pos + len(add) > len(old):
                raise BadPatch("range %d+%d of %d" % (pos, len(add), len(old)))
            out.append(_add(old[pos:pos + len(add)], add))
            pos += len(add)
        out.append(copy)
        pos += seek
    return b"".join(out)


def sub(a, b):
    return bytes((x - y) & 255 for x, y in zip(a, b))


def encode(old, new, rng=None, pieces=1):
    """A correct patch old -> new: common prefix and suffix as adds, the rest as a
    copy; with rng, cut into several random controls with seeks in between."""
    p = 0
    m = min(len(old), len(new))
    while p < m and old[p] == new[p]:
        p += 1
    s = 0
    while s < m - p and old[-1 - s] == new[-1 - s]:
        s += 1
    segs = []  # (old position or None, bytes of new)
    if p:
        segs.append((0, new[:p]))
    if len(new) - s > p:
        segs.append((None, new[p:len(new) - s]))
    if s:
        segs.append((len(old) - s, new[len(new) - s:]))
    if rng and pieces > 1:
        cut = []
        for pos, b in segs:
            i = 0
            while i < len(b):
                n = rng.randint(1, max(1, len(b) // pieces + 1))
                cut.append((None if pos is None else pos + i, b[i:i + n]))
                i += n
        segs = cut
    out, cur, i = [MAGIC], 0, 0
    if segs and segs[0][0] not in (None, 0):  # an empty first control only moves
        out.append(uvar(0) + uvar(0) + svar(segs[0][0]))
        cur = segs[0][0]
    while i < len(segs):
        add, copy = b"", b""
        if segs[i][0] is not None:
            pos, b = segs[i]
            assert pos == cur
            add = sub(b, old[pos:pos + len(b)])
            cur += len(b)
            i += 1
        while i < len(segs) and segs[i][0] is None:
            copy += segs[i][1]
            i += 1
        nxt = segs[i][0] if i < len(segs) else cur
        out.append(uvar(len(add)) + add + uvar(len(copy)) + copy + svar(nxt - cur))
        cur = nxt
    return b"".join(out)
