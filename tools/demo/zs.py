"""zstd through the system library (independent of the crate under test)."""
import ctypes, struct

_l = ctypes.CDLL("libzstd.so.1")
for f in ("ZSTD_compressBound", "ZSTD_compress", "ZSTD_decompressStream", "ZSTD_DStreamOutSize"):
    getattr(_l, f).restype = ctypes.c_size_t
_l.ZSTD_createDStream.restype = ctypes.c_void_p
_l.ZSTD_freeDStream.argtypes = [ctypes.c_void_p]
_l.ZSTD_compress.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_int]
_l.ZSTD_isError.argtypes = [ctypes.c_size_t]


class ZstdError(Exception):
    pass


def compress(data, level=1):
    data = bytes(data)
    n = _l.ZSTD_compressBound(ctypes.c_size_t(len(data)))
    buf = ctypes.create_string_buffer(n)
    r = _l.ZSTD_compress(buf, n, data, len(data), level)
    if _l.ZSTD_isError(r):
        raise ZstdError("compress")
    return buf.raw[:r]


def skippable(n):
    """A skippable frame of exactly n bytes (n >= 8): padding that decodes to nothing."""
    assert n >= 8
    return struct.pack("<II", 0x184D2A50, n - 8) + b"\xa5" * (n - 8)


class _B(ctypes.Structure):
    _fields_ = [("p", ctypes.c_void_p), ("size", ctypes.c_size_t), ("pos", ctypes.c_size_t)]


def decompress(data):
    """All frames of data; ZstdError when any is damaged or incomplete."""
    data = bytes(data)
    ds = _l.ZSTD_createDStream()
    _l.ZSTD_DCtx_setParameter(ctypes.c_void_p(ds), 100, 31)
    try:
        src = ctypes.create_string_buffer(data, len(data))
        i = _B(ctypes.addressof(src), len(data), 0)
        cap = 1 << 20
        dst = ctypes.create_string_buffer(cap)
        out, r = [], 0
        while True:
            o = _B(ctypes.addressof(dst), cap, 0)
            r = _l.ZSTD_decompressStream(ctypes.c_void_p(ds), ctypes.byref(o), ctypes.byref(i))
            if _l.ZSTD_isError(r):
                raise ZstdError("damaged")
            out.append(dst.raw[:o.pos] if o.pos < cap else dst.raw)
            if i.pos == i.size and o.pos < cap:
                break
        if r != 0:
            raise ZstdError("incomplete")
        return b"".join(out)
    finally:
        _l.ZSTD_freeDStream(ds)


def try_decompress(data):
    try:
        return decompress(data)
    except ZstdError:
        return None


_l.ZSTD_createCStream.restype = ctypes.c_void_p
_l.ZSTD_compressStream2.restype = ctypes.c_size_t


def compress_blocks(parts, level=1):
    """One frame whose blocks end exactly where each part ends; returns the data and
    the offsets at which a block ends."""
    cs = ctypes.c_void_p(_l.ZSTD_createCStream())
    _l.ZSTD_CCtx_setParameter(cs, 100, level)
    out, ends = b"", []
    cap = 1 << 20
    dst = ctypes.create_string_buffer(cap)
    for k, part in enumerate(list(parts) + [b""]):
        last = k == len(parts)
        src = ctypes.create_string_buffer(bytes(part), max(1, len(part)))
        i = _B(ctypes.addressof(src), len(part), 0)
        while True:
            o = _B(ctypes.addressof(dst), cap, 0)
            r = _l.ZSTD_compressStream2(cs, ctypes.byref(o), ctypes.byref(i), 2 if last else 1)
            if _l.ZSTD_isError(r):
                raise ZstdError("stream")
            out += dst.raw[:o.pos]
            if r == 0 and i.pos == i.size:
                break
        ends.append(len(out))
    _l.ZSTD_freeCStream(cs)
    return out, ends
