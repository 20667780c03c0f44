"""offline checkers over the event logs written by the harnesses"""
import hashlib, zlib, struct, os
from multiprocessing import Pool

_T = []
for _i in range(256):
    _c = _i
    for _ in range(8): _c = (_c >> 1) ^ (0x82f63b78 if _c & 1 else 0)
    _T.append(_c)

def crc32c(b):
    c = 0xffffffff; T = _T
    for x in b: c = (c >> 8) ^ T[(c ^ x) & 255]
    return c ^ 0xffffffff
assert crc32c(b"123456789") == 0xe3069283

def _one(path):
    bad = []; n = 0; nbytes = 0; lens = set()
    raw = open(path, "rb").read(); i = 0
    while i + 4 <= len(raw):
        k = struct.unpack_from("<I", raw, i)[0]; i += 4
        m = raw[i:i + k]; i += k
        d = raw[i:i + 88]; i += 88
        if len(d) < 88: bad.append(("log", "truncated log")); break
        n += 1; nbytes += k; lens.add(k)
        for key, got, exp in (("md5", d[:16], hashlib.md5(m).digest()), ("sha512", d[16:80], hashlib.sha512(m).digest()),
                              ("crc32", d[80:84], struct.pack("<I", zlib.crc32(m))), ("crc32c", d[84:88], struct.pack("<I", crc32c(m)))):
            if got != exp: bad.append((key, "%s of a %d-byte message is %s, the standard gives %s; message %s" % (key, k, got.hex(), exp.hex(), m[:600].hex())))
        if len(bad) > 20: break
    return bad, n, nbytes, lens

def digests(logs, tier, seed):
    with Pool(min(8, len(logs) or 1)) as p: res = p.map(_one, logs)
    bad = []; lens = set(); n = nb = 0
    for b, k, kb, l in res: bad += b; n += k; nb += kb; lens |= l
    bad.sort(key=lambda x: len(x[1]))
    return bad[:5], {"offline": {"messages judged": n, "bytes": nb, "distinct lengths": len(lens), "oracle": "hashlib md5/sha512, zlib crc32, bitwise CRC-32C table"}}
