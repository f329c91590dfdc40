"""Keccak-256 (original padding), pure Python."""
_RC = []
import functools
def _rc():
    r = 1
    def bit():
        nonlocal r
        o = r & 1; r <<= 1
        if r & 0x100: r ^= 0x171
        return o
    for _ in range(24):
        c = 0
        for j in range(7):
            if bit(): c |= 1 << ((1 << j) - 1)
        _RC.append(c)
_rc()
M = (1 << 64) - 1
_ROT = [[0, 36, 3, 41, 18], [1, 44, 10, 45, 2], [62, 6, 43, 15, 61], [28, 55, 25, 21, 56], [27, 20, 39, 8, 14]]
_ORD = [(x, y, y, (2 * x + 3 * y) % 5, _ROT[x][y]) for x in range(5) for y in range(5)]
def _f(A):
    for rc in _RC:
        C = [A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20] for x in range(5)]
        D = [C[(x - 1) % 5] ^ ((C[(x + 1) % 5] << 1 | C[(x + 1) % 5] >> 63) & M) for x in range(5)]
        B = [0] * 25
        for x, y, nx, ny, r in _ORD:
            v = A[x + 5 * y] ^ D[x]
            B[nx + 5 * ny] = ((v << r) | (v >> (64 - r))) & M if r else v
        A = [B[i] ^ (~B[(i % 5 + 1) % 5 + i // 5 * 5] & B[(i % 5 + 2) % 5 + i // 5 * 5] & M) for i in range(25)]
        A[0] ^= rc
    return A
@functools.lru_cache(256)
def keccak256(data):
    rate = 136
    p = rate - len(data) % rate
    data = data + (b"\x81" if p == 1 else b"\x01" + b"\0" * (p - 2) + b"\x80")
    A = [0] * 25
    for o in range(0, len(data), rate):
        for i in range(rate // 8):
            A[i] ^= int.from_bytes(data[o + 8 * i:o + 8 * i + 8], "little")
        A = _f(A)
    return b"".join(a.to_bytes(8, "little") for a in A[:4])
