"""Reference models of the hex helpers and of 11-bit packing."""
def decode(t):
    """bytes, or the index of the first unknown byte, or None for an odd number of digits"""
    d = []
    for i, b in enumerate(t.encode()):
        c = chr(b)
        if c in "0123456789abcdefABCDEF": d.append(int(c, 16))
        elif c in " \t\r\n": continue
        else: return i
    if len(d) % 2: return None
    return bytes(a << 4 | b for a, b in zip(d[::2], d[1::2]))
def pack(v):
    n = 0
    for x in v: n = n << 11 | x
    bits = 11 * len(v); pad = -bits % 8
    return (n << pad).to_bytes((bits + pad) // 8, "big")
def unpack(b):
    """values and remaining group counts before each read and after the last"""
    bits = 8 * len(b); n = int.from_bytes(b, "big"); k = bits // 11
    return [n >> bits - 11 * (i + 1) & 2047 for i in range(k)], [(bits - 11 * i) // 11 for i in range(k + 1)]
