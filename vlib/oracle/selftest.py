"""Known-answer tests of the reference implementations (public standard vectors)."""
import hashlib
from . import secp, ed, seal, bip39
from .keccak import keccak256
h = bytes.fromhex
def run():
    assert keccak256(b"").hex() == "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"
    assert keccak256(b"abc").hex() == "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45"
    # RFC 8439 2.8.2 has AAD; use 2.4.2 (cipher) and 2.5.2 (poly1305)
    k = bytes(range(32))
    assert seal.chacha(k, h("000000000000004a00000000"), b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.").hex().startswith("6e2e359a2568f98041ba0728dd0d6981")
    assert seal.poly1305(h("85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b"), b"Cryptographic Forum Research Group").hex() == "a8061dc1305136c6c22b8baf0c0127a9"
    # BIP-32 vector 1
    m = secp.master(h("000102030405060708090a0b0c0d0e0f"))
    assert m.k == 0xe8f32e723decf4051aefac8e2c93c9c5b214313817cdb01a1494b917c8436b35
    c = m.child(0x80000000)
    assert c.k == 0xedb2e14f9ee77d26dd93b4ecede8d16ed408ce149b6cd80b0715a2d911a0afea and c.fp == h("3442193e")
    assert c.child(1).k == 0x3c6cb8d0f6a264c91ea8b5030fadaa8e538b020f0a387421a12de9319dc93368
    # Ed25519 RFC 8032 vector 2 through the extended key form
    hh = bytearray(hashlib.sha512(h("4ccd089b28ff96da9db6c346ec114e0f5b8a319f35aba624da8cf6ed4fb8a6fb")).digest())
    hh[0] &= 248; hh[31] &= 127; hh[31] |= 64
    x = ed.X(int.from_bytes(hh[:32], "little"), int.from_bytes(hh[32:], "little"), b"")
    assert x.A.hex() == "3d4017c3e843895a92b70aa74d1b7ebc9c982ccf2ec4968cc0cd55f12af4660c"
    s = x.sign(b"\x72")
    assert s.hex().startswith("92a009a9f0d4cab8720e820b5f642540a2b27b5416503f8fb3762223ebdb69da")
    assert x.verify_known(b"\x72", s) and ed.verify_pub(x.A, b"\x72", s) and not x.verify_known(b"\x73", s)
    # BIP-39 (Trezor) vector
    p = bip39.phrase(b"\x7f" * 16, 0)
    assert p == "legal winner thank year wave sausage worth useful legal winner thank yellow"
    assert bip39.seed(p, b"TREZOR").hex().startswith("2e8905819b8723fe2c1d161860e5ee1830318dbf49a83bd451cfb8440c28bd6f")
    assert bip39.entropy(bip39.parse(p, 0)) == b"\x7f" * 16
    sg = secp.rfc6979_sign(5, b"x")
    assert secp.verify_known(5, b"x", sg) and not secp.verify_known(5, b"y", sg)
    return True
if __name__ == "__main__":
    import time
    t = time.time(); run(); print("ok", time.time() - t)
    t = time.time()
    for i in range(200): secp.mul_g(pow(3, i + 500, secp.N))
    print("secp mul", (time.time() - t) / 200)
    t = time.time()
    for i in range(200): ed.enc(ed.mul_b(pow(3, i + 500, ed.L)))
    print("ed mul", (time.time() - t) / 200)
    t = time.time()
    for i in range(20): keccak256(b"a" * 100)
    print("keccak", (time.time() - t) / 20)
    t = time.time()
    seal.chacha(b"a" * 32, b"b" * 12, b"c" * 6400); print("chacha/block", (time.time() - t) / 100)
