"""Independent BIP-39 reference over pinned copies of the standard word lists."""
import hashlib, os
LANGS = ["english", "french", "japanese", "korean", "chinese_simplified", "chinese_traditional", "italian", "spanish"]
NAMES = ["English", "French", "Japanese", "Korean", "ChineseSimplified", "ChineseTraditional", "Italian", "Spanish"]
# sha256 of the standard list files (one word per line): checked at load
SHA = {"english": "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda",
 "french": "ebc3959ab7801a1df6bac4fa7d970652f1df76b683cd2f4003c941c63d517e59",
 "japanese": "2eed0aef492291e061633d7ad8117f1a2b03eb80a29d0e4e3117ac2528d05ffd",
 "korean": "9e95f86c167de88f450f0aaf89e87f6624a57f973c67b516e338e8e8b8897f60",
 "chinese_simplified": "5c5942792bd8340cb8b27cd592f1015edf56a8c5b26276ee18a482428e7c5726",
 "chinese_traditional": "417b26b3d8500a4ae3d59717d7011952db6fc2fb84b807f3f94ac734e89c1b5f",
 "italian": "d392c49fdb700a24cd1fceb237c1f65dcc128f6b34a8aacb58b59384b5c648c2",
 "spanish": "46846a5a0139d1e3cb77293e521c2865f7bcdb82c44e8d0a06a2cd0ecba48c0b"}
WORDS = []
for _l in LANGS:
    _t = open(os.path.join(os.path.dirname(__file__), "wordlists", _l + ".txt"), "rb").read()
    assert hashlib.sha256(_t).hexdigest() == SHA[_l], _l
    WORDS.append(_t.decode().split("\n")[:-1])
INDEX = [{w: i for i, w in enumerate(ws)} for ws in WORDS]
SIZES = {9: 96, 12: 128, 15: 160, 18: 192, 21: 224, 24: 256}
BITS = {v: k for k, v in SIZES.items()}
def indexes(ent):
    n = len(ent) * 8; cs = n // 32
    h = hashlib.sha256(ent).digest()[0] >> (8 - cs)
    v = int.from_bytes(ent, "big") << cs | h
    w = (n + cs) // 11
    return [v >> 11 * (w - 1 - i) & 2047 for i in range(w)]
def phrase(ent, lang): return " ".join(WORDS[lang][i] for i in indexes(ent))
def entropy(idx):
    """entropy of an index list, or None if refused"""
    if len(idx) not in SIZES or any(i > 2047 for i in idx): return None
    n = SIZES[len(idx)]; cs = n // 32; v = 0
    for i in idx: v = v << 11 | i
    e = (v >> cs).to_bytes(n // 8, "big")
    return e if v & ((1 << cs) - 1) == hashlib.sha256(e).digest()[0] >> (8 - cs) else None
def parse(s, lang):
    ws = s.split(" ")
    if any(w not in INDEX[lang] for w in ws) or len(ws) not in SIZES: return None
    return [INDEX[lang][w] for w in ws]
def seed(s, passphrase=b""):
    return hashlib.pbkdf2_hmac("sha512", s.encode(), b"mnemonic" + passphrase, 2048)
