"""Transactions and blocks whose 32-byte hashes agree in a window of 8 bytes, found once by search (tools/collide.c, minutes on 8 cores).
Maps and comparisons that look at a part of a hash only confuse them; nothing that is random ever does."""
import hashlib, struct
from . import chain as C

def h20(s): return hashlib.sha256(s.encode()).digest()[:20]
SHARED = h20("shared"); OWN = [h20("own0"), h20("own1")]; HASHES = [SHARED] + OWN
WINDOWS = (0, 4, 24)      # first, second to fourth 4-byte group as the hash maps read them, last (the first ones of the displayed form)

def genesis(): return C.Block(C.ZERO, [C.Tx([(C.ZERO, 0xFFFFFFFF, b"collide genesis", 0xFFFFFFFF)], [(5000000000, b"\x41\x04" + bytes(range(64)) + b"\xac")])], 0, nonce=1)
def first(g): return C.Block(g.hash, [C.Tx([(C.ZERO, 0xFFFFFFFF, b"collide first", 0xFFFFFFFF)], [(10**8 + i, C.p2pkh_script(SHARED)) for i in range(2 * len(WINDOWS))])], 1, nonce=2)
def tx(src, w, f, x):
    """Family f of window w: spends its own output of the first block; x is the nonce."""
    outs = [(60000000 + f, C.p2pkh_script(SHARED)), (30000000 + f, C.p2sh_script(OWN[f])), (0, b"\x6a\x08" + struct.pack("<Q", x))]
    return C.Tx([(src, 2 * WINDOWS.index(w) + f, b"sig" + bytes(7), 0xFFFFFFFF)], outs)
def block(prev, w, f, x):
    cb = C.Tx([(C.ZERO, 0xFFFFFFFF, b"collide block %d %d" % (w, f), 0xFFFFFFFF)], [(25 * 10**8 + f, C.p2pkh_script(OWN[f])), (10**8 + f, C.p2sh_script(SHARED))])
    return C.Block(prev, [cb], 2, nonce=x >> 32, time=x & 0xFFFFFFFF)

# nonces of the two members, found by tools/collide.c (the parity of the nonce is the family)
TX = {0: (0xb1d2a4bfc28fb152, 0xab9dbd61c2c2a4f7), 4: (0x3f4bdb7f0716d24a, 0x5669b2c05c68a66d), 24: (0xf214cdb01e7cab7a, 0x6374b4c474a60ccb)}
BLOCK = {0: (0xc4ea9ac7b1547500, 0xdf07fbb20546489d), 4: (0x7613ac432d745e3e, 0x5c75595b24d26ae9), 24: (0x49b4de8cc7382d9e, 0x035cfbdabd8a07d3)}

def txs(w, src):
    a, b = [tx(src, w, f, TX[w][f]) for f in (0, 1)]; assert a.txid != b.txid and a.txid[w:w + 8] == b.txid[w:w + 8]; return a, b
def blocks(w, prev):
    a, b = [block(prev, w, f, BLOCK[w][f]) for f in (0, 1)]; assert a.hash != b.hash and a.hash[w:w + 8] == b.hash[w:w + 8]; return a, b
