"""Bitcoin wire structures, written from the protocol definition (independent of the code under test)."""
import hashlib, struct

def sha256(b): return hashlib.sha256(b).digest()
def sha256d(b): return hashlib.sha256(hashlib.sha256(b).digest()).digest()
def hash160(b): return hashlib.new("ripemd160", sha256(b)).digest()

B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

def b58encode(b):
    n = int.from_bytes(b, "big")
    s = ""
    while n:
        n, r = divmod(n, 58)
        s = B58[r] + s
    return "1" * (len(b) - len(b.lstrip(b"\0"))) + s

def b58decode(s):
    """None if a character is not in the alphabet."""
    n = 0
    for c in s:
        i = B58.find(c) if len(c) == 1 else -1
        if i < 0: return None
        n = n * 58 + i
    body = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return b"\0" * (len(s) - len(s.lstrip("1"))) + body

def b58check(payload): return b58encode(payload + sha256d(payload)[:4])
def p2pkh_addr(h): return b58check(b"\x00" + h)
def p2sh_addr(h): return b58check(b"\x05" + h)

def addr_valid(s):
    """Reference acceptance of an address text."""
    if not isinstance(s, str) or len(s) > 200: return False
    b = b58decode(s)
    if b is None or len(b) != 25: return False
    return b[0] in (0, 5) and sha256d(b[:21])[:4] == b[21:]

def p2pkh_script(h): return b"\x76\xa9\x14" + h + b"\x88\xac"
def p2sh_script(h): return b"\xa9\x14" + h + b"\x87"

_addr_cache = {}
def script_addr(s):
    if len(s) == 25 and s[:3] == b"\x76\xa9\x14" and s[23:] == b"\x88\xac": k = (0, s[3:23])
    elif len(s) == 23 and s[:2] == b"\xa9\x14" and s[22:] == b"\x87": k = (5, s[2:22])
    else: return None
    a = _addr_cache.get(k)
    if a is None:
        a = _addr_cache[k] = b58check(bytes([k[0]]) + k[1])
        if len(_addr_cache) > 200000: _addr_cache.clear()
    return a

def unspendable(s): return len(s) > 0 and s[0] == 0x6A

def vi(n):
    if n < 0xFD: return bytes([n])
    if n <= 0xFFFF: return b"\xfd" + struct.pack("<H", n)
    if n <= 0xFFFFFFFF: return b"\xfe" + struct.pack("<I", n)
    return b"\xff" + struct.pack("<Q", n)

def vi_wide(n, w):
    """Non-minimal compact size of total width class w (0,1,2,3)."""
    return [lambda: bytes([n]), lambda: b"\xfd" + struct.pack("<H", n), lambda: b"\xfe" + struct.pack("<I", n), lambda: b"\xff" + struct.pack("<Q", n)][w]()

NULL = (b"\0" * 32, 0xFFFFFFFF)

class Tx:
    """ins: list of (txid_bytes_internal, vout, script_sig, sequence); outs: list of (value, script); wit: None or list (per input) of list of items."""
    __slots__ = ("version", "ins", "outs", "wit", "locktime", "raw", "txid", "base")
    def __init__(self, ins, outs, version=1, wit=None, locktime=0):
        self.version, self.ins, self.outs, self.wit, self.locktime = version, ins, outs, wit, locktime
        core = bytearray(vi(len(ins)))
        for (h, n, s, q) in ins: core += h + struct.pack("<I", n) + vi(len(s)) + s + struct.pack("<I", q)
        core += vi(len(outs))
        for (v, s) in outs: core += struct.pack("<Q", v) + vi(len(s)) + s
        ver = struct.pack("<i", version); lt = struct.pack("<I", locktime)
        self.base = bytes(ver + core + lt)
        self.txid = sha256d(self.base)
        if wit is None: self.raw = self.base
        else:
            w = bytearray()
            for items in wit:
                w += vi(len(items))
                for it in items: w += vi(len(it)) + it
            self.raw = bytes(ver + b"\x00\x01" + core + w + lt)
    @property
    def id(self): return self.txid[::-1].hex()

def merkle(txids):
    if not txids: return b"\0" * 32
    l = list(txids)
    while len(l) > 1:
        if len(l) % 2: l.append(l[-1])
        l = [sha256d(l[i] + l[i + 1]) for i in range(0, len(l), 2)]
    return l[0]

class Block:
    __slots__ = ("prev", "txs", "raw", "hash", "height")
    def __init__(self, prev, txs, height, nonce=0, version=0x20000000, time=0, bits=0x207FFFFF):
        self.prev, self.txs, self.height = prev, txs, height
        hdr = struct.pack("<i", version) + prev + merkle([t.txid for t in txs]) + struct.pack("<III", time & 0xFFFFFFFF, bits, nonce & 0xFFFFFFFF)
        self.hash = sha256d(hdr)
        self.raw = hdr + vi(len(txs)) + b"".join(t.raw for t in txs)
    @property
    def id(self): return self.hash[::-1].hex()

MAGIC = 0xD9B4BEF9
def record(block): return struct.pack("<II", MAGIC, len(block.raw)) + block.raw

ZERO = b"\0" * 32
