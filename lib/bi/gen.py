"""Random but valid chains, branches and mempools, rich in the shapes the properties quantify over."""
import struct
from collections import Counter
from . import chain as C, collide as K
from .model import Model, apply_tx, apply_block

SUPPLY = 2_100_000_000_000_000
PUBKEY = b"\x02" + bytes(range(1, 33))

class Gen:
    def __init__(self, rng, naddr=16, heavy=0.03, cov=None, bip34=True, collide=0):
        self.r = rng; self.m = Model(); self.cov = cov if cov is not None else Counter(); self.heavy = heavy
        hs = [rng.randbytes(20) for _ in range(naddr)]
        # same bytes 4..12 (the part the hash maps look at), extremes, leading zeros
        if naddr >= 6:
            hs[1] = rng.randbytes(4) + hs[0][4:12] + rng.randbytes(8)
            hs[2] = b"\0" * 20; hs[3] = b"\xff" * 20; hs[4] = b"\0\0\0" + hs[4][3:]
            hs[5] = hs[0][:19] + bytes([hs[0][19] ^ 1])
        if naddr >= 10:   # one byte apart, half of the bytes in common, the hash of a public key that scripts name, and of such a script
            i = rng.randrange(20); hs[6] = hs[0][:i] + bytes([hs[0][i] ^ (1 << rng.randrange(8))]) + hs[0][i + 1:]
            i = rng.choice([4, 8, 16]); hs[7] = rng.choice([hs[0][:i] + rng.randbytes(20 - i), rng.randbytes(20 - i) + hs[0][20 - i:]])
            hs[8] = C.hash160(PUBKEY); hs[9] = C.hash160(b"\x21" + PUBKEY + b"\xac")
        self.collide = bool(collide) and rng.random() < collide
        self.pending = []; self.hold = False; self.sibling = None; self.reserved = set()
        if self.collide: hs += K.HASHES
        self.hs = hs
        self.addrs = [C.p2pkh_addr(h) for h in hs] + [C.p2sh_addr(h) for h in hs]
        self.n = 0; self.minted = 0
        self.unseen = [C.p2pkh_addr(rng.randbytes(20)), C.p2sh_addr(rng.randbytes(20))]

    # ---- scripts and values
    def addr_script(self):
        h = self.r.choice(self.hs)
        return C.p2pkh_script(h) if self.r.random() < 0.6 else C.p2sh_script(h)
    def near_miss(self):
        r = self.r; h = r.choice(self.hs); base = C.p2pkh_script(h) if r.random() < 0.5 else C.p2sh_script(h)
        s = bytearray(base); n = len(s); fixed = [0, 1, 2, 23, 24] if n == 25 else [0, 1, 22]
        k = r.randrange(7)
        if k == 0: i = r.choice(fixed); s[i] ^= 1 << r.randrange(8)
        elif k == 1: s = s[:-1]
        elif k == 2: s = s + bytes([r.randrange(256)])
        elif k == 3: s = s[1:]
        elif k == 4: s = bytes([r.randrange(256)]) + s
        elif k == 5: i = r.choice(fixed); s[i] = r.randrange(256)
        else: s = s[:r.randrange(n)]
        return bytes(s)
    def other_script(self):
        r = self.r; k = r.randrange(15)
        if k == 0: return b"\x6a" + r.randbytes(r.randrange(0, 40))
        if k == 1: return b""
        if k == 2: return b"\x21" + (PUBKEY if r.random() < 0.5 else bytes([2 + r.randrange(2)]) + r.randbytes(32)) + b"\xac"
        if k == 3: return b"\x41\x04" + r.randbytes(64) + b"\xac"
        if k == 4: return b"\x00\x14" + r.choice(self.hs)
        if k == 5: return b"\x00\x20" + r.randbytes(32)
        if k == 6: return b"\x51\x20" + r.randbytes(32)
        if k == 7: return b"\x51" + b"\x21" + b"\x02" + r.randbytes(32) + b"\x51\xae"
        if k in (8, 9, 10, 11): return self.near_miss()
        if k == 12: return b"\x6a" + C.p2pkh_script(r.choice(self.hs))[1:]
        if k == 13: return b"\x6a" + C.p2sh_script(r.choice(self.hs))[1:]
        n = r.choice([252, 253, 254, 255, 256, 300, 520, 10000]) if r.random() > 0.05 else r.choice([65535, 65536, 70000])
        return bytes([r.choice([0x51, 0x76, 0xa9, 0x00])]) + bytes(n - 1)
    def script(self):
        s = self.addr_script() if self.r.random() < 0.75 else self.other_script()
        self.cov["script_addr" if C.script_addr(s) else "script_opreturn" if C.unspendable(s) else "script_none"] += 1
        return s
    def split(self, total, n):
        """n output values with sum <= total, including zeros and extremes."""
        r = self.r; vals = []
        left = total
        for i in range(n):
            k = r.random()
            if k < 0.07: v = 0
            elif k < 0.14: v = min(left, r.choice([1, 546, 255, 256, 65536, 2**32 - 1, 2**32, 2**32 + 1, 10**8, 10**8 - 1]))
            elif i == n - 1 and k < 0.8: v = left
            else: v = r.randrange(left + 1) if r.random() < 0.3 else left // (n - i)
            vals.append(v); left -= v
        return vals
    def sigscript(self):
        r = self.r
        n = r.choice([0, 0, 1, 23, 71, 107, 107, 107, 252, 253, 254, 300]) if r.random() > self.heavy else r.choice([65535, 65536, 1000])
        return r.randbytes(min(n, 400)) + bytes(max(0, n - 400))
    def witness(self, nin):
        r = self.r; w = []
        for _ in range(nin):
            k = r.random()
            if k < 0.25: w.append([])
            elif k < 0.9: w.append([r.randbytes(r.choice([0, 1, 33, 64, 72, 72, 252, 253, 254])) for _ in range(r.randrange(1, 5))])
            elif k < 1 - self.heavy: w.append([r.randbytes(r.choice([520, 1000, 3600]))])
            else: w.append([b"x" * r.choice([0, 3])] * r.choice([252, 253, 254, 300]) if r.random() < 0.7 else [bytes(r.choice([65535, 65536, 80000]))])
        if all(not x for x in w): w[r.randrange(nin)] = [r.randbytes(1)]
        return w
    def meta(self):
        r = self.r
        ver = r.choice([1, 2, 2, 1, 0, -1, 2**31 - 1, -2**31, 3, 0x00010000, 256])
        lt = r.choice([0, 0, 0, 1, 499999999, 500000000, 2**32 - 1, r.getrandbits(32)])
        return ver, lt
    def seqno(self): return self.r.choice([0xFFFFFFFF, 0xFFFFFFFF, 0xFFFFFFFE, 0, 1, self.r.getrandbits(32)])

    # ---- transactions
    def coinbase(self, height, nout=None, scripts=None, value=None, segwit=None):
        r = self.r; self.n += 1
        sig = struct.pack("<IQ", height, self.n) + r.randbytes(r.randrange(0, 80))
        nout = nout if nout is not None else r.choice([1, 1, 1, 2, 3])
        budget = value if value is not None else min(r.choice([50 * 10**8, 625000000, 0, 10**13, 7 * 10**12 + 12345678, 312500001]), max(0, SUPPLY - self.minted))
        self.minted += budget
        vals = self.split(budget, nout)
        outs = [(v, (scripts[i] if scripts else self.script())) for i, v in enumerate(vals)]
        sw = segwit if segwit is not None else r.random() < 0.5
        if sw:
            outs.append((0, b"\x6a\x24\xaa\x21\xa9\xed" + r.randbytes(32)))
            if r.random() < 0.3: outs.insert(0, outs.pop())
        return C.Tx([(C.ZERO, 0xFFFFFFFF, sig, self.seqno())], outs, version=r.choice([1, 2]), wit=[[C.ZERO]] if sw else None, locktime=r.choice([0, 0, height & 0xFFFFFFFF]))
    def spend(self, utxo, keys, nout=None, scripts=None, segwit=None, fee=True):
        """A transaction spending exactly `keys` (outpoints present in utxo)."""
        r = self.r; self.n += 1
        total = sum(utxo[k][1] for k in keys)
        if nout is None:
            x = r.random()
            nout = r.choice([1, 2, 2, 3, 5]) if x > self.heavy else r.choice([251, 252, 253, 254, 255, 256, 257, 300])
            if nout > 200: self.cov["tx_many_outputs"] += 1
        ver, lt = self.meta()
        ins = [(k[0], k[1], self.sigscript(), self.seqno()) for k in keys]
        vals = self.split(total if not fee else total - min(total, r.choice([0, 0, 1, 226, 1000])), nout)
        outs = [(v, (scripts[i] if scripts else self.script())) for i, v in enumerate(vals)]
        sw = segwit if segwit is not None else r.random() < 0.4
        if sw: self.cov["tx_segwit"] += 1
        else: self.cov["tx_legacy"] += 1
        return C.Tx(ins, outs, version=ver, wit=self.witness(len(ins)) if sw else None, locktime=lt)
    def pick(self, utxo, fresh, avoid=()):
        """Choose inputs: recently created, any, everything of an address, or very many."""
        r = self.r
        if self.reserved: avoid = set(avoid) | self.reserved
        keys = [k for k in utxo if k not in avoid] if avoid else list(utxo)
        if not keys: return None
        k = r.random()
        fr = [f for f in fresh if f in utxo and f not in avoid]
        if fr and k < 0.45:
            self.cov["spend_same_block"] += 1; r.shuffle(fr); return fr[:r.choice([1, 1, 2, 3])]
        if k < 0.6:
            a = utxo[r.choice(keys)][0]
            if a is not None:
                ks = [x for x in keys if utxo[x][0] == a]
                if len(ks) <= 400: self.cov["spend_whole_address"] += 1; return ks
        if k > 1 - self.heavy and len(keys) >= 260:
            self.cov["tx_many_inputs"] += 1; r.shuffle(keys); return keys[:r.choice([252, 253, 254, 256, 260])]
        if k > 0.93:
            na = [x for x in keys if utxo[x][0] is None]
            if na: self.cov["spend_no_address"] += 1; return [r.choice(na)]
        n = r.choice([1, 1, 1, 2, 2, 3, 6])
        return r.sample(keys, min(n, len(keys)))
    def tx_into(self, utxo, fresh, avoid=()):
        keys = self.pick(utxo, fresh, avoid)
        if not keys: return None
        t = self.spend(utxo, keys)
        apply_tx(utxo, t)
        fresh.extend((t.txid, i) for i in range(len(t.outs)) if (t.txid, i) in utxo)
        if len(fresh) > 60: del fresh[:len(fresh) - 60]
        return t

    # ---- blocks
    def genesis(self):
        cb = C.Tx([(C.ZERO, 0xFFFFFFFF, b"genesis" + self.r.randbytes(8), 0xFFFFFFFF)], [(5000000000, b"\x41\x04" + self.r.randbytes(64) + b"\xac")])
        b = C.Block(C.ZERO, [cb], 0, nonce=self.r.getrandbits(32)); self.m.add(b); return b
    def block(self, prev, ntx=None, txs=None, coinbase=None):
        """Next block on top of prev. txs: mandatory leading transactions (already valid in order)."""
        r = self.r; h = prev.height + 1
        cb = coinbase or self.coinbase(h)
        u = dict(self.m.at(prev.hash)); fresh = []
        apply_tx(u, cb)
        # coinbase outputs of this very block are not spendable by it in Bitcoin
        avoid = {(cb.txid, i) for i in range(len(cb.outs))}
        body = []
        if self.pending and coinbase is None: txs = self.due(u, txs or [])
        for t in txs or []: apply_tx(u, t); body.append(t); fresh.extend((t.txid, i) for i in range(len(t.outs)) if (t.txid, i) in u)
        if ntx is None:
            ntx = r.choice([0, 1, 2, 3, 4, 6, 9]) if r.random() > self.heavy else r.choice([60, 252, 253, 256])
        if ntx > 200: self.cov["block_many_txs"] += 1
        for _ in range(ntx):
            t = self.tx_into(u, fresh, avoid)
            if t is None: break
            body.append(t)
        b = C.Block(prev.hash, [cb] + body, h, nonce=r.getrandbits(32), version=r.choice([1, 2, 4, 0x20000000, -1, 0x3FFFE000]), time=r.getrandbits(32), bits=r.getrandbits(32))
        self.m.add(b); self.cov["blocks"] += 1; self.cov["txs"] += len(b.txs)
        return b
    def extend(self, chain, n, **kw):
        for _ in range(n): chain.append(self.block(chain[-1], **kw))
        return chain
    def new_chain(self, n, **kw):
        if not self.collide or n < 4: return self.extend([self.genesis()], n - 1, **kw)
        # the fixed beginning from which transactions and blocks with partly equal hashes continue
        r = self.r; g = K.genesis(); f = K.first(g); self.m.add(g); self.m.add(f); ch = [g, f]; src = f.txs[0].txid; self.minted += sum(v for v, _ in f.txs[0].outs) + 5 * 10**9
        if r.random() < 0.7:
            pair = list(K.blocks(r.choice(list(K.BLOCK)), f.hash)); r.shuffle(pair); self.minted += 27 * 10**8
            for b in pair: self.m.add(b)
            ch.append(pair[0]); self.sibling = pair[1]
        ws = r.sample(K.WINDOWS, 3 if self.hold else r.choice([1, 2, 3])); self.pending = [t for w in ws for t in K.txs(w, src)]; r.shuffle(self.pending); self.reserved = {i[:2] for t in self.pending for i in t.ins}
        self.cov["partly_equal_hashes"] += 1; self.rate = 0 if self.hold else r.choice([0.1, 0.5, 1.0])
        return self.extend(ch, n - len(ch), **kw)
    def due(self, u, txs, most=99):
        """Some of the transactions with partly equal hashes, after the given ones."""
        taken = {i[:2] for t in txs for i in t.ins}; out = []
        while self.pending and len(out) < most and self.r.random() < self.rate:
            t = self.pending.pop()
            if all(i[:2] in u and i[:2] not in taken for i in t.ins): out.append(t)
            self.reserved -= {i[:2] for i in t.ins}
        return list(txs) + out

    # ---- mempool on top of a state
    def mempool_txs(self, utxo, n, fresh=None):
        u = dict(utxo); out = []; fresh = [] if fresh is None else fresh
        if self.pending and n:
            out = self.due(u, [], n)
            for t in out: apply_tx(u, t)
        for _ in range(n - len(out)):
            t = self.tx_into(u, fresh)
            if t is None: break
            out.append(t)
        return out
    def query_addrs(self): return self.addrs + self.unseen

def write_files(path, blocks, rng=None, nfiles=1, names=None, pad=None):
    """Blocks in the given order over nfiles files of whole records; pad: zero bytes after the last record of each file."""
    import os
    os.makedirs(path, exist_ok=True)
    names = names or ["blk%05d.dat" % i for i in range(nfiles)]
    cuts = sorted(rng.randrange(len(blocks) + 1) for _ in range(len(names) - 1)) if len(names) > 1 else []
    cuts = [0] + cuts + [len(blocks)]
    for i, n in enumerate(names):
        with open(os.path.join(path, n), "wb") as f:
            for b in blocks[cuts[i]:cuts[i + 1]]: f.write(C.record(b))
            if pad: f.write(bytes(pad[i] if isinstance(pad, list) else pad))
