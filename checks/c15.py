from .common import *
import struct

class X(G.Gen):
    """Transactions at the edges of the serialisation; nearly every output has an address of its own."""
    LENS = [0, 1, 2, 75, 76, 127, 128, 250, 251, 252, 253, 254, 255, 256, 257, 509, 512, 1000]
    LONG = [65534, 65535, 65536, 65537, 70000]
    def __init__(self, *a, **k):
        super().__init__(*a, **k); self.uniq = []; self.big = 0
    def addr_script(self):
        r = self.r
        if r.random() < 0.1: return super().addr_script()
        h = r.randbytes(20); p = r.random() < 0.5
        self.uniq.append(C.p2pkh_addr(h) if p else C.p2sh_addr(h))
        return C.p2pkh_script(h) if p else C.p2sh_script(h)
    def blob(self, n):
        """Content that looks like other parts of a transaction."""
        r = self.r; k = r.randrange(6)
        if k == 0: return bytes(n)
        if k == 1: return b"\xff" * n
        if k == 2: return (b"\x00\x01" * (n // 2 + 1))[:n]
        if k == 3: return (C.p2pkh_script(r.choice(self.hs)) * (n // 25 + 1))[:n]
        if k == 4: return (b"\xfd\xfd\x00\xfe" * (n // 4 + 1))[:n]
        return r.randbytes(min(n, 300)) + bytes(max(0, n - 300))
    def length(self):
        if self.r.random() < 0.02 and self.big < 12:
            self.big += 1; n = self.r.choice(self.LONG); self.cov["len_%d" % n] += 1
        else:
            n = self.r.choice(self.LENS)
            if n in (252, 253, 254): self.cov["len_%d" % n] += 1
        return n
    def sigscript(self): return self.blob(self.length())
    def script(self):
        r = self.r; x = r.random()
        if x < 0.6: self.cov["script_addr"] += 1; return self.addr_script()
        if x < 0.7: return self.near_miss()
        n = self.length()
        if n == 0: return b""
        s = bytes([r.choice([0x51, 0x6a, 0x00, 0x76, 0xa9])]) + self.blob(n - 1)
        return s if C.script_addr(s) is None or n not in (23, 25) else b"\x51"
    def witness(self, nin):
        r = self.r; w = []
        for _ in range(nin):
            k = r.random()
            if k < 0.3 or nin > 50: w.append([])
            elif k < 0.6: w.append([self.blob(self.length()) for _ in range(r.choice([1, 1, 2, 3, 5]))])
            elif k < 0.9: w.append([b""] * r.choice([1, 2, 3]))
            elif k < 0.97: n = r.choice([252, 253, 254, 255, 256]); self.cov["wit_items_%d" % n] += 1; w.append([self.blob(r.choice([0, 0, 1])) for _ in range(n)])
            elif self.big < 12: self.big += 1; self.cov["wit_items_65536"] += 1; w.append([b""] * r.choice([65535, 65536, 66000]))
            else: w.append([b""])
        if all(not x for x in w): w[r.randrange(nin)] = [r.choice([b"", b"\0", b"\x01", bytes(64)])]
        return w
    def meta(self):
        r = self.r
        return (r.choice([1, 2, 0, -1, -2, 2**31 - 1, -2**31, 256, 0x01000000, 0x00010000, r.getrandbits(31)]),
                r.choice([0, 1, 252, 253, 254, 255, 2**16, 2**24, 499999999, 500000000, 2**31, 2**32 - 1, r.getrandbits(32)]))
    def seqno(self): return self.r.choice([0xFFFFFFFF, 0xFFFFFFFE, 0, 1, 0x80000000, 0x00400000, self.r.getrandbits(32)])
    def query_addrs(self): return self.addrs + self.unseen + self.uniq
    def fanout(self, utxo, n, keys=None):
        """A transaction with n outputs."""
        keys = keys or [self.r.choice(list(utxo))]
        fixed = self.addr_script(); return self.spend(utxo, keys, nout=n, scripts=[self.addr_script() if i % 50 == 0 or n < 300 else fixed for i in range(n)])

def small(e):
    r = e.r; conf = r.choice([1, 2, 3]); g = X(r, naddr=6, heavy=0.0, cov=e.cov)
    chain = [g.genesis()]; n = conf + r.choice([3, 6, 10])
    def grow(chain):
        u = dict(g.m.at(chain[-1].hash)); txs = []; avoid = set()
        def take(t): M.apply_tx(u, t); txs.append(t)
        if u and r.random() < 0.5:
            k = r.choice([251, 252, 253, 254, 255, 256]); take(g.fanout(u, k)); e.cov["outs_%d" % k] += 1
        if len(u) > 260 and r.random() < 0.6:
            k = r.choice([251, 252, 253, 254, 255, 256]); take(g.spend(u, r.sample(list(u), k))); e.cov["ins_%d" % k] += 1
        return g.block(chain[-1], txs=txs, ntx=r.choice([0, 1, 3, 6]) if r.random() < 0.9 else r.choice([250, 251, 252, 253]) - len(txs))
    for _ in range(n - 1): chain.append(grow(chain))
    # every block of the chain arrives through the path under test for its position
    node = e.node(); node.set_chain(chain); nf = r.randrange(conf, len(chain) + 1)
    G.write_files(os.path.join(e.dir, "blocks"), chain[:nf], r, r.choice([1, 2]))
    ix = e.indexer("hooked", node, confirmations=conf, interval=1, threads=r.choice([1, 2, 4]), batch=r.choice([1, 2, 10])).start().wait_ready()
    e.note("conf", conf, "blocks", len(chain), "files", nf)
    ks = range(0, conf + 1)
    views_ok(e, ix, g, chain, ks, None, "after start", True, g.m.at(chain[-1].hash)); e.cov["from_files"] += nf; e.cov["from_node_start"] += len(chain) - nf
    for _ in range(r.choice([2, 4, 7])):
        u = g.m.at(chain[-1].hash); w = dict(u); mem = []
        if r.random() < 0.4: t = g.fanout(w, r.choice([252, 253, 254])); M.apply_tx(w, t); mem.append(t)
        if len(w) > 260 and r.random() < 0.4: t = g.spend(w, r.sample(list(w), r.choice([252, 253, 254]))); M.apply_tx(w, t); mem.append(t)
        mem += g.mempool_txs(w, r.choice([1, 4, 8]))
        node.set_mempool(mem); ix.sync()
        views_ok(e, ix, g, chain, [0], None, "mempool", True, M.mempool_view(u, mem)[0]); e.cov["from_node_mempool"] += len(mem)
        if r.random() < 0.5:
            b = g.block(chain[-1], txs=mem)
            node.set_mempool([])
        else: node.set_mempool([]); b = grow(chain)
        chain.append(b); node.add_block(b); ix.sync()
        views_ok(e, ix, g, chain, ks, None, "new block", False, g.m.at(chain[-1].hash)); e.cov["from_node_update"] += 1
    ix.kill(); ix = e.indexer("hooked", node, confirmations=conf, interval=1, blocks="/nonexistent").start().wait_ready()
    views_ok(e, ix, g, chain, ks, None, "after restart", False, g.m.at(chain[-1].hash))
    e.sig.append((conf, len(chain), nf, chain[-1].id)); e.samples.append(dict(conf=conf, blocks=len(chain), in_files=nf, tx_ids=[t.id[:16] for t in chain[-1].txs[:3]]))

def huge(e):
    """Counts that need the four byte form: inputs, outputs, transactions of a block."""
    r = e.r; conf = 1; g = X(r, naddr=6, heavy=0.0, cov=e.cov); g.big = 99
    chain = [g.genesis()]; chain.append(g.block(chain[0], ntx=0))
    N = r.choice([65535, 65536, 65537]); what = ["outputs", "inputs", "transactions"][(e.idx // 8) % 3]
    if what == "transactions":
        u = dict(g.m.at(chain[-1].hash)); t = g.fanout(u, 300); chain.append(g.block(chain[-1], txs=[t], ntx=0))
        u = dict(g.m.at(chain[-1].hash)); txs = []; key = next(k for k in u if k[0] == t.txid); v = u[key][1]; s = g.addr_script()
        for i in range(N - 1):
            x = C.Tx([(key[0], key[1], b"", i)], [(v, s if i % 3 else b"\x51")]); txs.append(x); key = (x.txid, 0)
        chain.append(g.block(chain[-1], txs=txs, ntx=0))
    else:
        u = dict(g.m.at(chain[-1].hash)); t = g.fanout(u, N); chain.append(g.block(chain[-1], txs=[t], ntx=1))
        if what == "inputs":
            u = dict(g.m.at(chain[-1].hash)); ks = [k for k in u if k[0] == t.txid]; g.sigscript = lambda: b""
            chain.append(g.block(chain[-1], txs=[g.spend(u, ks, nout=3, scripts=[g.addr_script() for _ in range(3)])], ntx=1))
    chain.append(g.block(chain[-1], ntx=2))
    node = e.node(); node.set_chain(chain); nf = r.choice([2, len(chain)]); e.note("huge", what, N, "files", nf)
    G.write_files(os.path.join(e.dir, "blocks"), chain[:nf])
    ix = e.indexer("hooked", node, confirmations=conf, interval=200, threads=r.choice([1, 2]), batch=1).start().wait_ready(200)
    views_ok(e, ix, g, chain, [0, 1], None, "%d %s" % (N, what), False, g.m.at(chain[-1].hash))
    e.cov["huge_" + what] += 1; e.sig.append((what, N, nf))

def scenario(e):
    if e.idx % 8 == 1 and (e.idx // 8) % 4 < 3: huge(e)
    else: small(e)

def run():
    main("C15", scenario, required=("from_files", "from_node_start", "from_node_mempool", "from_node_update", "len_252", "len_253", "len_65536", "wit_items_253", "outs_253", "ins_253", "tx_segwit", "tx_legacy", "huge_outputs"),
         rule="a scenario counts once per distinct chain", assumptions=["lengths in their shortest form, as nodes write them"])
