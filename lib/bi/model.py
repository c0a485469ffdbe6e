"""Reference UTXO model. A state maps (txid_internal, vout) -> (address or None, value)."""
from . import chain as C

class Invalid(Exception): pass

def apply_tx(utxo, tx, coinbase=False):
    for (h, n, _s, _q) in tx.ins:
        if (h, n) == C.NULL: continue
        if (h, n) not in utxo: raise Invalid("missing input")
        del utxo[(h, n)]
    for i, (v, s) in enumerate(tx.outs):
        if C.unspendable(s): continue
        utxo[(tx.txid, i)] = (C.script_addr(s), v)

def acceptable(utxo, tx):
    return all((h, n) in utxo for (h, n, _s, _q) in tx.ins)

def apply_block(utxo, block):
    for tx in block.txs: apply_tx(utxo, tx)

class Model:
    """Snapshots per block hash, computed lazily along parent links."""
    def __init__(self): self.snap = {C.ZERO: {}}; self.blocks = {}
    def add(self, block):
        if block.hash in self.blocks: return
        self.blocks[block.hash] = block
        u = dict(self.snap[block.prev])
        apply_block(u, block)
        self.snap[block.hash] = u
    def at(self, h): return self.snap[h]
    def drop(self, h): self.snap.pop(h, None)

def view(utxo):
    """address -> {(txid hex, vout): value}"""
    out = {}
    for (h, n), (a, v) in utxo.items():
        if a is not None: out.setdefault(a, {})[(h[::-1].hex(), n)] = v
    return out

def mempool_view(utxo, txs, unavailable=()):
    """Tip state with the listed transactions applied in order; txs is the ordered listing."""
    u = dict(utxo); applied = 0; skipped = 0
    for t in txs:
        if t.txid in unavailable or not acceptable(u, t): skipped += 1; continue
        apply_tx(u, t); applied += 1
    return u, applied, skipped
