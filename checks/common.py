"""Shared scenario parts."""
import os, random, shutil, signal, sys, threading, time
from bi import chain as C, model as M, gen as G, node as N, proc as P
from bi.run import V, Inconclusive, main, views_ok, safe, first_height

class World:
    """A generated chain, a node presenting it and an indexer started on block files with a prefix of it."""
    def __init__(self, e, conf=None, extra=None, infiles=None, threads=None, batch=None, naddr=None, heavy=0.03, binary="hooked", delays=None, interval=None, start=True, ntx=None, node_kw=None, collide=0.12, hold_twins=False, **kw):
        r = e.r; self.e = e
        self.conf = conf if conf is not None else r.choice([1, 2, 3, 3, 4, 6, 7, 10])
        self.g = g = G.Gen(r, naddr=naddr or r.choice([6, 10, 16]), heavy=heavy, cov=e.cov, collide=collide); g.hold = hold_twins
        n = self.conf + (extra if extra is not None else r.choice([0, 1, 2, 5, 12, 30]))
        self.chain = g.new_chain(max(n, 1), **({"ntx": ntx} if ntx is not None else {}))
        self.node = e.node(**(node_kw or {})); self.node.set_chain(self.chain)
        self.infiles = infiles if infiles is not None else r.choice([len(self.chain), len(self.chain), r.randrange(self.conf, len(self.chain) + 1)])
        self.threads = threads or r.choice([1, 1, 2, 3, 8]); self.batch = batch or r.choice([1, 2, 3, 7, 1000])
        G.write_files(os.path.join(e.dir, "blocks"), self.chain[:self.infiles], r, r.choice([1, 2, 4]))
        self.binary = binary; self.kw = dict(threads=self.threads, batch=self.batch, confirmations=self.conf, interval=interval if interval is not None else r.choice([0, 1, 1, 3]), **kw)
        self.delays = delays
        e.note("conf", self.conf, "blocks", len(self.chain), "in files", self.infiles, "threads", self.threads, "batch", self.batch)
        e.sig.append((self.conf, len(self.chain), self.infiles, self.threads, self.batch))
        self.ix = None; self.mem = []
        self.max_tip = len(self.chain) - 1
        if start: self.start()
    def delay_env(self):
        r = self.e.r
        p, ms = self.delays
        return dict(VERIF_DELAY_PERCENT=str(p), VERIF_DELAY_MS=str(ms), VERIF_DELAY_SEED=str(r.getrandbits(32)))
    def start(self, wait=True, **kw):
        k = dict(self.kw); k.update(kw)
        if self.delays: k["env"] = dict(k.get("env") or {}, **self.delay_env())
        self.base = len(self.node.trace)
        self.ix = self.e.indexer(self.binary, self.node, **k).start()
        if wait: self.ix.wait_ready()
        return self.ix
    def restart(self, sig=signal.SIGKILL, drop_blocks=True, **kw):
        self.ix.kill(sig)
        if drop_blocks: shutil.rmtree(os.path.join(self.e.dir, "blocks"), ignore_errors=True)
        return self.start(**kw)
    @property
    def tip(self): return self.chain[-1]
    def utxo(self): return self.g.m.at(self.tip.hash)
    def pool(self, unavailable=()): return M.mempool_view(self.utxo(), self.mem, unavailable)[0]
    def ks(self, zero=True): return list(range(0 if zero else 1, self.conf + 1))
    def check(self, what, ks=None, balances=False, addrs=None, pool=None):
        views_ok(self.e, self.ix, self.g, self.chain, ks if ks is not None else self.ks(), addrs, what, balances, pool if pool is not None else self.pool())
    def add(self, n=1, **kw):
        """n new blocks, presented one by one."""
        for _ in range(n):
            b = self.g.block(self.tip, **kw)
            self.chain.append(b); self.node.add_block(b)
        self.max_tip = max(self.max_tip, len(self.chain) - 1)
        self.e.sig.append(n)
    def present(self, chain):
        self.chain = chain; self.node.set_chain(chain); self.max_tip = max(self.max_tip, len(chain) - 1)
    def settle_mempool(self):
        """What a node keeps after its tip changed: transactions still acceptable in order."""
        u = dict(self.utxo()); keep = []
        for t in self.mem:
            if M.acceptable(u, t): M.apply_tx(u, t); keep.append(t)
        self.mem = keep
        return keep
    def branch(self, depth, longer, reuse=0.5, conflict=0.5, top=None):
        """A new branch off `depth` blocks below the tip, `longer` blocks longer. Abandoned transactions are re-mined or conflicted with."""
        r = self.e.r; g = self.g; ch = self.chain
        base = ch[:len(ch) - depth]; old = [t for b in ch[len(ch) - depth:] for t in b.txs[1:]]
        new = list(base); left = list(old)
        if self.g.sibling is not None and len(base) == 2:   # an abandoned block and its replacement with partly equal hashes
            new.append(self.g.sibling); self.e.cov["sibling_with_partly_equal_hash"] += 1
        for i in range(depth + longer - (len(new) - len(base))):
            u = dict(g.m.at(new[-1].hash)); txs = []; rest = []
            for t in left:
                if M.acceptable(u, t) and r.random() < reuse:
                    M.apply_tx(u, t); txs.append(t); self.e.cov["remined"] += 1
                elif M.acceptable(u, t) and r.random() < conflict:
                    k = r.choice(t.ins)[:2]
                    if k in u:
                        c = g.spend(u, [k]); M.apply_tx(u, c); txs.append(c); self.e.cov["conflicting"] += 1
                else: rest.append(t)
            left = rest
            new.append(g.block(new[-1], txs=txs, ntx=r.choice([0, 0, 1, 2, 4])))
        self.e.cov["abandoned_txs"] += len(old)
        return new

def clamp(n, lo, hi): return max(lo, min(hi, n))
