from .common import *
import glob

KILL = [("before", False), ("after", False), ("before", True), ("after", True)]

def modes(op, tier):
    m = list(KILL) + [("errno:5", False), ("errno:28", False), ("full:28", False)]
    if op in ("write", "writev", "pwrite", "pwrite64", "copy_file_range", "sendfile"):
        m += [("partial", False), ("partial", True), ("short", False), ("eintr", False)]
    return m

class Setup:
    def __init__(self, e):
        r = e.r; self.e = e
        self.w = w = World(e, conf=r.choice([1, 2, 3, 6]), extra=r.choice([2, 4, 9]), start=False, naddr=8, threads=r.choice([1, 2]), heavy=r.choice([0.0, 0.05]), interval=1)
        self.st = os.path.join(e.dir, "st"); os.mkdir(self.st); self.store = os.path.join(self.st, "store.dat")
        self.blocks = os.path.join(e.dir, "blocks"); self.arm = os.path.join(e.dir, "arm"); self.logf = os.path.join(e.dir, "ops")
        w.kw["store"] = self.store
        self.n = len(w.chain)
        # what is presented later: promotes blocks and so rewrites the store; the last block merges outputs so that the store shrinks
        ch = w.g.extend(list(w.chain), r.choice([1, 2, w.conf + 1]))
        u = w.g.m.at(ch[-1].hash); ks = [k for k in u if u[k][0] is not None][:200]
        ch.append(w.g.block(ch[-1], txs=[w.g.spend(u, ks, nout=1)], ntx=0)); self.later = ch
        self.more = w.g.extend(list(ch), w.conf + 1)
    def shim(self, **kw): return dict({"SHIM_PREFIX": self.st}, **kw)
    def run(self, shim=None, blocks=True):
        k = dict(self.w.kw); k["blocks"] = self.blocks if blocks else "/nonexistent/blocks"
        self.w.base = len(self.w.node.trace)
        self.w.ix = self.e.indexer("hooked", self.w.node, **k, **(dict(preload=self.e.bins["shim"], shim=shim) if shim else {}))
        return self.w.ix.start()
    def clear(self):
        for f in glob.glob(os.path.join(self.st, "*")) + glob.glob(os.path.join(self.st, ".*")):
            if os.path.isfile(f): os.unlink(f)
        for f in (self.logf, self.arm):
            if os.path.exists(f): os.unlink(f)
    def ops(self):
        if not os.path.exists(self.logf): return []
        return [l.split(" ")[1] for l in open(self.logf).read().splitlines()]
    def load(self, snap):
        self.clear()
        for n, d in snap.items():
            with open(os.path.join(self.st, n), "wb") as f: f.write(d)
    def save(self): return {n: open(os.path.join(self.st, n), "rb").read() for n in os.listdir(self.st)}

def settle(s, chain, what):
    s.w.chain = chain; s.w.node.set_chain(chain); s.w.ix.sync(); s.w.check(what)

def dead(ix, timeout=60):
    return ix.wait_exit(timeout) is not None

def after_crash(s, what, first):
    """The next start, without any repair; then one more write and start on top of whatever the crash left behind."""
    e, w = s.e, s.w
    need_blocks = first and not os.path.exists(s.store)
    ix = s.run(blocks=need_blocks)
    try: ix.wait_ready()
    except P.Died as x: raise V("%s: the next start fails: %s; files %s" % (what, str(x)[:600], {n: os.path.getsize(os.path.join(s.st, n)) for n in os.listdir(s.st)}), dict(crash=what), key=what)
    w.check(what + ": after the next start", balances=False)
    e.cov["restarts_after_crash"] += 1
    if s.e.r.random() < 0.35:
        st0 = os.stat(s.store) if os.path.exists(s.store) else None
        settle(s, s.more, what + ": more blocks after the restart")
        end = time.monotonic() + 3
        while time.monotonic() < end:
            st1 = os.stat(s.store) if os.path.exists(s.store) else None
            if st1 and (not st0 or (st1.st_ino, st1.st_mtime_ns, st1.st_size) != (st0.st_ino, st0.st_mtime_ns, st0.st_size)): break
            time.sleep(0.002)
        ix.kill(); ix = s.run(blocks=False)
        try: ix.wait_ready()
        except P.Died as x: raise V("%s: second start after the crash fails: %s" % (what, str(x)[:600]), dict(crash=what), key=what)
        w.check(what + ": second start after the crash"); e.cov["second_generation"] += 1
    ix.kill()

def scenario(e):
    r = e.r; s = Setup(e); w = s.w; big = e.tier == "thorough"
    # count the operations of the first and of a later write
    s.run(s.shim(SHIM_LOG=s.logf)).wait_ready(); w.check("clean start"); first_ops = s.ops()
    snap = None; w.ix.kill(); base = s.save()
    s.clear(); s.load(base)
    ix = s.run(s.shim(SHIM_LOG=s.logf, SHIM_ARM=s.arm), blocks=False).wait_ready(); open(s.arm, "w").close()
    settle(s, s.later, "clean later write")
    end = time.monotonic() + 5; last = None
    while time.monotonic() < end:   # the operations of the later write have stopped coming
        o = s.ops()
        if o and o == last: break
        last = o; time.sleep(0.05)
    later_ops = s.ops(); ix.kill()
    e.cov["first_write_ops"] += len(first_ops); e.cov["later_write_ops"] += len(later_ops)
    if not first_ops or not later_ops: raise Inconclusive("no file operations seen: %s %s" % (first_ops, later_ops))
    plan = [(True, i + 1, op, m) for i, op in enumerate(first_ops[:60]) for m in modes(op, e.tier)] + [(False, i + 1, op, m) for i, op in enumerate(later_ops[:60]) for m in modes(op, e.tier)]
    r.shuffle(plan); full = len(plan)
    # every scenario of a quick run takes a third; eight workers cover each point several times over
    part = plan if big else plan[:max(30, full // 3)]
    e.note("first", first_ops, "later", later_ops)
    for first, n, op, (mode, lose) in part:
        if time.monotonic() > e.deadline: break
        what = "%s write, operation %d (%s) %s%s" % ("first" if first else "later", n, op, mode, " with loss of unsynchronised data" if lose else "")
        sh = s.shim(SHIM_AT=str(n), SHIM_MODE=mode, SHIM_LOG=s.logf)
        if lose: sh["SHIM_LOSE"] = "1"
        if first: s.clear(); w.chain = s.later[:s.n]; w.node.set_chain(w.chain)
        else: s.load(base); w.chain = s.later[:s.n]; w.node.set_chain(w.chain); sh["SHIM_ARM"] = s.arm
        e.note(what)
        ix = s.run(sh, blocks=first)
        kills = mode in ("before", "after", "partial")
        try:
            ix.wait_ready()
        except P.Died:
            if not first: raise
        if not first:
            open(s.arm, "w").close(); w.chain = s.later; w.node.set_chain(s.later)
        if kills:
            if not first or ix.alive():
                if not dead(ix, 10): raise Inconclusive("operation %d not reached" % n)   # fewer operations this time
            if ix.p.returncode != -9: raise V("%s: exit status %s instead of the kill" % (what, ix.p.returncode), key=what) if ix.p.returncode != 101 else V("%s: died by itself: %s" % (what, ix.stderr()[-500:]), key=what)
            e.cov["kills"] += 1
        elif mode in ("short", "eintr"):
            if not ix.alive() : raise V("%s: the process does not survive it: %s" % (what, ix.stderr()[-500:]), key=what)
            w.ix.sync(); 
            end = time.monotonic() + 5
            while len(s.ops()) < n and time.monotonic() < end: time.sleep(0.002)
            time.sleep(0.02)
            w.check(what); ix.kill(); e.cov["partial_writes_survived"] += 1
        else:
            # an I/O error may end the process or be survived, never hang it
            end = time.monotonic() + 5
            while ix.alive() and len(s.ops()) < n and time.monotonic() < end: time.sleep(0.002)
            time.sleep(0.02)
            if ix.alive():
                try: w.ix.sync(); w.check(what + ": surviving process")
                except P.Died: pass
                e.cov["errors_survived"] += 1
            else:
                if ix.p.returncode == 0: raise V("%s: exit status 0 after a failed write" % what, key=what)
                e.cov["errors_fatal"] += 1
            ix.kill(); e.cov["io_errors"] += 1
        after_crash(s, what, first)
        e.cov["fault_points"] += 1; e.sig.append((first, n, mode, lose))
        e.cov["point_%s_%s%s" % ("first" if first else "later", mode.split(":")[0], "_lose" if lose else "")] += 1
    e.samples.append(dict(first=first_ops, later=later_ops, tested=len(part), of=full))

def run():
    main("C07", scenario, need_bins=("hooked", "shim"), level="fault_enumeration", required=("kills", "io_errors", "partial_writes_survived", "restarts_after_crash", "second_generation", "point_first_before", "point_later_before", "point_later_after_lose", "point_later_partial", "point_first_partial"),
         rule="each fault point is (first or later write, file operation, kind of fault); a scenario counts once per distinct set", min_ok=6,
         assumptions=["operations on the store directory pass through libc, where the shim sees them", "power loss keeps completed renames and everything synchronised, and may lose all other data (files cut to their synchronised length)"])
