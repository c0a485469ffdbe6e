from .common import *
import hashlib

def digest(p):
    try: return hashlib.sha256(open(p, "rb").read()).hexdigest()
    except OSError: return None

def scenario(e):
    r = e.r; w = World(e, conf=r.choice([1, 2, 3, 6, 10]), naddr=r.choice([4, 10]), heavy=0.0, ntx=r.choice([1, 3]), extra=r.choice([3, 10]), delays=r.choice([None, None, (20, 1)]))
    store = w.ix.store; w.check("first start"); S = len(w.chain) - (w.conf - 1); floor = S; first_conf = w.conf; hist = [w.conf]
    for step in range(r.choice([3, 5, 8])):
        how = r.choice(["sync", "sync", "kill_soon"])
        k = r.random()
        if k < 0.5: w.add(r.choice([1, 2, 4, w.conf, w.conf + 3]))
        elif k < 0.75 and len(w.chain) - 1 >= floor + 1:
            d = r.randrange(1, min(len(w.chain) - floor, w.conf) + 0) if min(len(w.chain) - floor, w.conf) > 1 else 0
            if d: w.present(w.branch(d, r.choice([1, 2]))); e.cov["reorgs"] += 1
        w.mem = w.settle_mempool() + w.g.mempool_txs(w.pool(), r.choice([0, 2])); w.mem = w.settle_mempool(); w.node.set_mempool(w.mem)
        if how == "sync": w.ix.sync(); w.check("running with CONFIRMATIONS=%s" % hist[-3:])
        else: time.sleep(r.choice([0, 0.002, 0.01]))
        S = max(S, len(w.chain) - (w.conf - 1)); floor = max(floor, S)      # blocks that may be promoted by now
        w.ix.kill(r.choice([signal.SIGKILL, signal.SIGTERM]))
        # the next run is configured differently
        new = r.choice([1, 1, 2, 3, 5, 6, 8, 10, 14]); kw = {}
        if r.random() < 0.5: kw["threads"] = r.choice([1, 2, 8])
        if r.random() < 0.5: kw["batch"] = r.choice([1, 5, 10**6])
        if r.random() < 0.4: kw["interval"] = r.choice([0, 1, 4])
        if r.random() < 0.3:
            moved = os.path.join(e.dir, "moved.%d" % step, "s t\u00f6re.dat"); os.makedirs(os.path.dirname(moved)); shutil.move(store, moved); store = moved; e.cov["store_moved"] += 1
        w.kw["store"] = store
        if r.random() < 0.4:     # the files the index was built from are gone, or others stand in their place
            b = os.path.join(e.dir, "blocks"); shutil.rmtree(b, ignore_errors=True)
            if r.random() < 0.5: os.makedirs(b); open(os.path.join(b, "blk00000.dat"), "wb").write(r.randbytes(500)); e.cov["other_block_files"] += 1
        if r.random() < 0.3: w.add(r.choice([1, new, new + 2])); w.mem = w.settle_mempool(); w.node.set_mempool(w.mem); e.cov["advanced_while_down"] += 1
        enough = new <= len(w.chain) - S + 1; before = digest(store); old = w.conf; n0 = w.conf
        w.start(wait=False, confirmations=new, **kw)
        try:
            w.ix.wait_ready(); started = True
        except P.Died as x:
            started = False
            if enough: raise V("restart with CONFIRMATIONS %d after %s: %s" % (new, hist[-4:], x), dict(blocks=len(w.chain), promoted_at_most=S), key="refused")
        if started:
            w.conf = new; w.kw["confirmations"] = new; w.kw.update(kw); w.check("restarted with CONFIRMATIONS %d after %s" % (new, hist[-4:]), balances=True)
            st, _, _ = w.ix.call("GET", "/addresses/%s/balance?confirmations=%d" % (C.p2pkh_addr(b"\7" * 20), new + 1))
            if st != 400: raise V("CONFIRMATIONS was changed to %d but confirmations=%d is answered with %d" % (new, new + 1, st), key="limit")
            e.cov["raised" if new > old else "lowered" if new < old else "same"] += 1; S = max(S, len(w.chain) - (new - 1)); hist.append(new)
        else:
            # not enough blocks above the store for that many depths: refused, and nothing is lost by it
            rc = w.ix.wait_exit(20)
            if rc == 0: raise V("could not serve CONFIRMATIONS %d but exited with status 0" % new, key="status")
            if digest(store) != before: raise V("a start that was refused changed the store file", key="store")
            e.cov["refused"] += 1; w.start(confirmations=old); w.check("back to CONFIRMATIONS %d after a refused start" % old, balances=True)
        floor = max(floor, S); e.sig.append((new, started, step))
    e.samples.append(dict(first=first_conf, confirmations=hist))

def run():
    main("C25", scenario, required=("raised", "lowered", "refused", "store_moved", "other_block_files", "reorgs", "advanced_while_down"),
         rule="a scenario counts once per distinct sequence of configurations and chain changes", assumptions=["branches fork above every block that one of the runs may have promoted"])
