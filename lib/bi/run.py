"""Runner shared by all checks: workers, budgets, three-valued verdicts, evidence, replays, known findings."""
import hashlib, json, multiprocessing as mp, os, queue, random, shutil, signal, sys, time, traceback
from collections import Counter
from . import build, proc, node as N, gen as G, model as M

VERIF = build.VERIF
EVID = os.path.join(VERIF, "evidence")

class V(Exception):
    """A violation. key identifies the failing input/call site/history for the known-findings file."""
    def __init__(self, msg, witness=None, key=None): super().__init__(msg); self.witness = witness; self.key = key or ""

class Inconclusive(Exception): pass

class Env:
    """One scenario's world: scratch directory, node, indexers; removed afterwards."""
    def __init__(self, seed, cov, bins, tier):
        self.r = random.Random(seed); self.cov = cov; self.bins = bins; self.tier = tier
        self.dir = proc.scratch(); self.nodes = []; self.ixs = []; self.sig = []; self.samples = []; self.log = []
    def node(self, host=None, **kw):
        n = N.Node(host or proc.fresh_ip(), **kw); self.nodes.append(n); return n
    def indexer(self, binary, node, **kw):
        kw.setdefault("dir_", self.dir)
        ix = proc.Indexer(self.bins[binary], node, **kw); self.ixs.append(ix); return ix
    def note(self, *a):
        self.log.append(" ".join(str(x) for x in a))
    def close(self):
        for i in reversed(self.ixs):
            try: i.kill()
            except Exception: pass
        for n in self.nodes:
            try: n.close()
            except Exception: pass
        shutil.rmtree(self.dir, ignore_errors=True)

def one(fn, prop, seed, idx, bins, tier, deadline=float("inf")):
    """-> (status, detail, cov, sig, samples). status: ok | violation | inconclusive | error"""
    cov = Counter(); last = None
    for attempt in range(3):
        e = Env("%s/%s/%s" % (seed, prop, idx), cov, bins, tier); e.idx = idx; e.attempt = attempt; e.deadline = deadline
        try:
            fn(e)
            return ("ok", None, cov, hashlib.sha256(repr(e.sig).encode()).hexdigest()[:16] if e.sig else None, e.samples)
        except V as v:
            return ("violation", dict(msg=str(v), witness=v.witness, key=v.key, log=e.log[-40:], stderr=[i.stderr()[-800:] for i in e.ixs[-2:]]), cov, None, [])
        except (proc.Died, proc.Bad) as x:
            codes = [i.p.returncode for i in e.ixs if i.p is not None and i.p.poll() is not None]
            if isinstance(x, proc.Died) and any(k in str(x) for k in ("Cannot assign", "Address already in use", "Too many open files", "exited with -9", "os error 24", "ENOMEM", "memory allocation of")):
                last = ("inconclusive", dict(msg=str(x)), cov, None, []); continue
            return ("violation", dict(msg=str(x), witness=dict(exit_codes=codes), key=type(x).__name__, log=e.log[-40:], stderr=[i.stderr()[-800:] for i in e.ixs[-2:]]), cov, None, [])
        except proc.Stuck as x:
            st = [i.stderr()[-800:] for i in e.ixs[-2:]]
            last = ("violation", dict(msg="no progress (seen in %d runs of the same scenario): %s %s" % (attempt + 1, x, getattr(x, "detail", "")), key="Stuck", log=e.log[-40:], stderr=st), cov, None, [])
            if attempt >= 1: return last
            continue
        except Inconclusive as x:
            last = ("inconclusive", dict(msg=str(x), log=e.log[-6:]), cov, None, []); continue
        except Exception:
            last = ("error", dict(msg=traceback.format_exc()[-3000:], log=e.log[-20:]), cov, None, []); continue
        finally: e.close()
    return last

def _worker(fn, prop, seed, start, step, end, soft, maxn, bins, tier, q, stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN); signal.signal(signal.SIGTERM, lambda *_: sys.exit(0))   # what a scenario started is stopped and removed
    i = start
    while time.monotonic() < end and not stop.is_set() and (maxn is None or i < maxn):
        q.put((i,) + one(fn, prop, seed, i, bins, tier, soft)); i += step
    q.put(None)

def known():
    p = os.path.join(VERIF, "known_findings.json")
    return [k for k in json.load(open(p)) if k.get("status") == "open"] if os.path.exists(p) else []

def main(prop, fn, need_bins=("hooked",), quick_s=45, thorough_s=600, required=(), rule="", level="exploration", assumptions=(), workers=8, min_ok=8, extra=None, maxn=None):
    """fn(env): one scenario. required: coverage keys that must have been observed. extra(ctx): additional engines run before, may raise V."""
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if tier not in ("quick", "thorough"): tier = "quick"
    budget = float(os.environ.get("BI_BUDGET", quick_s if tier == "quick" else thorough_s))
    t0 = time.monotonic(); os.makedirs(EVID, exist_ok=True)
    try: bins = prepare(need_bins)
    except build.BuildError as x:
        print("ERROR: build failed\n%s" % x); sys.exit(3)
    if "--replay" in sys.argv:
        rp = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        if rp.get("idx") is None: extra(dict(bins=bins, tier=rp["tier"], seed=rp["seed"], cov=Counter(), samples=[], budget=budget)); print("no violation"); sys.exit(0)
        st = one(fn, prop, rp["seed"], rp["idx"], bins, rp["tier"]); print(st[0], json.dumps(st[1], indent=1, default=str)); sys.exit(1 if st[0] == "violation" else 0)
    cov = Counter(); sigs = set(); samples = []; n = 0; viol = []; inc = []; errs = []; knownhits = Counter()
    tb = time.monotonic()
    if extra is not None:
        ctx = dict(bins=bins, tier=tier, seed=seed, cov=cov, samples=samples, budget=budget)
        try: extra(ctx)
        except V as v: viol.append((None, dict(msg=str(v), witness=v.witness, key=v.key)))
        except build.BuildError as x: print("ERROR: build failed\n%s" % x); sys.exit(3)
        except Inconclusive as x: inc.append((None, dict(msg=str(x))))
        except Exception: errs.append((None, dict(msg=traceback.format_exc()[-3000:])))
    if fn is not None and not viol:
        # past the budget only until everything that has to be observed was observed
        q = mp.Queue(); stop = mp.Event(); soft = time.monotonic() + budget; end = soft + (max(240, budget) if maxn is None else 0)
        ps = [mp.Process(target=_worker, args=(fn, prop, seed, w, workers, end, soft, maxn, bins, tier, q, stop), daemon=True) for w in range(workers)]
        for p in ps: p.start()
        live = workers; hard = end + 400
        kn = known()
        while live:
            if not stop.is_set() and time.monotonic() > soft and n - len(inc) - len(errs) >= min_ok and all(cov.get(k) for k in required): stop.set(); hard = time.monotonic() + 400
            if viol and time.monotonic() > grace: break
            try: m = q.get(timeout=0.5)
            except queue.Empty:
                if time.monotonic() > hard: inc.append((None, dict(msg="workers exceeded the hard limit"))); break
                if not any(p.is_alive() for p in ps) and q.empty(): break
                continue
            if m is None: live -= 1; continue
            i, st, detail, c, sig, smp = m
            cov.update(c); n += 1
            if st == "ok":
                if sig: sigs.add(sig)
                if len(samples) < 4: samples.extend(smp[:4 - len(samples)])
            elif st == "violation":
                k = next((k for k in kn if k["property"] == prop and k["key"] and k["key"] == detail.get("key")), None)
                if k: knownhits[k["key"] + ": " + k["what"]] += 1
                else:
                    if not viol: grace = time.monotonic() + 15
                    viol.append((i, detail)); stop.set()
            elif st == "inconclusive": inc.append((i, detail))
            else: errs.append((i, detail))
        for p in ps:
            if not viol: p.join(timeout=5)
            if p.is_alive(): p.terminate()
        for p in ps:
            p.join(timeout=10)
            if p.is_alive(): p.kill()
    missing = [k for k in required if not cov.get(k)]
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
              coverage=dict(evaluations=n + cov.get("evaluations_extra", 0), distinct_nontrivial=len(sigs) + cov.get("distinct_extra", 0), rule=rule, samples=samples[:6] or ["none"],
                            observed={k: v for k, v in sorted(cov.items())}, inconclusive=len(inc), inconclusive_details=[(i, d.get("msg", "")[:300], d.get("log", [])[-6:]) for i, d in inc[:5]], harness_errors=len(errs), run_s=round(time.monotonic() - tb, 1)),
              assumptions=list(assumptions), wall_s=round(time.monotonic() - t0, 1), violations=len(viol))
    with open(os.path.join(EVID, prop + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
    for k, c in knownhits.items(): print("KNOWN-FINDING: property=%s %s (%d times)" % (prop, k, c))
    if viol:
        i, d = viol[0]
        path = os.path.join(EVID, "replay-%s.json" % prop)
        with open(path, "w") as f: json.dump(dict(property=prop, seed=seed, tier=tier, idx=i, **d), f, indent=1, default=str)
        print("violation in scenario %s: %s" % (i, d["msg"][:1500]))
        if d.get("log"): print("history: " + " | ".join(d["log"][-12:])[:1500])
        for s in d.get("stderr") or []:
            if s: print("stderr: " + s[-600:])
        print("VIOLATION property=%s replay=%s" % (prop, path)); sys.exit(1)
    print("%s %s: %d scenarios, %d distinct, %d inconclusive, %d errors, %.0f s; observed %s" % (prop, tier, n, len(sigs), len(inc), len(errs), time.monotonic() - t0, json.dumps(dict(sorted(cov.items())))))
    if errs: print("HARNESS ERROR (scenario %s): %s" % (errs[0][0], errs[0][1]["msg"]))
    bad = len(inc) + len(errs)
    if fn is not None and n - bad < min_ok or missing or bad > max(2, n // 10) or (fn is None and bad):
        print("INCONCLUSIVE: %d conclusive scenarios, missing observations %s, %s" % (n - bad, missing, inc[:1])); sys.exit(5)
    print("OK property=%s" % prop); sys.exit(0)

def prepare(names):
    """Paths by name. A name ending in ? may be missing from the result (its build failed)."""
    bins = {}
    for b in names:
        opt = b.endswith("?"); b = b.rstrip("?")
        try: bins[b] = build.make(b)
        except build.BuildError as x:
            if b == "hooked": bins[b] = build.plain()   # a tree on which the hooks no longer fit is still judged, without delays
            elif not opt: raise
            else: bins.setdefault("missing", []).append((b, str(x)[-600:]))
    return bins

# ---- helpers used by many scenarios
def views_ok(e, ix, g, chain, ks, addrs=None, what="", balances=False, pool=None):
    """Compare the answers for every k in ks with the reference. k=0 uses `pool` (a utxo state), k>=1 the block with k confirmations."""
    addrs = addrs or g.query_addrs()
    for k in ks:
        st = pool if k in (0, None) else g.m.at(chain[-k].hash)
        if st is None: continue
        want = M.view(st)
        d = safe(proc.compare_utxos, ix.utxos(addrs, k), addrs, want)
        if d: raise V("%s: confirmations=%s, tip height %d: %s" % (what, k, len(chain) - 1, d), dict(k=k, height=len(chain) - 1), key="utxos")
        e.cov["views_compared"] += 1; e.cov["outputs_compared"] += sum(len(want.get(a, ())) for a in addrs)
        if balances:
            d = safe(proc.compare_balances, ix.balances(addrs, k), addrs, want)
            if d: raise V("%s: confirmations=%s, tip height %d: %s" % (what, k, len(chain) - 1, d), dict(k=k, height=len(chain) - 1), key="balance")

def safe(f, *a):
    """A response of unexpected shape is a difference, not an error of the check."""
    try: return f(*a)
    except (KeyError, TypeError, ValueError, AttributeError, IndexError) as x: return "malformed response: %r in %s" % (x, str(a[0])[:300])

def first_height(node, base=0):
    """Smallest height the node was asked for since trace position base, i.e. the number of blocks the index held at start."""
    hs = [p[0] for (s, m, p, meta) in node.trace[base:] if m == "getblockhash" and p]
    return hs[0] if hs else None
