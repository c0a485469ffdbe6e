from .common import *
import json

def J(x): return json.dumps(x).encode()
def ok(x): return ("raw", 200, J({"result": x, "error": None, "id": "x"}))

def faults(method, val):
    """name -> directive: every way the exchange can fail for this request; val: what a healthy node answers (None: absent)."""
    good = J({"result": val, "error": None, "id": "x"})
    d = {
        "closed": ("close",), "truncated": ("truncate", good + b" " * 64), "no_reply_bytes": ("bytes", b""), "garbage": ("bytes", b"\x00\x01\x02garbage\r\n\r\n"),
        "half_head": ("bytes", b"HTTP/1.1 200 OK\r\nContent-Le"), "chunk_cut": ("bytes", b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n" % len(good) + good[:len(good) // 2]),
        "401": ("raw", 401, b""), "403": ("raw", 403, b"<html>forbidden</html>"), "404": ("raw", 404, J({"result": None, "error": {"code": -32601, "message": "Method not found"}, "id": "x"})), "503": ("raw", 503, b"Work queue depth exceeded"),
        "401_with_result": ("raw", 401, good), "500_html": ("raw", 500, b"<html></html>"), "500_empty": ("raw", 500, b""), "500_no_error": ("raw", 500, J({"result": None, "error": None, "id": "x"})), "500_result": ("raw", 500, good),
        "500_no_code": ("raw", 500, J({"result": None, "error": {"message": "x"}, "id": "x"})), "500_code_text": ("raw", 500, J({"result": None, "error": {"code": "-8", "message": "x"}, "id": "x"})),
        "warmup": ("raw", 500, J({"result": None, "error": {"code": -28, "message": "Loading block index..."}, "id": "x"})), "internal": ("raw", 500, J({"result": None, "error": {"code": -32603, "message": "x"}, "id": "x"})),
        "200_empty": ("raw", 200, b""), "200_html": ("raw", 200, b"<html></html>"), "200_cut_json": ("raw", 200, good[:-3]), "200_two": ("raw", 200, good + good), "null": ok(None), "number": ok(7), "true": ok(True), "object": ok({"hex": val}), "no_result": ("raw", 200, b"{}"), "bare_array": ("raw", 200, b"[]"),
    }
    if method == "getrawmempool":
        h = "ab" * 32
        d.update({"not_list": ok(h), "numbers": ok([1]), "nulls": ok([None]), "short_hash": ok([h[:-2]]), "odd_hash": ok([h[:-1]]), "long_hash": ok([h + "00"]), "not_hex": ok([h[:-1] + "g"]), "not_ascii": ok([h[:-2] + "é"]), "verbose": ok({h: {}})})
        if val: d.update({"good_then_bad": ok(val + ["zz" * 32])})
    else:
        d.update({"list": ok([val])})
        if isinstance(val, str):
            d.update({"odd_hex": ok(val[:-1]), "not_hex": ok(val[:-1] + "g"), "not_hex_first": ok("x" + val[1:])})
    if method == "getblockhash": d.update({"-5": ("raw", 500, J({"result": None, "error": {"code": -5, "message": "Block height out of range"}, "id": "x"})), "unknown_hash": ok("cd" * 32), "short_hash": ok("cd" * 31), "empty": ok("")})
    if method == "getrawtransaction": d.update({"-8": ("raw", 500, J({"result": None, "error": {"code": -8, "message": "x"}, "id": "x"}))})
    if method in ("getrawtransaction", "getblock") and isinstance(val, str):
        d.update({"cut_byte": ok(val[:-2]), "cut_half": ok(val[:len(val) // 4 * 2]), "empty": ok(""), "one_byte": ok("01")})
    if method == "getblock":
        d.update({"header_only": ok(val[:160]), "header_cut": ok(val[:158]), "-5": ("raw", 500, J({"result": None, "error": {"code": -5, "message": "Block not found"}, "id": "x"})), "pruned": ("raw", 500, J({"result": None, "error": {"code": -1, "message": "Block not available (pruned data)"}, "id": "x"})), "-8": ("raw", 500, J({"result": None, "error": {"code": -8, "message": "x"}, "id": "x"}))})
    return d

class Watch:
    """Queries until the process is gone; every answer must be that of one of the admissible states."""
    def __init__(self, e, w, pools, tips):
        self.e = e; self.w = w; g = w.g; self.addrs = g.query_addrs()
        self.ok = {0: [M.view(p) for p in pools]}
        for k in range(1, w.conf + 1): self.ok[k] = [M.view(g.m.at(ch[-k].hash)) for ch in tips if len(ch) >= k]
    def once(self, h):
        k = self.e.r.randrange(0, self.w.conf + 1)
        st, _, b = h.post("/addresses/utxos?confirmations=%d" % k, J(self.addrs))
        if st != 200: raise V("status %d while the node failed" % st, key="status")
        x = P.parse(b); ds = [safe(P.compare_utxos, x, self.addrs, v) for v in self.ok[k]]
        if all(ds): raise V("an answer for confirmations=%d while the node failed is not that of a consistent earlier state: %s" % (k, ds[0]), dict(k=k), key="answer")
        self.e.cov["answers_checked"] += 1
    def until_exit(self, why, timeout=20, started=True):
        w, e = self.w, self.e; ix = w.ix; end = time.monotonic() + timeout; h = None; t0 = time.monotonic()
        while ix.alive() and time.monotonic() < end:
            if not started:
                if ix.listening() and ix.alive(): started = True
                else: time.sleep(0.002); continue
            try:
                if h is None: h = ix.http(10)
                self.once(h)
            except (OSError, P.HttpError): h = None; time.sleep(0.001)
        if ix.alive(): raise V("%s: the process still runs %d s later" % (why, timeout), dict(why=why), key="alive:" + why.split(" at ")[0])
        code = ix.p.wait()
        if code == 0: raise V("%s: the process ended with status 0" % why, dict(why=why), key="status0")
        e.cov["exits_checked"] += 1; x = time.monotonic() - t0; e.cov["exit_within_%s" % ("100ms" if x < 0.1 else "1s" if x < 1 else "20s")] += 1

def recover(e, w, chain, mem, why):
    """A restart with a healthy node is right again."""
    n = w.node; n.hook = None; n.unavailable = set(); w.present(chain); w.mem = mem; w.mem = w.settle_mempool(); n.set_mempool(w.mem)
    have = os.path.exists(w.ix.store); w.restart(drop_blocks=have)
    try: w.check("restart after " + why)
    except P.Died as x: raise V("restart after %s: %s" % (why, x), key="restart")
    w.add(1); w.settle_mempool(); n.set_mempool(w.mem); w.ix.sync(); w.check("a block after the restart after " + why); e.cov["recoveries"] += 1

def world(e, **kw):
    kw.setdefault("extra", e.r.choice([0, 1, 3, 6])); kw.setdefault("heavy", 0.0); kw.setdefault("ntx", e.r.choice([1, 2, 3])); kw.setdefault("naddr", 6)
    return World(e, **kw)

def plan():
    """Every (request, way to fail) pair; the scenarios go through all of them in turn."""
    return [(m, n) for m, v in (("getrawmempool", ["ab" * 32]), ("getblockhash", "ab" * 32), ("getblockhash", None), ("getrawtransaction", "00" * 60), ("getblock", "00" * 200)) for n in sorted(faults(m, v))]
PLAN = plan(); random.Random(5).shuffle(PLAN)

# ---- failed exchanges
def exchange(e):
    r = e.r; w = world(e, start=False); n = w.node
    w.mem = w.g.mempool_txs(w.utxo(), r.choice([0, 1, 3])); n.set_mempool(w.mem)
    phase = r.choice(["start", "update", "update", "restart"]); old = list(w.chain); oldmem = list(w.mem)
    target = PLAN[(e.idx // 10 * 4 + e.idx % 10) % len(PLAN)] if r.random() < 0.8 else None
    if phase != "start":
        w.start(); w.check("before")
        if phase == "restart": w.ix.kill()
    if phase != "start":
        for _ in range(r.choice([0, 1, 2, 4])): b = w.g.block(w.tip, ntx=2); w.chain.append(b)
        w.mem = w.settle_mempool() + w.g.mempool_txs(w.pool(), r.choice([0, 1, 2]) if target is None or target[0] != "getrawtransaction" else 2)
        if phase == "update" and w.conf > 1 and r.random() < 0.3:
            ch = w.chain; w.chain = list(old); d = r.randrange(1, w.conf)
            if d < len(old): w.chain = w.branch(d, 1); w.mem = w.settle_mempool(); e.cov["fault_in_reorg"] += 1
            else: w.chain = ch
    new = list(w.chain); newmem = list(w.mem)
    # one cycle over the new state asks for the mempool, each transaction, and per block its hash and contents
    fetch = max(0, len(new) - len(old)) + w.conf
    span = 2 + len(newmem) + 2 * fetch
    at = r.randrange(span); only = r.choice([None, None, "getblock", "getblockhash", "getrawtransaction", "getrawmempool"])
    if target: only = target[0]
    st = dict(n=0, done=None)
    def hook(nn, method, params, seq):
        if st["done"]: return None
        if only and method != only: return None
        st["n"] += 1
        if st["n"] <= at and not (only and st["n"] > at // 4): return None
        s, v = nn.answer(method, params)
        fs = faults(method, v if s == 200 else None); name = r.choice(sorted(fs)) if target is None or method != target[0] or target[1] not in fs else target[1]
        st["done"] = (method, name, st["n"]); return fs[name]
    for b in new: n.by_hash[b.id] = b
    refuse = phase == "update" and r.random() < 0.05
    pools = []
    for ch in (old, new):
        for mm in (oldmem, newmem, []): pools.append(M.mempool_view(w.g.m.at(ch[-1].hash), mm)[0])
    with n.lock: n.set_chain(new); n.set_mempool(newmem); n.hook = None if refuse else hook
    if phase != "update": w.start(wait=False)
    watch = Watch(e, w, pools, [old, new])
    if refuse: n.stop_listening(); st["done"] = ("*", "refused", 0)
    else:
        # the request may not occur in this history (nothing to fetch): then the first one of the next cycles is taken
        got = n.wait(lambda: st["done"], 0.5, w.ix.alive)
        if not got and w.ix.alive(): only = None; at = 0; got = n.wait(lambda: st["done"], 20, w.ix.alive)
        if not got:
            if not w.ix.alive(): raise P.Died("process exited with %s before anything failed: %s" % (w.ix.p.wait(), w.ix.stderr()))
            raise Inconclusive("no request to fail")
    m, name, i = st["done"]; why = "%s in reply to %s at request %d (%s)" % (name, m, i, phase); e.note(why)
    watch.until_exit(why, started=phase == "update")
    e.cov["faults"] += 1; e.cov["phase_" + phase] += 1; e.cov["fault_" + m] += 1; e.cov["planned_faults"] += (m, name) == target; e.cov["once:%s:%s" % (m, name)] += 1; e.sig.append((m, name, phase, i)); e.samples.append(dict(fault=why))
    if refuse:
        n.close(); w.node = e.node(); w.node.set_chain(new); w.ix.kill(); n = w.node
    recover(e, w, new, newmem, why)

# ---- data that cannot be valid
def bad_block(e, g, prev, abandoned=(), mempool=()):
    """A block with one transaction no valid block can contain; None if this kind is not possible here."""
    r = e.r; u = dict(g.m.at(prev.hash)); keys = list(u)
    kinds = ["unknown", "unknown_vout", "spent_before", "twice_in_tx", "twice_in_block", "order", "opreturn", "spent_and_recreated", "abandoned", "mempool_only", "own_output"]
    kind = kinds[(e.idx // 3) % len(kinds)] if r.random() < 0.7 else r.choice(kinds)
    tx = lambda ks: C.Tx([(k[0], k[1], b"", 0xFFFFFFFE) for k in ks], [(r.choice([0, 1, 600]), g.addr_script()) for _ in range(r.choice([1, 2]))], locktime=r.getrandbits(32))
    body = []
    if kind == "unknown": body = [tx([(r.randbytes(32), r.choice([0, 1, 0xFFFFFFFF]))])]
    elif kind == "unknown_vout" and keys: k = r.choice(keys); body = [tx([(k[0], r.choice([k[1] + 5000, 0xFFFFFFFF, 0x80000000 | k[1], 256 + k[1] + 4000]))])]
    elif kind == "spent_before":
        spent = []; h = prev.hash
        while h in g.m.blocks: spent += [[(i[0], i[1]) for t in g.m.blocks[h].txs[1:] for i in t.ins]]; h = g.m.blocks[h].prev
        spent = [x for x in spent if x]
        if spent: body = [tx([r.choice(r.choice(spent))])]
    elif kind == "twice_in_tx" and keys: k = r.choice(keys); o = r.choice(keys); body = [tx([k, k] if o == k or r.random() < 0.5 else [k, o, k])]
    elif kind == "twice_in_block" and keys: k = r.choice(keys); body = [tx([k]), tx([k])]
    elif kind == "order" and keys: a = tx([r.choice(keys)]); body = [tx([(a.txid, 0)]), a]
    elif kind == "own_output" and keys: a = tx([r.choice(keys)]); body = [a, tx([(a.txid, len(a.outs))])]
    elif kind == "opreturn":
        h = prev.hash; ops = []
        while h in g.m.blocks: ops += [(t.txid, i) for t in g.m.blocks[h].txs for i, o in enumerate(t.outs) if C.unspendable(o[1])]; h = g.m.blocks[h].prev
        if ops: body = [tx([r.choice(ops)])]
    elif kind == "spent_and_recreated" and keys: k = r.choice(keys); a = tx([k]); b = tx([(a.txid, 0)]); body = [a, b, tx([(a.txid, 0)])]
    elif kind == "abandoned":
        c = [(t.txid, i) for t in abandoned for i in range(len(t.outs)) if (t.txid, i) not in u]
        if c: body = [tx([r.choice(c)])]
    elif kind == "mempool_only":
        c = [(t.txid, i) for t in mempool for i in range(len(t.outs)) if (t.txid, i) not in u and not C.unspendable(t.outs[i][1])]
        if c: body = [tx([r.choice(c)])]
    if not body: kind = "unknown"; body = [tx([(r.randbytes(32), 0)])]
    if r.random() < 0.5:   # among valid transactions
        v = dict(u); used = {(i[0], i[1]) for t in body for i in t.ins}; good = [k for k in keys if k not in used]
        if good: body.insert(0, g.spend(v, [r.choice(good)]))
    b = C.Block(prev.hash, [g.coinbase(prev.height + 1)] + body, prev.height + 1, nonce=r.getrandbits(32)); e.cov["bad_" + kind] += 1
    return b, kind

def invalid(e):
    """The node presents an invalid block at start or later, as tip or followed by more, on the branch or on a new one."""
    r = e.r; w = world(e, start=False); n = w.node
    w.mem = w.g.mempool_txs(w.utxo(), r.choice([0, 2])); n.set_mempool(w.mem); phase = r.choice(["start", "update", "restart", "update"])
    old = list(w.chain); oldmem = list(w.mem); ab = []
    if phase != "start":
        w.start()
        if phase == "restart": w.ix.kill()
    base = list(w.chain)
    if phase == "update" and w.conf > 1 and len(base) > w.conf and r.random() < 0.4:
        d = r.randrange(1, w.conf); ab = [t for b in base[-d:] for t in b.txs[1:]]; base = w.branch(d, 1); e.cov["invalid_on_branch"] += 1
    pre = r.choice([0, 0, 1, 3]) if phase != "start" else r.choice([0, 1]); good = list(base)
    for _ in range(pre): good.append(w.g.block(good[-1], ntx=2))
    bad, kind = bad_block(e, w.g, good[-1], ab, oldmem); chain = good + [bad]; top = bad
    for _ in range(r.choice([0, 0, 1, w.conf, w.conf + 2])):
        top = C.Block(top.hash, [w.g.coinbase(top.height + 1)], top.height + 1, nonce=r.getrandbits(32)); chain.append(top)
    if phase == "start" and len(chain) - len(old) < 1: return
    why = "a block with %s at height %d of %d (%s)" % (kind, bad.height, len(chain), phase); e.note(why)
    pref = [good[:i] for i in range(len(base), len(good) + 1)] + [old]
    pools = [M.mempool_view(w.g.m.at(c[-1].hash), m)[0] for c in pref for m in (oldmem, [])]
    n.set_chain(chain)
    if phase != "update": w.start(wait=False)
    Watch(e, w, pools, pref).until_exit(why, started=phase == "update")
    e.cov["invalid_blocks"] += 1; e.cov["inv_phase_" + phase] += 1; e.sig.append((kind, phase, len(chain) - bad.height, w.conf)); e.samples.append(dict(invalid=why))
    recover(e, w, good if len(good) > len(old) or not ab else old + [w.g.block(old[-1])], oldmem, why)

def deep_fork(e):
    """The node leaves the branch more than CONFIRMATIONS-1 blocks below the tip, or never was on it."""
    r = e.r; w = world(e, extra=r.choice([3, 6, 10]), start=False, conf=r.choice([1, 2, 3, 6])); n = w.node; old = list(w.chain); phase = r.choice(["update", "restart", "start"])
    added = 0
    # the store file then holds every block with CONFIRMATIONS confirmations
    w.infiles = len(old); shutil.rmtree(os.path.join(e.dir, "blocks")); G.write_files(os.path.join(e.dir, "blocks"), old)
    if phase != "start":
        w.start(); w.check("before")
        if phase == "update" and r.random() < 0.5: added = r.choice([1, 2]); w.add(added); w.ix.sync(); old = list(w.chain)
        if phase == "restart": w.ix.kill()
    d = w.conf + added + r.choice([0, 0, 1, 2]); d = min(d, len(old) - 1)
    if d < w.conf + added: return
    how = r.choice(["branch", "branch", "foreign", "stale"]); lying = None
    if how == "branch": chain = w.branch(d, r.choice([1, 2, 5]))
    elif how == "foreign":
        g2 = G.Gen(random.Random(r.random()), naddr=6, heavy=0.0); chain = g2.new_chain(len(old) + 2, ntx=1)
    else:
        chain = old + [w.g.block(old[-1])]
        lying = lambda nn, m, p, s: ok(old[0].raw.hex()) if m == "getblock" else None    # whatever is asked for, the same old block is supplied
    why = "%s, %d blocks deep with CONFIRMATIONS=%d (%s)" % (how, d, w.conf, phase); e.note(why)
    with n.lock: n.set_chain(chain); n.hook = lying
    if phase != "update": w.start(wait=False)
    Watch(e, w, [w.g.m.at(old[-1].hash)], [old]).until_exit(why, started=phase == "update")
    e.cov["deep_" + how] += 1; e.cov["deep_forks"] += 1; e.sig.append((how, d, w.conf, phase)); n.hook = None
    recover(e, w, old + [w.g.block(old[-1])], [], why)

def files(e):
    """Inconsistent or unreadable blocks among those the initial index is built from."""
    r = e.r; conf = r.choice([1, 2, 3]); g = G.Gen(r, naddr=6, heavy=0.0, cov=e.cov); chain = g.new_chain(conf + r.choice([4, 8, 20]), ntx=2)
    node = e.node(); node.set_chain(chain); last = len(chain) - conf; at = r.choice([last, r.randrange(2, last + 1), r.randrange(2, last + 1)])
    kind = r.choice(["invalid", "invalid", "count", "script", "short_file", "magic", "missing_transactions"]); th = r.choice([1, 2, 2, 4, 8]); ba = r.choice([1, 1, 2, 3, 1000])
    why = "%s in block %d of %d in the files, THREADS=%d BATCH_SIZE=%d CONFIRMATIONS=%d" % (kind, at, len(chain), th, ba, conf); e.note(why)
    bad = list(chain); path = os.path.join(e.dir, "blocks"); os.makedirs(path); raw = {}
    if kind == "invalid":
        b, k = bad_block(e, g, chain[at - 1]); bad = chain[:at] + [b]; why = k + " " + why
        while len(bad) < len(chain): bad.append(C.Block(bad[-1].hash, [g.coinbase(len(bad))], len(bad), nonce=r.getrandbits(32)))
    rec = []
    import struct
    for b in bad:
        x = b.raw
        if b.height == at and kind == "count": x = x[:80] + C.vi(len(b.txs) + 1) + x[80 + len(C.vi(len(b.txs))):]
        if b.height == at and kind == "missing_transactions": x = x[:80]  # a header alone
        if b.height == at and kind == "script":
            p = 80 + len(C.vi(len(b.txs))) + 4 + (2 if b.txs[0].wit else 0) + 1 + 36; x = x[:p] + b"\xfd\xff\xff" + x[p + 1:] if len(x) < 60000 else x[:p] + b"\xfe\xff\xff\xff\x00" + x[p + 1:]
        rec.append((b.height, (b"\x0b\x11\x09\x07" if b.height == at and kind == "magic" else struct.pack("<I", C.MAGIC)) + struct.pack("<I", len(x)) + x))
    if kind == "missing_transactions": rec = [(h, y + bytes(0)) for h, y in rec]
    cut = r.randrange(1, len(rec)); parts = [rec[:cut], rec[cut:]]
    if kind == "short_file": parts = [rec[:at + 1], rec[at + 1:]]
    for i, part in enumerate(parts):
        data = b"".join(y for _, y in part)
        if kind == "short_file" and i == 0: data = data[:-r.choice([1, 2, len(bad[at].raw) - 81])]
        open(os.path.join(path, "blk%05d.dat" % i), "wb").write(data)
    ix = e.indexer("hooked", node, threads=th, batch=ba, confirmations=conf, interval=1).start()
    end = time.monotonic() + 30
    while ix.alive() and time.monotonic() < end:
        if ix.listening() and ix.alive(): raise V("%s: the process serves queries" % why, dict(why=why), key="files:" + kind)
        time.sleep(0.002)
    if ix.alive(): raise V("%s: the process still runs 30 s later" % why, dict(why=why), key="alive")
    if ix.p.wait() == 0: raise V("%s: exit status 0" % why, dict(why=why), key="status0")
    if node.seq: raise V("%s: the node was contacted (%d requests), so the index was taken for complete" % (why, node.seq), dict(why=why), key="files:" + kind)
    e.cov["file_faults"] += 1; e.cov["file_" + kind] += 1; e.cov["file_threads" if th > 1 else "file_sequential"] += 1; e.sig.append((kind, th, ba, conf, at - last)); ix.kill()
    shutil.rmtree(path); G.write_files(path, chain)
    ix = e.indexer("hooked", node, threads=th, batch=ba, confirmations=conf, interval=1).start().wait_ready()
    views_ok(e, ix, g, chain, range(0, conf + 1), None, "with repaired block files after " + why, False, g.m.at(chain[-1].hash)); e.cov["recoveries"] += 1

def scenario(e):
    k = e.idx % 10
    (exchange if k < 4 else invalid if k < 7 else deep_fork if k == 7 else files)(e)

def run():
    main("C17", scenario, required=("faults", "phase_start", "phase_update", "phase_restart", "fault_getblock", "fault_getblockhash", "fault_getrawtransaction", "fault_getrawmempool", "invalid_blocks", "inv_phase_update", "inv_phase_restart", "deep_branch", "deep_foreign", "deep_stale", "file_faults", "file_threads", "file_sequential", "recoveries", "answers_checked",
         "bad_unknown", "bad_spent_before", "bad_twice_in_tx", "bad_twice_in_block", "bad_order", "bad_opreturn"), level="exploration",
         rule="a scenario counts once per distinct (fault or invalidity kind, request, phase, position)", assumptions=["an exchange that never completes is not a failed one", "prompt: within 20 s (30 s for block files); the distribution is in exit_within_*"])
