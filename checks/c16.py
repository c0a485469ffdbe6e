from .common import *

ABSENT = {"getblockhash": -8, "getrawtransaction": -5}

def cred(r):
    k = r.randrange(8)
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 31, 32, 47, 48, 63, 64, 65, 100, 200, 1000])
    if k == 0: return ""
    if k == 1: return "".join(r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") for _ in range(n))
    if k == 2: return "".join(chr(r.randrange(1, 128)) for _ in range(n))
    if k == 3: return "".join(r.choice("äßç€漢字😀é~ÿ\u0080\uffff\U0010ffff") for _ in range(max(1, n // 3)))
    if k == 4: return "".join(r.choice(":=?/+%&\"'\\ \t\n") for _ in range(n))
    if k == 5: return r.choice(["???", ">>>", "~~~", "ÿÿÿ", "a:b:c", ":", "::", "$(x)", "%3A", "__cookie__"]) * r.choice([1, 2, 5])
    if k == 6: return "".join(chr(r.choice([0x3e, 0x3f, 0x7e, 0x7f])) for _ in range(n))
    return "".join(chr(c) for c in [r.choice([r.randrange(32, 127), r.randrange(0xa1, 0x250), r.randrange(0x4e00, 0x9000)]) for _ in range(n)])

def automaton(e, node, trace, conf, expect, s0=None):
    """Offline check of one process run's requests against the contract. Returns the first height asked for."""
    listed = None; have = set(); asked_in_listing = set(); named = None; first = None; top = None; high = None
    for seq, method, params, meta in trace:
        def bad(msg): raise V("request %d (%s %s): %s" % (seq, method, str(params)[:120], msg), dict(seq=seq, method=method, params=params), key=method)
        if meta["verb"] != "POST": bad("verb %s" % meta["verb"])
        if meta["auth"] != [expect]: bad("authorization %s, expected %s" % (meta["auth"], expect))
        if "id" not in meta["keys"]: bad("no id in the call: %s" % meta["keys"])
        if not isinstance(params, list): bad("parameters are not a list")
        st, val = node.reply_log.get(seq, (None, None)); e.cov["req_" + method] += 1
        if method == "getrawmempool":
            if params not in ([], [False]): bad("parameters %s" % params)
            if st == 200: listed = set(val); have &= listed; asked_in_listing = set(); e.cov["listed_txs"] += len(val)
        elif method == "getrawtransaction":
            if not (len(params) in (1, 2) and isinstance(params[0], str)) or (len(params) == 2 and params[1] not in (False, 0)): bad("parameters %s" % params)
            if listed is None or params[0] not in listed: bad("transaction is not in the last mempool listing")
            if params[0] in have: bad("transaction was supplied before and stayed listed since")
            if params[0] in asked_in_listing: bad("asked twice during one listing")
            asked_in_listing.add(params[0])
            if st == 200: have.add(params[0])
            else: e.cov["tx_absent"] += 1
        elif method == "getblockhash":
            if len(params) != 1 or type(params[0]) is not int: bad("parameters %s" % params)
            h = params[0]
            if first is None: first = h; top = h - 1; high = h - 1
            if h > top + 1: bad("height %d although the last block fetched has height %d" % (h, top))
            if h == top + 1: high = max(high, top)      # the last block fetched was accepted
            lo = max(first, high - conf + 2)
            if h < lo: bad("height %d although heights below %d are promoted" % (h, lo))
            named = (h, val) if st == 200 else None
            if st != 200: e.cov["height_absent"] += 1
        elif method == "getblock":
            if not (len(params) == 2 and params[1] in (0, False)): bad("parameters %s" % params)
            if named is None or params[0] != named[1]: bad("the node named %s last" % (named,))
            top = named[0]; named = None
        else: bad("unexpected method")
    if node.bad: raise V("malformed call: %s" % (node.bad[0],), key="malformed")
    return first

def history(e):
    r = e.r; user, pw = cred(r).replace("\0", ""), cred(r).replace("\0", "")
    w = World(e, extra=r.choice([0, 1, 2, 5]), node_kw=dict(user=user, password=pw), start=False, heavy=0.0, ntx=r.choice([1, 2, 3]))
    w.node.reply_log = {}; node = w.node; expect = N.basic(user, pw); e.note("user", repr(user)[:60], "password", repr(pw)[:60])
    e.cov["cred_empty"] += not user or not pw; e.cov["cred_colon"] += ":" in user; e.cov["cred_nonascii"] += any(ord(c) > 127 for c in user + pw); e.cov["cred_long"] += len(user + pw) > 60
    for m in range(3): e.cov["cred_len_mod3_%d" % m] += len((user + ":" + pw).encode()) % 3 == m
    w.start(); absent = [0]
    def flaky(n, method, params, seq):
        """A height or transaction that is there is reported absent for once."""
        if method == "getblockhash" and absent[0] and r.random() < 0.5 and params[0] < len(n.chain):
            absent[0] -= 1; e.cov["withheld_heights"] += 1
            n.reply_log[seq] = (500, None)
            return ("raw", 500, b'{"result":null,"error":{"code":-8,"message":"%s"},"id":"x"}' % r.choice([b"Block height out of range", b"", b"other words"]))
    runs = 0
    for step in range(r.choice([4, 8, 14])):
        k = r.random()
        if k < 0.4: w.mem = w.settle_mempool() + w.g.mempool_txs(w.pool(), r.choice([1, 2, 5])); r.random() < 0.3 and w.mem and w.mem.pop(r.randrange(len(w.mem)))
        elif k < 0.6:
            w.ix.sync(); absent[0] = r.choice([0, 1, 3]); node.hook = flaky     # not while a branch is being replaced
            w.add(r.choice([1, 1, 2, 4])); w.mem = w.settle_mempool()
            node.wait(lambda: not absent[0], 0.05)
            absent[0] = 0; node.hook = None
        elif k < 0.75 and w.conf > 1:
            d = r.randrange(1, w.conf); fl = w.max_tip - (w.conf - 1); d = min(d, len(w.chain) - 1 - fl)
            if d > 0: w.present(w.branch(d, r.choice([1, 2]))); w.mem = w.settle_mempool(); e.cov["reorgs"] += 1
        elif k < 0.85:
            gone = [t.id for t in w.mem if r.random() < 0.4]; node.unavailable = set(gone); e.cov["unavailable"] += len(gone)
        w.mem = w.settle_mempool(); node.set_mempool(w.mem); w.ix.sync(r.choice([1, 2]))
        if r.random() < 0.1:
            automaton(e, node, node.trace[w.base:], w.conf, expect); w.restart(); runs += 1
    node.unavailable = set(); w.ix.sync()
    w.check("end of the history")
    w.ix.kill(); automaton(e, node, node.trace[w.base:], w.conf, expect); e.cov["histories"] += 1; e.cov["runs"] += runs + 1
    e.sig.append((user, pw, len(node.trace))); e.samples.append(dict(user=user[:20], requests=len(node.trace)))

CODES = (-5, -8, -1, -28, -3, -7, -20, -22, -25, -32600, -32601, -32603, -32700, 0, 5, 8, 1, -58, -80, 4294967291, 4294967288, -4294967301, -4, -6, -9, -10)
SWEEP = [(m, c, s) for c in CODES for s in (False, True) for m in ("getblockhash", "getrawtransaction", "getblock", "getrawmempool") if c != ABSENT.get(m)]

def not_absence(e):
    """Any other error than the two is not taken for absence: the process ends with a failure."""
    r = e.r; w = World(e, extra=r.choice([0, 1, 3]), start=False, heavy=0.0, ntx=2); n = w.node; n.reply_log = {}
    method, code, at_start = SWEEP[(e.idx // 3) % len(SWEEP)]
    if method == "getblock" and w.conf == 1: at_start = False
    status = 500
    w.mem = w.g.mempool_txs(w.utxo(), 3); n.set_mempool(w.mem)
    if method == "getrawtransaction" and not w.mem: method = "getrawmempool"
    if not at_start: w.start()
    done = []; message = r.choice(["Block height out of range", "No such mempool transaction. Use gettransaction for wallet transactions.", "Loading block index...", ""])
    def hook(nn, m, params, seq):
        if m == method and not done:
            if method == "getblockhash" and r.random() < 0.3 and params[0] < len(nn.chain): return None
            done.append(seq); return ("raw", status, ('{"result":null,"error":{"code":%d,"message":"%s"},"id":"x"}' % (code, message)).encode())
    n.hook = hook
    if at_start: w.start(wait=False)
    elif method == "getblock": w.add(1)
    elif method == "getrawtransaction": 
        fresh = w.g.mempool_txs(w.pool(), 2); w.mem = w.settle_mempool() + fresh; n.set_mempool(w.mem)
        if not fresh: return
    if not n.wait(lambda: done, 30, w.ix.alive):
        if not w.ix.alive(): raise P.Died("process exited with %s before anything failed: %s" % (w.ix.p.wait(), w.ix.stderr()))
        raise Inconclusive("the request to fail was never made")
    code_ = w.ix.wait_exit(20)
    if code_ is None: raise V("error code %d in reply to %s (%s) was taken as absence: the process went on" % (code, method, "start" if at_start else "update"), dict(method=method, code=code), key="%s:%d" % (method, code))
    if code_ <= 0: raise V("error code %d in reply to %s ended the process with status %d" % (code, method, code_), dict(method=method, code=code), key="status")
    e.cov["other_errors"] += 1; e.cov["err_%s" % method] += 1; e.sig.append((method, code, at_start))

def scenario(e):
    if e.idx % 3 == 2: not_absence(e)
    else: history(e)

def run():
    main("C16", scenario, required=("req_getblock", "req_getblockhash", "req_getrawtransaction", "req_getrawmempool", "cred_empty", "cred_colon", "cred_nonascii", "cred_len_mod3_0", "cred_len_mod3_1", "cred_len_mod3_2", "reorgs", "tx_absent", "height_absent", "withheld_heights", "err_getblockhash", "err_getrawtransaction", "err_getblock", "err_getrawmempool"),
         rule="a scenario counts once per distinct credentials and trace length, or failing method, error code and position", assumptions=["the stand-in node sees requests in the order the process sends them: it never has two outstanding"])
