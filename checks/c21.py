from .common import *
from . import c20
from bi import build
import json, re, socket, subprocess

SAN = {"asan": dict(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1"),
       "tsan": dict(TSAN_OPTIONS="halt_on_error=0:exitcode=0:report_signal_unsafe=0:second_deadlock_stack=1:history_size=4"),
       "msan": dict(MSAN_OPTIONS="exitcode=99:allocator_may_return_null=1")}
OURS = build.REPO.rstrip("/") + "/src/"

# ---- reports
def ours(text):
    """Whether one of the stacks of a report starts, leaving out the standard library and the sanitizer's own frames, in the program's sources."""
    for stack in re.split(r"\n\s*\n", text):
        fr = [l for l in stack.split("\n") if re.match(r"\s*#\d+ ", l)]
        if not fr or re.search(r"created by|Thread T\d+", stack.split("\n")[0]): continue
        n = 0
        for l in fr:
            if "/rustlib/" in l or "compiler-rt" in l or "/library/" in l or "??" in l or "<null>" in l: continue
            if OURS in l or "/src/" in l and "/.cargo/" not in l and "/rustc" not in l and re.search(r"bitcoin_indexer|\bbi::", l): return True
            n += 1
            if n == 3: break
    return False

def reports(kind, err):
    """The sanitizer reports in a process's stderr."""
    if kind == "tsan": return re.findall(r"WARNING: ThreadSanitizer:.*?\n={10,}", err, re.S) + (re.findall(r"FATAL: ThreadSanitizer.*", err))
    err = re.sub(r"==\d+==WARNING: (?:Address|Memory)Sanitizer failed to allocate[^\n]*\n", "", err)      # a refused allocation ends the process, orderly
    return re.findall(r"(?:ERROR|WARNING): (?:Address|Memory)Sanitizer.*", err, re.S) + re.findall(r"(?:Address|Memory)Sanitizer:DEADLYSIGNAL.*", err, re.S)

def judge_reports(e, kind, err):
    for t in reports(kind, err):
        if kind == "tsan" and "FATAL" in t[:8]: raise Inconclusive(t[:300])
        if re.search("out-of-memory|allocation-size-too-big|exceeds maximum supported size|failed to allocate", t[:300]): e.cov["refused_allocations"] += 1; continue    # ends the process, orderly
        if kind == "tsan" and not ours(t): e.cov["reports_in_dependencies"] += 1; continue
        m = re.search(re.escape(OURS) + r"([\w/]+\.rs:\d+)", t)
        raise V("%s reports: %s" % (kind, t[:1800]), dict(report=t[:6000]), key="%s %s" % (kind, m.group(1) if m else t[:80]))

def whole_err(ix):
    try: return open(ix.errfile, "rb").read().decode(errors="replace")
    except OSError: return ""

# ---- the whole program under a sanitizer, everything at once
def client(ix, seed, addrs, conf, stop, n):
    r = random.Random(seed); h = ix.http(30)
    while not stop.is_set():
        try:
            k = r.randrange(12); q = r.choice(["", "?confirmations=%d" % r.randrange(0, conf + 2), "?confirmations=%d" % r.randrange(0, conf + 1)]); l = [r.choice(addrs) for _ in range(r.choice([0, 1, 3, 40]))]
            if k < 3: h.get("/addresses/%s/%s%s" % (r.choice(addrs), r.choice(["utxos", "balance"]), q))
            elif k < 6: h.post("/addresses/%s%s" % (r.choice(["utxos", "balance"]), q), json.dumps(l).encode())
            elif k < 8: h.get("/addresses/%s?addresses=%s%s" % (r.choice(["utxos", "balance"]), ",".join(l[:5]), q.replace("?", "&")))
            elif k == 8: h.get("/addresses/%s/balance" % "".join(r.choice(C.B58) for _ in range(r.choice([1, 10, 33, 34, 60, 2000]))))
            elif k == 9 and r.random() < 0.5:
                # bytes that are no text, where text is expected and quoted in the answer
                bad = r.choice([b"\xff\xfe", b"abc\xc3", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\x80" * r.choice([1, 8, 40]), r.randbytes(r.choice([1, 16, 40])).replace(b'"', b"'").replace(b"\\", b"/"), "é漢😀".encode()[:r.randrange(1, 9)]])
                st, _, b = h.post("/addresses/%s%s" % (r.choice(["utxos", "balance"]), q), b'["' + bad + b'"]')
                try: b.decode()
                except UnicodeDecodeError: n.append("the answer %r to a body that is not text is itself not text" % b[:300]); return
                n[2] += 1
            elif k == 9: h.post("/addresses/utxos" + q, r.choice([b"", b"{}", b"[1]", b"[\"", r.randbytes(50), b"[" * 300, b"\xff\xfe", json.dumps(["z" * r.randrange(80)]).encode()]))
            elif k == 10: h.raw(r.choice([b"PUT / HTTP/1.1\r\nHost: x\r\n\r\n", b"GET /%ff%00 HTTP/1.1\r\nHost: x\r\n\r\n", b"GET /addresses/?x=%41&=&& HTTP/1.1\r\nHost: x\r\n\r\n"]))
            else:
                s = socket.create_connection((ix.ip, ix.port), 10); s.sendall(b"POST /addresses/utxos HTTP/1.1\r\nHost: x\r\nContent-Length: 500\r\n\r\n[" + r.randbytes(r.randrange(40))); s.close()
            n[0] += 1
        except (OSError, P.HttpError):
            h.close(); n[1] += 1
            if not ix.alive(): return
    h.close()

def mixed(e, kind):
    r = e.r; ixs = []
    w = World(e, binary=kind, threads=r.choice([1, 2, 4, 8]), batch=r.choice([1, 2, 5]), extra=r.choice([2, 10, 30]), heavy=r.choice([0.0, 0.03]), naddr=r.choice([4, 16]), delays=r.choice([None, (20, 1), (50, 2)]), interval=r.choice([0, 1]), env=SAN[kind], start=False)
    stop = threading.Event(); n = [0, 0, 0]; ths = []
    def clients():
        for i in range(r.choice([1, 2, 3])):
            t = threading.Thread(target=client, args=(w.ix, r.getrandbits(32), w.g.query_addrs(), w.conf, stop, n), daemon=True); t.start(); ths.append(t)
    def quiet():
        stop.set()
        for t in ths: t.join(40)
        ths.clear(); stop.clear()
    try:
        w.start(); clients()
        for step in range(r.choice([3, 5, 8])):
            k = r.randrange(8)
            if k < 3: w.add(r.choice([1, 1, 2, w.conf + 1])); w.settle_mempool(); w.node.set_mempool(w.mem); e.cov["blocks_added"] += 1
            elif k < 5: w.mem = w.settle_mempool() + w.g.mempool_txs(w.pool(), r.choice([1, 5])); w.node.set_mempool(w.mem); e.cov["mempool_changes"] += 1
            elif k == 5 and w.conf > 1 and w.max_tip - (len(w.chain) - 1) == 0:
                d = r.randrange(1, w.conf); w.present(w.branch(d, 1)); w.mem = w.settle_mempool(); w.node.set_mempool(w.mem); e.cov["reorgs"] += 1
            elif k == 6:
                w.add(w.conf + 1); w.settle_mempool(); w.node.set_mempool(w.mem); w.ix.sync(2)      # a promotion and with it a store write while clients go on
                e.cov["promotions"] += 1
            else:
                quiet(); w.ix.sync(); ixs.append(w.ix); w.restart(r.choice([signal.SIGKILL, signal.SIGTERM]), drop_blocks=False); clients(); e.cov["restarts"] += 1
            w.ix.sync(r.choice([1, 3]))
            judge_reports(e, kind, whole_err(w.ix))
        w.ix.sync(); w.check("under %s" % kind, balances=True)
        quiet(); ixs.append(w.ix); w.ix.kill()
    except (P.Died, P.Stuck, P.Bad, Inconclusive):
        for ix in e.ixs: judge_reports(e, kind, whole_err(ix))
        raise
    finally: stop.set()
    for ix in e.ixs: judge_reports(e, kind, whole_err(ix))
    if len(n) > 3: raise V(n[3], key="not-text")
    e.cov["not_text_requests"] += n[2]; e.cov["%s_runs" % kind] += 1; e.cov["requests_answered"] += n[0]; e.cov["requests_aborted"] += n[1]
    e.cov["%s_node_calls" % kind] += sum(w.node.n.values())
    e.sig.append((kind, w.conf, n[0])); e.samples.append(dict(sanitizer=kind, conf=w.conf, threads=w.threads, blocks=len(w.chain), requests=n[0]))

# ---- data no valid node, block file or store file contains: any failure is right, but not undefined behaviour
def mutate(r, d):
    d = bytearray(d); k = r.randrange(8); n = len(d)
    if not n: return bytes(r.randbytes(3))
    at = r.choice([r.randrange(n), r.randrange(min(n, 100)), n - 1 - r.randrange(min(n, 40))])
    if k == 0: d = d[:at]
    elif k == 1: d = d[:n - r.choice([1, 2, 3, 4, 7, 8, 20, 33])]
    elif k == 2: d[at:at + 1] = r.choice([b"\xfd\xff\xff", b"\xfe\xff\xff\xff\xff", b"\xff" * 9, b"\xff\xff\xff\xff\xff\xff\xff\xff\x7f", b"\xfe\x00\x00\x01\x00"])
    elif k == 3: d[at] ^= 1 << r.randrange(8)
    elif k == 4: d[at] = r.choice([0, 1, 0x7F, 0x80, 0xFC, 0xFD, 0xFE, 0xFF])
    elif k == 5: del d[at:at + r.choice([1, 4, 32])]
    elif k == 6: d[at:at] = r.randbytes(r.choice([1, 4, 32]))
    else: d = bytearray(r.randbytes(r.choice([0, 1, 79, 80, 81, 200])))
    return bytes(d)

def ended(e, kind, ix, what):
    err = whole_err(ix); judge_reports(e, kind, err); c = ix.p.poll(); e.cov["hostile_ends_%s" % ("running" if c is None else c)] += 1
    if "unsafe precondition" in err: raise V("%s, %s: %s" % (kind, what, err[-900:]), key="precondition")
    if c is not None and c < 0 and c != -9 and "memory allocation of" not in err and "overflowed its stack" not in err: raise V("%s, %s: the process died of signal %d: %s" % (kind, what, -c, err[-900:]), key="signal")

def hostile(e, kind):
    r = e.r; w = World(e, binary=kind, conf=r.choice([1, 2, 3]), extra=r.choice([2, 5]), heavy=0.0, naddr=6, ntx=2, threads=r.choice([1, 2]), batch=r.choice([1, 3]), interval=0, env=SAN[kind], start=False)
    n = w.node; spath = os.path.join(e.dir, "store.dat"); blocks = os.path.join(e.dir, "blocks"); clean = {f: open(os.path.join(blocks, f), "rb").read() for f in os.listdir(blocks)}; store = None
    for turn in range(6 if e.tier == "quick" else 12):
        mode = r.choice(["node", "node", "node", "files", "store"]) if store else r.choice(["node", "files"]); n.hook = None; done = []
        if os.path.exists(spath): os.remove(spath)
        for f, d in clean.items(): open(os.path.join(blocks, f), "wb").write(d)
        if mode == "files":
            f = r.choice(sorted(clean)); open(os.path.join(blocks, f), "wb").write(mutate(r, clean[f]))
        elif mode == "store": open(spath, "wb").write(mutate(r, store))
        elif store and r.random() < 0.5: open(spath, "wb").write(store)
        if mode == "node":
            want = r.choice(["getblock", "getblock", "getrawtransaction", "getrawtransaction", "getblockhash", "getrawmempool"]); skip = r.choice([0, 0, 1, 2])
            w.mem = w.settle_mempool() + w.g.mempool_txs(w.pool(), 2); n.set_mempool(w.mem)
            def hook(nn, m, params, seq):
                if m != want: return None
                st, v = nn.answer(m, params)
                if st != 200: return None
                done.append(seq)
                if len(done) <= skip: return None
                if isinstance(v, str): x = mutate(r, bytes.fromhex(v)).hex(); x = x if r.random() < 0.85 else x + r.choice(["0", "g", "é", "\U0001f600"])
                else: x = [mutate(r, bytes.fromhex(y)).hex() if r.random() < 0.5 else y[:r.randrange(65)] + r.choice(["", "é", "0"]) for y in v] or ["é" * 32]
                return ("raw", 200, json.dumps({"result": x, "error": None, "id": "x"}).encode())
            n.hook = hook
        ix = w.start(wait=False); end = time.monotonic() + 20; base = len(n.trace)
        while ix.alive() and time.monotonic() < end:
            if len(n.trace) > base + 40: break
            if mode == "node" and len(done) <= skip and len(w.chain) < 40 and ix.listening(): w.add(1, ntx=1); w.mem = w.settle_mempool() + w.g.mempool_txs(w.pool(), 1); n.set_mempool(w.mem)
            time.sleep(0.005)
        if ix.alive() and ix.listening():
            try: ix.http(5).post("/addresses/utxos", json.dumps(w.g.query_addrs()).encode())
            except (OSError, P.HttpError): pass
        if store is None and os.path.exists(spath): store = open(spath, "rb").read()
        ended(e, kind, ix, "malformed data (%s)" % mode); ix.kill(); ended(e, kind, ix, "malformed data (%s)" % mode)
        e.cov["hostile_" + mode] += 1; e.sig.append((mode, len(done)))
    e.cov["hostile_%s_runs" % kind] += 1

# ---- parts of the program in process
def pool(e, kind):
    e.cov["pool_attempts"] += 1
    p = e.bins["h:pool:" + kind]; san = {"thread": "tsan", "address": "asan"}[kind]
    x = subprocess.run([p, str(e.r.getrandbits(31)), str(e.r.choice([20, 60])), str(e.r.choice([8, 60, 300]))], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, env=dict(PATH="/usr/bin:/bin", RUST_BACKTRACE="0", **SAN[san]))
    judge_reports(e, san, x.stderr.decode(errors="replace"))
    if x.returncode: raise V("worker pools: status %s, %s %s" % (x.returncode, x.stdout.decode()[-300:], x.stderr.decode(errors="replace")[-800:]), key="pool")
    m = re.search(r"items=(\d+) out_of_order=(\d+)", x.stdout.decode()); e.cov["pool_items"] += int(m.group(1)); e.cov["pool_out_of_order"] += int(m.group(2)); e.cov["pool_%s" % kind] += 1
    e.sig.append((kind, x.stdout))

def codecs(e, kind):
    have = [c for c in c20.CODECS + ("address",) if "h:%s:%s" % (c, kind) in e.bins]
    c = e.r.choice(have); san = {"address": "asan", "memory": "msan"}[kind]; p = e.bins["h:%s:%s" % (c, kind)]
    try:
        if c == "address":
            ls = c20.address_lines(e.r, 40); rc, out, err = c20.feed(p, [l for l, _ in ls], SAN[san])
            if rc or len(out) != len(ls): judge_reports(e, san, err); raise V("address conversions ended with %s: %s" % (rc, err[-600:]), key="address")
        else: ls = c20.codec_round(e.r, c, p, 120, e.cov, SAN[san], lambda a, b, env: judged_feed(e, san, a, b, env))
    except subprocess.TimeoutExpired: raise Inconclusive("conversions took too long")
    e.cov["conversions_" + san] += len(ls); e.sig.append((c, ls[0][0]))

def judged_feed(e, san, path, lines, env):
    rc, out, err = c20.feed(path, lines, env, 300)
    judge_reports(e, san, err)
    if "invalid-utf8" in out: raise V("an unchecked conversion produced invalid UTF-8 for %s" % lines[out.index("invalid-utf8")][:300], key="invalid-utf8")
    return rc, out, err

# ---- Miri
def miri_verdict(e, err, what):
    """Raises V for an undefined behaviour report whose cause lies in the program."""
    m = re.search(r"error: (Undefined Behavior|.*[Dd]ata race|.*dangling|memory leaked|.*deadlock)[^\n]*\n.*", err, re.S)
    if not m: return False
    t = m.group(0); first = None
    src = OURS[:-1]
    for l in t.split("\n"):
        p = re.search(r"(?:-->|at) (\S+\.rs):\d+:\d+", l)
        if not p: continue
        f = p.group(1)
        if "/rustlib/" in f: continue
        first = f if f.startswith("/") else "/" + f
        break
    race = re.search(r"and \(1\) occurred earlier here\s*-->\s*(\S+)", t)
    inrepo = lambda f: f is not None and (f.startswith(OURS) or f.startswith("/src/") or "/src/bin/" in f)
    if inrepo(first) or race and inrepo(race.group(1)): raise V("Miri, %s: %s" % (what, t[:2500]), dict(report=t[:6000]), key="miri %s" % first)
    e.cov["miri_reports_in_dependencies"] += 1; e.note(t[:300]); return True

def miri_pool(e):
    n = 4 if e.tier == "quick" else 32; s = e.r.randrange(10**6)
    try: rc, out, err = build.miri("pool", [str(e.r.getrandbits(31)), "8", "12"], flags="-Zmiri-many-seeds=%d..%d -Zmiri-preemption-rate=0.05" % (s, s + n), timeout=300)
    except subprocess.TimeoutExpired: raise Inconclusive("Miri took too long")
    err = err.decode(errors="replace"); out = out.decode(errors="replace")
    miri_verdict(e, err, "worker pools")
    if "FAIL" in out: raise V("worker pools under Miri: %s" % out[out.index("FAIL"):][:400], key="pool")
    k = out.count("OK rounds")
    if not k: raise Inconclusive("Miri: %s" % err[-300:])
    e.cov["miri_pool_schedules"] += k; e.sig.append(("miri pool", s))

def miri_codecs(e):
    def run(path, lines, env):
        try: rc, out, err = build.miri(path, stdin="".join(l + "\n" for l in lines).encode(), timeout=400)
        except subprocess.TimeoutExpired: raise Inconclusive("Miri took too long")
        miri_verdict(e, err.decode(errors="replace"), path)
        out = [l for l in out.decode().split("\n")[:-1] if re.match(r"(str|vec|into|err|panic|invalid-utf8|none)\b", l)]
        if "invalid-utf8" in out: raise V("an unchecked conversion produced invalid UTF-8 for %s" % lines[out.index("invalid-utf8")][:300], key="invalid-utf8")
        if len(out) != len(lines): raise Inconclusive("Miri: %s" % err.decode(errors="replace")[-300:])
        return 0, out, ""
    for c in c20.CODECS:
        if "h:%s:address" % c in e.bins: e.cov["miri_conversions"] += len(c20.codec_round(e.r, c, c, 12 if e.tier == "quick" else 60, e.cov, None, run, False)); e.sig.append(c)

def miri_program(e):
    """The whole program, node and clients included, interpreted."""
    r = e.r; budget = 75 if e.tier == "quick" else 400; t0 = time.monotonic()
    w = World(e, conf=2, extra=r.choice([2, 3]), infiles=None, naddr=4, heavy=0.0, ntx=2, threads=2, batch=1, start=False, interval=1500)
    env = dict(build.miri_env("-Zmiri-no-short-fd-operations -Zmiri-disable-stacked-borrows -Zmiri-seed=%d" % r.randrange(10**6), RUSTFLAGS="--cfg " + build.CFG), RUST_BACKTRACE="0")
    ix = e.indexer("hooked", w.node, **dict(w.kw, env=env)); ix.base = dict(w.node.n)
    ix.env.update(env); ix.err = open(ix.errfile, "wb")
    ix.p = subprocess.Popen(build.miri_cmd("bitcoin-indexer"), env=ix.env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ix.err, preexec_fn=P._pdeath, cwd=build._crate_dir("miri")); ix.err.close()
    def end():
        try: os.killpg(ix.p.pid, signal.SIGKILL)
        except OSError: pass
        ix.p.wait(20); miri_verdict(e, whole_err(ix), "the whole program")
    try:
        while not ix.listening():
            if not ix.alive() or time.monotonic() - t0 > budget * 2: end(); raise Inconclusive("Miri run of the program: %s" % whole_err(ix)[-400:])
            time.sleep(0.2)
        e.cov["miri_program_starts"] += 1; addrs = w.g.query_addrs()[:3]; reqs = 0
        h = ix.http(100); step = 0
        while (time.monotonic() - t0 < budget or reqs < 4 and time.monotonic() - t0 < 2.2 * budget) and ix.alive():
            try:
                k = r.choice([0, 1, 2]); st, _, b = h.post("/addresses/%s?confirmations=%d" % (r.choice(["utxos", "balance"]), k), json.dumps(addrs).encode()); reqs += 1
                if st != 200: raise V("under Miri: status %d" % st, key="miri")
            except (OSError, P.HttpError): break
            if step == 0: w.add(2, ntx=1)
            elif step == 1: w.present(w.branch(1, 1))
            step += 1
        e.cov["miri_program_requests"] += reqs; e.cov["miri_program_node_calls"] += sum(w.node.n.values())
    finally: end()
    e.sig.append(("miri program", reqs)); e.samples.append(dict(miri_requests=reqs, node_calls=dict(w.node.n)))

def scenario(e):
    i = e.idx; m = e.bins.get("miri_ok")
    if m and i == 0 or e.tier == "thorough" and m and i % 40 == 0: return miri_program(e)
    if m and i == 1 or e.tier == "thorough" and m and i % 40 == 1: return miri_pool(e) if "h:pool:thread" in e.bins else mixed(e, "tsan")
    if m and i == 2 or e.tier == "thorough" and m and i % 40 == 2: return miri_codecs(e)
    k = i % 10
    if k == 3 and "h:pool:thread" in e.bins: return pool(e, "thread")
    if k == 7 and "h:pool:address" in e.bins: return pool(e, "address")
    if k == 5 and any(b.endswith(":address") and b != "h:pool:address" for b in e.bins): return codecs(e, "address")
    if k == 8 and any(b.endswith(":memory") for b in e.bins): return codecs(e, "memory")
    if k == 4 or k == 9: return hostile(e, "msan" if "msan" in e.bins and i % 4 == 0 else "asan")
    return mixed(e, {0: "tsan", 1: "asan", 2: "msan" if "msan" in e.bins else "tsan", 6: "tsan"}.get(k, "tsan"))

def before(ctx):
    try: build.miri_setup(); ctx["bins"]["miri_ok"] = True
    except (build.BuildError, subprocess.TimeoutExpired) as x: ctx["bins"].setdefault("missing", []).append(("miri", str(x)))
    c20.note_missing(ctx)

def run():
    hs = ["h:pool:thread?", "h:pool:address?"] + ["h:%s:%s?" % (c, k) for c in c20.CODECS + ("address",) for k in ("address", "memory")]
    main("C21", scenario, need_bins=("tsan", "asan", "msan?", "hooked") + tuple(hs), extra=before, quick_s=60,
         required=("tsan_runs", "asan_runs", "requests_answered", "blocks_added", "reorgs", "promotions", "restarts", "not_text_requests", "hostile_node", "hostile_files", "hostile_store"),
         rule="a scenario counts once per distinct (sanitizer, configuration, answered requests) or batch of inputs", assumptions=["races and memory errors inside unmodified dependencies are not the program's", "Miri runs for another target (aarch64), without the aliasing rules for the whole program, and with one socket option left out"])
