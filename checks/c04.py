from .common import *
import struct

def tiny_chain(g, n, ch=None):
    """Coinbase-only blocks up to n in all, cheap enough for thousands."""
    ch = ch or [g.genesis()]
    for h in range(len(ch), n):
        cb = C.Tx([(C.ZERO, 0xFFFFFFFF, struct.pack("<IQ", h, g.r.getrandbits(60)), 0xFFFFFFFF)], [(h % 1000, C.p2pkh_script(g.hs[h % len(g.hs)]))])
        ch.append(C.Block(ch[-1].hash, [cb], h, nonce=g.r.getrandbits(32)))
    return ch

def long_chain(e):
    """Work proportional to the data: many blocks, many copies, many short stale branches."""
    r = e.r; g = G.Gen(r, naddr=8, cov=e.cov); n = 12000 if e.tier == "quick" else 40000
    ch = tiny_chain(g, n); conf = 6
    stale = []
    for i in r.sample(range(1, n - 20), 300):
        stale.append(C.Block(ch[i].hash, [C.Tx([(C.ZERO, 0xFFFFFFFF, struct.pack("<IQ", i, r.getrandbits(62)), 0)], [(1, b"\x51")])], i + 1, nonce=r.getrandbits(32)))
    rec = ch + stale + [r.choice(ch) for _ in range(600)] + [r.choice(stale) for _ in range(300)]
    r.shuffle(rec); G.write_files(os.path.join(e.dir, "blocks"), rec, r, 12)
    node = e.node(); node.set_chain(ch)
    ix = e.indexer("hooked", node, threads=r.choice([1, 4]), batch=500, confirmations=conf, interval=5); base = len(node.trace)
    ix.start().wait_ready(120)
    if first_height(node, base) != n - conf + 1: raise V("after indexing %d blocks the first height asked of the node is %s, expected %d" % (n, first_height(node, base), n - conf + 1), key="length")
    u = {}
    for b in ch: M.apply_block(u, b)
    d = safe(P.compare_utxos, ix.utxos(g.addrs, 1), g.addrs, M.view(u))
    if d: raise V("long chain: " + d, key="utxos")
    e.cov["long_chain_blocks"] += n; e.sig.append(("long", n, e.idx))

def scenario(e):
    r = e.r
    if e.idx == 2 or (e.tier == "thorough" and e.idx % 50 == 12): return long_chain(e)
    conf = r.choice([1, 2, 3, 6, 6, 10]); g = G.Gen(r, naddr=6, heavy=0.01, cov=e.cov, collide=0.2)
    chain = g.new_chain(conf + r.choice([0, 1, 2, 5, 9, 40]), ntx=None if r.random() < 0.7 else 1)
    if r.random() < 0.12 or e.idx in (3, 7):   # records as large as blocks get
        for size in r.sample([65536, 999000, 1001000, 2100000, 3990000], r.choice([1, 2])):
            m = max(1, size // 9100); b = g.block(chain[-1], coinbase=g.coinbase(len(chain), nout=m, scripts=[g.addr_script()] + [b"\x51" * 9090] * (m - 1)), ntx=2); chain.append(b); e.cov["record_over_1_MB"] += len(C.record(b)) > 10**6
        g.extend(chain, conf, ntx=2)
    n = len(chain); rec = list(chain); feats = []
    if g.sibling is not None: rec.append(g.sibling); feats.append("sibling"); e.cov["sibling_with_partly_equal_hash"] += 1
    if r.random() < 0.8:   # stale branches, all shorter than the best chain
        for _ in range(r.choice([1, 2, 6])):
            if n < 3: break
            at = r.randrange(0, n - 2); ln = r.randrange(1, n - 1 - at) if n - 1 - at > 1 else 1
            b = chain[at]; 
            for _ in range(min(ln, r.choice([1, 2, 50]))): b = g.block(b, ntx=r.choice([0, 1, 3])); rec.append(b)
            if b.height >= n - 1: raise Inconclusive("branch too long")
            feats.append("stale"); e.cov["stale_branches"] += 1
            if r.random() < 0.3 and b.height < n - 2: rec.append(g.block(b)); rec.append(g.block(b)) if b.height < n - 2 else None; e.cov["branch_of_branch"] += 1
    if (e.idx % 16 == 5 or r.random() < 0.04) and n >= 3:   # very many branches from the same place
        at = r.randrange(0, n - 2); m = r.choice([40, 100, 300, 1500]); ln = 1 + r.randrange(min(5, n - 2 - at))
        for i in range(m):
            b = chain[at]
            for j in range(ln): b = C.Block(b.hash, [C.Tx([(C.ZERO, 0xFFFFFFFF, struct.pack("<III", b.height, i, j), 0)], [(i, g.addr_script())])], b.height + 1, nonce=r.getrandbits(32)); rec.append(b)
        feats.append("broom"); e.cov["many_branches_at_one_height"] += 1
    if r.random() < 0.3 and conf > 1:   # a tie, within the part that is cut off
        d = r.randrange(1, conf); alt = chain[:n - d]
        for _ in range(d): alt.append(g.block(alt[-1], ntx=1))
        rec += alt[n - d:]; feats.append("tie"); e.cov["ties"] += 1
    if r.random() < 0.4:   # another root
        x = g.genesis(); rec.append(x); m = r.randrange(0, max(1, n - 1))
        for _ in range(min(m, 8)): x = g.block(x, ntx=0); rec.append(x)
        feats.append("root") ; e.cov["second_root"] += 1
    if r.random() < 0.5:   # unknown parents, also with chains longer than the best one
        b = C.Block(r.randbytes(32), [g.coinbase(5)], 1, nonce=r.getrandbits(32)); rec.append(b)
        for _ in range(r.choice([0, 3, n + 5])): b = C.Block(b.hash, [C.Tx([(C.ZERO, 0xFFFFFFFF, struct.pack("<Q", r.getrandbits(60)), 0)], [(1, b"\x51")])], 1, nonce=r.getrandbits(32)); rec.append(b)
        feats.append("parentless"); e.cov["parentless"] += 1
    if r.random() < 0.5:   # repeated records
        k = r.choice([1, 3, 40]); rec += [r.choice(rec) for _ in range(k)]
        if r.random() < 0.3: rec += list(chain)
        feats.append("copies"); e.cov["copies"] += k
    order = r.choice(["chain", "reverse", "shuffle", "shuffle", "local"])
    if order == "reverse": rec.reverse()
    elif order == "shuffle": r.shuffle(rec)
    elif order == "local":
        rec = [b for _, b in sorted(((i + r.uniform(0, 5)), b) for i, b in enumerate(rec)) ] if False else [rec[i] for i in sorted(range(len(rec)), key=lambda i: i + r.uniform(0, 6))]
    nf = r.choice([1, 1, 2, 3, 7, len(rec) + 3 if len(rec) < 60 else 5])
    nums = r.choice([range(nf), sorted(r.sample(range(0, 100000), nf)), range(99999 - nf, 99999)])
    pad = [r.choice([0, 0, 1, 4, 7, 8, 9, 79, 80, 87, 88, 89, 100, 175, 176, 1000, 65536]) for _ in range(nf)]
    if r.random() < 0.05: pad[0] = 1 << 20
    d = os.path.join(e.dir, "blocks"); G.write_files(d, rec, r, nf, names=["blk%05d.dat" % i for i in nums], pad=pad)
    names = sorted(os.listdir(d))
    if r.random() < 0.12:   # room set aside at the end of a file, as the node does
        with open(os.path.join(d, r.choice(names)), "r+b") as f: f.truncate(f.seek(0, 2) + r.choice([16 << 20, 128 << 20]))
        feats.append("room"); e.cov["room_of_16_MB_or_more"] += 1
    if r.random() < 0.15:   # files kept elsewhere
        away = os.path.join(e.dir, "elsewhere"); os.mkdir(away)
        for nm in names if r.random() < 0.5 else r.sample(names, 1):
            os.rename(os.path.join(d, nm), os.path.join(away, "x" + nm)); os.symlink(os.path.join(r.choice([away, "../elsewhere"]), "x" + nm), os.path.join(d, nm))
        feats.append("links"); e.cov["files_are_links"] += 1
    if r.random() < 0.1: os.rename(d, d + ".real"); os.symlink(r.choice([d, "blocks"]) + ".real", d); feats.append("link"); e.cov["directory_is_a_link"] += 1
    if r.random() < 0.2:    # files that may only be read
        for nm in names: os.chmod(os.path.join(d, nm), 0o444)
        e.cov["files_read_only"] += 1
    for p in pad:
        if p: e.cov["pad_short" if p < 88 else "pad_long"] += 1
    if r.random() < 0.6:
        for nm in r.sample(["rev00000.dat", "blk00001.dat.bak", "xblk00002.dat", "blk1.dat", "blk000001.dat", "index", "blk00000.DAT", "lost+found", "blk0000a.dat", "blk00001_dat", ".lock", b"blk\xff\xfe.dat"], r.choice([1, 4, 8])):
            p = os.path.join(os.fsencode(d), nm if isinstance(nm, bytes) else nm.encode())
            if r.random() < 0.2: os.mkdir(p)
            else:
                with open(p, "wb") as f: f.write(r.randbytes(r.choice([0, 5, 100])) if r.random() < 0.6 else C.record(r.choice(rec)) + b"junk")
        e.cov["unrelated_files"] += 1
    if len(nums) > 1: e.cov["multi_file"] += 1
    if order != "chain": e.cov["out_of_order"] += 1
    node = e.node(); node.set_chain(chain)
    th = r.choice([1, 1, 2, 4]); e.note("conf", conf, "chain", n, "records", len(rec), "files", nf, feats, order, "pad", pad[:8], "threads", th)
    base = len(node.trace)
    ix = e.indexer("hooked", node, threads=th, batch=r.choice([1, 5, 1000]), confirmations=conf, interval=2).start().wait_ready()
    fh = first_height(node, base)
    if fh != n - conf + 1: raise V("the index built from the files holds %s blocks, expected %d of %d (CONFIRMATIONS=%d)" % (fh, n - conf + 1, n, conf), key="length")
    views_ok(e, ix, g, chain, range(0, conf + 1), g.query_addrs(), "after start", True, g.m.at(chain[-1].hash))
    if conf > 1 and r.random() < 0.3:   # what was cut off can still be reorganised away
        alt = chain[:n - (conf - 1)]
        while len(alt) <= n: alt.append(g.block(alt[-1], ntx=1))
        node.set_chain(alt); ix.sync(); views_ok(e, ix, g, alt, range(0, conf + 1), g.query_addrs(), "after a reorganisation of the part cut off", False, g.m.at(alt[-1].hash)); e.cov["deepest_reorg_after_build"] += 1
    e.sig.append((conf, n, len(rec), nf, order, tuple(feats), tuple(pad), th)); e.samples.append(dict(conf=conf, chain=n, records=len(rec), files=nf, order=order, features=feats))

def run():
    main("C04", scenario, required=("partly_equal_hashes", "sibling_with_partly_equal_hash", "views_compared", "stale_branches", "parentless", "copies", "pad_short", "pad_long", "out_of_order", "multi_file", "files_are_links", "directory_is_a_link", "room_of_16_MB_or_more", "unrelated_files", "long_chain_blocks", "record_over_1_MB", "many_branches_at_one_height", "ties", "second_root"),
         rule="a scenario counts once per distinct (chain, records, files, order, features, paddings, threads)",
         assumptions=["the best chain in the files is at least CONFIRMATIONS long and unique below its last CONFIRMATIONS-1 blocks"])
