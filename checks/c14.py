from .common import *

def near(r):
    """(script, hash) pairs: everything one byte away from the templates, in value or length, plus other families."""
    out = []
    for base_f, fixed in ((C.p2pkh_script, [0, 1, 2, 23, 24]), (C.p2sh_script, [0, 1, 22])):
        for i in fixed:
            for v in range(256):
                h = r.randbytes(20); s = bytearray(base_f(h))
                if s[i] != v: s[i] = v; out.append((bytes(s), h))
        for l in range(0, 40):
            h = r.randbytes(20); s = base_f(h); out.append((s[:l] if l < len(s) else s + r.randbytes(l - len(s)), h))
        for _ in range(8):
            h = r.randbytes(20); s = base_f(h); out.append((bytes([r.randrange(256)]) + s, h)); out.append((s + s, h)); out.append((s[1:] + s[:1], h)); out.append((s[::-1], h[::-1]))
            i = r.randrange(len(s)); out.append((s[:i] + bytes([r.randrange(256)]) + s[i:], h)); out.append((s[:i] + s[i + 1:], h))
        h = r.randbytes(20); out.append((b"\x6a" + base_f(h), h)); out.append((b"\x6a" + base_f(h)[1:], h))
    h = r.randbytes(20)
    out += [(b"", h), (b"\x6a", h), (b"\x6a\x14" + h, h), (b"\x00\x14" + h, h), (b"\x14" + h, h), (b"\x00\x20" + h + h[:12], h), (b"\x51\x20" + h + h[:12], h), (b"\x21\x02" + h + h[:12] + b"\xac", h), (b"\x76\xa9\x14" + h + b"\x88\xac\x51", h),
            (b"\x76\xa9\x4c\x14" + h + b"\x88\xac", h), (b"\xa9\x4c\x14" + h + b"\x87", h), (b"\x76\xa9\x14" + h + b"\x88\xac" + bytes(231), h), (b"\x76\xa9\x14" + h + b"\x88\xac" + bytes(65536), h), (b"\xa9\x14" + h + b"\x87" + bytes(65513), h), (b"\xa9\x14" + h + b"\x87\x00\x00", h), (b"\x76\xa9\x14" + h + b"\x87", h), (b"\xa9\x14" + h + b"\x88\xac", h),
            (b"\x50" + C.p2sh_script(h), h), (bytes(23), h), (bytes(25), h), (b"\x6a" * 25, h), (b"\x6a" * 23, h)]
    # OP_RETURN anywhere but first leaves an output which is kept
    for pre in [bytes([b]) for b in range(256) if b != 0x6a]: out.append((pre + b"\x6a" + r.choice([b"", b"\x14" + h, h[:3]]), h))
    for pre in (b"\x00\x00", b"\x01\x6a", b"\x01\x00", b"\x4c\x00", b"\x63\x67", b"\x00\x63", b"\x61\x61", b"\x04\x6a\x6a\x6a\x6a", b"\x14" + h): out.append((pre + b"\x6a", h)); out.append((pre + b"\x6a\x14" + h, h))
    for n in (1, 2, 3, 76, 80, 83, 84, 252, 253, 520, 9999, 10000, 10001, 70000): out.append((bytes([r.choice([0x00, 0x51, 0x61, 0xac])]) * n, h)); out.append((bytes([0x6a]) + bytes(n - 1), h))
    return out

def scenario(e):
    r = e.r; g = G.Gen(r, naddr=6); conf = r.choice([1, 2, 4])
    items = near(r)
    for _ in range(150):    # exact templates, with both types for some hashes
        h = r.randbytes(20); k = r.random()
        if k < 0.6: items.append((C.p2pkh_script(h), h))
        if k > 0.4: items.append((C.p2sh_script(h), h))
    r.shuffle(items); items = items[:len(items) if e.tier == "thorough" else 2400]
    nb = r.choice([2, 3]); chain = [g.genesis()]; v0 = 1
    for part in [items[i::nb] for i in range(nb)]:
        g.n += 1
        cb = C.Tx([(C.ZERO, 0xFFFFFFFF, g.n.to_bytes(8, "little"), 0)], [(v0 + i, s) for i, (s, _) in enumerate(part)]); v0 += len(part)
        b = C.Block(chain[-1].hash, [cb], len(chain), nonce=g.n); g.m.add(b); chain.append(b)
    for s, _ in items: e.cov["exact" if C.script_addr(s) else "op_return" if C.unspendable(s) else "other"] += 1
    addrs = sorted({f(h) for s, h in items for f in (C.p2pkh_addr, C.p2sh_addr)} | {f(s[i:i + 20]) for s, _ in items if 20 < len(s) < 30 for i in range(1, 5) for f in (C.p2pkh_addr, C.p2sh_addr) if r.random() < 0.1 and len(s[i:i + 20]) == 20})
    for _ in range(conf): chain.append(g.block(chain[-1], ntx=0))
    node = e.node(); node.set_chain(chain)
    nf = r.choice([len(chain), conf, conf + 1]); G.write_files(os.path.join(e.dir, "blocks"), chain[:nf])
    kw = dict(confirmations=conf, interval=5, threads=r.choice([1, 3]), batch=r.choice([1, 2]))
    ix = e.indexer("hooked", node, **kw).start().wait_ready()
    def check(what):
        for k in sorted({0, 1, conf}):
            st = g.m.at(chain[-k].hash) if k else g.m.at(chain[-1].hash); want = M.view(st)
            for i in range(0, len(addrs), 1500):
                d = safe(P.compare_utxos, ix.utxos(addrs[i:i + 1500], k), addrs[i:i + 1500], want)
                if d: raise V("%s, confirmations=%d: %s" % (what, k, d), key="attribution")
            e.cov["addresses_compared"] += len(addrs)
    check("after start")
    # everything without an address is spent, partly after a restart, and some of the rest
    u = g.m.at(chain[-1].hash); none = [k for k in u if u[k][0] is None]; r.shuffle(none); half = none[:len(none) // 2]; rest = none[len(none) // 2:]
    if r.random() < 0.5: ix.kill(); ix = e.indexer("hooked", node, **kw).start().wait_ready()
    chain = chain + [g.block(chain[-1], txs=[g.spend(u, half, nout=2)], ntx=2)]; node.set_chain(chain); ix.sync(); check("after spending outputs without an address")
    e.cov["no_address_spent"] += len(half)
    ix.kill(); ix = e.indexer("hooked", node, **dict(kw, blocks="/nonexistent")).start().wait_ready()
    u = g.m.at(chain[-1].hash); rest = [k for k in rest if k in u]
    chain = chain + [g.block(chain[-1], txs=[g.spend(u, rest, nout=2)] if rest else [], ntx=1)]; node.set_chain(chain); ix.sync(); check("after a restart and spending the other outputs without an address")
    e.cov["no_address_spent"] += len(rest)
    for _ in range(conf + 1): chain = chain + [g.block(chain[-1], ntx=1)]
    node.set_chain(chain); ix.sync(); check("after promotion")
    e.sig.append((conf, nb, nf, items[0][0].hex()[:20])); e.samples.append(dict(scripts=[s.hex()[:60] for s, _ in items[:4]], conf=conf))

def run():
    main("C14", scenario, required=("exact", "op_return", "other", "no_address_spent", "addresses_compared"), rule="a scenario counts once per distinct configuration and script set")
