from .common import *
import hashlib, json

def families(r):
    hs = [b"\0" * 20, b"\xff" * 20, b"\0" * 19 + b"\1", b"\1" + b"\0" * 19, b"\x80" + b"\0" * 19]
    for z in (1, 2, 3, 8, 15, 18, 19): hs.append(b"\0" * z + bytes([r.randrange(1, 256)]) * (20 - z))
    for z in (1, 4, 12): hs.append(r.randbytes(20 - z) + b"\0" * z)
    base = r.randbytes(20); hs.append(base)
    for i in (0, 3, 4, 7, 11, 12, 19): hs.append(base[:i] + bytes([base[i] ^ (1 << r.randrange(8))]) + base[i + 1:])
    hs += [r.randbytes(20) for _ in range(20)]
    return list(dict.fromkeys(hs))

def mutations(r, good, h, ver):
    B = C.B58; n = len(good); out = []
    for _ in range(12):
        i = r.randrange(n); out.append(good[:i] + r.choice(B) + good[i + 1:])
    for _ in range(4): i = r.randrange(n); out.append(good[:i] + good[i + 1:])
    for _ in range(4): i = r.randrange(n + 1); out.append(good[:i] + r.choice(B) + good[i:])
    for _ in range(4):
        i = r.randrange(n - 1); out.append(good[:i] + good[i + 1] + good[i] + good[i + 2:])
    for _ in range(3): i = r.randrange(n); c = good[i]; out.append(good[:i] + c.swapcase() + good[i + 1:])
    out += ["1" + good, "11" + good, good[1:], good + "1", good[:-1], good + good, good[::-1], good.lower(), good.upper(), " " + good, good + " ", good + "\n", "\t" + good, good + "\0", "\ufeff" + good,
            good.replace("1", "l"), good.replace("o", "O"), good + "=", "0" + good, good[:17] + " " + good[17:], "".join(chr(ord(c) + 0xFEE0) for c in good), good[:5] + "\u00e9" + good[5:], good[:-1] + "\u0131", good[:-1] + "\U0001F600",
            good[:-1] + chr(ord(good[-1]) + 128), good[:-1] + chr(ord(good[-1]) + 256), "", " ", "1", "1" * 25, "1" * 26, "1" * 34, "z" * 34, "z" * 35, "1" * 5000, "z" * 3000, h.hex(), "bitcoin:" + good, good.encode().hex()]
    p = bytes([ver]) + h; ck = C.sha256d(p)[:4]; E = C.b58encode
    for v in r.sample(range(256), 14) + [1, 4, 6, 111, 128, 196]: out.append(C.b58check(bytes([v]) + h))
    for l in (0, 1, 10, 18, 19, 21, 22, 24, 32, 64): out.append(C.b58check(bytes([ver]) + (h + h + h + h)[:l]))
    out += [E(p), E(p + ck[:3]), E(p + ck + b"\0"), E(p + ck + ck), E(ck + p), E(p + ck[::-1]), E(p + hashlib.sha256(p).digest()[:4]), E(p + C.sha256d(h)[:4]), E(p + C.sha256d(p)[28:]), E(p + C.sha256d(p)[4:8]), E(p + b"\0\0\0\0"), E(h + C.sha256d(h)[:4]),
            E(bytes([ver, 0]) + h + ck), E(b"\0" + p + ck), C.b58check(b"\0" + p), C.b58check(p + b"\0"), C.b58check(h), E(p[::-1] + C.sha256d(p[::-1])[:4])]
    for i in range(4):
        c = bytearray(ck); c[i] ^= 1 << r.randrange(8); out.append(E(p + bytes(c)))
    i = r.randrange(20); x = bytearray(p); x[1 + i] ^= 1 << r.randrange(8); out.append(E(bytes(x) + ck))
    x = bytearray(p); x[0] ^= 5; out.append(E(bytes(x) + ck))
    # huge numbers that are equal modulo 2^200
    out.append(E(b"\1" + b"\0" * 0 + p.rjust(25, b"\0") + ck)); out.append(E(bytes([r.randrange(1, 256)]) + p + ck))
    return out

def scenario(e):
    r = e.r; hs = families(r)
    g = G.Gen(r, naddr=6); pairs = [(0, h) for h in hs] + [(5, h) for h in hs]; r.shuffle(pairs)
    known = pairs[:len(pairs) * 3 // 4]
    gen = g.genesis(); chain = [gen]
    val = {p: 1000 + i for i, p in enumerate(known)}
    cut = len(known) // 2
    for part in (known[:cut], known[cut:]):
        cb = g.coinbase(len(chain), nout=len(part), scripts=[C.p2pkh_script(h) if v == 0 else C.p2sh_script(h) for v, h in part], value=0, segwit=False)
        cb = C.Tx(cb.ins, [(val[p], o[1]) for p, o in zip(part, cb.outs)]); b = C.Block(chain[-1].hash, [cb], len(chain)); g.m.add(b); chain.append(b)
    conf = r.choice([1, 2]); node = e.node(); node.set_chain(chain); G.write_files(os.path.join(e.dir, "blocks"), chain[:max(conf, r.choice([2, 3]))])
    ix = e.indexer("hooked", node, confirmations=conf, interval=20).start().wait_ready()
    text = {p: C.b58check(bytes([p[0]]) + p[1]) for p in pairs}
    # every valid text is accepted, echoed unchanged, and stands for its own script alone
    if len(set(text.values())) != len(pairs): raise Inconclusive("reference texts collide")
    l = [text[p] for p in pairs]; want = {text[p]: {(next(t.id for b in chain for t in b.txs for o in t.outs if o[1] == (C.p2pkh_script(p[1]) if p[0] == 0 else C.p2sh_script(p[1]))), None): val[p]} for p in known}
    for k in (0, conf) if len(chain) else (0,):
        for a, en in zip(l, ix.balances(l, k)):
            if en.get("address") != a: raise V("asked for %s, answered for %r" % (a, en.get("address")), dict(address=a), key="echo")
            if k == 0 and P.sat(en["balance"]) != (sum(want.get(a, {}).values())): raise V("%s has balance %s, its script was paid %s satoshis" % (a, en["balance"], sum(want.get(a, {}).values())), dict(address=a), key="denotes")
        e.cov["accepted"] += len(l)
    for p in r.sample(pairs, 12):
        st, h, b = ix.call("GET", "/addresses/%s/balance" % text[p])
        if st != 200 or P.sat(P.parse(b)) != val.get(p, 0): raise V("GET for %s: %d %r" % (text[p], st, b[:100]), dict(address=text[p]), key="single")
    # everything else is refused
    tried = set()
    for p in r.sample(pairs, 10 if e.tier == "quick" else 25):
        for t in mutations(r, text[p], p[1], p[0]):
            if t in tried: continue
            tried.add(t); ok = C.addr_valid(t)
            try: body = json.dumps([t] if r.random() < 0.5 else [text[p], t], ensure_ascii=r.random() < 0.5).encode("utf-8")
            except UnicodeEncodeError: continue
            st, h, b = ix.call("POST", "/addresses/balance", body)
            if st != (200 if ok else 400): raise V("the text %r is %s but was answered %d" % (t[:120], "a valid address" if ok else "not an address", st), dict(text=t), key="accept")
            if ok:
                x = P.parse(b)[-1]
                if x["address"] != t: raise V("asked for %r, answered for %r" % (t, x["address"]), dict(text=t), key="echo")
                e.cov["accidentally_valid"] += 1
            else: e.cov["refused"] += 1
            if t.isascii() and t and not any(c in t for c in "/?# \n\t\0%\"<>`{}\\^|") and len(t) < 3000 and all(32 < ord(c) < 127 for c in t) and r.random() < 0.15:
                st, h, b = ix.call("GET", "/addresses/%s/utxos" % t)
                if st != (200 if ok else 400): raise V("GET: the text %r is %s but was answered %d" % (t[:120], "valid" if ok else "not an address", st), dict(text=t), key="accept")
                e.cov["refused_in_path"] += 1
    if e.idx % 25 == 1:   # every single-character substitution of one address
        a = text[r.choice(pairs)]
        for i in range(len(a)):
            for c in C.B58 + "0OIl":
                if c != a[i]:
                    t = a[:i] + c + a[i + 1:]; st, h, b = ix.call("POST", "/addresses/balance", json.dumps([t]).encode())
                    if st != (200 if C.addr_valid(t) else 400): raise V("the text %r (one character changed) was answered %d" % (t, st), dict(text=t), key="accept")
                    e.cov["single_substitutions"] += 1
    e.sig.append((tuple(sorted(h.hex() for _, h in pairs))[0:3], len(tried))); e.samples.append(dict(valid=l[0], refused=sorted(tried, key=len)[5:9]))

def run():
    main("C12", scenario, required=("accepted", "refused", "refused_in_path", "single_substitutions"), rule="a scenario counts once per distinct set of hashes and mutations",
         assumptions=["lib/bi/chain.py addr_valid as the definition of Base58Check for versions 0 and 5"])
