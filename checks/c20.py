from .common import *
from . import c12
import base64 as B64, hashlib, json, re, subprocess

B58 = C.B58.encode(); A64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; HEX = b"0123456789abcdef"
CODECS = ("hex", "reverse_hex", "base58", "base58_check", "base64")

# ---- the standard definitions
def enc(c, b):
    if c == "hex": return b.hex().encode()
    if c == "reverse_hex": return b[::-1].hex().encode()
    if c == "base58": return C.b58encode(b).encode()
    if c == "base58_check": return C.b58check(b).encode()
    return B64.b64encode(b)

def b58dec(t):
    n = 0
    for x in t: n = n * 58 + B58.index(x)
    z = len(t) - len(t.lstrip(b"1"))
    return b"\0" * z + n.to_bytes((n.bit_length() + 7) // 8, "big")

def alphabet(c): return {"hex": b"0123456789abcdefABCDEF", "reverse_hex": b"0123456789abcdefABCDEF", "base58": B58, "base58_check": B58, "base64": A64 + b"="}[c]

def judge_decode(c, t):
    """('value', bytes): must be this. ('err', positions or None): must be an error, naming one of the positions. ('either', bytes or None): an error or this (any) value."""
    al = alphabet(c); foreign = [i for i, x in enumerate(t) if x not in al]
    if c in ("hex", "reverse_hex"):
        if len(t) % 2: return "err", None
        if foreign: return "err", foreign
        v = bytes.fromhex(t.decode()); v = v if c == "hex" else v[::-1]
        return ("value", v) if t == t.lower() else ("either", v)
    if foreign: return "err", foreign
    if c == "base58": return "value", b58dec(t)
    if c == "base58_check":
        b = b58dec(t)
        if len(b) < 4 or C.sha256d(b[:-4])[:4] != b[-4:]: return "err", None
        return "value", b[:-4]
    try: v = B64.b64decode(t, validate=True)
    except Exception: v = None
    if v is not None and B64.b64encode(v) == t: return "value", v
    return "either", None

# ---- inputs
def some_bytes(r, big):
    k = r.randrange(12)
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 15, 16, 17, 20, 21, 23, 24, 25, 31, 32, 33, 47, 48, 63, 64, 65, 80, 127, 128, 200, r.randrange(0, 300)])
    if not big: n = min(n, 40)
    elif r.random() < 0.05: n = r.choice([511, 512, 513, 1000, 1024, 1500])
    if k == 0: return b"\0" * n
    if k == 1: return b"\xff" * n
    if k == 2: z = r.randrange(n + 1); return b"\0" * z + r.randbytes(n - z)
    if k == 3: z = r.randrange(n + 1); return r.randbytes(n - z) + b"\0" * z
    if k == 4: return bytes(r.choice([0, 0, 1, 255]) for _ in range(n))
    if k == 5: return bytes([r.randrange(256)]) * n
    if k == 6 and not big: k = 9
    if k == 6:      # around powers of 58 and 256, where lengths change
        v = r.choice([58, 256]) ** r.randrange(1, 90) + r.choice([-1, 0, 1]); return b"\0" * r.choice([0, 0, 1, 3]) + v.to_bytes((v.bit_length() + 7) // 8, "big")
    if k == 7: return bytes(i & 255 for i in range(n))
    if k == 8: i = r.randrange(n + 1); return b"\0" * i + b"\x80" + b"\0" * (n - i)
    return r.randbytes(n)

def some_text(r, c, big):
    k = r.randrange(14); al = {"hex": HEX, "reverse_hex": HEX}.get(c, alphabet(c).rstrip(b"="))
    good = enc(c, some_bytes(r, big)); n = len(good)
    if k == 0: return good
    if k == 1: return r.randbytes(r.choice([1, 2, 3, 5, 34, 60]))
    if k == 2: return bytes(r.choice(al) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 6, 7, 34, 51, r.randrange(200)])))
    if k == 3: return bytes([al[0]]) * r.randrange(60) + bytes(r.choice(al) for _ in range(r.randrange(20)))
    if k == 4: return bytes([al[-1]]) * r.randrange(60)
    if k == 5: return good.upper()
    if k == 6: return good.swapcase()
    if k == 7: return good[:r.randrange(n + 1)]
    if k == 8: return good + bytes([r.choice(al)]) * r.choice([1, 2, 3])
    if k == 9: return good + b"=" * r.choice([1, 2, 3, 4, 5])
    if k == 10: i = r.randrange(n + 1); return good[:i] + b"=" * r.choice([1, 2]) + good[i:]
    if k == 11 and n: i = r.randrange(n); return good[:i] + bytes([r.choice(al)]) + good[i + 1:]
    # one or several foreign characters at any position
    x = bytearray(good or b"1"); m = [y for y in range(256) if y not in alphabet(c)]
    near = [y for y in (0, 1, 9, 10, 32, 43, 44, 45, 46, 47, 48, 58, 59, 60, 61, 62, 63, 64, 71, 73, 79, 91, 92, 95, 96, 103, 108, 123, 124, 126, 127, 128, 129, 160, 176, 192, 194, 223, 224, 239, 240, 254, 255) if y in m]
    for _ in range(r.choice([1, 1, 1, 2, 4])): x[r.randrange(len(x))] = r.choice(near if r.random() < 0.6 else m)
    return bytes(x)

def hx(b): return b.hex() or "-"
def uhx(s): return b"" if s == "-" else bytes.fromhex(s)

def lines_for(r, c, count, big=True):
    """[(line, what must come out)]"""
    out = []
    def add(op, b, size, fill, want): out.append(("%s %s %d %d" % (op, hx(b), size, fill), want))
    for _ in range(count):
        fill = r.choice([0, 0xff, 0x31, 1, 57, 58, 63, 64, 0x80, r.randrange(256)])
        if r.random() < 0.5:
            b = some_bytes(r, big); t = enc(c, b); add("encode", b, 0, 0, ("text", t)); add("decode", t, 0, 0, ("value", b))
            if c in ("base58", "base58_check", "base64"):
                for size in {len(t), len(t) + r.choice([1, 2, 7, 200]), max(0, len(t) - 1), max(0, len(t) - r.choice([1, 2, 3, 4])), r.randrange(len(t) + 3)}:
                    add("encode_into", b, size, fill, ("into", t, len(t), len(t)))
            for size in {len(b), len(b) + 4, len(b) + r.choice([1, 2, 3, 5, 100]), max(0, len(b) - 1), r.randrange(len(b) + 3)}:
                add("decode_into", t, size, fill, ("into", b, len(b), len(b) + (4 if c == "base58_check" else 0)))
        else:
            t = some_text(r, c, big); j = judge_decode(c, t); add("decode", t, 0, 0, j)
            for size in {len(t) + r.choice([0, 1, 9]), r.randrange(len(t) + 1)}:
                if size >= len(t): add("decode_into", t, size, fill, ("as", j))
                else: add("decode_into", t, size, fill, ("any",))
    return out

def judge(c, line, want, got, cov):
    """None or what is wrong."""
    op = line.split(" ")[0]; g = got.split(" ", 2); cov["%s_%s" % (c, op)] += 1
    if got in ("panic", "invalid-utf8", "none"): return "ends in %s" % got
    if want[0] == "text":
        if g[0] != "str" or uhx(g[1]) != want[1]: return "gives %s, the standard definition gives %r" % (uhx(g[1]) if g[0] == "str" else got, want[1])
    elif want[0] == "value":
        if g[0] != "vec" or uhx(g[1]) != want[1]: return "gives %s instead of %s" % (got, want[1].hex())
    elif want[0] == "into":
        _, exp, need, sure = want; size = int(line.split(" ")[2])
        if size < need:
            cov["too_small"] += 1
            if g[0] != "err": return "buffer of %d for %d bytes: %s" % (size, need, got)
        elif g[0] == "into":
            if int(g[1]) != need or uhx(g[2])[:need] != exp: return "writes %s (length %s) instead of %s (length %d)" % (uhx(g[2])[:max(need, int(g[1]))].hex(), g[1], exp.hex(), need)
            cov["into_exact" if size == need else "into_larger"] += 1
        elif size >= sure: return "buffer of %d for %d bytes: %s" % (size, need, got)
    elif want[0] == "err":
        if g[0] != "err": return "accepted: %s" % got
        if want[1]:
            at = [int(x) for x in re.findall(r"(?:index|position)\D{0,3}(\d+)", got)] or [int(x) for x in re.findall(r"\d+", got)]
            if not set(at) & set(want[1]): return "foreign character at %s reported as %s" % (want[1][:5], got)
            cov["foreign_" + c] += 1
        else: cov["refused_" + c] += 1
    elif want[0] == "either":
        if want[1] is not None and g[0] == "vec" and uhx(g[1]) != want[1]: return "gives %s instead of %s" % (got, want[1].hex())
    elif want[0] == "as":
        j = want[1]
        if j[0] in ("value", "either") and j[1] is not None and g[0] == "into":
            if uhx(g[2])[:int(g[1])] != j[1]: return "writes %s instead of %s" % (uhx(g[2])[:int(g[1])].hex(), j[1].hex())
        elif j[0] == "value": return "refused although the buffer is large enough: %s" % got
        elif j[0] == "err": return judge(c, line, j, got, cov)
    return None

def feed(path, lines, env=None, timeout=120):
    """-> (exit status, output lines, stderr) of a harness program."""
    p = subprocess.run([path], input="".join(l + "\n" for l in lines).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=dict(PATH="/usr/bin:/bin", RUST_BACKTRACE="0", **(env or {})))
    return p.returncode, p.stdout.decode().split("\n")[:-1], p.stderr.decode(errors="replace")

def codec_round(r, c, path, count, cov, env=None, run=feed, big=True):
    """One batch through one codec, judged. Raises V."""
    ls = lines_for(r, c, count, big)
    rc, out, err = run(path, [l for l, _ in ls], env)
    if rc or len(out) != len(ls): raise V("%s: the conversion of %s ended the process (status %s): %s" % (c, ls[min(len(out), len(ls) - 1)][0][:300], rc, err[-1500:]), dict(line=ls[min(len(out), len(ls) - 1)][0]), key=c + " died")
    for (l, want), got in zip(ls, out):
        d = judge(c, l, want, got, cov)
        if d: raise V("%s: %s %s" % (c, l[:400], d[:600]), dict(line=l, got=got[:500]), key=c)
    return ls

def address_lines(r, n):
    out = []
    for _ in range(n):
        h = r.choice([r.randbytes(20), b"\0" * 20, b"\xff" * 20, b"\0" * r.randrange(20) + b"\1"]).ljust(20, b"\7"); v = r.choice([0, 5]); t = C.b58check(bytes([v]) + h)
        out.append(("from_string %s 0 0" % hx(t.encode()), ("value", bytes([v]) + h))); out.append(("display %s 0 0" % hx(bytes([v]) + h), ("text", t.encode())))
        for m in r.sample(c12.mutations(r, t, h, v), 10):
            try: b = m.encode()
            except UnicodeEncodeError: continue
            out.append(("from_string %s 0 0" % hx(b), ("value", C.b58decode(m)[:21]) if C.addr_valid(m) else ("err", None)))
        s = C.p2pkh_script(h) if v == 0 else C.p2sh_script(h)
        out.append(("from_script %s 0 0" % hx(s), ("value", bytes([v]) + h)))
        i = r.randrange(len(s)); x = r.choice([s[:i] + bytes([s[i] ^ (1 << r.randrange(8))]) + s[i + 1:], s[:-1], s + b"\0", s[1:], b"", s[:i]])
        a = C.script_addr(x); out.append(("from_script %s 0 0" % hx(x), ("value", C.b58decode(a)[:21]) if a else ("err", None)))
    return out

def scenario(e):
    r = e.r
    if e.idx < 200 and e.idx % 40 == 13: return swept(e)
    if e.idx % 12 == 11: return black_box(e)
    have = [c for c in CODECS if "h:" + c in e.bins]
    if not have and "h:address" not in e.bins: return black_box(e)
    k = e.idx % 6
    if k == 5 and "h:address" in e.bins:
        ls = address_lines(r, 60); rc, out, err = feed(e.bins["h:address"], [l for l, _ in ls])
        if rc or len(out) != len(ls): raise V("address: %s ended the process (status %s): %s" % (ls[min(len(out), len(ls) - 1)][0], rc, err[-800:]), key="address died")
        for (l, want), got in zip(ls, out):
            d = judge("address", l, want, got, e.cov)
            if d: raise V("address: %s %s" % (l, d), dict(line=l, got=got), key="address")
        e.sig.append(ls[0][0]); return
    if not have: return black_box(e)
    c = have[e.idx % len(have)]
    ls = codec_round(r, c, e.bins["h:" + c], 150, e.cov); e.cov["conversions"] += len(ls); e.cov["evaluations_extra"] += len(ls)
    e.sig.append((c, ls[0][0], ls[-1][0])); e.samples.append(dict(codec=c, line=ls[r.randrange(len(ls))][0][:200]))

def cred(r):
    n = r.choice([0, 1, 2, 3, 4, 5, 16, 31, 47, 64, 100, r.randrange(300)])
    return "".join(chr(r.choice([r.randrange(1, 128), 0x3e, 0x3f, 0x7f, r.randrange(0xa1, 0x800)])) for _ in range(n))

def black_box(e):
    """The same conversions where the program uses them: node credentials, transaction and block hashes and bodies, addresses in and out."""
    r = e.r; user, pw = cred(r), cred(r)
    w = World(e, node_kw=dict(user=user, password=pw), heavy=0.0, extra=r.choice([1, 4]), ntx=3)
    w.mem = w.g.mempool_txs(w.utxo(), 4); w.node.set_mempool(w.mem); w.add(1); w.settle_mempool(); w.node.set_mempool(w.mem); w.ix.sync(); w.check("black box", balances=True)
    if w.node.bad: raise V("malformed call %s" % (w.node.bad[0],), key="rpc")
    for seq, m, p, meta in w.node.trace:
        if meta["auth"] != [N.basic(user, pw)]: raise V("credentials %r:%r sent as %r" % (user, pw, meta["auth"]), dict(user=user, password=pw), key="base64")
    e.cov["auth_headers"] += len(w.node.trace)
    def ask(t, ok):
        try: body = json.dumps([t]).encode()
        except UnicodeEncodeError: return
        st, h, b = w.ix.call("POST", "/addresses/balance", body)
        if st != (200 if ok else 400): raise V("address text %r answered %d" % (t[:100], st), dict(text=t), key="address")
        if ok and P.parse(b)[0]["address"] != t: raise V("address text %r comes back as %s" % (t, b[:100]), dict(text=t), key="address")
        e.cov["addresses_asked"] += 1
    for _ in range(40):
        h = r.choice([r.randbytes(20), b"\0" * r.randrange(20) + bytes([r.randrange(256)])]).ljust(20, b"\0"); v = r.choice([0, 5]); t = C.b58check(bytes([v]) + h); ask(t, True)
        for m in r.sample(c12.mutations(r, t, h, v), 6): ask(m, C.addr_valid(m))
        t = some_text(r, r.choice(["base58", "base58_check"]), False).decode("latin1"); ask(t, C.addr_valid(t))
    w.ix.sync(1); w.check("after all the texts"); e.cov["black_box"] += 1; e.sig.append((user, pw))

def note_missing(ctx):
    for b, why in ctx["bins"].get("missing", []):
        print("NOTE: %s could not be built against this tree, that part is left out: %s" % (b, why[-200:].replace("\n", " "))); ctx["cov"]["not_built"] += 1

def sweep(e, c):
    """Every byte string of at most two bytes, both ways."""
    for first in range(-1, 256):
        ls = []
        for second in (range(-1, 256) if first >= 0 else [-1]):
            b = bytes(x for x in (first, second) if x >= 0); t = enc(c, b)
            ls += [("encode %s 0 0" % hx(b), ("text", t)), ("decode %s 0 0" % hx(t), ("value", b)), ("decode %s 0 0" % hx(b), judge_decode(c, b))]
        if first >= 0: yield ls

def swept(e):
    c = CODECS[e.idx // 40 % 5]
    if "h:" + c not in e.bins: return
    ls = [l for x in sweep(e, c) for l in x]; rc, out, err = feed(e.bins["h:" + c], [l for l, _ in ls])
    if rc or len(out) != len(ls): raise V("%s: the conversion of %s ended the process (status %s)" % (c, ls[min(len(out), len(ls) - 1)][0], rc), key=c + " died")
    for (l, want), got in zip(ls, out):
        d = judge(c, l, want, got, e.cov)
        if d: raise V("%s: %s %s" % (c, l, d), dict(line=l, got=got[:500]), key=c)
    e.cov["swept_up_to_two_bytes"] += len(ls); e.cov["evaluations_extra"] += len(ls); e.sig.append(("sweep", c))

def run():
    main("C20", scenario, need_bins=("hooked",) + tuple("h:%s?" % c for c in CODECS + ("address",)), extra=note_missing, required=("auth_headers", "addresses_asked", "black_box"),
         rule="a scenario counts once per distinct batch of inputs; evaluations also counts the single conversions", assumptions=["the reference definitions in checks/c20.py on Python's bytes.hex, base64 and hashlib"])
