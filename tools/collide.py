"""Repeats the search for the nonces in lib/bi/collide.py (minutes each on 8 cores); not needed by any check."""
import os, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from bi import collide as K
exe = os.path.join(tempfile.mkdtemp(), "collide"); subprocess.run(["gcc", "-O3", "-msha", "-msse4.1", "-o", exe, os.path.join(os.path.dirname(os.path.abspath(__file__)), "collide.c"), "-lpthread"], check=True)
f = K.first(K.genesis()); src = f.txs[0].txid
for w in K.WINDOWS:
    m = [K.tx(src, w, i, 0).base for i in (0, 1)]; o = len(m[0]) - 12
    h = [K.block(f.hash, w, i, 0).raw[:80] for i in (0, 1)]
    for kind, a, o1, o2 in (("tx", m, o, o + 4), ("block", h, 68, 76)): print(kind, w, subprocess.run([exe, a[0].hex(), a[1].hex(), str(o1), str(o2), str(w), "8"], stdout=subprocess.PIPE).stdout.decode(), flush=True)
