"""Running the indexer as a black box and talking to it over HTTP."""
import ctypes, json, os, re, shutil, signal, socket, subprocess, tempfile, threading, time
from decimal import Decimal
from . import chain as C

_libc = ctypes.CDLL(None)
def _pdeath():
    os.setsid(); _libc.prctl(1, 9); signal.signal(signal.SIGINT, signal.SIG_DFL)

_ctr = [0]; _ctr_lock = threading.Lock()
def fresh_ip():
    """A loopback address of our own, so that no two processes compete for a port."""
    with _ctr_lock: _ctr[0] += 1; n = _ctr[0]
    pid = os.getpid()
    # 21 bits of pid/counter spread over 127.x.y.z
    return "127.%d.%d.%d" % (2 + (pid % 120), n % 250 + 1, (pid // 120 + n // 250) % 250 + 1)

def scratch():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > (1 << 30) else None
    return tempfile.mkdtemp(prefix="bi-", dir=base)

class HttpError(Exception): pass
class Died(Exception): pass

class Http:
    """Minimal keep-alive client."""
    def __init__(self, ip, port, timeout=60): self.a = (ip, port); self.s = None; self.t = timeout
    def close(self):
        if self.s: self.s.close(); self.s = None
    def connect(self):
        self.s = socket.create_connection(self.a, self.t); self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1); self.buf = b""
    def _more(self):
        d = self.s.recv(1 << 18)
        if not d: raise HttpError("connection closed")
        self.buf += d
    def raw(self, data):
        if self.s is None: self.connect()
        try:
            if data: self.s.sendall(data)
            while True:
                i = self.buf.find(b"\r\n\r\n")
                if i >= 0: break
                self._more()
            head = self.buf[:i].split(b"\r\n"); self.buf = self.buf[i + 4:]
            status = int(head[0].split(b" ")[1]); h = {}
            for l in head[1:]:
                k, _, v = l.partition(b":"); h[k.strip().lower().decode("latin1")] = v.strip().decode("latin1")
            if data[:5] == b"HEAD ": n = 0
            elif "content-length" in h: n = int(h["content-length"])
            elif "chunked" in h.get("transfer-encoding", ""):
                body = b""
                while True:
                    while b"\r\n" not in self.buf: self._more()
                    l, _, self.buf = self.buf.partition(b"\r\n"); n = int(l, 16)
                    while len(self.buf) < n + 2: self._more()
                    body += self.buf[:n]; self.buf = self.buf[n + 2:]
                    if n == 0: break
                return status, h, body
            else: n = 0
            while len(self.buf) < n: self._more()
            body, self.buf = self.buf[:n], self.buf[n:]
            if h.get("connection", "").lower() == "close": self.close()
            return status, h, body
        except (OSError, HttpError):
            self.close(); raise
    def get(self, path): return self.raw(b"GET " + path.encode("latin1") + b" HTTP/1.1\r\nHost: x\r\n\r\n")
    def post(self, path, body):
        return self.raw(b"POST " + path.encode("latin1") + b" HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n" % len(body) + body)

def parse(body): return json.loads(body, parse_float=Decimal, parse_int=Decimal)
SAT = Decimal(100000000)
def sat(x):
    """Decimal bitcoin amount -> satoshis; a non-integral result is returned as the Decimal itself (and never equals an int)."""
    if not isinstance(x, Decimal): return ("not a number", repr(x))
    v = x * SAT
    i = int(v)
    return i if v == i else v

class Indexer:
    def __init__(self, binary, node, dir_=None, blocks=None, threads=1, batch=10, confirmations=6, interval=1, store=None, env=None, preload=None, shim=None, ip=None, port=8000, stdout=None):
        self.stdout = stdout if stdout is not None else subprocess.DEVNULL
        self.dir = dir_; self.binary = binary; self.node = node
        self.ip = ip or fresh_ip(); self.port = port; self.confirmations = confirmations
        self.store = store or os.path.join(dir_, "store.dat"); self.blocks = blocks or os.path.join(dir_, "blocks")
        self.env = dict(PATH="/usr/bin:/bin", HOST=self.ip, PORT=str(port), THREADS=str(threads), BATCH_SIZE=str(batch), STORE_FILE_PATH=self.store,
                        BLOCK_FILES_PATH=self.blocks, CONFIRMATIONS=str(confirmations), UPDATE_INTERVAL=str(interval),
                        RPC_SERVER_HOST=node.host, RPC_SERVER_PORT=str(node.port), RPC_SERVER_USER=node.user, RPC_SERVER_PASSWORD=node.password, RUST_BACKTRACE="0")
        if preload: self.env["LD_PRELOAD"] = preload
        if shim: self.env.update(shim)
        if env: self.env.update(env)
        self.env = {k: v for k, v in self.env.items() if v is not None}
        self.p = None; self.h = None
        self.errfile = os.path.join(dir_, "stderr.%d" % int(time.monotonic() * 1e6))
        self.base = dict(node.n) if node is not None else {}
    def start(self):
        self.err = open(self.errfile, "wb")
        self.base = dict(self.node.n)
        self.p = subprocess.Popen([self.binary], env=self.env, stdin=subprocess.DEVNULL, stdout=self.stdout, stderr=self.err, preexec_fn=_pdeath, cwd=self.dir)
        self.err.close(); return self
    def alive(self): return self.p is not None and self.p.poll() is None
    def stderr(self):
        try: return open(self.errfile, "rb").read().decode(errors="replace")[-3000:]
        except OSError: return ""
    def http(self, timeout=60): return Http(self.ip, self.port, timeout)
    def listening(self):
        try: s = socket.create_connection((self.ip, self.port), 5); s.close(); return True
        except OSError: return False
    def wait_ready(self, timeout=90):
        end = time.monotonic() + timeout
        while time.monotonic() < end:
            if not self.alive(): raise Died("process exited with %s during start: %s" % (self.p.returncode, self.stderr()))
            if self.listening(): self.h = self.http(); return self
            time.sleep(0.003)
        raise Stuck("not listening %.0f s after start" % timeout, self)
    def kill(self, sig=signal.SIGKILL):
        if self.p is not None:
            live = self.p.poll() is None
            if live:
                try: os.kill(self.p.pid, sig)
                except OSError: pass
            try: self.p.wait(20)
            except subprocess.TimeoutExpired: self.p.kill(); self.p.wait()
            # what it had sent is seen by the node before anything a successor sends
            if live and self.node is not None and not self.node.stopped: self.node.drain()
        if self.h: self.h.close(); self.h = None
    def wait_exit(self, timeout):
        try: return self.p.wait(timeout)
        except subprocess.TimeoutExpired: return None

    # ---- synchronisation on logical steps: update cycles as seen by the node
    def sync(self, cycles=3, timeout=60):
        """Returns once `cycles` further mempool polls were received: every state the node had before the call has been applied."""
        n0 = self.node.count("getrawmempool")
        if not self.node.wait(lambda: self.node.n.get("getrawmempool", 0) >= n0 + cycles, timeout, self.alive):
            if not self.alive(): raise Died("process exited with %s: %s" % (self.p.wait(), self.stderr()))
            raise Stuck("no update cycle completed within %.0f s" % timeout, self)

    # ---- queries
    def call(self, verb, path, body=None):
        try: return self.h.get(path) if verb == "GET" else self.h.post(path, body)
        except (OSError, HttpError) as e:
            if isinstance(e, (socket.timeout, TimeoutError)): raise Stuck("no reply to %s %s" % (verb, path[:80]), self)
            time.sleep(0.2)
            if not self.alive(): raise Died("process exited with %s: %s" % (self.p.wait(), self.stderr()))
            self.h.close()
            try: return self.h.get(path) if verb == "GET" else self.h.post(path, body)
            except (OSError, HttpError) as e2: raise Died("request %s %s failed: %r (process alive: %s) %s" % (verb, path[:80], e2, self.alive(), self.stderr()))
    def utxos(self, addrs, k=None):
        q = "" if k is None else "?confirmations=%d" % k
        st, h, b = self.call("POST", "/addresses/utxos" + q, json.dumps(addrs).encode())
        if st != 200: raise Bad("POST /addresses/utxos%s answered %d %r" % (q, st, b[:200]))
        return parse(b)
    def balances(self, addrs, k=None):
        q = "" if k is None else "?confirmations=%d" % k
        st, h, b = self.call("POST", "/addresses/balance" + q, json.dumps(addrs).encode())
        if st != 200: raise Bad("POST /addresses/balance%s answered %d %r" % (q, st, b[:200]))
        return parse(b)

class Bad(Exception): pass
class Stuck(Exception):
    def __init__(self, msg, ix=None):
        super().__init__(msg)
        if ix is not None:
            try: self.detail = "alive=%s node requests=%s %s" % (ix.alive(), dict(ix.node.n), ix.stderr()[-500:])
            except Exception: self.detail = ""

def compare_utxos(resp, addrs, want):
    """want: address -> {(txid, vout): value}. None if equal, else a description of the first difference."""
    if not isinstance(resp, list) or len(resp) != len(addrs): return "expected %d entries, got %s" % (len(addrs), len(resp) if isinstance(resp, list) else type(resp))
    for a, e in zip(addrs, resp):
        if e.get("address") != a: return "entry for %s is labelled %r" % (a, e.get("address"))
        w = want.get(a, {}); got = {}
        if len(e["utxos"]) != len(w) or len(e["utxos"]):
            for u in e["utxos"]:
                key = (u["hash"], int(u["vout"]))
                if key in got: return "%s lists outpoint %s:%d twice" % (a, key[0], key[1])
                got[key] = sat(u["value"])
        if got != w:
            miss = [x for x in w if x not in got][:2]; extra = [x for x in got if x not in w][:2]; val = [(x, w[x], str(got[x])) for x in w if x in got and got[x] != w[x]][:2]
            return "%s: missing %s, unexpected %s, wrong value %s" % (a, miss, extra, val)
    return None

def compare_balances(resp, addrs, want):
    if not isinstance(resp, list) or len(resp) != len(addrs): return "expected %d entries, got %s" % (len(addrs), len(resp) if isinstance(resp, list) else type(resp))
    for a, e in zip(addrs, resp):
        if e.get("address") != a: return "entry for %s is labelled %r" % (a, e.get("address"))
        w = sum(want.get(a, {}).values()); g = sat(e["balance"])
        if g != w: return "%s: balance %s satoshis, expected %s" % (a, g, w)
    return None
