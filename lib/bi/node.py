"""A stand-in bitcoind: JSON-RPC over HTTP, with a request trace, gates and fault injection."""
import asyncio, base64, json, threading, time

class Node:
    def __init__(self, host, user="user", password="password"):
        self.host, self.user, self.password = host, user, password
        self.lock = threading.RLock(); self.cond = threading.Condition(self.lock)
        self.chain = []            # best chain (Block objects), genesis first
        self.by_hash = {}          # every block ever offered, by display hash
        self.mempool = []          # ordered Tx list
        self.known_txs = {}        # display txid -> Tx currently retrievable
        self.unavailable = set()   # display txids that getrawtransaction refuses
        self.trace = []            # (seq, method, params, meta)
        self.trace_on = True
        self.reply_log = None      # set to {}: seq -> (status, value) of getrawmempool/getrawtransaction/getblockhash replies
        self.n = {}                # requests received, per method
        self.n_done = {}           # replies sent, per method
        self.seq = 0
        self.bad = []              # protocol level complaints
        self.hook = None           # hook(node, method, params, seq) -> None | directive (see _reply); runs under the lock
        self.gates = {}            # method -> number of replies still permitted (None: unlimited)
        self.waiting = []          # held replies
        self.delay = None          # callable(method) -> seconds
        self.style = None          # callable(method, seq) -> way a reply is put into bytes (see _styled), all of them correct HTTP and JSON
        self.conns = set()
        self.accepted = {}         # our own probes, by port
        self.stopped = False
        self.expect_auth = None
        self.loop = asyncio.new_event_loop()
        self.ready = threading.Event()
        self.thread = threading.Thread(target=self._run, daemon=True); self.thread.start()
        self.ready.wait()

    # ---- lifecycle
    def _run(self):
        asyncio.set_event_loop(self.loop)
        async def start():
            self.server = await self.loop.create_server(lambda: Conn(self), self.host, 0)
            self.port = self.server.sockets[0].getsockname()[1]
            self.ready.set()
        self.loop.run_until_complete(start())
        self.loop.run_forever()
        for c in list(self.conns):
            try: c.transport.abort()
            except Exception: pass
        self.server.close()
        try: self.loop.run_until_complete(asyncio.sleep(0))
        except Exception: pass
        self.loop.close()
    def close(self):
        if self.stopped: return
        self.stopped = True
        self.loop.call_soon_threadsafe(self.loop.stop)
        self.thread.join(5)
    def stop_listening(self):
        """From now on connections are refused and existing ones closed."""
        done = threading.Event()
        def f():
            self.server.close()
            for c in list(self.conns): c.transport.abort()
            done.set()
        self.loop.call_soon_threadsafe(f); done.wait(5)

    @property
    def mempool(self): return self._mempool
    @mempool.setter
    def mempool(self, txs): self._mempool = txs; self._listed = {t.id: t for t in txs}

    # ---- state changes (call from any thread)
    def set_chain(self, blocks):
        with self.lock:
            for b in blocks: self.by_hash[b.id] = b
            self.chain = list(blocks); self.cond.notify_all()
    def add_block(self, b):
        with self.lock:
            self.by_hash[b.id] = b; self.chain.append(b); self.cond.notify_all()
    def set_mempool(self, txs):
        with self.lock:
            self.mempool = list(txs)
            for t in txs: self.known_txs[t.id] = t
    def drain(self, timeout=1):
        """Waits until everything sent to the node on connections by now closed was received. Connections are taken in order, so a probe comes after all of them."""
        import socket
        end = time.monotonic() + timeout; s = None
        try:
            s = socket.socket(); s.bind((self.host, 0)); p = s.getsockname()[1]; e = self.accepted[p] = threading.Event()
            s.connect((self.host, self.port)); e.wait(timeout); self.accepted.pop(p, None)
        except OSError: pass
        finally:
            if s is not None: s.close()
        while self.conns and time.monotonic() < end: time.sleep(0.0005)
    def count(self, method):
        with self.lock: return self.n.get(method, 0)

    # ---- gates: permit exactly k more replies to a method
    def gate(self, method, permits):
        with self.lock: self.gates[method] = permits
        self.loop.call_soon_threadsafe(self._release)
    def permit(self, method, k=1):
        with self.lock:
            if self.gates.get(method) is not None: self.gates[method] += k
        self.loop.call_soon_threadsafe(self._release)
    def ungate(self, method=None):
        with self.lock:
            if method is None: self.gates.clear()
            else: self.gates.pop(method, None)
        self.loop.call_soon_threadsafe(self._release)
    def held(self, method=None):
        with self.lock: return sum(1 for w in self.waiting if method is None or w[1] == method)

    def _release(self):
        with self.lock:
            todo = []; keep = []
            for w in self.waiting:
                g = self.gates.get(w[1])
                if g is None: todo.append(w)
                elif g > 0: self.gates[w[1]] = g - 1; todo.append(w)
                else: keep.append(w)
            self.waiting = keep; self.cond.notify_all()
        for (conn, method, params, req, seq) in todo: self._reply(conn, method, params, req, seq)

    # ---- request handling (loop thread)
    def on_request(self, conn, head, body):
        with self.lock:
            self.seq += 1; seq = self.seq
            lines = head.split(b"\r\n")
            hdr = {}
            for l in lines[1:]:
                k, _, v = l.partition(b":"); hdr.setdefault(k.strip().lower().decode("latin1"), []).append(v.strip())
            try: req = json.loads(body.decode("utf-8"))
            except Exception: req = None
            if not isinstance(req, dict) or not isinstance(req.get("method"), str):
                self.bad.append((seq, "body is not a JSON-RPC request", body[:200])); req = {"method": "?", "params": []}
            method, params = req["method"], req.get("params")
            auth = hdr.get("authorization", [])
            meta = {"verb": lines[0].split(b" ")[0].decode("latin1"), "path": lines[0].split(b" ")[1].decode("latin1"), "keys": sorted(req), "host": [c.decode("latin1") for c in hdr.get("host", [])], "auth": [a.decode("latin1") for a in auth],
                    "ctype": [c.decode("latin1") for c in hdr.get("content-type", [])], "tip": self.chain[-1].id if self.chain else None, "t": time.monotonic()}
            if self.trace_on: self.trace.append((seq, method, params, meta))
            self.n[method] = self.n.get(method, 0) + 1
            self.cond.notify_all()
            g = self.gates.get(method)
            if g is not None:
                if g <= 0: self.waiting.append((conn, method, params, req, seq)); return
                self.gates[method] = g - 1
        self._reply(conn, method, params, req, seq)

    def answer(self, method, params):
        """(status, result or error) of a healthy node, under the lock."""
        if method == "getrawmempool": return 200, [t.id for t in self.mempool]
        if method == "getrawtransaction":
            t = self.known_txs.get(params[0])
            if t is None or params[0] in self.unavailable or self._listed.get(params[0]) is not t:
                return 500, {"code": -5, "message": "No such mempool transaction. Use -txindex or provide a block hash to enable blockchain transaction queries. Use gettransaction for wallet transactions."}
            return 200, t.raw.hex()
        if method == "getblockhash":
            if not isinstance(params[0], int) or params[0] < 0 or params[0] >= len(self.chain): return 500, {"code": -8, "message": "Block height out of range"}
            return 200, self.chain[params[0]].id
        if method == "getblock":
            b = self.by_hash.get(params[0])
            if b is None: return 500, {"code": -5, "message": "Block not found"}
            return 200, b.raw.hex()
        return 404, {"code": -32601, "message": "Method not found"}

    def _reply(self, conn, method, params, req, seq):
        with self.lock:
            d = None
            if self.hook is not None: d = self.hook(self, method, params, seq)
            if d is None:
                try: status, val = self.answer(method, params)
                except Exception as e:
                    self.bad.append((seq, "bad parameters", repr((method, params, e)))); status, val = 500, {"code": -1, "message": "bad parameters"}
                if status == 200: body = {"result": val, "error": None, "id": req.get("id")}
                else: body = {"result": None, "error": val, "id": req.get("id")}
                how = self.style(method, seq) if self.style else None
                payload = json.dumps(body).encode() if how is None else self._json(how, body)
                if self.reply_log is not None: self.reply_log[seq] = (status, val if method != "getblock" else None)
                directive = ("raw", status, payload) if how is None else ("styled", status, payload, how)
            else: directive = d
            self.n_done[method] = self.n_done.get(method, 0) + 1
            delay = self.delay(method) if self.delay else 0
        if delay: self.loop.call_later(delay, self._send, conn, directive)
        else: self._send(conn, directive)

    def _send(self, conn, d):
        tr = conn.transport
        if tr is None or tr.is_closing(): return
        kind = d[0]
        if kind == "raw":
            _, status, payload = d
            reason = {200: "OK", 401: "Unauthorized", 403: "Forbidden", 404: "Not Found", 500: "Internal Server Error", 503: "Service Unavailable"}.get(status, "X")
            tr.write(("HTTP/1.1 %d %s\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n" % (status, reason, len(payload))).encode() + payload)
        elif kind == "styled": self._styled(tr, *d[1:])
        elif kind == "drip":       # the head at once, the body little by little over some seconds
            _, payload, secs = d; k = max(1, min(len(payload) - 1, int(secs * 3)))
            tr.write(b"HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n" % len(payload))
            for i in range(k): self.loop.call_later((i + 1) * secs / k, self._more, tr, payload[len(payload) * i // k:len(payload) * (i + 1) // k])
        elif kind == "close": tr.abort()
        elif kind == "truncate":   # full length announced, half sent, connection closed
            payload = d[1]
            tr.write(("HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n" % len(payload)).encode() + payload[:len(payload) // 2]); tr.close()
        elif kind == "bytes": tr.write(d[1]); tr.close()
        elif kind == "hang": pass
        else: raise ValueError(kind)

    def _more(self, tr, b):
        if not tr.is_closing(): tr.write(b)

    # ---- other correct ways to say the same
    STYLES = ("spaced", "escaped", "reordered", "chunked", "one_chunk", "bytewise", "pieces", "head_apart", "closing", "header_case", "more_headers")
    def _json(self, how, body):
        if how == "spaced": return b"\r\n\t " + json.dumps(body, indent=2).replace("\n", "\r\n\t").encode() + b"\n\n"
        if how == "reordered": return json.dumps({"id": body["id"], "extra": {"result": [1, None, "x"]}, "error": body["error"], "jsonrpc": "1.0", "result": body["result"]}).encode()
        if how == "escaped":
            esc = lambda v: [esc(x) for x in v] if isinstance(v, list) else "".join("\\u%04x" % ord(c) if i % 3 == 0 else c for i, c in enumerate(v)) if isinstance(v, str) else v
            return json.dumps(dict(body, result=esc(body["result"]))).replace("\\\\u", "\\u").encode()
        return json.dumps(body).encode()
    def _styled(self, tr, status, payload, how):
        reason = {200: b"OK", 500: b"Internal Server Error", 404: b"Not Found"}[status]; top = b"HTTP/1.1 %d %s\r\n" % (status, reason)
        if how in ("chunked", "one_chunk"):
            n = 1 if how == "one_chunk" else max(1, len(payload) // 7); parts = [payload[i:i + max(1, -(-len(payload) // n))] for i in range(0, len(payload), max(1, -(-len(payload) // n)))] if how == "one_chunk" else [payload[i:i + 997] for i in range(0, len(payload), 997)]
            data = top + b"Content-Type: application/json\r\nTransfer-Encoding: chunked\r\n\r\n" + b"".join(b"%x\r\n" % len(x) + x + b"\r\n" for x in parts) + b"0\r\n\r\n"
        elif how == "closing": tr.write(top + b"Content-Type: application/json\r\nConnection: close\r\nContent-Length: %d\r\n\r\n" % len(payload) + payload); tr.close(); return
        elif how == "header_case": data = top + b"CONTENT-TYPE:application/json\r\ncontent-LENGTH:   %d  \r\n\r\n" % len(payload) + payload
        elif how == "more_headers": data = top + b"Date: Thu, 01 Jan 1970 00:00:00 GMT\r\nServer: x\r\n" + b"".join(b"X-Header-%d: %s\r\n" % (i, b"v" * i) for i in range(40)) + b"Content-Type: application/json; charset=utf-8\r\nContent-Length: %d\r\n\r\n" % len(payload) + payload
        else: data = top + b"Content-Type: application/json\r\nContent-Length: %d\r\n\r\n" % len(payload) + payload
        if how == "bytewise": cut = [data[i:i + 1] for i in range(min(300, len(data)))] + [data[300:]]
        elif how == "pieces": n = max(1, len(data) // 6); cut = [data[i:i + n] for i in range(0, len(data), n)]
        elif how == "head_apart": i = data.index(b"\r\n\r\n") + 4; cut = [data[:i - 2], data[i - 2:i], data[i:]]
        else: cut = [data]
        def send(i):
            if tr.is_closing() or i >= len(cut): return
            if cut[i]: tr.write(cut[i])
            if i + 1 < len(cut): self.loop.call_later(0.00001 if how == "bytewise" else 0.003, send, i + 1)
        send(0)
    def drop_idle(self):
        """Closes the connections, as servers do with idle ones."""
        def f():
            for c in list(self.conns): c.transport.close()
        self.loop.call_soon_threadsafe(f)

    # ---- waiting
    def wait(self, pred, timeout, alive=lambda: True):
        end = time.monotonic() + timeout
        with self.cond:
            while not pred():
                left = end - time.monotonic()
                if left <= 0 or not alive(): return False
                self.cond.wait(min(left, 0.05))
        return True

class Conn(asyncio.Protocol):
    def __init__(self, node): self.node = node; self.buf = b""; self.transport = None
    def connection_made(self, tr):
        self.transport = tr; self.node.conns.add(self)
        import socket
        e = self.node.accepted.get(tr.get_extra_info("peername")[1])
        if e is not None: e.set()
        try: tr.get_extra_info("socket").setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        except Exception: pass
    def connection_lost(self, exc): self.node.conns.discard(self)
    def data_received(self, data):
        self.buf += data
        while True:
            i = self.buf.find(b"\r\n\r\n")
            if i < 0: return
            head = self.buf[:i]; low = head.lower()
            if b"transfer-encoding: chunked" in low:
                p = i + 4; body = b""; ok = False
                while True:
                    j = self.buf.find(b"\r\n", p)
                    if j < 0: break
                    n = int(self.buf[p:j].split(b";")[0], 16)
                    if len(self.buf) < j + 2 + n + 2: break
                    body += self.buf[j + 2:j + 2 + n]; p = j + 2 + n + 2
                    if n == 0: ok = True; break
                if not ok: return
                self.buf = self.buf[p:]
            else:
                n = 0
                for l in low.split(b"\r\n"):
                    if l.startswith(b"content-length:"): n = int(l.split(b":")[1])
                if len(self.buf) < i + 4 + n: return
                body = self.buf[i + 4:i + 4 + n]; self.buf = self.buf[i + 4 + n:]
            self.node.on_request(self, head, body)

def basic(user, password): return "Basic " + base64.b64encode((user + ":" + password).encode()).decode()
