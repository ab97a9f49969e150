"""The servers of e2e/ on the real lunatic runtime, driven over TCP by hostile and proper clients, and judged
by what the clients receive, what the handlers say, and what the runtime holds."""
import base64, hashlib, json, os, random, re, resource, socket, struct, subprocess, tempfile, threading, time

BIG_WAIT = 40.0

_, HARD = resource.getrlimit(resource.RLIMIT_NOFILE)
resource.setrlimit(resource.RLIMIT_NOFILE, (min(HARD, 65536), HARD))

class Died(Exception):
    pass

class Wrong(Exception):
    pass

def need(cond, text):
    if not cond:
        raise Wrong(text)

# ---------------------------------------------------------------- servers

WAYS = ["serve", "run", "for"]

def free_ports(n):
    socks = [socket.socket() for _ in range(n)]
    for s in socks:
        s.bind(("127.0.0.1", 0))
    ports = [s.getsockname()[1] for s in socks]
    for s in socks:
        s.close()
    return ports

class Server:
    def __init__(self, port, way, routes, state):
        self.port, self.way, self.routes, self.state = port, way, routes, state

    def spec(self):
        routes = ",".join(f"{m}-{h}" for m, h in self.routes)
        return f"{self.port}/{self.way}/{self.state}/{routes}"

    def first(self, mask):
        if self.way == "for":
            return self.routes[0][1]
        for m, h in self.routes:
            if mask >> m & 1:
                return h
        return None

class Lunatic:
    """One runtime with several servers in it."""
    def __init__(self, wasm, env, rng, count=9):
        self.lock = threading.Lock()
        self.read_to, self.said, self.panicked, self.wanted, self.trapped = 0, {}, [], 0, []
        for attempt in range(4):
            ports = free_ports(count)
            self.servers = []
            for i, port in enumerate(ports):
                routes = [(rng.randrange(8), rng.randrange(8)) for _ in range(rng.choice([1, 3, 5, 8, 12]))]
                state = ["unit", f"u64={rng.getrandbits(64)}", f"st={rng.randrange(1, 10**6)}"][i % 3]
                self.servers.append(Server(port, WAYS[(i // 3) % 3], routes, state))
            self.log = tempfile.NamedTemporaryFile(prefix="e2e", suffix=".log", delete=False)
            self.proc = subprocess.Popen(["lunatic", wasm, *[s.spec() for s in self.servers]], env=env,
                                         stdin=subprocess.DEVNULL, stdout=self.log, stderr=subprocess.STDOUT)
            if self.wait_bound():
                return
            self.stop()
        raise Died("the servers do not start")

    def wait_bound(self):
        want = {s.port for s in self.servers}
        end = time.time() + 60
        while time.time() < end:
            if self.proc.poll() is not None:
                return False
            if want <= self.listening():
                return True
            time.sleep(0.05)
        return False

    def listening(self):
        """The ports on which this runtime's sockets listen."""
        inodes = set()
        try:
            for fd in os.listdir(f"/proc/{self.proc.pid}/fd"):
                try:
                    m = re.match(r"socket:\[(\d+)\]", os.readlink(f"/proc/{self.proc.pid}/fd/{fd}"))
                except OSError:
                    continue
                if m:
                    inodes.add(m.group(1))
        except OSError:
            return set()
        out = set()
        for line in open("/proc/net/tcp").read().splitlines()[1:]:
            f = line.split()
            if f[3] == "0A" and f[9] in inodes:
                out.add(int(f[1].split(":")[1], 16))
        return out

    def sockets(self):
        n = 0
        for fd in os.listdir(f"/proc/{self.proc.pid}/fd"):
            try:
                n += os.readlink(f"/proc/{self.proc.pid}/fd/{fd}").startswith("socket:")
            except OSError:
                pass
        return n

    def resident(self):
        return int(open(f"/proc/{self.proc.pid}/statm").read().split()[1]) * 4096

    def alive(self):
        return self.proc.poll() is None

    def text(self):
        with open(self.log.name, "rb") as f:
            return f.read().decode("utf-8", "replace")

    def follow(self):
        """Takes in what was written since the last time."""
        with self.lock:
            with open(self.log.name, "rb") as f:
                f.seek(self.read_to)
                new = f.read()
            whole = new[:new.rfind(b"\n") + 1]
            self.read_to += len(whole)
            for l in whole.decode("utf-8", "replace").splitlines():
                words = l.split(" ")
                if words[0] in ("CALL", "STATE", "UPGRADED", "REFUSED", "CLOSED", "ENDED", "AFTER") and len(words) > 1:
                    self.said.setdefault((words[0], words[1]), []).append(words)
                if "panicked at" in l:
                    self.panicked.append(l)
                self.wanted += l.count("the application's handler panics")
                if re.search(r"wasm trap: (out of bounds|indirect call|uninitialized|undefined element|null)", l):
                    self.trapped.append(l)

    def about(self, word, id):
        self.follow()
        return self.said.get((word, id), [])

    def expect(self, word, id, timeout=BIG_WAIT):
        """The first line of this kind about this case."""
        end = time.time() + timeout
        while True:
            for l in self.about(word, id):
                return l
            if time.time() > end:
                return None
            time.sleep(0.02)

    def states(self):
        """What the handlers of each server should say about their state."""
        out = {}
        for s in self.servers:
            kind, _, n = s.state.partition("=")
            out[s.port] = {"unit": lambda: "()", "u64": lambda: n, "st": lambda: self.model_state(int(n))}[kind]()
        return out

    @staticmethod
    def model_state(n):
        number = n * 0x9e3779b97f4a7c15 % 2**64
        items = ", ".join(f'({i * n % 256}, "{"é" * i}")' for i in range(n % 5))
        return f"tag {n} é€😀|{number}|[{items}]|{'None' if n % 2 == 0 else f'Some({-n})'}"

    def stop(self):
        if self.proc.poll() is None:
            self.proc.kill()
        self.proc.wait()
        self.log.close()
        os.unlink(self.log.name)

# ---------------------------------------------------------------- clients

class Conn:
    def __init__(self, port, small=False):
        self.s = socket.socket()
        if small:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
        self.s.settimeout(BIG_WAIT)
        self.s.connect(("127.0.0.1", port))
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buf = b""
        self.over = None

    def send(self, data):
        try:
            self.s.sendall(data)
            return True
        except OSError:
            return False

    def pieces(self, data, rng):
        """Sends in pieces, some of them late."""
        kind = rng.randrange(4)
        if kind == 0 or len(data) < 2:
            return self.send(data)
        cuts = sorted(rng.sample(range(1, len(data)), min(len(data) - 1, rng.randrange(1, 12))))
        last = 0
        for c in cuts + [len(data)]:
            if not self.send(data[last:c]):
                return False
            last = c
            if rng.randrange(3) == 0:
                time.sleep(rng.random() * 0.004)
        return True

    def more(self, timeout=BIG_WAIT):
        """Reads something; false at the end of the stream, or when nothing comes."""
        if self.over:
            return False
        self.s.settimeout(timeout)
        try:
            d = self.s.recv(65536)
        except socket.timeout:
            self.over = "silence"
            return False
        except OSError as e:
            self.over = f"error {e.errno}"
            return False
        if not d:
            self.over = "end"
            return False
        self.buf += d
        return True

    def rest(self, timeout=BIG_WAIT):
        end = time.time() + timeout
        while self.more(max(0.05, end - time.time())):
            pass
        return self.buf

    def reset(self):
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.s.close()

    def close(self):
        self.s.close()

def split_answer(b):
    head, sep, body = b.partition(b"\r\n\r\n")
    need(sep, f"the answer has no end of its head: {b[:200]!r}")
    lines = head.split(b"\r\n")
    m = re.fullmatch(rb"HTTP/1\.1 (\d{3}) [^\r\n]*", lines[0])
    need(m, f"the answer begins with {lines[0]!r}")
    fields = []
    for l in lines[1:]:
        k, sep, v = l.partition(b":")
        need(sep and re.fullmatch(rb"[!#$%&'*+.^_`|~0-9A-Za-z-]+", k), f"the answer has a line {l!r}")
        fields.append((k.decode().lower(), v.strip(b" \t").decode("latin-1")))
    return int(m.group(1)), fields, body

# ---------------------------------------------------------------- requests

PCHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~!$&()*+,;=:@"
VCHARS = [chr(i) for i in range(33, 127)] + ["é", "€", "😀"]
METHODS = ["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "TRACE", "PATCH", "CONNECT"]
NEXT = [0]
NEXT_LOCK = threading.Lock()

def fresh():
    with NEXT_LOCK:
        NEXT[0] += 1
        return f"c{NEXT[0]}"

class Req:
    def __init__(self, rng, mask, act=None, body=None):
        self.id, self.mask = fresh(), mask
        self.method = rng.choice(METHODS[:8])
        segment = lambda: rng.choice(["", "a", "%20", "%C3%A9", "x"]) + "".join(rng.choice(PCHARS) for _ in range(rng.randrange(1, 12)))
        self.path = "/" + "/".join(segment() for _ in range(rng.randrange(0, 5)))
        while any(re.fullmatch(r"(\.|%2e){1,2}", p, re.I) for p in self.path.split("/")):
            self.path = "/plain"
        self.query = "".join(rng.choice(PCHARS + "/?%".replace("%", "")) for _ in range(rng.randrange(0, 20))) if rng.randrange(2) else None
        self.host = rng.choice(["localhost", "example.com:8080", "a.b", "127.0.0.1:1", "[::1]:99"])
        if body is None and rng.randrange(2):
            n = rng.choice([0, 1, 10, 200, 9999, 10000, 10001, 50000])
            body = rng.randbytes(n)
        self.body = body
        self.fields = [("Host", self.host), ("X-Case", self.id), ("X-Mask", f"{mask:x}")]
        if act:
            self.fields.append(("X-Act", act))
        if body is not None:
            self.fields.append((rng.choice(["Content-Length", "content-length", "CONTENT-LENGTH"]), str(len(body))))
        for i in range(rng.randrange(0, 12)):
            value = "".join(rng.choice(VCHARS + [" "]) for _ in range(rng.randrange(0, 40))).strip()
            self.fields.append((f"X-{rng.choice(['A', 'b', 'Some-Name'])}-{i}", value))
        rng.shuffle(self.fields)

    def head(self):
        target = self.path + ("" if self.query is None else "?" + self.query)
        lines = [f"{self.method} {target} HTTP/1.1"] + [f"{k}: {v}" for k, v in self.fields]
        return ("\r\n".join(lines) + "\r\n\r\n").encode()

    def bytes(self):
        return self.head() + (self.body or b"")

    def told(self):
        """What a handler which got this request should say about its head."""
        host = self.host[:-3] if self.host.endswith(":80") else self.host
        url = f"http://{host}{self.path}" + ("" if self.query is None else "?" + self.query)
        out = [f"method {self.method.encode().hex()}", f"url {url.encode().hex()}"]
        return out + ["field " + f"{k.lower()}: {v}".encode().hex() for k, v in sorted(self.fields, key=lambda f: f"{f[0].lower()}: {f[1]}".encode())]

def unhex(line):
    word, _, rest = line.partition(" ")
    try:
        return word + " " + bytes.fromhex(rest).decode("utf-8", "replace")
    except ValueError:
        return line

def judge(pid, req, server, states, conn, calls):
    """Judges the answer to a proper request, as far as it concerns one property."""
    want = server.first(req.mask)
    ran = [int(c[2]) for c in calls]
    where = f"case {req.id} ({server.spec()}), mask {req.mask:x}"
    if pid == "C09":
        need(ran == ([] if want is None else [want]), f"{where}: handlers {ran} ran instead of {want}")
    if pid in ("C10", "C12", "C09"):
        # what nobody reads of a request makes the end of its connection a reset
        fine = conn.over == "end" or (want is None and req.body and conn.over.startswith("error"))
        need(fine, f"{where}: the connection ended with {conn.over} after {len(conn.buf)} bytes")
    if want is None:
        if pid == "C09":
            need(b"200 OK" not in conn.buf, f"{where}: answered though no route accepts it")
        return
    if not conn.buf and pid not in ("C05", "C09", "C10", "C12"):
        return
    need(conn.buf, f"{where}: no answer")
    if pid == "C11":
        return
    if pid in ("C01", "C02", "C22") and b" 200 " not in conn.buf[:16]:
        need(pid != "C01", f"{where}: the request was refused: {conn.buf[:60]!r}, {req.head()[:300]!r}")
        return
    status, fields, body = split_answer(conn.buf)
    need(status == 200, f"{where}: the answer is {status}")
    fields = dict(fields)
    if pid in ("C05", "C09", "C10", "C12"):
        need(fields.get("x-case") == req.id, f"{where}: the answer belongs to {fields.get('x-case')}")
        need(fields.get("content-length") == str(len(body)), f"{where}: {len(body)} bytes of {fields.get('content-length')} arrived")
        need(body.endswith(b"\n"), f"{where}: the answer is cut")
    lines = body.decode("utf-8", "replace").splitlines()
    if pid in ("C09", "C10"):
        need(lines and lines[0] == f"handler {want}", f"{where}: {lines[:1]} answered instead of {want}")
    if pid in ("C09", "C22"):
        state = "state " + states[server.port]
        need(len(lines) > 1 and unhex(lines[1]) == state, f"{where}: the handler got the {unhex(lines[1])} instead of {state}")
    if pid in ("C01", "C09", "C10"):
        got = [l for l in lines[2:] if l.split(" ")[0] in ("method", "url", "field")]
        expect = req.told()
        need(got == expect, f"{where}: the handler got {[unhex(l) for l in got if l not in expect]} instead of {[unhex(l) for l in expect if l not in got]}")
    if pid in ("C02", "C09", "C10") and req.body is not None:
        got = [l for l in lines if l.split(" ")[0] in ("body", "nobody")]
        need(got == ["body " + req.body.hex()], f"{where}: the body of {len(req.body)} bytes arrived as {got[0][:60] if got else None}")

BAD = [
    b"GARBAGE\r\n\r\n", b"GET / HTTP/9.9\r\nHost: a\r\n\r\n", b"GET / HTTP/1.1\r\nNo Colon\r\nHost: a\r\n\r\n",
    b"GET / HTTP/1.1\r\n\r\n", b"GET / HTTP/1.1\r\nX: y\r\n\r\n", b"\x00\x01\x02\r\n\r\n", b"GET  HTTP/1.1\r\nHost: a\r\n\r\n",
    b"GET / HTTP/1.1\r\nHost: a\r\nB\x00ad: c\r\n\r\n", b"GET / HTTP/1.1\r\nHost: a b\r\n\r\n", b"GET / HTTP/1.1\r\nHost: [::\r\n\r\n",
    b"G\xffT / HTTP/1.1\r\nHost: a\r\n\r\n", b"GET / HTTP/1.1\r\nHost: a\r\nX: \xff\xfe\r\n\r\n",
    b"GET / HTTP/1.1\r\nHost: a\r\n" + b"".join(b"X-%d: y\r\n" % i for i in range(30)) + b"\r\n",
    b"GET / HTTP/1.1\r\nHost: \r\n\r\n", b"GET nowhere HTTP/1.1\r\nHost: a\r\n\r\n",
]

# ---------------------------------------------------------------- WebSockets

def accept(key):
    return base64.b64encode(hashlib.sha1((key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11").encode()).digest()).decode()

def frame(op, payload, rng, fin=True, rsv=0, mask=True):
    head = bytes([(0x80 if fin else 0) | rsv << 4 | op])
    m = 0x80 if mask else 0
    n = len(payload)
    head += bytes([m | n]) if n < 126 else bytes([m | 126]) + struct.pack(">H", n) if n < 65536 else bytes([m | 127]) + struct.pack(">Q", n)
    if not mask:
        return head + payload
    key = rng.randbytes(4)
    return head + key + xor(payload, key)

def xor(payload, key):
    n = len(payload)
    mask = (key * (n // 4 + 1))[:n]
    return (int.from_bytes(payload, "big") ^ int.from_bytes(mask, "big")).to_bytes(n, "big")

def frames(b):
    """Takes what a server sent apart; returns the whole frames and what is left."""
    out, at = [], 0
    while len(b) - at >= 2:
        first, second = b[at], b[at + 1]
        need(first & 0x70 == 0, f"a frame with reserved bits: {b[at:at + 10]!r}")
        need(first & 0x80, f"a frame in fragments, or none: {b[at:at + 10]!r}")
        need(first & 15 in (1, 2, 8, 9, 10), f"a frame of kind {first & 15}")
        need(second & 0x80 == 0, f"a masked frame from the server: {b[at:at + 10]!r}")
        n, h = second & 127, 2
        if n == 126:
            if len(b) - at < 4:
                break
            n, h = struct.unpack(">H", b[at + 2:at + 4])[0], 4
            need(n > 125, "a length in more bytes than needed")
        elif n == 127:
            if len(b) - at < 10:
                break
            n, h = struct.unpack(">Q", b[at + 2:at + 10])[0], 10
            need(n > 65535, "a length in more bytes than needed")
        if len(b) - at - h < n:
            break
        out.append((first & 15, b[at + h:at + h + n]))
        need(first & 15 < 8 or n <= 125, "a control frame which is too long")
        at += h + n
    return out, b[at:]

class Socket:
    """A client's side of a WebSocket."""
    def __init__(self, lun, server, rng, act="ws"):
        self.id, self.rng = fresh(), rng
        self.c = Conn(server.port)
        mask = (1 << 8) - 1
        self.key = base64.b64encode(rng.randbytes(16)).decode()
        head = (f"GET /ws HTTP/1.1\r\nHost: a\r\nX-Case: {self.id}\r\nX-Mask: {mask:x}\r\nX-Act: {act}\r\nUpgrade: websocket\r\n"
                f"Connection: keep-alive, Upgrade\r\nSec-WebSocket-Key: {self.key}\r\nSec-WebSocket-Version: 13\r\n\r\n")
        self.c.pieces(head.encode(), rng)
        while b"\r\n\r\n" not in self.c.buf and self.c.more():
            pass
        head, sep, rest = self.c.buf.partition(b"\r\n\r\n")
        need(sep and b" 101 " in head, f"no upgrade: {head[:100]!r} {self.c.over}")
        self.c.buf = rest

    def wait(self, n, timeout=BIG_WAIT):
        """Waits for n frames in all."""
        while True:
            got, _ = frames(self.c.buf)
            if len(got) >= n or not self.c.more(timeout):
                return frames(self.c.buf)[0]

    def to_end(self, timeout=BIG_WAIT):
        self.c.rest(timeout)
        return frames(self.c.buf)

def text_of(rng, n):
    s = b""
    while len(s) < n:
        s += s if 200 < len(s) < n // 2 else rng.choice(["a", "Z", " ", "é", "€", "😀", "\n"]).encode()
    return s

def conversation(rng, most):
    """Frames to send, and the frames to expect."""
    send, want = [], []
    def control():
        p = rng.randbytes(rng.choice([0, 1, 5, 60, 125]))
        if rng.randrange(3):
            send.append(frame(9, p, rng))
            want.append((10, p))
            want.append((1, b"ping " + p.hex().encode()))
        else:
            send.append(frame(10, p, rng))
            want.append((1, b"pong " + p.hex().encode()))
    for _ in range(rng.randrange(1, most)):
        if rng.randrange(3) == 0:
            control()
            continue
        n = rng.choice([0, 1, 3, 20, 124, 125, 126, 127, 1000, 5000, 65535, 65536])
        op = rng.choice([1, 2])
        p = text_of(rng, n) if op == 1 else rng.randbytes(n)
        if rng.randrange(2):
            send.append(frame(op, p, rng))
        else:
            cuts = sorted(rng.randrange(0, len(p) + 1) for _ in range(rng.randrange(1, 5)))
            last = 0
            for i, c in enumerate(cuts + [len(p)]):
                send.append(frame(op if i == 0 else 0, p[last:c], rng, fin=i == len(cuts)))
                last = c
                if i < len(cuts):
                    while rng.randrange(3) == 0:
                        control()
        want.append((op, p))
    return send, want

def violation(rng):
    return rng.choice([
        ("reserved bit", lambda: frame(1, b"x", rng, rsv=rng.choice([1, 2, 4]))),
        ("no mask", lambda: frame(rng.choice([1, 2]), b"hello", rng, mask=False)),
        ("reserved opcode", lambda: frame(rng.choice([3, 5, 7, 11, 15]), b"x", rng)),
        ("long ping", lambda: frame(9, b"x" * 126, rng)),
        ("ping in fragments", lambda: frame(9, b"x", rng, fin=False)),
        ("continuation of nothing", lambda: frame(0, b"x", rng)),
        ("message within another", lambda: frame(1, b"a", rng, fin=False) + frame(2, b"b", rng)),
        ("no UTF-8", lambda: frame(1, b"a\xff\xfe", rng)),
        ("no UTF-8 in fragments", lambda: frame(1, b"\xe2\x82", rng, fin=False) + frame(0, b"(", rng)),
    ])

# ---------------------------------------------------------------- workloads

class Run:
    def __init__(self, pid, tier, seed, wasm, env, budget):
        self.pid, self.thorough, self.rng = pid, tier == "thorough", random.Random(f"{pid} {seed}")
        self.lun = Lunatic(wasm, env, self.rng)
        self.evals, self.keys, self.observed, self.samples, self.violations = 0, set(), {}, [], []
        self.end = time.time() + budget
        self.last_text = 0

    def note(self, what, n=1):
        self.observed[what] = self.observed.get(what, 0) + n

    def check(self, what, f, key=None):
        self.evals += 1
        if key is not None:
            self.keys.add(hash(key))
        try:
            f()
        except Wrong as e:
            self.violations.append({"section": what, "index": self.evals, "message": str(e)[:1500]})

    def go_on(self):
        return time.time() < self.end and not self.violations and self.lun.alive()

    def parallel(self, jobs):
        """Runs clients side by side."""
        threads = []
        failed = []
        def guarded(j):
            try:
                j()
            except Wrong as e:
                failed.append(str(e))
            except OSError as e:
                failed.append(f"a client cannot go on: {e!r}")
        for j in jobs:
            t = threading.Thread(target=guarded, args=(j,))
            t.start()
            threads.append(t)
        for t in threads:
            t.join()
        return failed

    def mask(self):
        r = self.rng
        return r.choice([0, 0xff, 1 << r.randrange(8), r.getrandbits(8), r.getrandbits(8)])

    def batch(self, n, hostile=False):
        """Proper requests side by side, with hostile clients among them."""
        jobs, open_ = [], []
        for _ in range(n):
            server = self.rng.choice(self.lun.servers)
            req = Req(self.rng, self.mask())
            r = random.Random(self.rng.random())
            open_.append((server, req))
            def job(server=server, req=req, r=r, at=len(open_) - 1):
                c = Conn(server.port)
                open_[at] += (c,)
                c.pieces(req.bytes(), r)
                c.rest()
            jobs.append(job)
        bad = []
        if hostile:
            for _ in range(n):
                jobs.append(self.hostile(random.Random(self.rng.random()), bad))
        self.rng.shuffle(jobs)
        failed = self.parallel(jobs)
        states = self.lun.states()
        for entry in open_:
            if len(entry) < 3:
                continue
            server, req, c = entry
            self.note("requests")
            self.note("bytes of requests", len(req.bytes()))
            self.check("requests", lambda: judge(self.pid, req, server, states, c, self.lun.about("CALL", req.id)), req.head())
            if len(self.samples) < 3:
                self.samples.append({"server": server.spec(), "request": req.head().decode()[:300], "answer": len(c.buf)})
            c.close()
        for c in bad:
            c.close()
        return failed

    def hostile(self, r, keep):
        server = r.choice(self.lun.servers)
        kind = r.randrange(9)
        if kind == 5 and self.observed.get("handler hangs", 0) >= 150:
            kind = 4
        def job():
            try:
                c = Conn(server.port, small=kind == 8)
                if kind == 0:
                    c.send(r.choice(BAD))
                    c.rest(5)
                elif kind == 1:
                    c.send(Req(r, 0xff).bytes()[:r.randrange(1, 60)])
                    keep.append(c)
                    return
                elif kind == 2:
                    c.send(Req(r, 0xff).bytes()[:r.randrange(1, 60)])
                    c.reset()
                    return
                elif kind == 3:
                    keep.append(c)
                    return
                elif kind == 4:
                    c.send(Req(r, 0xff, act="panic").bytes())
                    c.rest(5)
                elif kind == 5:
                    c.send(Req(r, 0xff, act="hang").bytes())
                    keep.append(c)
                    return
                elif kind == 6:
                    c.send(Req(r, 0xff, act="panicafter").bytes())
                    c.reset()
                    return
                elif kind == 7:
                    c.send(r.randbytes(r.randrange(1, 3000)))
                    time.sleep(r.random() * 0.01)
                else:
                    c.send(Req(r, 0xff, act="big 3000000", body=b"").bytes())
                    keep.append(c)
                    return
                c.close()
            except OSError:
                pass
        self.note(["bad request", "stopped half-way", "reset half-way", "silent", "handler panics", "handler hangs",
                   "panic after the response", "junk", "does not read"][kind])
        return job

    def panics(self):
        """Panics which are not the ones the handlers are told to have."""
        self.lun.follow()
        return self.lun.panicked if len(self.lun.panicked) > self.lun.wanted else []

    # ---- one workload per property

    def http(self):
        while self.go_on():
            self.batch(24)

    def mixtures(self):
        while self.go_on():
            self.batch(12, hostile=True)
        self.check("the end", lambda: need(self.lun.alive(), "the runtime has ended"))

    def refused(self):
        while self.go_on():
            cases = []
            def one(bad, server, r):
                def job():
                    c = Conn(server.port)
                    if r.randrange(2):
                        c.send(bad)
                    else:
                        at = r.randrange(1, len(bad))
                        c.send(bad[:at])
                        time.sleep(r.random() * 0.01)
                        c.send(bad[at:])
                    c.rest()
                    cases.append((bad, server, c))
                return job
            self.parallel([one(self.rng.choice(BAD), self.rng.choice(self.lun.servers), random.Random(self.rng.random())) for _ in range(24)])
            for bad, server, c in cases:
                def verdict():
                    if self.pid == "C03":
                        need(not self.panics(), f"a panic: {self.panics()[:1]}")
                        return
                    need(c.over == "end", f"{server.spec()}, {bad!r}: the connection ended with {c.over}")
                    status, fields, body = split_answer(c.buf)
                    need(status == 400, f"{server.spec()}, {bad!r}: the answer is {status}")
                    need(c.buf.count(b"HTTP/1.1 ") == 1, f"{server.spec()}, {bad!r}: more than one answer: {c.buf!r}")
                self.check("bad requests", verdict, (bad, server.port))
                self.note("bad requests")
                c.close()
            if self.pid == "C03":
                self.parallel([self.hostile(random.Random(self.rng.random()), []) for _ in range(8)])
                self.check("panics", lambda: need(not self.panics(), f"a panic: {self.panics()[:1]}"))
                if not self.violations:
                    self.batch(4)

    def large(self):
        """Large answers, read slowly; then nothing is left behind."""
        self.batch(12)
        time.sleep(0.3)
        self.settle(None)
        base = self.lun.sockets()
        rounds = 0
        while self.go_on():
            rounds += 1
            done = []
            def one(n, server, r):
                req = Req(r, 0xff, act=f"big {n}", body=b"")
                if server.first(0xff) is None:
                    return lambda: None
                def job():
                    c = Conn(server.port, small=r.randrange(2) == 0)
                    c.pieces(req.bytes(), r)
                    slow = r.randrange(2)
                    if slow:
                        for _ in range(8):
                            time.sleep(r.random() * 0.02)
                            if not c.more():
                                break
                    c.rest()
                    done.append((n, server, c))
                return job
            self.parallel([one(self.rng.choice([0, 1, 8192, 65536, 200_000, 1_000_000, 4_000_000]),
                               self.rng.choice(self.lun.servers), random.Random(self.rng.random())) for _ in range(10)])
            for n, server, c in done:
                def verdict():
                    need(c.over == "end", f"{server.spec()}: the connection ended with {c.over} after {len(c.buf)} bytes of {n}")
                    status, fields, body = split_answer(c.buf)
                    need(status == 200 and dict(fields).get("content-length") == str(n), f"{server.spec()}: the answer is {status} {fields}")
                    pattern = bytes((i * 31 + i // 251) % 256 for i in range(min(n, 70000)))
                    need(len(body) == n, f"{server.spec()}: {len(body)} bytes of {n} arrived")
                    need(body[:70000] == pattern, f"{server.spec()}: the content of {n} bytes is another one")
                self.check("large answers", verdict, (n, server.port, rounds))
                self.note("bytes of answers", len(c.buf))
                c.close()
            self.batch(8)
            gone = []
            self.parallel([self.abort(random.Random(self.rng.random())) for _ in range(8)])
            left = self.settle(base)
            self.check("release", lambda: need(left <= base, f"the runtime holds {left} sockets, and held {base} before these connections"))
            self.note("aborted connections", 8)

    def abort(self, r):
        server = r.choice(self.lun.servers)
        kind = r.randrange(4)
        def job():
            try:
                c = Conn(server.port)
                if kind == 0:
                    c.send(r.choice(BAD))
                    c.rest(5)
                elif kind == 1:
                    c.send(b"GET / HT")
                    c.reset()
                    return
                elif kind == 2:
                    c.send(Req(r, 0xff, act="big 2000000", body=b"").bytes())
                    c.more(5)
                    c.reset()
                    return
                else:
                    c.send(Req(r, 0xff, act=r.choice(["panic", "silent"]), body=b"").bytes())
                    c.rest(20)
                c.close()
            except OSError:
                pass
        return job

    def settle(self, base):
        """Waits until no more sockets go away."""
        last, since = None, time.time()
        end = time.time() + 30
        while time.time() < end:
            n = self.lun.sockets()
            if base is not None and n <= base:
                return n
            if n != last:
                last, since = n, time.time()
            elif base is None and time.time() - since > 1.0:
                return n
            time.sleep(0.05)
        return self.lun.sockets()

    def handshakes(self):
        while self.go_on():
            cases = []
            def one(server, r):
                good = r.randrange(2) == 0
                wrong = None if good else r.choice(["upgrade", "noupgrade", "connection", "noconnection", "nokey"])
                id = fresh()
                case = lambda s: "".join(r.choice([c.upper(), c.lower()]) for c in s)
                key = base64.b64encode(r.randbytes(16)).decode()
                f = {"Upgrade": case("websocket"), "Connection": r.choice([case("upgrade"), "keep-alive, " + case("upgrade"), case("upgrade") + ",x"]),
                     "Sec-WebSocket-Key": key, "Sec-WebSocket-Version": "13"}
                if wrong == "upgrade":
                    f["Upgrade"] = r.choice(["h2c", "websockets", "web"])
                elif wrong == "connection":
                    f["Connection"] = r.choice(["keep-alive", "close", "upgraded", "xupgrade, y"])
                elif wrong:
                    del f[{"noupgrade": "Upgrade", "noconnection": "Connection", "nokey": "Sec-WebSocket-Key"}[wrong]]
                f.update({"Host": "a", "X-Case": id, "X-Mask": "ff", "X-Act": "ws"})
                fields = list(f.items())
                r.shuffle(fields)
                names = [(case(k) if r.randrange(2) and not k.startswith("X-") else k, v) for k, v in fields]
                data = ("GET / HTTP/1.1\r\n" + "".join(f"{k}: {v}\r\n" for k, v in names) + "\r\n").encode()
                def job():
                    c = Conn(server.port)
                    c.pieces(data, r)
                    if good:
                        while b"\r\n\r\n" not in c.buf and c.more():
                            pass
                    else:
                        c.rest()
                    cases.append((server, id, wrong, key, data, c))
                return job
            self.parallel([one(self.rng.choice(self.lun.servers), random.Random(self.rng.random())) for _ in range(24)])
            for server, id, wrong, key, data, c in cases:
                def verdict():
                    status, fields, body = split_answer(c.buf)
                    f = dict(fields)
                    if wrong:
                        need(status == 400, f"{data!r}: the answer is {status} ({wrong})")
                        need(not self.lun.about("UPGRADED", id), f"{data!r}: the handler got a WebSocket ({wrong})")
                        need(c.over == "end", f"{data!r}: ended with {c.over}")
                    else:
                        need(status == 101, f"{data!r}: the answer is {status}")
                        need(f.get("sec-websocket-accept") == accept(key), f"{data!r}: the answer is {fields}")
                        need(f.get("upgrade", "").lower() == "websocket" and f.get("connection", "").lower() == "upgrade", f"{fields}")
                        need(self.lun.expect("UPGRADED", id), f"{data!r}: the handler got no WebSocket")
                self.check("handshakes", verdict, data)
                self.note("refused" if wrong else "accepted")
                c.close()

    def talks(self):
        """Conversations on WebSockets, with an end of some kind."""
        while self.go_on():
            cases = []
            def one(server, r):
                send, want = conversation(r, 12)
                how = r.choice({"C17": ["violation"], "C19": ["close", "server", "violation"], "C20": ["violation"]}.get(
                    self.pid, ["close", "server", "abort", "violation"]))
                what, make = violation(r)
                end = {"violation": lambda: make() + frame(1, b"after", r),
                       "close": lambda: frame(8, r.choice([b"", b"\x03\xe8", b"\x03\xe8bye"]), r) + r.choice([b"", frame(1, b"after", r)]),
                       "server": lambda: frame(1, b"please close", r),
                       "abort": lambda: b""}[how]()
                data = b"".join(send)
                def job():
                    s = Socket(self.lun, server, r)
                    reader = threading.Thread(target=lambda: s.wait(len(want)))
                    reader.start()
                    s.c.pieces(data, r)
                    reader.join()
                    got = frames(s.c.buf)[0]
                    # only now, since bytes which are not read make the end of the connection a reset,
                    # and a reset drops what is still under way
                    s.c.send(end)
                    if how == "abort":
                        s.c.reset()
                    else:
                        s.c.rest()
                    cases.append((server, s, want, got, how, what, data + end))
                return job
            failed = self.parallel([one(self.rng.choice(self.lun.servers), random.Random(self.rng.random())) for _ in range(16)])
            if failed and self.pid in ("C13", "C14", "C15", "C16"):
                self.check("clients", lambda: need(not failed, failed[0]))
            for server, s, want, got, how, what, data in cases:
                self.note("conversations ended by " + how)
                self.note("frames received", len(got))
                self.check("conversations", lambda: self.talk(s, want, got, how, what), data)
                if len(self.samples) < 3:
                    self.samples.append({"server": server.spec(), "sent": len(data), "frames expected": len(want), "end": how})
                s.c.close()

    def talk(self, s, want, got, how, what):
        p = self.pid
        all_, left = frames(s.c.buf)
        echo = lambda fs: [f for f in fs if f[0] in (1, 2)]
        pong = lambda fs: [f for f in fs if f[0] == 10]
        brief = lambda fs: [(op, b[:20], len(b)) for op, b in fs][:6]
        first = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        if p in ("C14", "C15", "C16"):
            g, w = echo(got), echo(want)
            at = next((i for i, (a, b) in enumerate(zip(g, w)) if a != b), min(len(g), len(w)))
            need(g[:len(w)] == w, f"message {at} came back as {brief(g[at:at + 1])} instead of {brief(w[at:at + 1])} ({len(g)} of {len(w)}, {s.c.over})")
        if p == "C18":
            need(pong(got)[:len(pong(want))] == pong(want), f"the pongs are {brief(pong(got))} instead of {brief(pong(want))}")
        if how == "abort":
            return
        extra = all_[len(want):]
        if p == "C17" and how == "violation":
            need(got == want or len(got) < len(want), f"frame {first} is another one")
            need(not echo(extra), f"after a violation ({what}), {brief(extra)} was sent")
            l = self.lun.expect("ENDED", s.id)
            need(l and l[2] != "None", f"the handler was not told about a violation ({what})")
        if p == "C19":
            if how in ("close", "server"):
                need(s.c.over in ("end",) or (how == "close" and s.c.over.startswith("error")), f"the connection ended with {s.c.over}")
                if len(got) >= len(want):
                    closes = [f for f in extra if f[0] == 8]
                    lost = s.c.over.startswith("error")
                    need(len(closes) == 1 or lost, f"{len(closes)} close frames were sent in the end ({how}, {s.c.over})")
                    need(not extra or extra[-1][0] == 8, f"{brief(extra)} was sent in the end")
            if how != "server":
                l = self.lun.expect("AFTER", s.id)
                need(l, "the handler's loop did not end")
                need(l[2] == "false", f"a message could be sent after the end ({how})")
        if p == "C20":
            need(not self.panics(), f"a panic: {self.panics()[:1]}")

    def sockets_hostile(self):
        base = None
        while self.go_on():
            jobs = []
            def one(server, r):
                def job():
                    try:
                        s = Socket(self.lun, server, r)
                        kind = r.randrange(4)
                        if kind == 0:
                            s.c.send(r.randbytes(r.randrange(1, 500)))
                        elif kind == 1:
                            n = r.choice([2**16, 2**30, 2**31 - 1, 2**31, 2**32 + 5, 2**62, 2**63, 2**64 - 1])
                            s.c.send(bytes([0x80 | r.choice([1, 2, 0, 9]), 0xff]) + struct.pack(">Q", n) + b"abcd" + r.randbytes(r.randrange(50)))
                        elif kind == 2:
                            s.c.send(b"".join(conversation(r, 5)[0])[:r.randrange(1, 300)])
                        else:
                            b = bytearray(b"".join(conversation(r, 5)[0]))
                            for _ in range(r.randrange(1, 5)):
                                b[r.randrange(len(b))] ^= 1 << r.randrange(8)
                            s.c.send(bytes(b[:20000]))
                        time.sleep(r.random() * 0.05)
                        if r.randrange(2):
                            s.c.reset()
                        else:
                            s.c.close()
                    except (OSError, Wrong):
                        pass
                return job
            self.parallel([one(self.rng.choice(self.lun.servers), random.Random(self.rng.random())) for _ in range(24)])
            self.note("hostile WebSockets", 24)
            def verdict():
                need(self.lun.alive(), "the runtime has ended")
                need(not self.panics(), f"a panic: {self.panics()[:1]}")
                # each connection may take its memory, but none of what a frame only claims
                need(self.lun.resident() < 3 << 30, f"the runtime uses {self.lun.resident() >> 20} MB")
            self.check("hostile WebSockets", verdict, ("hostile", self.observed["hostile WebSockets"]))
            self.observed["most memory in MB"] = max(self.observed.get("most memory in MB", 0), self.lun.resident() >> 20)

    def fans(self):
        while self.go_on():
            cases = []
            def one(server, r):
                k, n, size = r.randrange(2, 7), r.randrange(1, 30), r.choice([0, 20, 130, 400])
                def job():
                    s = Socket(self.lun, server, r, act=f"fan {k} {n} {size}")
                    pings = [f"p{i}".encode() for i in range(r.randrange(0, 6))]
                    for p in pings:
                        s.c.send(frame(9, p, r))
                        time.sleep(r.random() * 0.003)
                    try:
                        s.wait(k * n + len(pings))
                    except Wrong:
                        pass
                    cases.append((k, n, size, pings, s))
                    s.c.send(frame(8, b"", r))
                return job
            self.parallel([one(self.rng.choice(self.lun.servers), random.Random(self.rng.random())) for _ in range(8)])
            for k, n, size, pings, s in cases:
                def verdict():
                    got, _ = frames(s.c.buf)
                    at = [0] * k
                    pongs = []
                    for op, p in got:
                        if op == 10:
                            pongs.append(p)
                            continue
                        m = re.match(rb"(\d+):(\d+):(x*)$", p)
                        need(m, f"a message which nobody sent: {p[:60]!r}")
                        t, i, x = int(m.group(1)), int(m.group(2)), len(m.group(3))
                        need(t < k and at[t] == i and x == (i * 7 + t) % (size + 1) and op == (1 if i % 2 == 0 else 2),
                             f"message {i} of sender {t} came where {at[min(t, k - 1)]} was due")
                        at[t] += 1
                    need(at == [n] * k, f"{at} of {n} messages arrived")
                    need(pongs == pings, f"{pongs} for {pings}")
                self.check("several senders", verdict, (k, n, size, s.id))
                self.note("messages of several senders", k * n)
                self.keys.add(hash(s.c.buf))
                s.c.close()

    def memory(self):
        """Everything; only the state of the handlers and the health of the processes count."""
        while self.go_on():
            self.batch(24)
            self.lun.follow()
            if self.lun.trapped:
                self.violations.append({"section": "traps", "index": 0, "message": "a process trapped: " + self.lun.trapped[0][:500]})

WORK = {"C01": Run.http, "C02": Run.http, "C03": Run.refused, "C05": Run.http, "C09": Run.http, "C10": Run.mixtures, "C11": Run.refused,
        "C12": Run.large, "C13": Run.handshakes, "C14": Run.talks, "C15": Run.talks, "C16": Run.talks, "C17": Run.talks,
        "C18": Run.talks, "C19": Run.talks, "C20": Run.sockets_hostile, "C21": Run.fans, "C22": Run.memory}

def run(pid, tier, seed, wasm, env, budget):
    r = Run(pid, tier, seed, wasm, env, budget)
    try:
        WORK[pid](r)
        if not r.lun.alive() and pid not in ("C10", "C20"):
            raise Died("the runtime has ended: " + r.lun.text()[-800:])
        return {"component": "e2e", "evaluations": r.evals, "distinct_nontrivial": len(r.keys), "observed": r.observed,
                "samples": r.samples, "violations": r.violations[:5],
                "rule": "The same is observed on the real lunatic runtime (wasm32), with nine servers (three ways, three types of state, random routes) and clients over TCP."}
    finally:
        r.lun.stop()

if __name__ == "__main__":
    import sys
    e = dict(os.environ, PATH="/opt/vp/lunatic/bin:" + os.environ["PATH"])
    report = run(sys.argv[1], "quick", int(sys.argv[3]) if len(sys.argv) > 3 else 1, "/verif/target/e2e/wasm32-wasi/release/e2e.wasm", e, float(sys.argv[2]))
    print(json.dumps(report, indent=1))
