"""Live components on the real lunatic runtime: pages loaded by the model of a browser over TCP, its messages
exchanged over a real WebSocket, and judged by what the page shows and what the component says it has got."""
import base64, json, os, queue, random, re, socket, subprocess, tempfile, threading, time

from e2e import BIG_WAIT, Conn, Died, Lunatic, Wrong, accept, frame, frames, free_ports, need, split_answer

EVENTS = ["click", "submit", "input"]
MOUNTS = ["/", "/app", "/x/y/", "/any/thing/5", "/any/%20/-7"]

class Broken(Died):
    """The model of the browser, or the driver, cannot go on."""

class Runtime(Lunatic):
    def __init__(self, wasm, env):
        self.lock = threading.Lock()
        self.read_to, self.said, self.panicked, self.wanted, self.trapped = 0, {}, [], 0, []
        for _ in range(4):
            self.ports = free_ports(2)
            self.servers = [type("S", (), {"port": p}) for p in self.ports]
            self.log = tempfile.NamedTemporaryFile(prefix="e2elv", suffix=".log", delete=False)
            specs = [f"{self.ports[0]}/serve", f"{self.ports[1]}/run"]
            self.proc = subprocess.Popen(["lunatic", wasm, *specs], env=env, stdin=subprocess.DEVNULL, stdout=self.log, stderr=subprocess.STDOUT)
            if self.wait_bound():
                return
            self.stop()
        raise Died("the servers do not start")

    def dropped(self, name):
        return f"DROPPED {name}\n" in self.text()

    def ticks(self):
        f = open(f"/proc/{self.proc.pid}/stat").read().rpartition(")")[2].split()
        return int(f[11]) + int(f[12])

class Browser:
    def __init__(self, script):
        self.p = subprocess.Popen(["node", script], stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def call(self, what, fetch=None):
        while True:
            try:
                self.p.stdin.write(json.dumps(what).encode() + b"\n")
                self.p.stdin.flush()
                v = json.loads(self.p.stdout.readline())
            except (OSError, ValueError) as e:
                raise Broken(f"the model of the browser ends: {e!r}")
            if "broken" in v:
                raise Broken(f"the model of the browser is broken: {v['broken']}")
            if "fetch" not in v:
                need(not v["errors"], f"the client script fails: {v['errors'][:1]}")
                need(not v["left"], "the page was left")
                return v
            what = fetch(v["fetch"])

    def stop(self):
        self.p.kill()
        self.p.wait()

# ---------------------------------------------------------------- pages

def plain(id, name, text=None, listeners=(), children=()):
    return {"id": id, "name": name, "attrs": {}, "listeners": list(listeners), "children": list(children), "text": text, "key": None}

def whole(tree, renders, last):
    """What the component shows."""
    children = [plain(1, "input", listeners=[("tell", "input")]), plain(2, "p", f"{renders} {last}")]
    return plain(0, "div", children=children + ([tree] if tree else []))

def shown(tree, page, at=""):
    here = f"{at}/{tree['name']}"
    need(page["tag"] == tree["name"], f"at {here}: the page has {page['tag']}")
    attrs = {k: v for k, v in page["attrs"].items() if k != "id" or "id" in tree["attrs"]}
    # the names of attributes are in lower case in a page
    want = {k.lower(): v for k, v in tree["attrs"].items()}
    need(attrs == want, f"at {here}: the attributes are {attrs} instead of {want}")
    text, elements = "", []
    for c in page["content"]:
        if isinstance(c, str):
            need(not elements, f"at {here}: there is text behind the children: {c!r}")
            text += c
        else:
            elements.append(c)
    want = tree["text"] or ""
    need(text == want, f"at {here}: the text is {text!r} instead of {want!r}")
    need(len(elements) == len(tree["children"]), f"at {here}: {len(elements)} children instead of {len(tree['children'])}")
    for i, (c, e) in enumerate(zip(tree["children"], elements)):
        shown(c, e, f"{here}[{i}]")

def expected(tree, path, event):
    out, at = [], tree
    for i in [None] + path[1:]:
        if i is not None:
            at = at["children"][i]
        out += [n for n, e in at["listeners"] if e == event]
    return sorted(out)

def same(old, new, was, now, at=""):
    """The elements which an update does not replace are the ones they were."""
    if old["name"] != new["name"]:
        return 0
    here = f"{at}/{new['name']}"
    need(was["placed"] == now["placed"], f"{here} was replaced or taken out of the page by an update which keeps it")
    a, b = ([c for c in v["content"] if not isinstance(c, str)] for v in (was, now))
    if any(c["key"] is not None for c in old["children"] + new["children"]):
        return 1
    return 1 + sum(same(*four, f"{here}[{i}]") for i, four in enumerate(zip(old["children"], new["children"], a, b)))

class Session:
    """A visit of a page."""
    def __init__(self, run, browser, rng):
        self.run, self.b, self.rng = run, browser, rng
        self.port = rng.choice(run.lun.ports)
        self.host = f"127.0.0.1:{self.port}"
        self.url = f"http://{self.host}{rng.choice(MOUNTS)}{rng.choice(['', '', '?a=/b/', '#part'])}"
        self.ws, self.taken, self.renders, self.tree, self.last, self.page = None, 0, 0, None, "", None
        self.name = f"n{rng.getrandbits(48):x}"

    def fetch(self, url):
        need(url.startswith(f"http://{self.host}/"), f"{self.url} asks for {url}, which is elsewhere")
        c = Conn(self.port)
        target = url[len(f"http://{self.host}"):].split("#")[0]
        c.pieces(f"GET {target} HTTP/1.1\r\nHost: {self.host}\r\nUser-Agent: Mozilla/5.0\r\nAccept: */*\r\nConnection: keep-alive\r\n\r\n".encode(), self.rng)
        c.rest()
        c.close()
        need(c.over == "end", f"{url}: the connection ended with {c.over} after {len(c.buf)} bytes")
        status, fields, body = split_answer(c.buf)
        need(status == 200, f"{url} is answered with {status}")
        f = dict(fields)
        if "content-length" in f:
            need(f["content-length"] == str(len(body)), f"{url}: {len(body)} bytes of {f['content-length']} arrived")
        self.asked.append((url, f.get("content-type", "").split(";")[0].strip().lower()))
        return {"status": status, "type": f.get("content-type"), "nosniff": f.get("x-content-type-options"), "fields": fields, "body": body.decode()}

    def open(self):
        self.asked = []
        v = self.b.call({"op": "visit", "url": self.url}, self.fetch)
        need(self.asked[0][1] == "text/html", f"the page is served as {self.asked[0][1]}")
        for _, kind in self.asked[1:]:
            need(re.fullmatch(r"(application|text)/(x-)?(java|ecma)script", kind), f"the script is served as {kind}")
        need(len(v["urls"]) == 1, f"{self.url} opens {len(v['urls'])} sockets")
        url = v["urls"][0]
        need(url.startswith(f"ws://{self.host}/"), f"{self.url} opens the socket {url}, which is elsewhere")
        self.ws = Conn(self.port)
        key = base64.b64encode(self.rng.randbytes(16)).decode()
        lines = [f"GET {url[len('ws://' + self.host):]} HTTP/1.1", f"Host: {self.host}", "Upgrade: websocket", "Connection: keep-alive, Upgrade",
                 f"Sec-WebSocket-Key: {key}", "Sec-WebSocket-Version: 13", f"Origin: http://{self.host}", "", ""]
        self.ws.pieces("\r\n".join(lines).encode(), self.rng)
        while b"\r\n\r\n" not in self.ws.buf and self.ws.more():
            pass
        head, sep, rest = self.ws.buf.partition(b"\r\n\r\n")
        need(sep and b" 101 " in head, f"{url}: no upgrade: {head[:100]!r}, {self.ws.over}")
        need(accept(key).encode() in head, f"{url}: a browser refuses the handshake: {head!r}")
        self.ws.buf = rest
        self.b.call({"op": "opened"})
        self.show("the first page")
        # the one which is ended has a name
        self.tell("name " + self.name)
        return self

    def message(self, when):
        while True:
            got, _ = frames(self.ws.buf)
            if len(got) > self.taken:
                break
            need(self.ws.more(), f"{self.url}: no message {when}, the connection is at {self.ws.over}")
        op, data = got[self.taken]
        self.taken += 1
        if self.taken > 200:
            # what was taken is not looked at again
            self.ws.buf, self.taken = frames(self.ws.buf)[1] if len(got) == self.taken else self.ws.buf, 0 if len(got) == self.taken else self.taken
        need(op == 1, f"{self.url}: a frame of kind {op} {when}")
        self.run.note("bytes of instructions", len(data))
        return data.decode()

    def show(self, when):
        """Takes one message, and looks at the page."""
        m = self.message(when)
        v = self.b.call({"op": "message", "data": m})
        need(not v["sent"], f"{self.url}: the client sends something though nothing happened")
        need(len(v["page"]) == 1, f"{self.url}, {when}: the page has {len(v['page'])} roots")
        try:
            shown(whole(self.tree, self.renders, self.last), v["page"][0])
        except Wrong as e:
            raise Wrong(f"{self.url}, {when}: {e}")
        self.page = v["page"][0]
        self.run.note("updates")

    def send(self, texts):
        data = b"".join(frame(1, t.encode(), self.rng) for t in texts)
        need(self.ws.pieces(data, self.rng), f"{self.url}: the server has closed the connection")

    def fire(self, path, event, value=None):
        v = self.b.call({"op": "fire", "path": path, "type": event, "value": value})
        return v["sent"]

    def tell(self, what, last=None, tree=None):
        sent = self.fire([0, 0], "input", what)
        need(len(sent) == 1, f"{self.url}: the client sends {len(sent)} messages for one input")
        self.send(sent)
        self.renders += 1
        self.last = last or what
        if tree:
            self.tree = tree
        self.show("after an input")

    def set(self, tree):
        was, old = self.page, whole(self.tree, 0, "")
        self.tell(json.dumps(tree), "tree", tree)
        if self.run.pid == "C28":
            self.run.note("elements which stay", same(old, whole(tree, 0, ""), was, self.page))

    def probe(self):
        """Every event on every element, all at once."""
        tree = whole(self.tree, self.renders, self.last)
        v = self.b.call({"op": "probe", "types": EVENTS, "value": "some \"value\" + é"})
        texts, want = [], []
        for f in v["found"]:
            if f["path"] == [0, 0]:
                continue
            names = expected(tree, f["path"], f["type"])
            need(f["type"] != "submit" or not names or f["prevented"], f"{self.url}: submit at {f['path']} leaves the page")
            need(len(f["sent"]) == len(names), f"{self.url}: {f['type']} at {f['path']} sends {f['sent']}, it should be for {names}")
            texts += f["sent"]
            want.append((f["type"], names))
            self.run.note("events")
        self.send(texts)
        for kind, names in want:
            left = list(names)
            while left:
                m = self.message(f"after the {kind} for {left}")
                page = self.b.call({"op": "message", "data": m})["page"][0]
                text = "".join(c for c in page["content"][1]["content"] if isinstance(c, str))
                n, _, rest = text.partition(" ")
                self.renders += 1
                need(int(n) == self.renders, f"{self.url}: update {n} comes instead of {self.renders}")
                try:
                    got = json.loads(rest)
                except ValueError:
                    got = [rest]
                need(len(got) == 4 and got[0] == kind and got[1] in left, f"{self.url}: {got} is called, it should be {kind} of {left}")
                need(got[2] == ("some \"value\" + é" if kind == "input" else None), f"{self.url}: the value is {got[2]}")
                left.remove(got[1])
                self.last = rest
        v = self.b.call({"op": "look"})
        shown(whole(self.tree, self.renders, self.last), v["page"][0])

    def hostile(self):
        """Messages which change nothing."""
        texts = ["", "{", "[]", "null", "{\"listener\":\"unknown\"}", "{\"listener\":5}", "{\"listener\":\"tell\"}", "{\"listener\":\"tell\",\"payload\":null}",
                 "{\"listener\":\"tell\",\"payload\":{}}", "{\"listener\":\"tell\",\"payload\":{\"value\":5}}", "[" * 5000, "x" * 100000]
        data = b""
        for _ in range(self.rng.randrange(1, 6)):
            data += frame(1, self.rng.choice(texts).encode(), self.rng)
            if self.rng.randrange(3) == 0:
                data += frame(2, b"{\"listener\":\"tell\",\"payload\":{\"value\":\"x\"}}", self.rng)
        self.ws.pieces(data, self.rng)
        self.run.note("messages which change nothing")

    def sources(self):
        k, n = self.rng.randrange(1, 6), self.rng.randrange(1, 20)
        self.tell(f"spawn {k} {n}")
        at = [0] * k
        for i in range(k * n):
            m = self.message(f"for input {i} of {k} sources with {n} inputs each")
            page = self.b.call({"op": "message", "data": m})["page"][0]
            text = "".join(c for c in page["content"][1]["content"] if isinstance(c, str))
            self.renders += 1
            words = text.split(" ")
            need(words[0] == str(self.renders), f"{self.url}: update {words[0]} comes instead of {self.renders}")
            need(len(words) == 5 and words[1] == "say", f"{self.url}: {text!r} is shown after an input of another process")
            s, i = int(words[2]), int(words[3])
            need(s < k and at[s] == i and int(words[4]) == i * 37 % 300, f"{self.url}: input {i} of source {s} comes instead of {at}")
            at[s] += 1
            self.last = text.partition(" ")[2]
        self.run.note("inputs of other processes", k * n)

    def quiet(self):
        """Nothing else comes."""
        self.ws.more(0.05) if self.rng.randrange(4) == 0 else None
        if self.ws.over == "silence":
            self.ws.over = None
        got, rest = frames(self.ws.buf)
        need(len(got) == self.taken and not rest, f"{self.url}: one message too many: {got[self.taken:][:1]}")
        need(self.ws.over is None, f"{self.url}: the server ends the connection: {self.ws.over}")

    def leave(self):
        kind = self.rng.randrange(6)
        if kind == 0:
            self.ws.send(frame(8, b"\x03\xe8bye", self.rng))
        elif kind == 1:
            self.ws.send(frame(8, b"", self.rng))
        elif kind == 2:
            self.ws.send(b"\x81\x01x")
        elif kind == 3:
            self.ws.send(frame(1, b"abc", self.rng)[:-2])
        if kind == 5:
            self.ws.reset()
        else:
            if kind in (0, 1, 2):
                # the server ends the connection by itself
                self.ws.rest(BIG_WAIT)
                need(self.ws.over in ("end",) or str(self.ws.over).startswith("error"), f"{self.url}: after the end ({kind}) the connection is at {self.ws.over}")
            self.ws.close()
        return kind

class Run:
    def __init__(self, pid, tier, seed, wasm, trees, script, env, budget):
        self.pid, self.rng = pid, random.Random(f"{pid} {seed} lv")
        self.trees, self.script, self.budget = trees, script, budget
        self.lun = Runtime(wasm, env)
        self.lock = threading.Lock()
        self.evals, self.keys, self.observed, self.samples, self.violations = 0, set(), {}, [], []
        self.broken = None
        self.end = time.time() + budget

    def note(self, what, n=1):
        with self.lock:
            self.observed[what] = self.observed.get(what, 0) + n

    def go_on(self):
        return time.time() < self.end and not self.violations and not self.broken and self.lun.alive()

    def visit(self, b, rng, history):
        s = Session(self, b, rng)
        if self.pid == "C25" and rng.randrange(6) == 0:
            # a client which is gone at once
            c = Conn(s.port)
            key = base64.b64encode(rng.randbytes(16)).decode()
            c.send(f"GET /ws HTTP/1.1\r\nHost: a\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: {key}\r\n\r\n".encode())
            c.reset() if rng.randrange(2) else c.close()
            self.note("clients gone at once")
        s.open()
        for tree in history:
            s.set(tree)
            if self.pid in ("C24", "C25"):
                s.hostile()
            if self.pid in ("C23", "C24", "C27") or rng.randrange(4) == 0:
                s.probe()
            if self.pid == "C25" and rng.randrange(2):
                s.sources()
        s.quiet()
        kind = s.leave()
        if self.pid == "C25":
            end = time.time() + BIG_WAIT
            while not self.lun.dropped(s.name):
                need(time.time() < end, f"{s.url}: the component is still there after its client has left ({kind})")
                time.sleep(0.02)
        return s

    def client(self, seed):
        rng = random.Random(seed)
        b = Browser(self.script)
        try:
            while self.go_on():
                history = self.trees[rng.randrange(len(self.trees))]
                try:
                    s = self.visit(b, rng, history)
                    with self.lock:
                        self.evals += 1
                        self.keys.add(hash((s.url, json.dumps(history))))
                        if len(self.samples) < 3:
                            self.samples.append({"url": s.url, "trees": len(history), "updates": s.renders})
                except Wrong as e:
                    with self.lock:
                        self.violations.append({"section": "visits", "index": self.evals, "message": str(e)[:1500]})
                except Broken as e:
                    self.broken = str(e)
                except OSError as e:
                    with self.lock:
                        self.violations.append({"section": "visits", "index": self.evals, "message": f"a client cannot go on: {e!r}"})
        finally:
            b.stop()

    def work(self, clients):
        threads = [threading.Thread(target=self.client, args=(f"{self.rng.random()}",)) for _ in range(clients)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        if not self.violations and not self.broken:
            self.after()
        if self.broken:
            raise Died(self.broken)
        if not self.lun.alive() and not self.violations:
            self.violations.append({"section": "runtime", "index": 0, "message": "the runtime has ended: " + self.lun.text()[-800:]})

    def after(self):
        """When all clients have left, nothing goes on."""
        self.lun.follow()
        if self.lun.panicked:
            self.violations.append({"section": "panics", "index": 0, "message": f"a process panicked: {self.lun.panicked[0][:800]}"})
        if self.pid != "C25" or self.violations:
            return
        end = time.time() + BIG_WAIT
        base = 2
        while self.lun.sockets() > base and time.time() < end:
            time.sleep(0.05)
        left = self.lun.sockets()
        if left > base:
            self.violations.append({"section": "release", "index": 0, "message": f"all clients have left, but {left - base} of their sockets are still open"})
        end = time.time() + BIG_WAIT
        busy = 99
        while time.time() < end:
            t = self.lun.ticks()
            time.sleep(1)
            busy = self.lun.ticks() - t
            if busy < 30:
                break
        if busy >= 30:
            self.violations.append({"section": "release", "index": 0, "message": f"all clients have left, but the runtime uses {busy} % of a processor"})
        self.note("ends with nothing left")

RULE = ("On the real runtime: an execution is a visit of a page by the model of a browser, which has a component show a sequence of trees; "
        "two are distinct when address or trees differ.")

def run(pid, tier, seed, wasm, lv, script, env, budget):
    out = subprocess.run([lv, "trees", "--seed", str(seed), "--count", "400" if tier == "thorough" else "150"], env=env, stdout=subprocess.PIPE, timeout=60)
    trees = [json.loads(l) for l in out.stdout.decode().split("\n") if l]
    if not trees:
        raise Died("there are no trees to show")
    r = Run(pid, tier, seed, wasm, trees, script, env, budget)
    try:
        r.work(6)
    finally:
        r.lun.stop()
    return {"evaluations": r.evals, "distinct_nontrivial": len(r.keys), "rule": RULE, "samples": r.samples, "observed": r.observed,
            "violations": r.violations, "component": "e2elv"}
