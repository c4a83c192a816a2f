#!/usr/bin/env python3
"""Plays client sessions against the real thot_server: one JSON history per input line, one JSON trace per output line.
Arguments: thot_server, thot_client, directory with models (holding cfg)."""
import json, os, random, re, select, shutil, signal, socket, struct, subprocess, sys, tempfile, threading, time

SERVER, CLIENT, BASE = sys.argv[1:4]
CODE = {"cov": 1, "tr": 2, "trh": 3, "train": 4, "ecm": 5, "cat": 6, "add": 7, "reset": 8, "print": 9, "end": 11}
STRINGS = {"cov": "xy", "tr": "x", "trh": "x", "train": "xy", "ecm": "xy", "cat": "x", "add": "x", "reset": "", "print": "", "end": ""}
REPLY = {"cov": "s", "tr": "ss", "trh": "ss", "train": "i", "ecm": "i", "cat": "s", "add": "s", "reset": "i", "print": "i", "end": "i", "junk": ""}
WAIT = 20
USERS = [0, 1, 2, 3, 256, 65536, -1, 2 ** 31 - 1]      # users 0..7 of the histories


def payload(q):
    """Header and rest of a request."""
    op = q["op"]
    if op == "junk":
        return struct.pack(">ii", q["code"], USERS[q["u"]]), bytes(q.get("bytes", []))
    body = b""
    for k in STRINGS[op]:
        s = q.get(k, "").encode()
        body += struct.pack(">i", len(s)) + s
    return struct.pack(">ii", CODE[op], USERS[q["u"]]), body


class Malformed(Exception):
    pass


class Refused(Malformed):
    """The connection was closed without any reply."""


def read_all(s, junk=False, timeout=WAIT):
    """Everything the server sends until it closes the connection (abruptly if it did not read what followed an unknown request)."""
    data, t = b"", time.time() + timeout
    while True:
        r, _, _ = select.select([s], [], [], max(0, t - time.time()))
        if not r:
            raise Malformed("no reply")
        try:
            b = s.recv(65536)
        except ConnectionResetError:
            if data or junk:
                return data
            raise Refused("reset")
        if not b:
            return data
        data += b


def parse(q, data):
    """The fields of the reply."""
    out, k = {}, 0
    if REPLY[q["op"]] and not data:
        raise Refused("closed")
    for kind in REPLY[q["op"]]:
        if len(data) < k + 4:
            raise Malformed("reply of %d bytes" % len(data))
        n = struct.unpack(">i", data[k:k + 4])[0]
        k += 4
        if kind == "i":
            out["n"] = n
        else:
            if n < 0 or len(data) < k + n:
                raise Malformed("string of %d bytes in a reply of %d" % (n, len(data)))
            out.setdefault("r", data[k:k + n].decode())
            k += n
    if k != len(data):
        raise Malformed("%d bytes after the reply" % (len(data) - k))
    return out


class Server:
    def __init__(self, d):
        self.d, self.proc, self.port = d, None, 0

    def start(self):
        for _ in range(20):
            s = socket.socket()
            s.bind(("127.0.0.1", 0))
            self.port = s.getsockname()[1]
            s.close()
            self.err = open(os.path.join(self.d, "server.err"), "w+")
            self.proc = subprocess.Popen([SERVER, "-c", os.path.join(self.d, "cfg"), "-p", str(self.port)], cwd=self.d,
                                         stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=self.err)
            t = time.time() + 60
            while time.time() < t and self.proc.poll() is None:
                if "Listening to port" in self.text():
                    return 0
                time.sleep(0.005)
            if self.proc.poll() is None:
                return 1
            if "bind error" not in self.text():
                return 1
        return 1

    def text(self):
        with open(os.path.join(self.d, "server.err"), errors="replace") as f:
            return f.read()

    def connect(self):
        s = socket.socket()
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        s.connect(("127.0.0.1", self.port))
        return s

    def wait_exit(self):
        try:
            return {"e": "exit", "n": self.proc.wait(WAIT)}
        except subprocess.TimeoutExpired:
            self.kill()
            return {"e": "noexit"}

    def kill(self):
        if self.proc and self.proc.poll() is None:
            self.proc.kill()
            self.proc.wait()


def pieces(data, rng, most=6):
    cuts = sorted(rng.randint(0, len(data)) for _ in range(rng.randint(0, most)))
    a = 0
    for b in cuts + [len(data)]:
        if b > a:
            yield data[a:b]
        a = b


def send(s, data, rng):
    for p in pieces(data, rng):
        try:
            s.sendall(p)
        except (BrokenPipeError, ConnectionResetError):
            return      # the server closed the connection; what it said is read afterwards
        if rng.random() < 0.7:
            time.sleep(rng.choice([0, 0.001, 0.003]))


class Proxy(threading.Thread):
    """Passes one connection on in small pieces."""

    def __init__(self, server, seed):
        super().__init__(daemon=True)
        self.server, self.rng = server, random.Random(seed)
        self.lst = socket.socket()
        self.lst.bind(("127.0.0.1", 0))
        self.lst.listen(1)
        self.port = self.lst.getsockname()[1]

    def run(self):
        try:
            a, _ = self.lst.accept()
            a.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            b = self.server.connect()
            live = [a, b]
            while live:
                r, _, _ = select.select(live, [], [], WAIT)
                if not r:
                    break
                for x in r:
                    y = b if x is a else a
                    d = x.recv(65536)
                    if not d:
                        live.remove(x)
                        y.shutdown(socket.SHUT_WR)
                    else:
                        send(y, d, self.rng)
            a.close()
            b.close()
        except OSError:
            pass
        finally:
            self.lst.close()


def client(server, q, seed):
    """The request as issued by the real client program, whose connection goes through a proxy that fragments it."""
    p = Proxy(server, seed)
    p.start()
    op = q["op"]
    a = [CLIENT, "-i", "127.0.0.1", "-p", str(p.port), "-uid", str(USERS[q["u"]])]
    a += {"tr": ["-t", q.get("x")], "trh": ["-th", q.get("x")], "cov": ["-c", q.get("x"), q.get("y")], "train": ["-tr", q.get("x"), q.get("y")],
          "cat": ["-sc", q.get("x")], "add": ["-ap", q.get("x")], "reset": ["-rp"], "print": ["-pr"], "end": ["-e"], "ecm": ["-te", q.get("x"), q.get("y")]}[op]
    r = subprocess.run(a, stdin=subprocess.DEVNULL, capture_output=True, timeout=2 * WAIT)
    p.join(WAIT)
    out = r.stdout.decode()
    if REPLY[op] == "i":
        return {"n": r.returncode}
    ls = out.split("\n")
    if r.returncode or len(ls) != (3 if op == "trh" else 2) or ls[-1]:
        raise Malformed("client: code %d, output %r, %r" % (r.returncode, out, r.stderr[-200:]))
    return {"r": ls[-2]}


class History:
    def __init__(self, d):
        self.srv, self.t, self.lock = Server(d), 0, threading.Lock()
        self.ev = []

    def log(self, **e):
        with self.lock:
            self.ev.append(e)

    def new_t(self):
        with self.lock:
            self.t += 1
            return self.t

    def call(self, t, q):
        e = {k: q[k] for k in ("op", "u", "x", "y") if k in q}
        if e["op"] == "trh":
            e["op"] = "tr"
        self.log(e="call", t=t, **e)

    def bad(self, t, err):
        if self.srv.proc.poll() is not None and self.srv.proc.returncode != 0:
            self.log(e="died", t=t, n=self.srv.proc.returncode, why=self.srv.text()[-1500:])
        else:
            self.log(e="refused" if isinstance(err, Refused) else "malformed", t=t, why=str(err))

    def request(self, q, rng):
        """A whole request on a connection of its own. False: give up."""
        t = self.new_t()
        self.call(t, q)
        try:
            if q.get("cli"):
                self.log(e="ret", t=t, **client(self.srv, q, rng.random()))
                return True
            s = self.srv.connect()
            a, b = payload(q)
            if q.get("leave") is not None:
                d = (a + b)[:q["leave"]]
                send(s, d, rng)
                if q.get("rst"):
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                self.log(e="left", t=t, full=len(d) == len(a + b))
                if q.get("shut"):       # nothing else will be sent; the server ends the connection
                    s.shutdown(socket.SHUT_WR)
                    read_all(s, True)
                s.close()
                return True
            send(s, a + b, rng)
            self.log(e="ret", t=t, **parse(q, read_all(s, q["op"] == "junk")))
            s.close()
            return True
        except (Malformed, OSError, subprocess.TimeoutExpired) as err:
            self.bad(t, err)
            return False

    def run(self, op, rng):
        """Connections whose steps are interleaved as the history says."""
        conns = {}
        for st in op["steps"]:
            c, what = st[0], st[1]
            if what == "open":
                a, b = payload(op["reqs"][c])
                conns[c] = {"s": self.srv.connect(), "q": op["reqs"][c], "a": a, "b": b, "t": self.new_t()}
                self.call(conns[c]["t"], op["reqs"][c])
                continue
            k = conns[c]
            try:
                if what == "half":
                    n = rng.randint(1, len(k["a"]) - 1)
                    send(k["s"], k["a"][:n], rng)
                    k["a"] = k["a"][n:]
                elif what == "header":
                    send(k["s"], k["a"], rng)
                    k["a"] = b""
                elif what == "body":
                    send(k["s"], k["b"], rng)
                    k["b"] = b""
                elif what == "recv":
                    self.log(e="ret", t=k["t"], **parse(k["q"], read_all(k["s"], k["q"]["op"] == "junk")))
                    k["s"].close()
                    del conns[c]
                elif what == "leave":
                    if rng.random() < 0.2 and k["b"] and not k["a"]:
                        n = rng.randint(0, len(k["b"]) - 1)
                        send(k["s"], k["b"][:n], rng)
                    self.leave(k, rng.random() < 0.3)
                    del conns[c]
            except Refused:
                self.log(e="refused", t=k["t"])
                k["s"].close()
                del conns[c]
            except (Malformed, OSError) as err:
                self.bad(k["t"], err)
                return
        for k in conns.values():
            self.leave(k, False)

    def leave(self, k, rst):
        if rst:
            k["s"].setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.log(e="left", t=k["t"], full=not k["a"] and not k["b"])
        k["s"].close()

    def par(self, op, seed):
        """Clients which run at the same time, each one issuing its requests in turn."""
        def one(reqs, r):
            for q in reqs:
                if not self.request(q, r):
                    return
        th = [threading.Thread(target=one, args=(reqs, random.Random("%s %d" % (seed, k)))) for k, reqs in enumerate(op["threads"])]
        for x in th:
            x.start()
        for x in th:
            x.join()

    def idle(self, op):
        """Whether a request is answered while a client which was there before says nothing."""
        a, b = self.srv.connect(), self.srv.connect()
        q = {"op": "tr", "u": op["u"], "x": op["x"]}
        b.sendall(b"".join(payload(q)))
        try:
            read_all(b, timeout=5)
            return True
        except Malformed:
            a.close()
            read_all(b)
            return False
        finally:
            a.close()
            b.close()

    def play(self, hist):
        out = []
        for k, op in enumerate(hist):
            e = {"op": op["op"]}
            self.ev = []
            rng = random.Random("%s %d" % (op.get("seed", 0), k))
            if op["op"] == "start":
                e["n"] = self.srv.start()
                if e["n"]:
                    e["why"] = self.srv.text()[-500:]
            elif op["op"] == "run":
                self.run(op, rng)
            elif op["op"] == "par":
                self.par(op, op.get("seed", 0))
            elif op["op"] == "idle":
                e["answered"] = self.idle(op)
            elif op["op"] == "end":
                self.request(dict({"op": "end", "u": 0}, **{x: op[x] for x in ("cli",) if x in op}), rng)
            if op["op"] not in ("start", "idle"):
                ended = any(x["e"] == "call" and x["op"] == "end" for x in self.ev) and \
                    any(x["e"] in ("ret", "left") and any(y["e"] == "call" and y["op"] == "end" and y["t"] == x["t"] for y in self.ev) and x.get("full", True) for x in self.ev)
                if ended and not any(x["e"] in ("died", "malformed") for x in self.ev):
                    # a client that left without waiting may have asked the server to end or not
                    sure = any(x["e"] == "ret" and any(y["e"] == "call" and y["op"] == "end" and y["t"] == x["t"] for y in self.ev) for x in self.ev)
                    if not sure:
                        self.request({"op": "end", "u": 0}, rng) if self.alive(1.0) else None
                    self.ev.append(self.srv.wait_exit())
                elif self.srv.proc.poll() is not None:
                    self.ev.append({"e": "died", "t": 0, "n": self.srv.proc.returncode, "why": self.srv.text()[-1500:]})
                e["ev"] = self.ev
            out.append(e)
            if any(x["e"] in ("died", "malformed", "noexit") for x in self.ev) or e.get("n"):
                break
        self.srv.kill()
        return out

    def alive(self, timeout):
        t = time.time() + timeout
        while time.time() < t:
            if self.srv.proc.poll() is not None:
                return False
            time.sleep(0.02)
        return True


def main():
    bad = 0
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(1))
    for line in sys.stdin:
        d = tempfile.mkdtemp(prefix="srv_", dir=".")
        d = os.path.abspath(d)
        h = None
        try:
            for f in os.listdir(BASE):
                shutil.copy(os.path.join(BASE, f), d)
            with open(os.path.join(d, "cfg")) as f:
                c = f.read().replace(BASE, d)
            with open(os.path.join(d, "cfg"), "w") as f:
                f.write(c)
            h = History(d)
            if bad >= 2:        # enough has been seen
                print('[{"op": "start", "n": 0}]', flush=True)
                continue
            t = h.play(json.loads(line))
            bad += any(x["e"] in ("died", "malformed", "noexit") for e in t for x in e.get("ev", []))
            print(json.dumps(t), flush=True)
        finally:
            if h:
                h.srv.kill()
            shutil.rmtree(d, ignore_errors=True)


main()
