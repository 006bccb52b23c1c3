"""C13: the web service.  Histories of clients of the running service, recorded and checked against
spec/Web.tla by spec/WebTrace.tla."""
import base64
import json
import os
import random
import re
import select
import socket
import struct
import subprocess
import time
import urllib.parse

import c_cli
import gens
import lib
from c_load import LINES
from c_read import mutated

PORT = 8082
PATIENCE = 40.0   # how long an answer is waited for which should come at once
CAP = 1500        # how many results are known of endless queries


class Gone(Exception):
    pass


class Client:
    """A connection to the service; never waits unless told to"""

    def __init__(self, rcvbuf=None):
        self.s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        if rcvbuf:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.s.settimeout(PATIENCE)
        self.s.connect(("127.0.0.1", PORT))
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buf = b""
        self.eof = False
        self.keep = False

    def send(self, data):
        try:
            self.s.sendall(data)
        except OSError:
            self.eof = True

    def fill(self, wait):
        """Read once, if something comes within the time"""
        if self.eof:
            return False
        r, _, _ = select.select([self.s], [], [], wait)
        if not r:
            return False
        try:
            d = self.s.recv(65536)
        except OSError:
            d = b""
        if not d:
            self.eof = True
        self.buf += d
        return True

    def close(self, how="fin"):
        try:
            if how == "rst":
                self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            elif how == "bye":
                self.s.settimeout(1)
                self.s.sendall(frame(8, struct.pack(">H", 1000)))
            self.s.close()
        except OSError:
            pass

    def http(self):
        """The HTTP answer, if it is all there: (status, headers, body)"""
        i = self.buf.find(b"\r\n\r\n")
        if i < 0:
            if self.eof:
                return 0, {}, b""
            return None
        head = self.buf[:i].decode("latin-1").split("\r\n")
        status = int(head[0].split(" ")[1])
        hs = {k.lower(): v.strip() for k, v in (h.split(":", 1) for h in head[1:])}
        rest = self.buf[i + 4:]
        if status == 101:
            self.buf = rest
            return status, hs, b""
        if hs.get("transfer-encoding") == "chunked":
            body, p = b"", 0
            while True:
                q = rest.find(b"\r\n", p)
                if q < 0:
                    break
                n = int(rest[p:q].split(b";")[0], 16)
                if len(rest) < q + 4 + n:
                    break
                body += rest[q + 2:q + 2 + n]
                p = q + 4 + n
                if n == 0:
                    self.buf = rest[p:]
                    return status, hs, body
            return (0, hs, b"") if self.eof else None
        n = int(hs.get("content-length", "-1"))
        if n < 0:
            return (status, hs, rest) if self.eof else None
        if len(rest) >= n:
            self.buf = rest[n:]
            return status, hs, rest[:n]
        return (0, hs, b"") if self.eof else None

    def wait_http(self, patience=PATIENCE):
        end = time.time() + patience
        while True:
            a = self.http()
            if a is not None:
                return a
            left = end - time.time()
            if left <= 0 or not (self.fill(left) or self.eof):
                raise Gone("no answer")

    def frames(self):
        """The websocket messages which are there: (opcode, payload)"""
        out = []
        b, p = self.buf, 0
        while len(b) >= p + 2:
            op, n = b[p] & 15, b[p + 1] & 127
            q = p + 2
            if n == 126:
                if len(b) < q + 2:
                    break
                n = struct.unpack(">H", b[q:q + 2])[0]
                q += 2
            elif n == 127:
                if len(b) < q + 8:
                    break
                n = struct.unpack(">Q", b[q:q + 8])[0]
                q += 8
            if len(b) < q + n:
                break
            out.append((op, b[q:q + n]))
            p = q + n
        self.buf = b[p:]
        return out


def frame(op, payload, fin=True, masked=True):
    h = bytes([(0x80 if fin else 0) | op])
    m = 0x80 if masked else 0
    n = len(payload)
    if n < 126:
        h += bytes([m | n])
    elif n < 65536:
        h += bytes([m | 126]) + struct.pack(">H", n)
    else:
        h += bytes([m | 127]) + struct.pack(">Q", n)
    if not masked:
        return h + payload
    k = os.urandom(4)
    return h + k + bytes(c ^ k[i & 3] for i, c in enumerate(payload))


def request(method, path, body=None, keep=False, length=None, extra=b""):
    r = f"{method} {path} HTTP/1.1\r\nHost: localhost\r\n".encode()
    if not keep:
        r += b"Connection: close\r\n"
    if body is not None:
        r += b"Content-Length: %d\r\n" % (len(body) if length is None else length)
    return r + extra + b"\r\n" + (body or b"")


def fetch(path):
    c = Client()
    try:
        c.send(request("GET", path))
        return c.wait_http()
    finally:
        c.close()


# ---------------------------------------------------------------- the service
class Service:
    def __init__(self, binary, scratch, tag, lists):
        """lists: {file name: bytes}"""
        self.dir = scratch.path(tag)
        os.makedirs(os.path.join(self.dir, "lists"))
        for name, data in lists.items():
            with open(os.path.join(self.dir, "lists", name), "wb") as f:
                f.write(data)
        self.binary = binary

    def start(self):
        end = time.time() + 400
        while True:   # another one may be running
            try:
                socket.create_connection(("127.0.0.1", PORT), timeout=5).close()
                busy = True
            except OSError:
                busy = False
            if not busy:
                self.p = subprocess.Popen([self.binary, "lists"], cwd=self.dir, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                          stderr=open(os.path.join(self.dir, "err"), "w"))
                for _ in range(600):
                    if self.p.poll() is not None:
                        break
                    try:
                        socket.create_connection(("127.0.0.1", PORT), timeout=5).close()
                        time.sleep(0.05)
                        if self.p.poll() is None:
                            return
                        break
                    except OSError:
                        time.sleep(0.05)
                else:
                    raise Gone("the service does not accept connections")
                err = open(os.path.join(self.dir, "err")).read()
                if "AddrInUse" not in err and "in use" not in err:
                    raise Gone("the service did not start: " + err[-1000:])
            if time.time() > end:
                raise lib.ToolError(f"port {PORT} is in use")
            time.sleep(1)

    def stop(self):
        if getattr(self, "p", None):
            self.p.kill()
            self.p.wait()


# ---------------------------------------------------------------- what clients do
ENDLESS = ["(..)*;.(..)*\n#words 40", "(.z)*;.(.[^z])*.*;(..)*;.(..)*\n#words 40"]
# one with results all the time, and never more than 255 tries without one
DENSE = "([^z].)*zz\n#words 30\n#limit 999999999\n#wordlist\n" + "\n".join(x + y for x in "abcde" for y in "abcdefghi") + "\nzz"
ENDLESS_RESULTS = [".*\n#limit 10000000", "..*\n#limit 999999999\n#words 30"]


def others(names):
    """Names which are almost those of the lists"""
    return [y for x in names for y in (x.upper(), x.capitalize(), x.lower(), x[:-1], x + "x", x + ".txt")]


def query(rng, names):
    al = rng.choice(["ab", "abc"])
    r = rng.random()
    if r < 0.1:
        return mutated(rng, gens.G(rng, al).expr(2))
    if r < 0.18:
        return rng.choice(["", "#quiet", "// nothing", "(", "a{3", "#limit x", "#dict", "a;b;(", "<", "a\n#words 2\n)", "[", "\ufffd", "a\u00e9", "é", "#limit 1"])
    qs = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        g = gens.G(rng, al, ana=rng.choice([0, 0, 0.3]))
        qs.append(rng.choice([".*", ".{%d}" % rng.randint(1, 6), "%s.*" % rng.choice(al), "(..)*", ".*%s.*" % rng.choice(al)])
                  if rng.random() < 0.6 else g.expr(rng.choice([1, 2])))
    if rng.random() < 0.5:
        qs.insert(rng.randint(0, len(qs)), "#limit %d" % rng.choice([0, 1, 2, 14, 15, 16, 20, 40, 299, 300, 301, 400]))
    if rng.random() < 0.45:
        qs.insert(rng.randint(0, len(qs)), "#dict %s" % rng.choice(names + names + ["nothere", "DEFAULT", "default"] + others(names)))
    if rng.random() < 0.8:
        qs.append("#words %d" % rng.choice([1, 1, 2, 2, 3]))
    if rng.random() < 0.08:
        qs += ["#wordlist"] + ["".join(rng.choice(al) for _ in range(rng.randint(1, 3))) for _ in range(rng.randint(0, 40))]
    return rng.choice(["\n", ";"]).join(qs)


NEVER = ["nolength", "toolong", "method", "garbage", "noupgrade", "empty", "half", "halfbody", "badframe", "notutf8", "nothing"]


def plan(rng, names, slow):
    """What one client will do"""
    via = rng.choice(["get", "get", "post", "ws", "ws", "ws"])
    r = rng.random()
    p = {"via": via, "kind": "query", "leave": None, "how": rng.choice(["fin", "fin", "rst"])}
    if r < 0.09:
        what = rng.choice(NEVER)
        p.update(kind="never", what=what, via="ws" if what in ("badframe", "notutf8") else rng.choice(["get", "post"]), query="")
        if what in ("half", "halfbody", "nothing"):
            p["leave"] = 0
    elif r < 0.12:
        p.update(kind="binary", via="ws", query="")
    elif r < 0.18:
        # an endless one, abandoned
        p.update(via="ws", query=rng.choice(ENDLESS + ENDLESS_RESULTS * 2), endless=True, leave=rng.choice([0, 1, 3, 8]))
        p["how"] = rng.choice(["fin", "rst", "bye"])
    elif r < 0.2 and slow:
        p.update(via="get", query=rng.choice(ENDLESS), endless=True, leave=rng.choice([None, 0, 1]))
    elif r < 0.23 and via == "post":
        q = query(rng, names)
        pad = 65535 - len(q.encode())
        p["query"] = "".join(["//" + "x" * 597 + "\n"] * (pad // 600)) + " " * (pad % 600) + "\n" + q
    else:
        p["query"] = query(rng, names)
        if rng.random() < 0.12:
            p["leave"] = rng.choice([0, 0, 1, 2])
            if via == "ws":
                p["how"] = rng.choice(["fin", "rst", "bye"])
    if via == "ws" and r > 0.97:
        p["idle"] = True   # opens, asks nothing
    p["raw"] = p["query"].encode()
    if p["kind"] == "query" and p["via"] != "ws" and not p.get("endless") and len(p["raw"]) < 60000 and rng.random() < 0.06:
        # not UTF-8
        b = bytearray(p["raw"])
        b.insert(rng.randint(0, len(b)), rng.choice([0x80, 0xff, 0xc3, 0xe2, 0xf0]))
        p["raw"] = bytes(b)
        p["query"] = p["raw"].decode("utf-8", "replace")
    if p["via"] == "get" and p["kind"] == "query" and p["raw"] == b"":
        p["raw"], p["query"] = b" ", " "
    return p


def long_ones(rng, tier):
    """Queries which go on for longer than a plain GET may.  (In the thorough tier, for as long as they may.)"""
    ps = {}
    for c, (via, q) in enumerate([("post", rng.choice(ENDLESS)), ("ws", rng.choice(ENDLESS)), ("get", rng.choice(ENDLESS)), ("ws", ".*\n#limit 20"),
                                  ("get", DENSE), ("post", DENSE)]):
        ps[c + 1] = {"via": via, "kind": "query", "leave": None, "how": "rst", "endless": q in ENDLESS + [DENSE], "query": q, "raw": q.encode(),
                     **({"patience": 60.0} if via == "get" else {"stay": 12.5} if tier == "quick" else {"patience": 175.0})}
    return ps


def encoded(rng, raw):
    out = []
    for c in raw:
        ch = chr(c)
        if (ch.isalnum() and c < 128 and rng.random() < 0.9) or (ch in "!$&'()*+,;=:@-_~" and rng.random() < 0.5) or (ch == "." and 1 < len(raw) and rng.random() < 0.5):
            out.append(ch)
        else:
            out.append(("%%%02X" if rng.random() < 0.7 else "%%%02x") % c)
    return "".join(out)


class History:
    def __init__(self, rng, service, names, plans, t0):
        self.restless = False
        self.final = False  # whether what has been left behind is still evaluated at the end
        self.rng, self.service, self.names, self.plans = rng, service, names, plans
        self.t0 = t0
        self.events = []
        self.conns = {}
        self.state = {}
        self.given = {}
        self.spare = []     # connections which are kept alive

    def ev(self, k, **kw):
        e = {"k": k, "c": 0, "at": int((time.time() - self.t0) * 1000)}
        e.update(kw)
        self.events.append(e)

    def metrics(self):
        st, _, body = fetch("/metrics")
        text = body.decode("utf-8", "replace")
        if st != 200:
            raise Gone("/metrics: status %d" % st)
        m = {"active": 0, "total": 0, "sizes": []}
        for line in text.splitlines():
            x = re.match(r'noodle_queries_(active|total) (\d+)$', line)
            if x:
                m[x.group(1)] = int(x.group(2)) if int(x.group(2)) < 10**9 else -1
            x = re.match(r'noodle_wordlist_size\{wordlist="(.*)"\} (\d+)$', line)
            if x:
                m["sizes"].append({"name": lib.codes(x.group(1)), "n": int(x.group(2))})
        return m

    # -- one client
    def open(self, i):
        """A websocket"""
        c = Client(rcvbuf=4096 if self.rng.random() < 0.2 else None)
        key = base64.b64encode(os.urandom(16)).decode()
        c.send(request("GET", "/ws", keep=True, extra=("Connection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\n"
                                                       f"Sec-WebSocket-Key: {key}\r\n").encode()))
        st, _, _ = c.wait_http()
        if st != 101:
            raise Gone("no websocket: status %d" % st)
        self.conns[i] = c
        self.ev("open", c=i)

    def ask(self, i):
        p, rng = self.plans[i], self.rng
        self.ev("ask", c=i, via=p["via"], kind=p["kind"], query=lib.codes(p["query"]), plan=p)
        self.given[i] = time.time()
        if p["via"] == "ws":
            c = self.conns[i]
            what = p.get("what")
            if p["kind"] == "binary":
                c.send(frame(2, os.urandom(5)))
            elif what == "badframe":
                c.send(rng.choice([frame(3, b"abc"), frame(0, b"abc"), frame(11, b"", True)]))
            elif what == "notutf8":
                c.send(frame(1, b"a\xff\xc3"))
            else:
                raw = p["raw"]
                if raw and rng.random() < 0.2:
                    n = rng.randint(0, len(raw))
                    c.send(frame(1, raw[:n], fin=False) + frame(0, raw[n:]))
                else:
                    c.send(frame(1, raw))
                    if rng.random() < 0.05:
                        c.send(frame(1, b"a|b"))   # is not looked at
            return
        keep = rng.random() < 0.3
        c = self.spare.pop() if self.spare and rng.random() < 0.7 else Client()
        if p["kind"] == "never":
            keep = False
            what = p["what"]
            big = b"a" * 65537
            c.send({"nolength": request("POST", "/query"), "toolong": request("POST", "/query", big),
                    "method": request("DELETE", "/query/a"), "garbage": b"\x00\x01 garbage\r\n\r\n", "noupgrade": request("GET", "/ws"),
                    "empty": request("GET", "/query/"), "half": b"GET /query/a HTTP/1.1\r\nHost: loc", "nothing": b"",
                    "halfbody": request("POST", "/query", b"abc", length=100)}[what])
        elif p["via"] == "get":
            c.send(request("GET", "/query/" + encoded(rng, p["raw"]), keep=keep))
        elif rng.random() < 0.2 and p["raw"]:
            r = request("POST", "/query", p["raw"], keep=keep)
            n = rng.randint(1, len(r) - 1)
            c.send(r[:n])
            time.sleep(0.002)
            c.send(r[n:])
        else:
            c.send(request("POST", "/query", p["raw"], keep=keep))
        c.keep = keep
        self.conns[i] = c

    def leave(self, i, how):
        self.ev("leave", c=i)
        self.conns[i].close(how)
        self.state[i] = "done"

    def read(self, i, wait):
        """What is there for client i; True if it was its end"""
        c, p = self.conns[i], self.plans[i]
        if p["via"] != "ws":
            a = c.http()
            if a is None:
                c.fill(wait)
                a = c.http()
                if a is None:
                    return False
            st, hs, body = a
            self.answer(i, st, body)
            self.ev("end", c=i)
            if c.keep and not c.eof and st and hs.get("connection") != "close":
                self.spare.append(c)
            else:
                c.close()
            return True
        c.fill(wait)
        run = []

        def flush():
            if run:
                self.ev("part", c=i, results=list(run))
                run.clear()
        for op, data in c.frames():
            if op == 8:
                flush()
                self.ev("end", c=i)
                c.close()
                return True
            if op != 1:
                continue
            m = json.loads(data)
            if "match" in m:
                run.append([{"t": lib.codes(w["text"]), "s": w["score"]} for w in m["match"]["phrase"]])
            else:
                text = m["status"] if "status" in m else m["log"]["message"]
                x = re.search(r"\((\d+) other", text)
                if x and i not in self.begun:
                    self.begun.add(i)
                    flush()
                    self.ev("begun", c=i, n=int(x.group(1)))
                elif p["kind"] == "query" and p.get("error"):
                    flush()
                    self.ev("told", c=i, text=lib.codes(text))
        flush()
        if c.eof:
            self.ev("end", c=i)
            c.close()
            return True
        return False

    def answer(self, i, st, body):
        p = self.plans[i]
        text = body.decode("utf-8", "replace")
        lines, timeup = [], False
        if p["kind"] == "query" and not p.get("error"):
            ls = text.split("\n")
            if ls[-1] == "":
                ls.pop()
            else:
                ls.append("the last line is not ended")
            timeup = bool(ls) and ls[-1].startswith("# Timeout") and not ls[-1].endswith(" ")
            if p.get("endless") and len(ls) > CAP + 10:
                ls[CAP + 5:-1] = []     # no more of them are known
            for x in ls[:-1] if timeup else ls:
                if p["via"] == "get":
                    lines.append(lib.codes(x))
                else:
                    try:
                        lines.append([{"t": lib.codes(w["text"]), "s": w["score"]} for w in json.loads(x)["match"]["phrase"]])
                    except (ValueError, KeyError, TypeError):
                        lines.append([{"t": lib.codes("no result: " + x), "s": 0}])
            if timeup:
                lines.append([])
        self.ev("answer", c=i, status=st, text=lib.codes(text) if not lines else [], lines=lines, timeup=timeup)

    # -- all of them
    def run(self):
        rng = self.rng
        self.begun = set()
        m = self.metrics()
        self.base = m["total"]
        self.ev("metrics", **m)
        for i in self.plans:
            self.state[i] = "new"
        reads = {i: 0 for i in self.plans}
        try:
            while any(s != "done" for s in self.state.values()):
                r = rng.random()
                if r < 0.1:
                    self.ev("metrics", **self.metrics())
                    continue
                if r < 0.115:
                    name = rng.choice(self.names * 3 + ["nothere"] + others(self.names))
                    st, _, body = fetch("/wordlist/" + name)
                    self.ev("list", name=lib.codes(name), texts=[lib.codes(x) for x in body.decode("utf-8", "replace").split("\n")[:-1]])
                    continue
                if r < 0.12:
                    st, _, body = fetch("/wordlists.js")
                    self.ev("lists", sizes=[{"name": lib.codes(x["name"]), "n": x["len"]}
                                            for x in (json.loads(y) for y in re.findall(r"push\((\{.*?\})\)", body.decode()))])
                    continue
                i = rng.choice([i for i, s in self.state.items() if s != "done"])
                p, s = self.plans[i], self.state[i]
                if s == "new" and p["via"] == "ws":
                    self.open(i)
                    self.state[i] = "open"
                elif s == "open" and p.get("idle"):
                    if rng.random() < 0.2:
                        self.leave(i, rng.choice(["fin", "rst"]))
                elif s in ("new", "open"):
                    self.ask(i)
                    self.state[i] = "asked"
                else:
                    if p["leave"] is not None and reads[i] >= p["leave"]:
                        if p["leave"] == 0 and rng.random() < 0.5:
                            time.sleep(rng.choice([0, 0.001, 0.01]))
                        self.leave(i, p["how"])
                        continue
                    if "stay" in p and time.time() - self.given[i] > p["stay"]:
                        self.leave(i, p["how"])
                        continue
                    reads[i] += 1
                    waiting = len([1 for x in self.state.values() if x != "done"]) == 1
                    if self.read(i, 0.2 if waiting else rng.choice([0, 0.002, 0.02])):
                        self.state[i] = "done"
                    elif time.time() - self.given[i] > p.get("patience", PATIENCE):
                        raise Gone("client %d waited in vain" % i)
            if self.final:
                return self.events
            # at rest
            for c in self.spare:
                c.close()
            asks = sum(e["k"] == "ask" and e["kind"] != "never" for e in self.events)
            end, extra = time.time() + PATIENCE, time.time() + 0.7
            quiet = 0
            while True:
                m = self.metrics()
                quiet = quiet + 1 if m["active"] == 0 else 0
                if quiet >= 3 and (m["total"] - self.base >= asks or time.time() > extra):
                    break
                if time.time() > end:
                    self.restless = True     # the histories after this one would not come to rest either
                    break
                time.sleep(0.02 if quiet else 0.05)
            self.ev("settled", **m)
        except (Gone, OSError) as e:
            self.ev("dead", why=str(e))
        finally:
            for c in list(self.conns.values()) + self.spare:
                c.close()
        return self.events


def lists(rng):
    out = {"default" + rng.choice(["", ".txt", ".words.txt"]): c_cli.wordfile(rng, "abc", rng.randint(20, 40)) + b"\nab\nba\nabc\ncab\nacb\nbbb\nca\ncc\n",
           "other" + rng.choice(["", ".txt"]): c_cli.wordfile(rng, "ab", rng.randint(0, 25)) + b"".join(x.encode() + b"\n" for x in rng.sample(LINES, 5))}
    if rng.random() < 0.5:
        out["Other.txt"] = c_cli.wordfile(rng, "abc", 12)
    if rng.random() < 0.5:
        out["third.txt"] = c_cli.wordfile(rng, "abcd", 60)
    return out


def run(prop, tier, rep, scratch):
    _, web = c_cli.build()
    (binary,) = lib.build()
    lib.model(rep, "MCWeb", scratch)
    nserv, nhist = (4, 36) if tier == "quick" else (10, 90)
    rep.cov["rule"] = ("histories of several clients of the running service, which ask in all ways, leave, and send what is no request; "
                       "every answer and every reported number is judged by the specification of the service")
    for k in range(nserv):
        rng = random.Random(f"{lib.SEED}/C13/{k}")
        ls = lists(rng)
        sv = Service(web, scratch, f"s{k}", ls)
        names = sorted({n.split(".")[0] for n in ls})
        loaded = lib.run_driver(binary, [{"id": f"l{n}", "op": "load", "path": os.path.join(sv.dir, "lists", n)} for n in ls], scratch, tag=f"l{k}")
        words = {n.split(".")[0]: [[w["t"], w["r"], w["s"]] for w in loaded[f"l{n}"]["words"]] for n in ls}
        # the plans, and what an evaluation answers to each query
        plans = []
        for h in range(nhist):
            ps = {c + 1: plan(rng, names, slow=h % 18 == 17) for c in range(rng.choice([1, 2, 3, 3, 4, 4, 5, 6]))}
            plans.append(ps)
        if k == nserv - 1:
            plans.append(long_ones(rng, tier))
        evals = []
        for h, ps in enumerate(plans):
            for c, p in ps.items():
                if p["kind"] == "query":
                    for n in names:
                        evals.append({"id": f"{h}/{c}/{n}", "op": "eval", "query": p["query"], "words": words[n], "setlimit": None,
                                      "cap": CAP, "after": 0, "sched": ["300000"], "maxtimeouts": 3})
        recs = lib.run_driver(binary, evals, scratch, tag=f"e{k}")
        for h, ps in enumerate(plans):
            for c in list(ps):
                p = ps[c]
                if p["kind"] != "query":
                    continue
                p["refs"] = []
                for n in names:
                    r = recs[f"{h}/{c}/{n}"]
                    if "reject" in r:
                        p["error"] = r["reject"]
                        continue
                    if not all(x in r for x in ("resp", "capped")) or (r["capped"] and len(r["resp"]) < CAP and not p.get("endless")):
                        p["drop"] = True     # takes too long, or fails
                        continue
                    p["refs"].append({"name": lib.codes(n), "cut": r["capped"],
                                      "results": [[{"t": lib.codes(w["t"]), "s": w["s"]} for w in x["w"]] for x in r["resp"] if x["k"] == "M"]})
                if p.get("drop"):
                    rep.count("queries_dropped")
                    del ps[c]
        plans = [ps for ps in plans if ps]
        try:
            sv.start()
        except Gone as e:
            rep.violation(f"the service: {e}", {"lists": {n: list(x) for n, x in ls.items()}})
            sv.stop()
            break
        cases, dead = [], False
        t0 = time.time()
        try:
            for h, ps in enumerate(plans):
                hist = History(rng, sv, names, ps, t0)
                hist.final = tier == "quick" and any("stay" in p for p in ps.values())
                try:
                    hist.run()
                except (Gone, OSError) as e:
                    hist.ev("dead", why=str(e))
                for e in hist.events:
                    p = e.pop("plan", None)
                    if p is not None:
                        e["refs"] = p.get("refs", []) if not p.get("error") else []
                        e["error"] = lib.codes(p.get("error") or "")
                        rep.count("asked_" + p["via"])
                        rep.count("asked_wrongly", p["kind"] != "query" or bool(p.get("error")))
                    if e["k"] == "dead":
                        dead = True
                cases.append({"id": f"{k}.{h}", "total": getattr(hist, "base", 0), "events": hist.events,
                              "lists": [{"name": lib.codes(n), "texts": [lib.codes(w[0]) for w in words[n]]} for n in names]})
                if dead or hist.restless:
                    break
            status = sv.p.poll()
        finally:
            sv.stop()
        if status is not None:
            rep.violation(f"the service ended ({status}): " + open(os.path.join(sv.dir, "err")).read()[-1000:], {"case": cases[-1]})
        acc, rej, r = lib.validate("WebTrace", cases, scratch, tag=f"t{k}")
        rep.add_tlc(r)
        rep.count("traces_validated_against_impl", len(acc))
        for x in cases:
            for e in x["events"]:
                rep.count("events")
                rep.count("results_received", len(e.get("results", [])) + (len(e["lines"]) if e["k"] == "answer" else 0))
                rep.count("left", e["k"] == "leave")
        for x in cases[:2]:
            rep.sample({"history": [(e["k"], e.get("c", 0)) for e in x["events"]][:40]})
        for cid, why in rej.items():
            x = [y for y in cases if y["id"] == cid][0]
            n = int(re.match(r"(\d+)", why).group(1)) - 1
            e = x["events"][min(n, len(x["events"]) - 1)]
            asks = {y["c"]: (y["via"], y["kind"], "".join(map(chr, y["query"]))) for y in x["events"] if y["k"] == "ask"}
            rep.violation(f"history {cid}: {e['k']} {asks.get(e.get('c'))} {e.get('why', '')}: {why[:700]}; others: {list(asks.values())}"[:2500],
                          {"case": x, "why": why[:3000]})
        if rep.violations:
            break
