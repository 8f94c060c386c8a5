"""A loopback server with scripted faults, and dataset calls in forked processes.

Everything stays in the current directory of the driver process (a scratch directory): HOME is
set to it before implicit.datasets is imported."""
import json
import os
import queue
import select
import shutil
import signal
import socket
import struct
import sys
import threading
import time

import numpy as np

STATE = {}
FUNCS = {"movielens_20m": ("movielens", "get_movielens", ["20m"]), "movielens_10m": ("movielens", "get_movielens", ["10m"]),
         "movielens_1m": ("movielens", "get_movielens", ["1m"]), "movielens_100k": ("movielens", "get_movielens", ["100k"]),
         "lastfm_360k": ("lastfm", "get_lastfm", []), "reddit": ("reddit", "get_reddit", []),
         "sketchfab": ("sketchfab", "get_sketchfab", []), "msd_taste_profile": ("million_song_dataset", "get_msd_taste_profile", [])}
GROUP = {"movielens": ("movie_user_ratings", ["movie"]), "lastfm": ("artist_user_plays", ["artist", "user"]),
         "reddit": ("item_user_ratings", []), "sketchfab": ("item_user_likes", ["item", "user"]),
         "million_song_dataset": ("track_user_plays", ["track", "user"])}


def publish(name, seed):
    """a small published dataset of its own for every name"""
    import h5py
    from scipy.sparse import random as srandom
    mod = FUNCS[name][0]
    rs = np.random.RandomState(seed)
    m = srandom(40, 60, 0.4, format="csr", random_state=rs, dtype=np.float32)
    m[39, 59] = 1.0
    m = m.tocsr()
    group, names = GROUP[mod]
    p = os.path.join(STATE["dir"], "pub-" + name)
    lists = []
    with h5py.File(p, "w") as f:
        g = f.create_group(group)
        for k in ("data", "indptr", "indices"):
            g.create_dataset(k, data=getattr(m, k))
        f.create_dataset("filler", data=rs.randint(0, 256, size=60000).astype(np.uint8))
        for k in names:
            v = [f"{name}-{k}-{j}-{rs.randint(1000)}" for j in range(30)]
            d = f.create_dataset(k, (len(v),), dtype=h5py.special_dtype(vlen=str))
            d[:] = v
            lists.append(v)
    body = open(p, "rb").read()
    os.remove(p)
    return body, m, lists


def matches(name, value):
    _, m, lists = STATE["pub"][name]
    if not lists:
        got, rest = value, []
    else:
        got, rest = value[-1], list(value[:-1])
    if len(rest) != len(lists):
        return False
    for a, b in zip(rest, lists):
        if [x.decode() if isinstance(x, bytes) else str(x) for x in np.asarray(a).tolist()] != b:
            return False
    got = got.tocsr()
    return got.shape == m.shape and abs(got - m).nnz == 0 and got.nnz == m.nnz


class Server:
    def __init__(self):
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        self.calls = {}
        threading.Thread(target=self.loop, daemon=True).start()

    def register(self, key, mode, chunks=2):
        self.calls[key] = dict(q=queue.Queue(), req=threading.Event(), reqs=0, mode=mode, chunks=chunks, sent=0)
        return self.calls[key]

    def loop(self):
        while True:
            conn, _ = self.sock.accept()
            threading.Thread(target=self.serve, args=(conn,), daemon=True).start()

    def serve(self, conn):
        try:
            conn.settimeout(30)
            data = b""
            while b"\r\n\r\n" not in data:
                x = conn.recv(4096)
                if not x:
                    return
                data += x
            method, path = data.split(b" ", 2)[:2]
            _, key, name = path.decode().split("/", 2)
            c = self.calls[key]
            name = name.rsplit("/", 1)[-1]
            name = name[:-5] if name.endswith(".hdf5") else name
            c["reqs"] += 1
            if name not in STATE["pub"]:
                conn.sendall(b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
                c["req"].set()
                return
            body = STATE["pub"][name][0]
            head = (f"HTTP/1.1 200 OK\r\nContent-Type: application/octet-stream\r\nContent-Length: {len(body)}\r\n"
                    "Connection: close\r\n\r\n").encode()
            if method == b"HEAD":
                conn.sendall(head)
                return
            if c["mode"] == "auto":
                conn.sendall(head + body)
                return
            c["req"].set()
            sent = 0
            n = c["chunks"]
            step = len(body) // n
            while True:
                cmd = c["mode"] if c["mode"] in ("short", "reset", "http") else c["q"].get(timeout=60)
                if cmd == "recv":
                    part = body[sent * step:(sent + 1) * step] if sent < n - 1 else body[sent * step:]
                    conn.sendall((head if sent == 0 else b"") + part)
                    sent += 1
                    if sent == n:
                        return
                elif cmd == "rest":
                    conn.sendall((head if sent == 0 else b"") + body[sent * step:])
                    return
                elif cmd == "short":
                    # part of a chunk, then a regular end of the connection
                    conn.sendall((head if sent == 0 else b"") + body[sent * step:sent * step + step // 2])
                    return
                elif cmd == "http" and sent == 0:
                    conn.sendall(b"HTTP/1.1 500 Internal Server Error\r\nContent-Length: 5\r\nConnection: close\r\n\r\noops!")
                    return
                else:                                    # reset
                    if sent == 0 and cmd == "reset":
                        conn.sendall(head)
                    conn.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    return
        except (OSError, queue.Empty):
            pass
        finally:
            conn.close()


def setup():
    if STATE:
        return
    STATE["dir"] = os.getcwd()
    STATE["home"] = os.path.join(STATE["dir"], "home")
    os.makedirs(STATE["home"], exist_ok=True)
    os.environ["HOME"] = STATE["home"]
    os.environ["TMPDIR"] = STATE["dir"]
    import importlib
    STATE["mods"] = {m: importlib.import_module("implicit.datasets." + m) for m in GROUP}
    STATE["pub"] = {n: publish(n, 100 + k) for k, n in enumerate(sorted(FUNCS))}
    STATE["srv"] = Server()
    STATE["n"] = 0


def clear():
    shutil.rmtree(STATE["home"], ignore_errors=True)
    os.makedirs(STATE["home"])


def signature():
    out = []
    for d, _, fs in os.walk(STATE["home"]):
        out.append(d)
        for f in fs:
            try:
                out.append((d, f, os.stat(os.path.join(d, f)).st_size))
            except OSError:
                pass
    return out


def redirect(port, key):
    """urllib asks the loopback server"""
    import urllib.request
    real = urllib.request.OpenerDirector.open

    def opened(self, fullurl, *a, **k):
        url = fullurl if isinstance(fullurl, str) else fullurl.full_url
        if url.startswith("http") and "127.0.0.1" not in url:
            fullurl = f"http://127.0.0.1:{port}/{key()}/{url.split('://', 1)[1]}"
        return real(self, fullurl, *a, **k)
    urllib.request.OpenerDirector.open = opened
    urllib.request._opener = urllib.request.build_opener(urllib.request.ProxyHandler({}))


class Host:
    """one process in which calls run in threads"""

    def __init__(self):
        cr, cw = os.pipe()
        r, w = os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.dup2(w, 30)
                os.dup2(cr, 31)
                os.closerange(3, 30)
                os.closerange(32, 1024)
                self.child(31, 30)
            finally:
                os._exit(9)
        os.close(w)
        os.close(cr)
        self.r, self.cw, self.buf, self.done = r, cw, b"", {}

    def child(self, cr, w):
        dn = os.open(os.devnull, os.O_RDWR)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        here = threading.local()
        redirect(STATE["srv"].port, lambda: here.key)

        def one(key, name):
            here.key = key
            mod, fn, args = FUNCS[name]
            try:
                v = getattr(STATE["mods"][mod], fn)(*args)
                res = dict(res="ok", right=bool(matches(name, v)), err="")
            except BaseException as e:  # noqa
                res = dict(res="error", right=False, err=repr(e)[:200])
            os.write(w, (json.dumps(dict(res, key=key)) + "\n").encode())
        with os.fdopen(cr) as f:
            for line in f:
                key, name = line.split()
                threading.Thread(target=one, args=(key, name), daemon=True).start()
        os._exit(0)

    def poll(self):
        while select.select([self.r], [], [], 0)[0]:
            x = os.read(self.r, 65536)
            if not x:
                return
            self.buf += x
            while b"\n" in self.buf:
                line, self.buf = self.buf.split(b"\n", 1)
                d = json.loads(line)
                self.done[d.pop("key")] = d

    def close(self):
        os.close(self.cw)
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)
        os.close(self.r)


class ThreadCall:
    """one call of a dataset function in a thread of a host process"""

    def __init__(self, host, name, mode="auto", chunks=2):
        STATE["n"] += 1
        self.key, self.host, self.name, self.out, self.fault = str(STATE["n"]), host, name, None, "none"
        self.ctl = STATE["srv"].register(self.key, mode, chunks)
        os.write(host.cw, f"{self.key} {name}\n".encode())

    def ended(self):
        if self.out is None:
            self.host.poll()
            self.out = self.host.done.get(self.key)
        return self.out is not None

    def wait(self, timeout=25):
        t = time.time()
        if STATE.get("hangs", 0) >= 3:
            timeout = 1.0
        while not self.ended():
            if time.time() - t > timeout:
                self.out = dict(res="hang", right=False, err="")
                STATE["hangs"] = STATE.get("hangs", 0) + 1
                break
            time.sleep(0.001)
        return self.out


class Call:
    """one call of a dataset function in a process of its own"""

    def __init__(self, name, mode="auto", chunks=2, limit=None, line=None):
        STATE["n"] += 1
        self.key = str(STATE["n"])
        self.ctl = STATE["srv"].register(self.key, mode, chunks)
        self.fault = {"down": "server", "short": "server", "reset": "server", "http": "server"}.get(mode, "none")
        r, w = os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                # nothing of the server may stay open in the child
                os.dup2(w, 3)
                os.closerange(4, 1024)
                w = 3
                self.child(name, mode, w, limit, line)
            finally:
                os._exit(9)
        os.close(w)
        self.r = r
        self.out = None
        self.name = name

    def child(self, name, mode, w, limit, line):
        import urllib.request
        dn = os.open(os.devnull, os.O_RDWR)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        signal.signal(signal.SIGINT, signal.default_int_handler)
        port = 1 if mode == "down" else STATE["srv"].port
        key = self.key
        redirect(port, lambda: key)
        if limit is not None:
            import resource
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        mod, fn, args = FUNCS[name]
        f = getattr(STATE["mods"][mod], fn)
        if line is not None:
            how, n, where = line
            count = [0]
            disk = [signature()]

            def tracer(frame, event, arg):
                if where == "own" and "/implicit/datasets/" not in frame.f_code.co_filename:
                    return None
                if event == "line":
                    if where == "change":            # the next state of the files on disk
                        now = signature()
                        if now == disk[0]:
                            return tracer
                        disk[0] = now
                    count[0] += 1
                    if count[0] == n:
                        if how == "kill":
                            os.kill(os.getpid(), signal.SIGKILL)
                        if how == "pause":
                            os.kill(os.getpid(), signal.SIGSTOP)
                            return tracer
                        sys.settrace(None)
                        os.write(w, b"F")
                        raise KeyboardInterrupt()
                return tracer
            sys.settrace(tracer)
        try:
            v = f(*args)
            sys.settrace(None)
            res = dict(res="ok", right=bool(matches(name, v)), err="")
        except BaseException as e:  # noqa
            sys.settrace(None)
            res = dict(res="error", right=False, err=repr(e)[:200])
        os.write(w, json.dumps(res).encode())
        os._exit(0)

    def ended(self):
        """poll"""
        if self.out is None:
            pid, st = os.waitpid(self.pid, os.WNOHANG)
            if pid:
                self.collect(st)
        return self.out is not None

    def collect(self, st):
        data = b""
        while True:
            rd, _, _ = select.select([self.r], [], [], 0)
            x = os.read(self.r, 65536) if rd else b""
            if not x:
                break
            data += x
        os.close(self.r)
        if data.startswith(b"F"):
            self.fault, data = "int", data[1:]
        if os.WIFSIGNALED(st):
            self.out = dict(res="killed", right=False, err=f"signal {os.WTERMSIG(st)}")
            if os.WTERMSIG(st) == signal.SIGKILL:
                self.fault = "kill"
        elif data:
            self.out = json.loads(data)
        else:
            self.out = dict(res="error", right=False, err=f"exit {st}")

    def wait(self, timeout=25):
        t = time.time()
        if STATE.get("hangs", 0) >= 3:
            timeout = 1.0
        while not self.ended():
            if time.time() - t > timeout:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
                os.close(self.r)
                self.out = dict(res="hang", right=False, err="")
                STATE["hangs"] = STATE.get("hangs", 0) + 1
                break
            time.sleep(0.002)
        return self.out

    def wait_stop(self, timeout=25):
        """until the process stopped itself (True) or ended"""
        t = time.time()
        while self.out is None and time.time() - t < timeout:
            pid, st = os.waitpid(self.pid, os.WNOHANG | os.WUNTRACED)
            if pid and os.WIFSTOPPED(st):
                return True
            if pid:
                self.collect(st)
            time.sleep(0.001)
        return False

    def go_on(self):
        os.kill(self.pid, signal.SIGCONT)

    def wait_request(self, timeout=25):
        t = time.time()
        while not self.ctl["req"].is_set() and not self.ended() and time.time() - t < timeout:
            time.sleep(0.001)

    def event(self, p, first):
        return dict(op="end", p=p, name=self.name, fault=self.fault, reqs=self.ctl["reqs"], first=first, **self.out)


ThreadCall.wait_request, ThreadCall.event = Call.wait_request, Call.event
