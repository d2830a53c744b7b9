"""Stand-ins for everything through which the Python code reaches the outside: HTTP requests, UDP datagrams and waiting.

Nothing is sent. Threads started by the code under test run in turns with the main thread: a call to time.sleep in
such a thread (or a wait with a timeout) hands over to the main thread, which moves the (fake) clock on with tick()."""
import json, os, socket, sys, threading, time
from . import build, clock

real_sleep = time.sleep
_real_socket = socket.socket
_real_cond_wait = threading.Condition.wait
_main = threading.main_thread()
_ready = False

PATIENCE = 20.0          # real seconds within which a thread must come to rest


class Stuck(Exception):
    pass


# --------------------------------------------------------------------------------------------- datagrams
datagrams = []
udp = {"fail": None, "tries": []}


class Socket(_real_socket):
    def sendto(self, data, *a):
        to = a[-1]
        udp["tries"].append(to)
        if not isinstance(to[1], int) or not 0 <= to[1] <= 65535:
            raise OverflowError("sendto(): port must be 0-65535.")
        if to[0] in ("<broadcast>", "255.255.255.255") and not self.getsockopt(socket.SOL_SOCKET, socket.SO_BROADCAST):
            raise PermissionError(13, "Permission denied")
        if udp["fail"] and to[0] not in ("127.0.0.1", "localhost"):
            raise udp["fail"](101, "Network is unreachable")
        if len(data) > 65507:
            raise OSError(90, "Message too long")
        datagrams.append((bytes(data), to[0], to[1]))
        return len(data)

    def connect(self, to):
        if self.type & socket.SOCK_DGRAM:
            self.vf_to = to
            return
        raise OSError(101, "no network here")

    def connect_ex(self, to):
        try:
            self.connect(to)
            return 0
        except OSError as e:
            return e.errno

    def send(self, data, *a):
        if self.type & socket.SOCK_DGRAM:
            if not hasattr(self, "vf_to"):
                raise OSError(89, "Destination address required")
            return self.sendto(data, self.vf_to)
        raise OSError(107, "Transport endpoint is not connected")

    def sendall(self, data, *a):
        self.send(data)


# --------------------------------------------------------------------------------------------- http
http = {"fn": None, "n": 0}


def response(request, status=200, body=b"", headers=None):
    import io, requests, urllib3
    h = {"Content-Type": "text/plain; charset=utf-8"}
    h.update(headers or {})
    r = requests.models.Response()
    r.status_code = status
    r.headers = requests.structures.CaseInsensitiveDict(h)
    r.encoding = requests.utils.get_encoding_from_headers(r.headers)
    r.reason = "-"
    r.raw = urllib3.HTTPResponse(body=io.BytesIO(body), preload_content=False, status=status, headers=h)
    r.url = request.url
    r.request = request
    return r


def _send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
    http["n"] += 1
    return http["fn"](request)


# --------------------------------------------------------------------------------------------- threads and time
class Engine:
    """the waiting threads and the fake time, in seconds"""

    def __init__(self):
        self.reset(0)

    def reset(self, now, free=False):
        self.now = now
        self.sleeping = {}          # thread -> [wake time, lock]
        self.free = free
        self.abort = False
        self.bell = threading.Semaphore(0)
        self.set(now)

    def set(self, now):
        self.now = now
        clock.set(now)

    def pause(self, dt):
        """called in a thread of the code under test"""
        if self.free:
            real_sleep(0.0002)
            if self.abort:
                raise SystemExit()
            return
        lk = threading.Lock()
        lk.acquire()
        self.sleeping[threading.current_thread()] = [self.now + max(0, dt), lk]
        self.bell.release()
        lk.acquire()
        if self.abort:
            raise SystemExit()

    def settle(self, th):
        """waits until the thread sleeps or has ended"""
        end = time.monotonic() + PATIENCE
        while th not in self.sleeping and th.is_alive():
            self.bell.acquire(timeout=0.001)
            if time.monotonic() > end:
                raise Stuck("the thread neither waits nor ends")

    def tick(self, th, dt):
        """lets dt seconds pass"""
        end = self.now + dt
        self.settle(th)
        while th in self.sleeping and self.sleeping[th][0] <= end:
            w, lk = self.sleeping.pop(th)
            if w > self.now:
                self.set(w)
            lk.release()
            self.settle(th)
        if end > self.now:
            self.set(end)

    def finish(self, abort=False):
        """wakes everything, from now on nothing waits (or every thread ends when it would)"""
        self.free = True
        self.abort = abort
        for th in list(self.sleeping):
            self.sleeping.pop(th)[1].release()


engine = None


def _sleep(t):
    if threading.current_thread() is _main or engine is None or getattr(threading.current_thread(), "vf", False):
        return real_sleep(t)
    engine.pause(t)


def _cond_wait(self, timeout=None):
    if timeout is None or engine is None or threading.current_thread() is _main or getattr(threading.current_thread(), "vf", False):
        return _real_cond_wait(self, timeout)
    self.release()
    try:
        engine.pause(timeout)
    finally:
        self.acquire()
    return _real_cond_wait(self, 0)


def setup():
    """before horusdemodlib is imported"""
    global _ready, engine
    if _ready:
        return
    clock.setup()
    import requests
    requests.adapters.HTTPAdapter.send = _send
    socket.socket = Socket
    time.sleep = _sleep
    threading.Condition.wait = _cond_wait
    engine = Engine()
    for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"):
        os.environ.pop(k, None)
    os.environ["HOME"] = "/nonexistent"         # no .netrc
    import logging
    logging.getLogger().addHandler(logging.NullHandler())
    logging.getLogger().setLevel(logging.CRITICAL + 1)
    _ready = True


def refuse(request):
    import requests
    raise requests.exceptions.ConnectionError("no network here")


http["fn"] = refuse


class Injector:
    """runs given actions in another thread just before the n-th line that a thread executes inside the tree under test"""

    def __init__(self):
        self.plan = {}
        self.count = 0
        self.on = False

    def install(self):
        threading.settrace(self._call)

    @staticmethod
    def uninstall():
        threading.settrace(None)

    def _call(self, frame, event, arg):
        return self._line if frame.f_code.co_filename.startswith(build.REPO + os.sep) else None

    def _line(self, frame, event, arg):
        if event == "line" and self.on:
            self.count += 1
            act = self.plan.pop(self.count, None)
            if act is not None:
                t = threading.Thread(target=act)
                t.vf = True
                t.start()
                t.join(1.0)
        return self._line
