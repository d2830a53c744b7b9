"""Clients of the native drivers."""
import os, struct, subprocess, tempfile
from . import build
from .core import Violation, HarnessError, Hang

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=%(leaks)d:leak_check_at_exit=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:"
                    "allocator_may_return_null=0:max_malloc_fill_size=%(fillsize)d:malloc_fill_byte=%(fill)d:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "MSAN_OPTIONS": "exitcode=99:poison_in_malloc=1",
    "LSAN_OPTIONS": "exitcode=99:report_objects=0:max_leaks=5",
    "ASAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer-18",
    "MSAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer-18",
}


def san_env(leaks=0, fill=0xBE, fillsize=0x1000):
    e = dict(os.environ)
    for k, v in SAN_ENV.items():
        e[k] = v % {"leaks": leaks, "fill": fill, "fillsize": fillsize} if "%" in v else v
    return e


def death_message(what, rc, err):
    """Classifies the end of a sanitized process; returns (kind, text)."""
    i = err.find("ERROR: ")
    j = err.find("runtime error")
    cut = min([x for x in (i, j) if x >= 0], default=max(0, len(err) - 1500))
    cut = max(0, err.rfind("\n", 0, cut))
    err = err.split("Shadow bytes")[0]
    kind = "sanitizer" if ("Sanitizer" in err or "runtime error" in err) else "crash"
    return kind, "%s ended with status %s\n%s" % (what, rc, err[cut:cut + 2500])


class Driver:
    def __init__(self, path, env=None):
        self.path, self.env, self.p = path, env or san_env(), None

    def start(self):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=self.env, bufsize=0)

    def kill(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.err.close()
            self.p = None

    def _read(self, n):
        b = bytearray()
        while len(b) < n:
            c = self.p.stdout.read(n - len(b))
            if not c:
                raise EOFError
            b += c
        return bytes(b)

    def call(self, op, body=b""):
        if self.p is None:
            self.start()
        try:
            try:
                self.p.stdin.write(struct.pack("<IB", len(body) + 1, op))
                mv = memoryview(body)
                while mv:
                    mv = mv[self.p.stdin.write(mv):]
                n = struct.unpack("<I", self._read(4))[0]
                return self._read(n)
            except (EOFError, BrokenPipeError):
                rc = self.p.wait()
                self.err.seek(0)
                err = self.err.read().decode(errors="replace")
                self.kill()
                if "DRIVER:" in err:
                    raise HarnessError(err)
                if rc == -9:
                    raise HarnessError("driver was killed from outside")
                kind, msg = death_message(os.path.basename(self.path) + " op %d" % op, rc, err)
                raise Violation(msg, kind)
        except (Hang, KeyboardInterrupt):
            self.kill()
            raise

    def stderr(self):
        self.err.seek(0)
        return self.err.read().decode(errors="replace")


class Event:
    __slots__ = ("frame", "ret", "crc", "version", "bits", "terminated", "text")

    def __repr__(self):
        return "Event(frame=%d ret=%d crc=%d version=%d bits=%d text=%r)" % (self.frame, self.ret, self.crc, self.version, self.bits, self.text)


class BadNin(Violation):
    pass


def parse_events(b):
    ev, p = [], 0
    while True:
        t = b[p]
        p += 1
        if t == 0:
            return ev, b[p:]
        if t == 2:
            n, m = struct.unpack_from("<ii", b, p)
            raise Violation("demodulator asks for %d samples, more than its advertised maximum of %d bytes" % (n, m))
        if t == 3:
            raise Violation("demodulator asks for zero samples")
        e = Event()
        e.frame, e.ret, e.crc, e.version, e.bits, e.terminated, n = struct.unpack_from("<iiiiiii", b, p)
        p += 28
        e.text = b[p:p + n]
        p += n
        ev.append(e)


class Stats:
    pass


class Modem(Driver):
    """One cdrv process."""
    def __init__(self, variant="asan", **kw):
        super().__init__(build.cdrv(variant), san_env(**kw))

    def reset(self):
        if self.p is not None:
            self.call(12)

    def encode(self, payload):
        r = self.call(1, struct.pack("<i", len(payload)) + payload)
        m, ret = struct.unpack_from("<ii", r)
        return m, ret, r[8:8 + m], r[8 + m:]

    def decode(self, n, rx):
        return self.call(2, struct.pack("<ii", n, len(rx)) + rx)

    def num_tx(self, n):
        return struct.unpack("<i", self.call(3, struct.pack("<i", n)))[0]

    def crc16(self, b):
        return struct.unpack("<i", self.call(4, struct.pack("<i", len(b)) + b))[0]

    def golay_decode(self, words):
        r = self.call(5, struct.pack("<i%di" % len(words), len(words), *words))
        v = struct.unpack("<%di" % (2 * len(words)), r)
        return list(zip(v[::2], v[1::2]))

    def golay_encode(self, words):
        r = self.call(6, struct.pack("<i%di" % len(words), len(words), *words))
        return list(struct.unpack("<%di" % len(words), r))

    def golay_range(self, a, b):
        return struct.unpack("<ii", self.call(7, struct.pack("<ii", a, b)))

    def open(self, hid, mode, Rs=-1, spacing=-1, Fs=48000, P=0, quad=0):
        r = struct.unpack("<iiiiiii", self.call(10, struct.pack("<BiiiiiB", hid, mode, Rs, spacing, Fs, P, quad)))
        return dict(zip(("ok", "Fs", "mFSK", "nin", "max_demod_in", "max_ascii", "mode"), r))

    def close(self, hid):
        self.call(11, bytes([hid]))

    def push(self, hid, samples, every=0):
        """samples: bytes of int16"""
        r = self.call(13, struct.pack("<BBi", hid, every, len(samples) // 2) + samples)
        return parse_events(r)[0]

    def push_bits(self, hid, bits, every=0):
        r = self.call(14, struct.pack("<BBi", hid, every, len(bits)) + bytes(bits))
        ev, rest = parse_events(r)
        self.seam = struct.unpack("<I", rest)[0]
        return ev

    def stats(self, hid):
        r = self.call(15, bytes([hid]))
        v = struct.unpack("<ffif4fiififII", r)
        s = Stats()
        s.raw = r
        s.snr, s.snr2, s.sync, s.rx_timing = v[0:4]
        s.f_est = v[4:8]
        s.neyetr, s.neyesamp, s.clock_offset, s.Nc, s.foff, s.frames, s.consumed = v[8:]
        return s

    def all_stats(self, hid):
        r = self.call(22, bytes([hid]))
        v = struct.unpack_from("<5i9f", r)
        return v[:5], v[5:], struct.unpack("<%df" % ((len(r) - 56) // 4), r[56:])

    def limits(self, hid, lo, hi):
        self.call(16, struct.pack("<Bff", hid, lo, hi))

    def leak_check(self):
        return struct.unpack("<i", self.call(17))[0]

    def allocated(self):
        return struct.unpack("<Q", self.call(21))[0]

    def info(self, hid):
        return dict(zip(("nin", "max_demod_in", "Nbits", "crc", "version", "bits"), struct.unpack("<iiiiii", self.call(18, bytes([hid])))))

    def verbose(self, hid, v):
        self.call(19, bytes([hid, v]))

    def fsk_loop(self, Fs, Rs, M, P, f1, fs, cplx, mask, bits):
        r = self.call(20, struct.pack("<iiiiiiBBi", Fs, Rs, M, P, f1, fs, cplx, mask, len(bits)) + bytes(bits))
        n = struct.unpack_from("<i", r)[0]
        return r[4:4 + n]
