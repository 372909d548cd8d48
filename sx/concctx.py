"""Runs a harness on the untouched package with concrete inputs."""
import importlib
import os
import sys
import tempfile

REPO_SRC = os.environ.get("SX_REPO_SRC", "/repo/src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class ConcViolation(BaseException):
    def __init__(self, msg):
        BaseException.__init__(self, msg)
        self.msg = msg


class Stop(BaseException):
    pass


class ConcCtx:
    symbolic = False

    def __init__(self, inputs):
        self.i = inputs
        self.observed = []
        self._tmp = None
        self.covered = set()

    def bytes(self, name, n):
        v = bytes.fromhex(self.i.get(name, ""))
        return (v + bytes(n))[:n]

    def nibs(self, name, spec):
        from .nibval import DEFAULT
        v = list(self.i.get(name, []))
        return [v[k] if k < len(v) else (s if isinstance(s, int) else DEFAULT[s])
                for k, s in enumerate(spec)]

    def key(self, name, spec):
        return self.pack(self.nibs(name, spec))

    @staticmethod
    def pack(n):
        return bytes(n[i] * 16 + n[i + 1] for i in range(0, len(n), 2))

    def int(self, name, lo, hi):
        return min(max(self.i.get(name, lo), lo), hi)

    def choice(self, name, seq):
        seq = list(seq)
        if len(seq) == 1:
            return seq[0]
        return seq[self.int(name, 0, len(seq) - 1)]

    def flag(self, name):
        return self.choice(name, [False, True])

    def text(self, name, n, lo=0, hi=0x10FFFF):
        v = self.i.get(name, "")
        return (v + chr(max(lo, 97)) * n)[:n]

    def seckey(self, name, alg="keccak256", depth=1, nibs=(), n=4, fixed=None):
        return self.bytes(name, n) if fixed is None else fixed

    def assume(self, x):
        if not x:
            raise Stop()

    def check(self, x, msg):
        if not x:
            raise ConcViolation(msg)

    def fail(self, msg):
        raise ConcViolation(msg)

    def all(self, xs):
        return all(xs)

    def any(self, xs):
        return any(xs)

    def no(self, x):
        return not x

    def distinct(self, xs):
        xs = list(xs)
        for i in range(len(xs)):
            for j in range(i):
                self.assume(xs[i] != xs[j])

    def stop(self):
        raise Stop()

    def call(self, f, *a, **k):
        try:
            return f(*a, **k), None
        except Exception as e:
            return None, e

    def cover(self, tag):
        self.covered.add(tag)

    def observe(self, label, v):
        self.observed.append((label, norm(v)))

    def mutable(self, x):
        return bytearray(x)

    def cat(self, *parts):
        return b"".join(bytes(p) for p in parts)

    def setbyte(self, x, i, v):
        c = bytearray(x)
        c[i] = v
        return bytes(c)

    def xor(self, x, name):
        d = self.bytes(name, len(x))
        self.assume(any(d))
        return bytes(a ^ b for a, b in zip(x, d))

    def within(self, part, text):
        return part in text

    def fields(self, doc):
        return list(doc)

    def readings(self, v):
        out = []
        if isinstance(v, str):
            for f in (str.encode, bytes.fromhex):
                try:
                    out.append(f(v))
                except ValueError:
                    pass
        return out

    def parser(self):
        pass

    def ismutable(self, x):
        return isinstance(x, bytearray)

    def clock(self, lo, hi, dst=False):
        import calendar
        import datetime
        import time
        real = datetime.datetime
        y, mo, d = self.int("year", 1971, 2098), self.int("month", 1, 12), self.int("day", 1, 31)
        h, mi, s = self.int("hour", 0, 23), self.int("minute", 0, 59), self.int("second", 0, 59)
        us, off = self.int("microsecond", 0, 999999), self.int("offset", lo, hi)
        if d > calendar.monthrange(y, mo)[1]:
            raise Stop()

        def tz(name, off):
            m = abs(off)
            return "%s%s%d:%02d" % (name, "-" if off >= 0 else "+", m // 60, m % 60)
        if dst:
            env = tz("XST", off - 60) + tz("XDT", off) + ",0/0,J365/25"
        else:
            env = tz("XST", off)
        zone = datetime.timezone(datetime.timedelta(minutes=off))
        at = real(y, mo, d, h, mi, s, us, zone)
        cell = self.clockcell = [at, calendar.timegm(at.utctimetuple())]

        class Fixed(real):
            @classmethod
            def now(cls, tz=None):
                if tz is None:
                    return cls(y, mo, d, h, mi, s, us)
                t = cell[0].astimezone(tz)
                return cls(t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond, tz)
            today = now

            @classmethod
            def utcnow(cls):
                return cls.now(datetime.timezone.utc).replace(tzinfo=None)
        saved = [(datetime, "datetime", real)]
        datetime.datetime = Fixed
        lt, gt, sf = time.localtime, time.gmtime, time.strftime
        for n, f in (("time", lambda: cell[1] + us / 1e6), ("time_ns", lambda: cell[1] * 10 ** 9 + us * 1000),
                     ("localtime", lambda t=None: lt(cell[1] if t is None else t)),
                     ("gmtime", lambda t=None: gt(cell[1] if t is None else t)),
                     ("strftime", lambda f, t=None: sf(f, lt(cell[1]) if t is None else t))):
            saved.append((time, n, getattr(time, n)))
            setattr(time, n, f)
        std = off - 60 if dst else off
        zones = (("timezone", -std * 60), ("altzone", -off * 60), ("daylight", int(dst)), ("tzname", ("XST", "XDT")))
        for n, v in zones:
            saved.append((time, n, getattr(time, n)))
        old = os.environ.get("TZ")
        os.environ["TZ"] = env
        time.tzset()
        for n, v in zones:
            setattr(time, n, v)
        for n in [n for n in sys.modules if n.split(".")[0] == "pymt"]:
            del sys.modules[n]

        def undo():
            for m, n, v in saved:
                setattr(m, n, v)
            if old is None:
                del os.environ["TZ"]
            else:
                os.environ["TZ"] = old
            time.tzset()
        self.undo = undo
        return at

    def freeze(self):
        import time
        saved = [(n, getattr(time, n)) for n in ("time", "time_ns", "monotonic", "perf_counter", "process_time")]
        for n, f in saved:
            setattr(time, n, (lambda: 1709209845 * 10 ** 9) if n == "time_ns" else
                    (lambda: 1709209845.0) if n == "time" else (lambda: 7.0))
        def undo():
            for n, f in saved:
                setattr(time, n, f)
        self.undo = undo

    def rezone(self, lo, hi):
        import calendar
        import datetime
        import time
        off = self.int("offset3", lo, hi)
        m = abs(off)
        os.environ["TZ"] = "ZST%s%d:%02d" % ("-" if off >= 0 else "+", m // 60, m % 60)
        time.tzset()
        at = self.clockcell[0].replace(tzinfo=datetime.timezone(datetime.timedelta(minutes=off)))
        self.clockcell[:] = [at, calendar.timegm(at.utctimetuple())]
        for n, v in (("timezone", -off * 60), ("altzone", -off * 60), ("daylight", 0), ("tzname", ("ZST", "ZST"))):
            setattr(time, n, v)
        return at

    def travel(self, lo, hi):
        import time
        off = self.int("offset2", lo, hi)
        m = abs(off)
        os.environ["TZ"] = "YST%s%d:%02d" % ("-" if off >= 0 else "+", m // 60, m % 60)
        time.tzset()

    def same_second(self, a, b):
        return a.astimezone().replace(microsecond=0) == b.astimezone().replace(microsecond=0)

    def tmpdir(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="sxreplay")
        return self._tmp

    undo = None

    def cleanup(self):
        if self.undo:
            self.undo()
        if self._tmp:
            import shutil
            shutil.rmtree(self._tmp, ignore_errors=True)

    pool = None         # key pairs used again by repeated runs
    nkeys = 0

    def keypair(self, cls, *a, **k):
        kp = cls(*a, _generate_keys=False, **k)
        if self.pool is not None:
            self.nkeys += 1
            if self.nkeys <= len(self.pool):
                kp._key_pair = self.pool[self.nkeys - 1]
                return kp
        kp.generate_keypair(1024)
        if self.pool is not None:
            self.pool.append(kp._key_pair)
        return kp


def norm(v):
    if isinstance(v, (bytes, bytearray)):
        return ["b", bytes(v).hex()]
    if isinstance(v, str):
        return ["s", v]
    if isinstance(v, bool) or v is None or isinstance(v, int):
        return v
    if isinstance(v, BaseException):
        return ["exc"]
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return ["d"] + [[norm(k), norm(x)] for k, x in v.items()]
    if isinstance(v, type):
        return ["t", v.__name__]
    return ["o", type(v).__name__]


def fresh_modules():
    for n in [n for n in sys.modules if n.split(".")[0] in ("pymt", "harness")]:
        del sys.modules[n]


def run(job):
    """one job, or, for a job with "attempts", runs until one violates: what the
    cryptography computes from random numbers differs from run to run, and other
    data are used (inputs named data*)"""
    n = job.get("attempts", 1)
    if n == 1:
        return run_once(job)
    import random
    import time
    end = time.time() + ATTEMPTS_S
    pool = []
    first = None
    for i in range(n):
        j = dict(job, inputs=dict(job["inputs"]))
        if i:
            rnd = random.Random(i)
            for k, v in j["inputs"].items():
                if k.startswith("data") and isinstance(v, str):
                    j["inputs"][k] = bytes(rnd.randrange(256) for _ in range(len(v) // 2)).hex()
        r = run_once(j, pool)
        first = first or r
        if r["violation"] and not r["stopped"]:
            return dict(r, inputs=j["inputs"])
        if time.time() > end:
            break
    return first


ATTEMPTS_S = 15


def run_once(job, pool=None):
    """job: harness (module name), func, params, inputs -> result dict"""
    import io
    import contextlib
    fresh_modules()
    ctx = ConcCtx(job["inputs"])
    ctx.pool = pool
    res = {"violation": None, "stopped": False}
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            m = importlib.import_module("harness." + job["harness"])
            getattr(m, job["func"])(ctx, **job["params"])
    except ConcViolation as e:
        res["violation"] = e.msg
    except Stop:
        res["stopped"] = True
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        last = [f for f in tb if REPO_SRC in f.filename]
        where = last[-1] if last else tb[-1]
        res["violation"] = "unexpected %s: %s (%s:%s)" % (
            type(e).__name__, str(e)[:200], os.path.basename(where.filename), where.name)
        res["trace"] = traceback.format_exc()[-3000:]
    finally:
        ctx.cleanup()
    res["observed"] = ctx.observed
    return res


def setup_path():
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO_SRC)
