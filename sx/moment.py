"""datetime with a symbolic clock and zone.

A moment taken while a clock is set (ctx.clock) has symbolic date and time
fields (years 1970..2099); the local zone has a symbolic whole-minute offset.
Without a clock, now() gives fixed concrete moments."""
import datetime as _dt
import time as _time
import types

from . import core
from .core import SymInt, Unsupported, mkstr, scells, sym_not

MLEN = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
NAMES = ("January February March April May June July August September October November December").split()
DAYS = "Monday Tuesday Wednesday Thursday Friday Saturday Sunday".split()


def clock():
    return core.E.stub.get("clock")


def yes(x):
    return bool(x)


def isleap(y):
    """y in 1970..2099"""
    return yes(y % 4 == 0)


def monthlen(y, m):
    for i in range(1, 13):
        if i == 12 or yes(m == i):
            return MLEN[i - 1] + (1 if i == 2 and isleap(y) else 0)


def daynum(y, m, d):
    """days since 1970-01-01"""
    n = (y - 1970) * 365 + (y - 1969) // 4
    for i in range(1, 13):
        if i == 12 or yes(m == i):
            n = n + sum(MLEN[:i - 1])
            if i > 2 and isleap(y):
                n = n + 1
            break
    return n + (d - 1)


def dayof(y, m, d):
    """(a date, days after it) of a date, by the shifts that made it"""
    k = tuple(map(core.intbits, (y, m, d)))
    return core.E.stub.get("days", {}).get(k, (k, 0))


def fixrange(y):
    if isinstance(y, int) and not 1970 <= y <= 2099:
        raise Unsupported("year out of the modelled range")


class SymDelta:
    """difference in whole minutes (symbolic)"""

    def __init__(self, minutes):
        self.minutes = minutes

    def total_seconds(self):
        return self.minutes * 60

    @property
    def days(self):
        return (self.minutes + 1440 * 4) // 1440 - 4

    @property
    def seconds(self):
        return ((self.minutes + 1440 * 4) % 1440) * 60

    microseconds = 0

    def __neg__(self):
        return SymDelta(-self.minutes)

    def __eq__(self, o):
        if isinstance(o, SymDelta):
            return self.minutes == o.minutes
        if isinstance(o, _dt.timedelta):
            return self.minutes * 60 == int(o.total_seconds())
        return NotImplemented

    def __bool__(self):
        return yes(self.minutes != 0)

    def __floordiv__(self, o):
        if isinstance(o, _dt.timedelta):
            return _div(self.minutes * 60, int(o.total_seconds()))
        raise Unsupported("arithmetic on an offset")

    def __truediv__(self, o):
        raise Unsupported("arithmetic on an offset")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __lt__ = __gt__ = __le__ = __ge__ = __truediv__
    __hash__ = None


def _div(a, b):
    k = 86400 * 4 // b + 1
    return (a + k * b) // b - k


class Zone(_dt.tzinfo):
    """fixed offset of a symbolic number of minutes"""

    def __init__(self, minutes=0, name="XST"):
        self.minutes = minutes
        self.name = name

    def utcoffset(self, dt):
        return SymDelta(self.minutes)

    def dst(self, dt):
        return None

    def tzname(self, dt):
        return self.name

    def __eq__(self, o):
        if isinstance(o, Zone):
            return self.minutes == o.minutes
        if isinstance(o, _dt.timezone):
            return self.minutes == minutes_of(o)
        return NotImplemented
    __hash__ = None


def minutes_of(tz):
    """offset of a zone in minutes, None without zone"""
    if tz is None:
        return None
    if isinstance(tz, Zone):
        return tz.minutes
    d = tz.utcoffset(None)
    if d is None:
        raise Unsupported("time zone %r" % tz)
    if isinstance(d, SymDelta):
        return d.minutes
    s = int(d.total_seconds())
    if s % 60:
        raise Unsupported("offset with seconds")
    return s // 60


class ZoneType(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (Zone, _dt.timezone))


class FakeTimezone(metaclass=ZoneType):
    """datetime.timezone"""
    utc = _dt.timezone.utc
    min, max = _dt.timezone.min, _dt.timezone.max

    def __new__(cls, offset, name=None):
        if isinstance(offset, SymDelta):
            return Zone(offset.minutes, name or "UTC+XX:XX")
        return _dt.timezone(offset) if name is None else _dt.timezone(offset, name)


def fake_timedelta(*a, **k):
    vals = list(a) + list(k.values())
    if not any(isinstance(v, SymInt) for v in vals):
        return _dt.timedelta(*a, **k)
    names = ("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks")
    d = dict(zip(names, a))
    d.update(k)
    s = d.get("seconds", 0) + d.get("minutes", 0) * 60 + d.get("hours", 0) * 3600 + d.get("days", 0) * 86400
    if any(d.get(n) for n in ("microseconds", "milliseconds", "weeks")):
        raise Unsupported("timedelta of symbolic parts")
    m = _div(s, 60)
    if not yes(m * 60 == s):
        raise Unsupported("offset with seconds")
    return SymDelta(m)


class DeltaType(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_dt.timedelta, SymDelta))

    def __call__(cls, *a, **k):
        return fake_timedelta(*a, **k)


class FakeTimedelta(metaclass=DeltaType):
    min, max, resolution = _dt.timedelta.min, _dt.timedelta.max, _dt.timedelta.resolution


class FakeDatetime(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        c = clock()
        if c is not None:
            m = moment(*c, None)
            return m if tz is None else m.astimezone(tz)
        n = core.E.stub["now"] = core.E.stub.get("now", 0) + 1
        base = _dt.datetime(2024, 2, 29, 12, 30, 45, 123456, tzinfo=tz)
        return base + _dt.timedelta(microseconds=n)
    today = now

    @classmethod
    def utcnow(cls):
        m = cls.now()
        if clock() is None:
            return m
        return m.astimezone(_dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        if isinstance(t, Epoch):
            m = moment(*clock(), None)
            if t.whole:
                m = m.replace(microsecond=0)
            return m if tz is None else m.astimezone(tz)
        return _dt.datetime.fromtimestamp(t, tz)

    @classmethod
    def utcfromtimestamp(cls, t):
        return cls.fromtimestamp(t, _dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def strptime(cls, text, fmt):
        if isinstance(text, str) and type(text) is str:
            return _dt.datetime.strptime(text, fmt)
        return strptime(text, fmt)

    @classmethod
    def fromisoformat(cls, text):
        if isinstance(text, str) and type(text) is str:
            return _dt.datetime.fromisoformat(text)
        n = len(text)
        f = "%Y-%m-%d"
        if n > 10:
            f += chr(text.cells[10]) if text.cells[10] < core.CELL0 else "T"
            f += "%H:%M:%S" if n > 16 and text.cells[16] == 58 else "%H:%M"
            k = 19 if n > 16 and text.cells[16] == 58 else 16
            if n > k and text.cells[k] == 46:
                f += ".%f"
                k += 7
            if n > k:
                f += "%z"
        return strptime(text, f)


FIELDS = ("year", "month", "day", "hour", "minute", "second", "microsecond")


class SymMoment(FakeDatetime):
    def __new__(cls, *a):
        o = _dt.datetime.__new__(cls, 2000, 1, 1)
        return o

    def __init__(self, *a):
        self.__dict__["f"] = a

    year = property(lambda s: s.f[0])
    month = property(lambda s: s.f[1])
    day = property(lambda s: s.f[2])
    hour = property(lambda s: s.f[3])
    minute = property(lambda s: s.f[4])
    second = property(lambda s: s.f[5])
    microsecond = property(lambda s: s.f[6])
    tzinfo = property(lambda s: s.f[7])
    fold = 0

    def utcoffset(self):
        m = minutes_of(self.tzinfo)
        return None if m is None else m if self.tzinfo is None else self.tzinfo.utcoffset(None)

    def tzname(self):
        return None if self.tzinfo is None else self.tzinfo.tzname(None)

    def dst(self):
        return None

    def replace(self, *a, **k):
        f = list(self.f)
        for i, v in enumerate(a):
            f[i] = v
        k.pop("fold", None)
        for n, v in k.items():
            f[7 if n == "tzinfo" else FIELDS.index(n)] = v
        return moment(*f)

    def offset(self):
        m = minutes_of(self.tzinfo)
        return localzone() if m is None else m

    def astimezone(self, tz=None):
        if tz is None:
            z = Zone(localzone())
            if self.tzinfo is None:
                return moment(*self.f[:7], z)
            tz = z
        elif self.tzinfo is not None and tz is self.tzinfo:
            return self
        return self.shift(minutes_of(tz) - self.offset(), tz)

    def shift(self, minutes, tz):
        """another clock reading, that many minutes later"""
        y, mo, d, h, mi, s, us = self.f[:7]
        base, k = dayof(*self.f[:3])
        t = self.dayminute() + minutes
        while yes(t < 0):
            t = t + 1440
            k -= 1
            if yes(d == 1):
                if yes(mo == 1):
                    y, mo = y - 1, 12
                else:
                    mo = mo - 1
                d = monthlen(y, mo)
            else:
                d = d - 1
        while yes(t >= 1440):
            t = t - 1440
            k += 1
            n = monthlen(y, mo)
            if yes(d == n):
                d = 1
                if yes(mo == 12):
                    y, mo = y + 1, 1
                else:
                    mo = mo + 1
            else:
                d = d + 1
        if isinstance(t, SymInt):
            t = core.mkint(t.bits[:11])
        if any(isinstance(x, SymInt) for x in (y, mo, d)):
            core.E.stub.setdefault("days", {}).setdefault(tuple(map(core.intbits, (y, mo, d))), (base, k))
        h, mi = t // 60, t % 60
        if isinstance(t, SymInt):
            core.E.stub.setdefault("minutes", {})[(core.intbits(h), core.intbits(mi))] = t
        return moment(y, mo, d, h, mi, s, us, tz)

    def __add__(self, o):
        if isinstance(o, SymDelta):
            return self.shift(o.minutes, self.tzinfo)
        if isinstance(o, _dt.timedelta) and int(o.total_seconds()) % 60 == 0 and not o.microseconds and abs(o.days) < 4:
            return self.shift(int(o.total_seconds()) // 60, self.tzinfo)
        raise Unsupported("arithmetic on moments")
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (SymDelta, _dt.timedelta)):
            return self + -o
        raise Unsupported("arithmetic on moments")

    def strftime(self, format):
        return strftime(self, format)
    __format__ = lambda s, spec: s.strftime(spec) if spec else s.isoformat(" ")

    def isoformat(self, sep="T", timespec="auto"):
        f = "%Y-%m-%d" + sep.replace("%", "%%")
        if timespec == "auto":
            timespec = "microseconds" if yes(self.microsecond != 0) else "seconds"
        f += {"hours": "%H", "minutes": "%H:%M", "seconds": "%H:%M:%S", "microseconds": "%H:%M:%S.%f"}[timespec]
        r = self.strftime(f)
        if self.tzinfo is not None:
            r = r + self.strftime("%:z")
        return r

    def __str__(self):
        raise Unsupported("text of a moment")
    __repr__ = lambda s: "SymMoment"

    def total(self):
        """seconds since the epoch"""
        return (daynum(*self.f[:3]) * 1440 + self.dayminute() - self.offset()) * 60 + self.second

    def dayminute(self):
        """hour * 60 + minute, without the division that made them where it is known"""
        k = (core.intbits(self.hour), core.intbits(self.minute))
        t = core.E.stub.get("minutes", {}).get(k)
        return self.hour * 60 + self.minute if t is None else t

    def timestamp(self):
        raise Unsupported("timestamp of a moment")

    def __eq__(self, o):
        if not isinstance(o, _dt.datetime):
            return False
        if (self.tzinfo is None) != (o.tzinfo is None):
            return False
        if not isinstance(o, SymMoment):
            o = lift(o)
        return bool(self.total() == o.total()) and bool(self.microsecond == o.microsecond)

    def __ne__(self, o):
        return not self == o
    __hash__ = None

    def _no(self, *a, **k):
        raise Unsupported("operation on moments")
    __lt__ = __gt__ = __le__ = __ge__ = timetuple = utctimetuple = toordinal = weekday = isoweekday = _no
    isocalendar = date = time = timetz = ctime = __reduce_ex__ = __reduce__ = _no

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def moment(*f):
    fixrange(f[0])
    return SymMoment(*f)


def lift(o):
    if isinstance(o, SymMoment):
        return o
    return moment(o.year, o.month, o.day, o.hour, o.minute, o.second, o.microsecond, o.tzinfo)


def localzone():
    z = core.E.stub.get("zone")
    if z is None:
        raise Unsupported("local zone without clock")
    return z[0]


def same(a, b):
    """the same second: condition"""
    a, b = lift(a), lift(b)
    eq = [x == y for x, y in zip(a.f[:6], b.f[:6])] + [a.offset() == b.offset()]
    if all(e is True for e in eq):
        return True
    if yes(core.mkbool(core.c_and([core.cond(e) for e in eq]))):
        return True
    (ab, ak), (bb, bk) = dayof(*a.f[:3]), dayof(*b.f[:3])
    x, y = a.dayminute() - a.offset(), b.dayminute() - b.offset()
    if ab == bb:
        x = x + 1440 * (ak - bk)
    else:
        x, y = daynum(*a.f[:3]) * 1440 + x, daynum(*b.f[:3]) * 1440 + y
    return core.mkbool(core.c_and([core.cond(x == y), core.cond(a.second == b.second)]))


# ---------------------------------------------------------------- text
def digits(x, n, pad="0"):
    if not isinstance(x, SymInt):
        t = str(x).rjust(n, pad)
        return tuple(map(ord, t))
    out = []
    p = 10 ** (n - 1)
    for i in range(n):
        v = x // p % 10 if i else x // p
        out.append(core.byte_cell(core.mkint(core.intbits(v)[0][:4]) + 48))
        p //= 10
    out = tuple(out)
    memo = core.E.stub.setdefault("digits", {})
    memo[out] = x
    return out


def zonetext(z, colon=False, always=False):
    m = minutes_of(z)
    if m is None:
        return ()
    neg = yes(m < 0)
    if neg:
        m = -m
    if isinstance(m, SymInt):
        m = core.mkint(core.intbits(m)[0][:11])
    h = digits(m // 60, 2)
    return (45 if neg else 43,) + h + ((58,) if colon else ()) + digits(m % 60, 2)


def strftime(t, fmt):
    out = ()
    i = 0
    while i < len(fmt):
        c = fmt[i]
        i += 1
        if c != "%":
            out += (ord(c),)
            continue
        c = fmt[i:i + 1]
        i += 1
        if c in "-_0:" and c:
            mod, c = c, fmt[i:i + 1]
            i += 1
        else:
            mod = ""
        num = {"m": (t.month, 2), "d": (t.day, 2), "e": (t.day, 2), "H": (t.hour, 2), "k": (t.hour, 2), "M": (t.minute, 2), "S": (t.second, 2)}
        if c in num and c:
            v, n = num[c]
            pad = "0"
            if c in "ek" and not mod:
                mod = "_"
            if mod in ("-", "_"):
                if yes(v < 10):
                    out += digits(v if not isinstance(v, SymInt) else core.mkint(v.bits[:4]), 1) if mod == "-" else (32,) + digits(
                        v if not isinstance(v, SymInt) else core.mkint(v.bits[:4]), 1)
                    continue
            out += digits(v, n, pad)
        elif c in "Il" and c:
            h = t.hour
            h = 12 if yes(h == 0) else h if yes(h <= 12) else h - 12
            if isinstance(h, SymInt):
                h = core.mkint(h.bits[:4])
            out += digits(h, 2)
        elif c == "p":
            out += tuple(map(ord, "AM" if yes(t.hour < 12) else "PM"))
        elif c == "Y":
            out += digits(t.year, 4)
        elif c == "y":
            out += digits(t.year % 100, 2)
        elif c == "C":
            out += digits(t.year // 100, 2)
        elif c == "f":
            out += digits(t.microsecond, 6)
        elif c == "z":
            out += zonetext(t.tzinfo, mod == ":")
        elif c == "Z":
            n = t.tzname()
            out += tuple(map(ord, n or ""))
        elif c in "bBh" and c:
            for k in range(1, 13):
                if k == 12 or yes(t.month == k):
                    out += tuple(map(ord, NAMES[k - 1] if c == "B" else NAMES[k - 1][:3]))
                    break
        elif c == "j":
            n = 1
            for k in range(1, 13):
                if k == 12 or yes(t.month == k):
                    n = sum(MLEN[:k - 1]) + (1 if k > 2 and isleap(t.year) else 0)
                    break
            n = t.day + n
            out += digits(core.mkint(n.bits[:9]) if isinstance(n, SymInt) else n, 3)
        elif c in "aA" and c:
            w = (daynum(*t.f[:3]) + 3) % 7
            w = w.__index__()
            out += tuple(map(ord, DAYS[w] if c == "A" else DAYS[w][:3]))
        elif c == "T":
            out += strftime(t, "%H:%M:%S") if False else scells(strftime(t, "%H:%M:%S"))
        elif c == "F":
            out += scells(strftime(t, "%Y-%m-%d"))
        elif c == "D" or c == "x":
            out += scells(strftime(t, "%m/%d/%y"))
        elif c == "X":
            out += scells(strftime(t, "%H:%M:%S"))
        elif c == "R":
            out += scells(strftime(t, "%H:%M"))
        elif c == "%":
            out += (37,)
        elif c == "n":
            out += (10,)
        elif c == "t":
            out += (9,)
        else:
            raise Unsupported("strftime %" + c)
    return mkstr(out)


def isdigit(c):
    if c < core.CELL0:
        return 48 <= c <= 57
    if core.E.stub.get("digitcells") is not None and c in core.E.stub["digitcells"]:
        return True
    v = core.cellint(c)
    return yes(v >= 48) and yes(v <= 57)


def number(cells):
    memo = core.E.stub.get("digits", {})
    if cells in memo:
        return memo[cells]
    n = 0
    for c in cells:
        n = n * 10 + (core.cellint(c) - 48)
    if isinstance(n, SymInt):
        n = core.mkint(core.intbits(n)[0][:4 * len(cells)])
    return n


def strptime(text, fmt):
    def bad():
        raise ValueError("time data does not match format %r" % fmt)
    cells = scells(text)
    if cells is None:
        raise TypeError("strptime() argument 1 must be str")
    v = {}
    i = 0

    def take(lo, hi, top, low=0):
        nonlocal i
        n = 0
        while n < hi and i + n < len(cells) and isdigit(cells[i + n]):
            n += 1
        while n >= lo:
            x = number(cells[i:i + n])
            if (isinstance(x, int) and low <= x <= top) or (not isinstance(x, int) and yes(x <= top) and yes(x >= low)):
                i += n
                return x
            n -= 1
        bad()

    k = 0
    fmt = fmt.replace("%T", "%H:%M:%S").replace("%R", "%H:%M").replace("%F", "%Y-%m-%d").replace(
        "%D", "%m/%d/%y").replace("%x", "%m/%d/%y").replace("%X", "%H:%M:%S")
    while k < len(fmt):
        c = fmt[k]
        k += 1
        if c.isspace():
            n = i
            while i < len(cells) and cells[i] in (32, 9, 10, 11, 12, 13):
                i += 1
            if n == i:
                bad()
            while k < len(fmt) and fmt[k].isspace():
                k += 1
            continue
        if c != "%":
            if i >= len(cells):
                bad()
            a, b = cells[i], ord(c)
            ok = a == b if a < core.CELL0 else yes(core.cellint(a) == b)
            if not ok and c.isalpha() and a < core.CELL0:
                ok = chr(a).lower() == c.lower()
            if not ok:
                bad()
            i += 1
            continue
        c = fmt[k:k + 1]
        k += 1
        if c == "Y":
            v["Y"] = take(4, 4, 9999)
        elif c == "m":
            v["m"] = take(1, 2, 12, 1)
        elif c == "d":
            v["d"] = take(1, 2, 31, 1)
        elif c == "H":
            v["H"] = take(1, 2, 23)
        elif c == "I":
            v["I"] = take(1, 2, 12, 1)
        elif c == "M":
            v["M"] = take(1, 2, 59)
        elif c == "S":
            v["S"] = take(1, 2, 61)
        elif c == "f":
            n = i
            x = take(1, 6, 999999)
            v["f"] = x * 10 ** (6 - (i - n))
        elif c == "y":
            y = take(2, 2, 99)
            v["Y"] = y + (2000 if yes(y <= 68) else 1900)
        elif c == "j":
            raise Unsupported("strptime %j")
        elif c == "p":
            t = "".join(chr(x) for x in cells[i:i + 2] if x < core.CELL0).lower()
            if t not in ("am", "pm"):
                bad()
            v["p"] = t
            i += 2
        elif c in "bBaA" and c:
            names = NAMES if c in "bB" else DAYS
            for n, name in enumerate(names):
                w = name if c in "BA" else name[:3]
                t = cells[i:i + len(w)]
                if all(x < core.CELL0 for x in t) and "".join(map(chr, t)).lower() == w.lower():
                    i += len(w)
                    if c in "bB":
                        v["m"] = n + 1
                    break
            else:
                bad()
        elif c == "z":
            if i < len(cells) and cells[i] in (90, 122):
                v["z"] = 0
                i += 1
                continue
            if i >= len(cells) or cells[i] not in (43, 45):
                bad()
            neg = cells[i] == 45
            i += 1
            h = take(2, 2, 99)
            if i < len(cells) and cells[i] == 58:
                i += 1
            m = take(2, 2, 59)
            if i < len(cells) and (cells[i] == 58 or (cells[i] >= 48 and cells[i] < 58)):
                raise Unsupported("offset with seconds")
            x = h * 60 + m
            v["z"] = -x if neg else x
        elif c == "Z":
            for name in ("xst", "xdt", "utc", "gmt"):
                t = cells[i:i + len(name)]
                if all(x < core.CELL0 for x in t) and "".join(map(chr, t)).lower() == name:
                    i += len(name)
                    break
            else:
                bad()
        elif c == "%":
            if i >= len(cells) or cells[i] != 37:
                bad()
            i += 1
        else:
            raise Unsupported("strptime %" + c)
    if i != len(cells):
        raise ValueError("unconverted data remains")
    h = v.get("H", 0)
    if "I" in v:
        h = v["I"]
        if v.get("p") == "pm":
            h = 12 if yes(h == 12) else h + 12
        elif v.get("p") is not None or True:
            h = 0 if yes(h == 12) else h
    s = v.get("S", 0)
    if yes(s > 59):
        bad()
    if "Y" not in v:
        raise Unsupported("strptime without year")
    y, mo, d = v["Y"], v.get("m", 1), v.get("d", 1)
    if yes(y < 1970) or yes(y > 2099):
        raise Unsupported("year out of the modelled range")
    if yes(d > 28) and yes(d > monthlen(y, mo)):
        bad()
    z = None
    if "z" in v:
        z = v["z"]
        if not isinstance(z, SymInt):
            z = _dt.timezone(_dt.timedelta(minutes=z))
        else:
            if yes(z >= 1440) or yes(z <= -1440):
                bad()
            z = Zone(z, "UTC+XX:XX")
    return moment(y, mo, d, h, v.get("M", 0), s, v.get("f", 0), z)


# ---------------------------------------------------------------- time module
class Epoch(float):
    """time.time() under a symbolic clock"""
    whole = False

    def _no(self, *a, **k):
        raise Unsupported("arithmetic on the time")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __floordiv__ = _no
    __mod__ = __divmod__ = __eq__ = __lt__ = __gt__ = __le__ = __ge__ = __str__ = __repr__ = __format__ = __float__ = _no

    def __int__(self):
        e = Epoch(1)
        e.whole = True
        return e
    __trunc__ = __floor__ = __round__ = __int__
    __hash__ = None


class Struct:
    """time.struct_time"""

    def __init__(self, m, isdst):
        self.m = m
        self.tm_isdst = isdst
        self.tm_year, self.tm_mon, self.tm_mday, self.tm_hour, self.tm_min, self.tm_sec = m.f[:6]

    @property
    def tm_gmtoff(self):
        return self.m.offset() * 60

    @property
    def tm_zone(self):
        return self.m.tzname()

    def __iter__(self):
        return iter(self.m.f[:6] + (0, 0, self.tm_isdst))

    def __getitem__(self, i):
        return (self.m.f[:6] + (0, 0, self.tm_isdst))[i]


def make_time(tick):
    def need(t):
        if clock() is None:
            raise Unsupported("calendar time without clock")
        if t is not None and not isinstance(t, Epoch):
            raise Unsupported("calendar time of a number")

    def localtime(t=None):
        need(t)
        return Struct(moment(*clock(), Zone(localzone())), core.E.stub["zone"][1])

    def gmtime(t=None):
        need(t)
        return Struct(moment(*clock(), None).astimezone(_dt.timezone.utc), 0)

    def strft(fmt, t=None):
        t = localtime() if t is None else t
        if not isinstance(t, Struct):
            raise Unsupported("calendar time")
        return t.m.strftime(fmt)

    def now():
        if clock() is not None:
            return Epoch(1)
        if core.E.stub.get("frozen"):
            return 1709209845.0
        return 1709209845.0 + tick()
    m = types.ModuleType("time")
    m.time, m.localtime, m.gmtime, m.strftime = now, localtime, gmtime, strft
    m.time_ns = lambda: 10 ** 9 * (1709209845 + (0 if core.E.stub.get("frozen") else tick()))
    m.monotonic = m.perf_counter = m.process_time = lambda: 7.0 if core.E.stub.get("frozen") else float(tick())
    m.sleep = lambda x: None
    m.struct_time = _time.struct_time

    def lazy(n):
        z = core.E.stub.get("zone")
        if n in ("timezone", "altzone", "daylight", "tzname"):
            if z is None:
                raise Unsupported("local zone without clock")
            std = z[0] - 60 if z[1] else z[0]
            return {"timezone": -(std * 60), "altzone": -(z[0] * 60), "daylight": z[1], "tzname": ("XST", "XDT")}[n]
        raise AttributeError(n)
    m.__getattr__ = lazy
    return m


def make_datetime():
    m = types.ModuleType("datetime")
    m.__dict__.update({k: v for k, v in vars(_dt).items() if not k.startswith("__")})
    m.datetime, m.timedelta, m.timezone = FakeDatetime, FakeTimedelta, FakeTimezone
    return m
