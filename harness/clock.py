"""Timestamps (C35).  The package is imported after the clock is set."""


def stamp(ctx, lo, hi, dst=False, form="str", travel=None, rezone=None):
    t = ctx.clock(lo, hi, dst)
    from pymt.utils.utils import Utils
    one(ctx, Utils, t, form, travel)
    if rezone is not None:
        # the local time changes while the process runs (summer time, say)
        t = ctx.rezone(*rezone)
        one(ctx, Utils, t, form, None)


def one(ctx, Utils, t, form, travel):
    if form == "str":
        s, x = ctx.call(Utils.get_timestamp_string)
        ctx.check(x is None, "no timestamp text")
    else:
        s, x = ctx.call(Utils.get_timestamp)
        ctx.check(x is None, "no timestamp")
        ctx.check(isinstance(s, bytes), "the timestamp is not bytes")
        s, x = ctx.call(s.decode)
        ctx.check(x is None, "the timestamp is not text")
    ctx.check(isinstance(s, str), "the timestamp is not text")
    if travel is not None:
        # it is read where the local time is another one
        ctx.travel(*travel)
    r, x = ctx.call(Utils.from_timstamp_string, s)
    ctx.check(x is None, "a timestamp cannot be read back")
    ctx.check(r.tzinfo is not None, "the moment read back has no time zone")
    ctx.check(ctx.same_second(r, t), "another moment is read back")
    ctx.cover("read")
    ctx.observe("text", s)

