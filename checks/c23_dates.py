"""C23: serial date / ISO / datetime64 / file time conversions."""
import datetime as D
import itertools
import os
import time

import numpy as np

from mc.core import Part, Skip, product
from mc.sig import *

PROPERTY = "C23"
ASSUMPTIONS = [
    "years 1000-9998; times to the microsecond; a serial date (double) resolves 2 microseconds "
    "in this range of years near 2000 and 50 microseconds at the ends",
    "local times repeated or skipped at a change to or from daylight saving time are ambiguous "
    "and not enumerated",
    "dates before 1970 and after 2037 have today's offsets of the local zone"]
EPOCH = D.datetime(1899, 12, 30, tzinfo=D.timezone.utc)
ZONES = ["UTC", "Europe/Paris", "America/New_York", "Asia/Kolkata", "Australia/Sydney"]


def M():
    from rsciio.utils import _date_time

    return _date_time


def dates(th):
    years = [1000, 1582, 1600, 1899, 1900, 1904, 1970, 1999, 2000, 2016, 2024, 2025, 2038, 2100, 2124, 9998]
    out = []
    for y in years:
        for m in range(1, 13):
            last = (D.date(y + (m == 12), m % 12 + 1, 1) - D.timedelta(1)).day
            days = {1, 2, 15, 28, last} if not th else set(range(1, last + 1))
            out += [D.date(y, m, d) for d in sorted(days)]
    out += [D.date(1899, 12, 29), D.date(1899, 12, 30), D.date(1899, 12, 31), D.date(1900, 1, 1)]
    return out


TIMES = [D.time(0, 0, 0), D.time(0, 0, 1), D.time(4, 30, 59), D.time(11, 59, 59, 999999), D.time(12, 0, 0),
         D.time(12, 0, 0, 1), D.time(23, 59, 59), D.time(23, 59, 59, 999000), D.time(23, 59, 59, 999999), D.time(18, 7, 3, 250000)]


def set_tz(name):
    os.environ["TZ"] = name
    time.tzset()


def exact_serial(dt):
    d = dt - EPOCH
    return d.days + (d.seconds * 10**6 + d.microseconds) / 86400e6


def tol(dt):
    return D.timedelta(microseconds=2 if 1800 < dt.year < 2200 else 60)


def f_serial(t, c):
    m = M()
    for tm in c["times"]:
        dt = D.datetime.combine(c["date"], tm)
        aware = dt.replace(tzinfo=D.timezone.utc)
        t.op("datetime_to_serial_date", 2)
        s1, s2 = m.datetime_to_serial_date(dt), m.datetime_to_serial_date(aware)
        t.state(s1)
        t.check(s1 == s2, "naive datetime is not taken as UTC")
        t.check(abs(s1 - exact_serial(aware)) < 1e-8, lambda: "%s: serial %r expected %r" % (dt, s1, exact_serial(aware)))
        t.op("serial_date_to_datetime")
        back = m.serial_date_to_datetime(s1)
        t.check(back.utcoffset() == D.timedelta(0), "not UTC")
        t.check(abs(back - aware) <= tol(dt), lambda: "%s -> %r -> %s" % (dt, s1, back))
        for off in (-12, -5, 5.5, 14):
            z = D.timezone(D.timedelta(hours=off))
            try:
                loc = aware.astimezone(z)
            except OverflowError:
                continue
            t.op("datetime_to_serial_date")
            t.check(abs(m.datetime_to_serial_date(loc) - s1) < 1e-9, lambda: "offset %s: serial differs" % off)


def f_iso(t, c):
    """serial -> ISO (local zone) -> serial and ISO -> serial -> ISO, for each local zone."""
    m = M()
    set_tz(c["tz"])
    from dateutil import tz

    for tm in c["times"]:
        aware = D.datetime.combine(c["date"], tm, D.timezone.utc)
        serial = m.datetime_to_serial_date(aware)
        t.op("serial_date_to_ISO_format")
        d, ti, zone = m.serial_date_to_ISO_format(serial)
        t.state(d, ti, zone)
        # outside 1970-2037 the local zone has the current offsets only (documented in dateutil)
        local = aware.astimezone(tz.gettz(c["tz"]) if 1970 <= c["date"].year < 2038 else tz.tzlocal())
        got = D.datetime.fromisoformat(d + "T" + ti)
        t.check(abs(got - local.replace(tzinfo=None)) <= tol(aware), lambda: "%s in %s: %s %s" % (aware, c["tz"], d, ti))
        t.check(zone == local.tzname(), lambda: "zone %s expected %s" % (zone, local.tzname()))
        if not tz.resolve_imaginary(local) == local or tz.datetime_ambiguous(local):
            continue
        t.op("ISO_format_to_serial_date")
        back = m.ISO_format_to_serial_date(d, ti, timezone=zone)
        t.check(abs(back - serial) * 86400 < 1e-3, lambda: "%s in %s: serial %r, through %s %s %s: %r" % (
            aware, c["tz"], serial, d, ti, zone, back))


OFFS = [("+00:00", 0), ("+01:00", 1), ("-05:00", -5), ("+05:30", 5.5), ("-03:30", -3.5), ("+14:00", 14), ("-12:00", -12)]


def f_named(t, c):
    """ISO date and time in a named or numeric zone."""
    m = M()
    set_tz(c["tz"])
    from dateutil import tz

    for tm in c["times"]:
        naive = D.datetime.combine(c["date"], tm)
        ds, ts = naive.date().isoformat(), naive.time().isoformat()
        cases = [(None, D.timezone.utc), ("UTC", D.timezone.utc), ("Coordinated Universal Time", D.timezone.utc)]
        cases += [(n, tz.gettz(n)) for n in ("Europe/Paris", "America/New_York", "Asia/Kolkata", "GMT")]
        cases += [(o, D.timezone(D.timedelta(hours=h))) for o, h in OFFS]
        for name, z in cases:
            aware = naive.replace(tzinfo=z)
            if tz.resolve_imaginary(naive.replace(tzinfo=z)) != aware or tz.datetime_ambiguous(naive, z):
                continue
            want = exact_serial(aware)
            t.op("ISO_format_to_serial_date")
            got = m.ISO_format_to_serial_date(ds, ts, timezone=name)
            t.state(got)
            t.check(abs(got - want) * 86400 < 1e-3, lambda: "%s %s %s: serial %r expected %r" % (ds, ts, name, got, want))
        t.op("ISO_format_to_serial_date default")
        t.check(abs(m.ISO_format_to_serial_date(ds, ts) - exact_serial(naive.replace(tzinfo=D.timezone.utc))) < 1e-8,
                "the default zone is not UTC")
        for o, h in OFFS:
            aware = naive.replace(tzinfo=D.timezone(D.timedelta(hours=h)))
            got = m.ISO_format_to_serial_date(ds, ts + o, timezone=o)
            t.check(abs(got - exact_serial(aware)) * 86400 < 1e-3, "offset given with the time")


def f_metadata(t, c):
    m = M()
    from dateutil import tz

    set_tz(c["tz"])
    for tm in c["times"]:
        naive = D.datetime.combine(c["date"], tm)
        ds, ts = naive.date().isoformat(), naive.time().isoformat()
        zones = [(None, None), ("UTC", D.timezone.utc)] + [(n, tz.gettz(n)) for n in ("Europe/Paris", "America/New_York")]
        zones += [(o, D.timezone(D.timedelta(hours=h))) for o, h in OFFS]
        for name, z in zones:
            md = {"General": {"date": ds, "time": ts, "title": "x"}}
            if name:
                md["General"]["time_zone"] = name
            keep = {"General": dict(md["General"])}
            want = naive.replace(tzinfo=z) if z else naive
            t.op("get_date_time_from_metadata", 4)
            a = m.get_date_time_from_metadata(md)
            b = m.get_date_time_from_metadata(md, formatting="ISO")
            d = m.get_date_time_from_metadata(md, formatting="datetime")
            n = m.get_date_time_from_metadata(md, formatting="datetime64")
            t.state(a)
            t.check(a == b == want.isoformat(), lambda: "%s: ISO %s expected %s" % (md, a, want.isoformat()))
            t.check(d == want and (d.tzinfo is None) == (z is None) and d.utcoffset() == want.utcoffset(),
                    lambda: "%s: datetime %s expected %s" % (md, d, want))
            t.check(isinstance(n, np.datetime64) and n == np.datetime64(naive), lambda: "%s: datetime64 %s" % (md, n))
            t.check(md == keep, "metadata changed")
            if z is not None:
                t.check(m.datetime_to_serial_date(d) == m.datetime_to_serial_date(want), "serial of the metadata date")
        for g, exp in (({"date": ds}, ds), ({"time": ts}, ts), ({}, None), ({"date": ds, "time": ""}, ds),
                       ({"date": "", "time": ts}, ts), ({"date": None, "time": None}, None)):
            got = m.get_date_time_from_metadata({"General": dict(g)})
            t.check(got == exp, lambda: "%s: %s" % (g, got))


def f_filetime(t, c):
    m = M()
    base = D.datetime(1601, 1, 1)
    for tm in c["times"]:
        dt = D.datetime.combine(c["date"], tm)
        if dt < base:
            continue
        d = dt - base
        ticks = (d.days * 86400 + d.seconds) * 10**7 + d.microseconds * 10
        t.op("msfiletime_to_unix")
        got = m.msfiletime_to_unix(ticks)
        t.state(str(got))
        # the conversion goes through a double number of microseconds
        t.check(abs(got - dt) <= D.timedelta(microseconds=2 if dt.year < 2200 else 64), lambda: "%s: %s" % (dt, got))


def f_files(t, c):
    """The time of acquisition of files read in different local time zones."""
    from dateutil import tz

    from mc import velox
    from rsciio import blockfile, emd, tvips

    for stamp in c["stamps"]:
        set_tz("UTC")
        utc = D.datetime.fromtimestamp(stamp, D.timezone.utc)
        a = np.arange(8, dtype="u1").reshape(2, 2, 2)
        ax = [uaxis(2, True, units="s"), uaxis(2, False, units="cm"), uaxis(2, False, units="cm")]
        p = {}
        for k in ("a_000.tvips", "b.blo", "c.emd", "d_000.tvips"):
            p[k] = t.path("%s%s" % (stamp, k))
        t.op("write", 3)
        # the date and time given in UTC, and in the local zone with an offset
        md = {"General": {"date": utc.date().isoformat(), "time": utc.time().isoformat(), "time_zone": "UTC"}}
        tvips.file_writer(p["a_000.tvips"], signal(a, axes=ax, metadata=md), show_progressbar=False)
        loc = utc.astimezone(D.timezone(D.timedelta(hours=c["offset"])))
        md = {"General": {"date": loc.date().isoformat(), "time": loc.time().isoformat(), "time_zone": "%+03d:00" % c["offset"]}}
        tvips.file_writer(p["d_000.tvips"], signal(a, axes=ax, metadata=md), show_progressbar=False)
        blockfile.file_writer(p["b.blo"], signal(a, axes=ax, original_metadata={"blockfile_header": {
            "Acquisition_time": M().datetime_to_serial_date(utc), "Note": ""}}), show_progressbar=False)
        velox.UNIX = str(stamp)
        velox.write(p["c.emd"], [[1, 65535, 2, 3, 65535, 65535, 1, 65535]], (2, 2), 8)
        set_tz(c["tz"])
        local = utc.astimezone(tz.gettz(c["tz"]))
        for k, m in (("a_000.tvips", tvips), ("b.blo", blockfile), ("c.emd", emd), ("d_000.tvips", tvips)):
            for d in m.file_reader(p[k]):
                t.op("read")
                g = d["metadata"]["General"]
                t.state(g["date"], g["time"], g["time_zone"])
                try:
                    when = D.datetime.fromisoformat(g["date"] + "T" + g["time"])
                except ValueError:
                    t.check(False, "%s in %s: %s is not a date and time" % (k, c["tz"], g))
                    continue
                z = g["time_zone"]
                want = utc if z == "UTC" else local
                t.check(when.tzinfo is None and abs(when - want.replace(tzinfo=None)) < D.timedelta(milliseconds=1),
                        lambda: "%s in %s: %s %s %s expected %s" % (k, c["tz"], g["date"], g["time"], z, want))
                t.check(z in ("UTC", local.tzname()), lambda: "%s in %s: zone %s of %s" % (k, c["tz"], z, local))
    set_tz("UTC")


def parts(tier):
    th = tier == "thorough"
    ds = dates(th)
    few = [d for d in ds if d.year in (1600, 1899, 1900, 1970, 2000, 2024, 2038, 2124)] if not th else ds
    return [
        Part("serial", [dict(date=d, times=TIMES) for d in ds], f_serial, "dates (month boundaries of 16 years) x times x offsets"),
        Part("iso", [dict(date=d, times=TIMES, tz=z) for d in few for z in ZONES], f_iso, "local zone x dates x times"),
        Part("named", [dict(date=d, times=TIMES if th else TIMES[::3], tz=z) for d in few for z in ("UTC", "America/New_York")], f_named,
             "named and numeric zones x dates x times"),
        Part("metadata", [dict(date=d, times=TIMES if th else TIMES[::3], tz=z) for d in few for z in ("UTC", "Asia/Kolkata")], f_metadata,
             "metadata with and without date, time and zone"),
        Part("files", [dict(tz=z, offset=o, stamps=[1, 86399, 951782400 + 3599, 1500000000, 1709251199, 1735689599, 2**31 - 1]) for z in ZONES for o in (-11, -5, 0, 1, 9)],
             f_files, "acquisition times read from files in each local zone"),
        Part("filetime", [dict(date=d, times=TIMES) for d in ds], f_filetime, "Microsoft file times"),
    ]
