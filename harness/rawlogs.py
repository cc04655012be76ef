"""Synthetic raw sensor logs in the formats the parsers read."""
import datetime as dt
from pathlib import Path

UTC = dt.timezone.utc


def epoch(y, mo, d, h=0, mi=0, s=0):
    return int(dt.datetime(y, mo, d, h, mi, s, tzinfo=UTC).timestamp())


BASE = epoch(2020, 1, 1)          # all synthetic logs start on this day
DAY = "20200101"


def hms(ms):
    """milliseconds since midnight -> hhmmss.mmm"""
    s, m = divmod(ms, 1000)
    return "%02d%02d%02d.%03d" % (s // 3600, s // 60 % 60, s % 60, m)


def nmea(body):
    """$body*CS with the xor checksum of body (without the $)."""
    c = 0
    for ch in body:
        c ^= ord(ch)
    return "$%s*%02X" % (body, c)


# ---- PHINS
def ph_time(ms): return nmea("PIXSE,TIME__," + hms(ms))
def ph_head(v): return nmea("HEHDT,%s,T" % v)
def ph_att(roll, pitch): return nmea("PIXSE,ATITUD,%s,%s" % (roll, pitch))
def ph_attstd(h, r, p): return nmea("PIXSE,STDHRP,%s,%s,%s" % (h, r, p))
def ph_dvl(x, y, z, ms): return nmea("PIXSE,LOGIN_,%s,%s,%s,0.0,%s" % (x, y, z, hms(ms)))
def ph_vel(e, n, u): return nmea("PIXSE,SPEED_,%s,%s,%s" % (e, n, u))
def ph_velstd(e, n, u): return nmea("PIXSE,STDSPD,%s,%s,%s" % (e, n, u))
def ph_dep(d, ms): return nmea("PIXSE,DEPIN_,%s,%s" % (d, hms(ms)))
def ph_alt(sv, corr, a): return nmea("PIXSE,LOGDVL,%s,%s,%s" % (sv, corr, a))


# ---- GAPS
def _dm(v, width):
    a = abs(v)
    d = int(a)
    return ("%0" + str(width) + "d%08.5f") % (d, round((a - d) * 60, 5))


def gaps_pos(ms, ident, lat, lon, depth, f="F", ok="1", base=None):
    t = dt.datetime.fromtimestamp((base or BASE) + ms // 1000, UTC)
    body = "PTSAG,#00001,%02d%02d%02d.%03d,%02d,%02d,%d,%s,%s,%s,%s,%s,%s,%s,%s,0000" % (
        t.hour, t.minute, t.second, ms % 1000, t.day, t.month, t.year, ident, _dm(lat, 2), "S" if lat < 0 else "N",
        _dm(lon, 3), "W" if lon < 0 else "E", f, depth, ok)
    return nmea(body)


def gaps_hdt(h): return nmea("HEHDT,%s,T" % h)


# ---- ACFR image names
def acfr_name(ms, cam, base=None):
    t = dt.datetime.fromtimestamp((base or BASE) + ms // 1000, UTC)
    return "PR_%04d%02d%02d_%02d%02d%02d_%03d_%s16.tif" % (
        t.year, t.month, t.day, t.hour, t.minute, t.second, ms % 1000, cam)


# ---- tides
def tide_polpred(rows, base=None):
    """rows: (minutes since BASE, height)."""
    out = ["header\n"] * 6
    for m, h in rows:
        t = dt.datetime.fromtimestamp((base or BASE) + m * 60, UTC)
        out.append("%2d/%2d/%4d  %02d:%02d     %6.2f      0.14       51\n" % (t.day, t.month, t.year, t.hour, t.minute, h))
    return "".join(out)


def tide_cti(rows, base=None):
    """rows: (seconds since BASE, height)."""
    out = ["header\n"] * 6
    for s, h in rows:
        t = dt.datetime.fromtimestamp((base or BASE) + s, UTC)
        out.append("%04d-%02d-%02dT%02d:%02d:%02dZ,%.5f,0.17887,74\n" % (
            t.year, t.month, t.day, t.hour, t.minute, t.second, h))
    return "".join(out)
