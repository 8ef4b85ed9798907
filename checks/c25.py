"""C25: metadata of images and configuration are read as they were written."""
import datetime
import io as stdio
import json
import math
import os
import traceback
from fractions import Fraction
from struct import pack

import numpy as np

SHARDS = {"quick": 4, "thorough": 8}
TIMEOUT = {"quick": 300, "thorough": 850}
REQUIRED = ["files", "sizes", "makes", "focal lengths", "focal lengths from 35 mm", "focal lengths from the resolution", "focal lengths from the sensor database", "positions",
            "southern or western positions", "dji positions", "altitudes", "negative altitudes", "capped altitudes", "gps times", "camera times", "time zones", "fractions of second",
            "orientations", "projection types", "orientation angles", "malformed tags", "corrupted files", "datasets", "reruns", "camera models", "calibrations of the database",
            "overridden cameras", "overridden metadata", "configurations", "shot measurements"]
RULE = ("one case = one image file whose tags are written byte by byte from known values, a data set of such files with configuration and overrides, or one configuration file; "
        "non-trivial = at least one tag or key")
ASSUMPTIONS = ["EXIF in JPEG files, byte orders and types as in the EXIF 2.32 standard", "XMP of DJI and Pix4D with attributes in the first description",
               "signs of yaw, pitch and roll: heading, nose up, right wing down"]

BYTE, ASCII, SHORT, LONG, RATIONAL, UNDEF, SLONG, SRATIONAL, FLOAT, DOUBLE = 1, 2, 3, 4, 5, 7, 9, 10, 11, 12
SIZE = {BYTE: 1, ASCII: 1, SHORT: 2, LONG: 4, RATIONAL: 8, UNDEF: 1, SLONG: 4, SRATIONAL: 8, FLOAT: 4, DOUBLE: 8}
IDS = {"make": (0, 0x010F), "model": (0, 0x0110), "orientation": (0, 0x0112), "width": (0, 0x0100), "height": (0, 0x0101), "time": (0, 0x0132),
       "time original": (1, 0x9003), "time digitized": (1, 0x9004), "subsec": (1, 0x9290), "subsec original": (1, 0x9291), "subsec digitized": (1, 0x9292),
       "offset": (1, 0x9010), "offset original": (1, 0x9011), "offset digitized": (1, 0x9012), "focal": (1, 0x920A), "focal 35": (1, 0xA405), "exif width": (1, 0xA002),
       "exif height": (1, 0xA003), "x resolution": (1, 0xA20E), "y resolution": (1, 0xA20F), "unit": (1, 0xA210), "lens make": (1, 0xA433), "lens model": (1, 0xA434),
       "lat ref": (2, 1), "lat": (2, 2), "lon ref": (2, 3), "lon": (2, 4), "alt ref": (2, 5), "alt": (2, 6), "gps time": (2, 7), "dop": (2, 0x0B), "gps date": (2, 0x1D)}


# ------------------------------------------------------------------ writing
def encode(e, type_, values):
    if type_ == ASCII:
        return values.encode("utf-8") + b"\0"
    f = {BYTE: "B", SHORT: "H", LONG: "I", UNDEF: "B", SLONG: "i", FLOAT: "f", DOUBLE: "d"}.get(type_)
    if f:
        return pack(e + f * len(values), *values)
    f = "I" if type_ == RATIONAL else "i"
    return b"".join(pack(e + f + f, *v) for v in values)


def tiff(tags, e):
    """TIFF stream with up to three directories."""
    ifds = [{}, {}, {}]
    for name, (type_, values) in tags.items():
        where, key = IDS[name]
        ifds[where][key] = (type_, values)
    out = bytearray((b"II" if e == "<" else b"MM") + pack(e + "HI", 42, 8))

    def write(entries, start):
        block = bytearray(pack(e + "H", len(entries)))
        extra = bytearray()
        base = start + 2 + 12 * len(entries) + 4
        for key in sorted(entries):
            type_, values = entries[key]
            data = encode(e, type_, values)
            n = len(data) // SIZE[type_]
            block += pack(e + "HHI", key, type_, n)
            if len(data) <= 4:
                block += data.ljust(4, b"\0")
            else:
                block += pack(e + "I", base + len(extra))
                extra += data + b"\0" * (len(data) % 2)
        return block + pack(e + "I", 0) + extra

    sub = [k for k in (1, 2) if ifds[k]]
    for k in sub:
        ifds[0][{1: 0x8769, 2: 0x8825}[k]] = (LONG, [0])
    n0 = len(write(ifds[0], 8))
    at = 8 + n0
    blocks = []
    for k in sub:
        ifds[0][{1: 0x8769, 2: 0x8825}[k]] = (LONG, [at])
        blocks.append(write(ifds[k], at))
        at += len(blocks[-1])
    out += write(ifds[0], 8)
    for b in blocks:
        out += b
    return bytes(out)


def xmp_packet(descriptions, rng):
    """XMP packet with several descriptions: list of (attributes, elements)."""
    sep = ["\n   ", " ", "\r\n\t"][rng.integers(3)]
    s = '<?xpacket begin="" id="W5M0MpCehiHzreSzNTczkc9d"?>%s<x:xmpmeta xmlns:x="adobe:ns:meta/" x:xmptk="it\'s">%s<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#">' % (sep, sep)
    for attrs, elements in descriptions:
        s += sep + '<rdf:Description rdf:about=""'
        for k, v in attrs.items():
            s += sep + '%s="%s"' % (k, v)
        if elements:
            s += ">" + "".join("%s<%s>%s</%s>" % (sep, k, v, k) for k, v in elements.items()) + sep + "</rdf:Description>"
        else:
            s += "/>" if rng.random() < 0.5 else "></rdf:Description>"
    return s + sep + "</rdf:RDF>" + sep + "</x:xmpmeta>" + sep + '<?xpacket end="w"?>'


def pixels(w, h):
    import cv2

    im = np.full((h, w, 3), 90, np.uint8)
    im[: h // 2] = 160
    return cv2.imencode(".jpg", im)[1].tobytes()


def jpeg(base, tags, xmp, e, first):
    """Picture with application segments in any order."""
    segments = []
    if tags is not None:
        segments.append(b"Exif\0\0" + tiff(tags, e))
    if xmp is not None:
        segments.append(b"http://ns.adobe.com/xap/1.0/\0" + xmp.encode("utf-8"))
    if first:
        segments.reverse()
    data = b"".join(b"\xff\xe1" + pack(">H", len(s) + 2) + s for s in segments)
    return base[:2] + data + base[2:]


# ------------------------------------------------------------------ values
def ratio(rng, x, signed=False):
    """A fraction close to x and its exact value."""
    d = int(rng.choice([1, 10, 100, 1000, 10000, 65536 if abs(x) < 30000 else 100]))
    n = int(round(x * d))
    return (n, d), n / d


def degrees(rng, x):
    """Absolute angle as three fractions."""
    x = abs(x)
    style = rng.integers(4)
    d, m = int(x), int((x - int(x)) * 60)
    s = ((x - d) * 60 - m) * 60
    if style == 0:
        v = [(d, 1), (m, 1), (int(round(s * 10000)), 10000)]
    elif style == 1:
        v = [(d, 1), (int((x - d) * 60 * 1000000), 1000000), (0, 1)]
    elif style == 2:
        v = [(int(x * 10000000), 10000000), (0, 1), (0, 1)]
    else:
        v = [(d * 2, 2), (m * 3, 3), (int(s * 100), 100)]
    return v, float(sum(Fraction(*q) / f for q, f in zip(v, (1, 60, 3600))))


class Picture:
    """Tags to write and the metadata they stand for."""

    def __init__(self, chk, rng, db, sensors, corpus):
        self.tags, self.x, self.odd = {}, {}, []
        self.rng, self.chk = rng, chk
        self.real = (int(rng.choice([16, 24, 40])), int(rng.choice([12, 16, 32])))
        self.e = "<" if rng.random() < 0.5 else ">"
        self.first = rng.random() < 0.3
        self.use_size = rng.random() < 0.8
        self.attrs, self.elements = {}, {}
        self.descriptions = None
        self.broken(chk, rng)
        self.size(rng)
        self.camera(rng, db, sensors, corpus)
        self.position(rng)
        self.times(rng)
        self.other(rng)
        self.packet(rng)

    # which tag is malformed
    def broken(self, chk, rng):
        self.bad = {}
        if rng.random() < 0.35:
            for k in rng.choice(["exif size", "make", "model", "focal 35", "focal", "x resolution", "unit", "lat", "lon", "alt", "dop", "gps time", "gps date", "time original", "orientation",
                                 "offset", "xmp", "ypr", "dji"], int(rng.integers(1, 4)), replace=False):
                self.bad[str(k)] = True
            chk.count("malformed tags", len(self.bad))

    def put(self, name, type_, values):
        self.tags[name] = (type_, values)

    def number(self, rng, name, x, types=(RATIONAL,)):
        """A number in one of the types, the value kept."""
        t = int(rng.choice(types))
        if t in (RATIONAL, SRATIONAL):
            v, x = ratio(rng, x)
            self.put(name, t, [v])
            return x
        if t == FLOAT:
            x = float(np.float32(x))
        elif t != DOUBLE:
            x = int(round(x))
        self.put(name, t, [x])
        return x

    def spoil(self, rng, name):
        """A value for the tag without any meaning."""
        k = rng.integers(4)
        if k == 0:
            self.put(name, RATIONAL, [(int(rng.integers(0, 9)), 0)] * 3)
        elif k == 1:
            self.put(name, SHORT, [])
        elif k == 2:
            self.put(name, ASCII, "")
        else:
            self.put(name, FLOAT, [float("nan")])

    def size(self, rng):
        x = None
        for a, b in (("width", "height"), ("exif width", "exif height")):
            if rng.random() < 0.5:
                w, h = int(rng.integers(50, 9000)), int(rng.integers(50, 9000))
                t = int(rng.choice([SHORT, LONG]))
                if a == "exif width" and "exif size" in self.bad:
                    for n in (a, b):
                        if rng.random() < 0.3:
                            self.put(n, t, [0])
                        else:
                            self.spoil(rng, n)
                    continue
                self.put(a, t, [w])
                if rng.random() < 0.1:
                    continue
                self.put(b, t, [h])
                x = (w, h)
        self.x["size"] = x if self.use_size and x else self.real

    def camera(self, rng, db, sensors, corpus):
        kind = rng.integers(5)
        if kind == 0:
            make, model = "", ""
        elif kind == 1:  # from the sensor database
            make, model = "", str(corpus[rng.integers(len(corpus))])
            if " " in model and rng.random() < 0.8:
                make, model = model.split(" ", 1)
                if rng.random() < 0.3:
                    model = make + " " + model
        elif kind == 2:
            make = str(rng.choice(list(db)))
            models = list(db[make].get("MODEL", {"any": 0}))
            model = str(rng.choice(models + ["other"]))
            case = rng.integers(3)
            if case:
                make, model = (make.upper(), model.upper()) if case == 1 else (make.title(), model.title())
        else:
            make, model = str(rng.choice(["Acme", "Zoom & Co", "Café"])), str(rng.choice(["A1", "Acme A1", "ünit 5", "X"]))
        self.x["make"], self.x["model"] = "unknown", "unknown"
        for k, v in (("make", make), ("model", model)):
            if k in self.bad:
                self.put(k, *[(SHORT, [1, 2]), (BYTE, [200, 100, 0]), (SHORT, [])][rng.integers(3)])
            elif v:
                if rng.random() < 0.1:
                    self.put("lens " + k, ASCII, v)
                    self.put(k, ASCII, "Body")
                else:
                    self.put(k, ASCII, v)
                self.x[k] = v
        # focal length
        fr = float(rng.uniform(0.3, 2.0))
        have35, have = rng.random() < 0.35, rng.random() < 0.7
        focal35 = None
        if kind == 2 and rng.random() < 0.5:
            have35, focals = True, db[make.lower()].get("FOCAL", {20: 0})
            fr = float(rng.choice(list(focals))) / 36
        if have35:
            if "focal 35" in self.bad:
                self.spoil(rng, "focal 35")
            else:
                focal35 = self.number(rng, "focal 35", 36 * fr, (SHORT, SHORT, RATIONAL, LONG, DOUBLE))
                if rng.random() < 0.1:
                    self.put("focal 35", SHORT, [0])
                    focal35 = 0
        focal = None
        if have:
            if "focal" in self.bad:
                self.spoil(rng, "focal")
            else:
                focal = self.number(rng, "focal", float(rng.uniform(1.5, 80)), (RATIONAL, RATIONAL, FLOAT, SRATIONAL))
        width = None
        if rng.random() < 0.4:
            unit = int(rng.choice([2, 3, 4, 5, 1, 7], p=[0.3, 0.25, 0.15, 0.15, 0.1, 0.05]))
            mm = {2: 25.4, 3: 10.0, 4: 1.0, 5: 0.001}.get(unit)
            w = float(rng.uniform(3, 40))
            res = self.x["size"][0] * (mm or 25.4) / w
            if "x resolution" in self.bad:
                self.spoil(rng, "x resolution")
                res = None
            elif rng.random() < 0.1:
                self.put("x resolution", RATIONAL, [(0, 1)])
                v = (max(int(round(res * 1000)), 1), 1000)
                self.put("y resolution", RATIONAL, [v])
                res = v[0] / v[1]
            else:
                v = (max(int(round(res * 1000)), 1), 1000)
                self.put("x resolution", RATIONAL, [v])
                res = v[0] / v[1]
            if "unit" in self.bad:
                self.spoil(rng, "unit")
                mm = None
            else:
                self.put("unit", SHORT, [unit])
            if mm and res:
                width = self.x["size"][0] * mm / res
        ratio_, how = 0.0, None
        if focal35:
            ratio_, how = focal35 / 36, "focal lengths from 35 mm"
        elif focal:
            if width:
                ratio_, how = focal / width, "focal lengths from the resolution"
            else:
                mk, md = self.x["make"], self.x["model"]
                if mk != "unknown":
                    md = md.replace(mk, "")
                w = sensors.get((mk.strip() + " " + md.strip()).strip().lower()) if mk != "unknown" else sensors.get(("unknown " + md.strip()).lower())
                if w:
                    ratio_, how = focal / w, "focal lengths from the sensor database"
        self.x["focal"] = ratio_
        self.how = how

    def position(self, rng):
        g = {}
        self.south = False
        if rng.random() < 0.75:
            lat, lon = float(rng.uniform(-89, 89)), float(rng.uniform(-179.9, 179.9))
            if rng.random() < 0.15:
                lat, lon = float(rng.uniform(-0.9, 0.9)), float(rng.uniform(-0.9, 0.9))
            v, a = degrees(rng, lat)
            w, b = degrees(rng, lon)
            refs = True
            ok = True
            for k, q in (("lat", v), ("lon", w)):
                if k in self.bad:
                    ok = False
                    c = rng.integers(5)
                    if c < 2:
                        q = list(q)
                        q[int(rng.integers(3))] = (5, 0)
                    elif c == 2:
                        q = q[: int(rng.integers(0, 3))]
                    elif c == 3:
                        continue
                    else:
                        self.put(k, ASCII, "")
                        continue
                self.put(k, RATIONAL, q)
            if lat >= 0 and lon >= 0 and rng.random() < 0.3:
                refs = False
            if refs:
                pad = " " if rng.random() < 0.05 else ""
                self.put("lat ref", ASCII, ("N" if lat >= 0 else "S") + pad)
                self.put("lon ref", ASCII, ("E" if lon >= 0 else "W") + pad)
            if ok:
                g["latitude"], g["longitude"] = math.copysign(a, lat), math.copysign(b, lon)
        if rng.random() < 0.7:
            alt = float(rng.choice([rng.uniform(0, 3000), rng.uniform(9000, 40000), 0.0], p=[0.75, 0.2, 0.05]))
            below = rng.random() < 0.3
            if "alt" in self.bad:
                self.spoil(rng, "alt")
                alt = None
            else:
                alt = self.number(rng, "alt", alt, (RATIONAL, RATIONAL, LONG))
            if below or rng.random() < 0.5:
                self.put("alt ref", int(rng.choice([BYTE, BYTE, SHORT])), [int(below)])
            if alt is not None:
                alt = -alt if below else alt
                g["altitude"] = alt
        if rng.random() < 0.4:
            if "dop" in self.bad:
                self.spoil(rng, "dop")
            else:
                g["dop"] = self.number(rng, "dop", float(rng.uniform(0.1, 30)), (RATIONAL, RATIONAL, SHORT))
        # coordinates and angles of drones
        self.dji = rng.random() < 0.3
        if self.dji:
            lat, lon = float(rng.uniform(-89, 89)), float(rng.uniform(-179.9, 179.9))
            style = rng.integers(3)
            f = (lambda x: "%+.7f" % x) if style == 0 else (lambda x: "%.7f" % x)
            s, t = f(lat), f(lon)
            if "dji" in self.bad:
                s = str(rng.choice(["", "n/a", "+", "nan"]))
            else:
                g["latitude"], g["longitude"] = float(s), float(t)
            self.attrs["drone-dji:Latitude"], self.attrs["drone-dji:Longitude"] = s, t
            if rng.random() < 0.7:
                a = "%+.2f" % rng.uniform(-50, 12000)
                if "dji" in self.bad and rng.random() < 0.5:
                    a = "none"
                else:
                    g["altitude"] = float(a)
                self.attrs["drone-dji:AbsoluteAltitude"] = a
        if "altitude" in g:
            self.capped = g["altitude"] > 1e4
            g["altitude"] = min(g["altitude"], 1e4)
        self.x["gps"] = g

    def times(self, rng):
        utc = datetime.datetime(1971, 1, 1) + datetime.timedelta(seconds=int(rng.integers(0, 1800000000)))
        x = None
        if rng.random() < 0.35:
            f = float(rng.choice([0.0, 0.5, 0.25, 0.999, 0.9999999]))
            at = utc + datetime.timedelta(seconds=int(rng.integers(0, 60)))
            n, d = (int(at.second * 10000000 + round(f * 10000000)), 10000000) if f else (at.second, 1)
            ok = True
            stamp = [(at.hour, 1), (at.minute, 1), (n, d)]
            date = at.strftime("%Y:%m:%d")
            if "gps time" in self.bad:
                ok = False
                c = rng.integers(3)
                stamp = [stamp[:2], [(3, 0)] + stamp[1:], [(99, 1)] + stamp[1:]][c]
            if "gps date" in self.bad:
                ok = False
                date = str(rng.choice(["", "yesterday", "0000:00:00"]))
            self.put("gps time", RATIONAL, stamp)
            self.put("gps date", ASCII, date)
            if ok:
                x = (at.replace(second=0) - datetime.datetime(1970, 1, 1)).total_seconds() + n / d
                self.time_kind = "gps times"
        if x is None:
            self.time_kind = None
        chosen = None
        for name in (" original", " digitized", ""):
            if rng.random() < 0.55:
                at = utc + datetime.timedelta(seconds=int(rng.integers(0, 100000)))
                s = at.strftime("%Y:%m:%d %H:%M:%S")
                t = (at - datetime.datetime(1970, 1, 1)).total_seconds()
                zone = frac = False
                if rng.random() < 0.5:
                    sub = str(rng.choice(["5", "05", "123", "999999", "00", "1234567", "   "]))
                    self.put("subsec" + name, ASCII, sub)
                    if sub.strip():
                        t += float("0." + sub[:6])
                        frac = True
                if rng.random() < 0.5:
                    m = int(rng.choice([0, 60, 330, -330, -210, 345, -30, 765, -720]))
                    o = "%s%02d:%02d" % ("+" if m >= 0 else "-", abs(m) // 60, abs(m) % 60)
                    if "offset" in self.bad:
                        o = str(rng.choice(["", "   :  ", "here"]))
                    else:
                        t -= m * 60
                        zone = True
                    self.put("offset" + name, ASCII, o)
                if name == " original" and "time original" in self.bad:
                    s = str(rng.choice(["", "    :  :     :  :  ", "0000:00:00 00:00:00", "2019-02-03", "2019:13:40 10:00:00"]))
                    self.put("time" + name, ASCII, s)
                    continue
                self.put("time" + name, ASCII, s)
                if chosen is None:
                    chosen = (t, zone, frac)
        self.zone = self.frac = False
        if x is None and chosen:
            x, self.zone, self.frac = chosen
            self.time_kind = "camera times"
        self.x["time"] = x or 0.0

    def other(self, rng):
        self.x["orientation"] = 1
        if rng.random() < 0.6:
            if "orientation" in self.bad:
                c = rng.integers(3)
                self.put("orientation", *[(SHORT, [0]), (SHORT, []), (ASCII, "")][c])
            else:
                o = int(rng.integers(1, 9))
                self.put("orientation", SHORT, [o])
                self.x["orientation"] = o

    def packet(self, rng):
        self.x["projection"], self.x["R"] = "perspective", None
        # yaw, pitch, roll of the image with respect to nadir
        both = rng.random()
        ypr = None
        for prefix, p in (("dji", 0.5 if self.dji else 0.1), ("camera", 0.25)):
            if rng.random() < p:
                y, q, r = float(rng.uniform(-180, 180)), float(rng.choice([rng.uniform(-20, 100), 0.0, 90.0, -90.0 + 90])), float(rng.choice([0.0, rng.uniform(-20, 20)]))
                names = ["Camera:Yaw", "Camera:Pitch", "Camera:Roll"] if prefix == "camera" else ["drone-dji:Gimbal%sDegree" % k for k in ("Yaw", "Pitch", "Roll")]
                vals = ["%.4f" % y, "%.4f" % (q - (90 if prefix == "dji" else 0)), "%.4f" % r]
                v = [float(y) for y in vals]
                v[1] += 90 if prefix == "dji" else 0
                if "ypr" in self.bad:
                    if rng.random() < 0.5:
                        vals[int(rng.integers(3))] = "level"
                    else:
                        names = names[:2]
                    v = None
                self.attrs.update(zip(names, vals))
                if v is None and len(names) == 3:
                    ypr = None
                elif v is not None:
                    ypr = v
        self.has_xmp = bool(self.attrs) or rng.random() < 0.4
        if ypr and "latitude" in self.x["gps"]:
            y, q, r = np.radians(ypr)
            c, s = np.cos, np.sin
            # nose, right wing and belly of the vehicle in north, east, down
            Ry = np.array([[c(y), -s(y), 0], [s(y), c(y), 0], [0, 0, 1]])
            Rp = np.array([[c(q), 0, s(q)], [0, 1, 0], [-s(q), 0, c(q)]])
            Rr = np.array([[1, 0, 0], [0, c(r), -s(r)], [0, s(r), c(r)]])
            body = Ry @ Rp @ Rr
            enu = np.array([[0, 1, 0], [1, 0, 0], [0, 0, -1]]) @ body
            nose, right, belly = enu.T
            self.x["R"] = np.array([right, -nose, belly])  # world to camera: x right, y towards the back, z through the belly
        if not self.has_xmp:
            self.xmp = None
            return
        pt = None
        if rng.random() < 0.5:
            pt = str(rng.choice(["equirectangular", "spherical", "fisheye", "brown"]))
        d = [(dict(self.attrs), {})]
        if pt:
            extra = {"GPano:CroppedAreaTopPixels": "0"} if rng.random() < 0.5 else {}
            where = 0 if rng.random() < 0.5 else 1
            if where == 1:
                d.append(({}, {}))
            if rng.random() < 0.5:
                d[where] = ({**d[where][0], **extra, "GPano:ProjectionType": pt}, d[where][1])
            else:
                d[where] = ({**d[where][0], **extra}, {**d[where][1], "GPano:ProjectionType": pt})
            self.x["projection"] = pt
        if rng.random() < 0.3:
            d.append(({"dc:title": "caf\u00e9 & \u201cco\u201d".replace("&", "&amp;")}, {}))
        self.xmp = xmp_packet(d, rng)
        self.note_bad_xmp = False
        if "xmp" in self.bad:
            c = rng.integers(5)
            if c == 0:
                self.xmp = self.xmp.replace("<rdf:RDF", "<rdf:RD", 1)  # not well formed any more
            elif c == 1:
                self.xmp = '<x:xmpmeta xmlns:x="adobe:ns:meta/"></x:xmpmeta>'
            elif c == 2:
                self.xmp = '<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF></rdf:RDF></x:xmpmeta>'
            elif c == 3:
                self.xmp = '<x:xmpmeta xmlns:x="adobe:ns:meta/"><rdf:RDF><rdf:Description></rdf:Description></rdf:RDF></x:xmpmeta>'
            else:
                self.xmp = self.xmp[: self.xmp.index("</x:xmpmeta")]
            self.note_bad_xmp = True

    def data(self):
        return jpeg(pixels(*self.real), self.tags if self.tags else None, self.xmp, self.e, self.first)

    def camera_name(self, x=None):
        x = x or self.x
        mk, md = x["make"], x["model"]
        if mk != "unknown":
            md = md.replace(mk, "")
        f = str(float(x["focal"]))[:6]
        return " ".join(["v2", mk.strip(), md.strip(), str(x["size"][0]), str(x["size"][1]), x["projection"], f]).lower()


def rotation_from_angles(o, p, k):
    """World to camera rotation for omega, phi and kappa in degrees (photogrammetry)."""
    o, p, k = np.radians([o, p, k])
    c, s = np.cos, np.sin
    Ro = np.array([[1, 0, 0], [0, c(o), -s(o)], [0, s(o), c(o)]])
    Rp = np.array([[c(p), 0, s(p)], [0, 1, 0], [-s(p), 0, c(p)]])
    Rk = np.array([[c(k), -s(k), 0], [s(k), c(k), 0], [0, 0, 1]])
    return np.diag([1.0, -1, -1]) @ (Ro @ Rp @ Rk).T


def judge(chk, P, d, what, **data):
    x = P.x
    ok = True
    ex = lambda c, w, **kw: chk.expect(c, w, tags={k: repr(v)[:80] for k, v in P.tags.items()}, xmp=P.xmp, bad=list(P.bad), **kw, **data)
    ok &= ex((d["width"], d["height"]) == tuple(x["size"]), what + "the size isn't the one in the file", got=(d["width"], d["height"]), want=x["size"])
    chk.count("sizes")
    ok &= ex(d["make"].strip() == x["make"].strip() and d["model"].strip() == x["model"].strip(), what + "make and model aren't those in the file", got=(d["make"], d["model"]),
             want=(x["make"], x["model"]))
    chk.count("makes")
    ok &= ex(abs(d["focal_ratio"] - x["focal"]) <= 1e-6 * max(1, x["focal"]), what + "the focal length isn't the one of the tags", got=d["focal_ratio"], want=x["focal"], how=P.how)
    chk.count("focal lengths")
    if P.how:
        chk.count(P.how)
    g, w = d["gps"], x["gps"]
    ok &= ex(set(g) == set(w), what + "other GPS values are present than in the file", got=g, want=w)
    for k in set(g) & set(w):
        tol = 1e-9 if k in ("latitude", "longitude") else 1e-6 * max(1, abs(w[k]))
        ok &= ex(abs(g[k] - w[k]) <= tol, what + "the GPS " + k + " isn't the one in the file", got=g[k], want=w[k])
    if "latitude" in w:
        chk.count("positions")
        if w["latitude"] < 0 or w["longitude"] < 0:
            chk.count("southern or western positions")
        if P.dji and "dji" not in P.bad:
            chk.count("dji positions")
    if "altitude" in w:
        chk.count("altitudes")
        if w["altitude"] < 0:
            chk.count("negative altitudes")
        if P.capped:
            chk.count("capped altitudes")
    ok &= ex(abs(d["capture_time"] - x["time"]) <= 2e-6, what + "the capture time isn't the one in the file", got=d["capture_time"], want=x["time"], kind=P.time_kind)
    if P.time_kind:
        chk.count(P.time_kind)
    if P.zone:
        chk.count("time zones")
    if P.frac:
        chk.count("fractions of second")
    ok &= ex(d["orientation"] == x["orientation"], what + "the orientation isn't the one in the file", got=d["orientation"], want=x["orientation"])
    if x["orientation"] != 1:
        chk.count("orientations")
    ok &= ex(d["projection_type"].lower() == x["projection"], what + "the projection type isn't the one in the file", got=d["projection_type"], want=x["projection"])
    if x["projection"] != "perspective":
        chk.count("projection types")
    ok &= ex(("opk" in d) == (x["R"] is not None), what + "orientation angles are only there for some images with angles", got=d.get("opk"), R=x["R"])
    if "opk" in d and x["R"] is not None:
        a = [d["opk"][k] for k in ("omega", "phi", "kappa")]
        ok &= ex(np.abs(rotation_from_angles(*a) - x["R"]).max() < 1e-6, what + "the orientation angles aren't those of yaw, pitch and roll in the file", got=a, want=x["R"], gps=g)
        chk.count("orientation angles")
    name = P.camera_name({**x, "focal": d["focal_ratio"]})
    ok &= ex(d["camera"] == name, what + "the name of the camera isn't made of its properties", got=d["camera"], want=name)
    return ok


def unreadable(P):
    """Packets which aren't well formed can't be judged entirely."""
    x = P.x
    if P.xmp is not None and P.note_bad_xmp:
        x["projection"], x["R"] = "perspective", None
        if P.dji:
            return False
    return True


# ------------------------------------------------------------------ calibrations
NEUTRAL = {"k1": 0, "k2": 0, "k3": 0, "k4": 0, "k5": 0, "k6": 0, "p1": 0, "p2": 0, "s0": 0, "s1": 0, "s2": 0, "s3": 0, "c_x": 0, "c_y": 0}
FIELDS = {"perspective": ["focal", "k1", "k2"], "brown": ["focal", "aspect_ratio", "k1", "k2", "k3", "p1", "p2", "c_x", "c_y"], "fisheye": ["focal", "k1", "k2"],
          "fisheye_opencv": ["focal", "aspect_ratio", "k1", "k2", "k3", "k4", "c_x", "c_y"],
          "fisheye62": ["focal", "aspect_ratio", "k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "c_x", "c_y"],
          "fisheye624": ["focal", "aspect_ratio", "k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s0", "s1", "s2", "s3", "c_x", "c_y"],
          "radial": ["focal", "aspect_ratio", "k1", "k2", "c_x", "c_y"], "simple_radial": ["focal", "aspect_ratio", "k1", "c_x", "c_y"], "dual": ["focal", "k1", "k2"],
          "spherical": []}
PANO = ("spherical", "equirectangular")


def prior(d, db, config):
    """Parameters of the camera of an image: database, metadata, then the default."""
    mk, md = d["make"].strip().lower(), d["model"].strip().lower()
    entry, source = None, "database"
    known = db.get(mk)
    if known:
        if "ALL" in known:
            entry = known["ALL"]
        else:
            entry = known.get("MODEL", {}).get(md) or known.get("FOCAL", {}).get(int(round(d["focal_ratio"] * 36)))
    pt = d["projection_type"].lower()
    if entry is None:
        f, source = (d["focal_ratio"], "metadata") if d["focal_ratio"] else (config["default_focal_prior"], "default")
        entry = {"focal": f}
    pt = entry.get("projection_type", pt)
    q = {**NEUTRAL, **entry}
    q["focal"] = entry.get("focal", entry.get("focal_x"))
    fx = entry.get("focal_x", q["focal"])
    q["aspect_ratio"] = entry.get("focal_y", fx) / fx
    if pt in ("brown", "radial", "simple_radial", "fisheye_opencv", "fisheye62", "fisheye624"):
        q["focal"] = fx
    return ("spherical" if pt in PANO else pt), q, source


def read_camera(c):
    """Projection type and parameters of a camera of camera_models.json."""
    pt = c["projection_type"]
    q = dict(c)
    if "focal_x" in c:
        q["focal"], q["aspect_ratio"] = c["focal_x"], c["focal_y"] / c["focal_x"]
    return ("spherical" if pt in PANO else pt), q


def datasets(chk, db, sensors, corpus):
    from opensfm import config, dataset
    from opensfm import reconstruction_helpers as helpers
    from opensfm import types
    from opensfm.actions import extract_metadata

    defaults = config.default_config()
    for i in range(chk.n(120, 5000)):
        rng = chk.rng_for("dataset", i)
        root = os.path.join(chk.tmp, "d%d" % i)
        os.makedirs(root + "/images")
        cfg = {}
        if rng.random() < 0.4:
            cfg["use_exif_size"] = bool(rng.integers(2))
        if rng.random() < 0.4:
            cfg["unknown_camera_models_are_different"] = bool(rng.integers(2))
        if rng.random() < 0.5:
            cfg["default_projection_type"] = str(rng.choice(list(FIELDS)))
        if rng.random() < 0.4:
            cfg["default_focal_prior"] = float(rng.uniform(0.4, 1.5))
        if rng.random() < 0.3:
            cfg["use_altitude_tag"] = bool(rng.integers(2))
        if cfg:
            json.dump(cfg, open(root + "/config.yaml", "w"))
        full = {**defaults, **cfg}
        pics, names = {}, []
        for k in range(int(rng.integers(1, 6))):
            name = "%s%d.jpg" % (str(rng.choice(["a", "été ", "B"])), k)
            P = Picture(chk, rng, db, sensors, corpus)
            while not unreadable(P):
                P = Picture(chk, rng, db, sensors, corpus)
            if names and rng.random() < 0.3:
                P = pics[names[0]]
            if full["use_exif_size"] != P.use_size:
                P = again(chk, rng, db, sensors, corpus, full["use_exif_size"])
            pics[name] = P
            names.append(name)
            open(root + "/images/" + name, "wb").write(P.data())
        over = {}
        for name in names:
            if rng.random() < 0.3:
                over[name] = {k: v for k, v in {
                    "gps": {"latitude": float(rng.uniform(-80, 80)), "longitude": float(rng.uniform(-180, 180)), "altitude": float(rng.uniform(-10, 2000)), "dop": float(rng.choice([0.0, 5.0]))},
                    "orientation": int(rng.integers(1, 9)), "capture_time": float(rng.uniform(0, 1e9)), "focal_ratio": float(rng.uniform(0.4, 1.2)),
                    "gravity_down": [0.1, 0.9, -0.2], "compass": {"angle": 40.0, "accuracy": 3.0}, "skey": "walk", "extra": [1, 2]}.items() if rng.random() < 0.4}
        late = rng.random() < 0.4  # the overrides are written after a first run
        if over and not late:
            json.dump(over, open(root + "/exif_overrides.json", "w"))
        data = dataset.DataSet(root)
        ok, _ = chk.guard(lambda: extract_metadata.run_dataset(data), "extract_metadata failed", config=cfg, overrides=over, tags=[{k: repr(v)[:60] for k, v in P.tags.items()} for P in pics.values()])
        if not ok:
            continue
        chk.count("datasets")
        # what each image should have
        want, order = {}, data.images()
        for name in order:
            P = pics[name]
            x = dict(P.x)
            if full["unknown_camera_models_are_different"] and x["model"] in ("", "unknown"):
                x["model"] = "unknown_" + name
            if full.get("default_projection_type"):
                x["projection"] = full["default_projection_type"]
            named = json.load(open(root + "/exif/" + name + ".exif"))["camera"]
            for f in (x["focal"] * (1 + 1e-12), x["focal"] * (1 - 1e-12), round(x["focal"], 10)):  # rounding decides digits of the name
                if P.camera_name({**x, "focal": f}) == named:
                    x["focal"] = f
            d = {"make": x["make"], "model": x["model"], "width": x["size"][0], "height": x["size"][1], "projection_type": x["projection"], "focal_ratio": x["focal"],
                 "orientation": x["orientation"], "capture_time": x["time"], "gps": x["gps"], "camera": P.camera_name(x)}
            want[name] = d
        if over and late:
            ids = sorted({d["camera"] for d in want.values()})
            json.dump(over, open(root + "/exif_overrides.json", "w"))
        # cameras given by hand
        given = {}
        if rng.random() < 0.4:
            w, h = int(rng.integers(100, 5000)), int(rng.integers(100, 5000))
            cam = {"projection_type": "fisheye", "width": w, "height": h, "focal": float(rng.uniform(0.4, 1.2)), "k1": 0.01, "k2": -0.02}
            if rng.random() < 0.5:
                cam = {"projection_type": "equirectangular", "width": w, "height": h}
            keys = sorted({d["camera"] for d in want.values()})
            given = {"all": cam} if rng.random() < 0.5 else {str(rng.choice(keys)): cam, "v2 unrelated": {**cam, "width": 77}}
            json.dump(given, open(root + "/camera_models_overrides.json", "w"))
        if given or (over and late) or rng.random() < 0.3:
            before = {n: open(root + "/exif/" + n + ".exif").read() for n in order} if not (over and late) else None
            ok, _ = chk.guard(lambda: extract_metadata.run_dataset(dataset.DataSet(root)), "extract_metadata failed when run again", config=cfg, overrides=over)
            if not ok:
                continue
            chk.count("reruns")
            if before:
                chk.expect(all(open(root + "/exif/" + n + ".exif").read() == t for n, t in before.items()), "running extract_metadata again changed the metadata")
        for name in order:
            want[name].update(over.get(name, {}))
            got = json.load(open(root + "/exif/" + name + ".exif"))
            ctx = dict(image=name, config=cfg, overrides=over.get(name), rerun=late)
            for k, v in want[name].items():
                g = got.get(k)
                if k in ("make", "model"):
                    good = g.strip() == v.strip()
                elif k == "gps":
                    good = set(g) == set(v) and all(abs(g[j] - v[j]) <= 1e-6 * max(1, abs(v[j])) for j in v)
                elif isinstance(v, float):
                    good = abs(g - v) <= 1e-5 * max(1, abs(v)) if k != "capture_time" else abs(g - v) < 1e-5
                else:
                    good = g == v
                chk.expect(good, "the metadata of an image of a data set isn't that of its file and overrides", key=k, got=g, want=v, tags={j: repr(t)[:60] for j, t in pics[name].tags.items()}, **ctx)
            if name in over:
                chk.count("overridden metadata")
            measured(chk, rng, helpers, types, got, full, ctx)
        # cameras
        cams = json.load(open(root + "/camera_models.json"))
        expected = {}
        for name in order:
            d = want[name]
            expected.setdefault(d["camera"], prior(d, db, full) + ((d["width"], d["height"]),))
        ids = set(expected) | (set(given) if given and "all" not in given else set())
        chk.expect(set(cams) == ids, "the cameras of the data set aren't those of its images and overrides", got=sorted(cams), want=sorted(ids), config=cfg)
        loaded = dataset.DataSet(root).load_camera_models()
        for cid in set(cams) & ids:
            chk.expect(loaded[cid].id == cid, "a camera has another identifier than its name", id=cid, got=loaded[cid].id)
            chk.count("camera models")
            if "all" in given or cid in given:
                w = given.get("all", given.get(cid))
                pt, q = read_camera(cams[cid])
                same = pt == ("spherical" if w["projection_type"] in PANO else w["projection_type"]) and all(cams[cid][k] == v for k, v in w.items() if k != "projection_type")
                chk.expect(same, "the camera given by hand isn't the one of the data set", id=cid, got=cams[cid], want=w)
                chk.count("overridden cameras")
                continue
            pt, q, source, size = expected[cid]
            gpt, g = read_camera(cams[cid])
            chk.expect((cams[cid]["width"], cams[cid]["height"]) == size, "the size of a camera isn't that of its images", got=cams[cid], want=size)
            if chk.expect(gpt == pt, "the projection type of a camera isn't the one of its metadata", id=cid, got=gpt, want=pt, source=source, config=cfg):
                for k in FIELDS[pt]:
                    chk.expect(k in g and abs(g[k] - q[k]) <= 1e-9 * max(1, abs(q[k])), "a camera hasn't the parameters of its best source", id=cid, key=k, got=g.get(k), want=q[k], source=source, config=cfg)
            if source == "database":
                chk.count("calibrations of the database")
        chk.case("dataset", [len(names), len(over), len(given), sorted(cfg)], sig=(chk.shard, i))


def again(chk, rng, db, sensors, corpus, use):
    while True:
        P = Picture(chk, rng, db, sensors, corpus)
        if P.use_size == use and unreadable(P):
            return P


def measured(chk, rng, helpers, types, got, full, ctx):
    """Measurements of the shot made of its metadata."""
    ref = types.TopocentricConverter(float(rng.uniform(-60, 60)), float(rng.uniform(-170, 170)), float(rng.uniform(0, 100)))
    g = got["gps"]
    if "latitude" in g:
        ref = types.TopocentricConverter(g["latitude"] + float(rng.uniform(-1e-3, 1e-3)), g["longitude"] + float(rng.uniform(-1e-3, 1e-3)), float(rng.uniform(0, 100)))
    ok, m = chk.guard(lambda: helpers.exif_to_metadata(got, full["use_altitude_tag"], ref), "exif_to_metadata failed", **ctx)
    if not ok:
        return
    chk.count("shot measurements")
    if chk.expect(m.gps_position.has_value == ("latitude" in g), "a shot has a GPS position only when its metadata has one, and the reverse", got=got["gps"], **ctx) and "latitude" in g:
        alt = min(g.get("altitude", 2.0), 1e4) if full["use_altitude_tag"] else 2.0
        lla = ref.to_lla(*m.gps_position.value)
        chk.expect(np.allclose(lla, [g["latitude"], g["longitude"], alt], rtol=0, atol=[1e-8, 1e-8, 1e-3]), "the GPS position of a shot isn't that of its metadata", got=lla, want=g, **ctx)
        chk.expect(m.gps_accuracy.value == (g.get("dop") or 15.0), "the GPS accuracy of a shot isn't the DOP of its metadata", got=m.gps_accuracy.value, want=g.get("dop"), **ctx)
    chk.expect(m.orientation.value == got["orientation"], "the orientation of a shot isn't that of its metadata", **ctx)
    chk.expect(abs(m.capture_time.value - got["capture_time"]) < 1e-6, "the capture time of a shot isn't that of its metadata", **ctx)
    chk.expect(m.opk_angles.has_value == ("opk" in got), "a shot has orientation angles only when its metadata has some", **ctx)
    if "opk" in got:
        chk.expect(np.allclose(m.opk_angles.value, [got["opk"][k] for k in ("omega", "phi", "kappa")]), "the orientation angles of a shot aren't those of its metadata", **ctx)
    chk.expect(m.gravity_down.has_value == ("gravity_down" in got) and ("gravity_down" not in got or np.allclose(m.gravity_down.value, got["gravity_down"])),
               "the gravity of a shot isn't that of its metadata", **ctx)
    chk.expect(m.compass_angle.has_value == ("compass" in got) and ("compass" not in got or (m.compass_angle.value == got["compass"]["angle"] and m.compass_accuracy.value == got["compass"]["accuracy"])),
               "the compass of a shot isn't that of its metadata", **ctx)
    chk.expect(m.sequence_key.has_value == ("skey" in got) and ("skey" not in got or m.sequence_key.value == got["skey"]), "the sequence of a shot isn't that of its metadata", **ctx)


# ------------------------------------------------------------------ files
def files(chk, db, sensors, corpus):
    from opensfm import exif

    for i in range(chk.n(1600, 100000)):
        rng = chk.rng_for("file", i)
        P = Picture(chk, rng, db, sensors, corpus)
        data = P.data()
        named = unreadable(P)
        if rng.random() < 0.5:
            f = stdio.BytesIO(data)
        else:
            path = os.path.join(chk.tmp, "f.jpg")
            open(path, "wb").write(data)
            f = open(path, "rb")
        args = dict(use_exif_size=P.use_size, name="x.jpg" if isinstance(f, stdio.BytesIO) or rng.random() < 0.5 else None)
        ok, d = chk.guard(lambda: exif.extract_exif_from_file(f, lambda: (P.real[1], P.real[0]), **args), "reading the metadata of a file failed",
                          tags={k: repr(v)[:80] for k, v in P.tags.items()}, xmp=P.xmp, bad=list(P.bad))
        f.close()
        chk.case("file", [P.tags and sorted(P.tags), P.xmp and P.xmp[-400:], P.e], sig=(chk.shard, i))
        if not ok:
            continue
        chk.count("files")
        if named:
            judge(chk, P, d, "")
        # damaged file: anything but a failure of OpenSfM
        if len(data) > 700 and (P.tags or P.xmp):
            bad = bytearray(data)
            end = max(60, min(len(bad) - 640, 3000))
            for _ in range(int(rng.integers(1, 8))):
                bad[int(rng.integers(2, end))] = int(rng.integers(256))
            try:
                exif.extract_exif_from_file(stdio.BytesIO(bytes(bad)), lambda: (12, 16), P.use_size, "damaged.jpg")
            except Exception as e:
                last = traceback.extract_tb(e.__traceback__)
                inside = [t for t in last if "exifread" in t.filename]
                chk.count("failures of exifread" if inside else "failures on damaged files")
                if not inside:
                    chk.violation("reading the metadata of a damaged file failed", error=repr(e), where="%s:%d" % (os.path.basename(last[-1].filename), last[-1].lineno), data=bytes(bad).hex()[:6000])
            chk.count("corrupted files")


def configs(chk):
    import yaml
    from opensfm import config, dataset

    base = config.default_config()
    for i in range(chk.n(120, 8000)):
        rng = chk.rng_for("config", i)
        new = {}
        for k in rng.permutation(list(base))[: int(rng.integers(0, 12))]:
            v = base[str(k)]
            if isinstance(v, bool):
                v = not v
            elif isinstance(v, int):
                v = int(rng.integers(-3, 1000))
            elif isinstance(v, float):
                v = float(rng.choice([rng.uniform(0, 10), 1e-7, 5]))
            elif isinstance(v, str):
                v = str(rng.choice(["other", "no", "été: x", "007", ""]))
            elif isinstance(v, list):
                v = [3, "a"]
            else:
                v = {"x": 1}
            new[str(k)] = v
        if rng.random() < 0.3:
            new["my own key"] = 5
        if rng.random() < 0.3 and new:
            new[list(new)[0]] = None
        text = ["# nothing\n", ""][rng.integers(2)] if not new else yaml.safe_dump(new, allow_unicode=True)
        form = rng.integers(3)
        if form == 0:
            ok, got = chk.guard(lambda: config.load_config_from_fileobject(stdio.StringIO(text)), "loading a configuration failed", text=text)
        elif form == 1:
            ok, got = chk.guard(lambda: config.load_config_from_fileobject(stdio.BytesIO(text.encode())), "loading a configuration failed", text=text)
        else:
            root = os.path.join(chk.tmp, "c%d" % i)
            os.makedirs(root + "/images")
            open(root + "/images/a.jpg", "wb").close()
            if text or rng.random() < 0.5:
                open(root + "/config.yaml", "w", encoding="utf-8").write(text)
            ok, got = chk.guard(lambda: dataset.DataSet(root).config, "loading the configuration of a data set failed", text=text)
        if not ok:
            continue
        want = {**base, **new}
        diff = {k: (got.get(k), want.get(k)) for k in set(got) | set(want) if (k in got) != (k in want) or got[k] != want[k] or type(got[k]) is not type(want[k])}
        chk.expect(not diff, "the configuration isn't the default one with the values of the file", diff=diff, text=text)
        for k in got:
            got[k] = None
        chk.expect(config.default_config() == base, "changing a configuration changed the default one")
        chk.count("configurations")
        chk.case("config", text, sig=(chk.shard, i))


def run(chk):
    import logging

    import yaml
    from opensfm import context

    logging.getLogger("exifread").setLevel(logging.CRITICAL)
    raw = yaml.safe_load(open(context.CAMERA_CALIBRATION))[0]
    db = {mk.lower(): {k: ({m.lower(): v for m, v in e.items()} if k == "MODEL" else e) for k, e in kinds.items()} for mk, kinds in raw.items()}
    table = json.load(open(context.SENSOR_DATA))
    sensors = {k.lower(): v for k, v in table.items()}
    corpus = sorted(table)
    files(chk, db, sensors, corpus)
    datasets(chk, db, sensors, corpus)
    configs(chk)
