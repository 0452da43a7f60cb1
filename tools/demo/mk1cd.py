"""Small builder of synthetic .1CD files, for the demonstrations of planted bugs."""
import struct


class Blob:
    def __init__(self, step=1):
        self.d = bytearray(256); self.step = step

    def add(self, v, fill=250):
        n = max(1, -(-len(v) // fill)); first = len(self.d) // 256
        self.d += bytes(256 * n)
        order = list(range(first, first + n))
        if self.step < 0: order.reverse()
        for i, c in enumerate(order):
            part = v[i * fill:(i + 1) * fill]
            nxt = order[i + 1] if i + 1 < n else 0
            self.d[c * 256:c * 256 + 256] = (struct.pack("<IH", nxt, len(part)) + part).ljust(256, b"\x5a")
        return struct.pack("<II", order[0], len(v))


class Base:
    def __init__(self, ver="8.2.14", ps=4096):
        self.v = [int(x) for x in (ver + ".0.0").split(".")[:4]]
        self.n838 = self.v[:3] >= [8, 3, 8]
        self.ps = ps if self.n838 else 4096
        self.pages = [b""] * 3
        self.tables = []
        self.free = []
        self.leafbytes = [4]

    def alloc(self):
        self.pages.append(b""); return len(self.pages) - 1

    def obj_at(self, h, d, ver=(1, 2, 3)):
        ps = self.ps; np = -(-len(d) // ps); per = ps // 4 if self.n838 else 1023
        fat = (not self.n838) or np > ps // 4 - 6
        dp, tabs = [], []
        for i in range(np):
            if fat and i % per == 0: tabs.append(self.alloc())
            p = self.alloc(); dp.append(p)
            self.pages[p] = bytes(d[i * ps:(i + 1) * ps]).ljust(ps, b"\xa5")
        for t, p in enumerate(tabs):
            part = dp[t * per:(t + 1) * per]
            self.pages[p] = ((b"" if self.n838 else struct.pack("<I", len(part))) + struct.pack("<%dI" % len(part), *part)).ljust(ps, b"\0")
        if self.n838:
            b = tabs if fat else dp
            self.pages[h] = (b"\x1c\xfd" + struct.pack("<HIIIQ", fat, *ver, len(d)) + struct.pack("<%dI" % len(b), *b)).ljust(ps, b"\0")
        else:
            self.pages[h] = (b"1CDBOBV8" + struct.pack("<4I", len(d), *ver) + struct.pack("<%dI" % len(tabs), *tabs)).ljust(ps, b"\0")

    def obj(self, d, ver=(1, 2, 3)):
        h = self.alloc(); self.obj_at(h, d, ver); return h

    def index_file(self, idx):
        """idx: list of (keylen, [(key, rec)], per_leaf)"""
        pg = [bytearray(self.ps)]
        ref = (lambda n: n) if self.n838 else (lambda n: n * self.ps)
        for k, (L, ents, per) in enumerate(idx):
            start = len(pg); pg.append(bytearray(self.ps))
            leaves = [ents[i:i + per] for i in range(0, len(ents), per)] or [[]]
            base = len(pg); lv = []
            for i, le in enumerate(leaves):
                p = bytearray(self.ps); lo, hi, prev = 30, self.ps, None
                rb = L.bit_length(); w = self.leafbytes[i % len(self.leafbytes)]; nb = min(32, 8 * w - 2 * rb)
                struct.pack_into("<HHIIHIHHHHHH", p, 0, 2 | (len(leaves) == 1), len(le), ref(base + i - 1) if i else 0xffffffff, ref(base + i + 1) if i + 1 < len(leaves) else 0xffffffff,
                                 0, (1 << nb) - 1, (1 << rb) - 1, (1 << rb) - 1, nb, rb, rb, w)
                for key, rec in le:
                    left = 0
                    if prev is not None:
                        while left < L and key[left] == prev[left]: left += 1
                    right = 0
                    while right < L - left and key[L - 1 - right] == 0: right += 1
                    prev = key; n = L - left - right; hi -= n
                    p[hi:hi + n] = key[left:left + n]
                    p[lo:lo + w] = (rec | left << nb | right << (nb + rb)).to_bytes(w, "little"); lo += w
                struct.pack_into("<H", p, 12, hi - lo)
                pg.append(p); lv.append(base + i)
            root = lv[0]
            if len(lv) > 1:
                p = bytearray(self.ps); o = 12
                struct.pack_into("<HHII", p, 0, 1, len(lv), 0xffffffff, 0xffffffff)
                for le, l in zip(leaves, lv):
                    e = le[-1][0] + struct.pack(">II", le[-1][1], ref(l)); p[o:o + len(e)] = e; o += len(e)
                root = len(pg); pg.append(p)
            struct.pack_into("<IH", pg[start], 0, ref(root), L)
            struct.pack_into("<I", pg[0], 4 + 4 * k, ref(start))
        return b"".join(bytes(p) for p in pg)

    def table(self, name, fields, records, blob=None, indexes=(), lock=0):
        """fields: (name,type,null,len,prec); records: complete bytes; indexes: (name,primary,[(field,len)],keylen,entries,per_leaf)"""
        d = self.obj(b"".join(records)); b = self.obj(bytes(blob.d)) if blob else 0
        x = self.obj(self.index_file([(i[3], i[4], i[5]) for i in indexes])) if indexes else 0
        s = '{"%s",0,\n{"Fields"' % name
        for f in fields: s += ',\n{"%s","%s",%d,%d,%d,"CS"}' % f
        s += '\n},\n{"Indexes"'
        for i in indexes: s += ',\n{"%s",%d%s\n}' % (i[0], i[1], "".join(',\n{"%s",%d}' % f for f in i[2]))
        s += '},\n{"Recordlock","%d"},\n{"Files",%d,%d,%d}\n}' % (lock, d, b, x)
        self.tables.append(s)
        return d, b, x

    def save(self, path):
        h = b"ru_RU".ljust(8 if self.v[1] == 0 else 32, b"\0") + struct.pack("<I", len(self.tables))
        if not self.n838:
            for t in self.tables: h += struct.pack("<I", self.obj(t.encode("utf-16-le")))
            self.obj_at(2, h)
            self.pages[1] = (b"1CDBOBV8" + bytes(16)).ljust(self.ps, b"\0")
            if self.free:
                l = self.alloc()
                self.pages[l] = struct.pack("<%dI" % len(self.free), *self.free).ljust(self.ps, b"\0")
                self.pages[1] = (b"1CDBOBV8" + struct.pack("<4I", len(self.free), 0, 0, 0) + struct.pack("<I", l)).ljust(self.ps, b"\0")
        else:
            n = len(h) + 4 * len(self.tables)
            bl = Blob(); bl.add(bytes(n))
            at = [struct.unpack("<I", bl.add(t.encode("utf-8"))[:4])[0] for t in self.tables]
            lst = h + struct.pack("<%dI" % len(at), *at)
            b2 = Blob(); b2.add(lst); bl.d[:len(b2.d)] = b2.d
            self.obj_at(2, bytes(bl.d))
            self.pages[1] = b"\x1c\xff".ljust(self.ps, b"\0")
        self.pages[0] = (b"1CDBMSV8" + bytes(self.v) + struct.pack("<III", len(self.pages), 0, self.ps if self.n838 else 0)).ljust(self.ps, b"\0")
        with open(path, "wb") as f: f.write(b"".join(p.ljust(self.ps, b"\0") for p in self.pages))


def num(x, ln, neg=False):
    d = ("0" if neg else "1") + str(x).rjust(ln, "0")
    if len(d) % 2: d += "0"
    return bytes.fromhex(d)


def nvc(s, ln):
    u = s.encode("utf-16-le"); return struct.pack("<H", len(u) // 2) + u + b" \0" * (ln - len(u) // 2)


def run(*a):
    import subprocess
    return subprocess.run(["/repo/_build/bin/ctool1cd"] + list(a), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)


def deflate(d):
    import zlib
    c = zlib.compressobj(9, zlib.DEFLATED, -15); return c.compress(d) + c.flush()


def inflate(d):
    import zlib
    return zlib.decompress(d, -15)


DATE = bytes.fromhex("20200102030405")
FILES = [("FILENAME", "NVC", 0, 128, 0), ("CREATION", "DT", 0, 0, 0), ("MODIFIED", "DT", 0, 0, 0), ("ATTRIBUTES", "N", 0, 5, 0),
         ("DATASIZE", "N", 0, 10, 0), ("BINARYDATA", "I", 0, 0, 0), ("PARTNO", "N", 0, 10, 0)]


def infobase(b, config, save=(), params=()):
    """config, save, params: lists of (name, data[, part])"""
    for t, rows in (("CONFIG", config), ("CONFIGSAVE", save), ("PARAMS", params), ("FILES", ())):
        bl = Blob(); r = []
        for x in rows:
            r.append(b"\0" + nvc(x[0], 128) + DATE + DATE + num(0, 5) + num(len(x[1]), 10) + bl.add(x[1]) + num(x[2] if len(x) > 2 else 0, 10))
        b.table(t, FILES, r, bl)
    b.table("DBSCHEMA", [("SERIALIZEDDATA", "I", 0, 0, 0)], [])


def objid(n):
    return bytes([(0x12, 0x7e, 0x83, 0xc5)[n & 3]]) + bytes((0x11 * i + 29 * n) & 255 for i in range(1, 16))


def ms(g):
    return "-".join(x.hex() for x in (g[3::-1], g[5:3:-1], g[7:5:-1], g[8:10], g[10:]))


def depot(b, versions, history, externals=(), directory=None):
    """a repository (version 6 if a directory is given, else 5); versions: numbers; history: (object, version, data or None if removed);
    externals: (object, version, name, data or None). With a directory data are (data, hash) or as before."""
    import os
    B16 = ("B", 0, 16, 0); N10 = ("N", 0, 10, 0)
    six = directory is not None
    key = lambda n: bytes([1]) + struct.pack(">I", n) + b"\0"
    b.table("DEPOT", [("DEPOTID",) + B16, ("ROOTOBJID",) + B16, ("CREATEDATE", "DT", 0, 0, 0), ("DEPOTVER", "B", 0, 8, 0)],
            [b"\0" + bytes(range(16)) + bytes(range(16, 32)) + DATE + bytes([6 if six else 5]) + bytes(7)])
    b.table("USERS", [("USERID",) + B16, ("NAME", "NVC", 0, 20, 0)], [b"\0" + bytes(16) + nvc("user", 20)])
    b.table("OBJECTS", [("OBJID",) + B16], [])
    f = [("VERNUM",) + N10, ("USERID",) + B16, ("VERDATE", "DT", 0, 0, 0), ("PVERSION", "B", 0, 8, 0), ("CVERSION", "B", 0, 4, 0), ("CODE", "NVC", 1, 10, 0),
         ("COMMENT", "NT", 1, 0, 0), ("SNAPSHOTMAKER", "B", 1, 16, 0), ("SNAPSHOTCRC", "B", 1, 4, 0)]
    r = [b"\0" + num(n, 10) + bytes(16) + DATE + bytes(8) + b"\0\xd8\0\0" + b"\0" + bytes(22) + b"\0" + bytes(8) + b"\0" + bytes(16) + b"\0" + bytes(4) for n in versions]
    b.table("VERSIONS", f, r, Blob(), [("PK", 1, [("VERNUM", 6)], 6, [(key(n), i) for i, n in sorted(enumerate(versions), key=lambda x: x[1])], 1000)])
    b.table("LABELS", [("VERNUM",) + N10], [])
    f = [("OBJID",) + B16, ("VERNUM",) + N10, ("SELFVERNUM",) + N10, ("OBJVERID",) + B16, ("PARENTID",) + B16, ("OWNERID", "B", 1, 16, 0), ("OBJNAME", "NVC", 0, 20, 0),
         ("OBJPOS", "N", 0, 6, 0), ("REMOVED", "L", 0, 1, 0), ("DATAPACKED", "L", 1, 1, 0), ("OBJDATA", "I", 1, 0, 0)] + ([("DATAHASH", "B", 1, 20, 0)] if six else [])
    bl = Blob(); r = []; ks = []
    for i, (o, v, d) in enumerate(history):
        h = None
        if isinstance(d, tuple): d, h = d
        row = b"\0" + objid(o) + num(v, 10) + num(v, 10) + bytes([o, v]) * 8 + bytes(16) + b"\0" + bytes(16) + nvc("Object", 20) + num(o, 6)
        row += (b"\1\0\0" if d is None else b"\0\1\1") + (b"\0" + bytes(8) if d is None or h else b"\1" + bl.add(d))
        if six: row += b"\1" + h if h else b"\0" + bytes(20)
        r.append(row); ks.append((objid(o) + key(v), i))
    b.table("HISTORY", f, r, bl, [("PK", 1, [("OBJID", 16), ("VERNUM", 6)], 22, sorted(ks), 1000)])
    b.table("LASTESTVERSIONS", [("OBJID",) + B16], [])
    f = [("OBJID",) + B16, ("VERNUM",) + N10, ("EXTNAME", "NVC", 0, 40, 0), ("EXTVERID",) + B16, ("DATAPACKED", "L", 0, 1, 0), ("EXTDATA", "I", 0, 0, 0)] + ([("DATAHASH", "B", 1, 20, 0)] if six else [])
    bl = Blob(); r = []; ks = []
    for i, (o, v, n, d) in enumerate(externals):
        r.append(b"\0" + objid(o) + num(v, 10) + nvc(n, 40) + bytes([o, v]) * 8 + (b"\0" + bytes(8) if d is None else b"\1" + bl.add(d)) + ((b"\0" + bytes(20)) if six else b""))
        ks.append((objid(o) + key(v) + n.encode("utf-16-le").ljust(80, b"\0"), i))
    b.table("EXTERNALS", f, r, bl, [("PK", 1, [("OBJID", 16), ("VERNUM", 6), ("EXTNAME", 80)], 102, sorted(ks), 1000)])
    b.table("SELFREFS", [("OBJID",) + B16], []); b.table("OUTREFS", [("OBJID",) + B16], [])
    if six: os.makedirs(directory + "/data/pack")


def pack(directory, name, objects):
    ind = bytes(8) + struct.pack("<I", len(objects)); pck = b"PACKHEAD"
    for h, d in objects:
        ind += h + struct.pack("<Q", len(pck)); pck += struct.pack("<Q", len(d)) + d
    open(directory + "/data/pack/" + name + ".ind", "wb").write(ind)
    open(directory + "/data/pack/" + name + ".pck", "wb").write(pck)


def container(files, page=512):
    """files: list of (name, data)"""
    d = struct.pack("<IIII", 0x7fffffff, page, len(files), 0)
    bh = lambda n, p: b"\r\n%08x %08x %08x \r\n" % (n, p, 0x7fffffff)
    n = 12 * len(files); d += bh(n, max(n, page)); at = len(d); d += bytes(max(n, page)); toc = b""
    for name, x in files:
        h = bytes(20) + name.encode("utf-16-le") + bytes(4)
        toc += struct.pack("<III", len(d), len(d) + 31 + len(h), 0x7fffffff)
        d += bh(len(h), len(h)) + h + bh(len(x), len(x)) + x
    return d[:at] + toc + d[at + n:]


def files_of(d):
    """names and contents of the files of a container"""
    def chain(at):
        n, out = int(d[at + 2:at + 10], 16), b""
        while at != 0x7fffffff:
            p, nx = int(d[at + 11:at + 19], 16), int(d[at + 20:at + 28], 16)
            out += d[at + 31:at + 31 + p]; at = nx
        return out[:n]
    toc = chain(16); r = {}
    for i in range(0, len(toc) - 11, 12):
        h, x, e = struct.unpack_from("<III", toc, i)
        r[chain(h)[20:].decode("utf-16-le").rstrip("\0")] = chain(x) if x != 0x7fffffff else b""
    return r
