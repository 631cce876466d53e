"""Client for ocg_server: a thin, typed wrapper over OpenCompGraph's public C++ API."""
import os
import select
import shutil
import struct
import subprocess
import tempfile

import numpy as np

# Node types
NULL, READ, WRITE, GRADE, LENS, XFORM, MERGE, CROP, VIEWER, RESAMPLE = range(10)
TYPE_NAMES = ["Null", "ReadImage", "WriteImage", "Grade", "LensDistort", "Transform", "MergeImage", "CropImage",
              "Viewer", "ResampleImage"]
F32, HALF, U8, U16, UNKNOWN_T = 0, 1, 2, 3, 255
DT_NP = {F32: np.dtype("<f4"), HALF: np.dtype("<f2"), U8: np.dtype("u1"), U16: np.dtype("<u2")}
DT_NAME = {F32: "f32", HALF: "half", U8: "u8", U16: "u16"}
EXEC_ERROR, EXEC_OK, EXEC_UNINIT = 0, 1, 255
ST_ERROR, ST_VALID, ST_WARNING, ST_NONEXISTENT, ST_UNINIT = 0, 1, 2, 3, 255
DIRTY, CLEAN, UNINIT = 0, 1, 255


class Crash(Exception):
    """The code under test brought its process down."""


class HarnessError(Exception):
    """The harness failed (hang, protocol error): never a verdict about the code."""


def hx(s):
    if isinstance(s, str):
        s = s.encode("utf8")
    return s.hex() or "-"


def hf(x):
    return struct.pack("<f", x).hex()


def pack(fmt, xs):
    return struct.pack("<%d%s" % (len(xs), fmt), *xs).hex() or "-"


def unhx(s):
    return b"" if s == "-" else bytes.fromhex(s)


class Stream:
    """A snapshot of everything a StreamData exposes."""
    __slots__ = ("state", "hash", "display", "data", "deformers", "color_ops", "color_ops_hash", "width", "height",
                 "channels", "dtype", "buflen", "color_space", "gamma", "pixel_aspect", "orientation", "unassoc",
                 "dither", "matrix", "raw")

    def pixels(self):
        """(h, w, c) array in the stream's own data type; None if the buffer cannot hold it."""
        dt = DT_NP.get(self.dtype)
        if dt is None:
            return None
        n = self.width * self.height * self.channels
        if n < 0 or len(self.raw) != n * dt.itemsize:
            return None
        return np.frombuffer(self.raw, dtype=dt).reshape(self.height, self.width, self.channels)

    def meta(self):
        return {k: getattr(self, k) for k in self.__slots__ if k not in ("raw", "hash", "color_ops_hash")}


class Server:
    TIMEOUT = 120.0

    def __init__(self, path):
        self.path = path
        self.scratch_root = tempfile.mkdtemp(prefix="ocg_verif_")
        self.errfile = open(os.path.join(self.scratch_root, "stderr"), "w+b")
        self.p = None
        self.buf = b""
        self.tok = 0
        self.calls = 0
        self.ncase = 0
        self.scratch = None
        self.start()

    def start(self):
        env = dict(os.environ)
        for k in list(env):
            if k.startswith(("OCIO", "OPENCOMPGRAPH", "RUST_LOG", "OIIO", "OPENIMAGEIO")):
                del env[k]
        env["RUST_BACKTRACE"] = "0"
        env["OPENIMAGEIO_THREADS"] = "1"
        self.buf = b""
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errfile,
                                  env=env, cwd=self.scratch_root)
        os.set_blocking(self.p.stdout.fileno(), False)

    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None
        self.errfile.close()
        shutil.rmtree(self.scratch_root, ignore_errors=True)

    # -- protocol --
    def _readline(self):
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], self.TIMEOUT)
            if not r:
                self.p.kill()
                raise HarnessError("no reply within %ss" % self.TIMEOUT)
            chunk = os.read(self.p.stdout.fileno(), 1 << 20)
            if not chunk:
                raise HarnessError("server is gone")
            self.buf += chunk
        line, self.buf = self.buf.split(b"\n", 1)
        return line.decode("ascii", "replace")

    def _write(self, data):
        self.p.stdin.write(data)
        self.p.stdin.flush()

    def _resync(self):
        self.tok += 1
        want = "sync %d" % self.tok
        self._write(("sync %d\n" % self.tok).encode())
        while True:
            line = self._readline()
            if line == want:
                return
            if line.startswith("CRASH"):
                # the sync request may have died with the child
                self.tok += 1
                want = "sync %d" % self.tok
                self._write(("sync %d\n" % self.tok).encode())

    def stderr_tail(self):
        try:
            self.errfile.flush()
            size = os.fstat(self.errfile.fileno()).st_size
            with open(self.errfile.name, "rb") as fh:
                fh.seek(max(0, size - 1500))
                t = fh.read().decode("utf8", "replace")
            lines = [l for l in t.splitlines() if l.strip()]
            return " | ".join(lines[-3:])[-500:]
        except OSError:
            return ""

    def call(self, *args):
        line = " ".join(str(a) for a in args) + "\n"
        self.calls += 1
        self._write(line.encode("ascii"))
        r = self._readline()
        if r.startswith("CRASH"):
            msg = "%s in '%s' %s" % (r, " ".join(str(a) for a in args)[:80], self.stderr_tail())
            self._resync()
            raise Crash(msg)
        if r.startswith("ok"):
            return r.split()[1:]
        if r.startswith("err exception"):
            raise Crash("%s in '%s'" % (r, line.strip()[:80]))
        raise HarnessError("%s -> %s" % (line.strip()[:100], r))

    # -- cases --
    def new_case(self):
        """Drop all objects and give the case a scratch directory of its own."""
        self.call("reset")
        if self.scratch:
            shutil.rmtree(self.scratch, ignore_errors=True)
        self.ncase += 1
        self.scratch = os.path.join(self.scratch_root, "w")
        os.mkdir(self.scratch)
        self.errfile.seek(0)
        self.errfile.truncate()

    def path_for(self, name):
        """Relative to the server's working directory: the same in every run."""
        return "w/" + name

    def abs_path(self, path):
        return os.path.join(self.scratch_root, path)

    # -- graph --
    def graph(self, g=0):
        self.call("graph", g)

    def cache(self, c=0, capacity=1 << 30):
        self.call("cache", c, *([] if capacity is None else [capacity]))

    def cinfo(self, c=0):
        r = self.call("cinfo", c)
        return int(r[0]), int(r[1]), int(r[2]), unhx(r[3]).decode()

    def set_capacity(self, c, v):
        self.call("ccap", c, v)

    def node(self, n, ntype, g=0, id=None, name=None):
        if id is not None:
            r = self.call("node", g, n, ntype, "id", id)
        elif name is not None:
            r = self.call("node", g, n, ntype, "name", hx(name))
        else:
            r = self.call("node", g, n, ntype, "id", 1000 + n)
        return int(r[0]), int(r[1])

    def node_random(self, n, ntype, g=0):
        r = self.call("node", g, n, ntype)
        return int(r[0]), int(r[1])

    def delete(self, n, g=0):
        return self.call("del", g, n)[0] == "1"

    def connect(self, s, d, i=0, g=0):
        self.call("connect", g, s, d, i)

    def disconnect(self, d, i=0, g=0):
        self.call("disc", g, d, i)

    def seti(self, n, name, v, g=0):
        self.call("seti", g, n, hx(name), v)

    def x(self, *words):
        """A call of ocgx.rs; None where the tree does not compile with it."""
        r = self.call("x", *words)
        return None if r == ["none"] else r

    def setf(self, n, name, v, g=0):
        self.call("setf", g, n, hx(name), hf(v))

    def sets(self, n, name, v, g=0):
        self.call("sets", g, n, hx(name), hx(v))

    def set(self, n, attrs, g=0):
        for k, v in attrs.items():
            if isinstance(v, str):
                self.sets(n, k, v, g)
            elif isinstance(v, float):
                self.setf(n, k, v, g)
            else:
                self.seti(n, k, int(v), g)

    def geti(self, n, name, g=0):
        return int(self.call("geti", g, n, hx(name))[0])

    def getf(self, n, name, g=0):
        return struct.unpack("<f", unhx(self.call("getf", g, n, hx(name))[0]))[0]

    def gets(self, n, name, g=0):
        return unhx(self.call("gets", g, n, hx(name))[0]).decode("utf8", "replace")

    def attr_exists(self, n, name, g=0):
        return int(self.call("attr", g, n, hx(name))[0]) == 1

    def exists(self, n, g=0):
        return int(self.call("exists", g, n)[0]) == 1

    def status(self, n, g=0):
        return int(self.call("status", g, n)[0])

    def gstate(self, g=0):
        r = self.call("gstate", g)
        return int(r[0]), int(r[1])

    def execute(self, n, frames=(1,), c=0, g=0):
        if all(isinstance(f, int) for f in frames):
            return int(self.call("exec", g, n, c, pack("i", list(frames)))[0])
        return int(self.call("execd", g, n, c, pack("d", [float(f) for f in frames]))[0])

    def out(self, s=0, g=0):
        self.call("out", g, s)
        return self.stream(s)

    def stream(self, s=0):
        r = self.call("sinfo", s)
        o = Stream()
        o.state, o.hash = int(r[0]), int(r[1])
        o.display = tuple(map(int, r[2:6]))
        o.data = tuple(map(int, r[6:10]))
        o.deformers, o.color_ops, o.color_ops_hash = int(r[10]), int(r[11]), int(r[12])
        o.width, o.height, o.channels, o.dtype, o.buflen = map(int, r[13:18])
        o.color_space = unhx(r[18]).decode("utf8", "replace")
        o.gamma = struct.unpack("<f", unhx(r[19]))[0]
        o.pixel_aspect = struct.unpack("<f", unhx(r[20]))[0]
        o.orientation, o.unassoc, o.dither = int(r[21]), int(r[22]), int(r[23])
        o.matrix = struct.unpack("<16f", unhx(r[24]))
        o.raw = unhx(self.call("pix", s)[0])
        return o

    def deform(self, s, pts, display, data):
        r = self.call("deform", s, pack("f", display), pack("f", data), pack("f", pts))
        return np.frombuffer(unhx(r[0]), dtype="<f4")

    def color_ops(self, s, nch, px):
        r = self.call("colorops", s, nch, np.asarray(px, dtype="<f4").tobytes().hex() or "-")
        return np.frombuffer(unhx(r[0]), dtype="<f4")

    def _image(self, r):
        w, h, c, dt = map(int, r[0:4])
        px = np.frombuffer(unhx(r[18]), dtype="<f4") if r[18] != "?" else None
        return dict(w=w, h=h, c=c, dtype=dt, display=tuple(map(int, r[4:8])), data=tuple(map(int, r[8:12])),
                    color_space=unhx(r[12]).decode(), px=px)

    def lut3d(self, frm, to, edge, c=0):
        return self._image(self.call("lut3d", hx(frm), hx(to), edge, c))

    def lut_ops(self, s, edge, nch, c=0):
        return self._image(self.call("lutops", s, edge, nch, c))

    def color_convert(self, px, w, h, nch, alpha, unassoc, frm, to):
        r = self.call("colorconv", w, h, nch, alpha, int(unassoc), hx(frm), hx(to),
                      np.asarray(px, dtype="<f4").tobytes().hex() or "-")
        return r[0] == "1", np.frombuffer(unhx(r[1]), dtype="<f4")

    # -- files (OpenImageIO directly) --
    def write_image(self, path, px, dtype, data_xy=(0, 0), display=None, attrs=()):
        """px: (h, w, c) numpy array of DT_NP[dtype]; display: (min_x, min_y, max_x, max_y)."""
        h, w, c = px.shape
        if display is None:
            display = (data_xy[0], data_xy[1], data_xy[0] + w, data_xy[1] + h)
        extra = []
        for name, kind, v in attrs:
            extra += [hx(name), kind, hx(v) if kind == "s" else (v if kind == "i" else hf(v))]
        self.call("writeimg", hx(path), DT_NAME[dtype], w, h, c, data_xy[0], data_xy[1], display[0], display[1],
                  display[2] - display[0], display[3] - display[1],
                  np.ascontiguousarray(px, dtype=DT_NP[dtype]).tobytes().hex(), *extra)

    def read_image(self, path):
        try:
            r = self.call("readimg", hx(path))
        except HarnessError as e:
            if "err open" in str(e) or "err read" in str(e):
                return None
            raise
        w, h, c = map(int, r[1:4])
        return dict(format=unhx(r[0]).decode(), w=w, h=h, c=c, data=(int(r[4]), int(r[5]), int(r[4]) + w, int(r[5]) + h),
                    display=(int(r[6]), int(r[7]), int(r[6]) + int(r[8]), int(r[7]) + int(r[9])),
                    color_space=unhx(r[10]).decode(), compression=unhx(r[11]).decode(), pixel_aspect=float(r[12]),
                    orientation=int(r[13]),
                    gamma=float(r[14]), px=np.frombuffer(unhx(r[15]), dtype="<f4").reshape(h, w, c))
