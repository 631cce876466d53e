"""C11 written files, C12 path expansion, C13 frame ranges, C24 unreadable and unusual files."""
import os
import re
import shutil
import struct

import numpy as np
from hypothesis import strategies as st

import gen
import model
from core import Prop, Sub
from gen import compare_stream, fl, must, same_stream
from ocg import (CROP, DT_NP, EXEC_ERROR, EXEC_OK, F32, GRADE, HALF, LENS, READ, RESAMPLE, ST_ERROR, ST_VALID, ST_WARNING, U16, U8, VIEWER,
                 WRITE, XFORM, Crash, HarnessError, hx, unhx)

SRGB_EXT = ("jpg", "png", "jpeg", "jpe", "jif", "jfif", "jfi")
EXACT = {("exr", F32), ("exr", HALF), ("tif", F32), ("tif", U8), ("tif", U16), ("png", U8), ("png", U16), ("sgi", U8),
         ("sgi", U16), ("tga", U8), ("dpx", U8), ("dpx", U16)}
FLOAT_FILES = {"exr", "tif", "dpx"}
LOSSLESS = {0: "zip", 1: "none", 2: "rle", 3: "zip", 4: "zips", 5: "piz"}
LOSSY = {6: "pxr24", 7: "b44", 8: "b44a", 9: "dwaa", 10: "dwab"}


# ------------------------------------------------------------------ C11
FRAMES = st.sampled_from([1, 1, 0, -1, -12, 7, 1001, 123456])


@st.composite
def write_case(draw):
    fmt = draw(st.sampled_from(["exr"] * 5 + ["png", "png", "tif", "tif", "dpx", "tga", "sgi"]))
    f = draw(gen.image_file(fmts=("exr", "exr", "exr", "png"), max_size=7, kinds=(0, 1, 1, 2, 3)))
    if fmt not in ("exr", "tif"):
        f["c"] = 3
    nodes = [dict(t=READ, a=dict(file_path="@0"), ins=[])]
    for t in draw(st.lists(st.sampled_from([GRADE, GRADE, XFORM, LENS, CROP, RESAMPLE]), max_size=2)):
        a = dict(draw(gen.grade_attrs(alpha=False) if t == GRADE else
                      gen.crop_attrs(empty=False) if t == CROP else gen.ATTRS[t]))     # (no file holds an image without pixels)
        if t == GRADE:
            a.pop("process_a", None)
        if fmt not in ("exr", "tif") and any(n["t"] == CROP for n in nodes):
            continue             # (could give transparent pixels a colour, which these formats keep in their own way)
        if t == CROP:
            a["reformat"] = draw(st.integers(0, 1)) if fmt == "exr" else 0     # (where the display window can be anywhere)
        nodes.append(dict(t=t, a=a, ins=[[len(nodes) - 1, 0]]))
    w = dict(crop_on_write=draw(st.sampled_from([0, 1, 2, 2] if fmt == "exr" else [1, 2, 2])))
    gen.maybe(draw, w, "pixel_data_type", st.sampled_from([0, 1, 2, 3, 255]), 2)
    gen.maybe(draw, w, "exr_compression", st.integers(0, 10), 1)
    gen.maybe(draw, w, "exr_dwa_compression_level", st.integers(10, 200), 2)
    gen.maybe(draw, w, "png_compression_level", st.integers(0, 9), 2)
    nodes.append(dict(t=WRITE, a=w, ins=[[len(nodes) - 1, 0]]))
    meta = []
    if f["fmt"] == "exr":
        if draw(st.integers(0, 2)) == 0:
            meta.append(["PixelAspectRatio", "f", draw(st.sampled_from([1.0, 2.0, 0.5, 1.5, 1.25]))])
        if fmt == "exr" and draw(st.integers(0, 2)) == 0:    # (other formats may turn the image)
            meta.append(["Orientation", "i", draw(st.integers(1, 8))])
    ext = draw(st.sampled_from([fmt] * 4 + [fmt.upper(), fmt.capitalize()]))
    stem = draw(st.sampled_from(["out"] * 9 + ["out.jpg", "out.png", "a.jpeg.b", "out.exr", "exr", "out.dpx"]))
    return dict(files=[f], nodes=nodes, fmt=fmt, meta=meta, frame=draw(FRAMES), ext=ext, stem=stem)


def file_meta(case):
    m = {k: v for k, _, v in case["meta"]}
    return m.get("PixelAspectRatio", 1.0), m.get("Orientation", 1)


def check_write(case, srv):
    f, fmt = case["files"][0], case["fmt"]
    src = srv.path_for(gen.file_name(0, f))
    srv.write_image(src, model.content(f["kind"], f["seed"], f["h"], f["w"], f["c"], f["dtype"]), f["dtype"],
                    (f["x"], f["y"]), tuple(f["display"]), [tuple(m) for m in case["meta"]])
    out = srv.path_for(case.get("stem", "out") + "." + case.get("ext", fmt))
    gen.put_graph(case, srv)
    srv.cache()
    t = len(case["nodes"]) - 1
    srv.sets(t, "file_path", out)
    must(srv.execute(t - 1, [case["frame"]]) == EXEC_OK, "execute failed")
    before = srv.out(0)
    must(not os.path.exists(srv.abs_path(out)), "a file was written before the node was executed")
    must(srv.execute(t, [case["frame"]]) == EXEC_OK, "execute failed", "writing %s" % fmt)
    must(srv.status(t) == ST_VALID, "status of the writer")
    same_stream(before, srv.out(1), "input / output of the writer", hashes=False)
    must(sorted(os.listdir(srv.scratch)) == sorted(os.path.basename(p) for p in (src, out)), "files written",
         str(sorted(os.listdir(srv.scratch))))

    a = model.attrs_of(WRITE, case["nodes"][t]["a"])
    got = srv.read_image(out)
    must(got is not None, "the written file cannot be read", fmt)
    try:
        model.HINTS[:] = [got["data"]] if fmt == "exr" and a["crop_on_write"] != 1 else []
        s = gen.model_eval(case, t - 1, hints=model.HINTS)[t - 1][1].copy()
        model.bake(s, model.ALL, "sRGB" if fmt in SRGB_EXT else "Linear", a["pixel_data_type"])
        if a["crop_on_write"] == 1 or (a["crop_on_write"] == 2 and fmt != "exr"):
            model.crop(s, s.display, True, False)
    except model.Unsure:
        return False, ["no prediction"]
    if s.width * s.height > 200000:
        return False, ["large"]
    must(got["data"] == s.data and got["display"] == s.display, "windows of the written file",
         "data %r display %r, expected %r %r" % (got["data"], got["display"], s.data, s.display))
    must(got["c"] == s.px.shape[2], "channels of the written file", "%d, expected %d" % (got["c"], s.px.shape[2]))
    labels = [fmt, "type=%d" % s.dtype, "crop=%d" % a["crop_on_write"]]
    comp = a["exr_compression"]
    lossy = fmt == "exr" and comp in LOSSY
    px, err = s.px, s.err
    if not lossy:
        if (fmt, s.dtype) in EXACT:
            slack = 1e-6
        elif fmt in FLOAT_FILES:
            slack = 1e-3
        else:
            slack = 1 / 255.0
        if fmt not in FLOAT_FILES:
            lo, hi = np.clip(px - err, 0, 1), np.clip(px + err, 0, 1)
            px, err = np.where(np.isfinite(err), (lo + hi) / 2, 0), np.where(np.isfinite(err), (hi - lo) / 2, np.inf)
        with np.errstate(all="ignore"):
            tol = err + slack + np.abs(px) * max(2e-6, slack)
            bad = ~(np.abs(got["px"] - px) <= tol) & np.isfinite(err)
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            must(False, "pixels of the written file", "%s %r: %r, expected %r +- %.2g (%d of %d differ)" % (
                fmt, i, float(got["px"][i]), float(px[i]), float(tol[i]), bad.sum(), bad.size))
    frac = float(np.isfinite(err).mean())
    if fmt == "exr":
        must(got["compression"] == {**LOSSLESS, **LOSSY}[comp], "compression of the file",
             "%r, asked for %r" % (got["compression"], {**LOSSLESS, **LOSSY}[comp]))
        if (s.dtype, got["format"]) not in ((F32, "float"), (HALF, "half"), (U8, got["format"]), (U16, got["format"])):
            must(False, "data type of the file", "%s for type %d" % (got["format"], s.dtype))
        if comp in (9, 10):
            raw = open(srv.abs_path(out), "rb").read()
            m = re.search(rb"dwaCompressionLevel\0float\0....(....)", raw, re.S)
            must(m is not None and struct.unpack("<f", m.group(1))[0] == float(a["exr_dwa_compression_level"]),
                 "compression level of the file", "level %r" % (m and struct.unpack("<f", m.group(1))[0]))
        aspect, orient = file_meta(case)
        must(abs(got["pixel_aspect"] - aspect) < 1e-4, "pixel aspect ratio", "%r, expected %r" % (got["pixel_aspect"], aspect))
        must(got["orientation"] == orient, "orientation", "%r, expected %r" % (got["orientation"], orient))
        labels.append("compression=%d" % comp)
    elif fmt == "tif":
        if s.dtype != HALF:
            must(got["format"] == {F32: "float", U8: "uint8", U16: "uint16"}[s.dtype], "data type of the file", got["format"])
    elif (fmt, s.dtype) in EXACT:
        must(got["format"] == {U8: "uint8", U16: "uint16"}[s.dtype], "data type of the file", got["format"])
    if fmt == "png":
        raw = open(srv.abs_path(out), "rb").read()
        i = raw.find(b"IDAT")
        flevel = raw[i + 5] >> 6
        lv = a["png_compression_level"]
        must((raw[i + 6] >> 1 & 3 == 0) if lv == 0 else True, "compression of the file", "level 0, block type %d" % (raw[i + 6] >> 1 & 3))
        must(flevel == (0 if lv < 2 else 1 if lv < 6 else 2 if lv == 6 else 3), "compression level of the file",
             "level %d, zlib class %d" % (lv, flevel))

    # and the nodes themselves can read it
    srv.graph(1)
    srv.node(50, READ, g=1)
    srv.sets(50, "file_path", out, g=1)
    must(srv.execute(50, [1], g=1) == EXEC_OK and srv.status(50, g=1) == ST_VALID, "the written file cannot be read back")
    r = srv.out(2, g=1)
    dw = s.display
    must(r.display == (0, 0, dw[2] - dw[0], dw[3] - dw[1]) and
         r.data == tuple(v - dw[i % 2] for i, v in enumerate(s.data)), "windows read back", "%r %r" % (r.display, r.data))
    must(r.color_space == {"exr": "Linear", "png": "sRGB"}.get(fmt, r.color_space), "colour space read back", r.color_space)
    p = r.pixels()
    must(p is not None, "pixel buffer")
    c = min(got["c"], r.channels)
    if not (fmt == "png" and got["c"] == 4):
        d = model.decode(p, r.dtype)[..., :c] - got["px"][..., :c]
        ok = np.abs(d) <= 1e-6 + np.abs(got["px"][..., :c]) * 1e-6
        must((ok | ~np.isfinite(got["px"][..., :c])).all(), "pixels read back")
    if fmt == "exr":
        must(abs(r.pixel_aspect - aspect) < 1e-4 and r.orientation == orient - 1, "spec read back",
             "%r %r" % (r.pixel_aspect, r.orientation))
    return frac > 0.5, labels + ["lossy"] * lossy


# JPEG
@st.composite
def jpeg_case(draw):
    f = dict(fmt="exr", dtype=F32, w=draw(st.integers(1, 24)), h=draw(st.integers(1, 24)), c=3, x=0, y=0, kind=0,
             seed=draw(st.integers(0, 999)))
    f["display"] = [0, 0, f["w"], f["h"]]
    a = dict(pixel_data_type=U8)
    gen.maybe(draw, a, "jpeg_compression_level", st.integers(1, 100))
    gen.maybe(draw, a, "jpeg_subsampling", st.integers(0, 4))
    gen.maybe(draw, a, "jpeg_progressive", st.integers(0, 1))
    return dict(files=[f], a=a, ext=draw(st.sampled_from(["jpg", "jpg", "jpeg", "jpe", "jfif", "JPG", "Jpeg", "jPe", "jif", "jfi", "JIF"])), frame=draw(FRAMES))


def jpeg_facts(raw):
    """(progressive, sampling factors, quantisation tables)"""
    i, prog, samp, tables = 2, None, None, []
    while i + 4 <= len(raw) and raw[i] == 0xFF:
        m, n = raw[i + 1], struct.unpack(">H", raw[i + 2:i + 4])[0]
        seg = raw[i + 4:i + 2 + n]
        if m == 0xDB:
            tables.append(seg)
        if m in (0xC0, 0xC1, 0xC2):
            prog = m == 0xC2
            samp = tuple(seg[6 + 3 * k + 1] for k in range(seg[5]))
        if m == 0xDA:
            break
        i += 2 + n
    return prog, samp, b"".join(tables)


SAMPLING = {1: "4:4:4", 2: "4:2:2", 3: "4:2:0", 4: "4:2:1"}


def check_jpeg(case, srv):
    gen.put_files(case, srv)
    out, ref = srv.path_for("out." + case["ext"]), srv.path_for("ref.jpg")
    srv.graph()
    srv.cache()
    srv.node(0, READ)
    srv.sets(0, "file_path", srv.path_for("f0.exr"))
    srv.node(1, WRITE)
    srv.set(1, case["a"])
    srv.sets(1, "file_path", out)
    srv.connect(0, 1)
    must(srv.execute(1, [case["frame"]]) == EXEC_OK, "execute failed", "writing a JPEG file")
    a = model.attrs_of(WRITE, case["a"])
    got = srv.read_image(out)
    must(got is not None, "the written file cannot be read")
    s = model.stream_of_file(case["files"][0]).copy()
    model.bake(s, model.ALL, "sRGB", U8)
    must((got["w"], got["h"], got["c"]) == (s.width, s.height, 3), "size of the written file")
    q = a["jpeg_compression_level"]
    tol = 0.02 if q >= 80 else 0.08 if q >= 30 else 0.5
    must((np.abs(got["px"] - s.px) <= tol).all(), "pixels of the written file", "quality %d" % q)
    extra = [("Compression", "s", "jpeg"), ("CompressionQuality", "i", q), ("jpeg:progressive", "i", a["jpeg_progressive"])]
    if a["jpeg_subsampling"]:
        extra.append(("jpeg:subsampling", "s", SAMPLING[a["jpeg_subsampling"]]))
    srv.write_image(ref, np.round(s.px * 255).astype(np.uint8), U8, attrs=extra)
    g, w = (jpeg_facts(open(srv.abs_path(p), "rb").read()) for p in (out, ref))
    must(g == w, "settings of the JPEG file", "progressive %r/%r, sampling %r/%r, same tables: %r" % (g[0], w[0], g[1], w[1], g[2] == w[2]))
    return bool(case["a"]), [case["ext"], "subsampling=%d" % a["jpeg_subsampling"], "progressive=%d" % a["jpeg_progressive"]]


# nothing written, or an error
@st.composite
def nowrite_case(draw):
    how = draw(st.sampled_from(["execute=0", "enable=0", "no input", "upstream only", "bad dir", "bad extension", "empty path",
                                "is a directory"]))
    return dict(how=how, files=[draw(gen.image_file(max_size=4))], ext=draw(st.sampled_from(["exr", "png", "tif"])),
                frames=draw(st.integers(1, 3)), existing=draw(st.booleans()))


def check_nowrite(case, srv):
    how = case["how"]
    gen.put_files(case, srv)
    srv.graph()
    srv.cache()
    name = "out." + case["ext"]
    path = srv.path_for(name)
    if how == "bad dir":
        path = srv.path_for("nowhere/" + name)
    elif how == "bad extension":
        path = srv.path_for("out.nosuchformat")
    elif how == "empty path":
        path = ""
    elif how == "is a directory":
        os.mkdir(srv.abs_path(path))
    elif case["existing"]:
        with open(srv.abs_path(path), "w") as fh:
            fh.write("kept")
    srv.node(0, READ)
    srv.sets(0, "file_path", srv.path_for(gen.file_name(0, case["files"][0])))
    srv.node(1, WRITE)
    srv.sets(1, "file_path", path)
    if how in ("execute=0", "enable=0"):
        srv.seti(1, how[:-2], 0)
    if how != "no input":
        srv.connect(0, 1)

    def tree():
        return sorted((p, tuple(d), tuple(fs)) for p, d, fs in os.walk(srv.scratch))
    before = tree()
    target = 0 if how == "upstream only" else 1
    r = srv.execute(target, list(range(1, case["frames"] + 1)))
    fails = how in ("bad dir", "bad extension", "empty path", "is a directory")
    must(r == (EXEC_ERROR if fails else EXEC_OK), "execute status", "%d (%s)" % (r, how))
    if how != "upstream only":
        want = ST_ERROR if fails else ST_WARNING if how == "no input" else ST_VALID
        must(srv.status(1) == want, "status of the writer", "%d (%s), expected %d" % (srv.status(1), how, want))
    must(tree() == before, "files were written", "%s: %r" % (how, tree()))
    if case["existing"] and not fails:
        must(open(srv.abs_path(path)).read() == "kept", "an existing file was overwritten", how)
    return True, [how]


# a full disk
@st.composite
def full_case(draw):
    f = dict(fmt="exr", dtype=F32, w=draw(st.integers(40, 90)), h=draw(st.integers(40, 90)), c=draw(st.sampled_from([3, 4])), x=0, y=0, kind=3,
             seed=draw(st.integers(0, 999)))
    f["display"] = [0, 0, f["w"], f["h"]]
    a = dict(exr_compression=draw(st.sampled_from([1, 1, 2])))
    return dict(files=[f], a=a, pos=draw(st.floats(0, 1)), again=draw(st.booleans()))


TAIL = 20000     # OpenEXR buffers, and ignores errors of the last buffer, which is written on closing


def check_full(case, srv):
    """The disk fills up while the pixels are written."""
    gen.put_files(case, srv)
    srv.graph()
    srv.cache()
    srv.node(0, READ)
    srv.sets(0, "file_path", srv.path_for("f0.exr"))
    srv.node(1, WRITE)
    srv.set(1, case["a"])
    srv.connect(0, 1)
    whole, part = srv.path_for("a.exr"), srv.path_for("b.exr")
    srv.sets(1, "file_path", whole)
    must(srv.execute(1, [1]) == EXEC_OK, "execute failed")
    n = os.path.getsize(srv.abs_path(whole))
    if n <= TAIL:
        return False, ["small file"]
    limit = int(case["pos"] * (n - TAIL))
    srv.sets(1, "file_path", part)
    srv.call("fsize", limit)
    r = srv.execute(1, [1])
    srv.call("fsize", -1)
    now = os.path.getsize(srv.abs_path(part)) if os.path.exists(srv.abs_path(part)) else 0
    must(r == EXEC_ERROR and srv.status(1) == ST_ERROR, "a file which could not be written was not reported",
         "%d of %d bytes written, execute status %d" % (now, n, r))
    if case["again"]:
        must(srv.execute(1, [1]) == EXEC_OK and srv.status(1) == ST_VALID, "writing again failed")
        must(os.path.getsize(srv.abs_path(part)) == n, "the file written again")
    return True, ["again" if case["again"] else "once"]


# ------------------------------------------------------------------ C12
WORDS = ["a", "shot", "x.y", "é", "影", "v001", "b-c", "_", "0"]
ENVS = {"OCGT_A": "aa", "OCGT_B": "bb##", "OCGT_DIR": "sub"}


@st.composite
def path_case(draw):
    parts = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["word", "word", "hash", "hash", "env", "unknown"]))
        if k == "word":
            parts.append(draw(st.sampled_from(WORDS)))
        elif k == "hash":
            parts.append("#" * draw(st.sampled_from([1, 2, 3, 4, 4, 5, 7, 9, 10, 11, 12, 16, 21])))
        elif k == "env":
            n = draw(st.sampled_from(sorted(ENVS)))
            parts.append(draw(st.sampled_from(["${%s}", "${%s:-zz}"])) % n)
        else:
            parts.append(draw(st.sampled_from(["${OCGT_NONE:-dflt}", "${OCGT_NONE:-d#}", "${OCGT_NONE}"])))
    root = draw(st.sampled_from(["w/", "w/", "$OCGT_ROOT/", "${OCGT_ROOT}/", "~/", "./w/", "w/sub/../", " w/", "w//"]))
    frames = st.one_of(st.integers(-12, 12), st.sampled_from([0, 1, 99, 100, 1001, 9999, 10000, 123456, -1, -100, -1001, 2147483647, -2147483648]),
                       st.integers(-10 ** 6, 10 ** 6))
    return dict(root=root, name="".join(parts), ext=draw(st.sampled_from([".exr", ".exr", ".tif"])), frame=draw(frames),
                write=draw(st.booleans()), decoy=draw(st.integers(0, 3)), use_cache=draw(st.integers(0, 1)),
                link=draw(st.integers(0, 5)) == 0)


def expand(path, env, frame):
    """The reference expansion: environment variables and ~, then the first run of '#'."""
    def var(m):
        name, default = m.group(1) or m.group(3), m.group(2)
        if name in env:
            return env[name]
        if default is not None:
            return default
        raise KeyError(name)
    try:
        p = path
        if p.startswith("~/"):
            p = env["HOME"] + p[1:]
        p = re.sub(r"\$\{(\w+)(?::-([^}]*))?\}|\$(\w+)", var, p)
    except KeyError:
        p = path
    m = re.search("#+", p)
    if m:
        n = m.end() - m.start()
        digits = str(abs(frame))
        sign = "-" if frame < 0 else ""
        p = p[:m.start()] + sign + "0" * max(0, n - len(digits) - len(sign)) + digits + p[m.end():]
    return p


@st.composite
def expand_case(draw):
    t = st.one_of(st.sampled_from(WORDS + ["/", ".", "..", " ", "\U0001F600", "%04d", "\\", "@", "-", "a-", "%"]), st.text(alphabet="a\u00e91./_- ", max_size=3),
                  st.integers(1, 14).map(lambda n: "#" * n))
    frames = st.one_of(st.integers(-12, 12), st.sampled_from([0, 99, 100, 1001, 9999, 10000, -100, -1001, 2147483647, -2147483648]),
                       st.integers(-2 ** 31, 2 ** 31 - 1))
    return dict(s="".join(draw(st.lists(t, max_size=7))), frame=draw(frames))


def check_expand(case, srv):
    r = srv.x("expand", case["frame"], hx(case["s"]))
    if r is None:
        return False, ["no access"]
    got = unhx(r[0]).decode("utf8", "replace")
    want = expand(case["s"], {}, case["frame"])
    must(got == want, "expanded path", "%r at %d: %r, expected %r" % (case["s"], case["frame"], got, want))
    return "#" in case["s"], ["hash"] * ("#" in case["s"]) + ["non-ascii"] * (not case["s"].isascii())


def put_env(srv):
    env = dict(ENVS)
    env["OCGT_ROOT"] = "w"
    env["HOME"] = srv.scratch
    for k, v in env.items():
        srv.call("setenv", k, hx(v))
    srv.call("setenv", "OCGT_NONE")
    return env


def const_image(v):
    return np.full((1, 1, 3), v, dtype=np.float32)


def check_path(case, srv):
    os.mkdir(os.path.join(srv.scratch, "sub"))
    tilde = os.path.join(srv.scratch_root, "~")       # (a path with an unknown variable is used as it is, ~ included)
    blank = os.path.join(srv.scratch_root, " w")
    for d in (tilde, blank):
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
    env = put_env(srv)
    path = case["root"] + case["name"] + case["ext"]
    want = os.path.normpath(os.path.join(srv.scratch_root, expand(path, env, case["frame"])))
    if not want.startswith(srv.scratch_root) or len(os.path.basename(want).encode()) > 200 or not os.path.isdir(os.path.dirname(want)):
        return False, ["outside"]
    srv.graph()
    srv.cache()
    if case["write"]:
        srv.node(0, READ)          # (no file: the default image)
        srv.node(1, WRITE)
        srv.sets(1, "file_path", path)
        srv.connect(0, 1)
        must(srv.execute(1, [case["frame"]]) == EXEC_OK, "execute failed", path)
        have = [os.path.join(d, f) for d, _, fs in os.walk(srv.scratch_root) for f in fs if not f.startswith("stderr")]
        must(have == [want], "file written", "%r frame %d: %r, expected %r" % (path, case["frame"], have, want))
        return "#" in path or "$" in path or "~" in path, ["write", "root=" + case["root"]]
    files = {want: 0.25}
    f = case["frame"]
    near = expand(path, env, f + 1 if f < 2 ** 31 - 1 else 0)
    near = os.path.normpath(os.path.join(srv.scratch_root, near))
    decoys = [near, os.path.normpath(os.path.join(srv.scratch_root, path)), os.path.normpath(os.path.join(srv.scratch_root, expand(path, env, f).strip()))]
    missing = case["decoy"] == 0
    for i, d in enumerate(decoys[:case["decoy"] or 3]):
        if d != want and os.path.isdir(os.path.dirname(d)) and len(os.path.basename(d).encode()) < 200:
            files[d] = 0.5 + 0.125 * i
    if missing:
        del files[want]
    for p, v in files.items():
        if case["link"] and p == want:       # (a symbolic link is as good as a file)
            real = os.path.join(srv.scratch, "sub", "real" + case["ext"])
            if real not in files:
                srv.write_image(real, const_image(v), F32)
                os.symlink(real, p)
                continue
        srv.write_image(p, const_image(v), F32)
    srv.node(0, READ)
    srv.set(0, dict(file_path=path, use_cache=case["use_cache"]))
    must(srv.execute(0, [f]) == EXEC_OK, "execute failed", path)
    o = srv.out()
    st_ = srv.status(0)
    if missing:
        must(st_ == ST_WARNING and o.width == 4, "a missing file", "status %d, image %dx%d" % (st_, o.width, o.height))
    else:
        must(st_ == ST_VALID, "status", "%d reading %r at frame %d (%r)" % (st_, path, f, os.path.basename(want)))
        v = float(o.pixels()[0, 0, 0])
        must(o.width == 1 and v == 0.25, "the wrong file was read", "%r at frame %d" % (path, f))
    return "#" in path or "$" in path or "~" in path, ["read", "missing" if missing else "found", "root=" + case["root"]]


# ------------------------------------------------------------------ C13
def round_frame(f):
    """Half away from zero."""
    return int(np.sign(f) * np.floor(abs(f) + 0.5))


@st.composite
def frames_case(draw):
    lo = draw(st.one_of(*[st.integers(-3, 1000)] * 5, st.sampled_from([16777217, 33554435, -16777223, 99999997, 2147483641, -2147483648])))
    offs = list(range(7))
    if draw(st.integers(0, 3)) == 0:       # frames whose numbers have the same low bits
        j = 1 << draw(st.integers(3, 28))
        offs = [o for o in [0, 1, 2, 3, j, j + 1, 2 * j] if lo + o < 2 ** 31]
    fl_ = st.one_of(st.sampled_from([lo + o for o in offs]), st.sampled_from([lo + o for o in offs]),
                    st.floats(lo, lo + 6),
                    st.sampled_from([lo + 0.5, lo + 1.5, lo + 0.25, lo + 2.75, lo + 0.49]))
    return dict(lo=lo, offs=offs, have=sorted(set(draw(st.lists(st.integers(0, 6), max_size=7)))), pad=draw(st.sampled_from([1, 3, 4, 4, 0])),
                runs=[dict(frames=draw(st.lists(fl_, min_size=1, max_size=6)) * (draw(st.sampled_from([1] * 120 + [60, 60, 200]))), node=draw(st.sampled_from([1, 2, 2, 2])))
                      for _ in range(draw(st.integers(1, 3)))],
                cache=draw(st.sampled_from([0, 60, 1 << 20])), outpad=draw(st.sampled_from([2, 4])),
                read_cache=draw(st.sampled_from([1, 1, 0])), ints=draw(st.booleans()))


def check_frames(case, srv):
    """A sequence is read and written frame by frame; each frame's file gets that frame's pixels."""
    pad = "#" * case["pad"]
    env = {}
    values = {}
    for i in case["have"] if pad else [0]:
        if i >= len(case["offs"]):
            continue
        f = case["lo"] + case["offs"][i]
        p = expand("w/in%s.exr" % pad, env, f)
        values[f] = model.f32(0.125 + 0.0625 * i)
        srv.write_image(p, const_image(values[f]), F32)
    srv.graph()
    srv.cache(0, case["cache"])
    srv.node(0, READ)
    srv.sets(0, "file_path", "w/in%s.exr" % pad)
    srv.seti(0, "use_cache", case["read_cache"])
    srv.node(1, GRADE)
    srv.setf(1, "multiply_r", 2.0)
    srv.connect(0, 1)
    srv.node(2, WRITE)
    srv.sets(2, "file_path", "w/out%s.exr" % ("#" * case["outpad"]))
    srv.connect(1, 2)
    written = {}
    blank = False
    for run in case["runs"]:
        frames = [round_frame(f) for f in run["frames"]] if case["ints"] else run["frames"]
        must(srv.execute(run["node"], frames) == EXEC_OK, "execute failed", repr(frames))
        for f in map(round_frame, frames):
            v = values.get(f) if pad else values[case["lo"]]
            if run["node"] == 2:
                written[expand("out%s.exr" % ("#" * case["outpad"]), env, f)] = v
        v = values.get(round_frame(frames[-1])) if pad else values[case["lo"]]
        blank |= v is None
        o = srv.out()
        must(srv.status(0) == (ST_WARNING if v is None else ST_VALID), "status of the reader after the last frame")
        must(srv.gstate() == (1, EXEC_OK), "state of the graph after executing")
        if v is None:
            must((o.width, o.height) == (4, 4), "last frame", "%dx%d" % (o.width, o.height))
        else:
            must(o.width == 1 and float(o.pixels()[0, 0, 1]) == v, "the output is not the last frame",
                 "%r of frames %r" % (float(o.pixels()[0, 0, 1]), frames))
        have = sorted(n for n in os.listdir(srv.scratch) if n.startswith("out"))
        must(have == sorted(written), "files written", "%r, expected %r" % (have, sorted(written)))
        for n, v in written.items():
            g = srv.read_image(srv.path_for(n))
            if v is None:
                must(g["w"] == 4, "frame written", n)
            else:
                must(g["w"] == 1 and abs(g["px"][0, 0, 0] - 2 * v) < 1e-6 and abs(g["px"][0, 0, 1] - v) < 1e-6, "pixels of a frame",
                     "%s: %r, expected %r" % (n, g["px"][0, 0].tolist(), [2 * v, v, v]))
    return len({round_frame(f) for r in case["runs"] for f in r["frames"]}) > 1, ["missing frames"] * blank + [
        "fractional"] * (not case["ints"]) + ["pad=%d" % case["pad"]]


@st.composite
def stop_case(draw):
    n = draw(st.integers(1, 6))
    return dict(n=n, bad=draw(st.integers(0, n)), perm=draw(st.permutations(list(range(n)))))


def check_stop(case, srv):
    """A frame which fails ends the execution with an error; the frames before it were done, none after."""
    srv.graph()
    srv.cache()
    srv.node(0, READ)
    srv.node(1, WRITE)
    srv.sets(1, "file_path", "w/out#.exr")
    srv.connect(0, 1)
    frames = case["perm"]
    if case["bad"] < case["n"]:
        os.mkdir(srv.abs_path("w/out%d.exr" % frames[case["bad"]]))
    r = srv.execute(1, list(frames))
    done = {n for n in os.listdir(srv.scratch) if os.path.isfile(os.path.join(srv.scratch, n))}
    want = {"out%d.exr" % f for f in frames[:case["bad"]]}
    must(r == (EXEC_OK if case["bad"] == case["n"] else EXEC_ERROR), "execute status", str(r))
    must(srv.gstate()[1] == r, "execute status of the graph")
    if r == EXEC_ERROR:
        must(srv.status(1) == ST_ERROR, "status of the writer", str(srv.status(1)))
        must(want <= done, "frames before the failure are missing", repr(done))
        # once the obstacle is gone, everything works
        os.rmdir(srv.abs_path("w/out%d.exr" % frames[case["bad"]]))
        must(srv.execute(1, list(frames)) == EXEC_OK and srv.status(1) == ST_VALID, "no recovery from the failure")
        must(set(os.listdir(srv.scratch)) == {"out%d.exr" % f for f in frames}, "files after the recovery")
    else:
        must(done == want, "files written", repr(done))
    return case["bad"] < case["n"] and case["n"] > 1, ["bad=%s" % (case["bad"] < case["n"])]


# ------------------------------------------------------------------ C24
RAW_TYPES = {"f32": "<f4", "half": "<f2", "u8": "u1", "u16": "<u2", "u32": "<u4", "f64": "<f8"}


@st.composite
def odd_case(draw):
    fmt = draw(st.sampled_from(["exr", "exr", "tif", "tif", "png", "dpx", "tga", "sgi"]))
    types = dict(exr=["f32", "half", "u32"], tif=["u8", "u16", "u32", "half", "f32"], png=["u8", "u16"], dpx=["u8", "u16"],
                 tga=["u8"], sgi=["u8", "u16"])[fmt]
    chans = dict(exr=[1, 2, 3, 4, 5, 6, 9], tif=[1, 2, 3, 4, 5, 6], png=[1, 2, 3, 4], dpx=[1, 3, 4], tga=[3, 4], sgi=[1, 3, 4])[fmt]
    return dict(fmt=fmt, type=draw(st.sampled_from(types)), c=draw(st.sampled_from(chans)), w=draw(st.one_of(*[st.integers(1, 9)] * 4, st.sampled_from([40, 130, 300]))),
                h=draw(st.one_of(*[st.integers(1, 9)] * 4, st.sampled_from([33, 70, 130, 300]))), seed=draw(st.integers(0, 999)),
                how=draw(st.sampled_from(["whole"] * 4 + ["truncate", "truncate", "flip", "flip", "rename", "empty", "text"])),
                pos=draw(st.floats(0, 1)), n=draw(st.integers(1, 4)), bits=draw(st.integers(1, 255)),
                ext=draw(st.sampled_from(["exr", "png", "tif", "jpg"])), cache=draw(st.integers(0, 1)),
                parts=draw(st.sampled_from([0, 0, 0, 1, 2])) if fmt in ("exr", "tif") else 0)


def exr_header_end(raw):
    i = 8
    while i < len(raw) and raw[i]:
        i = raw.index(b"\0", i) + 1          # name
        i = raw.index(b"\0", i) + 1          # type
        i += 4 + struct.unpack("<I", raw[i:i + 4])[0]
    return i + 1


def check_odd(case, srv):
    ext = case["ext"] if case["how"] == "rename" else case["fmt"]
    path = srv.path_for("odd." + ext)
    src = srv.path_for("src." + case["fmt"])
    v = model.hashpix(case["seed"], case["h"], case["w"], case["c"]) / 2.0 ** 32
    dt = np.dtype(RAW_TYPES[case["type"]])
    px = (v * (np.iinfo(dt).max if dt.kind == "u" else 1.0)).astype(dt)
    try:
        srv.call("writeimg", hx(src), case["type"], case["w"], case["h"], case["c"], 0, 0, 0, 0, case["w"], case["h"],
                 np.ascontiguousarray(px).tobytes().hex(), *([hx("parts"), "i", case["parts"]] if case["parts"] else []))
    except HarnessError as e:
        if "err " in str(e):
            return False, ["not written"]
        raise
    raw = bytearray(open(srv.abs_path(src), "rb").read())
    os.remove(srv.abs_path(src))
    how = case["how"]
    if how == "truncate":
        raw = raw[:int(case["pos"] * len(raw))]
    elif how == "empty":
        raw = b""
    elif how == "text":
        raw = b"this is not an image\n" * (1 + case["n"])
    elif how == "flip":
        # (header fields could ask for any amount of memory)
        start = exr_header_end(raw) if case["fmt"] == "exr" else len(raw) // 2
        if case["fmt"] == "tif" or case["parts"] or start >= len(raw):
            return False, ["flip skipped"]
        for k in range(case["n"]):
            i = start + int(case["pos"] * 0.999 * (len(raw) - start)) + k
            if i < len(raw):
                raw[i] ^= case["bits"]
    with open(srv.abs_path(path), "wb") as fh:
        fh.write(raw)
    try:
        ref = srv.read_image(path)
    except Crash:
        return False, ["the image library crashes"]
    srv.graph()
    srv.cache()
    srv.node(0, READ)
    srv.sets(0, "file_path", path)
    srv.seti(0, "use_cache", case["cache"])
    for k in (0, 1):
        must(srv.execute(0, [1]) == EXEC_OK, "execute failed", how)
        o = srv.out(k)
    # The image library "reads" some damaged files and leaves parts of the buffer as they were.
    damaged = how in ("truncate", "flip") and ref is not None
    if not damaged:
        same_stream(srv.stream(0), srv.stream(1), "read twice")
    s = srv.status(0)
    p = o.pixels()
    must(p is not None, "the pixel buffer does not hold the pixels")
    if ref is None or ref["c"] < 3:
        must(s == ST_WARNING, "status of a file which cannot be read", "%d (%s)" % (s, how))
        msg, _ = model.compare(o, model.MS(), "an unreadable file", meta=True)
        must(msg is None, "not the default image", msg)
        return True, [how, "unreadable"]
    must(s == ST_VALID, "status of a readable file", "%d (%s)" % (s, how))
    c = min(4, ref["c"])
    must((o.width, o.height) == (ref["w"], ref["h"]), "size")
    want_c = 4 if c == 3 and o.dtype != F32 else c
    must(o.channels == want_c, "channels", "%d of %d" % (o.channels, ref["c"]))
    must(o.dtype == {"float": F32, "half": HALF, "uint8": U8, "uint16": U16}.get(ref["format"], F32), "data type",
         "%d for %s" % (o.dtype, ref["format"]))
    if not (case["fmt"] == "png" and ref["c"] == 4) and not damaged:
        got, want = model.decode(p, o.dtype)[..., :c], ref["px"][..., :c]
        with np.errstate(all="ignore"):
            ok = (np.abs(got - want) <= 2e-6 * (1 + np.abs(want))) | ~np.isfinite(want)
        must(ok.all(), "pixels", "%s %s %d channels" % (case["fmt"], case["type"], ref["c"]))
    must(o.color_space == ref["color_space"], "colour space", "%r, the file says %r" % (o.color_space, ref["color_space"]))
    return how != "whole" or ref["c"] != 4, [how, "readable", case["fmt"], case["type"], "channels=%d" % ref["c"]]


@st.composite
def spec_case(draw):
    f = draw(gen.image_file(fmts=("exr", "exr", "png"), max_size=5, far=True))
    return dict(files=[f], aspect=draw(st.sampled_from([1.0, 2.0, 0.5, 1.333, 0.9])), orient=draw(st.integers(1, 8)),
                space=draw(st.sampled_from(["", "", "sRGB", "Linear", "Rec709", "GammaCorrected"])), gamma=draw(st.sampled_from([1.8, 2.2, 2.6])))


def check_spec(case, srv):
    f = case["files"][0]
    path = srv.path_for(gen.file_name(0, f))
    attrs = [("PixelAspectRatio", "f", case["aspect"]), ("Orientation", "i", case["orient"])]
    if case["space"]:
        attrs.append(("oiio:ColorSpace", "s", case["space"]))
    if case["space"] == "GammaCorrected":
        attrs.append(("oiio:Gamma", "f", case["gamma"]))
    srv.write_image(path, model.content(f["kind"], f["seed"], f["h"], f["w"], f["c"], f["dtype"]), f["dtype"], (f["x"], f["y"]),
                    tuple(f["display"]), attrs)
    ref = srv.read_image(path)
    srv.graph()
    srv.cache()
    srv.node(0, READ)
    srv.sets(0, "file_path", path)
    for k in (0, 1):
        must(srv.execute(0, [1]) == EXEC_OK and srv.status(0) == ST_VALID, "execute failed")
        o = srv.out(k)
    same_stream(srv.stream(0), srv.stream(1), "read twice")
    must(abs(o.pixel_aspect - ref["pixel_aspect"]) < 1e-4, "pixel aspect", "%r, file %r" % (o.pixel_aspect, ref["pixel_aspect"]))
    must(abs(o.gamma - ref["gamma"]) < 1e-4, "gamma", "%r, file %r" % (o.gamma, ref["gamma"]))
    must(o.orientation == ref["orientation"] - 1, "orientation", "%r, file %r" % (o.orientation, ref["orientation"]))
    must(o.color_space == ref["color_space"], "colour space", "%r, file %r" % (o.color_space, ref["color_space"]))
    want = model.stream_of_file(f)
    want.space = ref["color_space"]
    want.extra = dict(pixel_aspect=ref["pixel_aspect"], orientation=ref["orientation"] - 1)
    compare_stream(o, want, "file")
    return f["fmt"] == "exr", ["space=" + ref["color_space"], "orient=%d" % ref["orientation"]]


PROPERTIES = [
    Prop("C11", [
        Sub("write", write_case(), check_write, 4500,
            rule="generated images and node chains written to EXR/PNG/TIFF/DPX/TGA/SGI with generated settings, the file read "
                 "with OpenImageIO and with a ReadImage against the reference bake; non-trivial: most pixels predicted"),
        Sub("jpeg", jpeg_case(), check_jpeg, 800,
            rule="JPEG files: pixels, quantisation tables, subsampling and progressive flag; non-trivial: always"),
        Sub("nowrite", nowrite_case(), check_nowrite, 1200,
            rule="disabled or unconnected writers write nothing, failures are reported; non-trivial: always"),
        Sub("full", full_case(), check_full, 300,
            rule="an EXR file cannot grow beyond a generated size (as on a full disk): reported as an error, and writing works again afterwards; "
                 "non-trivial: the file is larger than the buffers")],
        ["Files are judged with OpenImageIO, which the code uses too."]),
    Prop("C12", [Sub("expand", expand_case(), check_expand, 16000,
                     rule="arbitrary path texts and all frame numbers, expanded inside the library (access to internals); "
                          "non-trivial: at least one #"),
                 Sub("path", path_case(), check_path, 5000,
                     rule="paths from words, '#' runs, environment variables and ~, at generated frames, for reading (with decoy "
                          "files) and writing; non-trivial: something is expanded")]),
    Prop("C13", [
        Sub("frames", frames_case(), check_frames, 2500,
            rule="frame lists (with fractions, repeats, gaps) executed over a read-grade-write graph; non-trivial: two frames"),
        Sub("stop", stop_case(), check_stop, 800,
            rule="one frame of a list cannot be written; non-trivial: a failure among several frames")]),
    Prop("C24", [
        Sub("odd", odd_case(), check_odd, 6000,
            rule="whole, truncated, corrupted, renamed and empty files of seven formats and 1-9 channels against OpenImageIO's "
                 "own reading; non-trivial: damaged or not 4 channels"),
        Sub("spec", spec_case(), check_spec, 2500,
            rule="windows, pixel aspect, orientation and colour space of a file; non-trivial: an EXR file")],
        ["Files which crash OpenImageIO itself are skipped; headers are not corrupted, as they may ask for any memory."]),
]
