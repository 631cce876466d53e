"""A numpy reference model of the nodes: what the stream leaving each node should hold.

Pixels are float64 with an error bound per value ('err'): the distance the real (32-bit) result may
have from the model's value. err = inf marks a value the model makes no claim about (a sample position
on a rounding tie, the power of a negative number, overflow).
Integer images hold normalised values (u8: raw / 255).
"""
import copy
import math

import numpy as np

from ocg import (CROP, F32, GRADE, HALF, LENS, MERGE, NULL, READ, RESAMPLE, ST_ERROR, ST_VALID, ST_WARNING, U16, U8,
                 VIEWER, WRITE, XFORM)

MAXV = {U8: 255.0, U16: 65535.0}
NOTHING, COLOR_SPACE, COLOR_GRADE, ALL = 0, 1, 2, 3
ADD, OVER, MULTIPLY = 0, 1, 2
INF = np.inf
np.seterr(all="ignore")


# ---------------------------------------------------------------- attributes
def _grade_defaults():
    d = dict(enable=1, process_r=1, process_g=1, process_b=1, process_a=0, reverse=0, clamp_black=1, clamp_white=0,
             premult=0, mix=1.0)
    for ch in "rgba":
        d.update({"black_point_" + ch: 0.0, "white_point_" + ch: 1.0, "lift_" + ch: 0.0, "gain_" + ch: 1.0,
                  "multiply_" + ch: 1.0, "offset_" + ch: 0.0, "gamma_" + ch: 1.0})
    return d


DEFAULTS = {
    NULL: {},
    READ: dict(enable=1, use_cache=1, file_path=""),
    WRITE: dict(enable=1, execute=1, file_path="", crop_on_write=2, pixel_data_type=255, exr_compression=0,
                exr_dwa_compression_level=45, png_compression_level=6, jpeg_compression_level=90,
                jpeg_subsampling=0, jpeg_progressive=0),
    GRADE: _grade_defaults(),
    LENS: dict(enable=1, direction=0, lens_center_offset_x=0.0, lens_center_offset_y=0.0, distortion=0.0,
               anamorphic_squeeze=1.0, curvature_x=0.0, curvature_y=0.0, quartic_distortion=0.0),
    XFORM: dict(enable=1, invert=0, translate_x=0.0, translate_y=0.0, rotate=0.0, rotate_center_x=0.0,
                rotate_center_y=0.0, scale_x=1.0, scale_y=1.0, pivot_x=0.5, pivot_y=0.5),
    MERGE: dict(enable=1, use_cache=1, mode=1, mix=1.0),
    CROP: dict(enable=1, use_cache=1, window_min_x=0, window_min_y=0, window_max_x=0, window_max_y=0, reformat=0,
               black_outside=0, intersect=0),
    VIEWER: dict(enable=1, use_cache=1, bake_option=0, bake_pixel_data_type=1, bake_color_space="Linear",
                 crop_to_format=0),
    RESAMPLE: dict(enable=1, use_cache=1, factor=0, interpolate=0),
}


def f32(x):
    return float(np.float32(x))


def attrs_of(ntype, given):
    a = dict(DEFAULTS[ntype])
    for k, v in given.items():
        if k in a:
            a[k] = f32(v) if isinstance(v, float) else v
    return a


# ---------------------------------------------------------------- streams
class MS:
    """A model stream."""

    def __init__(self):
        hi, lo = f32(0.9215), f32(0.0627)
        c = np.empty((4, 4, 3))
        for y in range(4):
            for x in range(4):
                c[y, x] = (hi if x < 2 else lo, hi if y < 2 else lo, hi if x % 2 == 0 else lo)
        self.px, self.err = c, np.zeros_like(c)
        self.dtype = F32
        self.display = self.data = (0, 0, 4, 4)
        self.deformers, self.ops = [], []
        self.space = "Linear"
        self.extra = dict(pixel_aspect=1.0, orientation=0)

    def copy(self):
        n = copy.copy(self)
        n.deformers, n.ops, n.extra = list(self.deformers), list(self.ops), dict(self.extra)
        return n

    @property
    def width(self):
        return self.data[2] - self.data[0]

    @property
    def height(self):
        return self.data[3] - self.data[1]


def hashpix(seed, h, w, c):
    """Integers 0..2^32 that depend on everything; a pure function of its arguments."""
    y, x, k = np.meshgrid(np.arange(h, dtype=np.uint64), np.arange(w, dtype=np.uint64),
                          np.arange(c, dtype=np.uint64), indexing="ij")
    v = (y * np.uint64(0x9E3779B97F4A7C15) ^ x * np.uint64(0xC2B2AE3D27D4EB4F) ^ k * np.uint64(0x165667B19E3779F9)
         ^ np.uint64((seed * 0x27D4EB2F165667C5 + 0x85EBCA77) & (2 ** 64 - 1)))
    for s, m in ((33, 0xFF51AFD7ED558CCD), (29, 0xC4CEB9FE1A85EC53)):
        v ^= v >> np.uint64(s)
        v *= np.uint64(m)
    v ^= v >> np.uint64(32)
    return (v & np.uint64(0xFFFFFFFF)).astype(np.float64)


def content(kind, seed, h, w, c, dtype):
    """The pixel content of a generated image, as an array of the numpy type for dtype.

    kind 0: one colour; 1: noise in 0..1 (multiples of 1/64); 2: noise in -0.5..4 (multiples of 1/64);
    3: a ramp which makes each pixel unique.
    """
    r = hashpix(seed, h, w, c) / 2.0 ** 32
    if kind == 0:
        v = np.broadcast_to(np.round(hashpix(seed, 1, 1, c) / 2.0 ** 32 * 64) / 64, (h, w, c)).copy()
    elif kind == 1:
        v = np.round(r * 64) / 64
    elif kind == 2:
        v = np.round((r * 4.5 - 0.5) * 64) / 64
    else:
        y, x = np.mgrid[0:h, 0:w]
        n = (y * w + x + 1.0) / (h * w + 1.0)
        v = np.stack([np.round(((n * (k + 1) + 0.37 * k) % 1.0) * 2048) / 2048 for k in range(c)], axis=2)
    if c == 4 and kind != 3:
        v[:, :, 3] = np.clip(v[:, :, 3], 0.0, 1.0)
    if dtype in MAXV:
        m = MAXV[dtype]
        return np.round(np.clip(v, 0, 1) * m).astype(np.uint8 if dtype == U8 else np.uint16)
    return v.astype(np.float32 if dtype == F32 else np.float16)


def decode(arr, dtype):
    """Raw array -> normalised float64."""
    a = np.asarray(arr).astype(np.float64)
    return a / MAXV[dtype] if dtype in MAXV else a


def stream_of_file(f):
    """What a ReadImage of a generated file gives. f: dict(fmt, dtype, w, h, c, x, y, display, kind, seed)."""
    s = MS()
    raw = content(f["kind"], f["seed"], f["h"], f["w"], f["c"], f["dtype"])
    px = decode(raw, f["dtype"])
    if f["c"] == 3 and f["dtype"] != F32:
        px = np.concatenate([px, np.ones(px.shape[:2] + (1,))], axis=2)
    s.px, s.err = px, np.zeros_like(px)
    s.dtype = f["dtype"]
    d = f["display"]
    s.display = (0, 0, d[2] - d[0], d[3] - d[1])
    s.data = (f["x"] - d[0], f["y"] - d[1], f["x"] + f["w"] - d[0], f["y"] + f["h"] - d[1])
    s.space = {"exr": "Linear", "png": "sRGB", "tif": "", "dpx": "Linear"}[f["fmt"]]
    s.extra = dict(pixel_aspect=f.get("aspect", 1.0), orientation=f.get("orient", 1) - 1)
    return s


# ---------------------------------------------------------------- scalar operations with error bounds
def widen(px, err):
    big = ~(np.abs(px) < 1e25)
    err = np.where(big, INF, err)
    return np.where(np.isfinite(px), px, 0.0), err


def through(fn, px, err, rel=2e-6, ab=1e-7):
    """Apply a monotone function."""
    mid, lo, hi = fn(px), fn(px - np.where(np.isfinite(err), err, 0)), fn(px + np.where(np.isfinite(err), err, 0))
    e = np.maximum(np.abs(mid - lo), np.abs(hi - mid)) + np.abs(mid) * rel + ab
    e = np.where(np.isfinite(err) & np.isfinite(mid) & np.isfinite(e), e, INF)
    return widen(mid, e)


def srgb_to_linear(v):
    return np.where(v <= 0.04045, v / 12.92, ((np.maximum(v, 0.0) + 0.055) / 1.055) ** 2.4)


def linear_to_srgb(v):
    return np.where(v <= 0.0031308, v * 12.92, 1.055 * np.maximum(v, 1e-30) ** (1 / 2.4) - 0.055)


def rec709_to_linear(v):
    return np.where(v < 0.081, v / 4.5, ((np.maximum(v, 0.0) + 0.099) / 1.099) ** (1 / 0.45))


def linear_to_rec709(v):
    return np.where(v < 0.018, v * 4.5, 1.099 * np.maximum(v, 1e-30) ** 0.45 - 0.099)


CONVERT = {("sRGB", "Linear"): srgb_to_linear, ("Linear", "sRGB"): linear_to_srgb,
           ("Rec709", "Linear"): rec709_to_linear, ("Linear", "Rec709"): linear_to_rec709}
for _g in (1.8, 2.2):       # (for values of 0 and above)
    CONVERT["GammaCorrected%s" % _g, "Linear"] = lambda v, g=_g: np.maximum(v, 0.0) ** g
    CONVERT["Linear", "GammaCorrected%s" % _g] = lambda v, g=_g: np.maximum(v, 0.0) ** (1 / g)


def convert_space(s, frm, to):
    """In place on a copy; an unknown pair changes nothing."""
    if s.dtype != F32:
        s.err = s.err + np.abs(s.px) * 1e-7
        s.dtype = F32
    # The library may convert with a matrix, which spreads a NaN to the whole pixel.
    unknown = ~np.isfinite(s.err).all(axis=2, keepdims=True)
    if unknown.any():
        s.err = np.where(unknown, INF, s.err)
    if frm == to:
        return
    fn = CONVERT.get((frm, to))
    if fn is None:
        return
    px, err = s.px.copy(), s.err.copy()
    px[:, :, :3], err[:, :, :3] = through(fn, s.px[:, :, :3], s.err[:, :, :3], rel=6e-5, ab=2e-5)
    s.px, s.err = px, err
    s.space = to


def round_half_away(v):
    return np.sign(v) * np.floor(np.abs(v) + 0.5)


def convert_dtype(s, dtype):
    if dtype == 255 or dtype == s.dtype:
        return
    known = np.isfinite(s.err)
    e = np.where(known, s.err, 0.0)
    if dtype in MAXV:
        m = MAXV[dtype]
        slack = e * m + np.abs(s.px) * m * 3e-7
        lo = round_half_away(np.clip(s.px * m - slack, 0, m))
        hi = round_half_away(np.clip(s.px * m + slack, 0, m))
        s.px = (lo + hi) / 2 / m
        s.err = np.where(known, (hi - lo) / 2 / m, INF)
    elif dtype == HALF:
        lo = (s.px - e - np.abs(s.px) * 1e-7).astype(np.float16).astype(np.float64)
        hi = (s.px + e + np.abs(s.px) * 1e-7).astype(np.float16).astype(np.float64)
        s.px = (lo + hi) / 2
        s.err = np.where(known & (np.abs(s.px) < 65000), (hi - lo) / 2, INF)
    else:
        s.err = s.err + np.abs(s.px) * 1e-7
    s.px = np.where(np.isfinite(s.px), s.px, 0.0)
    s.dtype = dtype


# ---------------------------------------------------------------- grade
CH = "rgba"


def grade_channel(px, err, a, ch):
    black, white, lift = a["black_point_" + ch], a["white_point_" + ch], a["lift_" + ch]
    gain, mult, off, gamma = a["gain_" + ch], a["multiply_" + ch], a["offset_" + ch], a["gamma_" + ch]
    mask = a["process_" + ch] * a["mix"]
    if mask == 0:
        return px, err
    span = white - black
    if abs(span) < 1e-12:       # overflows 32-bit floats, or nearly so
        return np.zeros_like(px), np.full_like(err, INF)
    A = mult * (gain - lift) / span
    B = off + lift - A * black
    if 0 < abs(A) < 1e-30:      # too small for 32-bit floats, or nearly so
        return np.zeros_like(px), np.full_like(err, INF)
    arel = 3e-7 * (1 + (abs(white) + abs(black)) / abs(span) + (abs(gain) + abs(lift)) / max(abs(gain - lift), 1e-9))
    known = np.isfinite(err)
    e = np.where(known, err, 0.0)
    if a["reverse"] == 0:
        base = A * px + B
        be = abs(A) * e + arel * abs(A) * (np.abs(px) + abs(black)) + 3e-7 * (abs(off) + abs(lift)) + np.abs(base) * 2e-7
        if gamma == 1.0:
            out, oe = base, be
        else:
            p = 1.0 / gamma
            out = np.power(base, p)
            lo, hi = np.power(base - be, p), np.power(base + be, p)
            oe = np.maximum(np.abs(out - lo), np.abs(out - hi)) + np.abs(out) * 2e-6
            exact0 = (base == 0) & (be == 0)
            oe = np.where((base != 0) & (np.abs(base) < 1e-30), INF, oe)
            oe = np.where(exact0, 0.0, np.where(base - be < 0, INF, oe))
    else:
        def un(v):
            if gamma == 1.0:
                return v
            if gamma <= 0:
                return np.where(v > 0, 1.0, 0.0)
            return np.where(v <= 0, v, np.where(v < 1, np.power(np.maximum(v, 0), gamma), 1 + (v - 1) * gamma))

        v, ve = un(px), np.maximum(np.abs(un(px + e) - un(px)), np.abs(un(px - e) - un(px))) + np.abs(un(px)) * 2e-6
        if A == 1.0 and B == 0.0:
            out, oe = v, ve
        elif A != 0.0:
            out = (v - B) / A
            oe = ve / abs(A) + (arel + 1e-6) * (np.abs(v) + abs(B) + abs(A * black) + abs(off) + abs(lift)) / abs(A)
        else:
            out, oe = v - B, ve + 1e-6 * (np.abs(v) + abs(B))
    res = out * mask + px * (1 - mask)
    re = oe * abs(mask) + e * abs(1 - mask) + 3e-7 * (np.abs(out * mask) + np.abs(px * (1 - mask)))
    ok = known & np.isfinite(res) & np.isfinite(re)
    return np.where(ok, res, 0.0), np.where(ok, re, INF)


def apply_op(px, err, a):
    """One grade on an (..., c) array."""
    c = px.shape[-1]
    px, err = px.copy(), err.copy()
    for i in range(c):
        ch = "a" if c == 1 else CH[i]
        px[..., i], err[..., i] = grade_channel(px[..., i], err[..., i], a, ch)
    return widen(px, err)


def grade_works(a):
    return a["enable"] == 1 and any(a["process_" + c] != 0 for c in CH)


# ---------------------------------------------------------------- deformers
def xform_matrix(a, window):
    w, h = window[2] - window[0], window[3] - window[1]
    r = math.radians(a["rotate"])
    c, s = math.cos(r), math.sin(r)
    cx, cy = a["rotate_center_x"], a["rotate_center_y"]
    T = np.array([[1, 0, a["translate_x"] / w], [0, 1, a["translate_y"] / h], [0, 0, 1.0]])
    R = np.array([[c, -s, cx - c * cx + s * cy], [s, c, cy - s * cx - c * cy], [0, 0, 1.0]])
    S = np.diag([a["scale_x"], a["scale_y"], 1.0])
    return T @ R @ S


def lens_matrix(a, direction, window):
    """The stand-in lens of ldpk_stub.cpp, in the coordinates of the window, as a matrix."""
    k = a["distortion"] + 0.5 * a["quartic_distortion"]
    cx, cy = 0.5 + a["lens_center_offset_x"] / 3.6, 0.5 + a["lens_center_offset_y"] / 2.4
    sx = 1 + 0.25 * (a["anamorphic_squeeze"] - 1) + 0.1 * a["curvature_x"]
    sy = 1 + 0.1 * a["curvature_y"]
    g = 1 + 0.2 * k
    L = np.array([[sx * g, 0, 0], [0.1 * k, sy * g, 0], [0, 0, 1.0]])
    C = np.array([[1, 0, cx], [0, 1, cy], [0, 0, 1.0]])
    U = C @ L @ np.linalg.inv(C)
    if direction == 1:
        U = np.linalg.inv(U)
    w, h = window[2] - window[0], window[3] - window[1]
    W = np.array([[w, 0, window[0]], [0, h, window[1]], [0, 0, 1.0]])
    return W @ U @ np.linalg.inv(W)


def deformer_matrix(d, window, inverse):
    """The affine map of one deformer (ntype, attrs)."""
    ntype, a = d
    if ntype == LENS:
        return lens_matrix(a, a["direction"] ^ (1 if inverse else 0), window)
    M = xform_matrix(a, window)
    if (a["invert"] > 0) != inverse:
        if abs(np.linalg.det(M)) < 1e-12:
            return None
        M = np.linalg.inv(M)
    P = np.array([[1, 0, a["pivot_x"]], [0, 1, a["pivot_y"]], [0, 0, 1.0]])
    return P @ M @ np.linalg.inv(P)


def deform_points(deformers, pts, window):
    """pts: (n, 2) -> (n, 2), error bound (n,)."""
    p = np.column_stack([pts, np.ones(len(pts))]).T
    scale = np.abs(p).max(initial=1.0)
    err = 1e-6
    for d in deformers:
        M = deformer_matrix(d, window, False)
        err = err * max(1.0, np.abs(M[:2, :2]).sum()) + 4e-6 * np.abs(M[:2]).sum() * max(scale, abs(window[0]),
                                                                                        abs(window[1]),
                                                                                        abs(window[2]), abs(window[3]))
        p = M @ p
        scale = max(scale, np.abs(p).max(initial=1.0))
    return p[:2].T, err


HINTS = []


def deform_bbox(deformers, data, display):
    """(deformed data window, sure): not sure on a rounding tie that no hint settles."""
    box = np.array(data, dtype=np.float64)
    n = 0
    for d in deformers:
        if d[0] != LENS:
            continue
        M = deformer_matrix(d, display, False)
        c = np.array([[box[0], box[1], 1], [box[0], box[3], 1], [box[2], box[1], 1], [box[2], box[3], 1]]).T
        q = (M @ c)[:2]
        box = np.array([q[0].min() - 2, q[1].min() - 2, q[0].max() + 2, q[1].max() + 2])
        n += 1
    if n == 0:
        return data, True
    lo, hi = [], []
    for i, v in enumerate(box):
        f = math.floor if i < 2 else math.ceil
        tol = 1e-4 * max(1.0, abs(v) / 16)
        lo.append(f(v - tol))
        hi.append(f(v + tol))
    if lo == hi:
        return tuple(lo), True
    for h in HINTS:
        if all(l <= v <= u for l, v, u in zip(lo, h, hi)):
            return tuple(h), True
    return tuple(lo), False


def one_of(px, err, others):
    """The value is any of these (a sample position on a rounding tie)."""
    lo, hi = px - err, px + err
    known = np.isfinite(err)
    for p, e in others:
        lo, hi, known = np.minimum(lo, p - e), np.maximum(hi, p + e), known & np.isfinite(e)
    return np.where(known, (lo + hi) / 2, 0.0), np.where(known, (hi - lo) / 2, INF)


def sample(s, coords, tie):
    """Nearest source pixel at (h, w, 2) pixel coordinates; ties are unknown."""
    fx, fy = coords[..., 0] - s.data[0] - 0.5, coords[..., 1] - s.data[1] - 0.5
    h, w = s.px.shape[:2]

    def idx(v, n):
        return np.clip(np.floor(np.abs(v) + 0.5) * np.sign(v), 0, n - 1).astype(int)

    ix, iy = idx(fx, w), idx(fy, h)
    px, err = s.px[iy, ix], s.err[iy, ix]
    return one_of(px, err, [(s.px[jy, jx], s.err[jy, jx]) for jx in (idx(fx - tie, w), idx(fx + tie, w))
                            for jy in (idx(fy - tie, h), idx(fy + tie, h))])


def no_window(a):
    """The window of a crop (or of a new node) has no pixels."""
    return any(a.get("window_max_" + q, 0) <= a.get("window_min_" + q, 0) for q in "xy")


def deform_pixels(s):
    """Bake the deformers into the pixels. False if the model cannot tell (a rounding tie of the window)."""
    if not s.deformers:
        return True
    if s.display[2] == s.display[0] or s.display[3] == s.display[1]:
        s.deformers = []
        return True
    new, sure = deform_bbox(s.deformers, s.data, s.display)
    if not sure:
        return False
    w, h = new[2] - new[0], new[3] - new[1]
    if w < 0 or h < 0 or w * h > 4000000:
        return False
    if w * h == 0 or s.px.size == 0:
        if any(deformer_matrix(d, s.display, True) is None for d in s.deformers):
            return False
        s.px, s.err = np.zeros((h, w, s.px.shape[2])), np.zeros((h, w, s.px.shape[2]))
        s.data, s.deformers = new, []
        return True
    x, y = np.meshgrid(np.arange(new[0], new[2]) + 0.5, np.arange(new[1], new[3]) + 0.5)
    p = np.stack([x.ravel(), y.ravel(), np.ones(x.size)])
    cond = 1.0
    for d in reversed(s.deformers):
        M = deformer_matrix(d, s.display, True)
        if M is None:
            return False
        cond *= max(1.0, np.abs(M[:2, :2]).sum())
        p = M @ p
    tie = min(0.45, 2e-4 * cond * max(1.0, np.abs(p[:2]).max() / 32))
    px, err = sample(s, p[:2].T.reshape(h, w, 2), tie)
    s.px, s.err, s.data, s.deformers = px, err, new, []
    return True


# ---------------------------------------------------------------- bake / crop / merge
class Unsure(Exception):
    """The model makes no prediction for this case."""


def bake(s, option, to_space, dtype):
    """In place on a copy."""
    if option == NOTHING:
        return
    want = s.dtype if dtype == 255 else dtype
    frm = s.space
    if option == COLOR_SPACE:
        convert_space(s, frm, to_space)
        convert_dtype(s, want)
        return
    convert_space(s, frm, "Linear")
    for a in s.ops:
        s.px, s.err = apply_op(s.px, s.err, a)
    s.ops = []
    if option == ALL:
        if not deform_pixels(s):
            raise Unsure("deform")
    convert_space(s, "Linear", to_space)
    s.space = to_space
    convert_dtype(s, want)


def crop(s, win, reformat, black_outside):
    full = (win[0] - 1, win[1] - 1, win[2] + 1, win[3] + 1) if black_outside else tuple(win)
    h, w, c = full[3] - full[1], full[2] - full[0], s.px.shape[2]
    px, err = np.zeros((h, w, c)), np.zeros((h, w, c))
    x0, y0 = max(win[0], s.data[0]), max(win[1], s.data[1])
    x1, y1 = min(win[2], s.data[2]), min(win[3], s.data[3])
    if x1 > x0 and y1 > y0:
        dst = np.s_[y0 - full[1]:y1 - full[1], x0 - full[0]:x1 - full[0]]
        src = np.s_[y0 - s.data[1]:y1 - s.data[1], x0 - s.data[0]:x1 - s.data[0]]
        px[dst], err[dst] = s.px[src], s.err[src]
    s.px, s.err, s.data = px, err, full
    if reformat:
        s.display = tuple(win)


def _place(s, win):
    h, w = win[3] - win[1], win[2] - win[0]
    px, err = np.zeros((h, w, 4)), np.zeros((h, w, 4))
    c = s.px.shape[2]
    y, x = s.data[1] - win[1], s.data[0] - win[0]
    px[y:y + s.height, x:x + s.width, :c] = s.px
    err[y:y + s.height, x:x + s.width, :c] = s.err
    return px, err


def merge(a, b, mode, mix):
    a, b = a.copy(), b.copy()
    bake(a, ALL, "Linear", F32)
    bake(b, ALL, "Linear", F32)
    win = (min(a.data[0], b.data[0]), min(a.data[1], b.data[1]), max(a.data[2], b.data[2]), max(a.data[3], b.data[3]))
    pa, ea = _place(a, win)
    pb, eb = _place(b, win)
    unknown = ~(np.isfinite(ea) & np.isfinite(eb))
    if mode == OVER:
        m, em = (1 - pa[..., 3:4]) * mix, ea[..., 3:4] * abs(mix)
        unknown |= ~np.isfinite(ea[..., 3:4])
    else:
        m, em = mix, 0.0
    with np.errstate(all="ignore"):
        if mode == MULTIPLY:
            px = pa * pb * m
            err = (np.abs(pa) * eb + np.abs(pb) * ea + ea * eb) * abs(mix)
            size = np.abs(px)
        else:
            px = pa + pb * m
            err = ea + eb * (np.abs(m) + em) + np.abs(pb) * em
            size = np.abs(pa) + np.abs(pb * m)
    err = np.where(unknown, INF, err + size * 1e-6)
    s = MS()
    c = b.px.shape[2]
    s.px, s.err = widen(px[..., :c], err[..., :c])
    s.data, s.display, s.extra = win, b.display, dict(b.extra)
    return s


def resample_size(n, factor):
    return max(1, min(16384, int(n * 2.0 ** factor)))


def resample(s, factor, interpolate):
    h, w = s.px.shape[:2]
    if h * w == 0:
        raise Unsure("resample of no pixels")
    nh, nw = resample_size(h, factor), resample_size(w, factor)
    fy, fx = (np.arange(nh) + 0.5) / nh * h, (np.arange(nw) + 0.5) / nw * w
    if interpolate:
        def taps(f, n):
            g = f - 0.5
            i = np.floor(g).astype(int)
            t = g - i
            return [(np.clip(i, 0, n - 1), 1 - t), (np.clip(i + 1, 0, n - 1), t)]
        px, err = 0.0, 0.0
        for iy, wy in taps(fy, h):
            for ix, wx in taps(fx, w):
                k = (wy[:, None] * wx[None, :])[..., None]
                px = px + s.px[iy][:, ix] * k
                err = err + np.where(k > 0, s.err[iy][:, ix], 0.0) * k
        big = np.abs(s.px).max(initial=1.0)
        err = err + (2e-5 + 1e-6 * max(w, h, nw, nh)) * big     # (single precision coordinates)
        s.px, s.err = px, err
        if s.dtype != F32:
            dt, s.dtype = s.dtype, F32
            convert_dtype(s, dt)
    else:
        def near(f, n):      # the sample, and what it would be with a rounding error either way
            return [np.clip(np.floor(f + d).astype(int), 0, n - 1) for d in (0.0, -2e-3, 2e-3)]
        ys, xs = near(fy, h), near(fx, w)
        px, err = s.px[ys[0]][:, xs[0]], s.err[ys[0]][:, xs[0]]
        s.px, s.err = one_of(px, err, [(s.px[ay][:, ax], s.err[ay][:, ax]) for ay in ys for ax in xs])
    s.data = s.display = (0, 0, nw, nh)


# ---------------------------------------------------------------- nodes
def node_output(ntype, attrs, inputs, read=None):
    """(status, stream) of one node. read(path attr) -> MS or None, for ReadImage."""
    a = attrs_of(ntype, attrs)
    if ntype == READ:
        s = read(a["file_path"]) if a["enable"] != 0 else None
        return (ST_WARNING, MS()) if s is None else (ST_VALID, s.copy())
    if ntype == WRITE and a["enable"] == 0:
        return ST_VALID, MS()
    if ntype == MERGE and a["enable"] != 1:
        return ST_WARNING, MS()
    if ntype == VIEWER:
        s = inputs[0].copy() if inputs else MS()
        if a["enable"] == 1 and a["bake_option"] != NOTHING:
            opt = ALL if a["crop_to_format"] else a["bake_option"]
            bake(s, opt, a["bake_color_space"], a["bake_pixel_data_type"])
            if a["crop_to_format"]:
                crop(s, s.display, True, False)
        return ST_VALID, s
    status = ST_VALID if inputs else ST_WARNING
    if ntype in (NULL, WRITE):
        return status, (inputs[0].copy() if inputs else MS())
    if ntype == MERGE:
        if not inputs:
            return ST_WARNING, MS()
        b = inputs[1] if len(inputs) > 1 else MS()
        return (ST_VALID if len(inputs) > 1 else ST_WARNING), merge(inputs[0], b, a["mode"], a["mix"])
    s = inputs[0].copy() if inputs else MS()
    if ntype == GRADE:
        if grade_works(a):
            s.ops.append(a)
    elif ntype in (LENS, XFORM):
        if a["enable"] == 1:
            s.deformers.append((ntype, a))
    elif ntype == CROP:
        if inputs and a["enable"] == 1:
            bake(s, ALL, "Linear", F32)
            x, y = a["window_min_x"], a["window_min_y"]
            crop(s, (x, y, max(x, a["window_max_x"]), max(y, a["window_max_y"])), a["reformat"] == 1,
                 a["black_outside"] == 1)
    elif ntype == RESAMPLE:
        if inputs and a["enable"] == 1 and a["factor"] != 0:
            resample(s, a["factor"], a["interpolate"] != 0)
    return status, s


# ---------------------------------------------------------------- comparison
def compare(o, s, what="stream", meta=True):
    """None if the real stream o agrees with the model stream s; else a text. Returns (text, fraction compared)."""
    for k, v in (("data", s.data), ("display", s.display)):
        if getattr(o, k) != v:
            return "%s: %s window %r, expected %r" % (what, k, getattr(o, k), v), 0
    if (o.width, o.height, o.channels) != (s.px.shape[1], s.px.shape[0], s.px.shape[2]):
        return "%s: size %r, expected %r" % (what, (o.width, o.height, o.channels),
                                             (s.px.shape[1], s.px.shape[0], s.px.shape[2])), 0
    if o.dtype != s.dtype:
        return "%s: data type %d, expected %d" % (what, o.dtype, s.dtype), 0
    if (o.deformers, o.color_ops) != (len(s.deformers), len(s.ops)):
        return "%s: deformers, color ops %r, expected %r" % (what, (o.deformers, o.color_ops),
                                                             (len(s.deformers), len(s.ops))), 0
    if meta and o.color_space != s.space:
        return "%s: color space %r, expected %r" % (what, o.color_space, s.space), 0
    if meta and (abs(o.pixel_aspect - s.extra["pixel_aspect"]) > 1e-4 or o.orientation != s.extra["orientation"]):
        return "%s: pixel aspect %r and orientation %r, expected %r" % (what, o.pixel_aspect, o.orientation, s.extra), 0
    return compare_pixels(o.pixels(), o.dtype, s, what)


def compare_pixels(raw, dtype, s, what="pixels"):
    if raw is None:
        return "%s: the pixel buffer does not hold the pixels" % what, 0
    got = decode(raw, dtype)
    tol = s.err + 1e-6 + np.abs(s.px) * 2e-6
    with np.errstate(all="ignore"):
        bad = ~(np.abs(got - s.px) <= tol) & np.isfinite(s.err)
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        return "%s: pixel (y, x, channel) %r is %r, expected %r +- %.3g (%d of %d values differ)" % (
            what, i, float(got[i]), float(s.px[i]), float(tol[i]), int(bad.sum()), bad.size), 0
    n = s.err.size
    return None, (float(np.isfinite(s.err).sum()) / n if n else 1.0)
