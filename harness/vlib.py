"""Recipes for C23: uses of numpy functions that pnumpy does not replace but whose parts it does.
Every recipe is run by the reference (plain numpy) and by the target; recipe(x, y, v, i, k): x, y arrays of the same shape
(real numbers, any layout), v a 1-d array, i a 1-d array of indices into v, k a small number."""
import copy, io, pickle
from fractions import Fraction
import numpy as np
import numpy.lib.recfunctions
from vexec import fn

R = {}
EXACT = set()          # recipes whose results do not depend on rounding
def recipes(text, exact=False):
    for l in text.strip().splitlines():
        name, body = l.split(":", 1)
        name = name.strip()
        assert name not in R, name
        R[name] = eval("lambda x, y, v, i, k: " + body.strip(), globals())
        if exact: EXACT.add(name)

def ax(x, k):
    return k % x.ndim
def sq(x):
    """a well-conditioned square matrix made of x"""
    f = np.resize(np.nan_to_num(np.asarray(x, "f8")), (6, 6)) % 5
    return f + 40 * np.eye(6)
def f8(x):
    return np.asarray(x, "f8")
def pos(x):
    return np.abs(f8(x)) + 1
def obj(v):
    return np.array([Fraction(int(q), 7) for q in np.asarray(v)[:50]] + [Fraction(0)], object)
def ma(x):
    return np.ma.array(x, mask=np.asarray(x) % 3 == 1)
def strs(v):
    return np.array([str(int(q)) for q in np.asarray(v)[:300]] + [""])
def dates(v):
    return np.asarray(v).astype("i8").astype("m8[h]") + np.datetime64("2001-02-03T00", "h")
def rec(x, y):
    r = np.zeros(x.size, [("a", x.dtype), ("b", y.dtype)])
    r["a"] = x.ravel(); r["b"] = y.ravel()
    return r
def inplace(f, x):
    z = np.array(x, copy=True, subok=True)
    f(z)
    return z
def err(f):
    try: return f()
    except Exception as e: return (type(e).__name__, str(e)[:200])
def saved(x):
    b = io.BytesIO(); np.save(b, x); b.seek(0)
    return np.load(b)

def described(n):
    """what a name of numpy stands for"""
    o = getattr(np, n, None)
    if isinstance(o, np.ufunc):
        return n, o.nin, o.nout, o.types, str(o.identity), o.signature, o.__name__, o.__doc__, repr(o), [m for m in dir(o) if not m.startswith("_")]
    if isinstance(o, type) or callable(o):
        return n, type(o).__name__, getattr(o, "__module__", None), str(getattr(o, "__doc__", None))
    return n, "a value"

class Tagged(np.ndarray):
    """a subclass that counts what is asked of it"""
    log = None
    def __array_finalize__(self, o):
        self.log = list(getattr(o, "log", None) or []) + [type(o).__name__]
    def __array_wrap__(self, a, c=None):
        r = np.ndarray.__array_wrap__(self, a, c)
        r.log = list(self.log) + ["wrap", c[0].__name__ if c else None]
        return r
    def __array_prepare__(self, a, c=None):
        return a
class Over(np.ndarray):
    def __array_ufunc__(self, u, method, *a, **k):
        a = [np.asarray(q) if isinstance(q, Over) else q for q in a]
        o = k.pop("out", None)
        if o: k["out"] = tuple(np.asarray(q) if isinstance(q, Over) else q for q in o)
        r = getattr(u, method)(*a, **k)
        return (u.__name__, method, sorted(k), r)
class Duck:
    __array_priority__ = 20
    def __init__(self, a): self.a = a
    def __array__(self, dtype=None): return np.asarray(self.a, dtype)
    def __array_ufunc__(self, u, method, *a, **k): return ("duck", u.__name__, method, len(a))
    def __array_function__(self, f, t, a, k): return ("duck", f.__name__)
class Refuses:
    __array_ufunc__ = None
    def __radd__(self, o): return "radd"
    def __rsub__(self, o): return "rsub"
    def __lt__(self, o): return "lt"
    def __gt__(self, o): return "gt"
def tag(x):
    return np.array(x).view(Tagged)
def tagged(r):
    return (np.asarray(r), type(r).__name__, [str(q) for q in getattr(r, "log", None) or []])

recipes("""
mean: np.mean(x, axis=ax(x, k))
mean_all: (np.mean(x), x.mean(dtype="f4"), np.mean(x, keepdims=True))
std: np.std(x, axis=ax(x, k), ddof=k % 2)
var: (np.var(x), x.var(axis=-1))
nanmean: np.nanmean(f8(x), axis=ax(x, k))
nanstd: np.nanstd(f8(x))
nanvar: np.nanvar(f8(x), axis=0)
average: np.average(x, axis=ax(x, k), weights=pos(y))
median: np.median(x, axis=ax(x, k))
nanmedian: np.nanmedian(f8(x))
percentile: np.percentile(x, [0, 10, 50, 99, 100], axis=ax(x, k))
quantile: np.quantile(x, [0.25, 0.5], method=["linear", "lower", "higher", "nearest", "midpoint", "hazen"][k % 6])
nanpercentile: np.nanpercentile(f8(x), 30)
gradient: np.gradient(f8(v)) if v.size > 1 else 0
trapz: np.trapz(f8(x), axis=-1)
interp: np.interp(f8(v), np.arange(-30., 30), np.arange(60.) ** 2)
convolve: np.convolve(f8(v)[:500], [1, -2, 3.5], ["full", "same", "valid"][k % 3]) if v.size else 0
correlate: np.correlate(f8(v)[:500], [1, 2, -3.], "same") if v.size else 0
cov: np.cov(f8(x).reshape(len(x), -1)[:5], f8(y).reshape(len(x), -1)[:5]) if x.size else 0
corr: np.corrcoef(np.arange(v.size) + 30. * (np.arange(v.size) % 7), f8(v) + np.arange(v.size)) if v.size > 8 else 0
hypots: (np.hypot(f8(x), f8(y)), np.arctan2(f8(x), f8(y)))
logs: (np.log1p(pos(x)), np.logaddexp(f8(x), f8(y)), np.log2(pos(x)), np.exp2(f8(x) / 16))
polys: (np.polyval([1, -2, 3], f8(x)), np.poly1d([1, 2])(f8(y)))
polyfit: np.polyfit(np.arange(v.size), f8(v), 2) if v.size > 5 else 0
chebyshev: np.polynomial.chebyshev.chebval(f8(v) / 64, [1, 2, 3])
dot: (np.dot(f8(v), f8(v)), np.vdot(f8(v), np.arange(v.size)), np.inner(f8(v), f8(v)))
matmul: f8(x).reshape(-1, x.shape[-1]) @ f8(y).reshape(-1, x.shape[-1])[:9].T
matmul_int: np.resize(x, (7, 5)).astype("i4") @ np.resize(y, (5, 3)).astype("i8")
einsum: np.einsum("ij,ij->i", np.resize(f8(x), (9, 17)), np.resize(f8(y), (9, 17)))
einsum2: np.einsum("ij,jk,kl->il", np.resize(f8(x), (3, 4)), np.resize(f8(y), (4, 5)), np.resize(f8(v), (5, 2)) if v.size else np.ones((5, 2)), optimize=True)
tensordot: np.tensordot(np.resize(f8(x), (3, 4, 5)), np.resize(f8(y), (4, 3, 2)), axes=([1, 0], [0, 1]))
outer: np.outer(f8(v)[:80], f8(v)[:50])
kron: np.kron(np.resize(x, (3, 4)), np.resize(y, (2, 2)))
cross: np.cross(np.resize(f8(x), (9, 3)), np.resize(f8(y), (9, 3)))
inv: np.linalg.inv(sq(x))
det: np.linalg.det(sq(x))
slogdet: tuple(np.linalg.slogdet(sq(x)))
solve: np.linalg.solve(sq(x), np.resize(f8(y), 6))
lstsq: np.linalg.lstsq(sq(x), np.resize(f8(y), 6), rcond=None)[0]
eigvalsh: np.linalg.eigvalsh(sq(x) + sq(x).T)
svdvals: np.linalg.svd(sq(x), compute_uv=False)
norms: (np.linalg.norm(f8(x)), np.linalg.norm(f8(v), 1) if v.size else 0, np.linalg.norm(f8(v), np.inf) if v.size else 0, np.linalg.norm(np.resize(f8(x), (4, 5)), "fro"), np.linalg.norm(f8(x), axis=-1), np.linalg.norm(sq(x), 2))
pinv: np.linalg.pinv(sq(x))
matrix_power: np.linalg.matrix_power(sq(x) / 64, 3)
cond: np.linalg.cond(sq(x))
fft: np.fft.fft(f8(v)[:2000]) if v.size else 0
rfft2: np.fft.irfft2(np.fft.rfft2(np.resize(f8(x), (8, 12))))
fftshift: np.fft.fftshift(np.fft.fftfreq(17 + k))
complexes: (np.abs(x + 1j * y), np.angle(x + 1j * y), (x + 1j * y) * (y - 2j), np.conj(x + 1j * y), ((x + 1j * y) ** 2).real)
complex_div: (x + 1j * y) / (pos(y) + 2j)
i0sinc: (np.i0(f8(v)[:100] / 16), np.sinc(f8(v) / 3))
unwrap: np.unwrap(f8(v))
ma_mean: np.ma.filled(ma(x).mean(axis=ax(x, k)), -99.)
ma_std: np.asarray(np.ma.filled(ma(x).std(), -99.))
ma_median: np.ma.filled(np.ma.median(ma(x)), -99.)
ma_average: np.ma.filled(np.ma.average(ma(f8(x)), axis=-1), -99.)
nancumsum: np.nancumsum(f8(x), axis=ax(x, k))
cumsum: (np.cumsum(f8(x), axis=ax(x, k)), np.cumsum(x))
cumprod: np.cumprod(1 + f8(x) / 2.**30, axis=ax(x, k))
sumprod: (np.sum(f8(x), axis=ax(x, k)), np.prod(1 + f8(x) / 2.**30), x.sum(dtype="f4"), np.nansum(f8(x)))
where_sum: np.sum(f8(x), axis=ax(x, k), where=np.asarray(y) > 0, initial=2.5)
minkowski: (np.abs(f8(x) - f8(y)) ** 3).sum(axis=-1) ** (1 / 3)
softmax: np.exp(f8(x) - f8(x).max(axis=-1, keepdims=True)) / np.exp(f8(x) - f8(x).max(axis=-1, keepdims=True)).sum(axis=-1, keepdims=True) if x.size else 0
normalise: (f8(x) - f8(x).mean()) / (f8(x).std() + 1)
grid: [np.sqrt(a * a + b * b) for a, b in [np.meshgrid(np.linspace(-1, 1, 7 + k), f8(v)[:20])]]
spaces: (np.linspace(0, k, 5 + k), np.logspace(0, 1, 7), np.geomspace(1, 100, 9 + k))
apply_along: np.apply_along_axis(lambda q: q.max() - q.mean(), ax(x, k), np.resize(f8(x), (5, 7)))
vander: np.vander(f8(v)[:40], 4)
lin_roots: np.roots([1, -6 - k, 11, -6])
window: np.hanning(v.size % 50) + np.blackman(v.size % 50) - np.kaiser(v.size % 50, 3)
ptp_norm: (x - x.min()) / (np.ptp(f8(x)) + 1) if x.size else 0
random_normal: np.random.default_rng(k).normal(f8(v)[:100], 2)
histogram_density: np.histogram(f8(x), bins=8, range=(-128, 128), density=True)[0] if x.size else 0
rms: np.sqrt(np.mean(np.square(f8(x)), axis=ax(x, k)))
float_power: np.float_power(pos(x), 0.5 + k)
sliding: np.lib.stride_tricks.sliding_window_view(f8(v), 4).mean(axis=-1) if v.size > 4 else 0
degrees: (np.degrees(f8(x)), np.radians(f8(y)), np.deg2rad(f8(x)))
trig: (np.sin(f8(x)), np.cos(f8(x)), np.tanh(f8(y)), np.arcsinh(f8(y)))
cbrt: (np.cbrt(f8(x)), np.expm1(f8(x) / 32), np.sqrt(pos(x)))
""")
recipes("""
diff: (np.diff(x, axis=ax(x, k)), np.diff(v, n=2, prepend=0), np.ediff1d(v, to_end=3))
digitize: np.digitize(v, [-5, 0, 3, 12], right=bool(k % 2))
histogram: np.histogram(f8(x), bins=[-200, -5, 0, 0.5, 7, 300])
histogram2d: np.histogram2d(f8(x).ravel(), f8(y).ravel(), bins=[[-200, 0, 4, 300], [-300, 1, 2, 400]])[0]
bincount: np.bincount(np.abs(np.asarray(i)), minlength=k)
bincount_w: np.bincount(np.abs(np.asarray(i)), weights=f8(i))
unique: np.unique(x, return_index=True, return_inverse=True, return_counts=True)
unique_axis: np.unique(np.resize(x, (9, 2)), axis=0)
sets: (np.in1d(v, [1, 2, 3]), np.intersect1d(v, i), np.union1d(v, i), np.setdiff1d(v, i), np.setxor1d(v, i))
intersect: np.intersect1d(v, i, return_indices=True)
sort_complex: np.sort_complex(np.asarray(v) + 1j * (np.arange(v.size) % 3))
partition: np.sort(np.partition(v, v.size // 2)[:v.size // 2]) if v.size else 0
take_along: np.take_along_axis(x, np.argsort(x, axis=ax(x, k), kind="stable"), axis=ax(x, k))
put_along: inplace(lambda z: np.put_along_axis(z, np.argmax(z, axis=-1, keepdims=True), 3, axis=-1), x) if x.size else 0
searchsorted: np.searchsorted(np.sort(v), i, side=["left", "right"][k % 2])
nanarg: (np.nanargmin(f8(x)), np.nanargmax(f8(x), axis=-1)) if x.size else 0
nanminmax: (np.nanmin(f8(x)), np.nanmax(f8(x), axis=ax(x, k))) if x.size else 0
minmax: (x.min(axis=ax(x, k)), x.max(), np.ptp(f8(x), axis=-1), x.argmin(), x.argmax(axis=ax(x, k))) if x.size else 0
minmax_initial: (np.max(f8(x), initial=-3), np.min(f8(x), initial=5, where=np.asarray(y) > 2))
clip: (np.clip(x, 1, 5), x.clip(max=3), np.clip(f8(x), y, 9), np.clip(x, None, 7))
where: (np.where(x > 2, x, y), np.where(x < y), np.where(y, x, 1.5))
select: np.select([x > 3, x < y], [x, y * 2], default=-1)
choose: np.choose(np.abs(x.astype("i8")) % 3, [x, y, 7])
piecewise: np.piecewise(f8(x), [f8(x) < 0, f8(x) >= 5], [lambda q: -q, lambda q: q * 2, 1])
nan_to_num: np.nan_to_num(np.where(x > 3, np.nan, np.where(x < 0, np.inf, y)))
rounds: (np.round(f8(x) / 4, 1), np.rint(f8(x) / 2), np.fix(f8(x) / 2), np.floor(f8(y) / 4), np.trunc(f8(y) / 4), np.ceil(f8(x) / 4))
isclose: (np.isclose(x, y), np.allclose(x, x), np.array_equal(x, y), np.array_equiv(x, x))
anyall: (np.any(x), np.all(x, axis=ax(x, k)), (x > 0).any(axis=-1), np.count_nonzero(x), np.count_nonzero(x > 1, axis=ax(x, k)))
nonzero: (np.nonzero(x), np.argwhere(x > 1), np.flatnonzero(y))
tri: (np.tril(np.resize(x, (5, 6))), np.triu(np.resize(x, (5, 6)), 1), np.trace(np.resize(x, (5, 6))), np.diag(np.resize(x, (5, 6))))
insert: (np.insert(v, v.size // 2, 7), np.delete(v, slice(0, None, 3)), np.append(v, [1, 2]), np.resize(v, 13))
rolls: (np.roll(x, k), np.roll(x, 3, axis=ax(x, k)), np.rot90(np.resize(x, (4, 5))), np.flip(x), np.fliplr(np.resize(x, (4, 5))))
pads: [np.pad(np.resize(x, (4, 5)), 2, mode=m) for m in ("constant", "edge", "reflect", "wrap", "maximum", "minimum", "symmetric")]
joins: (np.concatenate([x, y], axis=ax(x, k)), np.stack([x, y]), np.hstack([x, y]), np.tile(x, 2), np.repeat(x, 2, axis=ax(x, k)), np.block([[np.resize(x, (2, 2)), np.resize(y, (2, 3))]]))
splits: [np.array_split(v, 3), np.split(np.resize(x, (6, 4)), 2)]
divmods: (np.divmod(x, 3), x // 2, x % 5, np.remainder(f8(x), 2.5), np.fmod(x, 4), np.floor_divide(f8(x), 3.))
gcdlcm: (np.gcd(x.astype("i8"), 12), np.lcm(y.astype("i4") % 9, 4))
bits: (x.astype("i4") & 5, y.astype("i8") | 9, x.astype("u1") ^ 3, ~y.astype("i2"), x.astype("i4") << 2, y.astype("i8") >> 1, np.packbits(x > 1), np.unpackbits(x.ravel().astype("u1")))
frexp: (np.frexp(f8(x)), np.ldexp(f8(x), 3), np.modf(f8(y) / 4), np.nextafter(f8(x), 9), np.spacing(f8(x)))
signs: (np.sign(x), np.copysign(f8(x), y), np.signbit(f8(y)), np.heaviside(f8(x), 0.5), np.absolute(y), np.fabs(f8(x)), np.negative(f8(x)), np.positive(x), np.square(x), np.reciprocal(pos(x)))
maxmin: (np.maximum(x, y), np.fmin(x, y), np.minimum(x, 3), np.fmax(2.5, y))
logicals: (np.logical_and(x, y), np.logical_or(x > 2, y), np.logical_not(x), np.logical_xor(x, 1))
compares: (x == y, x != 1, x < y, x <= 2.5, x > y, x >= np.float32(1.5), 3 > x)
outers: (np.subtract.outer(v[:60], i[:60]), np.less.outer(v[:60], i[:60]), np.multiply.outer(v[:20], v[:20]))
reduceats: (np.add.reduceat(v, [0, v.size // 2]), np.maximum.reduceat(v, [0, v.size // 3, v.size // 2])) if v.size else 0
accumulates: (np.maximum.accumulate(x, axis=ax(x, k)), np.add.accumulate(x.astype("i8"), axis=ax(x, k)), np.logical_or.accumulate(x > 3))
ats: (inplace(lambda z: np.add.at(z, i, 1), v.astype("i8")), inplace(lambda z: np.maximum.at(z, i, 3), v)) if v.size else 0
kwargs: (np.add(x, y, dtype="f8"), np.multiply(x, y, where=x > 1, out=np.zeros(x.shape)), np.subtract(x, y, out=np.empty(x.shape), casting="unsafe"), np.add(x, y, order="F"), np.less(x, y, dtype=object))
signature: (np.add(x, 1, signature="dd->d"), np.multiply(x, y, sig=(None, None, "f8")), err(lambda: np.add(x, y, signature="ee->e", casting="no")))
resolve: (np.add.types, np.add.resolve_dtypes((np.dtype("i4"), int, None)), np.sqrt.types, np.less.nargs, np.add.identity, np.add.signature)
errors: [err(lambda: np.add(x)), err(lambda: np.add(x, y, foo=1)), err(lambda: np.add(x, "q")), err(lambda: np.add(x, np.zeros(x.shape[0] + 77)[:, None, None][:, 0, 0] if x.ndim == 1 else np.zeros(991))), err(lambda: np.sqrt(x, out=np.zeros(3, "i1"))), err(lambda: np.add.reduce(x, axis=9)), err(lambda: np.maximum.reduce(np.zeros(0))), err(lambda: np.add.reduce(3)), err(lambda: np.subtract(np.ones(3, bool), np.ones(3, bool)))]
errstate: [err(lambda: np.true_divide(x, np.zeros(x.shape))) for q in [np.seterr(all="raise")]] + [np.seterr(all="ignore")["divide"]]
matrix: (np.matrix(np.resize(x, (3, 4))) * np.matrix(np.resize(y, (4, 2))), np.matrix(np.resize(x, (3, 4))) + 1, np.matrix(np.resize(x, (3, 4))).max(axis=0), np.matrix(np.resize(x, (3, 4))) == 2)
ma_ops: [np.ma.filled(q, -99) for q in (ma(x) + ma(y), ma(x) * 2, -ma(x), ma(x) > 1, np.ma.maximum(ma(x), y), np.ma.where(ma(x) > 1, ma(x), y), np.ma.sort(ma(x).ravel()), ma(x).cumsum(), ma(x).astype("i8").sum(axis=0), ma(x).max(), np.ma.divide(x, y), ma(x) // 3, abs(ma(y)))]
ma_more: (ma(x).count(axis=0), ma(x).compressed(), np.ma.getmaskarray(ma(x) / 0), ma(x).argmax() if x.size else 0, np.ma.unique(ma(x).ravel()).count(), np.ma.masked_where(x > 2, x).filled(1), np.ma.notmasked_edges(ma(v)))
objects: (obj(v) + obj(v), obj(v) * 3, obj(v) < Fraction(1, 2), obj(v).sum(), np.maximum(obj(v), Fraction(1)), np.add.reduce(obj(v)), np.sort(obj(v)), np.argsort(obj(v), kind="stable"), obj(v).cumsum(), obj(v) == obj(v)[::-1], -obj(v), abs(obj(v)), np.unique(obj(v)))
bigints: (np.array([2**70, -2**65, 5], object) + 1, np.array([2**70, 3], object) > 7, np.array([2**63], "u8") + np.array([1], "i8"), np.add(2**62, 2**62), np.add(np.uint64(2**63), np.uint64(5)))
strings: (strs(v) == strs(v)[::-1], strs(v) < "3", np.char.add(strs(v), "x"), np.char.upper(strs(v)), np.sort(strs(v)), np.unique(strs(v), return_counts=True), np.char.str_len(strs(v)), strs(v).astype("S5") != b"1", np.argsort(strs(v), kind="stable"), np.isin(strs(v), ["1", "2"]), np.char.startswith(strs(v), "-"))
mixed: [err(lambda: strs(v) + 1), err(lambda: np.add(strs(v)[:2], strs(v)[:2])), strs(v)[:2] == np.arange(2) if False else 0]
dates_: (dates(v) + np.timedelta64(3, "D"), dates(v) - dates(v)[::-1], np.sort(dates(v)), dates(v) > np.datetime64("2001-02-03"), np.max(dates(v)) if v.size else 0, np.diff(dates(v)), dates(v).astype("M8[D]"), np.argsort(dates(v), kind="stable"), np.unique(dates(v)), (dates(v) - np.datetime64("2001-01-01")) // np.timedelta64(7, "h"), (dates(v) - np.datetime64("2001-01-01")) % np.timedelta64(7, "h"), np.isnat(dates(v)))
deltas: (np.abs(np.diff(dates(v))), np.diff(dates(v)) * 2, np.diff(dates(v)) / np.timedelta64(1, "D"), np.diff(dates(v)).sum(), np.minimum(dates(v), np.datetime64("NaT")), np.sign(np.diff(dates(v))), -np.diff(dates(v)))
busday: (np.busday_count(dates(v).astype("M8[D]")[:40], np.datetime64("2001-06-01")), np.is_busday(dates(v).astype("M8[D]")))
records: (np.sort(rec(x, y), order=["b", "a"]), rec(x, y) == rec(y, x) if x.dtype == y.dtype else 0, np.argsort(rec(x, y), order="a", kind="stable"), rec(x, y)["a"] + rec(x, y)["b"], np.unique(rec(x, y)[:50]))
recarrays: (rec(x, y).view(np.recarray).a * 2, np.lib.recfunctions.structured_to_unstructured(rec(f8(x), f8(y))))
setitems: (inplace(lambda z: z.__setitem__(np.asarray(z) > 1, 7), x), inplace(lambda z: z.__setitem__(slice(None, None, 2), z[::2] + 1), x), inplace(lambda z: z.__iadd__(z), x.astype("i8")), inplace(lambda z: z.__imul__(2.5), f8(x)), inplace(lambda z: np.putmask(z, np.asarray(y) > 0, [1, 2]), x), inplace(lambda z: np.copyto(z, 3, where=np.asarray(y) < 2), x), inplace(lambda z: z.sort(axis=0), x))
iinplace: [err(lambda: inplace(lambda z: z.__iadd__(1.5), x.astype("i4"))), err(lambda: inplace(lambda z: z.__itruediv__(2), x.astype("i8"))), inplace(lambda z: z.__ior__(z > 2), x > 5), inplace(lambda z: z.__ifloordiv__(3), x.astype("i4"))]
gathers: (v[i], np.take(v, i, mode="wrap"), v.take(i[::-1]), v[i[i.size // 2:]], np.compress(v > 1, v), np.extract(v > 1, v), v[v > 2], v[::-1][i], np.place(v.copy(), v > 1, [1, 2])) if v.size else 0
fancy2: (np.resize(x, (6, 7))[np.abs(i[:9]) % 6, np.abs(i[:9]) % 7], np.resize(x, (6, 7))[[0, 3, 5]], np.resize(x, (6, 7))[:, [1, 1]], np.resize(x, (6, 7))[np.resize(y, (6, 7)) > 1], np.ix_([0, 1], [2]), np.resize(x, (6, 7))[np.array([True, False] * 3)])
casts: [x.astype(t) for t in ("i8", "f4", "?", "c8", ">i4", "S8", "U9", "m8[s]")]
views: (f8(x).view("i8"), np.ascontiguousarray(x).byteswap(), x.T, x.ravel(order="F"), np.moveaxis(np.resize(x, (2, 3, 4)), 0, 2).copy(), x.tolist(), x.tobytes())
pickles: (pickle.loads(pickle.dumps(x)), copy.deepcopy(x), saved(x), pickle.loads(pickle.dumps(np.add)) is np.add, pickle.loads(pickle.dumps(x.dtype)) == x.dtype, copy.copy(np.sqrt) is np.sqrt)
text: (repr(x), str(f8(y)), np.array2string(f8(v)[:30], precision=3), np.array_repr(x > 1), repr(ma(v)[:20]), np.format_float_positional(1.25), str(np.float32(2.5)))
loadtxt: np.loadtxt(io.StringIO("1,2\\n3,4\\n"), delimiter=",") + k
iters: ([float(q) for q in f8(x).flat][:50], [tuple(map(float, q)) for q in np.nditer([f8(v)[:20], f8(v)[:20][::-1]])] if v.size else 0, sum(q for q in v.tolist()), list(np.ndenumerate(np.resize(x, (2, 3)))), max(v.tolist() + [0]), sum(f8(v)[:20]))
scalars: (np.float32(k) + np.int8(3), np.int32(7) // np.int32(k + 1), np.float64(k) < 3, np.bool_(True) & np.bool_(k % 2), np.int64(5) ** np.int64(2), -np.float16(2.5), np.uint8(200) + np.uint8(100), divmod(np.int32(-7), np.int32(2)), np.float64(7) % 3, abs(np.int8(-4)), np.complex64(1 + 2j) * 2, np.datetime64("2001-01-01") + 1)
zerod: (np.array(k) + np.array(2.5), np.add(np.array(k), 1), np.sqrt(np.array(4.)), np.array(3)[()] * 2, np.array(5) > np.array(k), np.sort(np.array([k])), np.array(7).sum(), np.maximum(np.array(2), k), np.array(2.)[...] * np.ones(3))
python_mix: (x + [1] * x.shape[-1], (1.5 * x), 2 ** np.abs(x.astype("i8") % 5), 7 - x, 3 // pos(x), True + x, x + 2j, [1, 2] * np.ones(2), (1, 2) < np.arange(2), x + None if False else 0)
frompyfunc: (np.frompyfunc(lambda a, b: a + b, 2, 1)(v[:20], 1), np.vectorize(lambda a: a * 2 + 1)(f8(v)[:30]) if v.size else 0)
subclass: [tagged(q) for q in (tag(x) + 1, np.sqrt(tag(pos(x))), tag(x) > tag(y), tag(f8(x)).sum(axis=0), np.add(tag(x), y), tag(x)[::2], np.maximum(x, tag(y)), np.sort(tag(x)), tag(x).astype("f4"), np.multiply(x, y, out=tag(np.zeros(x.shape, np.result_type(x, y)))))]
overrides: (np.add(x.view(Over), 1), np.sqrt(f8(x).view(Over)), np.add.reduce(x.view(Over)), np.less(x, y.view(Over)), np.add(x, y, out=np.empty(x.shape, np.result_type(x, y)).view(Over)), np.multiply.accumulate(x.view(Over)) if x.ndim == 1 else 0, np.maximum.at(x.copy().view(Over), 0, 5) if x.size else 0)
ducks: (np.add(Duck(x), 1), x + Duck(x), np.concatenate([Duck(x)]), np.mean(Duck(x)), np.sort(Duck(x)), np.add.reduce(Duck(x)), np.asarray(Duck(x)) * 2, np.sum(Duck(x)), np.argsort(Duck(x)), np.where(Duck(x)))
refuses: (x + Refuses(), x - Refuses(), x < Refuses(), err(lambda: np.add(x, Refuses())), x > Refuses())
notimpl: (err(lambda: x.__add__("q")), err(lambda: x.__lt__({}) is NotImplemented), err(lambda: x + {}), err(lambda: x < {}), x == "q" if False else 0, err(lambda: x @ 3))
random_ints: (np.random.default_rng(k).integers(0, 100, 50), np.random.default_rng(k).permutation(v), np.random.default_rng(k).choice(v, 9) if v.size else 0, inplace(np.random.default_rng(k).shuffle, v), np.random.RandomState(k).randint(0, 9, 20), inplace(np.random.RandomState(k).shuffle, v))
aranges: (np.arange(k, 50, 3), np.arange(2.5, 9, 0.25), np.arange(v.size, dtype="i2"), np.arange(5)[::-1].copy(), np.indices((3, 4)), np.eye(4, k=k % 3), np.mgrid[0:3, 0:2], np.r_[1:4, 9], np.ogrid[0:3], np.identity(3, "i4"), np.full(7, k), np.arange("2001-01", "2001-05", dtype="M8[M]"))
flags: (f8(x).flags.c_contiguous, (x + y).flags.owndata, (x + y).strides == np.empty(x.shape, np.result_type(x, y)).strides if x.flags.c_contiguous and y.flags.c_contiguous else 0, np.add(x, 1).flags.writeable, (x.T + 1).flags.f_contiguous)
overlap: (inplace(lambda z: np.add(z[1:], z[:-1], out=z[1:]), v.astype("i8")), inplace(lambda z: np.maximum(z[::-1], z, out=z), v), inplace(lambda z: z[:].__iadd__(z[::-1]), v.astype("i4")))
min_scalar: (np.result_type(x, 1), np.result_type(x, 1.5), np.promote_types(x.dtype, y.dtype), np.can_cast(x.dtype, "f4"), np.min_scalar_type(k), np.common_type(f8(x), f8(y)).__name__, np.find_common_type([], [x.dtype]).name if False else 0)
lexsorts: (np.lexsort((x.ravel(), y.ravel())), np.lexsort(np.resize(x, (2, 9))))
genfrom: np.fromiter((int(q) for q in v[:50]), "i8") + np.fromstring("1 2", sep=" ").sum()
nested: np.add(np.multiply(x, 2), np.subtract(y, np.add(x, 1)))
mod_matrix: (np.mod(np.arange(20)[:, None], np.arange(1, 5)), (np.arange(12).reshape(3, 4) * x.ravel()[:1].sum()).T + 1)
broadcasts: (np.resize(x, (5, 1)) + np.resize(y, (1, 6)), np.resize(x, (4, 1, 3)) > np.resize(y, (2, 1)), np.broadcast_to(v[:1], (3, v[:1].size)) * 2, np.add(*np.broadcast_arrays(np.resize(x, (3, 1)), np.resize(y, (1, 2)))))
maxabs: (np.abs(x).max() if x.size else 0, np.sign(x.astype("i8")).sum(axis=0), np.add.reduce(x.astype("i4"), axis=ax(x, k), keepdims=True), np.logical_and.reduce(x), np.bitwise_or.reduce(x.astype("i4"), axis=None), np.multiply.reduce(x.astype("i8") % 3))
f2: (f8(x).astype("f2") + 1, np.sort(f8(x).astype("f2")), f8(x).astype("f2") > 1, np.maximum(f8(x).astype("f2"), 2))
longdouble: (np.asarray(x, "g") + 1, np.sort(np.asarray(x, "g").ravel()), np.asarray(x, "g") * y > 1, np.asarray(x, "g").max() if x.size else 0)
complex_exact: ((x + 1j * y) + 1, (x + 1j * y) == (y + 1j * x), np.sort((x + 1j * y).ravel()), (x + 1j * y).imag, np.isnan(x + 1j * y), (x + 1j * y).sum(dtype="G").real * 0)
swapped: (x.astype(x.dtype.newbyteorder()) + y, np.sort(x.astype(x.dtype.newbyteorder())), x.astype(x.dtype.newbyteorder()) > y, x.astype(x.dtype.newbyteorder()).max() if x.size else 0)
names: [described(n) for n in sorted(dir(np))[k::12] if n[0] != "_"]
methods: [(n, type(getattr(np.ndarray, n)).__name__, str(getattr(np.ndarray, n).__doc__)) for n in sorted(dir(np.ndarray))]
state: (np.geterr(), np.get_printoptions(), np.geterrcall() is None, sorted(np.sctypeDict, key=str)[:5] == sorted(np.sctypeDict, key=str)[:5], [np.dtype(c).str for c in "?bBhHiIlLqQefdgFDGSUVOMm"])
readonly: [err(lambda: inplace(lambda z: (z.setflags(write=False), z.sort()), v)), err(lambda: inplace(lambda z: (z.setflags(write=False), np.add(z, 1, out=z)), v)), err(lambda: inplace(lambda z: (z.setflags(write=False), z.__iadd__(1)), v))]
""", exact=True)

@fn("recipe")
def _recipe(name, x, y, v, i, k):
    with np.errstate(all="ignore"):
        return R[name](x, y, v, i, k)
