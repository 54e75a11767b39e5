"""Stand-ins for torch, e3nn and mace (absent here) with the interface symmetrix's conversion uses, synthetic MACE
models in the layout of those libraries, and a plain evaluation of such a model written from the MACE definition
(edge messages, linear maps with e3nn's path normalisation, symmetric contraction, readouts)."""
import itertools, sys, types
from collections import namedtuple
import numpy as np

int_ = int
D_DEFAULT = [np.float64]


class Tensor(np.ndarray):
    def numpy(self, force=False): return self.view(np.ndarray)          # shares memory, as torch does
    def unsqueeze(self, d): return np.expand_dims(self, d if d >= 0 else self.ndim + 1 + d)
    def detach(self): return self
    def cpu(self): return self
    def clone(self): return self.copy()
    def double(self): return self.astype(np.float64)
    def float(self): return self.astype(np.float32)
    def long(self): return self.astype(np.int64)
    def int(self): return self.astype(np.int32)
    def bool(self): return self.astype(np.bool_)
    def to(self, *a, **k): return self
    def type(self, d): return self.astype(d)
    def view(self, *a, **k):                                            # torch's view(shape), numpy's view(type)
        return self.reshape(*a) if a and all(isinstance(x, (int_, np.integer)) for x in (a[0] if isinstance(a[0], (tuple, list)) else a)) else np.ndarray.view(self, *a, **k)
    def permute(self, *d): return np.ndarray.transpose(self, *d)
    def transpose(self, *d): return np.swapaxes(self, *d) if len(d) == 2 else np.ndarray.transpose(self, *d)
    def sum(self, *a, dim=None, keepdim=False, **k): return self._red("sum", a, dim, keepdim, k)
    def mean(self, *a, dim=None, keepdim=False, **k): return self._red("mean", a, dim, keepdim, k)
    def prod(self, *a, dim=None, keepdim=False, **k): return self._red("prod", a, dim, keepdim, k)
    def _red(self, n, a, dim, keepdim, k):
        k = dict(k)
        if dim is not None: k["axis"] = tuple(dim) if isinstance(dim, list) else dim
        if keepdim: k["keepdims"] = True
        return wrap(getattr(np.ndarray, n)(self, *a, **k))
    def squeeze(self, *d, dim=None, axis=None):
        d = d[0] if d else dim if dim is not None else axis
        return np.ndarray.squeeze(self) if d is None else np.ndarray.squeeze(self, d) if isinstance(d, tuple) or self.shape[d] == 1 else self
    def flatten(self, start_dim=0, end_dim=-1, order="C"):
        if isinstance(start_dim, str): return np.ndarray.flatten(self, start_dim)
        if self.ndim == 0: return self.reshape(1)
        e = end_dim % self.ndim; return self.reshape(self.shape[:start_dim] + (-1,) + self.shape[e + 1:])
    def matmul(self, o): return self @ o
    def mm(self, o): return self @ o
    def mv(self, o): return self @ o
    def mul(self, o): return self * o
    def div(self, o): return self / o
    def add(self, o): return self + o
    def sub(self, o): return self - o
    def sqrt(self): return np.sqrt(self)
    def exp(self): return np.exp(self)
    def index_select(self, dim, i): return np.take(self, i, axis=dim)
    def narrow(self, dim, start, n): return self[(slice(None),) * dim + (slice(start, start + n),)]
    def expand(self, *d): return np.broadcast_to(self, d).view(Tensor)
    def new_zeros(self, *d): return torch.zeros(*d, dtype=self.dtype)
    def new_ones(self, *d): return torch.ones(*d, dtype=self.dtype)
    def new_tensor(self, x): return T(x, self.dtype)
    def requires_grad_(self, *a): return self
    requires_grad = False
    device = "cpu"
    is_cuda = False
    mT = property(lambda self: np.swapaxes(self, -1, -2))
    def size(self, d=None): return self.shape if d is None else self.shape[d]
    def dim(self): return self.ndim
    def numel(self): return int(np.prod(self.shape))
    def contiguous(self): return np.ascontiguousarray(self).view(Tensor)
    def abs(self): return np.abs(self)
    def tanh(self): return np.tanh(self)
    def pow(self, p): return self ** p
    def square(self): return self * self
    def t(self): return self.T


def T(x, dtype=None): return np.array(x, dtype=dtype).view(Tensor)


class TMod(types.ModuleType):
    def __getattr__(self, k):
        f = getattr(np, k)
        def call(*a, **kw):
            if "dim" in kw: kw["axis"] = kw.pop("dim")
            if "keepdim" in kw: kw["keepdims"] = kw.pop("keepdim")
            return wrap(f(*a, **kw))
        return call if callable(f) and not isinstance(f, type) else f


def wrap(x): return x.view(Tensor) if isinstance(x, np.ndarray) else T(x) if isinstance(x, np.generic) else x


torch = TMod("torch")
torch.Tensor = Tensor
torch.float64 = torch.double = np.float64
torch.float32 = torch.float = np.float32
torch.int64 = torch.long = np.int64
torch.device = lambda n="cpu": n
torch.get_default_dtype = lambda: D_DEFAULT[0]
torch.set_default_dtype = lambda d: D_DEFAULT.__setitem__(0, d)
torch.tensor = lambda x, dtype=None, **k: T(x, dtype)
torch.as_tensor = torch.tensor
torch.from_numpy = lambda x: x.view(Tensor)
torch.eye = lambda n, dtype=None, **k: T(np.eye(n), dtype or D_DEFAULT[0])
def _shape(s): return s[0] if len(s) == 1 and not isinstance(s[0], int) else s
torch.zeros = lambda *s, dtype=None, **k: T(np.zeros(_shape(s)), dtype or D_DEFAULT[0])
torch.ones = lambda *s, dtype=None, **k: T(np.ones(_shape(s)), dtype or D_DEFAULT[0])
torch.reshape = lambda x, s: np.reshape(x, s).view(Tensor)
torch.linspace = lambda a, b, steps, dtype=None: T(np.linspace(a, b, steps), dtype or D_DEFAULT[0])
torch.cat = torch.concat = torch.concatenate = lambda xs, dim=0: np.concatenate(xs, axis=dim).view(Tensor)
torch.stack = lambda xs, dim=0: np.stack(xs, axis=dim).view(Tensor)
torch.transpose = lambda x, a, b: np.swapaxes(x, a, b)
torch.permute = lambda x, d: np.transpose(np.asarray(x), d).view(Tensor)
torch.unsqueeze = lambda x, d: x.unsqueeze(d)
torch.squeeze = lambda x, *d: x.squeeze(*d)
torch.flatten = lambda x, *d: x.flatten(*d)
torch.mm = torch.bmm = lambda a, b: wrap(a @ b)
torch.pow = lambda a, b: wrap(a ** b)
torch.full = lambda s, v, dtype=None, **k: T(np.full(s, v), dtype or D_DEFAULT[0])
torch.randn = lambda *s, dtype=None, **k: T(np.random.standard_normal(_shape(s)), dtype or D_DEFAULT[0])
torch.zeros_like = lambda x, **k: T(np.zeros_like(x))
torch.ones_like = lambda x, **k: T(np.ones_like(x))
torch.is_tensor = lambda x: isinstance(x, Tensor)
class _NoGrad:
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __call__(self, f): return f
torch.no_grad = _NoGrad
torch.enable_grad = _NoGrad
torch.set_grad_enabled = lambda x: _NoGrad()
torch.inference_mode = _NoGrad
torch.serialization = types.ModuleType("torch.serialization")
torch.serialization.add_safe_globals = lambda x: None
FILES = {}                                                               # path -> model
def _load(f, map_location=None, weights_only=None, **k):
    f = str(f)
    if f not in FILES: raise FileNotFoundError(f)
    return FILES[f]
torch.load = _load


class Irrep:
    def __init__(self, l, p=None):
        if isinstance(l, Irrep): l, p = l.l, l.p
        elif isinstance(l, str): l, p = int(l[:-1]), 1 if l[-1] == "e" else -1
        self.l, self.p, self.dim = l, p, 2 * l + 1
    def __eq__(self, o): o = Irrep(o); return (self.l, self.p) == (o.l, o.p)
    def __hash__(self): return hash((self.l, self.p))
    def __repr__(self): return f"{self.l}{'e' if self.p == 1 else 'o'}"
class MulIr(tuple):
    mul = property(lambda s: s[0]); ir = property(lambda s: s[1]); dim = property(lambda s: s[0] * s[1].dim)
class Irreps(tuple):
    def __new__(cls, x=()):
        if isinstance(x, Irrep): x = [(1, x)]
        if isinstance(x, str):
            y = []
            for t in x.split("+"):
                t = t.strip(); m, _, i = t.rpartition("x"); y.append((int(m) if m else 1, Irrep(i)))
            x = y
        return super().__new__(cls, [MulIr((i if isinstance(i, tuple) else (1, Irrep(i)))) for i in x])
    def simplify(self):
        o = []
        for m, i in self:
            if o and o[-1][1] == i: o[-1] = (o[-1][0] + m, i)
            elif m: o.append((m, i))
        return Irreps(o)
    def count(self, ir): return sum(m for m, i in self if i == Irrep(ir))
    lmax = property(lambda s: max(i.l for _, i in s)); dim = property(lambda s: sum(m * i.dim for m, i in s)); num_irreps = property(lambda s: sum(m for m, _ in s))
Ins = namedtuple("Instruction", "i_in1 i_in2 i_out connection_mode has_weight path_weight path_shape")
LIns = namedtuple("Instruction", "i_in i_out path_shape path_weight")


class Linear:
    def __init__(self, irreps_in, irreps_out, rng=None, **k):
        self.irreps_in, self.irreps_out = Irreps(irreps_in), Irreps(irreps_out)
        self.instructions = [LIns(a, b, (i[0], o[0]), 1.0 / np.sqrt(sum(x[0] for x in self.irreps_in if x[1] == o[1]))) for a, i in enumerate(self.irreps_in) for b, o in enumerate(self.irreps_out) if i[1] == o[1]]
        self.weight_numel = sum(np.prod(i.path_shape) for i in self.instructions)
        self.weight = T(rng.uniform(-1, 1, self.weight_numel)) if rng is not None else T(np.zeros(self.weight_numel)); self.bias = T([])
    def weight_view_for_instruction(self, n, weight=None):
        o = sum(int(np.prod(i.path_shape)) for i in self.instructions[:n]); s = self.instructions[n].path_shape
        return (self.weight if weight is None else weight)[o:o + int(np.prod(s))].reshape(s)
    def weight_views(self, weight=None, yield_instruction=False):
        for n, i in enumerate(self.instructions):
            yield (n, i, self.weight_view_for_instruction(n)) if yield_instruction else self.weight_view_for_instruction(n)


class SkipTP:                                                             # features x element one-hot -> features, same irreps
    def __init__(self, ls, K, nel, rng):
        self.instructions = [Ins(i, 0, i, "uvw", True, 1.0 / np.sqrt(K * nel), (K, nel, K)) for i in range(len(ls))]
        self.shape = (K, nel, K); self.weight = T(rng.uniform(-1, 1, len(ls) * K * nel * K))
    def weight_view_for_instruction(self, n): k = int(np.prod(self.shape)); return self.weight[n * k:(n + 1) * k].reshape(self.shape)
    def weight_views(self, weight=None, yield_instruction=False):
        for n, i in enumerate(self.instructions):
            yield (n, i, self.weight_view_for_instruction(n)) if yield_instruction else self.weight_view_for_instruction(n)


def par(l): return Irrep(l, 1 if l % 2 == 0 else -1)


class ConvTP:
    def __init__(self, L_max, l_max, K, rng):
        paths = sorted([(l, l2, l1) for l2 in range(L_max + 1) for l1 in range(l_max + 1) for l in range(abs(l1 - l2), min(l_max, l1 + l2) + 1) if (l + l1 + l2) % 2 == 0], key=lambda p: p[0])
        self.K, self.irreps_in1, self.irreps_in2 = K, Irreps([(K, par(l)) for l in range(L_max + 1)]), Irreps([(1, par(l)) for l in range(l_max + 1)])
        self.irreps_out = Irreps([(K, par(p[0])) for p in paths])
        self.instructions = [Ins(p[1], p[2], n, "uvu", True, 1.0, (K, 1)) for n, p in enumerate(paths)]
        self.paths = paths; self.weight_numel = K * len(paths); self.cg = []
        for l, l2, l1 in paths:
            c = rng.uniform(-1, 1, (2 * l2 + 1, 2 * l1 + 1, 2 * l + 1)); c[rng.uniform(size=c.shape) > 0.45] = 0
            if not c.any(): c[0, 0, 0] = 0.7
            self.cg.append(c)
    def __call__(self, H, Y, R):
        H, Y, R = (np.asarray(x) for x in (H, Y, R)); K = self.K; out = []
        ho = np.cumsum([0] + [m * i.dim for m, i in self.irreps_in1])
        for n, (l, l2, l1) in enumerate(self.paths):
            h = H[:, ho[l2]:ho[l2 + 1]].reshape(-1, K, 2 * l2 + 1); y = Y[:, l1 * l1:(l1 + 1) ** 2]
            out.append((np.einsum("zka,zb,abc->zkc", h, y, self.cg[n]) * R[:, n * K:(n + 1) * K, None]).reshape(len(H), -1))
        return np.concatenate(out, axis=1).view(Tensor)


def namespace(**k): return types.SimpleNamespace(**k)


blocks = types.ModuleType("mace.modules.blocks")
for n in ("RealAgnosticInteractionBlock", "RealAgnosticDensityInteractionBlock", "RealAgnosticResidualInteractionBlock", "RealAgnosticDensityResidualInteractionBlock", "RealAgnosticAttResidualInteractionBlock", "RealAgnosticResidualNonLinearInteractionBlock"):
    setattr(blocks, n, type(n, (), {}))
radial = types.ModuleType("mace.modules.radial")
radial.ZBLBasis = type("ZBLBasis", (), {})
U = {}                                                                     # (l_out, corr) -> array
OLD_U = [False]
def U_matrix_real(irreps_in, irreps_out, correlation, normalization="component", filter_ir_mid=None, dtype=None, use_cueq_cg=None, **k):
    if OLD_U[0] and use_cueq_cg is not None: raise TypeError("unexpected keyword argument 'use_cueq_cg'")
    assert [i[1].l if isinstance(i, tuple) else i.l for i in irreps_in] == [0, 1, 2, 3]
    o = irreps_out[0]; o = o[1] if isinstance(o, tuple) else o
    return [o, T(U[(o.l, correlation)])]
cg = types.ModuleType("mace.tools.cg"); cg.U_matrix_real = U_matrix_real
su = types.ModuleType("mace.tools.scripts_utils")
def remove_pt_head(model, head_to_keep=None):
    if not hasattr(model, "heads") or len(model.heads) <= 1: raise ValueError("Model must be a multihead model with more than one head")
    if head_to_keep is None: head_to_keep = next(h for h in model.heads if h != "pt_head")
    if head_to_keep not in model.heads: raise ValueError(f"Head {head_to_keep} not found in model")
    return model.by_head[head_to_keep]
su.remove_pt_head = remove_pt_head
o3 = types.ModuleType("e3nn.o3"); o3.Irrep, o3.Irreps, o3.Linear = Irrep, Irreps, Linear
o3.wigner_3j = lambda *a, **k: (_ for _ in ()).throw(NotImplementedError())


def install():
    e3 = types.ModuleType("e3nn"); e3.o3 = o3
    mace, mod, tools = (types.ModuleType(n) for n in ("mace", "mace.modules", "mace.tools"))
    mace.modules, mace.tools, mod.blocks, mod.radial, tools.cg, tools.scripts_utils = mod, tools, blocks, radial, cg, su
    plt, mpl = types.ModuleType("matplotlib.pyplot"), types.ModuleType("matplotlib"); mpl.pyplot = plt
    for n, m in {"torch": torch, "torch.serialization": torch.serialization, "e3nn": e3, "e3nn.o3": o3, "mace": mace, "mace.modules": mod, "mace.modules.blocks": blocks, "mace.modules.radial": radial,
                 "mace.tools": tools, "mace.tools.cg": cg, "mace.tools.scripts_utils": su, "matplotlib": mpl, "matplotlib.pyplot": plt}.items(): sys.modules[n] = m


LM = 3


class FakeModel:
    """A two-layer ScaleShiftMACE. cfg: Z, K, L, d0, d1 (density normalisation), zbl, seed, ..."""
    def __init__(self, cfg):
        rng = np.random.RandomState(cfg["seed"] % (2 ** 32)); self.cfg = cfg; K, L, Z = cfg["K"], cfg["L"], list(cfg["Z"]); nel = len(Z); rc = cfg["r_cut"]
        self.atomic_numbers = T(Z, np.int64); self.r_max = T(rc); self.spherical_harmonics = namespace(_lmax=LM)
        u = lambda *s: rng.uniform(-1, 1, s)
        sq = lambda *blocks: T(np.concatenate([(np.eye(K) * np.sqrt(K) + 0.3 * u(K, K)).ravel() for _ in range(*blocks)]))
        self.node_embedding = namespace(linear=Linear([(nel, Irrep(0, 1))], [(K, Irrep(0, 1))], rng))
        hid = [(K, par(l)) for l in range(L + 1)]; full = [(K, par(l)) for l in range(LM + 1)]
        g = u(nel, 3); self._g = g
        def radial_embedding(r, node_attrs, edge_index, atomic_numbers, *a):
            r = np.asarray(r); i, j = int(edge_index[0][0]), int(edge_index[1][0]); x = r - rc
            p = [1 + 0.4 * np.sin(g[i, k] + g[j, k]) for k in range(3)]
            b = np.concatenate([p[0] * np.ones_like(r), p[1] * (x / rc) ** 2, p[2] * (x / rc) ** 3], axis=1).view(Tensor)
            return (b, None) if cfg["tuple"] else b
        self.radial_embedding = radial_embedding
        def net(n): W = u(3, n); return lambda b: (np.asarray(b) @ W).view(Tensor)
        def dens():
            w = rng.uniform(0.05, 0.2, 3) * np.array([1, 1, -1])           # q(r) stays within (0,1)
            return lambda b: np.sqrt(np.arctanh(np.clip(np.asarray(b) @ w[:, None], 1e-9, 0.99))).view(Tensor)
        name0 = "RealAgnosticDensityInteractionBlock" if cfg["d0"] else "RealAgnosticInteractionBlock"
        name1 = "RealAgnosticDensityResidualInteractionBlock" if cfg["d1"] else "RealAgnosticResidualInteractionBlock"
        i0, i1 = getattr(blocks, name0)(), getattr(blocks, name1)()
        i0.avg_num_neighbors, i1.avg_num_neighbors = cfg["avg"]
        i0.linear_up = Linear([(K, Irrep(0, 1))], [(K, Irrep(0, 1))], rng); i0.conv_tp_weights = net((LM + 1) * K); i0.linear = Linear(full, full, rng); i0.skip_tp = SkipTP(range(LM + 1), K, nel, rng)
        i1.linear_up = Linear(hid, hid, rng); i1.linear_up.weight = sq(L + 1); i1.conv_tp = ConvTP(L, LM, K, rng); i1.conv_tp_weights = net(i1.conv_tp.weight_numel)
        i1.linear = Linear(i1.conv_tp.irreps_out, full, rng); i1.skip_tp = SkipTP([0], K, nel, rng)
        if cfg["d0"]: i0.density_fn = dens()
        if cfg["d1"]: i1.density_fn = dens()
        self.interactions = [i0, i1]
        self.U = {}
        for l in range(L + 1):
            for c in range(1, max(cfg["corr"]) + 1):
                neta = cfg["eta"][c - 1]; shape = ((2 * l + 1,) if l else ()) + (16,) * c + (neta,)
                a = np.zeros(shape); nz = rng.randint(3, 12) * (2 * l + 1) * neta
                a.reshape(-1)[rng.randint(0, a.size, nz)] = rng.uniform(-1, 1, nz) * 0.5 ** c
                if c > 1:                                        # other orders of the same factors, with their own coefficients
                    for q in np.argwhere(a)[: nz // 2]:
                        head, lms, tail = q[:-1 - c], q[-1 - c:-1], q[-1:]
                        a[tuple(head) + tuple(rng.permutation(lms)) + tuple(tail)] += rng.uniform(-1, 1) * 0.5 ** c
                self.U[(l, c)] = a
        def contraction(l, c): n = cfg["eta"]; return namespace(correlation=c, weights=[T(u(nel, n[k], K)) for k in range(c - 2, -1, -1)], weights_max=T(u(nel, n[c - 1], K)))
        self.products = [namespace(symmetric_contractions=namespace(irreps_in=Irreps(full), irreps_out=Irreps(hid), contractions=[contraction(l, cfg["corr"][0]) for l in range(L + 1)]), linear=Linear(hid, hid, rng)),
                         namespace(symmetric_contractions=namespace(irreps_in=Irreps(full), irreps_out=Irreps(hid[:1]), contractions=[contraction(0, cfg["corr"][1])]), linear=Linear(hid[:1], hid[:1], rng))]
        self.readouts = [namespace(linear=Linear(hid[:1], "1x0e", rng)), namespace(linear_1=Linear(hid[:1], "16x0e", rng), linear_2=Linear("16x0e", "1x0e", rng), non_linearity=namespace(acts=[namespace(cst=1.0 + rng.uniform())]))]
        e = u(nel) * 5; self.atomic_energies_fn = namespace(atomic_energies=T(e[None, :] if cfg["e2d"] else e))
        self.scale_shift = namespace(scale=T(rng.uniform(0.3, 2)), shift=T(rng.uniform(-1, 1)))
        self.pair_repulsion = bool(cfg["zbl"])
        if cfg["zbl"]:
            z = radial.ZBLBasis(); z.a_exp, z.a_prefactor, z.c, z.covalent_radii, z.p = T(rng.uniform(0.2, 0.5)), T(rng.uniform(0.3, 0.9)), T(rng.uniform(0.05, 0.5, 4)), T(rng.uniform(0.1, 0.6, 119) * rc), T(int(rng.randint(3, 8)), np.int64)
            self.pair_repulsion_fn = z
        elif cfg["noattr"]: del self.pair_repulsion
        if cfg["heads1"]: self.heads = ["default"]

    def to(self, *a): return self
    def eval(self): return self
    def parameters(self): yield self.node_embedding.linear.weight

    def energies(self, types, num, idx, xyz):
        """Node energies; types index into cfg['Z']; xyz are neighbour minus node, edges listed node by node."""
        K, L, nel = self.cfg["K"], self.cfg["L"], len(self.cfg["Z"]); N = len(types); types = np.asarray(types, int); idx = np.asarray(idx, int)
        xyz = np.asarray(xyz, float).reshape(-1, 3); src = np.repeat(np.arange(N), num); E = len(idx); r = np.sqrt((xyz ** 2).sum(1)); i0, i1 = self.interactions
        Y = real_Y(xyz / r[:, None]) if E else np.zeros((0, 16))
        b = np.zeros((E, 3))
        for e in range(E):
            x = self.radial_embedding(np.array([[r[e]]]), None, [[types[src[e]]], [types[idx[e]]]], self.atomic_numbers); b[e] = np.asarray(x[0] if isinstance(x, tuple) else x)[0]
        add = lambda v: np.stack([v[src == i].sum(0) for i in range(N)])
        lin = lambda x, w, n: x @ np.asarray(w).reshape(x.shape[-1], n) / np.sqrt(x.shape[-1])
        H0 = lin(lin(np.eye(nel), self.node_embedding.linear.weight, K), i0.linear_up.weight, K)[types]
        R0 = np.asarray(i0.conv_tp_weights(b)).reshape(E, 4, K); R1 = np.asarray(i1.conv_tp_weights(b)).reshape(E, len(i1.conv_tp.paths), K)
        ell = np.concatenate([[l] * (2 * l + 1) for l in range(4)])
        A = add(R0[:, ell, :] * Y[:, :, None] * H0[idx][:, None, :])                      # [N,16,K]
        norm = lambda it, dens: (1 + add(np.tanh(np.asarray(it.density_fn(b)) ** 2))[:, :, None] if dens else it.avg_num_neighbors)
        W0 = np.stack([np.asarray(i0.linear.weight_view_for_instruction(l)) for l in range(4)]); S0 = np.stack([np.asarray(i0.skip_tp.weight_view_for_instruction(l)) for l in range(4)])
        A = np.einsum("nmk,mkq->nmq", A, W0[ell]) / np.sqrt(K) / norm(i0, self.cfg["d0"])
        A = np.einsum("nmk,mknq->nmq", A, S0[ell][:, :, types, :]) / np.sqrt(K * nel)
        def contract(A, con, l):
            out = 0
            for c, w in enumerate(list(con.weights)[::-1] + [con.weights_max], 1):
                U_ = self.U[(l, c)]; U_ = U_ if l else U_[None]; w = np.asarray(w)[types]                       # [N,eta,K]
                nz = np.nonzero(U_); acc = np.zeros((A.shape[0], 2 * l + 1, K))
                for t in zip(*nz):
                    m, lms, e = t[0], t[1:-1], t[-1]; p = U_[t] * w[:, e, :]
                    for a in lms: p = p * A[:, a, :]
                    acc[:, m, :] += p
                out = out + acc
            return out
        F = []; up = []
        for l in range(L + 1):
            M = contract(A, self.products[0].symmetric_contractions.contractions[l], l)
            f = M @ np.asarray(self.products[0].linear.weight_view_for_instruction(l)) / np.sqrt(K); F.append(f); up.append(f @ np.asarray(i1.linear_up.weight_view_for_instruction(l)) / np.sqrt(K))
        up = np.concatenate(up, axis=1)                                                    # [N,LM,K]
        B = np.zeros((N, 16, K)); tp = i1.conv_tp; cnt = [sum(p[0] == l for p in tp.paths) for l in range(4)]
        for n, (l, l2, l1) in enumerate(tp.paths):
            ph = np.einsum("eak,eb,abc,ek->eck", up[idx][:, l2 * l2:(l2 + 1) ** 2, :], Y[:, l1 * l1:(l1 + 1) ** 2], tp.cg[n], R1[:, n, :])
            B[:, l * l:(l + 1) ** 2, :] += add(ph) @ np.asarray(i1.linear.weight_view_for_instruction(n)) / np.sqrt(cnt[l] * K)
        B = B / norm(i1, self.cfg["d1"])
        M1 = contract(B, self.products[1].symmetric_contractions.contractions[0], 0)[:, 0, :]
        H2 = lin(M1, self.products[1].linear.weight, K) + np.einsum("nk,knq->nq", F[0][:, 0, :], np.asarray(i1.skip_tp.weight_view_for_instruction(0))[:, types, :]) / np.sqrt(K * nel)
        e1 = lin(F[0][:, 0, :], self.readouts[0].linear.weight, 1)[:, 0]
        x = lin(H2, self.readouts[1].linear_1.weight, 16); e2 = lin(self.readouts[1].non_linearity.acts[0].cst * x / (1 + np.exp(-x)), self.readouts[1].linear_2.weight, 1)[:, 0]
        ez = np.zeros(N)
        if self.cfg["zbl"]:
            z = self.pair_repulsion_fn; Zn = np.asarray(self.cfg["Z"]); zi, zj = Zn[types[src]], Zn[types[idx]]; ae, ap, p = float(z.a_exp), float(z.a_prefactor), int(z.p); cov = np.asarray(z.covalent_radii)
            a = ap * 0.529 / (zi ** ae + zj ** ae); phi = sum(c * np.exp(-d * r / a) for c, d in zip(np.asarray(z.c), (3.2, 0.9423, 0.4028, 0.2016)))
            x = r / (cov[zi] + cov[zj]); env = np.where(x < 1, 1 - (p + 1) * (p + 2) / 2 * x ** p + p * (p + 2) * x ** (p + 1) - p * (p + 1) / 2 * x ** (p + 2), 0)
            v = 0.5 * 14.3996 * zi * zj / r * phi * env; ez = np.array([v[src == i].sum() for i in range(N)])
        s = float(self.scale_shift.scale); e0 = np.asarray(self.atomic_energies_fn.atomic_energies).reshape(-1)[types]
        mag = np.abs(e0) + np.abs(float(self.scale_shift.shift)) + s * (np.abs(e1) + np.abs(e2) + np.abs(ez)) + s * (np.abs(F[0][:, 0, :]).sum(1) + np.abs(H2).sum(1) + np.abs(M1).sum(1))
        return (e0 + float(self.scale_shift.shift) + s * (e1 + e2 + ez)).tolist(), mag.tolist()


def real_Y(n):
    """Real spherical harmonics up to l=3 in e3nn's convention: component normalisation, polar axis y, order m=-l..l."""
    x, y, z = n[:, 2], n[:, 0], n[:, 1]            # the cyclic relabelling (x,y,z) -> (z,x,y): standard harmonics of (z,x,y)
    s = np.sqrt
    Y = [np.ones_like(x), s(3) * y, s(3) * z, s(3) * x,
         s(15) * x * y, s(15) * y * z, s(5) / 2 * (3 * z * z - 1), s(15) * x * z, s(15) / 2 * (x * x - y * y),
         s(35 / 8) * y * (3 * x * x - y * y), s(105) * x * y * z, s(21 / 8) * y * (5 * z * z - 1), s(7) / 2 * z * (5 * z * z - 3), s(21 / 8) * x * (5 * z * z - 1), s(105) / 2 * z * (x * x - y * y), s(35 / 8) * x * (x * x - 3 * y * y)]
    return np.stack(Y, axis=1)


def make(cfg):
    m = FakeModel(cfg); U.clear(); U.update(m.U); OLD_U[0] = bool(cfg["oldU"]); FILES.clear(); top = m
    if cfg["heads"]:
        other = FakeModel(dict(cfg, seed=cfg["seed"] + 12345)); other.U = m.U
        names = ["pt_head", "fine"] if not cfg["head_last"] else ["fine", "pt_head"]
        top = FakeModel(dict(cfg, seed=cfg["seed"] + 777)); top.heads = names; keep = cfg["keep"]
        top.by_head = {keep: m, [n for n in names if n != keep][0]: other}
        for x in (m, other): x.heads = ["x"]
    FILES["model.pt"] = top; D_DEFAULT[0] = np.float32 if cfg["f32"] else np.float64
    return m, top
