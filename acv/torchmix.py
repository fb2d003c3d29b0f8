"""Random PyTorch programs over the functions the importer knows, on tensors of one to four dimensions, with any of their arguments."""
import numpy as np


def make(seed):
    """(module, sample)"""
    import torch
    from torch import nn
    import torch.nn.functional as F
    rng = np.random.default_rng([int(seed), 52])
    torch.manual_seed(int(seed) % (1 << 31))
    ri = lambda a, b: int(rng.integers(a, b + 1))  # noqa: E731
    ch = lambda v: v[int(rng.integers(len(v)))]  # noqa: E731
    p = lambda q: bool(rng.random() < q)  # noqa: E731
    wildness = ch([1., .3, .1, .03])     # how often a step is not of the usual kind
    rank = ch([4, 4, 4, 3, 2, 2, 1] if p(wildness) else [4, 4, 4, 2])
    shape = {4: (1, ri(1, 4), ri(2, 6), ri(2, 6)), 3: (1, ri(1, 4), ri(2, 6)), 2: (1, ri(1, 8)), 1: (ri(1, 6),)}[rank]
    if rank == 4 and p(.4 if wildness > .5 else .9):
        shape = (*shape[:3], shape[2])
    if rank == 3 and p(.2):
        shape = (ri(2, 3), *shape[1:])
    mods, steps, pool = nn.ModuleList(), [], [torch.zeros(shape)]

    def mod(m):
        m.eval()
        mods.append(m)
        with torch.no_grad():
            for t in m.parameters():
                t.uniform_(-.7, .7)
            if isinstance(m, nn.modules.batchnorm._BatchNorm) and m.running_mean is not None:
                m.running_mean.uniform_(-.5, .5)
                m.running_var.uniform_(.5, 1.5)
        k = len(mods) - 1
        return lambda s, x: s.mods[k](x)

    def step():
        x = len(pool) - 1 if p(.75) else ri(0, len(pool) - 1)
        s = tuple(pool[x].shape)
        r = len(s)
        wild = p(wildness)
        k = ch(["linear", "relu", "clamp", "conv", "bn", "add", "cat", "dropout", "flatten", "maxpool", "gap", "relu_"])
        if k in ("linear", "conv", "maxpool", "gap", "bn", "add", "cat") and not wild and r != (2 if k == "linear" else 4):
            return
        if k == "linear":
            f = mod(nn.Linear(s[-1], ri(1, 5), bias=p(.7)))
        elif k in ("relu", "relu_"):
            f = ch([lambda s, x: torch.relu(x), lambda s, x: F.relu(x), lambda s, x: x.relu()]) if k == "relu" else (lambda s, x: F.relu(x, inplace=True))
        elif k == "clamp":
            a, b = ch([(-.3, .4), (None, .5), (-.2, None), (0, 6), (0., .3)])
            f = lambda s, x: torch.clamp(x, a, b)  # noqa: E731
        elif k == "conv":
            if r not in (3, 4):
                return
            c = s[-3]
            g = ch([1, 1, 1, c]) if wild else 1
            kh = ri(1, 3)
            if not wild:
                f = mod(nn.Conv2d(c, ri(1, 3), (kh, kh), stride=ri(1, 2), padding=ri(0, 1), bias=p(.7)))
            else:
                f = mod(nn.Conv2d(c, g * ri(1, 3), (kh, kh if p(.7) else ri(1, 3)), stride=ch([1, 1, 2, (1, 2)]), padding=ch([0, 1, 1, (1, 0), "same"]),
                                  dilation=ch([1, 1, 2]), groups=g, bias=p(.7), padding_mode=ch(["zeros"] * 6 + ["reflect"])))
        elif k == "bn":
            f = mod((nn.BatchNorm2d if r == 4 else nn.BatchNorm1d)(s[1] if r > 1 else 1, affine=p(.8), track_running_stats=not wild or p(.9), eps=ch([1e-5, 1e-2])))
        elif k == "add":
            o = ri(0, len(pool) - 1)
            v = rng.random()
            if v < .25:
                steps.append(((x, o), ch([lambda s, a, b: a.add_(b), lambda s, a, b: torch.ops.aten.add_.Tensor(a, b)])))
                return
            if v < .7 or not wild:
                steps.append(((x, o), ch([lambda s, a, b: a + b, torch_add, lambda s, a, b: a.add(b)])))
                return
            if v < .8:
                steps.append(((x, o), lambda s, a, b: torch.add(a, b, alpha=2)))
                return
            if v < .9:
                f = lambda s, x: x + 1.5  # noqa: E731
            else:
                m = Param(torch.randn(s[1:] if p(.5) else s))
                mods.append(m)
                i = len(mods) - 1
                f = lambda s, x: x + s.mods[i].p  # noqa: E731
        elif k == "cat":
            o = [t for t in range(len(pool)) if p(.6)][:2] or [x]
            a = ri(-r, r - 1) if wild or r < 2 else 1
            steps.append(((x, *o), (lambda a: lambda s, *v: torch.cat(v, a))(a)))
            return
        elif k == "dropout":
            f = ch([mod(nn.Dropout(.4)), lambda s, x: F.dropout(x, .3, training=False)])
        elif k == "flatten":
            a, b = (ri(0, max(0, r - 1)), -1 if p(.6) else ri(0, max(0, r - 1))) if wild else (1, -1)
            f = lambda s, x: torch.flatten(x, a, b)  # noqa: E731
        elif k == "maxpool":
            if r not in (3, 4):
                return
            kk = ri(1, 3)
            a = dict(kernel_size=kk, stride=ri(1, 2), padding=ri(0, kk // 2)) if not wild else dict(kernel_size=kk if p(.7) else (kk, ri(1, 2)), stride=ch([None, 1, 2, (2, 1)]), padding=ri(0, kk // 2), dilation=ch([1, 1, 1, 2]), ceil_mode=p(.2))
            f = lambda s, x: F.max_pool2d(x, **a)  # noqa: E731
        else:
            o = ch([1, 1, (1, 1), 2, (1, None)]) if wild else ch([1, (1, 1)])
            f = lambda s, x: F.adaptive_avg_pool2d(x, o)  # noqa: E731
        steps.append(((x,), f))

    class Param(nn.Module):
        def __init__(self, v):
            super().__init__()
            self.p = nn.Parameter(v)

    def torch_add(s, a, b):
        return torch.add(a, b)

    class Mix(nn.Module):
        def __init__(self):
            super().__init__()
            self.mods = mods

        def forward(self, x):
            pool = [x]
            for ins, f in steps:
                pool.append(f(self, *[pool[i] for i in ins]))
            return pool[-1]

    net = Mix().eval()
    for _ in range(ri(1, 7) * 3):
        n, nm = len(steps), len(mods)
        step()
        if len(steps) > n:
            try:
                with torch.no_grad():
                    y = steps[-1][1](net, *[pool[i].clone() for i in steps[-1][0]])
                if y.numel() > 3000 or y.numel() == 0:
                    raise ValueError
                pool.append(y)
            except Exception:  # noqa: BLE001
                del steps[n:]
                del list(mods)[nm:]
        if len(steps) >= 8:
            break
    return net.eval(), torch.randn(shape), len(steps)
