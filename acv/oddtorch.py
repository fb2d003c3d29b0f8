"""PyTorch modules with one feature outside what the importer is meant to support (or at its border)."""
import operator

import numpy as np

ODD = {}


def torch_features():
    if ODD:
        return ODD
    import torch
    from torch import nn
    import torch.nn.functional as F

    class Fn(nn.Module):
        def __init__(self, f, **params):
            super().__init__()
            self.f = f
            for k, v in params.items():
                if isinstance(v, nn.Module):
                    setattr(self, k, v)
                elif k.startswith("buf"):
                    self.register_buffer(k, v)
                else:
                    setattr(self, k, nn.Parameter(v))

        def forward(self, *x):
            return self.f(self, *x)

    def add(name, make, dim=4):
        ODD[name] = (make, dim)

    def fn(name, f, dim=4, **mk):
        add(name, lambda c, h, w: Fn(lambda s, x: f(x)), dim)

    for n in ("ELU", "GELU", "SiLU", "Sigmoid", "Tanh", "Hardswish", "Hardsigmoid", "ReLU6", "Softplus", "Softsign", "Mish", "SELU", "CELU",
              "LogSigmoid", "Hardshrink", "Softshrink", "Tanhshrink", "LeakyReLU", "PReLU", "Hardtanh", "Identity", "RReLU"):
        add(f"module_{n}", lambda c, h, w, n=n: getattr(nn, n)())
    for n in ("abs", "neg", "exp", "sin", "cos", "sqrt_abs", "square", "floor", "ceil", "round", "sign", "rsqrt1", "erf", "log1", "reciprocal"):
        f = {"sqrt_abs": lambda x: torch.sqrt(torch.abs(x)), "rsqrt1": lambda x: torch.rsqrt(torch.abs(x) + 1),
             "log1": lambda x: torch.log(torch.abs(x) + 1), "reciprocal": lambda x: 1 / (torch.abs(x) + 1)}.get(n) or getattr(torch, n)
        fn(f"torch_{n}", f)
    for d in (1, 2, 3, -1):
        fn(f"softmax_{d}", lambda x, d=d: torch.softmax(x, d))
        fn(f"log_softmax_{d}", lambda x, d=d: torch.log_softmax(x, d))
        fn(f"mean_{d}", lambda x, d=d: x.mean(d, keepdim=True))
        fn(f"sum_{d}", lambda x, d=d: x.sum(d))
        fn(f"amax_{d}", lambda x, d=d: x.amax(d, keepdim=True))
        fn(f"cat_dup_{d}", lambda x, d=d: torch.cat([x, x], d))
        fn(f"cat_act_{d}", lambda x, d=d: torch.cat([x, torch.relu(x), torch.clamp(x, -.1, .2)], d))
        fn(f"flip_{d}", lambda x, d=d: torch.flip(x, [d]))
        fn(f"cumsum_{d}", lambda x, d=d: torch.cumsum(x, d))
        fn(f"unsqueeze_{d}", lambda x, d=d: x.unsqueeze(d))
    fn("cat_batch", lambda x: torch.cat([x, x], 0))
    fn("mean_all", lambda x: x.mean((2, 3), keepdim=True))
    fn("mean_hw_squeeze", lambda x: x.mean((2, 3)))
    fn("global_max", lambda x: F.adaptive_max_pool2d(x, 1))
    fn("gap_2x2", lambda x: F.adaptive_avg_pool2d(x, 2))
    fn("gap_1xw", lambda x: F.adaptive_avg_pool2d(x, (1, None)))
    fn("gap", lambda x: F.adaptive_avg_pool2d(x, 1))
    fn("gap_twice", lambda x: F.adaptive_avg_pool2d(F.adaptive_avg_pool2d(x, 1), 1))
    fn("avg_pool", lambda x: F.avg_pool2d(x, 2))
    fn("avg_pool_pad", lambda x: F.avg_pool2d(x, 2, padding=1, count_include_pad=False))
    fn("avg_pool_full", lambda x: F.avg_pool2d(x, 2, stride=1, padding=1))
    fn("max_pool", lambda x: F.max_pool2d(x, 2))
    fn("max_pool_ceil", lambda x: F.max_pool2d(x, 2, stride=2, ceil_mode=True))
    fn("max_pool_ceil3", lambda x: F.max_pool2d(x, 3, stride=2, padding=1, ceil_mode=True))
    fn("max_pool_rect", lambda x: F.max_pool2d(x, (1, 2)))
    fn("max_pool_rect_stride", lambda x: F.max_pool2d(x, 2, stride=(1, 2)))
    fn("max_pool_rect_pad", lambda x: F.max_pool2d(x, 3, stride=1, padding=(1, 0)))
    fn("max_pool_dil", lambda x: F.max_pool2d(x, 2, stride=1, dilation=2))
    fn("max_pool_idx", lambda x: F.max_pool2d(x, 2, return_indices=True)[0])
    fn("lp_pool", lambda x: F.lp_pool2d(x, 2, 2))
    fn("max_pool_relu_before", lambda x: F.max_pool2d(torch.relu(x), 2, padding=1))
    fn("interpolate", lambda x: F.interpolate(x, scale_factor=2))
    fn("interpolate_bilinear", lambda x: F.interpolate(x, scale_factor=2, mode="bilinear"))
    fn("pad_const", lambda x: F.pad(x, (1, 1, 1, 1)))
    fn("pad_reflect", lambda x: F.pad(x, (1, 1, 1, 1), mode="reflect"))
    fn("pad_value", lambda x: F.pad(x, (1, 0, 0, 1), value=2.0))
    for g in ("conv_groups", "conv_depthwise", "conv_stride_rect", "conv_dil_rect", "conv_reflect", "conv_circular", "conv_transpose", "conv_pad_rect",
              "conv_kernel_rect", "conv_nobias", "conv_same", "conv_big_pad"):
        def mk(c, h, w, g=g):
            kw = {"conv_groups": dict(kernel_size=2, groups=2), "conv_depthwise": dict(kernel_size=2, groups=c),
                  "conv_stride_rect": dict(kernel_size=2, stride=(1, 2)), "conv_dil_rect": dict(kernel_size=2, dilation=(1, 2)),
                  "conv_reflect": dict(kernel_size=3, padding=1, padding_mode="reflect"),
                  "conv_circular": dict(kernel_size=3, padding=1, padding_mode="circular"), "conv_pad_rect": dict(kernel_size=3, padding=(0, 2)),
                  "conv_kernel_rect": dict(kernel_size=(1, 3)), "conv_nobias": dict(kernel_size=2, bias=False),
                  "conv_same": dict(kernel_size=(2, 3), padding="same", dilation=1), "conv_big_pad": dict(kernel_size=2, padding=3),
                  "conv_transpose": dict(kernel_size=2, stride=2)}[g]
            if g == "conv_transpose":
                return nn.ConvTranspose2d(c, 2, **kw)
            return nn.Conv2d(c, 2 * c if "groups" in kw else 3, **kw)
        add(g, mk)
    for n in ("bn_noaffine", "bn_notrack", "bn_momentum", "instance_norm", "group_norm", "layer_norm", "bn_eps", "lrn"):
        def mk(c, h, w, n=n):
            m = {"bn_noaffine": lambda: nn.BatchNorm2d(c, affine=False), "bn_notrack": lambda: nn.BatchNorm2d(c, track_running_stats=False),
                 "bn_momentum": lambda: nn.BatchNorm2d(c, momentum=None), "instance_norm": lambda: nn.InstanceNorm2d(c),
                 "group_norm": lambda: nn.GroupNorm(c, c), "layer_norm": lambda: nn.LayerNorm([c, h, w]), "bn_eps": lambda: nn.BatchNorm2d(c, eps=.5),
                 "lrn": lambda: nn.LocalResponseNorm(3)}[n]()
            for b in m.buffers():
                if b.dtype.is_floating_point:
                    b.data = torch.rand_like(b) + .3
            for q in m.parameters():
                q.data = torch.rand_like(q) + .3
            return m
        add(n, mk)
    fn("add_alpha", lambda x: torch.add(x, torch.relu(x), alpha=2))
    fn("add_scalar", lambda x: x + 1.5)
    fn("radd_scalar", lambda x: 1.5 + x)
    fn("add_self", lambda x: x + x)
    fn("sub_scalar", lambda x: x - 1.5)
    fn("sub_two", lambda x: torch.relu(x) - x)
    fn("mul_scalar", lambda x: x * 2)
    fn("mul_two", lambda x: torch.relu(x) * x)
    fn("div_scalar", lambda x: x / 3)
    fn("maximum", lambda x: torch.maximum(x, torch.relu(-x)))
    fn("pow", lambda x: x ** 2)
    fn("where", lambda x: torch.where(x > 0, x, 2 * x))
    fn("add_bcast", lambda x: x + F.adaptive_avg_pool2d(x, 1))
    fn("mul_bcast", lambda x: x * F.adaptive_avg_pool2d(x, 1))
    add("add_param", lambda c, h, w: Fn(lambda s, x: x + s.p, p=torch.randn(1, c, 1, 1)))
    add("add_param_left", lambda c, h, w: Fn(lambda s, x: s.p + x, p=torch.randn(1, c, h, w)))
    add("add_buffer", lambda c, h, w: Fn(lambda s, x: x + s.buf, buf=torch.randn(1, c, h, w)))
    add("mul_param", lambda c, h, w: Fn(lambda s, x: x * s.p, p=torch.randn(1, c, 1, 1)))
    add("clamp_tensor", lambda c, h, w: Fn(lambda s, x: torch.clamp(x, s.p, s.p + .5), p=torch.randn(1)))
    add("cat_param", lambda c, h, w: Fn(lambda s, x: torch.cat([x, s.p], 1), p=torch.randn(1, 1, h, w)))
    fn("clamp_min", lambda x: torch.clamp_min(x, -.3))
    fn("clamp_max", lambda x: torch.clamp_max(x, .3))
    fn("clamp_kw", lambda x: torch.clamp(x, max=.3))
    fn("clamp_kw_min", lambda x: x.clamp(min=-.1))
    fn("clamp_inplace", lambda x: (x + x).clamp_(-.2, .4))
    fn("clamp_inverted", lambda x: torch.clamp(x, .5, -.5))
    fn("relu_inplace_shared", lambda x: (lambda y: torch.relu_(y) + y)(x + x))
    fn("relu_inplace_view", lambda x: (lambda y: (lambda v: (y.relu_(), v)[1])(torch.flatten(y, 1)))(x + x))
    fn("relu_inplace_base", lambda x: (lambda y: (torch.flatten(y, 1).relu_(), y)[1])(x + x))
    fn("clamp_inplace_view", lambda x: (lambda y: (lambda v: (y.clamp_(-.1, .2), v)[1])(y.view(1, -1)))(x + x))
    fn("add_inplace", lambda x: (lambda y: y.add_(x) + y)(torch.relu(x)))
    fn("add_inplace_view", lambda x: (lambda y: (lambda v: (y.add_(x), v)[1])(torch.flatten(y, 1)))(torch.relu(x)))
    fn("add_inplace_base", lambda x: (lambda y: (torch.flatten(y, 1).add_(torch.flatten(x, 1)), y)[1])(torch.relu(x)))
    fn("add_inplace_self", lambda x: (lambda y: y.add_(y) + x)(torch.relu(x)))
    fn("add_inplace_alpha", lambda x: torch.relu(x).add_(x, alpha=3))
    fn("add_inplace_scalar", lambda x: torch.relu(x).add_(1))
    fn("iadd", lambda x: (lambda y: operator.iadd(y, x))(torch.relu(x)))
    fn("add_inplace_input", lambda x: x.add_(torch.relu(x)))
    fn("relu_inplace_input", lambda x: torch.relu_(x) + x)
    fn("inplace_twice", lambda x: (lambda y: (y.add_(x), y.relu_(), y.add_(x), y)[3])(x + x))
    fn("inplace_after_clone", lambda x: (lambda y: (lambda z: (y.relu_(), y + z)[1])(y.clone()))(x + x))
    fn("inplace_after_contiguous", lambda x: (lambda y: (lambda z: (y.relu_(), y + z)[1])(y.contiguous()))(x + x))
    fn("inplace_after_dropout", lambda x: (lambda y: (lambda z: (y.relu_(), y + z)[1])(F.dropout(y, .5, False)))(x + x))
    fn("inplace_after_relu", lambda x: (lambda y: (lambda z: (y.relu_(), y + z)[1])(torch.relu(y)))(x + x))
    fn("inplace_after_flat_pool", lambda x: (lambda y: (lambda z: (y.relu_(), torch.flatten(y, 1) + torch.flatten(z, 1))[1])(F.max_pool2d(y, 1)))(x + x))
    fn("inplace_after_channels_last", lambda x: (lambda y: (lambda z: (y.relu_(), y + z)[1])(y.contiguous(memory_format=torch.channels_last)))(x + x))
    fn("inplace_after_to", lambda x: (lambda y: (lambda z: (y.relu_(), y + z)[1])(y.to(torch.float32)))(x + x))
    fn("inplace_after_to_copy", lambda x: (lambda y: (lambda z: (y.relu_(), y + z)[1])(y.to(torch.float32, copy=True)))(x + x))
    fn("inplace_after_detach", lambda x: (lambda y: (lambda z: (y.relu_(), y + z)[1])(y.detach()))(x + x))
    fn("inplace_slice", lambda x: (lambda y: (y[:, :1].relu_(), y)[1])(x + x))
    fn("copy_inplace", lambda x: (lambda y: (y.copy_(x), y)[1])(torch.relu(x)))
    fn("sigmoid_inplace_view", lambda x: (lambda y: (lambda v: (y.sigmoid_(), v)[1])(torch.flatten(y, 1)))(x + x))
    fn("functional_inplace", lambda x: (lambda y: (lambda v: (F.leaky_relu(y, .1, inplace=True), v)[1])(torch.flatten(y, 1)))(x + x))
    fn("relu_method", lambda x: x.relu())
    fn("threshold", lambda x: F.threshold(x, .1, -2.0))
    fn("glu", lambda x: F.glu(torch.cat([x, x], 1), 1))
    fn("flatten_0", lambda x: torch.flatten(x))
    fn("flatten_1", lambda x: torch.flatten(x, 1))
    fn("flatten_2", lambda x: torch.flatten(x, 2))
    fn("flatten_12", lambda x: torch.flatten(x, 1, 2))
    fn("flatten_cat", lambda x: torch.cat([torch.flatten(x, 1), torch.flatten(torch.relu(x), 1)], 1))
    fn("flatten_add", lambda x: torch.flatten(x, 1) + torch.flatten(torch.relu(x), 1))
    fn("view", lambda x: x.view(1, -1))
    fn("reshape", lambda x: x.reshape(1, x.shape[2], x.shape[1], x.shape[3]))
    fn("permute", lambda x: x.permute(0, 2, 3, 1))
    fn("permute_back", lambda x: x.permute(0, 2, 3, 1).permute(0, 3, 1, 2))
    fn("transpose", lambda x: x.transpose(2, 3))
    fn("transpose_flatten", lambda x: torch.flatten(x.transpose(2, 3), 1))
    fn("contiguous", lambda x: x.contiguous())
    fn("clone", lambda x: x.clone())
    fn("detach", lambda x: x.detach())
    fn("slice", lambda x: x[:, :1])
    fn("slice_step", lambda x: x[:, :, ::2])
    fn("index", lambda x: x[:, 0])
    fn("split", lambda x: torch.split(x, 1, 1)[0])
    fn("chunk", lambda x: sum(torch.chunk(x, 2, 3)[:1]))
    fn("stack", lambda x: torch.stack([x, x], 1).sum(1))
    fn("expand", lambda x: x.expand(1, -1, -1, -1))
    fn("repeat", lambda x: x.repeat(1, 2, 1, 1))
    fn("tile", lambda x: torch.tile(x, (1, 1, 1, 2)))
    fn("roll", lambda x: torch.roll(x, 1, 2))
    fn("pixel_shuffle", lambda x: F.pixel_unshuffle(F.pad(x, (0, x.shape[3] % 2, 0, x.shape[2] % 2)), 2))
    fn("matmul_self", lambda x: torch.matmul(x, x.transpose(2, 3)))
    fn("einsum", lambda x: torch.einsum("bchw->bhwc", x))
    fn("unfold", lambda x: F.unfold(x, 2))
    fn("normalize", lambda x: F.normalize(x, dim=1))
    fn("dropout_eval", lambda x: F.dropout(x, .5, training=False))
    fn("dropout_train", lambda x: F.dropout(x, .5, training=True) * 0 + x)
    fn("dropout2d_eval", lambda x: F.dropout2d(x, .5, training=False))
    fn("argmax", lambda x: x.argmax(1).float())
    fn("compare", lambda x: (x > 0).float())
    fn("to_double", lambda x: x.double())
    fn("to_half", lambda x: (x.half() * 1).float())
    fn("constant_out", lambda x: torch.ones(1, 3, 2, 2) + 0 * x.mean())
    fn("topk", lambda x: torch.topk(x, 1, 1)[0])
    fn("two_outputs", lambda x: (x + x, torch.relu(x)))
    add("linear_4d", lambda c, h, w: nn.Linear(w, 3))
    add("linear_4d_same", lambda c, h, w: nn.Linear(w, w))
    add("linear_flat", lambda c, h, w: nn.Sequential(nn.Flatten(), nn.Linear(c * h * w, 3)))
    add("linear_flat2", lambda c, h, w: nn.Sequential(nn.Flatten(2), nn.Linear(h * w, 3)))
    add("linear_flat_conv", lambda c, h, w: nn.Sequential(nn.Flatten(), nn.Linear(c * h * w, 3), nn.Unflatten(1, (3, 1, 1)), nn.Conv2d(3, 2, 1)))
    add("shared_conv", lambda c, h, w: Fn(lambda s, x: s.c(s.c(x)), c=nn.Conv2d(c, c, 3, padding=1)))
    add("shared_conv_bn", lambda c, h, w: Fn(lambda s, x: s.b(s.c(x)) + s.c(x), c=nn.Conv2d(c, c, 3, padding=1), b=nn.BatchNorm2d(c)))
    add("conv_bn_relu_conv_bn", lambda c, h, w: nn.Sequential(nn.Conv2d(c, c, 3, padding=1), nn.BatchNorm2d(c), nn.ReLU(), nn.BatchNorm2d(c)))
    add("bn_bn", lambda c, h, w: nn.Sequential(nn.Conv2d(c, c, 1), nn.BatchNorm2d(c), nn.BatchNorm2d(c)))
    add("lstm", lambda c, h, w: Fn(lambda s, x: s.l(x[0])[0], l=nn.LSTM(w, 3, batch_first=True)))
    add("gru", lambda c, h, w: Fn(lambda s, x: s.l(x[0])[0], l=nn.GRU(w, 3, batch_first=True)))
    add("attention", lambda c, h, w: Fn(lambda s, x: F.scaled_dot_product_attention(x, x, x)))
    add("bilinear", lambda c, h, w: Fn(lambda s, x: s.l(x, x), l=nn.Bilinear(w, w, 2)))
    # vectors
    add("bn1d", lambda c, h, w: nn.Sequential(nn.Linear(c, 4), nn.BatchNorm1d(4)), 2)
    add("ln1d", lambda c, h, w: nn.LayerNorm(c), 2)
    fn("vec_add", lambda x: x + torch.relu(x), 2)
    fn("vec_add_scalar", lambda x: x + 2, 2)
    fn("vec_cat", lambda x: torch.cat([x, torch.relu(x)], 1), 2)
    fn("vec_softmax", lambda x: torch.softmax(x, 1), 2)
    fn("vec_sigmoid", lambda x: torch.sigmoid(x), 2)
    fn("vec_clamp", lambda x: torch.clamp(x, -.2, .2), 2)
    fn("vec_mul", lambda x: x * torch.relu(x), 2)
    fn("vec_reshape", lambda x: x.reshape(1, 1, 1, -1), 2)
    fn("vec_max", lambda x: x.max(1)[0], 2)
    fn("vec_flatten", lambda x: torch.flatten(x), 2)
    add("vec_linear_relu", lambda c, h, w: nn.Sequential(nn.Linear(c, 4), nn.ReLU(inplace=True), nn.Linear(4, 2, bias=False)), 2)
    add("vec_residual", lambda c, h, w: Fn(lambda s, x: x + s.l(x), l=nn.Linear(c, c)), 2)
    add("vec_matmul_param", lambda c, h, w: Fn(lambda s, x: x @ s.p, p=torch.randn(c, 3)), 2)
    add("vec_addmm", lambda c, h, w: Fn(lambda s, x: torch.addmm(s.b, x, s.p), p=torch.randn(c, 3), b=torch.randn(3)), 2)
    # other ranks
    add("seq_linear", lambda c, h, w: nn.Linear(w, 3), 3)
    add("seq_conv1d", lambda c, h, w: nn.Conv1d(c, 3, 2), 3)
    fn("seq_relu", torch.relu, 3)
    add("seq_bn1d", lambda c, h, w: nn.BatchNorm1d(c), 3)
    fn("seq_softmax", lambda x: torch.softmax(x, -1), 3)
    fn("seq_add", lambda x: x + torch.relu(x), 3)
    fn("seq_cat1", lambda x: torch.cat([x, torch.relu(x)], 1), 3)
    fn("seq_cat2", lambda x: torch.cat([x, torch.relu(x)], 2), 3)
    fn("seq_flatten_linear", lambda x: torch.flatten(x, 1).clamp(-1, 1), 3)
    fn("seq_max_pool", lambda x: F.max_pool1d(x, 2), 3)
    fn("one_relu", torch.relu, 1)
    add("one_linear", lambda c, h, w: nn.Sequential(nn.Linear(c, 3), nn.ReLU()), 1)
    add("one_linear2", lambda c, h, w: Fn(lambda s, x: s.l(torch.relu(x)), l=nn.Linear(c, 3)), 1)
    # several samples at once, unusual samples
    fn("batch_of_two", torch.relu, 42)
    add("batch_conv", lambda c, h, w: nn.Conv2d(c, 2, 2), 42)
    add("batch_linear", lambda c, h, w: nn.Linear(c, 2), 22)
    fn("int_input", torch.relu, 40)
    add("half_conv", lambda c, h, w: nn.Conv2d(c, 2, 2).half(), 416)
    add("bf16_conv", lambda c, h, w: nn.Conv2d(c, 2, 2).bfloat16(), 417)
    add("half_linear", lambda c, h, w: nn.Linear(c, 2).half(), 216)
    add("two_inputs", lambda c, h, w: Fn(lambda s, x, y: x + y), 44)
    add("unbatched_conv", lambda c, h, w: nn.Conv2d(c, 2, 2), 3)
    return ODD


def make(name, seed):
    """(module, sample arguments, channels, input dtype)"""
    import torch
    from torch import nn
    mk, dim = torch_features()[name]
    rng = np.random.default_rng([int(seed), 51])
    torch.manual_seed(int(seed) % (1 << 31))
    c, h, w = int(rng.choice([1, 2, 2, 4])), int(rng.integers(3, 7)), int(rng.integers(3, 7))
    if rng.random() < .4:
        w = h
    if "depthwise" in name or "groups" in name or name in ("glu",):
        c = 2 * (1 + c // 2)
    m = mk(c, h, w)
    dt = torch.float32
    shape = {4: (1, c, h, w), 3: (1, c, w), 2: (1, c), 1: (c,), 42: (2, c, h, w), 22: (2, c), 40: (1, c, h, w), 416: (1, c, h, w), 417: (1, c, h, w),
             216: (1, c), 44: (1, c, h, w)}[dim]
    if name == "unbatched_conv":
        shape = (c, h, w)
    if dim in (416, 216):
        dt = torch.float16
    if dim == 417:
        dt = torch.bfloat16
    parts = [m]
    if dim == 4:
        if rng.random() < .5:
            parts.insert(0, nn.Conv2d(c, c, 1))
        k = rng.random()
        if k < .3:
            parts.append(nn.ReLU())
        elif k < .5 and "two_outputs" != name:
            parts.append(_Tail())
    net = nn.Sequential(*parts).eval() if dim != 44 else m.eval()
    ex = tuple((torch.rand(shape) if dim != 40 else torch.randint(-5, 5, shape, dtype=torch.int32)).to(dt if dim != 40 else torch.int32)
               for _ in range(2 if dim == 44 else 1))
    with torch.no_grad():
        net(*ex)                 # materialises the tail
    return net, ex, (c, h, w)


def _Tail():
    from torch import nn
    import torch

    class Tail(nn.Module):
        def __init__(self):
            super().__init__()
            self.l = None

        def forward(self, x):
            x = torch.flatten(x, 1)
            if self.l is None:
                self.l = nn.Linear(x.shape[-1], 3)
            return self.l(x)
    return Tail()
