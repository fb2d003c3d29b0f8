"""Storage monitor: the generated program checks that every tensor an operator is about to read still holds what its
producer left there.  The hook wraps the layers' own code generation, so the order of the code and the storage are the
generator's; only what the layers' public links and names say is used."""
import os
import re

HEAD = r"""
#include <stdio.h>
#include <stdlib.h>
static unsigned long long acv_hash(const void *p, unsigned long n){
  const unsigned char *c = p; unsigned long long h = 1469598103934665603ULL;
  for (unsigned long i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
  return h;
}
static unsigned long long acv_h[4096]; static unsigned char acv_done[4096]; static unsigned long acv_uses, acv_prods;
static void acv_prod(int id, const void *p, unsigned long n){ acv_h[id] = acv_hash(p, n); acv_done[id] = 1; acv_prods++; }
static void acv_use(int id, int by, const void *p, unsigned long n){
  acv_uses++;
  if (!acv_done[id]) { fprintf(stderr, "ACV-TRACE operator %d runs before its producer %d\n", by, id); exit(77); }
  if (acv_h[id] != acv_hash(p, n)) { fprintf(stderr, "ACV-TRACE tensor of %d changed before operator %d reads it\n", id, by); exit(77); }
}
static void acv_start(void){ for (int i = 0; i < 4096; ++i) acv_done[i] = 0; }
static void acv_end(void){ FILE *f = fopen("acv_trace.txt", "w"); fprintf(f, "%lu %lu\n", acv_prods, acv_uses); fclose(f); }
"""


def install(gen):
    """Wrap the code generation of every layer; returns False when the layers do not expose what the monitor needs."""
    layers = list(gen.layers)
    try:
        for ly in layers:
            _ = ly.output_str, int(ly.size), int(ly.idx), list(ly.previous_layer), int(ly.path)
            if ly.idx >= 4096:
                return False
    except AttributeError:
        return False
    for n, ly in enumerate(layers):
        orig = ly.generate_inference_code_layer

        def wrapped(*a, _ly=ly, _orig=orig, _n=n, **k):
            code = _orig(*a, **k)
            pre = ["    acv_start();"] if _n == 0 else []
            for p in _ly.previous_layer:
                pre.append(f"    acv_use({p.idx}, {_ly.idx}, ctx->{p.output_str}, {int(p.size)}ul*sizeof(ctx->{p.output_str}[0]));")
            post = [f"    acv_prod({_ly.idx}, ctx->output_{_ly.path}, {int(_ly.size)}ul*sizeof(ctx->output_{_ly.path}[0]));"]
            if _n == len(layers) - 1:
                post.append("    acv_end();")
            return "\n".join(pre) + "\n" + code + "\n" + "\n".join(post) + "\n"

        ly.generate_inference_code_layer = wrapped
    return True


def patch(d):
    p = os.path.join(d, "inference.c")
    s = open(p).read()
    m = re.search(r'^#include "inference.h".*$', s, re.M)
    if not m or "acv_use" not in s:
        return False
    with open(p, "w") as f:
        f.write(s[:m.end()] + HEAD + s[m.end():])
    return True


def counts(d):
    try:
        return tuple(int(v) for v in open(os.path.join(d, "acv_trace.txt")).read().split())
    except (OSError, ValueError):
        return 0, 0
