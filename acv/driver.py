"""Instrumented drivers of the generated inference function.

The driver owns the contexts, inputs and predictions, so that sanitizers see their exact bounds and whether they were
written.  It only uses what the generated headers declare.
"""
import os
import re

from . import cexec

PRELUDE = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "test_dataset.h"
#include "inference.h"
typedef __typeof__(nn_test_inputs[0][0]) elt;
#define IS_INT(x) ((elt)0.5 == 0)
static inference_t *new_ctx(void){
  void *p = NULL;
  if (posix_memalign(&p, 4096, sizeof(inference_t))) abort();
  return p;
}
static void put(FILE *f, elt *o){
  for (int j = 0; j < nn_output_size; ++j) {
    if (IS_INT(o[j])) fprintf(f, "%lld ", (long long)o[j]); else fprintf(f, "%a ", (double)o[j]);
  }
  fprintf(f, "\n");
}
"""

# AddressSanitizer: exact heap bounds for input and prediction, poisoned gaps between the context's buffers
ASAN_MAIN = PRELUDE + r"""
#include <sanitizer/asan_interface.h>
#include "acv_rz.h"
int main(int argc, char **argv){
  FILE *f = fopen(argv[1], "w");
  int reuse = argc > 2;
  inference_t *c = NULL;
  for (int r = 0; r < nb_samples; ++r) {
    elt *in = malloc(sizeof(elt) * nn_input_size), *out = malloc(sizeof(elt) * nn_output_size);
    memcpy(in, nn_test_inputs[r], sizeof(elt) * nn_input_size);
    if (!c) { c = new_ctx(); memset(c, 0xA5, sizeof *c); acv_poison(c); }
    inference(c, out, in);
    if (memcmp(in, nn_test_inputs[r], sizeof(elt) * nn_input_size)) { fprintf(stderr, "ERROR: input modified\n"); return 9; }
    put(f, out);
    free(in); free(out);
    if (!reuse) { acv_unpoison(c); free(c); c = NULL; }
  }
  if (c) { acv_unpoison(c); free(c); }
  fclose(f);
  return 0;
}
"""

# MemorySanitizer: contexts and predictions start uninitialised
MSAN_MAIN = PRELUDE + r"""
#include <sanitizer/msan_interface.h>
int main(int argc, char **argv){
  FILE *f = fopen(argv[1], "w");
  for (int r = 0; r < nb_samples; ++r) {
    elt *out = malloc(sizeof(elt) * nn_output_size);
    inference_t *c = new_ctx();
    __msan_allocated_memory(c, sizeof *c);
    inference(c, out, nn_test_inputs[r]);
    __msan_check_mem_is_initialized(out, sizeof(elt) * nn_output_size);
    put(f, out);
    free(out); free(c);
  }
  fclose(f);
  return 0;
}
"""


def redzones(d):
    """Put a gap after every buffer of the generated context structure; returns how many (0: layout not recognised)."""
    p = os.path.join(d, "inference.h")
    s = open(p).read()
    m = re.search(r"typedef\s+struct[^{]*\{(.*?)\}\s*inference_t\s*;", s, re.S)
    names = []
    if m:
        def add(line):
            if re.match(r"^\s*[A-Za-z_][\w \t]*\b\w+\s*\[[^\]]+\].*;\s*$", line):
                names.append(f"acv_rz_{len(names)}")
                return line + f"\n    char {names[-1]}[4096] __attribute__((aligned(64)));"
            return line
        body = "\n".join(add(ln) for ln in m.group(1).split("\n"))
        s = s[:m.start(1)] + body + s[m.end(1):]
        open(p, "w").write(s)
    with open(os.path.join(d, "acv_rz.h"), "w") as f:
        for fn in ("poison", "unpoison"):
            f.write(f"static void acv_{fn}(inference_t *c){{ (void)c;\n")
            for n in names:
                f.write(f"  __asan_{fn}_memory_region(c->{n}, sizeof c->{n});\n")
            f.write("}\n")
    return len(names)


def sources(d):
    return sorted(f for f in os.listdir(d) if f.endswith(".c") and f not in ("main.c", "train_hook.c") and not f.startswith("acv_"))


def build(d, main, exe, flags, cc="gcc", ld=("-lm",), extra=()):
    with open(os.path.join(d, f"acv_{exe}.c"), "w") as f:
        f.write(main)
    cexec.quick_build(d, flags=flags, out=f"acv_{exe}", ld=ld, cc=cc, sources=[*sources(d), f"acv_{exe}.c", *extra])

# Re-entrancy: every row from contexts in several initial states, reused contexts, then concurrently from own contexts
THREADS_MAIN = PRELUDE + r"""
#include <pthread.h>
#define NT 6
static elt *expect;
static pthread_barrier_t bar;
static int bad;
static const char *what = "";
#define CANARY 64
typedef struct { unsigned char pre[CANARY]; inference_t c; unsigned char post[CANARY]; } guarded_t;
static guarded_t *guard(void){
  void *p = NULL;
  if (posix_memalign(&p, 4096, sizeof(guarded_t))) abort();
  guarded_t *g = p;
  memset(g->pre, 0x5C, CANARY); memset(g->post, 0x5C, CANARY);
  return g;
}
static int intact(const unsigned char *p){ for (int i = 0; i < CANARY; ++i) if (p[i] != 0x5C) return 0; return 1; }
static void one(guarded_t *g, int r, elt *out, const char *when){
  elt *in = malloc(sizeof(elt) * nn_input_size);
  unsigned char *o = malloc(sizeof(elt) * nn_output_size + 2 * CANARY);
  memcpy(in, nn_test_inputs[r], sizeof(elt) * nn_input_size);
  memset(o, 0x5C, CANARY); memset(o + CANARY, 0xEE, sizeof(elt) * nn_output_size); memset(o + CANARY + sizeof(elt) * nn_output_size, 0x5C, CANARY);
  inference(&g->c, (elt *)(o + CANARY), in);
  if (memcmp(in, nn_test_inputs[r], sizeof(elt) * nn_input_size)) { fprintf(stderr, "ERROR: %s: input modified (row %d)\n", when, r); exit(5); }
  if (!intact(o) || !intact(o + CANARY + sizeof(elt) * nn_output_size)) { fprintf(stderr, "ERROR: %s: wrote around the prediction (row %d)\n", when, r); exit(5); }
  if (!intact(g->pre) || !intact(g->post)) { fprintf(stderr, "ERROR: %s: wrote around the context (row %d)\n", when, r); exit(5); }
  memcpy(out, o + CANARY, sizeof(elt) * nn_output_size);
  free(in); free(o);
}
static void same(const elt *out, int r, const char *when){
  const elt *e = expect + (size_t)r * nn_output_size;
  if (memcmp(out, e, sizeof(elt) * nn_output_size)) {
    int j = 0; while (!memcmp(out + j, e + j, sizeof(elt))) ++j;
    fprintf(stderr, "ERROR: %s: row %d value %d is %a instead of %a\n", when, r, j, (double)out[j], (double)e[j]);
    exit(5);
  }
}
static void *work(void *arg){
  int id = (int)(long)arg;
  guarded_t *g = guard();
  memset(&g->c, id & 1 ? 0x00 : 0xFF, sizeof g->c);
  elt *out = malloc(sizeof(elt) * nn_output_size);
  pthread_barrier_wait(&bar);
  for (int k = 0; k < nb_samples; ++k) { int r = (k * (id + 1) + id) % nb_samples; one(g, r, out, "concurrent"); same(out, r, "concurrent"); }
  free(out); free(g);
  return NULL;
}
int main(int argc, char **argv){
  FILE *f = fopen(argv[1], "w");
  elt *out = malloc(sizeof(elt) * nn_output_size);
  expect = malloc(sizeof(elt) * nn_output_size * nb_samples);
  for (int r = 0; r < nb_samples; ++r) {
    guarded_t *g = guard(); memset(&g->c, 0, sizeof g->c);
    one(g, r, expect + (size_t)r * nn_output_size, "fresh context");
    put(f, expect + (size_t)r * nn_output_size);
    free(g);
  }
  fclose(f);
  unsigned char fill[3] = {0xFF, 0xA5, 0x41};
  for (int k = 0; k < 3; ++k)
    for (int r = 0; r < nb_samples; ++r) {
      guarded_t *g = guard(); memset(&g->c, fill[k], sizeof g->c);
      one(g, r, out, "dirty context"); same(out, r, "dirty context");
      free(g);
    }
  guarded_t *g = guard(); memset(&g->c, 0x7F, sizeof g->c);
  for (int k = 0; k < 2 * nb_samples; ++k) { int r = k < nb_samples ? nb_samples - 1 - k : (k * 7) % nb_samples; one(g, r, out, "reused context"); same(out, r, "reused context"); }
  free(g);
  pthread_barrier_init(&bar, NULL, NT);
  pthread_t t[NT];
  for (long i = 0; i < NT; ++i) pthread_create(&t[i], NULL, work, (void *)i);
  for (int i = 0; i < NT; ++i) pthread_join(t[i], NULL);
  /* the library's own contexts, too */
  for (int r = 0; r < nb_samples; ++r) { inference(&Context[r % MAX_BATCH_SIZE], out, nn_test_inputs[r]); same(out, r, "library context"); }
  free(out); free(expect);
  return 0;
}
"""
