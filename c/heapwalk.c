/* Snapshots of the real heap, in the vocabulary of specs/GC.tla, for C01/C02. Loaded into the running system with
   Dynlib; only reads the heap. One JSON line per snapshot is written to $VF_SNAPOUT. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mlvalues.h"
#include "gc.h"
#include "major_gc.h"
#include "minor_gc.h"
#include "memory.h"
#include "stacks.h"

extern value global_data;
extern void local_roots (void (*) (value *, value));

#define MAXN 120
static FILE *out;
static value **reft0;

/* open-addressing set of values */
typedef struct { value *t; long cap, n; } set;
static void set_init (set *s, long cap) { s->cap = cap; s->n = 0; s->t = calloc (cap, sizeof (value)); }
static int set_add (set *s, value v)
{
  unsigned long i = ((unsigned long) v >> 3) * 0x9E3779B97F4A7C15UL % s->cap;
  while (s->t[i]) { if (s->t[i] == v) return 0; i = (i + 1) % s->cap; }
  s->t[i] = v;
  s->n++;
  if (s->n * 2 > s->cap) {
    set b;
    long j;
    set_init (&b, s->cap * 2);
    for (j = 0; j < s->cap; j++) if (s->t[j]) set_add (&b, s->t[j]);
    free (s->t);
    *s = b;
  }
  return 1;
}
static int set_has (set *s, value v)
{
  unsigned long i = ((unsigned long) v >> 3) * 0x9E3779B97F4A7C15UL % s->cap;
  while (s->t[i]) { if (s->t[i] == v) return 1; i = (i + 1) % s->cap; }
  return 0;
}
typedef struct { value *v; long n, cap; } vec;
static void push (vec *s, value v)
{
  if (s->n == s->cap) { s->cap = s->cap ? 2 * s->cap : 1024; s->v = realloc (s->v, s->cap * sizeof (value)); }
  s->v[s->n++] = v;
}

static vec roots;
static void root (value *p, value v) { if (Is_block (v)) push (&roots, v); }
static int inheap (value v) { return Is_block (v) && Is_in_heap (v); }
static int young (value v) { return Is_block (v) && Is_young (v); }

static value minor0 (value u) { return Val_unit; }

/* Called right after a minor collection: the remembered set is empty, its start is where its pointer stands. */
value vf_init (value unit)
{
  char *f = getenv ("VF_SNAPOUT");
  out = f ? fopen (f, "w") : NULL;
  reft0 = ref_table_ptr;
  return out ? Val_long (1) : Val_long (0);
}

value vf_snap (value top)
{
  set blocks, prot, seen;
  vec todo = {0, 0, 0}, nodes = {0, 0, 0};
  char *chunk, *hp, *end;
  long nblocks = 0, free_ = 0, bad = 0, gray = 0, i, j;
  value **r;
  if (!out) return Val_unit;
  set_init (&blocks, 1 << 16);
  set_init (&prot, 1 << 14);
  set_init (&seen, 1 << 10);
  /* walk the heap: chunks in address order, blocks fill them exactly */
  for (chunk = heap_start; chunk != NULL; chunk = (((heap_chunk_head *) chunk) [-1]).next) {
    end = chunk + (((heap_chunk_head *) chunk) [-1]).size;
    for (hp = chunk; hp < end; hp += Bhsize_hp (hp)) {
      if (Wosize_hp (hp) == 0) continue;
      nblocks++;
      if (Is_blue_hd (Hd_hp (hp))) { free_++; continue; }
      set_add (&blocks, Val_hp (hp));
      if (Is_gray_hd (Hd_hp (hp))) { gray++; if (gc_phase == Phase_mark) push (&todo, Val_hp (hp)); else bad++; }
    }
    if (hp != end) bad++;
  }
  /* what the marker will still reach through white blocks */
  while (todo.n) {
    value v = todo.v[--todo.n];
    if (Tag_val (v) < No_scan_tag)
      for (i = 0; i < Wosize_val (v); i++) {
        value c = Field (v, i);
        if (inheap (c) && set_has (&blocks, c) && Is_white_val (c) && set_add (&prot, c)) push (&todo, c);
      }
  }
  /* the graph below top, breadth first; plus the roots of the whole process for the count of dangling ones */
  roots.n = 0;
  push (&roots, global_data);
  local_roots ((void (*) (value *, value)) root);
  if (Is_block (top)) { push (&nodes, top); set_add (&seen, top); }
  for (i = 0; i < nodes.n && i < MAXN; i++) {
    value v = nodes.v[i];
    if ((inheap (v) && set_has (&blocks, v)) || young (v))
      if (Tag_val (v) < Weak_tag && Wosize_val (v) < 400)
        for (j = 0; j < Wosize_val (v); j++) {
          value c = Field (v, j);
          if ((inheap (c) || young (c)) && nodes.n < MAXN && set_add (&seen, c)) push (&nodes, c);
        }
  }
  fprintf (out, "{\"phase\":\"%s\",\"bad\":%ld,\"nodes\":[", gc_phase == Phase_mark ? "mark" : gc_phase == Phase_weak ? "weak" : "sweep", bad);
  for (i = 0; i < nodes.n; i++) {
    value v = nodes.v[i];
    int ok = (inheap (v) && set_has (&blocks, v)), y = young (v);
    int ahead = !y && (addr) Hp_val (v) >= (addr) gc_sweep_hp;
    const char *c = !ok ? "free" : Is_white_val (v) ? "white" : Is_gray_val (v) ? "gray" : "black";
    fprintf (out, "%s{\"gen\":\"%s\",\"col\":\"%s\",\"ahead\":%s,\"prot\":%s,\"weak\":%s,\"f\":[", i ? "," : "",
             y ? "young" : "old", y ? "black" : c, ahead ? "true" : "false", set_has (&prot, v) ? "true" : "false",
             (ok || y) && Tag_val (v) == Weak_tag ? "true" : "false");
    if ((ok || y) && Tag_val (v) <= Weak_tag && Wosize_val (v) < 400) {
      int first = 1;
      for (j = 0; j < Wosize_val (v); j++) {
        value c = Field (v, j);
        long k, rem = 0;
        if (!(inheap (c) || young (c))) continue;
        for (k = 0; k < nodes.n && nodes.v[k] != c; k++) ;
        if (k == nodes.n) {                        /* beyond the horizon, or met only weakly */
          k = (young (c) || (inheap (c) && set_has (&blocks, c))) ? -1 : -2;
        }
        if (!y && young (c))
          for (r = reft0; r < ref_table_ptr; r++) if (*r == &Field (v, j)) { rem = 1; break; }
        fprintf (out, "%s[%ld,%d,%ld]", first ? "" : ",", k < 0 ? k : k + 1, young (c) ? 1 : 0, rem);
        first = 0;
      }
    }
    fprintf (out, "]}");
  }
  j = 0;
  for (i = 0; i < roots.n; i++)
    if (inheap (roots.v[i]) && !set_has (&blocks, roots.v[i])) j++;
  fprintf (out, "],\"roots\":%ld,\"blocks\":%ld,\"rootbad\":%ld}\n", roots.n, nblocks, j);
  free (blocks.t); free (prot.t); free (seen.t); free (todo.v); free (nodes.v);
  return Val_unit;
}
value vf_close (value unit) { if (out) fclose (out); out = NULL; return Val_unit; }
