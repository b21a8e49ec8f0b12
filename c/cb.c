/* C side of the callback driver: every entry point is called from ML through Dynlib. */
#include <stdlib.h>
#include <string.h>
#include <mlvalues.h>
#include <alloc.h>
#include <memory.h>
#include <fail.h>
#include <interp.h>
#include <callback.h>

static valueptr slot[16];

static char *dup_(value s) { return strdup(String_val(s)); }

value cb_ptr(value i, value name)
{
  char *n = dup_(name);
  slot[Long_val(i)] = get_valueptr(n);
  free(n);
  return Val_long(slot[Long_val(i)] != NULL);
}

value cb_null(value i) { slot[Long_val(i)] = NULL; return Val_unit; }

static value pair(value a, value b)
{
  value res;
  Push_roots(r, 2);
  r[0] = a; r[1] = b;
  res = alloc_tuple(2);
  modify(&Field(res, 0), r[0]);
  modify(&Field(res, 1), r[1]);
  Pop_roots();
  return res;
}

value cb_val(value i)
{
  value v = get_value(slot[Long_val(i)]);
  return v == (value)NULL ? pair(Val_long(0), Val_long(0)) : pair(Val_long(1), v);
}

/* calls slot i with the args of arity k, keeping a root meanwhile */
value cb_call(value k, value i, value args, value kept)
{
  value res = Val_unit;
  valueptr p = slot[Long_val(i)];
  Push_roots(r, 2);
  r[0] = kept;
  r[1] = args;
  switch (Long_val(k)) {
  case 1: res = callbackptr(p, Field(args, 0)); break;
  case 2: res = callbackptr2(p, Field(args, 0), Field(args, 1)); break;
  case 3: res = callbackptr3(p, Field(args, 0), Field(args, 1), Field(args, 2)); break;
  }
  res = pair(res, r[0]);
  Pop_roots();
  return res;
}

/* the documented idiom callback(get_value(p), arg) for arity 1, through two slots in turn */
value cb_chain(value i, value j, value arg, value kept)
{
  value res;
  Push_roots(r, 1);
  r[0] = kept;
  res = callbackptr(slot[Long_val(i)], arg);
  res = callbackptr(slot[Long_val(j)], res);
  res = pair(res, r[0]);
  Pop_roots();
  return res;
}

value cb_reg(value name, value v)
{
  char *n;
  Push_roots(r, 1);
  r[0] = v;
  n = dup_(name);
  registervalue(n, r[0]);
  free(n);
  Pop_roots();
  return Val_unit;
}

value cb_unreg(value name)
{
  char *n = dup_(name);
  unregistervalue(n);
  free(n);
  return Val_unit;
}

static value seq(int n, value *a)
{
  value res;
  int k;
  Push_roots(r, 5);
  for (k = 0; k < n; k++) r[k] = a[k];
  for (; k < 5; k++) r[k] = Val_long(0);
  res = alloc_tuple(n);
  for (k = 0; k < n; k++) modify(&Field(res, k), r[k]);
  Pop_roots();
  return res;
}

value cb_f1(value a) { return seq(1, &a); }
value cb_f2(value a, value b) { value x[] = {b, a}; return seq(2, x); }
value cb_f3(value a, value b, value c) { value x[] = {c, a, b}; return seq(3, x); }
value cb_f4(value a, value b, value c, value d) { value x[] = {d, c, b, a}; return seq(4, x); }
value cb_f5(value a, value b, value c, value d, value e) { value x[] = {e, a, d, b, c}; return seq(5, x); }
value cb_var = Val_long(4711);

value cb_regc(value name, value k)
{
  void *f[] = {&cb_var, cb_f1, cb_f2, cb_f3, cb_f4, cb_f5};
  char *n = dup_(name);
  registercptr(n, f[Long_val(k)]);
  free(n);
  return Val_unit;
}
