// Projection of R objects to the abstract state of the specification.
// Uses only R's C API (raw data and attributes); no vctrs code.
#include <R.h>
#include <Rinternals.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>

static char* buf = NULL; static size_t blen = 0, bcap = 0;
static void need(size_t n) {
  if (blen + n + 1 > bcap) {
    bcap = (blen + n + 1) * 2 + 4096;
    buf = (char*) realloc(buf, bcap);
    if (!buf) Rf_error("proj: out of memory");
  }
}
static void ps(const char* s) { size_t n = strlen(s); need(n); memcpy(buf + blen, s, n); blen += n; }
static void pc(char c) { need(1); buf[blen++] = c; }
static void pi(long long x) { char t[32]; snprintf(t, 32, "%lld", x); ps(t); }

// ---- element encodings; written through a sink so that they can be both
// emitted as JSON arrays and flattened inside list elements
typedef struct { int first; } sink;
// when fingerprinting, integers are hashed instead of written
static int hashing = 0; static uint64_t hval = 0;
static void em(sink* s, long long x) { if (hashing) { hval ^= (uint64_t) x + 0x9E3779B97F4A7C15ULL + (hval << 6) + (hval >> 2); hval *= 0xff51afd7ed558ccdULL; hval ^= hval >> 33; return; } if (!s->first) pc(','); s->first = 0; pi(x); }

static int dbl_is_na_real(double x) { return R_IsNA(x); }

static void emit_dbl_finite(sink* s, double x) {
  int sg = (x < 0 || (x == 0 && signbit(x))) ? -1 : 1;
  double m = fabs(x);
  if (isinf(x)) { em(s, sg * 2147483647LL); em(s, 0); em(s, 0); em(s, 0); return; }
  if (m >= 4503599627370496.0) { // >= 2^52
    int e; double f = frexp(m, &e); // f in [0.5,1)
    double hi = floor(ldexp(f, 27)); double lo = ldexp(f, 53) - ldexp(hi, 26);
    em(s, sg * (1073741825LL + e)); em(s, sg * (long long) hi); em(s, sg * (long long) lo); em(s, 0);
    return;
  }
  double ip = floor(m), fr = m - ip;
  double a = floor(ip / 4194304.0), b = ip - a * 4194304.0;
  double c0 = ldexp(fr, 30), c = floor(c0), d0 = ldexp(c0 - c, 30), d = floor(d0);
  em(s, sg * (long long) a); em(s, sg * (long long) b); em(s, sg * (long long) c); em(s, sg * (long long) d);
  if (d0 != d) { // very small magnitudes: order preserving tail
    int e; double f = frexp(d0 - d, &e);
    double hi = floor(ldexp(f, 27)); double lo = ldexp(f, 53) - ldexp(hi, 26);
    em(s, sg * (1100LL + e)); em(s, sg * (long long) hi); em(s, sg * (long long) lo);
  } else if (x == 0 && sg < 0) em(s, 1);
}
static void elem_dbl(sink* s, double x) {
  if (dbl_is_na_real(x)) return;
  if (isnan(x)) { em(s, 0); return; }
  emit_dbl_finite(s, x);
}
static void cpl_part(sink* s, double x) {
  if (dbl_is_na_real(x)) { em(s, 2); for (int i = 0; i < 4; ++i) em(s, 0); }
  else if (isnan(x)) { em(s, 0); for (int i = 0; i < 4; ++i) em(s, 0); }
  else { em(s, 1); emit_dbl_finite(s, x == 0 ? 0.0 : x); }
}
static void elem_str(sink* s, SEXP c) {
  if (c == NA_STRING) return;
  em(s, 1);
  const unsigned char* p = (const unsigned char*) CHAR(c);
  cetype_t ce = Rf_getCharCE(c);
  if (ce == CE_LATIN1) { for (; *p; ++p) em(s, *p); return; }
  if (ce == CE_BYTES) { for (; *p; ++p) em(s, 2000000 + *p); return; }
  while (*p) { // UTF-8 (or native in a UTF-8 locale)
    unsigned v; int n;
    if (*p < 0x80) { v = *p; n = 1; }
    else if ((*p & 0xE0) == 0xC0) { v = *p & 0x1F; n = 2; }
    else if ((*p & 0xF0) == 0xE0) { v = *p & 0x0F; n = 3; }
    else if ((*p & 0xF8) == 0xF0) { v = *p & 0x07; n = 4; }
    else { em(s, 2000000 + *p); ++p; continue; }
    for (int i = 1; i < n; ++i) { if (!p[i]) { n = i; break; } v = (v << 6) | (p[i] & 0x3F); }
    em(s, v); p += n;
  }
}
static void elem_i64(sink* s, double x) {
  int64_t v; memcpy(&v, &x, 8);
  if (v == INT64_MIN) return;
  int sg = v < 0 ? -1 : 1; uint64_t m = v < 0 ? (uint64_t)(-v) : (uint64_t) v;
  em(s, sg * (long long)(m >> 42)); em(s, sg * (long long)((m >> 21) & 0x1FFFFF)); em(s, sg * (long long)(m & 0x1FFFFF));
}

// flattened, injective encoding of an arbitrary object (list elements)
static int cmp_attr(const void* a, const void* b) {
  return strcmp(CHAR(PRINTNAME(TAG(*(SEXP*)a))), CHAR(PRINTNAME(TAG(*(SEXP*)b))));
}
static void flat(sink* s, SEXP x);
static void flat_attr(sink* s, SEXP x) {
  SEXP at = ATTRIB(x); int n = 0; SEXP nodes[256];
  if (TYPEOF(x) == CHARSXP) { em(s, 0); return; }
  for (; at != R_NilValue && n < 256; at = CDR(at)) {
    if (TAG(at) == Rf_install("srcref")) continue;
    nodes[n++] = at;
  }
  qsort(nodes, n, sizeof(SEXP), cmp_attr);
  em(s, n);
  for (int i = 0; i < n; ++i) {
    const char* nm = CHAR(PRINTNAME(TAG(nodes[i])));
    em(s, strlen(nm)); for (const char* p = nm; *p; ++p) em(s, (unsigned char) *p);
    SEXP av = CAR(nodes[i]);
    if (hashing && !strcmp(nm, "row.names") && TYPEOF(av) == INTSXP) { // automatic row names have two representations
      R_xlen_t m = Rf_xlength(av), autom = 1;
      if (m == 2 && INTEGER_ELT(av, 0) == NA_INTEGER) m = labs((long) INTEGER_ELT(av, 1));
      else for (R_xlen_t j = 0; j < m; ++j) if (INTEGER_ELT(av, j) != j + 1) autom = 0;
      if (autom) { em(s, -77); em(s, m); continue; }
    }
    flat(s, av);
  }
}
static void flat(sink* s, SEXP x) {
  int t = TYPEOF(x);
  em(s, t + 1);
  switch (t) {
  case NILSXP: return;
  case LGLSXP: case INTSXP: {
    R_xlen_t n = Rf_xlength(x); em(s, n);
    for (R_xlen_t i = 0; i < n; ++i) { int v = t == LGLSXP ? LOGICAL_ELT(x, i) : INTEGER_ELT(x, i); if (v == NA_INTEGER) em(s, 0); else { em(s, 1); em(s, v); } }
    break; }
  case REALSXP: {
    R_xlen_t n = Rf_xlength(x); em(s, n);
    for (R_xlen_t i = 0; i < n; ++i) { double v = REAL_ELT(x, i); if (hashing) { int64_t b; memcpy(&b, &v, 8); em(s, b); } else if (dbl_is_na_real(v)) em(s, 0); else if (isnan(v)) em(s, 1); else { em(s, 2); emit_dbl_finite(s, v == 0 ? 0.0 : v); } }
    break; }
  case CPLXSXP: {
    R_xlen_t n = Rf_xlength(x); em(s, n);
    for (R_xlen_t i = 0; i < n; ++i) { Rcomplex v = COMPLEX_ELT(x, i); cpl_part(s, v.r); cpl_part(s, v.i); }
    break; }
  case RAWSXP: {
    R_xlen_t n = Rf_xlength(x); em(s, n);
    for (R_xlen_t i = 0; i < n; ++i) em(s, RAW(x)[i]);
    break; }
  case STRSXP: {
    R_xlen_t n = Rf_xlength(x); em(s, n);
    for (R_xlen_t i = 0; i < n; ++i) { elem_str(s, STRING_ELT(x, i)); em(s, -1); }
    break; }
  case VECSXP: case EXPRSXP: {
    R_xlen_t n = Rf_xlength(x); em(s, n);
    for (R_xlen_t i = 0; i < n; ++i) flat(s, VECTOR_ELT(x, i));
    break; }
  case SYMSXP: { const char* nm = CHAR(PRINTNAME(x)); em(s, strlen(nm)); for (; *nm; ++nm) em(s, (unsigned char) *nm); return; }
  case LANGSXP: case LISTSXP: {
    flat_attr(s, x);
    for (SEXP n = x; n != R_NilValue && (TYPEOF(n) == LANGSXP || TYPEOF(n) == LISTSXP); n = CDR(n)) {
      if (TAG(n) != R_NilValue) { em(s, -3); flat(s, TAG(n)); }
      flat(s, CAR(n));
    }
    em(s, -2); return; }
  case CLOSXP: flat_attr(s, x); flat(s, FORMALS(x)); flat(s, BODY(x)); flat(s, CLOENV(x)); return;
  default: { uintptr_t p = (uintptr_t) x; em(s, (long long)((p >> 4) & 0x3FFFFFFF)); return; }
  }
  flat_attr(s, x);
}
static void jstr(const char* p) {
  pc('"');
  for (; *p; ++p) {
    unsigned char c = *p;
    if (c == '"' || c == '\\') { pc('\\'); pc(c); }
    else if (c < 0x20) { char t[8]; snprintf(t, 8, "\\u%04x", c); ps(t); }
    else pc(c);
  }
  pc('"');
}
static void open_(sink* s) { pc('['); s->first = 1; }

enum kind { K_NULL, K_LGL, K_INT, K_DBL, K_CPL, K_RAW, K_CHR, K_LIST, K_DF, K_FCT, K_ORD, K_DATE, K_DTTM, K_LT, K_DUR, K_I64, K_LOF, K_RCRD, K_S3, K_SCALAR };
static const char* kname[] = {"null","lgl","int","dbl","cpl","raw","chr","list","df","fct","ord","date","dttm","lt","dur","i64","lof","rcrd","s3","scalar"};

static enum kind kind_of(SEXP x) {
  int t = TYPEOF(x);
  if (t == NILSXP) return K_NULL;
  if (Rf_inherits(x, "data.frame") && t == VECSXP) return K_DF;
  if (Rf_inherits(x, "POSIXlt")) return K_LT;
  if (Rf_inherits(x, "vctrs_rcrd")) return K_RCRD;
  if (Rf_inherits(x, "vctrs_list_of")) return K_LOF;
  if (OBJECT(x)) {
    if (t == INTSXP && Rf_inherits(x, "ordered")) return K_ORD;
    if (t == INTSXP && Rf_inherits(x, "factor")) return K_FCT;
    if (Rf_inherits(x, "Date") && (t == REALSXP || t == INTSXP)) return K_DATE;
    if (Rf_inherits(x, "POSIXct") && (t == REALSXP || t == INTSXP)) return K_DTTM;
    if (Rf_inherits(x, "difftime") && (t == REALSXP || t == INTSXP)) return K_DUR;
    if (Rf_inherits(x, "integer64") && t == REALSXP) return K_I64;
    switch (t) { case LGLSXP: case INTSXP: case REALSXP: case CPLXSXP: case RAWSXP: case STRSXP: case VECSXP: return K_S3; default: return K_SCALAR; }
  }
  switch (t) {
  case LGLSXP: return K_LGL; case INTSXP: return K_INT; case REALSXP: return K_DBL; case CPLXSXP: return K_CPL;
  case RAWSXP: return K_RAW; case STRSXP: return K_CHR; case VECSXP: return K_LIST; default: return K_SCALAR;
  }
}
static const char* stname(SEXP x) {
  switch (TYPEOF(x)) {
  case LGLSXP: return "lgl"; case INTSXP: return "int"; case REALSXP: return "dbl"; case CPLXSXP: return "cpl";
  case RAWSXP: return "raw"; case STRSXP: return "chr"; case VECSXP: return "list"; case NILSXP: return "null"; default: return "other";
  }
}
static SEXP at(SEXP x, const char* nm) { // raw attribute, no row.names expansion
  SEXP s = Rf_install(nm);
  for (SEXP a = ATTRIB(x); a != R_NilValue; a = CDR(a)) if (TAG(a) == s) return CAR(a);
  return R_NilValue;
}
static long df_nrow(SEXP x) {
  SEXP rn = at(x, "row.names");
  if (TYPEOF(rn) == INTSXP && Rf_xlength(rn) == 2 && INTEGER_ELT(rn, 0) == NA_INTEGER) return labs((long) INTEGER_ELT(rn, 1));
  if (rn != R_NilValue) return Rf_xlength(rn);
  return Rf_xlength(x) ? Rf_xlength(VECTOR_ELT(x, 0)) : 0;
}
static long nrows_of(SEXP x, enum kind k) {
  switch (k) {
  case K_NULL: case K_SCALAR: return 0;
  case K_DF: return df_nrow(x);
  case K_RCRD: return Rf_xlength(x) ? Rf_xlength(VECTOR_ELT(x, 0)) : 0;
  default: { SEXP d = at(x, "dim"); if (TYPEOF(d) == INTSXP && Rf_xlength(d) > 0) return INTEGER_ELT(d, 0); return Rf_xlength(x); }
  }
}
// names as the abstract vector has them (row names for data frames, dimnames[[1]] for arrays)
static SEXP vnames(SEXP x, enum kind k) {
  if (k == K_NULL || k == K_SCALAR) return R_NilValue;
  if (k == K_DF) { SEXP rn = at(x, "row.names"); return TYPEOF(rn) == STRSXP ? rn : R_NilValue; }
  if (k == K_RCRD || k == K_LT) return R_NilValue;
  if (at(x, "dim") != R_NilValue) { SEXP dn = at(x, "dimnames"); return (TYPEOF(dn) == VECSXP && Rf_xlength(dn) > 0) ? VECTOR_ELT(dn, 0) : R_NilValue; }
  return at(x, "names");
}
static int skip_attr(enum kind k, SEXP tag) {
  const char* n = CHAR(PRINTNAME(tag));
  if (!strcmp(n, "names") || !strcmp(n, "class") || !strcmp(n, "dim") || !strcmp(n, "srcref")) return 1;
  if (k == K_DF && !strcmp(n, "row.names")) return 1;
  if ((k == K_FCT || k == K_ORD) && !strcmp(n, "levels")) return 1;
  if (k == K_DTTM && !strcmp(n, "tzone")) return 1;
  if (k == K_DUR && !strcmp(n, "units")) return 1;
  if (k == K_LOF && !strcmp(n, "ptype")) return 1;
  return 0;
}
static void emit_attrs(SEXP x, enum kind k) {
  SEXP nodes[256]; int n = 0;
  for (SEXP a = ATTRIB(x); a != R_NilValue && n < 256; a = CDR(a)) if (!skip_attr(k, TAG(a))) nodes[n++] = a;
  qsort(nodes, n, sizeof(SEXP), cmp_attr);
  pc('"'); int any = 0;
  for (int i = 0; i < n; ++i) {
    const char* nm = CHAR(PRINTNAME(TAG(nodes[i])));
    SEXP v = CAR(nodes[i]);
    if (!strcmp(nm, "dimnames")) { // the first component is `n`
      int has = 0;
      if (TYPEOF(v) == VECSXP) for (R_xlen_t j = 1; j < Rf_xlength(v); ++j) if (VECTOR_ELT(v, j) != R_NilValue) has = 1;
      if (at(v, "names") != R_NilValue) has = 1;
      if (!has) continue;
      if (any++) pc(';');
      ps("dimnames:"); sink s = {1};
      for (R_xlen_t j = 1; j < Rf_xlength(v); ++j) flat(&s, VECTOR_ELT(v, j));
      if (at(v, "names") != R_NilValue) flat(&s, at(v, "names"));
      continue;
    }
    if (any++) pc(';');
    for (const char* p = nm; *p; ++p) if (*p != '"' && *p != '\\') pc(*p);
    pc(':'); sink s = {1}; flat(&s, v);
  }
  pc('"');
}
static void emit_strs(SEXP v) { // array of strings as code points
  pc('[');
  if (TYPEOF(v) == STRSXP) for (R_xlen_t i = 0; i < Rf_xlength(v); ++i) { if (i) pc(','); sink s; open_(&s); elem_str(&s, STRING_ELT(v, i)); pc(']'); }
  pc(']');
}
static void shell(SEXP x) {
  enum kind k = kind_of(x);
  ps("{\"k\":\""); ps(kname[k]); ps("\",\"st\":\""); ps(stname(x)); ps("\",\"c\":");
  SEXP cl = k == K_NULL ? R_NilValue : at(x, "class");
  if (TYPEOF(cl) == STRSXP) { pc('"'); for (R_xlen_t i = 0; i < Rf_xlength(cl); ++i) { if (i) pc('/'); ps(CHAR(STRING_ELT(cl, i))); } pc('"'); } else ps("\"\"");
  ps(",\"p\":");
  if (k == K_DTTM) { SEXP tz = at(x, "tzone"); if (TYPEOF(tz) == STRSXP && Rf_xlength(tz) > 0) jstr(CHAR(STRING_ELT(tz, 0))); else ps(tz == R_NilValue ? "\"NULL\"" : "\"?\""); }
  else if (k == K_DUR) { SEXP u = at(x, "units"); if (TYPEOF(u) == STRSXP && Rf_xlength(u) > 0) jstr(CHAR(STRING_ELT(u, 0))); else ps("\"?\""); }
  else ps("\"\"");
  ps(",\"a\":"); if (k == K_NULL || k == K_SCALAR) ps("\"\""); else emit_attrs(x, k);
  ps(",\"l\":");
  if (k == K_FCT || k == K_ORD) emit_strs(at(x, "levels"));
  else if (k == K_DF || k == K_RCRD) emit_strs(at(x, "names"));
  else ps("[]");
  SEXP d = (k == K_NULL || k == K_SCALAR) ? R_NilValue : at(x, "dim");
  ps(",\"nd\":"); pi(TYPEOF(d) == INTSXP ? (long) Rf_xlength(d) : 0);
  ps(",\"d\":["); if (TYPEOF(d) == INTSXP) for (R_xlen_t i = 1; i < Rf_xlength(d); ++i) { if (i > 1) pc(','); pi(INTEGER_ELT(d, i)); } pc(']');
  ps(",\"h\":[");
  if (k == K_DF || k == K_RCRD) for (R_xlen_t i = 0; i < Rf_xlength(x); ++i) { if (i) pc(','); shell(VECTOR_ELT(x, i)); }
  else if (k == K_LOF) shell(at(x, "ptype"));
  ps("],\"x\":[");
  if (k == K_DF || k == K_RCRD) for (R_xlen_t i = 0; i < Rf_xlength(x); ++i) { if (i) pc(','); SEXP c = VECTOR_ELT(x, i); pi(vnames(c, kind_of(c)) != R_NilValue); }
  ps("]}");
}
// elements of row i, comma separated
static void row(SEXP x, long i, int* first) {
  enum kind k = kind_of(x);
  if (k == K_NULL || k == K_SCALAR) return;
  if (k == K_DF || k == K_RCRD) {
    for (R_xlen_t j = 0; j < Rf_xlength(x); ++j) {
      SEXP c = VECTOR_ELT(x, j); enum kind ck = kind_of(c);
      row(c, i, first);
      SEXP nm = vnames(c, ck);
      if (nm != R_NilValue) { if (!*first) pc(','); *first = 0; sink s; open_(&s); if (i < Rf_xlength(nm)) elem_str(&s, STRING_ELT(nm, i)); pc(']'); }
    }
    return;
  }
  long n = nrows_of(x, k); R_xlen_t len = Rf_xlength(x);
  if (k == K_LT) return;
  SEXP d = at(x, "dim"); long cells = 1;
  if (TYPEOF(d) == INTSXP) { for (R_xlen_t j = 1; j < Rf_xlength(d); ++j) cells *= INTEGER_ELT(d, j); }
  for (long cix = 0; cix < cells; ++cix) {
    R_xlen_t p = (R_xlen_t) cix * n + i;
    if (!*first) pc(','); *first = 0;
    sink s; open_(&s);
    if (p >= len) { em(&s, -999); em(&s, -999); pc(']'); continue; }
    switch (TYPEOF(x)) {
    case LGLSXP: { int v = LOGICAL_ELT(x, p); if (v != NA_LOGICAL) em(&s, v != 0); break; }
    case INTSXP: { int v = INTEGER_ELT(x, p); if (v != NA_INTEGER) em(&s, v); break; }
    case REALSXP: if (k == K_I64) elem_i64(&s, REAL_ELT(x, p)); else elem_dbl(&s, REAL_ELT(x, p)); break;
    case CPLXSXP: { Rcomplex v = COMPLEX_ELT(x, p); cpl_part(&s, v.r); cpl_part(&s, v.i); break; }
    case RAWSXP: em(&s, RAW(x)[p]); break;
    case STRSXP: elem_str(&s, STRING_ELT(x, p)); break;
    case VECSXP: { SEXP e = VECTOR_ELT(x, p); if (e != R_NilValue) flat(&s, e); break; }
    default: break;
    }
    pc(']');
  }
}
static void vec_(SEXP x) {
  enum kind k = kind_of(x);
  ps("{\"s\":"); shell(x); ps(",\"r\":[");
  long n = nrows_of(x, k);
  for (long i = 0; i < n; ++i) { if (i) pc(','); pc('['); int f = 1; row(x, i, &f); pc(']'); }
  ps("],\"hn\":");
  SEXP nm = vnames(x, k);
  if (nm != R_NilValue) { ps("1,\"n\":"); emit_strs(nm); } else ps("0,\"n\":[]");
  pc('}');
}
static SEXP done(void) {
  need(1); buf[blen] = 0;
  SEXP c = PROTECT(Rf_mkCharLenCE(buf, blen, CE_UTF8));
  SEXP o = Rf_ScalarString(c); UNPROTECT(1); blen = 0; return o;
}
SEXP proj_vec(SEXP x) { blen = 0; hashing = 0; vec_(x); return done(); }
SEXP proj_shell(SEXP x) { blen = 0; hashing = 0; shell(x); return done(); }
// list of objects -> JSON array of vectors
SEXP proj_list(SEXP x) {
  blen = 0; pc('[');
  for (R_xlen_t i = 0; i < Rf_xlength(x); ++i) { if (i) pc(','); vec_(VECTOR_ELT(x, i)); }
  pc(']'); return done();
}
SEXP proj_strs(SEXP x) { blen = 0; emit_strs(x); return done(); }
// list of integer vectors -> [[..],..], NA as -999999999
// fingerprint of an object: the same for identical values, however they are represented
SEXP proj_fp(SEXP x) {
  sink s = {1}; hashing = 1; hval = 0x1234567; flat(&s, x); hashing = 0;
  char t[32]; snprintf(t, 32, "%016llx", (unsigned long long) hval); return Rf_mkString(t);
}
static void ints(SEXP x) {
  pc('[');
  for (R_xlen_t i = 0; i < Rf_xlength(x); ++i) {
    if (i) pc(',');
    double v = TYPEOF(x) == REALSXP ? REAL_ELT(x, i) : (TYPEOF(x) == LGLSXP ? (LOGICAL_ELT(x, i) == NA_LOGICAL ? NA_REAL : LOGICAL_ELT(x, i)) : (INTEGER_ELT(x, i) == NA_INTEGER ? NA_REAL : INTEGER_ELT(x, i)));
    if (ISNAN(v)) ps("-999999999"); else pi((long long) v);
  }
  pc(']');
}
SEXP proj_ints(SEXP x) { blen = 0; ints(x); return done(); }
SEXP proj_intlist(SEXP x) {
  blen = 0; pc('[');
  for (R_xlen_t i = 0; i < Rf_xlength(x); ++i) { if (i) pc(','); ints(VECTOR_ELT(x, i)); }
  pc(']'); return done();
}
// TRUELENGTH of the strings of a character vector
SEXP proj_truelength(SEXP x) {
  R_xlen_t n = Rf_xlength(x); SEXP o = PROTECT(Rf_allocVector(INTSXP, n));
  for (R_xlen_t i = 0; i < n; ++i) INTEGER(o)[i] = (int) TRUELENGTH(STRING_ELT(x, i));
  UNPROTECT(1); return o;
}
// the memory identity of an object, for aliasing
SEXP proj_addr(SEXP x) { char t[32]; snprintf(t, 32, "%p", (void*) x); return Rf_mkString(t); }
// mark an object as shared / read whether it is
SEXP proj_shared(SEXP x) { return Rf_ScalarLogical(MAYBE_SHARED(x)); }
