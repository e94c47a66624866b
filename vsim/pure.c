/* Drives the functions the rest of the server trusts for matching, encoding, formatting and queueing with generated
 * inputs and compares every result with an independent definition.  Linked with the real objects; main() of ircd.c is
 * renamed.  Usage: pure SEED SECTION COUNT.  Prints "FAIL <key> <text>" and exits 3 on the first difference. */
#include "config.h"
#include "client.h"
#include "dbuf.h"
#include "ircd.h"
#include "ircd_chattr.h"
#include "ircd_defs.h"
#include "ircd_features.h"
#include "ircd_snprintf.h"
#include "ircd_string.h"
#include "ircd_alloc.h"
#include "match.h"
#include "msgq.h"
#include "numnicks.h"
#include "res.h"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <ctype.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>

static uint64_t rs;
static uint32_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (uint32_t)(rs >> 16); }
static int below(int n) { return rnd() % n; }
static int chance(int pct) { return below(100) < pct; }

static char *esc(const char *s)
{
  static char b[8][9000]; static int k;
  char *o = b[k = (k + 1) % 8], *e = o + 8900;
  for (; *s && o < e; s++)
    if ((unsigned char)*s < 32 || (unsigned char)*s > 126) o += sprintf(o, "<%02x>", (unsigned char)*s); else *o++ = *s;
  *o = 0;
  return b[k];
}
#define FAIL(key, ...) do { printf("FAIL %s ", key); printf(__VA_ARGS__); printf("\n"); fflush(stdout); _exit(3); } while (0)

static struct { const char *n; unsigned long c; } cnt[64];
static void count(const char *n) { int i; for (i = 0; i < 64; i++) { if (!cnt[i].n) cnt[i].n = n; if (cnt[i].n == n) { cnt[i].c++; return; } } }
static unsigned long evals;

/* a heap copy that ends exactly at its terminator, so that any over-read is seen */
static char *tight(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p; }

/* ---- masks -------------------------------------------------------------------------------------------------- */
static int low(int c)
{
  c &= 255;
  if (c >= 'A' && c <= '^') return c + 32;
  if (c >= 0xC0 && c <= 0xDE && c != 0xD7) return c + 32;
  return c;
}
enum { LIT, ONE, MANY, EXACT };
struct tok { int k, c; };
struct pat { struct tok t[512]; int n; };

static void parse(struct pat *p, const char *m, int full)
{
  p->n = 0;
  for (; *m; m++) {
    struct tok *t = &p->t[p->n++];
    if (*m == '*') t->k = MANY;
    else if (*m == '?') t->k = ONE;
    else if (*m == '\\' && (m[1] == '*' || m[1] == '?' || (full && m[1]))) { t->k = EXACT; t->c = *++m & 255; }
    else { t->k = LIT; t->c = *m & 255; }
  }
}
static int refmatch(const struct pat *p, const char *s)
{
  static char a[2][2048];
  int n = strlen(s), i, j, cur = 0;
  memset(a[0], 0, n + 1);
  a[0][0] = 1;
  for (i = 0; i < p->n; i++) {
    char *x = a[cur], *y = a[cur ^= 1];
    const struct tok *t = &p->t[i];
    y[0] = t->k == MANY ? x[0] : 0;
    for (j = 1; j <= n; j++) {
      int c = s[j - 1] & 255;
      switch (t->k) {
      case MANY: y[j] = x[j] || y[j - 1]; break;
      case ONE: y[j] = x[j - 1]; break;
      case EXACT: y[j] = x[j - 1] && c == t->c; break;
      default: y[j] = x[j - 1] && low(c) == low(t->c);
      }
    }
  }
  return a[cur][n];
}
static int refmask(const char *m, const char *s, int full) { static struct pat p; parse(&p, m, full); return refmatch(&p, s); }

static const char *TOK[] = { "*", "?", "a", "b", "A", "*", "\\*", "\\?", "{", "[", "a", "c", ".", "\\\\", "\\a", "\\A", "\xe9", "\xc9", "|", "~", "^" };
static const char NAME[] = "abABc*?{[.\\|~^\xe9\xc9";
static void genmask(char *o, int maxtok, int ntok)
{
  int n = below(maxtok + 1);
  *o = 0;
  while (n--) strcat(o, TOK[below(ntok)]);
}
static void genname(char *o, int max, const char *set, int nset)
{
  int n = below(max + 1);
  while (n--) *o++ = set[below(nset)];
  *o = 0;
}
/* a name the mask is likely to match */
static void fromask(char *o, const char *m, const char *set, int nset)
{
  for (; *m; m++) {
    if (*m == '*') { int n = below(4); while (n--) *o++ = set[below(nset)]; }
    else if (*m == '?') *o++ = set[below(nset)];
    else { if (*m == '\\' && m[1]) m++; *o++ = chance(90) ? *m : set[below(nset)]; }
  }
  *o = 0;
}

static void one_match(const char *mask, const char *name, int full)
{
  char *m = tight(mask), *s = tight(name);
  int want = refmask(mask, name, 1), got = !match(m, s);
  evals++;
  if (want != got)
    FAIL("match", "match(\"%s\", \"%s\") says %s", esc(mask), esc(name), got ? "match" : "no match");
  count(want ? "match:yes" : "match:no");
  if (!full) {
    /* the compiled forms agree with the plain one */
    int len = strlen(m), minlen, n, k, need = 0;
    char *c = malloc(len + 1), *d = malloc(2 * len + 2);
    static struct pat p;
    parse(&p, mask, 0);
    for (k = 0; k < p.n; k++) need += p.t[k].k != MANY;
    n = matchcomp(c, &minlen, 0, m);
    if (minlen != need || n != (int)strlen(c))
      FAIL("matchcomp", "matchcomp(\"%s\") says %d characters needed, reference %d (length %d)", esc(mask), minlen, need, n);
    if ((matchexec(s, c, minlen) == 0) != want)
      FAIL("matchexec", "matchexec of \"%s\" on \"%s\" says %s", esc(mask), esc(name), want ? "no match" : "match");
    n = matchdecomp(d, c);
    if (n != (int)strlen(d) || refmask(d, name, 0) != want)
      FAIL("matchdecomp", "\"%s\" is printed back as \"%s\", which differs on \"%s\"", esc(mask), esc(d), esc(name));
    free(c); free(d);
    c = tight(mask);
    if (collapse(c) != c || strlen(c) > strlen(mask) || refmask(c, name, 0) != want)
      FAIL("collapse", "\"%s\" is collapsed to \"%s\", which differs on \"%s\"", esc(mask), esc(c), esc(name));
    d = tight(c);
    collapse(d);
    if (strcmp(c, d))
      FAIL("collapse", "\"%s\" is collapsed to \"%s\" and that to \"%s\"", esc(mask), esc(c), esc(d));
    free(c); free(d);
  }
  free(m); free(s);
}

static char names[4000][8]; static int nnames;
static void allnames(void)
{
  static const char S[] = "abc*?";
  int len, i;
  for (len = 0; len <= 5; len++) {
    int tot = 1; for (i = 0; i < len; i++) tot *= 5;
    int k;
    for (k = 0; k < tot && nnames < 4000; k++) {
      int v = k; for (i = 0; i < len; i++, v /= 5) names[nnames][i] = S[v % 5];
      names[nnames++][len] = 0;
    }
  }
}
static void one_super(const char *a, const char *b)
{
  static struct pat pa, pb;
  int i, wide, lit = 1;
  char *x = tight(a), *y = tight(b), nm[600];
  parse(&pa, a, 0), parse(&pb, b, 0);
  wide = !mmatch(x, y);
  evals++;
  for (i = 0; i < pb.n; i++) lit &= pb.t[i].k == LIT || pb.t[i].k == EXACT;
  count(wide ? "super:yes" : "super:no");
  if (wide)
    for (i = 0; i < nnames; i++)
      if (refmatch(&pb, names[i]) && !refmatch(&pa, names[i]))
        FAIL("mmatch", "\"%s\" is said to cover \"%s\", but only the latter matches \"%s\"", esc(a), esc(b), names[i]);
  if (lit) {
    for (i = 0; i < pb.n; i++) nm[i] = pb.t[i].c;
    nm[i] = 0;
    if (refmatch(&pa, nm) != wide)
      FAIL("mmatch", "whether \"%s\" covers \"%s\" is answered wrongly", esc(a), esc(b));
    count("super:literal");
  }
  if (!strcmp(a, b) && !wide) FAIL("mmatch", "\"%s\" does not cover itself", esc(a));
  if (!strcmp(a, "*") && !wide) FAIL("mmatch", "* does not cover \"%s\"", esc(b));
  free(x); free(y);
}

static void s_match(int n)
{
  char m[2048], s[2048];
  int i, k;
  while (n--) {
    int full = chance(25), small = chance(60);
    int nt = full ? 16 : small ? 6 : 13;
    genmask(m, small ? 6 : 14, nt);
    if (chance(2)) { m[0] = 0; for (i = 0; i < 60; i++) strcat(m, TOK[below(nt)]); }
    for (k = 0; k < 6; k++) {
      if (k & 1) genname(s, small ? 5 : 12, NAME, small ? 5 : 14); else fromask(s, m, NAME, small ? 5 : 14);
      one_match(m, s, full);
    }
  }
}
static void s_super(int n)
{
  static const char *T[] = { "*", "?", "a", "b", "*", "\\*", "\\?", "a", "c" };
  char a[200], b[200], *p; int i, k, z;
  allnames();
  while (n--) {
    int full = chance(60) ? 5 : 9;
    a[0] = b[0] = 0;
    for (i = below(6); i >= 0; i--) strcat(a, T[below(full)]);
    if (chance(40)) {
      /* a narrower one made from it */
      char w[200]; strcpy(w, a);
      for (p = w, k = 0; *p && k < 60; p++) {
        if (*p == '\\') { b[k++] = *p++; b[k++] = *p; }
        else if (*p == '*') for (z = below(4); z; z--) { const char *q = T[below(full)]; while (*q) b[k++] = *q++; }
        else if (*p == '?' && chance(60)) { const char *q = T[1 + below(3)]; while (*q) b[k++] = *q++; }
        else b[k++] = *p;
      }
      b[k] = 0;
    } else if (chance(10)) strcpy(b, a);
    else for (i = below(6); i >= 0; i--) strcat(b, T[below(full)]);
    if (chance(3)) strcpy(a, "*");
    one_super(a, b);
  }
}

/* ---- addresses ---------------------------------------------------------------------------------------------- */
static void genaddr(struct irc_in_addr *a)
{
  unsigned char *p = (unsigned char *)a;
  int i, k = below(10);
  memset(a, 0, sizeof *a);
  if (k < 3) { p[10] = p[11] = 255; for (i = 12; i < 16; i++) p[i] = chance(20) ? 0 : rnd(); if (chance(5)) memset(p + 12, 0, 4); return; }
  for (i = 0; i < 8; i++) if (!chance(k < 7 ? 50 : 10)) { p[2 * i] = chance(40) ? 0 : rnd(); p[2 * i + 1] = chance(10) ? 0 : rnd(); }
  if (k == 9) { p[0] = 0x20; p[1] = 2; }
}
static int v4(const struct irc_in_addr *a)
{
  const unsigned char *p = (const unsigned char *)a; int i;
  for (i = 0; i < 10; i++) if (p[i]) return 0;
  if (p[10] == 255 && p[11] == 255) return 1;
  return 0;
}
static int v4compat(const struct irc_in_addr *a)
{
  const unsigned char *p = (const unsigned char *)a; int i;
  for (i = 0; i < 12; i++) if (p[i]) return 0;
  return p[12] || p[13];
}
static const char *hexa(const struct irc_in_addr *a)
{
  static char b[4][40]; static int k; int i; char *o = b[k = (k + 1) % 4];
  for (i = 0; i < 16; i++) sprintf(o + 2 * i, "%02x", ((const unsigned char *)a)[i]);
  return o;
}
/* a textual form of the address, chosen among the valid ones */
static void text(char *o, const struct irc_in_addr *a)
{
  const unsigned char *p = (const unsigned char *)a;
  int g[8], i, s = -1, e = -1, tail = chance(20) ? 6 : 8, first = 1;
  if (v4(a) && chance(80)) { sprintf(o, "%d.%d.%d.%d", p[12], p[13], p[14], p[15]); return; }
  for (i = 0; i < 8; i++) g[i] = p[2 * i] << 8 | p[2 * i + 1];
  /* choose a run of zeros to abbreviate */
  for (i = below(tail); i < tail; i++) if (!g[i]) { s = i; for (e = i + 1; e < tail && !g[e] && chance(80); e++); if (e - s > 0 && chance(90)) break; s = -1; }
  *o = 0;
  for (i = 0; i < tail; i++) {
    if (i == s) { strcat(o, "::"); i = e - 1; first = 1; continue; }
    if (!first) strcat(o, ":");
    sprintf(o + strlen(o), chance(20) ? "%04x" : chance(30) ? "%X" : "%x", g[i]);
    first = 0;
  }
  if (tail == 6) sprintf(o + strlen(o), "%s%d.%d.%d.%d", first ? "" : ":", p[12], p[13], p[14], p[15]);
}
static int bitsame(const struct irc_in_addr *a, const struct irc_in_addr *b, int n)
{
  const unsigned char *p = (const unsigned char *)a, *q = (const unsigned char *)b; int i;
  for (i = 0; i < n; i++) if ((p[i / 8] ^ q[i / 8]) >> (7 - i % 8) & 1) return 0;
  return 1;
}
static void s_addr(int n)
{
  struct irc_in_addr a, b, c;
  char t[200], u[64];
  while (n--) {
    unsigned char bits = 0xEE;
    int r, w, i;
    genaddr(&a);
    evals++;
    /* printed, and read back */
    { char *o = malloc(SOCKIPLEN + 1);
      ircd_ntoa_r(o, &a);
      if (o[0] == ':' || strchr(o, ' ') || !*o) FAIL("ntoa", "address %s is printed as \"%s\"", hexa(&a), o);
      unsigned char raw[16]; memset(raw, 0, 16);
      if (v4(&a) || v4compat(&a)) { if (v4(&a)) raw[10] = raw[11] = 255; r = inet_pton(AF_INET, o, raw + 12) == 1 || inet_pton(AF_INET6, o, raw) == 1; }
      else r = inet_pton(AF_INET6, o, raw) == 1;
      if (!r || memcmp(raw, &a, 16)) FAIL("ntoa", "address %s is printed as \"%s\"", hexa(&a), o);
      if (strcmp(ircd_ntoa(&a), o)) FAIL("ntoa", "two forms of %s", hexa(&a));
      strcpy(t, o); free(o);
      char *in = tight(t);
      r = ipmask_parse(in, &b, chance(50) ? &bits : 0);
      if (r != (int)strlen(t) || (!v4compat(&a) && memcmp(&a, &b, 16)) || (bits != 0xEE && bits != 128))
        FAIL("ipmask_parse", "\"%s\" is read as %s/%d (%d)", t, hexa(&b), bits, r);
      free(in);
      count(v4(&a) ? "addr:v4" : "addr:v6");
    }
    /* any valid notation, with and without a prefix length */
    text(t, &a);
    w = -1;
    if (chance(60)) { int f = strchr(t, ':') ? 128 : 32; w = below(f + 1); if (chance(10)) w = chance(50) ? 0 : f; sprintf(t + strlen(t), "/%d", w); if (f == 32) w += 96; else if (strchr(t, '.')) w = -2; }
    if (w != -2) {
      char *in = tight(t);
      bits = 0xEE;
      r = ipmask_parse(in, &b, &bits);
      if (r != (int)strlen(t) || memcmp(&a, &b, 16) || bits != (w < 0 ? 128 : w)) FAIL("ipmask_parse", "\"%s\" is read as %s/%d (%d)", t, hexa(&b), bits, r);
      r = ipmask_parse(in, &b, 0);
      if (w >= 0 ? r != 0 : r != (int)strlen(t)) FAIL("ipmask_parse", "\"%s\" as an address gives %d", t, r);
      free(in);
      count(w < 0 ? "addr:notation" : "addr:prefix");
    }
    /* lengths that are no prefix lengths */
    text(t, &a);
    if (!(strchr(t, ':') && strchr(t, '.'))) {
      uint64_t f = strchr(t, ':') ? 128 : 32, v = f + 1 + (chance(50) ? below(200) : chance(50) ? below(1 << 30) : 0);
      if (chance(30)) v = ((uint64_t)1 << (chance(50) ? 8 : chance(50) ? 16 : 32)) * (1 + below(3)) + below(f + 1);
      if (v > f) {
        sprintf(t + strlen(t), "/%llu", (unsigned long long)v);
        char *in = tight(t);
        if (ipmask_parse(in, &b, &bits)) FAIL("ipmask_parse", "\"%s\" is accepted as %s/%d", t, hexa(&b), bits);
        free(in);
        count("addr:overlong");
      }
    }
    /* wildcards */
    if (chance(30)) {
      const unsigned char *p = (const unsigned char *)&a;
      int k = 1 + below(3), z; *t = 0;
      if (v4(&a)) { for (z = 0; z < k; z++) sprintf(t + strlen(t), "%d.", p[12 + z]); strcat(t, "*"); if (chance(30)) strcat(t, ".*"); w = 96 + 8 * k; }
      else { k = 1 + below(7); for (z = 0; z < k; z++) sprintf(t + strlen(t), "%x:", p[2 * z] << 8 | p[2 * z + 1]); strcat(t, "*"); w = 16 * k; }
      char *in = tight(t);
      bits = 0xEE;
      r = ipmask_parse(in, &b, &bits);
      if (r != (int)strlen(t) || bits != w || !bitsame(&a, &b, w)) FAIL("ipmask_parse", "\"%s\" is read as %s/%d (%d)", t, hexa(&b), bits, r);
      free(in);
      count("addr:wild");
    }
    /* damaged text: whatever is accepted has a prefix length that exists, and is read the same again */
    text(t, &a);
    if (chance(50)) sprintf(t + strlen(t), "/%d", below(140));
    for (i = 1 + below(2); i; i--) {
      static const char S[] = ":./*0123456789abcdefg";
      int len = strlen(t), at = below(len + 1);
      switch (below(3)) {
      case 0: memmove(t + at + 1, t + at, len - at + 1); t[at] = S[below(sizeof S - 1)]; break;
      case 1: if (len) { at = below(len); memmove(t + at, t + at + 1, len - at); } break;
      default: if (len) t[below(len)] = S[below(sizeof S - 1)];
      }
    }
    { char *in = tight(t);
      bits = 0xEE;
      r = ipmask_parse(in, &b, &bits);
      if (r) {
        if (r < 0 || r > (int)strlen(t)) FAIL("ipmask_parse", "\"%s\": %d characters used", t, r);
        if (bits > 128) FAIL("ipmask_parse", "\"%s\" is accepted with prefix length %d", t, bits);
        count("addr:damaged accepted");
      } else count("addr:damaged refused");
      /* exactly one dotted quad is an address if it is one for everybody */
      struct in_addr q;
      if (!strchr(t, ':') && !strchr(t, '/') && !strchr(t, '*') && strlen(t) < 40) {
        int okn = inet_pton(AF_INET, t, &q) == 1;
        if (okn && !r) FAIL("ipmask_parse", "\"%s\" is refused", t);
        if (!okn && r) { /* leading zeros are taken as decimal */
          int x[4] = { 0 }; char z; int dig = sscanf(t, "%9d.%9d.%9d.%9d%c", x, x + 1, x + 2, x + 3, &z) >= 4 || t[strlen(t) - 1] == '.';
          for (i = 0; i < 4; i++) if (x[i] > 255) dig = 0;
          if (!dig) FAIL("ipmask_parse", "\"%s\" is accepted as %s", t, hexa(&b));
        }
      }
      if (r && strchr(t, ':') && !strpbrk(t, "./*")) {
        char z[200], *o = z; const char *q6; unsigned char raw[16]; int dbl = 0;
        for (q6 = t; *q6; q6++) {
          int digits = 0;
          while (*q6 == '0' && isxdigit((unsigned char)q6[1])) q6++;
          while (isxdigit((unsigned char)*q6)) { *o++ = *q6++; digits++; }
          if (digits > 4) FAIL("ipmask_parse", "\"%s\" is accepted as %s", t, hexa(&b));
          if (!*q6) break;
          *o++ = *q6;
        }
        *o = 0;
        for (q6 = t; (q6 = strstr(q6, "::")); q6 += 2) dbl++;
        if (dbl > 1 && !strstr(t, ":::")) FAIL("ipmask_parse", "\"%s\" is accepted as %s", t, hexa(&b));
        if (inet_pton(AF_INET6, z, raw) == 1 && memcmp(raw, &b, 16)) FAIL("ipmask_parse", "\"%s\" is read as %s", t, hexa(&b));
      }
      free(in);
    }
    /* prefix comparison */
    c = a;
    i = below(129);
    if (i < 128 && chance(80)) ((unsigned char *)&c)[i / 8] ^= 1 << (7 - i % 8);
    if (chance(20)) genaddr(&c);
    for (w = chance(50) ? i : below(129), r = 0; r < 3; r++, w = r == 1 ? (i < 128 ? i + 1 : 128) : below(129)) {
      int got = ipmask_check(&a, &c, w) != 0;
      if (got != bitsame(&a, &c, w)) FAIL("ipmask_check", "%s and %s in the first %d bits", hexa(&a), hexa(&c), w);
      count(got ? "check:yes" : "check:no");
    }
    /* P10 encoding */
    { char ref[40], *o = ref, *e = malloc(26); static const char D[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789[]";
      const unsigned char *p = (const unsigned char *)&a;
      uint32_t v = (uint32_t)p[12] << 24 | p[13] << 16 | p[14] << 8 | p[15];
      iptobase64(e, &a, 26, 1);
      memset(&b, 0x5a, sizeof b);
      { char *in = tight(e); base64toip(in, &b); free(in); }
      if (v4(&a) || v4compat(&a)) {
        for (i = 5; i >= 0; i--) *o++ = D[v >> (6 * i) & 63];
        *o = 0;
        if (strcmp(e, ref)) FAIL("iptobase64", "%s is encoded as %s, reference %s", hexa(&a), e, ref);
        if (v ? memcmp((char *)&b + 12, &a.in6_16[6], 4) : 0) FAIL("base64toip", "%s becomes %s by way of %s", hexa(&a), hexa(&b), e);
      } else {
        int left = 0, und = 0; const char *q;
        for (q = e; *q; q++) if (*q == '_') und++; else { left++; if (!strchr(D, *q)) FAIL("iptobase64", "%s is encoded as %s", hexa(&a), e); }
        if (und > 1 || left % 3 || (und ? left > 21 : left != 24)) FAIL("iptobase64", "%s is encoded as %s", hexa(&a), e);
        if (memcmp(&a, &b, 16)) FAIL("base64toip", "%s becomes %s by way of %s", hexa(&a), hexa(&b), e);
      }
      iptobase64(u, &a, sizeof u, 0);
      if (!v4(&a) && !v4compat(&a)) {
        if (p[0] == 0x20 && p[1] == 2) { v = (uint32_t)p[2] << 24 | p[3] << 16 | p[4] << 8 | p[5]; for (i = 5, o = ref; i >= 0; i--) *o++ = D[v >> (6 * i) & 63]; *o = 0; count("addr:6to4"); }
        else strcpy(ref, "AAAAAA");
      }
      else strcpy(ref, e);
      if (strcmp(u, ref)) FAIL("iptobase64", "%s for an old server is %s, reference %s", hexa(&a), u, ref);
      free(e);
    }
    { unsigned x = rnd(), k = 1 + below(6), back; char *e = malloc(k + 1);
      if (k < 6) x &= (1u << (6 * k)) - 1;
      inttobase64(e, x, k);
      back = base64toint(e);
      if (strlen(e) != k || back != x) FAIL("inttobase64", "%u in %u digits becomes %s and %u", x, k, e, back);
      free(e);
    }
  }
}

/* ---- strings ------------------------------------------------------------------------------------------------ */
static int refcmp(const char *a, const char *b)
{
  while (*a && low(*a) == low(*b)) a++, b++;
  return low(*a) != low(*b);
}
static void s_str(int n)
{
  static const char S[] = "aAbB,,;[{}]^~|\\_-1`@*?\xe9\xc9\xd7\xf7\xdf\xff";
  char a[300], b[300], c[300];
  while (n--) {
    char *x, *y; int i, k, g, w, m;
    genname(a, chance(70) ? 6 : 40, S, sizeof S - 1);
    genname(b, chance(70) ? 6 : 40, S, sizeof S - 1);
    if (chance(50)) for (i = 0, strcpy(b, a); b[i]; i++) if (chance(40)) { if (chance(85)) { for (k = 1; k < 256; k++) if (low(k) == low(b[i]) && chance(50)) b[i] = k; } else b[i] = S[below(sizeof S - 1)]; }
    x = tight(a), y = tight(b);
    evals++;
    g = ircd_strcmp(x, y), w = refcmp(a, b);
    if (!!g != w || (g > 0) != (ircd_strcmp(y, x) < 0)) FAIL("ircd_strcmp", "\"%s\" and \"%s\": %d", esc(a), esc(b), g);
    count(g ? "strcmp:differ" : "strcmp:same");
    k = below(8);
    { char p[300], q[300]; snprintf(p, k + 1, "%s", a), snprintf(q, k + 1, "%s", b);
      if (!!ircd_strncmp(x, y, k) != refcmp(p, q)) FAIL("ircd_strncmp", "\"%s\" and \"%s\" in %d", esc(a), esc(b), k); }
    { char *d = malloc(k + 1); ircd_strncpy(d, x, k); if (strlen(d) > (size_t)k || strncmp(d, a, k) || strlen(d) != (strlen(a) < (size_t)k ? strlen(a) : (size_t)k)) FAIL("ircd_strncpy", "\"%s\" in %d", esc(a), k); free(d); }
    for (w = 0, i = 0; a[i]; i++) { if (a[i] == '\\') { if (!a[++i]) break; } else if (a[i] == '*' || a[i] == '?') w = 1; }
    if (string_has_wildcards(x) != w) FAIL("string_has_wildcards", "\"%s\"", esc(a));
    { char *d = malloc(k + 1); const char *at = strchr(a, '@'); at = at ? at + 1 : a; host_from_uh(d, x, k); if (strncmp(d, at, k) || strlen(d) != (strlen(at) < (size_t)k ? strlen(at) : (size_t)k)) FAIL("host_from_uh", "\"%s\" in %d: \"%s\"", esc(a), k, esc(d)); free(d); }
    /* lists: canonize, unique_name_vector, token_vector */
    c[0] = 0;
    for (i = below(8); i; i--) { genname(b, 3, "aAbB[{", 6); strcat(c, b); if (i > 1 || chance(20)) strcat(c, ","); }
    { char *tok[64], *cp = strdup(c), *q, *sv = 0; m = 0;
      for (q = strtok_r(cp, ",", &sv); q; q = strtok_r(0, ",", &sv)) { for (i = 0; i < m; i++) if (!refcmp(tok[i], q)) break; if (i == m) tok[m++] = q; }
      { char *in = tight(c), *o = canonize(in), want[300]; want[0] = 0; for (i = 0; i < m; i++) { if (i) strcat(want, ","); strcat(want, tok[i]); }
        if (strcmp(o, want)) FAIL("canonize", "\"%s\" becomes \"%s\", reference \"%s\"", esc(c), esc(o), esc(want)); free(in); }
      { char *in = tight(c), *v[64]; int size = 1 + below(6), got = unique_name_vector(in, ',', v, size);
        if (got != (m < size ? m : size)) FAIL("unique_name_vector", "\"%s\": %d names in %d, reference %d", esc(c), got, size, m);
        for (i = 0; i < got; i++) if (strcmp(v[i], tok[i])) FAIL("unique_name_vector", "\"%s\": name %d is \"%s\"", esc(c), i, esc(v[i]));
        free(in); }
      free(cp); }
    count("lists");
    free(x); free(y);
  }
}

/* ---- formatting --------------------------------------------------------------------------------------------- */
static void s_fmt(int n)
{
  while (n--) {
    char f[64], want[5000], *o, str[700]; int k, size = chance(60) ? 1 + below(40) : 600 + below(600), r, w, lead = below(3), conv = below(9);
    long long v = chance(30) ? below(20) - 10 : chance(50) ? (int)rnd() : (long long)((uint64_t)rnd() << 40 ^ (uint64_t)rnd() << 20 ^ rnd());
    char fl[8] = "", wd[16] = "", pr[16] = "";
    evals++;
    if (chance(40)) strcat(fl, "-");
    if (chance(30)) strcat(fl, "0");
    if (chance(20)) strcat(fl, "+"); else if (chance(15)) strcat(fl, " ");
    if (chance(50)) sprintf(wd, "%d", 1 + below(chance(90) ? 12 : 300));
    if (chance(40)) sprintf(pr, ".%d", below(chance(90) ? 12 : 200));
    genname(str, chance(80) ? 20 : 600, "abc%d ", 6);
    if (strchr(fl, '0')) { if (v < 0) v = -(v + 1); if ((int)v < 0 || (long)v < 0) v &= 0x7fffffff; fl[0] = '0', fl[1] = 0; } /* a sign and zero padding together are not used */
    *f = 0;
    while (lead--) strcat(f, chance(50) ? "xy " : "%%");
    o = malloc(size);
#define TRY(T, ...) do { w = snprintf(want, sizeof want, f, __VA_ARGS__); r = ircd_snprintf(0, o, size, f, __VA_ARGS__); } while (0)
    switch (conv) {
    case 0: sprintf(f + strlen(f), "%%%s%s%sd|", fl, wd, pr); TRY(int, (int)v); break;
    case 1: sprintf(f + strlen(f), "%%%s%s%sld.", fl, wd, pr); TRY(long, (long)v); break;
    case 2: sprintf(f + strlen(f), "%%%s%s%s%su ", *fl == '-' ? "-" : "", wd, pr, "ll"); TRY(ull, (unsigned long long)v); break;
    case 3: sprintf(f + strlen(f), "%%%s%s%sx", strchr(fl, '0') ? "0" : "", wd, pr); TRY(unsigned, (unsigned)v); break;
    case 4: sprintf(f + strlen(f), "%%%s%sX%%o", strchr(fl, '0') ? "0" : "", wd); { unsigned z = rnd(); TRY(unsigned, (unsigned)v, z); } break;
    case 5: sprintf(f + strlen(f), "%%%s%szu:%%c", *fl == '-' ? "-" : "", wd); { int ch = 'a' + below(26); TRY(size, (size_t)v, ch); } break;
    case 6: sprintf(f + strlen(f), "%%%s%s%ss|%%s", *fl == '-' ? "-" : "", wd, pr); TRY(str, str, "tail"); break;
    case 7: sprintf(f + strlen(f), "%%s %%d %%s"); TRY(mix, str, (int)v, str); break;
    default: sprintf(f + strlen(f), "%%*d %%.*s"); { int fw = below(30) - 10, pp = below(20); TRY(star, fw, (int)v, pp, str); } }
    k = w < size ? w : size - 1;
    if (r != w && r != k) FAIL("snprintf", "\"%s\" (value %lld) in %d returns %d, reference %d", f, v, size, r, w);
    if (strlen(o) > (size_t)size - 1 || (int)strlen(o) != k || strncmp(o, want, k)) FAIL("snprintf", "\"%s\" (value %lld) in %d gives \"%s\", reference \"%.*s\"", f, v, size, esc(o), k, want);
    count(w < size ? "fmt:fits" : "fmt:cut");
    free(o);
  }
}

/* ---- queues ------------------------------------------------------------------------------------------------- */
static void s_dbuf(int n)
{
  static char model[1 << 20]; unsigned head, tail;
  while (n--) {
    struct DBuf d; int ops = 5 + below(60);
    memset(&d, 0, sizeof d);
    head = tail = 0;
    while (ops--) {
      evals++;
      if (chance(45) && tail < (1 << 19)) {
        int len = chance(20) ? below(9000) : chance(50) ? below(600) : 1 + below(20), i; char *b = malloc(len ? len : 1);
        for (i = 0; i < len; i++) b[i] = chance(6) ? '\n' : chance(4) ? '\r' : 'a' + below(26);
        if (!dbuf_put(&d, b, len)) FAIL("dbuf_put", "refused");
        memcpy(model + tail, b, len); tail += len; free(b);
      } else if (chance(45)) {
        int len = 1 + below(chance(50) ? 600 : 9000), i, k; char *b = malloc(len + 1); unsigned r;
        r = dbuf_get(&d, b, len);
        k = tail - head < (unsigned)len ? tail - head : (unsigned)len;
        if ((int)r != k || memcmp(b, model + head, k)) FAIL("dbuf_get", "%d bytes of %u come back as %u or differ", len, tail - head, r);
        head += k; (void)i; free(b); count("dbuf:get");
      } else if (chance(20)) {
        unsigned len; const char *p = dbuf_map(&d, &len);
        if (tail == head ? len && p : !p || !len || len > tail - head || memcmp(p, model + head, len)) FAIL("dbuf_map", "%u of %u", len, tail - head);
        count("dbuf:map");
      } else if (chance(25)) { unsigned k = below(700); if (k > tail - head) k = tail - head; dbuf_delete(&d, k); head += k; }
      else {
        /* the next line: leading line ends are dropped, the line comes without its own */
        enum { L = 512 }; char *b = malloc(L + 1); unsigned r = dbuf_getmsg(&d, b, L), h = head, e;
        while (h < tail && (model[h] == '\r' || model[h] == '\n')) h++;
        for (e = h; e < tail && model[e] != '\r' && model[e] != '\n'; e++);
        if (e < tail && e - h < L) {
          if (r != e - h || memcmp(b, model + h, r) || b[r]) FAIL("dbuf_getmsg", "a line of %u bytes comes back as %u or differs", e - h, r);
          while (e < tail && (model[e] == '\r' || model[e] == '\n')) e++;
          head = e; count("dbuf:line");
        } else {
          if (r) FAIL("dbuf_getmsg", "%u bytes without a complete line", r);
          head = h; count("dbuf:noline");
        }
        free(b);
      }
      if (DBufLength(&d) != tail - head) FAIL("dbuf", "length %u, reference %u", DBufLength(&d), tail - head);
    }
    DBufClear(&d);
    if (DBufLength(&d)) FAIL("dbuf", "not empty after clearing");
  }
}

static void s_msgq(int n)
{
  /* what leaves the queue is a sequence of whole messages, each queue in order, urgent ones first unless one has begun */
  static struct { char t[600]; int len; } q[2][400];
  while (n--) {
    struct MsgQ mq; int h[2] = { 0, 0 }, t[2] = { 0, 0 }, sent = 0, cur = -1, ops = 10 + below(120), serial = 0;
    msgq_init(&mq);
    while (ops--) {
      evals++;
      if (chance(50) && t[0] < 390 && t[1] < 390) {
        int p = chance(30), len = chance(10) ? 480 + below(60) : below(120), i; char body[700]; struct MsgBuf *mb;
        sprintf(body, "%d:%d:", p, serial++);
        for (i = strlen(body); i < len; i++) body[i] = 'a' + below(26);
        body[i > (int)strlen(body) ? i : i] = 0;
        mb = msgq_make(0, "%s", body);
        if (strlen(body) > 510) body[510] = 0;
        q[p][t[p]].len = sprintf(q[p][t[p]].t, "%s\r\n", body); t[p]++;
        msgq_add(&mq, mb, p);
        if (chance(10)) { struct MsgQ o; msgq_init(&o); msgq_add(&o, mb, 0); msgq_delete(&o, MsgQLength(&o)); }
        msgq_clean(mb);
      } else {
        struct iovec iov[64]; int want = 1 + below(60), got, i; unsigned len = 0, tot = 0, del, at;
        int hh[2] = { h[0], h[1] }, ss = sent, cc = cur;
        for (i = 0; i < 2; i++) { int z; for (z = h[i]; z < t[i]; z++) tot += q[i][z].len; }
        tot -= sent;
        if (MsgQLength(&mq) != tot || MsgQCount(&mq) != (unsigned)(t[0] - h[0] + t[1] - h[1])) FAIL("msgq", "%u bytes in %u messages, reference %u in %d", MsgQLength(&mq), MsgQCount(&mq), tot, t[0] - h[0] + t[1] - h[1]);
        got = msgq_mapiov(&mq, iov, want, &len);
        if (got > want || (tot && !got) || (!tot && got)) FAIL("msgq_mapiov", "%d vectors of %d", got, want);
        for (i = 0, at = 0; i < got; i++) {
          int w = cc >= 0 ? cc : hh[1] < t[1] ? 1 : 0;
          if (hh[w] >= t[w]) FAIL("msgq_mapiov", "more messages than queued");
          if ((int)iov[i].iov_len != q[w][hh[w]].len - ss || memcmp(iov[i].iov_base, q[w][hh[w]].t + ss, iov[i].iov_len))
            FAIL("msgq_mapiov", "vector %d is \"%.40s\", reference \"%.40s\"", i, esc((char *)iov[i].iov_base), esc(q[w][hh[w]].t + ss));
          at += iov[i].iov_len; ss = 0, cc = -1, hh[w]++;
        }
        if (at != len) FAIL("msgq_mapiov", "length %u, reference %u", len, at);
        del = len && chance(60) ? 1 + below(len) : chance(50) ? len : 0;
        msgq_delete(&mq, del);
        count(del == len ? "msgq:all" : "msgq:part");
        while (del) {
          int w = cur >= 0 ? cur : h[1] < t[1] ? 1 : 0, left = q[w][h[w]].len - sent;
          if ((int)del >= left) { del -= left; h[w]++; sent = 0; cur = -1; } else { sent += del; cur = w; del = 0; }
        }
      }
    }
    msgq_delete(&mq, MsgQLength(&mq));
    if (MsgQLength(&mq) || MsgQCount(&mq)) FAIL("msgq", "%u bytes left after deleting all", MsgQLength(&mq));
  }
}

int main(int argc, char **argv)
{
  int i, n;
  if (argc < 4) return 2;
  rs = strtoull(argv[1], 0, 10) * 0x9E3779B97F4A7C15ull + 0x123456789ull;
  for (i = 0; i < 20; i++) rnd();
  n = atoi(argv[3]);
  feature_init();
  if (!strcmp(argv[2], "match")) s_match(n);
  else if (!strcmp(argv[2], "super")) s_super(n);
  else if (!strcmp(argv[2], "addr")) s_addr(n);
  else if (!strcmp(argv[2], "str")) s_str(n);
  else if (!strcmp(argv[2], "fmt")) s_fmt(n);
  else if (!strcmp(argv[2], "dbuf")) s_dbuf(n);
  else if (!strcmp(argv[2], "msgq")) s_msgq(n);
  else return 2;
  printf("EVALS %lu\n", evals);
  for (i = 0; i < 64 && cnt[i].n; i++) printf("COUNT %lu %s\n", cnt[i].c, cnt[i].n);
  return 0;
}
