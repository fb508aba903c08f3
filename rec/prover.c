/* Depth-limited proof-number search for mates, written from the rules alone and used only to produce certificates: the
   specification checks them.  A node is a position with the number of plies left, so the graph has no cycles and every
   proof and disproof is exact.  Squares are 9*file+rank, pieces 1..14 (16 added for White), hands in the order PLNSGBR. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef struct { int8_t b[81]; int8_t h[2][7]; int t; int k[2]; uint64_t key; } P;
typedef uint32_t M;                          /* to | from<<7 | promotion<<14 | piece<<16 | captured<<20; drops: from = 80+piece */
enum { INF = 1000000000, MAXM = 600 };

static const int D8[8][2] = {{0,-1},{0,1},{-1,0},{1,0},{-1,-1},{1,-1},{-1,1},{1,1}};
static int ray[81][8][8], rayn[81][8];
static uint64_t zb[31][81], zh[2][7][20], zt, zr[128];
static const int slot[15] = {-1,0,1,2,3,5,6,4,-1,0,1,2,3,5,6};
static const int kind[7] = {1,2,3,4,7,5,6};
static int ready;

/* which directions (seen by Black, forward is rank-1) a piece steps and slides in, as bits over D8 */
static int stepbits(int pt) {
  switch (pt) {
    case 1: return 1;
    case 4: return 1|16|32|64|128;
    case 7: case 9: case 10: case 11: case 12: return 1|16|32|4|8|2;
    case 8: return 255;
    case 13: return 1|2|4|8;
    case 14: return 16|32|64|128;
  }
  return 0;
}
static int slidebits(int pt) {
  switch (pt) { case 2: return 1; case 5: case 13: return 16|32|64|128; case 6: case 14: return 1|2|4|8; }
  return 0;
}
static const int opp[8] = {1,0,3,2,7,6,5,4};
static int stepd[31], slided[31];
static int turnbits(int x) { int y = 0; for (int d = 0; d < 8; d++) if (x >> d & 1) y |= 1 << opp[d]; return y; }

static uint64_t sm(uint64_t *s) { uint64_t z = (*s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static void init(void) {
  uint64_t s = 20240101;
  for (int x = 0; x < 81; x++) for (int d = 0; d < 8; d++) {
    int f = x / 9 + D8[d][0], r = x % 9 + D8[d][1], n = 0;
    while (f >= 0 && f < 9 && r >= 0 && r < 9) { ray[x][d][n++] = 9 * f + r; f += D8[d][0]; r += D8[d][1]; }
    rayn[x][d] = n;
  }
  for (int p = 1; p < 15; p++) {
    stepd[p] = stepbits(p); slided[p] = slidebits(p);
    stepd[p + 16] = turnbits(stepd[p]); slided[p + 16] = turnbits(slided[p]);
  }
  for (int p = 0; p < 31; p++) for (int x = 0; x < 81; x++) zb[p][x] = sm(&s);
  for (int c = 0; c < 2; c++) for (int i = 0; i < 7; i++) for (int n = 0; n < 20; n++) zh[c][i][n] = sm(&s);
  zt = sm(&s);
  for (int i = 0; i < 128; i++) zr[i] = sm(&s);
  ready = 1;
}

static int attacked(const P *p, int s, int c) {          /* does c attack s */
  for (int d = 0; d < 8; d++) {
    int n = rayn[s][d];
    for (int i = 0; i < n; i++) {
      int q = p->b[ray[s][d][i]];
      if (!q) continue;
      if (q >> 4 == c) {
        int o = opp[d];
        if (slided[q] >> o & 1) return 1;
        if (i == 0 && (stepd[q] >> o & 1)) return 1;
      }
      break;
    }
  }
  int r = s % 9 + (c == 0 ? 2 : -2);
  if (r >= 0 && r < 9) {
    int kn = 3 + 16 * c;
    if (s >= 9 && p->b[s - s % 9 - 9 + r] == kn) return 1;
    if (s < 72 && p->b[s - s % 9 + 9 + r] == kn) return 1;
  }
  return 0;
}

static int dead(int pt, int c, int s) { int r = c == 0 ? s % 9 : 8 - s % 9; return pt <= 2 ? r == 0 : pt == 3 ? r <= 1 : 0; }
static int zone(int c, int s) { return c == 0 ? s % 9 <= 2 : s % 9 >= 6; }

static void put(P *p, int s, int q) { p->key ^= zb[(int)p->b[s]][s] ^ zb[q][s]; p->b[s] = q; if ((q & 15) == 8) p->k[q >> 4] = s; }
static void hand(P *p, int c, int i, int n) { p->key ^= zh[c][i][(int)p->h[c][i]]; p->h[c][i] += n; p->key ^= zh[c][i][(int)p->h[c][i]]; }
static void play(P *p, M m) {
  int to = m & 127, fr = m >> 7 & 127, c = p->t;
  if (fr >= 81) { int pt = fr - 80; put(p, to, pt + 16 * c); hand(p, c, slot[pt], -1); }
  else {
    int q = p->b[fr], x = p->b[to];
    if (x) hand(p, c, slot[x & 15], 1);
    put(p, fr, 0);
    put(p, to, m >> 14 & 1 ? q + 8 : q);
  }
  p->t = 1 - c; p->key ^= zt;
}

static int list(const P *p, M *out, int max, int checks);
static int legal(const P *p, M *out, int max) { return list(p, out, max, 0); }
static int anymove(const P *p) { M m[1]; return legal(p, m, 1); }
static int fine(const P *p, M m, int checks) {           /* own king safe, no mate by a dropped pawn, a check if asked for */
  P q = *p; int c = p->t;
  play(&q, m);
  if (q.k[c] >= 0 && attacked(&q, q.k[c], 1 - c)) return 0;
  if (checks && !(q.k[1 - c] >= 0 && attacked(&q, q.k[1 - c], c))) return 0;
  if ((m >> 7 & 127) == 81 && q.k[1 - c] >= 0) {
    int to = m & 127, up = c == 0 ? to - 1 : to + 1;
    if ((c == 0 ? to % 9 > 0 : to % 9 < 8) && up == q.k[1 - c] && !anymove(&q)) return 0;
  }
  return 1;
}
/* where a drop can do something: stop the only check (if there is one), give check with that piece (if asked for) */
static int stops(const P *p, char *ok) {
  int k = p->k[p->t], c = p->t, n = 0;
  if (k < 0) return 0;
  for (int d = 0; d < 8; d++) for (int i = 0; i < rayn[k][d]; i++) {
    int q = p->b[ray[k][d][i]];
    if (!q) continue;
    if (q >> 4 != c) {
      if (slided[q] >> opp[d] & 1) { if (!n++) for (int j = 0; j < i; j++) ok[ray[k][d][j]] = 1; }
      else if (i == 0 && (stepd[q] >> opp[d] & 1)) n++;
    }
    break;
  }
  int r = k % 9 + (c == 0 ? -2 : 2), kn = 3 + 16 * (1 - c);
  if (r >= 0 && r < 9) n += (k >= 9 && p->b[k - k % 9 - 9 + r] == kn) + (k < 72 && p->b[k - k % 9 + 9 + r] == kn);
  if (n > 1) memset(ok, 0, 81);
  return n;
}
static void hits(const P *p, int pt, char *ok) {
  int c = p->t, k = p->k[1 - c], q = pt + 16 * c;
  memset(ok, 0, 81);
  if (k < 0) return;
  if (pt == 3) {
    int r = k % 9 + (c == 0 ? 2 : -2);
    if (r >= 0 && r < 9) { if (k >= 9) ok[k - k % 9 - 9 + r] = 1; if (k < 72) ok[k - k % 9 + 9 + r] = 1; }
    return;
  }
  for (int d = 0; d < 8; d++) for (int i = 0; i < rayn[k][d] && !p->b[ray[k][d][i]]; i++)
    if ((slided[q] >> opp[d] & 1) || (i == 0 && (stepd[q] >> opp[d] & 1))) ok[ray[k][d][i]] = 1;
}
static int list(const P *p, M *out, int max, int checks) {
  int n = 0, c = p->t;
#define TRY(m) do { M m_ = (m); if (fine(p, m_, checks)) { out[n++] = m_; if (n == max) return n; } } while (0)
#define GO(to) do { int x = p->b[to]; if (x && x >> 4 == c) break; if ((x & 15) == 8) break; \
    M m0 = (M)(to) | (M)s << 7 | (M)pt << 16 | (M)(x & 15) << 20; \
    if (!dead(pt, c, to)) TRY(m0); \
    if (pt <= 6 && (zone(c, s) || zone(c, to))) TRY(m0 | 1 << 14); } while (0)
  for (int s = 0; s < 81; s++) {
    int q = p->b[s];
    if (!q || q >> 4 != c) continue;
    int pt = q & 15;
    if (pt == 3) {
      int r = s % 9 + (c == 0 ? -2 : 2);
      if (r >= 0 && r < 9) { if (s >= 9) GO(s - s % 9 - 9 + r); if (s < 72) GO(s - s % 9 + 9 + r); }
      continue;
    }
    for (int d = 0; d < 8; d++) {
      if (slided[q] >> d & 1) {
        for (int i = 0; i < rayn[s][d]; i++) { int to = ray[s][d][i]; GO(to); if (p->b[to]) break; }
      } else if ((stepd[q] >> d & 1) && rayn[s][d]) { int to = ray[s][d][0]; GO(to); }
    }
  }
  char stop[81] = {0}, hit[81];
  int chk = stops(p, stop);
  for (int i = 0; i < 7; i++) if (p->h[c][i]) {
    int pt = kind[i];
    if (checks) hits(p, pt, hit);
    for (int s = 0; s < 81; s++) {
      if (p->b[s] || (chk && !stop[s]) || (checks && !hit[s]) || dead(pt, c, s)) continue;
      if (pt == 1) {
        int two = 0;
        for (int r = 0; r < 9; r++) if (p->b[s - s % 9 + r] == 1 + 16 * c) two = 1;
        if (two) continue;
      }
      TRY((M)s | (M)(80 + pt) << 7);
    }
  }
  return n;
}

/* --- depth-limited df-pn ---------------------------------------------------- */
typedef struct { uint64_t key; int pn, dn, gen; } E;
static E *tt; static int bits = 20, gen_; static long used, left_;
static E *look(uint64_t key) {
  uint64_t i = key >> (64 - bits), mask = (1ull << bits) - 1;
  for (;; i = (i + 1) & mask) {
    if (tt[i].gen != gen_) {
      if (used > (1l << bits) / 2) return 0;
      used++; tt[i].key = key; tt[i].gen = gen_; tt[i].pn = tt[i].dn = 1; return &tt[i];
    }
    if (tt[i].key == key) return &tt[i];
  }
}
static int kids(const P *p, int or_, M *m) { return list(p, m, MAXM, or_); }
static int full;
static void search(const P *p, int or_, int rem, int thp, int thd) {
  uint64_t key = p->key ^ zr[rem];
  E *e = look(key);
  if (!e) { full = 1; return; }
  if (e->pn == 0 || e->dn == 0) return;
  if (--left_ < 0) { full = 1; return; }
  if (or_ && rem < 1) { e->pn = INF; e->dn = 0; return; }
  M *m = malloc(sizeof(M) * MAXM);
  int n;
  if (!or_ && rem == 0) { n = anymove(p); e->pn = n ? INF : 0; e->dn = n ? 0 : INF; free(m); return; }
  n = kids(p, or_, m);
  if (n == 0) { e->pn = or_ ? INF : 0; e->dn = or_ ? 0 : INF; free(m); return; }
  uint64_t *ck = malloc(sizeof(uint64_t) * n);
  for (int i = 0; i < n; i++) { P q = *p; play(&q, m[i]); ck[i] = q.key ^ zr[rem - 1]; }
  while (!full) {
    long sum = 0; int best = -1, b1 = INF, b2 = INF, bo = 0;
    for (int i = 0; i < n; i++) {
      E *c = look(ck[i]);
      if (!c) { full = 1; break; }
      int a = or_ ? c->pn : c->dn, o = or_ ? c->dn : c->pn;
      sum += o;
      if (a < b1) { b2 = b1; b1 = a; best = i; bo = o; } else if (a < b2) b2 = a;
    }
    if (full) break;
    if (sum > INF) sum = INF;
    e = look(key);
    if (or_) { e->pn = b1; e->dn = b1 == 0 ? INF : (int)sum; } else { e->dn = b1; e->pn = b1 == 0 ? INF : (int)sum; }
    if (e->pn >= thp || e->dn >= thd || e->pn == 0 || e->dn == 0) break;
    P q = *p; play(&q, m[best]);
    int t1 = (or_ ? thp : thd) < b2 + 1 ? (or_ ? thp : thd) : b2 + 1;
    long t2 = (long)(or_ ? thd : thp) - sum + bo; if (t2 > INF) t2 = INF;
    if (or_) search(&q, 0, rem - 1, t1, (int)t2); else search(&q, 1, rem - 1, (int)t2, t1);
  }
  free(m); free(ck);
}

/* writes the strategy below a proven node: replies of a defender's node as count, then reply, answer, node */
static int32_t *out_, *end_;
static void emit(int x) { if (out_ < end_) *out_ = x; out_++; }
static void certify(const P *p, int rem) {
  M m[MAXM]; int n = legal(p, m, MAXM);
  emit(n);
  for (int i = 0; i < n && out_ < end_; i++) {
    P q = *p; play(&q, m[i]);
    M a[MAXM]; int k = kids(&q, 1, a), j;
    for (j = 0; j < k; j++) { P r = q; play(&r, a[j]); E *c = look(r.key ^ zr[rem - 2]); if (c && c->pn == 0) break; }
    if (j == k) { out_ = end_ + 1; return; }
    emit(m[i]); emit(a[j]);
    P r = q; play(&r, a[j]);
    certify(&r, rem - 2);
  }
}

/* first: a move to make before the question is asked (0: none).  The side to move is then the attacker (rem odd) or the
   defender (rem even).  1: mated within rem plies, 0: not, -1: not decided within the budget, -2: illegal first move.
   out: for a defender's node its strategy, for an attacker's the move first. */
int prove(const int *b, const int *h, int turn, unsigned first, int rem, long budget, int32_t *out, int size, int *len) {
  if (!ready) init();
  if (!tt) tt = calloc(1ull << bits, sizeof(E));
  P p; memset(&p, 0, sizeof p); p.k[0] = p.k[1] = -1;
  for (int i = 0; i < 81; i++) { p.b[i] = 0; }
  for (int i = 0; i < 81; i++) { p.key ^= zb[0][i]; put(&p, i, b[i]); }
  for (int c = 0; c < 2; c++) for (int i = 0; i < 7; i++) { p.h[c][i] = h[7 * c + i]; p.key ^= zh[c][i][(int)p.h[c][i]]; }
  p.t = turn; if (turn) p.key ^= zt;
  M m[MAXM];
  if (first) {
    int n = legal(&p, m, MAXM), i;
    for (i = 0; i < n && m[i] != first; i++) ;
    if (i == n) return -2;
    play(&p, first);
  }
  int or_ = rem & 1;
  if (!or_ && !(p.k[p.t] >= 0 && attacked(&p, p.k[p.t], 1 - p.t))) return 0;
  gen_++; used = 0; left_ = budget; full = 0;
  while (!full) {
    E *e = look(p.key ^ zr[rem]);
    if (e->pn == 0 || e->dn == 0) break;
    search(&p, or_, rem, INF, INF);
  }
  E *e = look(p.key ^ zr[rem]);
  if (e->dn == 0) return 0;
  if (e->pn) return -1;
  out_ = out; end_ = out + size;
  if (or_) {
    int k = kids(&p, 1, m), j;
    for (j = 0; j < k; j++) { P r = p; play(&r, m[j]); E *c = look(r.key ^ zr[rem - 1]); if (c && c->pn == 0) break; }
    emit(m[j]);
    P r = p; play(&r, m[j]);
    certify(&r, rem - 1);
  } else certify(&p, rem);
  *len = (int)(out_ - out);
  return out_ > end_ ? -3 : 1;
}

int moves(const int *b, const int *h, int turn, uint32_t *out) {
  if (!ready) init();
  P p; memset(&p, 0, sizeof p); p.k[0] = p.k[1] = -1;
  for (int i = 0; i < 81; i++) put(&p, i, b[i]);
  for (int c = 0; c < 2; c++) for (int i = 0; i < 7; i++) p.h[c][i] = h[7 * c + i];
  p.t = turn;
  return legal(&p, out, MAXM);
}
