#include "dom.h"
std::vector<SymInfo> syms;
AffTab aff;
BasisTab bases;
int MAXK = 16;

u32 newsym(SymClass c, const std::string &name, u32 bit, std::shared_ptr<OpaqueDef> def) {
  u32 id = syms.size();
  syms.push_back({c, name, bit, def});
  return id;
}
Val fresh(SymClass c, const std::string &name, unsigned w) {
  std::vector<Bit> b(w);
  for (unsigned i = 0; i < w; ++i) b[i] = baff(aff.sym(newsym(c, name, i)));
  return vbits(std::move(b));
}
const std::vector<Bit> getbits(const Val &v) {
  if (v.k == K_BITS) return v.bits()->b;
  std::vector<Bit> b(v.w);
  if (v.k == K_CONST) { for (unsigned i = 0; i < v.w; ++i) b[i] = bconst(i < 64 && (v.c >> i & 1)); return b; }
  if (v.k == K_UNDEF) return fresh(S_UNINIT, "undef", v.w).bits()->b;
  if (v.k == K_IVL) return fresh(S_IMPREC, "ivl", v.w).bits()->b;
  fprintf(stderr, "getbits on kind %d\n", v.k);
  abort();
}
void Support::add(const Val &v) {
  if (!ok) return;
  if (v.k == K_BITS) {
    const Fin *last = nullptr;
    for (auto &b : v.bits()->b) { if (b.f && b.f.p == last) { adda(b.ax); if (!ok) return; continue; } last = b.f.p; add(b); if (!ok) return; }
  } else if (v.k == K_IVL) {
    for (u32 a : std::vector<u32>(bases.tab[v.ivl()->basis].atoms)) adda(a);
  } else if (v.k == K_VEC) {
    for (auto &e : v.vec()->e) add(e);
  }
}
// index map of an inner basis over an outer one
void idxmap(u32 inner, u32 outer, std::vector<u32> &I, bool &ident) {
  std::vector<u32> at = bases.tab[inner].atoms;
  int k = bases.tab[outer].atoms.size();
  std::vector<u32> W(k, 0);
  ident = inner == outer;
  if (ident) return;
  for (size_t i = 0; i < at.size(); ++i) {
    u32 nb, m;
    bool ok = bases.add(outer, at[i], nb, m, 32);
    if (!ok || nb != outer) { fprintf(stderr, "idxmap: atom not in basis\n"); abort(); }
    for (int j = 0; j < k; ++j) if (m >> j & 1) W[j] |= 1u << i;
  }
  I.resize(1ull << k);
  I[0] = 0;
  for (int j = 0; j < k; ++j) for (u32 t = 0; t < (1u << j); ++t) I[(1u << j) + t] = I[t] ^ W[j];
}
void evalbits(const Bit *b, unsigned n, u32 basis, Tab &out) {
  int k = bases.tab[basis].atoms.size();
  size_t N = 1ull << k;
  out.assign(N, 0);
  u64 c = 0;
  std::vector<u64> V(k, 0);
  std::vector<const Fin *> fs;
  for (unsigned i = 0; i < n; ++i) {
    if (b[i].neg) c |= 1ull << i;
    if (b[i].f && std::find(fs.begin(), fs.end(), b[i].f.p) == fs.end()) fs.push_back(b[i].f.p);
    if (u32 lin = b[i].f ? b[i].ax : b[i].id) {
      u32 nb, m;
      bool ok = bases.add(basis, lin, nb, m, 32);
      if (!ok || nb != basis) { fprintf(stderr, "evalbits: atom not in basis\n"); abort(); }
      for (int j = 0; j < k; ++j) if (m >> j & 1) V[j] |= 1ull << i;
    }
  }
  out[0] = c;
  for (int j = 0; j < k; ++j) { u64 v = V[j]; size_t h = 1ull << j; for (size_t t = 0; t < h; ++t) out[h + t] = out[t] ^ v; }
  for (const Fin *f : fs) {
    std::vector<u32> I; bool ident;
    idxmap(f->basis, basis, I, ident);
    bool uni = true; int sh = 0; bool first = true; u64 m = 0;
    for (unsigned i = 0; i < n; ++i) if (b[i].f.p == f) { int s = (int)i - (int)b[i].id; if (first) { sh = s; first = false; } else if (s != sh) uni = false; m |= 1ull << i; }
    if (uni) {
      if (sh >= 0) for (size_t t = 0; t < N; ++t) out[t] ^= (f->get(ident ? t : I[t]) << sh) & m;
      else for (size_t t = 0; t < N; ++t) out[t] ^= (f->get(ident ? t : I[t]) >> -sh) & m;
    } else {
      for (size_t t = 0; t < N; ++t) {
        u64 x = f->get(ident ? t : I[t]), r = 0;
        for (unsigned i = 0; i < n; ++i) if (b[i].f.p == f) r |= (x >> b[i].id & 1) << i;
        out[t] ^= r;
      }
    }
  }
}
void evalval(const Val &v, u32 basis, Tab &out) {
  size_t N = 1ull << bases.tab[basis].atoms.size();
  if (v.k == K_CONST) { out.assign(N, v.c); return; }
  if (v.k != K_BITS || v.w > 64) { fprintf(stderr, "evalval kind %d w %d\n", v.k, v.w); abort(); }
  evalbits(v.bits()->b.data(), v.w, basis, out);
}
static u32 combine(u32 basis, u32 mask) {
  u32 id = 0;
  const std::vector<u32> at = bases.tab[basis].atoms;
  for (size_t j = 0; j < at.size(); ++j) if (mask >> j & 1) id = aff.xr(id, at[j]);
  return id;
}
Val simplify(Tab &t, u32 basis, unsigned w) {
  int k = bases.tab[basis].atoms.size();
  size_t N = 1ull << k;
  u64 mw = maskw(w);
  u64 c = t[0] & mw;
  bool cst = true;
  for (size_t i = 0; i < N; ++i) { t[i] &= mw; if (t[i] != c) cst = false; }
  if (cst) return vconst(c, w);
  // affine part
  std::vector<u64> V(k);
  for (int j = 0; j < k; ++j) V[j] = t[1ull << j] ^ c;
  u64 D = 0;
  {
    // running prediction by Gray-code walk
    u64 pred = c; size_t g = 0;
    for (size_t i = 0;;) {
      D |= pred ^ t[g];
      ++i;
      if (i >= N) break;
      int j = __builtin_ctzll(i);
      g ^= 1ull << j; pred ^= V[j];
      if (D == mw) break;
    }
  }
  std::vector<Bit> out(w);
  for (unsigned i = 0; i < w; ++i) if (!(D >> i & 1)) {
    u32 m = 0;
    for (int j = 0; j < k; ++j) if (V[j] >> i & 1) m |= 1u << j;
    out[i] = baff(combine(basis, m), c >> i & 1);
  }
  if (D) {
    // drop unused atoms
    u32 b2 = basis; Tab *src = &t; Tab tmp;
    u32 used = 0;
    for (int j = 0; j < k; ++j) {
      size_t h = 1ull << j; bool u = false;
      for (size_t i = 0; i < N && !u; i += 2 * h) for (size_t x = 0; x < h; ++x) if ((t[i + x] ^ t[i + x + h]) & D) { u = true; break; }
      if (u) used |= 1u << j;
    }
    if (used != (1u << k) - 1) {
      std::vector<u32> at;
      std::vector<u32> pos;
      const std::vector<u32> all = bases.tab[basis].atoms;
      for (int j = 0; j < k; ++j) if (used >> j & 1) { at.push_back(all[j]); pos.push_back(j); }
      b2 = bases.of(at);
      tmp.resize(1ull << at.size());
      std::vector<u32> I(tmp.size());
      I[0] = 0;
      for (size_t j = 0; j < at.size(); ++j) for (size_t x = 0; x < (1ull << j); ++x) I[(1ull << j) + x] = I[x] | 1u << pos[j];
      for (size_t x = 0; x < tmp.size(); ++x) tmp[x] = t[I[x]];
      src = &tmp;
    }
    // keep only non-affine bits, shifted down by the lowest
    int lo = __builtin_ctzll(D), hi = 63 - __builtin_clzll(D);
    Fin *f = new Fin;
    f->basis = b2; f->k = bases.tab[b2].atoms.size();
    int bw = hi - lo + 1;
    f->esz = bw <= 8 ? 1 : bw <= 16 ? 2 : bw <= 32 ? 4 : 8;
    f->d.resize(src->size() * f->esz);
    for (size_t x = 0; x < src->size(); ++x) {
      u64 v = ((*src)[x] & D) >> lo;
      switch (f->esz) {
      case 1: f->d[x] = v; break;
      case 2: { u16 y = v; memcpy(&f->d[x * 2], &y, 2); break; }
      case 4: { u32 y = v; memcpy(&f->d[x * 4], &y, 4); break; }
      default: memcpy(&f->d[x * 8], &v, 8);
      }
    }
    Ref<Fin> rf(f);
    for (unsigned i = 0; i < w; ++i) if (D >> i & 1) { out[i].f = rf; out[i].id = i - lo; out[i].neg = false; }
  }
  return vbits(std::move(out));
}
Bit simplifybit(Tab &t, u32 basis) { return getbit(simplify(t, basis, 1), 0); }
static Val bitval(const Bit &b) { return vbits(std::vector<Bit>(1, b)); }
extern Val opaque(int op, unsigned w, const std::vector<Val> &ops);
Bit bxor(const Bit &a, const Bit &b) {
  if (a.isconst()) { Bit r = b; r.neg ^= a.neg; return r; }
  if (b.isconst()) { Bit r = a; r.neg ^= b.neg; return r; }
  if (!a.f && !b.f) return baff(aff.xr(a.id, b.id), a.neg ^ b.neg);
  if (a == b) return bconst(0);
  if (a.f.p == b.f.p && a.id == b.id && a.ax == b.ax) return bconst(1);
  Bit in[2] = {a, b};
  { Support s(MAXK); s.add(a); s.add(b); if (s.ok) return bfun(in, 2, 0x6); }
  // the tables alone, with the affine parts as an addend
  u32 ax = aff.xr(a.f ? a.ax : a.id, b.f ? b.ax : b.id);
  Bit x = a, y = b, r;
  x.ax = y.ax = 0;
  if (a.f && b.f) {
    if (x.f.p == y.f.p && x.id == y.id) return baff(ax, a.neg ^ b.neg);
    Support s(MAXK); s.add(x); s.add(y);
    if (!s.ok) return bfun(in, 2, 0x6);
    Bit in2[2] = {x, y};
    r = bfun(in2, 2, 0x6);
  } else r = a.f ? x : y, r.neg = a.neg ^ b.neg;
  if (!r.f) return baff(aff.xr(r.id, ax), r.neg);
  if (!ax) return r;
  r.ax = ax;
  Support t(MAXK); t.add(r);
  if (!t.ok) return r;
  Tab tb; evalbits(&r, 1, t.basis, tb);
  return simplifybit(tb, t.basis);
}
enum { OPQ_BFUN = 100000 };
extern u64 n_opaque;
Bit bfun(const Bit *in, unsigned n, u32 tt) {
  Support s(MAXK);
  for (unsigned i = 0; i < n; ++i) s.add(in[i]);
  if (!s.ok) {
    std::vector<Val> ops;
    for (unsigned i = 0; i < n; ++i) ops.push_back(bitval(in[i]));
    return getbit(opaque(OPQ_BFUN + tt * 8 + n, 1, ops), 0);
  }
  Tab t;
  evalbits(in, n, s.basis, t);
  for (auto &x : t) x = tt >> x & 1;
  return simplifybit(t, s.basis);
}
Bit bite(const Bit &c, const Bit &a, const Bit &b) {
  if (c.isconst()) return c.cv() ? a : b;
  if (a == b) return a;
  if (!a.f && !b.f) {
    if (a.id == b.id) return bxor(b, c); // a = !b
    if (!c.f && c.id == aff.xr(a.id, b.id)) {
      // a^b = c (^k): b ^ c&(c^k)
      bool k = a.neg ^ b.neg ^ c.neg;
      // a^b as function of c: value = c_lin ^ a.neg^b.neg; c = c_lin ^ c.neg
      // c & (c ^ k) = k ? 0 : c
      return k ? b : bxor(b, c);
    }
  }
  Bit in[3] = {b, a, c}; // index bit0=b bit1=a bit2=c
  {
    Support s(MAXK); s.add(a); s.add(b); s.add(c);
    if (!s.ok) {
      u64 before = n_opaque;
      Bit d = bxor(a, b);
      Support t(MAXK); t.add(d); t.add(c);
      if (n_opaque == before && t.ok) return bxor(b, band(c, d));
    }
  }
  // c?a:b : idx c=0 -> b ; c=1 -> a
  u32 tt = 0;
  for (u32 i = 0; i < 8; ++i) { bool v = (i >> 2 & 1) ? (i >> 1 & 1) : (i & 1); if (v) tt |= 1u << i; }
  return bfun(in, 3, tt);
}
