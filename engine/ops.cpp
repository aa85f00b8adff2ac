#include "ops.h"
u64 n_pw, n_opaque;
static double asf(u64 v, unsigned w) { if (w == 32) { float f; u32 x = v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static u64 fromf(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; } u64 x; memcpy(&x, &d, 8); return x; }
static i64 satw(__int128 v, unsigned w) { __int128 hi = ((__int128)1 << (w - 1)) - 1, lo = -hi - 1; return (i64)(v > hi ? hi : v < lo ? lo : v); }
u64 evalop(int op, unsigned w, unsigned ws, u64 a, u64 b, u64 c) {
  u64 m = maskw(w);
  i64 sa = sextw(a, ws), sb = sextw(b, ws);
  switch (op) {
  case O_ADD: return (a + b) & m;
  case O_SUB: return (a - b) & m;
  case O_MUL: return (a * b) & m;
  case O_UDIV: return b ? a / b : 0;
  case O_SDIV: if (!b || (sb == -1 && a == (1ull << (ws - 1)))) return 0; return (u64)(sa / sb) & m;
  case O_UREM: return b ? a % b : 0;
  case O_SREM: if (!b || sb == -1) return 0; return (u64)(sa % sb) & m;
  case O_SHL: return b >= w ? 0 : (a << b) & m;
  case O_LSHR: return b >= w ? 0 : a >> b;
  case O_ASHR: return (u64)(sa >> (b >= w ? w - 1 : b)) & m;
  case O_AND: return a & b;
  case O_OR: return a | b;
  case O_XOR: return a ^ b;
  case O_EQ: return a == b;
  case O_NE: return a != b;
  case O_UGT: return a > b;
  case O_UGE: return a >= b;
  case O_ULT: return a < b;
  case O_ULE: return a <= b;
  case O_SGT: return sa > sb;
  case O_SGE: return sa >= sb;
  case O_SLT: return sa < sb;
  case O_SLE: return sa <= sb;
  case O_ZEXT: return a;
  case O_SEXT: return (u64)sa & m;
  case O_TRUNC: return a & m;
  case O_SELECT: return (a & 1) ? b : c;
  case O_SMAX: return sa > sb ? a : b;
  case O_SMIN: return sa < sb ? a : b;
  case O_UMAX: return a > b ? a : b;
  case O_UMIN: return a < b ? a : b;
  case O_ABS: return (u64)(sa < 0 ? -(u64)sa : sa) & m;
  case O_SQABS: return (u64)satw(sa < 0 ? -(__int128)sa : sa, w) & m;
  case O_SQNEG: return (u64)satw(-(__int128)sa, w) & m;
  case O_SADDSAT: return (u64)satw((__int128)sa + sb, w) & m;
  case O_SSUBSAT: return (u64)satw((__int128)sa - sb, w) & m;
  case O_UADDSAT: { unsigned __int128 s = (unsigned __int128)a + b; return s > m ? m : (u64)s; }
  case O_USUBSAT: return a > b ? a - b : 0;
  case O_FSHL: { unsigned s = c % w; return s ? ((a << s) | (b >> (w - s))) & m : a; }
  case O_FSHR: { unsigned s = c % w; return s ? ((a << (w - s)) | (b >> s)) & m : b; }
  case O_CTPOP: return __builtin_popcountll(a);
  case O_PARITY: return __builtin_parityll(a);
  case O_CTLZ: return a ? __builtin_clzll(a) - (64 - ws) : ws;
  case O_CTTZ: return a ? __builtin_ctzll(a) : ws;
  case O_BSWAP: { u64 r = 0; for (unsigned i = 0; i < w; i += 8) r |= ((a >> i) & 255) << (w - 8 - i); return r; }
  case O_BITREV: { u64 r = 0; for (unsigned i = 0; i < w; ++i) r |= ((a >> i) & 1) << (w - 1 - i); return r; }
  case O_PSIGN: return sb < 0 ? (u64)(-(u64)sa) & m : sb == 0 ? 0 : a;
  case O_SLTMASK: return sa < 0 ? m : 0;
  case O_SADDO: return (i64)satw((__int128)sa + sb, ws) != (i64)(sa + sb) || (__int128)sa + sb != satw((__int128)sa + sb, ws);
  case O_SSUBO: return (__int128)sa - sb != satw((__int128)sa - sb, ws);
  case O_SMULO: return (__int128)sa * sb != satw((__int128)sa * sb, ws);
  case O_UADDO: return (unsigned __int128)a + b > maskw(ws);
  case O_USUBO: return a < b;
  case O_UMULO: return (unsigned __int128)a * b > maskw(ws);
  case O_MULH: return (u64)(((__int128)sa * sb) >> w) & m;
  case O_UMULH: return (u64)(((unsigned __int128)a * b) >> w) & m;
  case O_FADD: return w == 32 ? fromf((float)asf(a, 32) + (float)asf(b, 32), 32) : fromf(asf(a, 64) + asf(b, 64), 64);
  case O_FSUB: return w == 32 ? fromf((float)asf(a, 32) - (float)asf(b, 32), 32) : fromf(asf(a, 64) - asf(b, 64), 64);
  case O_FMUL: return w == 32 ? fromf((float)asf(a, 32) * (float)asf(b, 32), 32) : fromf(asf(a, 64) * asf(b, 64), 64);
  case O_FDIV: return w == 32 ? fromf((float)asf(a, 32) / (float)asf(b, 32), 32) : fromf(asf(a, 64) / asf(b, 64), 64);
  case O_FREM: return fromf(fmod(asf(a, w), asf(b, w)), w);
  case O_FNEG: return a ^ (1ull << (w - 1));
  case O_FABS: return a & ~(1ull << (w - 1)) & m;
  case O_COPYSIGN: return (a & (m >> 1)) | (b & (1ull << (w - 1)));
  case O_X86MIN: return asf(a, w) < asf(b, w) ? a : b;
  case O_X86MAX: return asf(a, w) > asf(b, w) ? a : b;
  case O_FMINNUM: { double x = asf(a, w), y = asf(b, w); return std::isnan(x) ? b : std::isnan(y) ? a : x < y ? a : y < x ? b : (a >> (w - 1) ? a : b); }
  case O_FMAXNUM: { double x = asf(a, w), y = asf(b, w); return std::isnan(x) ? b : std::isnan(y) ? a : x > y ? a : y > x ? b : (a >> (w - 1) ? b : a); }
  case O_FMIN: { double x = asf(a, w), y = asf(b, w); return std::isnan(x) ? a : std::isnan(y) ? b : x < y ? a : y < x ? b : (a >> (w - 1) ? a : b); }
  case O_FMAX: { double x = asf(a, w), y = asf(b, w); return std::isnan(x) ? a : std::isnan(y) ? b : x > y ? a : y > x ? b : (a >> (w - 1) ? b : a); }
  case O_FMA: return w == 32 ? fromf(fmaf(asf(a, 32), asf(b, 32), asf(c, 32)), 32) : fromf(fma(asf(a, 64), asf(b, 64), asf(c, 64)), 64);
  case O_SQRT: return w == 32 ? fromf(sqrtf(asf(a, 32)), 32) : fromf(sqrt(asf(a, 64)), 64);
  case O_FLOOR: return fromf(floor(asf(a, w)), w);
  case O_CEIL: return fromf(ceil(asf(a, w)), w);
  case O_ROUND: return fromf(round(asf(a, w)), w);
  case O_RINT: return fromf(nearbyint(asf(a, w)), w);
  case O_TRUNCF: return fromf(trunc(asf(a, w)), w);
  case O_EXP: return w == 32 ? fromf(expf(asf(a, 32)), 32) : fromf(exp(asf(a, w)), w);
  case O_LOG: return w == 32 ? fromf(logf(asf(a, 32)), 32) : fromf(log(asf(a, w)), w);
  case O_LOG2: return w == 32 ? fromf(log2f(asf(a, 32)), 32) : fromf(log2(asf(a, w)), w);
  case O_POW: return w == 32 ? fromf(powf(asf(a, 32), asf(b, 32)), 32) : fromf(pow(asf(a, w), asf(b, w)), w);
  case O_SIN: return fromf(sin(asf(a, w)), w);
  case O_COS: return fromf(cos(asf(a, w)), w);
  case O_TANH: return fromf(tanh(asf(a, w)), w);
  case O_ATANH: return fromf(atanh(asf(a, w)), w);
  case O_FPTOSI: { double d = asf(a, ws); if (!(d >= -9.3e18 && d <= 9.2e18)) return 1ull << (w - 1); return (u64)(i64)d & m; }
  case O_FPTOUI: { double d = asf(a, ws); if (!(d > -1 && d <= 1.8e19)) return 0; return (u64)d & m; }
  case O_SITOFP: return w == 32 ? fromf((float)sa, 32) : fromf((double)sa, 64);
  case O_UITOFP: return w == 32 ? fromf((float)a, 32) : fromf((double)a, 64);
  case O_FPEXT: return fromf(asf(a, 32), 64);
  case O_FPTRUNC: return fromf((float)asf(a, 64), 32);
  }
  if (op >= O_FCMP && op <= O_FCMP_END) {
    int p = op - O_FCMP; double x = asf(a, ws), y = asf(b, ws);
    int rel = (std::isnan(x) || std::isnan(y)) ? 8 : x == y ? 1 : x > y ? 2 : 4;
    return (p & rel) != 0;
  }
  if (op >= O_BFUN) { u32 tt = (op - O_BFUN) / 8; return tt >> ((a & 1) | (b & 1) << 1 | (c & 1) << 2) & 1; }
  fprintf(stderr, "evalop: op %d\n", op);
  abort();
}
static void hashval(const Val &v, u64 &h) {
  auto mix = [&](u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
  mix(v.k); mix(v.w); mix(v.c);
  if (v.k == K_BITS) for (auto &b : v.bits()->b) { mix((u64)b.f.p); mix(b.id * 2 + b.neg); if (b.ax) mix(b.ax); }
}
static std::unordered_multimap<u64, std::shared_ptr<OpaqueDef>> opq;
Val opaque(int op, unsigned w, const std::vector<Val> &ops) {
  u64 h = op * 1000003ull + w;
  for (auto &v : ops) hashval(v, h);
  auto r = opq.equal_range(h);
  std::shared_ptr<OpaqueDef> d;
  for (auto i = r.first; i != r.second && !d; ++i) {
    OpaqueDef &e = *i->second;
    if (e.op != op || e.w != w || e.ops.size() != ops.size()) continue;
    bool eq = true;
    for (size_t j = 0; j < ops.size(); ++j) if (!e.ops[j].same(ops[j])) { eq = false; break; }
    if (eq) d = i->second;
  }
  if (!d) {
    ++n_opaque;
    { static const char *dbg = getenv("SA_OPQ"); static int left = dbg ? atoi(dbg) : 0; if (left > 0) { --left; extern void whereami(const char *); char b[64]; snprintf(b, sizeof b, "opaque op %d w %u", op, w); whereami(b); } }
    d = std::make_shared<OpaqueDef>();
    d->op = op; d->w = w; d->ops = ops; d->first = syms.size();
    for (unsigned i = 0; i < w; ++i) newsym(S_OPAQUE, "opq", i, d);
    opq.emplace(h, d);
  }
  std::vector<Bit> b(w);
  for (unsigned i = 0; i < w; ++i) b[i] = baff(aff.sym(d->first + i));
  return vbits(std::move(b));
}
bool evalsym(u32 s, Assign &A) {
  auto it = A.m.find(s);
  if (it != A.m.end()) return it->second;
  bool v;
  if (syms[s].cls == S_OPAQUE) {
    OpaqueDef *d = syms[s].def.get();
    auto mi = A.memo.find(d);
    u64 r;
    if (mi != A.memo.end()) r = mi->second;
    else {
      u64 x[3] = {0, 0, 0};
      for (size_t i = 0; i < d->ops.size() && i < 3; ++i) x[i] = evalword(d->ops[i], A);
      r = evalop(d->op, d->w, d->ops[0].w, x[0], x[1], x[2]);
      A.memo[d] = r;
    }
    v = r >> syms[s].bit & 1;
  } else { v = A.next(); if (syms[s].cls == S_IMPREC) A.imprec = true; }
  A.m[s] = v;
  return v;
}
static bool evalaff(u32 id, Assign &A) {
  bool r = false;
  const BV v = aff.forms[id];
  for (size_t i = 0; i < v.size(); ++i) { u64 x = v[i]; while (x) { int j = __builtin_ctzll(x); x &= x - 1; r ^= evalsym(i * 64 + j, A); } }
  return r;
}
bool evalbit(const Bit &b, Assign &A) {
  if (!b.f) return evalaff(b.id, A) ^ b.neg;
  u32 t = 0; int j = 0;
  for (u32 a : std::vector<u32>(bases.tab[b.f->basis].atoms)) { if (evalaff(a, A)) t |= 1u << j; ++j; }
  return (b.f->get(t) >> b.id & 1) ^ b.neg ^ (b.ax ? evalaff(b.ax, A) : 0);
}
u64 evalword(const Val &v, Assign &A) {
  if (v.k == K_CONST) return v.c;
  u64 r = 0;
  if (v.k == K_BITS) for (unsigned i = 0; i < v.w && i < 64; ++i) if (evalbit(v.bits()->b[i], A)) r |= 1ull << i;
  return r;
}
Val slicev(const Val &v, unsigned lo, unsigned w) {
  if (v.k == K_CONST) return vconst(lo < 64 ? v.c >> lo : 0, w);
  if (v.k == K_UNDEF) return vundef(w);
  if (lo == 0 && w == v.w) return v;
  auto b = getbits(v);
  return vbits(std::vector<Bit>(b.begin() + lo, b.begin() + lo + w));
}
Val concatv(const std::vector<Val> &p) {
  unsigned w = 0; bool ac = true, au = true;
  for (auto &v : p) { w += v.w; if (!v.isc()) ac = false; if (v.k != K_UNDEF) au = false; }
  if (au) return vundef(w);
  if (ac && w <= 64) { u64 c = 0; unsigned s = 0; for (auto &v : p) { c |= v.c << s; s += v.w; } return vconst(c, w); }
  std::vector<Bit> b;
  for (auto &v : p) { auto x = getbits(v); b.insert(b.end(), x.begin(), x.end()); }
  return vbits(std::move(b));
}
static Val perbit2(unsigned w, const Val &a, const Val &b, Bit (*f)(const Bit &, const Bit &)) {
  std::vector<Bit> x = getbits(a), y = getbits(b);
  for (unsigned i = 0; i < w; ++i) x[i] = f(x[i], y[i]);
  return vbits(std::move(x));
}
static bool allaff(const Val &v) { if (v.k == K_CONST) return true; if (v.k != K_BITS) return false; for (auto &b : v.bits()->b) if (b.f) return false; return true; }
Val ivlapply(int op, unsigned w, unsigned ws, const std::vector<Val> &ops);
static Val table(int op, unsigned w, unsigned ws, const std::vector<Val> &ops, u32 basis) {
  ++n_pw;
  static std::vector<Tab> T(3);
  size_t N = 1ull << bases.tab[basis].atoms.size();
  std::vector<Tab> t(ops.size());
  for (size_t i = 0; i < ops.size(); ++i) evalval(ops[i], basis, t[i]);
  Tab &o = t[0];
#define EACH(expr) for (size_t i = 0; i < N; ++i) { u64 a = t[0][i]; u64 b = ops.size() > 1 ? t[1][i] : 0; (void)a; (void)b; o[i] = (expr); }
  u64 m = maskw(w);
  switch (op) {
  case O_ADD: EACH((a + b) & m) break;
  case O_SUB: EACH((a - b) & m) break;
  case O_AND: EACH(a & b) break;
  case O_OR: EACH(a | b) break;
  case O_XOR: EACH(a ^ b) break;
  case O_EQ: EACH(a == b) break;
  case O_NE: EACH(a != b) break;
  case O_ULT: EACH(a < b) break;
  case O_UGT: EACH(a > b) break;
  default:
    for (size_t i = 0; i < N; ++i) o[i] = evalop(op, w, ws, t[0][i], ops.size() > 1 ? t[1][i] : 0, ops.size() > 2 ? t[2][i] : 0);
  }
#undef EACH
  return simplify(o, basis, w);
}
Val apply(int op, unsigned w, unsigned ws, const std::vector<Val> &ops) {
  bool allc = true, und = false, ivl = false;
  for (auto &v : ops) { if (v.k != K_CONST) allc = false; if (v.k == K_UNDEF) und = true; if (v.k == K_IVL) ivl = true; }
  if (allc) return vconst(evalop(op, w, ws, ops[0].c, ops.size() > 1 ? ops[1].c : 0, ops.size() > 2 ? ops[2].c : 0), w);
  if (und) {
    if (op == O_SELECT && ops[0].k != K_UNDEF) return vite(getbit(ops[0], 0), ops[1], ops[2]);
    if (op != O_AND && op != O_OR && op != O_XOR) return vundef(w);
  }
  if (ivl) return ivlapply(op, w, ws, ops);
  switch (op) {
  case O_XOR: if (ws > 0 && (allaff(ops[0]) && allaff(ops[1]))) return perbit2(w, ops[0], ops[1], bxor); break;
  case O_AND: case O_OR:
    if (ops[0].isc() || ops[1].isc()) return perbit2(w, ops[0], ops[1], op == O_AND ? band : bor);
    break;
  case O_ZEXT: { std::vector<Bit> b = getbits(ops[0]); b.resize(w, bconst(0)); return vbits(std::move(b)); }
  case O_SEXT: { std::vector<Bit> b = getbits(ops[0]); Bit s = b.back(); b.resize(w, s); return vbits(std::move(b)); }
  case O_TRUNC: return slicev(ops[0], 0, w);
  case O_SHL: case O_LSHR: case O_ASHR: {
    Val amt = ops[1];
    if (!amt.isc() && amt.w > 64) amt = slicev(amt, 0, 64); // upper half of a wide amount: unsupported unless zero
    if (amt.isc() && ws > 64 && !ops[1].isc()) { Val up = slicev(ops[1], 64, ops[1].w - 64); if (!up.isc() || up.c) break; }
    if (amt.isc()) {
      u64 s = amt.c;
      std::vector<Bit> b = getbits(ops[0]), r(w);
      Bit fill = op == O_ASHR ? b[w - 1] : bconst(0);
      for (unsigned i = 0; i < w; ++i) {
        if (op == O_SHL) r[i] = i >= s ? b[i - s] : bconst(0);
        else r[i] = i + s < w ? b[i + s] : fill;
      }
      return vbits(std::move(r));
    }
    break; }
  case O_FSHL: case O_FSHR:
    if (ops[2].isc()) {
      unsigned s = ops[2].c % w;
      std::vector<Bit> a = getbits(ops[0]), b = getbits(ops[1]), r;
      std::vector<Bit> cat = b; cat.insert(cat.end(), a.begin(), a.end()); // low = b
      unsigned lo = op == O_FSHL ? (w - s) : s;
      if (op == O_FSHL && s == 0) lo = w;
      r.assign(cat.begin() + lo, cat.begin() + lo + w);
      return vbits(std::move(r));
    }
    break;
  case O_BSWAP: { std::vector<Bit> b = getbits(ops[0]), r; for (int i = w / 8 - 1; i >= 0; --i) r.insert(r.end(), b.begin() + i * 8, b.begin() + i * 8 + 8); return vbits(std::move(r)); }
  case O_BITREV: { std::vector<Bit> b = getbits(ops[0]); std::reverse(b.begin(), b.end()); return vbits(std::move(b)); }
  case O_FNEG: { std::vector<Bit> b = getbits(ops[0]); b[w - 1] = bnot(b[w - 1]); return vbits(std::move(b)); }
  case O_FABS: { std::vector<Bit> b = getbits(ops[0]); b[w - 1] = bconst(0); return vbits(std::move(b)); }
  case O_COPYSIGN: { std::vector<Bit> b = getbits(ops[0]); b[w - 1] = getbit(ops[1], w - 1); return vbits(std::move(b)); }
  case O_SLTMASK: return vbits(std::vector<Bit>(w, getbit(ops[0], ws - 1)));
  case O_PARITY: { Bit r = bconst(0); for (auto &b : getbits(ops[0])) r = bxor(r, b); return apply(O_ZEXT, w, 1, {vbits({r})}); }
  case O_SELECT: return vite(getbit(ops[0], 0), ops[1], ops[2]);
  case O_CTPOP: break;
  default: break;
  }
  if (op == O_AND || op == O_OR) return perbit2(w, ops[0], ops[1], op == O_AND ? band : bor);
  bool wide = false;
  for (auto &v : ops) if (v.w > 64) wide = true;
  if (w > 64) wide = true;
  if (!wide) {
    Support s(MAXK);
    for (auto &v : ops) { s.add(v); if (!s.ok) break; }
    if (s.ok) return table(op, w, ws, ops, s.basis);
  }
  switch (op) {
  case O_XOR: return perbit2(w, ops[0], ops[1], bxor);
  case O_AND: return perbit2(w, ops[0], ops[1], band);
  case O_OR: return perbit2(w, ops[0], ops[1], bor);
  case O_ADD: case O_SUB: {
    // ripple; exact as long as every carry stays within MAXK atoms
    std::vector<Bit> a = getbits(ops[0]), b = getbits(ops[1]), r(w);
    Bit cy = bconst(op == O_SUB);
    u64 before = n_opaque;
    for (unsigned i = 0; i < w; ++i) {
      Bit y = op == O_SUB ? bnot(b[i]) : b[i];
      Bit x = bxor(a[i], y);
      r[i] = bxor(x, cy);
      Bit in[3] = {a[i], y, cy};
      if (i + 1 < w) {
        if (x.isconst()) cy = x.cv() ? cy : a[i];
        else if (cy.isconst()) cy = cy.cv() ? bor(a[i], y) : band(a[i], y);
        else cy = bfun(in, 3, 0xe8);
      }
      if (n_opaque != before) break;
    }
    if (n_opaque == before) return vbits(std::move(r));
    break;
  }
  case O_MUL:
    for (int i = 0; i < 2; ++i) if (ops[i].isc() && ops[i].c && !(ops[i].c & (ops[i].c - 1))) return apply(O_SHL, w, ws, {ops[1 - i], vconst(__builtin_ctzll(ops[i].c), w)});
    break;
  case O_EQ: case O_NE: {
    std::vector<Bit> a = getbits(ops[0]), b = getbits(ops[1]);
    Bit all = bconst(1);
    u64 before = n_opaque;
    // a bit pair that can never be equal decides at once
    std::vector<Bit> x(a.size());
    for (size_t i = 0; i < a.size(); ++i) { x[i] = bxor(a[i], b[i]); if (x[i].isconst() && x[i].cv()) return vconst(op == O_NE, 1); }
    for (size_t i = 0; i < a.size() && n_opaque == before; ++i) all = band(all, bnot(x[i]));
    if (n_opaque == before) return vbits({op == O_NE ? bnot(all) : all});
    std::vector<Bit> x2(x);
    if (x2.size() <= 64) { Val r = opaque(O_EQ, 1, {vbits(x2), vconst(0, x2.size())}); return op == O_NE ? vbits({bnot(getbit(r, 0))}) : r; }
    break;
  }
  case O_SLT: case O_SGE: case O_SGT: case O_SLE:
    if (ops[1].isc() && ((op == O_SLT || op == O_SGE) ? ops[1].c == 0 : ops[1].c == maskw(ws))) {
      Bit s = getbit(ops[0], ws - 1);
      return vbits({(op == O_SLT || op == O_SLE) ? s : bnot(s)});
    }
    break;
  case O_PSIGN: {
    // common shape: sign operand depends on few bits
    Val neg = apply(O_SUB, w, w, {vconst(0, w), ops[0]});
    Bit s = getbit(ops[1], w - 1);
    Val z = apply(O_EQ, 1, w, {ops[1], vconst(0, w)});
    return vite(getbit(z, 0), vconst(0, w), vite(s, neg, ops[0]));
  }
  case O_UMIN: case O_UMAX: case O_SMIN: case O_SMAX: {
    int cmp = op == O_UMIN ? O_ULT : op == O_UMAX ? O_UGT : op == O_SMIN ? O_SLT : O_SGT;
    Val c = apply(cmp, 1, w, ops);
    return vite(getbit(c, 0), ops[0], ops[1]);
  }
  default: break;
  }
  if (wide) { extern void unsupported(const std::string &); unsupported("wide operation " + std::to_string(op)); }
  return opaque(op, w, ops);
}
void idxmap(u32 inner, u32 outer, std::vector<u32> &I, bool &ident);
Val vite(const Bit &c, const Val &a, const Val &b) {
  if (c.isconst()) return c.cv() ? a : b;
  if (a.same(b)) return a;
  if (a.k == K_VEC || b.k == K_VEC) {
    if (a.k != K_VEC || b.k != K_VEC) return a.k == K_VEC ? a : b; // other side undef
    std::vector<Val> e;
    for (size_t i = 0; i < a.vec()->e.size(); ++i) e.push_back(vite(c, a.vec()->e[i], b.vec()->e[i]));
    return vvec(std::move(e));
  }
  if (a.k == K_IVL || b.k == K_IVL) return ivlapply(O_SELECT, a.w, a.w, {vbits({c}), a, b});
  unsigned w = a.w;
  if (a.w != b.w) { fprintf(stderr, "vite width %u %u\n", a.w, b.w); abort(); }
  Val A = a, B = b;
  if (A.k == K_UNDEF) A = vbits(getbits(A));
  if (B.k == K_UNDEF) B = vbits(getbits(B));
  if (w <= 64) {
    Support s(MAXK);
    s.add(c); s.add(A); s.add(B);
    if (s.ok) {
      Tab tc, ta, tb;
      evalbits(&c, 1, s.basis, tc); evalval(A, s.basis, ta); evalval(B, s.basis, tb);
      for (size_t i = 0; i < ta.size(); ++i) if (!(tc[i] & 1)) ta[i] = tb[i];
      ++n_pw;
      return simplify(ta, s.basis, w);
    }
  }
  std::vector<Bit> x = getbits(A), y = getbits(B);
  for (unsigned i = 0; i < w; ++i) x[i] = bite(c, x[i], y[i]);
  return vbits(std::move(x));
}
// ------------------------------------------------------------ guarded intervals
Val mkivl(unsigned w, bool flt, u32 basis, std::vector<i64> lo, std::vector<i64> hi, std::vector<double> flo, std::vector<double> fhi) {
  size_t N = 1ull << bases.tab[basis].atoms.size();
  // exact? -> plain bits
  bool exact = true;
  for (size_t i = 0; i < N && exact; ++i) if (flt ? !(flo[i] == fhi[i]) : lo[i] != hi[i]) exact = false;
  if (exact) {
    Tab t(N);
    for (size_t i = 0; i < N; ++i) t[i] = flt ? fromf(flo[i], w) : (u64)lo[i] & maskw(w);
    return simplify(t, basis, w);
  }
  // drop unused atoms
  int k = bases.tab[basis].atoms.size();
  u32 used = 0;
  for (int j = 0; j < k; ++j) {
    size_t h = 1ull << j;
    for (size_t i = 0; i < N; ++i) if (!(i & h)) { size_t y = i | h; if (flt ? (flo[i] != flo[y] || fhi[i] != fhi[y]) : (lo[i] != lo[y] || hi[i] != hi[y])) { used |= 1u << j; break; } }
  }
  IvlN *n = new IvlN;
  n->flt = flt;
  if (used == (1u << k) - 1) { n->basis = basis; n->lo = lo; n->hi = hi; n->flo = flo; n->fhi = fhi; }
  else {
    std::vector<u32> at, pos; const std::vector<u32> all = bases.tab[basis].atoms;
    for (int j = 0; j < k; ++j) if (used >> j & 1) { at.push_back(all[j]); pos.push_back(j); }
    n->basis = bases.of(at);
    size_t M = 1ull << at.size();
    for (size_t x = 0; x < M; ++x) {
      size_t i = 0;
      for (size_t j = 0; j < pos.size(); ++j) if (x >> j & 1) i |= 1u << pos[j];
      if (flt) { n->flo.push_back(flo[i]); n->fhi.push_back(fhi[i]); } else { n->lo.push_back(lo[i]); n->hi.push_back(hi[i]); }
    }
  }
  n->k = bases.tab[n->basis].atoms.size();
  Val v; v.k = K_IVL; v.w = w; v.p = Ref<RC>(n);
  return v;
}
struct IT { std::vector<i64> lo, hi; std::vector<double> flo, fhi; };
static void ivltab(const Val &v, bool flt, u32 basis, IT &o) {
  size_t N = 1ull << bases.tab[basis].atoms.size();
  if (v.k == K_IVL) {
    IvlN *n = v.ivl();
    std::vector<u32> I; bool id;
    idxmap(n->basis, basis, I, id);
    for (size_t t = 0; t < N; ++t) { size_t x = id ? t : I[t]; if (n->flt) { o.flo.push_back(n->flo[x]); o.fhi.push_back(n->fhi[x]); } else { o.lo.push_back(n->lo[x]); o.hi.push_back(n->hi[x]); } }
    return;
  }
  Tab t; evalval(v, basis, t);
  for (size_t x = 0; x < N; ++x) {
    if (flt) { double d = asf(t[x], v.w); o.flo.push_back(d); o.fhi.push_back(d); }
    else { i64 s = v.w == 1 ? (i64)t[x] : sextw(t[x], v.w); o.lo.push_back(s); o.hi.push_back(s); }
  }
}
[[maybe_unused]] static bool isfltop(int op) { return op == O_FADD || op == O_FSUB || op == O_FMUL || op == O_FDIV || op == O_FNEG || op == O_FABS || op == O_COPYSIGN || op == O_X86MIN || op == O_X86MAX || (op >= O_FMINNUM && op <= O_FMAX) || (op >= O_FCMP && op <= O_FCMP_END); }
u64 n_ivl_imprecise;
Val ivlapply(int op, unsigned w, unsigned ws, const std::vector<Val> &ops) {
  Support s(MAXK);
  for (auto &v : ops) { if (v.k == K_UNDEF) return vundef(w); s.add(v); }
  auto top = [&]() { ++n_ivl_imprecise; return fresh(S_IMPREC, "ivl", w); };
  if (!s.ok) return top();
  size_t N = 1ull << s.k();
  bool flt = false;
  for (auto &v : ops) if (v.k == K_IVL && v.ivl()->flt) flt = true;
  if (flt && op == O_XOR && ops[1].isc() && ops[1].c == 1ull << (w - 1)) return ivlapply(O_FNEG, w, ws, {ops[0]});
  if (flt && op == O_AND && ops[1].isc() && ops[1].c == maskw(w - 1)) return ivlapply(O_FABS, w, ws, {ops[0]});
  std::vector<IT> T(ops.size());
  size_t first = op == O_SELECT ? 1 : 0;
  Tab cond;
  if (op == O_SELECT) { if (ops[0].k == K_IVL) return top(); evalval(ops[0], s.basis, cond); }
  for (size_t i = first; i < ops.size(); ++i) ivltab(ops[i], flt, s.basis, T[i]);
  i64 lim = w <= 62 ? (i64)(maskw(w) >> 1) : (i64)1 << 62;
  if (!flt) {
    std::vector<i64> lo(N), hi(N);
    bool cmp = op >= O_EQ && op <= O_SLE;
    Tab ct(N);
    for (size_t t = 0; t < N; ++t) {
      if (op == O_SELECT) { IT &x = (cond[t] & 1) ? T[1] : T[2]; lo[t] = x.lo[t]; hi[t] = x.hi[t]; continue; }
      i64 al = T[0].lo[t], ah = T[0].hi[t], bl = ops.size() > 1 ? T[1].lo[t] : 0, bh = ops.size() > 1 ? T[1].hi[t] : 0;
      i64 l, h;
      switch (op) {
      case O_ADD: l = al + bl; h = ah + bh; break;
      case O_SUB: l = al - bh; h = ah - bl; break;
      case O_SADDSAT: l = satw((__int128)al + bl, w); h = satw((__int128)ah + bh, w); break;
      case O_SSUBSAT: l = satw((__int128)al - bh, w); h = satw((__int128)ah - bl, w); break;
      case O_MUL: { i64 p[4] = {al * bl, al * bh, ah * bl, ah * bh}; l = *std::min_element(p, p + 4); h = *std::max_element(p, p + 4); break; }
      case O_SMIN: l = std::min(al, bl); h = std::min(ah, bh); break;
      case O_SMAX: l = std::max(al, bl); h = std::max(ah, bh); break;
      case O_UMIN: if (al < 0 || bl < 0) return top(); l = std::min(al, bl); h = std::min(ah, bh); break;
      case O_UMAX: if (al < 0 || bl < 0) return top(); l = std::max(al, bl); h = std::max(ah, bh); break;
      case O_ABS: case O_SQABS: if (al >= 0) l = al, h = ah; else if (ah <= 0) l = -ah, h = -al; else l = 0, h = std::max(-al, ah); if (op == O_SQABS) h = std::min(h, lim); break;
      case O_PSIGN: if (bl > 0) l = al, h = ah; else if (bh < 0) l = -ah, h = -al; else if (bl == 0 && bh == 0) l = h = 0; else { l = std::min({(i64)0, al, -ah}); h = std::max({(i64)0, ah, -al}); } break;
      case O_SEXT: l = al; h = ah; break;
      case O_ZEXT: if (al < 0) return top(); l = al; h = ah; break;
      case O_TRUNC: l = al; h = ah; break;
      case O_XOR: if (bl == -1 && bh == -1) { l = ~ah; h = ~al; } else return top(); break;
      case O_SDIV: if (bl == bh && bl > 0) { l = al / bl; h = ah / bl; } else return top(); break;
      case O_SHL: if (bl == bh && bl >= 0 && bl < 32) { l = al * ((i64)1 << bl); h = ah * ((i64)1 << bl); } else return top(); break;
      case O_ASHR: if (bl == bh && bl >= 0 && bl < 63) { l = al >> bl; h = ah >> bl; } else return top(); break;
      case O_AND: case O_OR: {
        if (al == ah && bl == bh) { l = h = op == O_AND ? (al & bl) : (al | bl); break; }
        i64 cl, xl, xh; // one side 0 or -1
        if (al == ah) cl = al, xl = bl, xh = bh; else if (bl == bh) cl = bl, xl = al, xh = ah; else return top();
        if (cl == 0) { if (op == O_AND) l = h = 0; else l = xl, h = xh; }
        else if (cl == -1) { if (op == O_AND) l = xl, h = xh; else l = h = -1; }
        else return top();
        break;
      }
      case O_SLT: case O_SGT: case O_SLE: case O_SGE: case O_EQ: case O_NE: case O_ULT: case O_UGT: case O_ULE: case O_UGE: {
        if (op >= O_UGT && op <= O_ULE && (al < 0 || bl < 0)) return top();
        int r = -1;
        switch (op) {
        case O_ULT: case O_SLT: r = ah < bl ? 1 : al >= bh ? 0 : -1; break;
        case O_ULE: case O_SLE: r = ah <= bl ? 1 : al > bh ? 0 : -1; break;
        case O_UGT: case O_SGT: r = al > bh ? 1 : ah <= bl ? 0 : -1; break;
        case O_UGE: case O_SGE: r = al >= bh ? 1 : ah < bl ? 0 : -1; break;
        case O_EQ: r = (al == ah && bl == bh && al == bl) ? 1 : (ah < bl || bh < al) ? 0 : -1; break;
        case O_NE: r = (al == ah && bl == bh && al == bl) ? 0 : (ah < bl || bh < al) ? 1 : -1; break;
        }
        if (r < 0) return top();
        ct[t] = r; l = h = 0; break;
      }
      default: return top();
      }
      if (!cmp && (l < -lim - 1 || h > lim)) return top();
      lo[t] = l; hi[t] = h;
    }
    if (cmp) return simplify(ct, s.basis, 1);
    return mkivl(w, false, s.basis, lo, hi, {}, {});
  }
  std::vector<double> lo(N), hi(N);
  bool cmp = op >= O_FCMP && op <= O_FCMP_END;
  Tab ct(N);
  auto R = [&](double d) { return w == 32 ? (double)(float)d : d; };
  for (size_t t = 0; t < N; ++t) {
    if (op == O_SELECT) { IT &x = (cond[t] & 1) ? T[1] : T[2]; lo[t] = x.flo[t]; hi[t] = x.fhi[t]; continue; }
    double al = T[0].flo[t], ah = T[0].fhi[t], bl = ops.size() > 1 ? T[1].flo[t] : 0, bh = ops.size() > 1 ? T[1].fhi[t] : 0, l, h;
    switch (op) {
    case O_FADD: l = R(al + bl); h = R(ah + bh); break; // rounding is monotone
    case O_FSUB: l = R(al - bh); h = R(ah - bl); break;
    case O_FMUL: { double p[4] = {R(al * bl), R(al * bh), R(ah * bl), R(ah * bh)}; l = *std::min_element(p, p + 4); h = *std::max_element(p, p + 4); break; }
    case O_X86MIN: case O_FMINNUM: case O_FMIN: l = std::min(al, bl); h = std::min(ah, bh); break;
    case O_X86MAX: case O_FMAXNUM: case O_FMAX: l = std::max(al, bl); h = std::max(ah, bh); break;
    case O_FNEG: l = -ah; h = -al; break;
    case O_FABS: if (al >= 0) l = al, h = ah; else if (ah <= 0) l = -ah, h = -al; else l = 0, h = std::max(-al, ah); break;
    case O_COPYSIGN: { if (bl < 0 && bh < 0) { double x = al >= 0 ? al : ah <= 0 ? -ah : 0, y = std::max(std::fabs(al), std::fabs(ah)); l = -y; h = -x; } else if (bl > 0 || (ops[1].k != K_IVL && !std::signbit(bl))) { double x = al >= 0 ? al : ah <= 0 ? -ah : 0, y = std::max(std::fabs(al), std::fabs(ah)); l = x; h = y; } else if (ops[1].k != K_IVL) { double x = al >= 0 ? al : ah <= 0 ? -ah : 0, y = std::max(std::fabs(al), std::fabs(ah)); l = -y; h = -x; } else return top(); break; }
    default:
      if (cmp) {
        int p = (op - O_FCMP) & 7, r = -1; // no NaNs
        bool alleq = al == ah && bl == bh && al == bl, gt = al > bh, lt = ah < bl;
        int can = (alleq ? 1 : 0) | (gt ? 2 : 0) | (lt ? 4 : 0);
        if (!can) { can = 0; if (!(gt || lt)) can |= 1; if (ah > bl) can |= 2; if (al < bh) can |= 4; }
        if ((can & p) == can) r = 1; else if (!(can & p)) r = 0;
        if (r < 0) return top();
        ct[t] = r; l = h = 0; break;
      }
      return top();
    }
    lo[t] = l; hi[t] = h;
  }
  if (cmp) return simplify(ct, s.basis, 1);
  return mkivl(w, true, s.basis, {}, {}, lo, hi);
}
