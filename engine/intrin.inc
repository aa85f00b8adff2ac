static std::string readStr(u64 a) {
  std::string s;
  u64 off; Obj *o = findobj(a, off);
  if (!o) return "?";
  for (; off < o->size; ++off) { Val v = cellbyte((u32)((a >> 32) - 1), off); if (!v.isc() || !v.c) break; s += (char)v.c; }
  return s;
}
static void copyMem(const Val &dst, const Val &src, u64 n) {
  if (!n) return;
  if (dst.isc() && src.isc()) {
    u32 di, si; u64 doff, soff; std::string why;
    if (!accessOK(src.c, n, 1, false, si, soff, why)) { report("memory", "invalid read", curI, btrue(), "block copy: " + why); return; }
    if (!accessOK(dst.c, n, 1, true, di, doff, why)) { report("memory", "invalid write", curI, btrue(), "block copy: " + why); if (why.find("read-only") == std::string::npos) return; }
    std::vector<Cell> t(objs[si]->cells.begin() + soff, objs[si]->cells.begin() + soff + n);
    u32 last = 0, ns = 0; int li = -1;
    for (u64 i = 0; i < n; ++i) {
      Cell c = t[i];
      if (c.n) {
        if (!(c.serial == last && c.idx == li + 1)) ns = ++serialNo;
        last = c.serial; li = c.idx;
        c.serial = ns;
      }
      c.wr = curI;
      setcell(di, doff + i, c);
    }
    return;
  }
  if (n > 256) throw GiveUp{"block copy at symbolic address"};
  std::vector<Val> t;
  for (u64 i = 0; i < n; ++i) t.push_back(loadN(addv(src, i), 1, 1));
  for (u64 i = 0; i < n; ++i) storeN(addv(dst, i), t[i], 1, 1);
}
// block operations whose length is a finite function of the symbols: byte i is touched when the length exceeds i
static void blockSym(const Val &dst, const Val *src, const Val &fill, const Val &len) {
  u32 basis; Tab t; std::vector<u8> care;
  if (!addrTable(len, basis, t, care)) throw GiveUp{"block operation of unbounded length"};
  u64 mx = 0;
  for (size_t i = 0; i < t.size(); ++i) if (care[i]) mx = std::max(mx, t[i]);
  if (mx > 65536) throw GiveUp{"block operation of unbounded length"};
  std::vector<Val> v(mx); std::vector<Bit> g(mx);
  for (u64 i = 0; i < mx; ++i) {
    Tab x(t.size());
    for (size_t j = 0; j < t.size(); ++j) x[j] = t[j] > i;
    g[i] = simplifybit(x, basis);
    if (!src) { v[i] = fill; continue; }
    guards.push_back(g[i]); v[i] = loadN(addv(*src, i), 1, 1); guards.pop_back();
  }
  for (u64 i = 0; i < mx; ++i) {
    guards.push_back(g[i]);
    Val d = addv(dst, i);
    u32 id; u64 off; std::string why;
    if (!d.isc()) storeN(d, g[i].isconst() ? v[i] : vite(g[i], v[i], loadN(d, 1, 1)), 1, 1);
    else if (!accessOK(d.c, 1, 1, true, id, off, why)) report("memory", "invalid write", curI, btrue(), "block operation: " + why);
    else condStore(id, off, g[i], v[i], 1);
    guards.pop_back();
  }
}
struct TraceChk { std::string label; u64 n; };
static std::map<std::string, u64> checkHits;
static std::map<std::string, u64> notes;
static std::vector<std::string> openChecks;
static void openCheck(const std::string &label) { ++n_checks_open; openChecks.push_back(label); }
static void checkZero(const std::string &kind, const std::string &label, const Bit &bad, const std::string &detail, const Instruction *wr) {
  if (bad.isconst() && !bad.cv()) return;
  size_t before = reports.size();
  (void)before;
  if (!(decide(bad) & 1)) return;
  std::string k = kind;
  if (supportHas(bad, S_UNINIT)) k = "uninit"; else if (supportHas(bad, S_STALE)) k = "stale";
  report(k, label, curI, bad, detail, wr);
}
static Val vecmap(Type *t, const std::vector<Val> &a, std::function<Val(const std::vector<Val> &)> f) { return lanewise(t, a, 0, f); }
static Val external(Function *F, std::vector<Val> &a, const CInst *ci, bool &dead) {
  std::string nm = F->getName().str();
  Type *rt = F->getReturnType();
  auto ew = [&]() { return widthOf(rt->getScalarType()); };
  auto map1 = [&](int op) { unsigned w = ew(), ws = widthOf(F->getArg(0)->getType()->getScalarType()); return vecmap(rt, {a[0]}, [&](const std::vector<Val> &x) { return apply(op, w, ws, x); }); };
  auto map2 = [&](int op) { unsigned w = ew(), ws = widthOf(F->getArg(0)->getType()->getScalarType()); return vecmap(rt, {a[0], a[1]}, [&](const std::vector<Val> &x) { return apply(op, w, ws, x); }); };
  auto map3 = [&](int op) { unsigned w = ew(), ws = widthOf(F->getArg(0)->getType()->getScalarType()); return vecmap(rt, {a[0], a[1], a[2]}, [&](const std::vector<Val> &x) { return apply(op, w, ws, x); }); };
  auto lanes = [&](const Val &v) -> std::vector<Val> & { return v.vec()->e; };
  if (F->isIntrinsic()) {
    switch (F->getIntrinsicID()) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
    case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::sideeffect: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::donothing:
      return Val();
    case Intrinsic::expect: return a[0];
    case Intrinsic::is_constant: return vconst(0, 1);
    case Intrinsic::threadlocal_address: return a[0];
    case Intrinsic::lround: case Intrinsic::llround: case Intrinsic::lrint: case Intrinsic::llrint: {
      unsigned w = ci->I->getOperand(0)->getType()->getScalarSizeInBits();
      return apply(O_FPTOSI, 64, w, {apply(F->getIntrinsicID() == Intrinsic::lround || F->getIntrinsicID() == Intrinsic::llround ? O_ROUND : O_RINT, w, w, a)});
    }
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return a[0];
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
      if (!a[2].isc()) { blockSym(a[0], &a[1], Val(), a[2]); return Val(); }
      copyMem(a[0], a[1], a[2].c);
      return Val();
    case Intrinsic::memset:
      if (!a[2].isc()) { blockSym(a[0], nullptr, a[1], a[2]); return Val(); }
      for (u64 i = 0; i < a[2].c; ++i) storeN(addv(a[0], i), a[1], 1, 1);
      return Val();
    case Intrinsic::smax: return map2(O_SMAX);
    case Intrinsic::smin: return map2(O_SMIN);
    case Intrinsic::umax: return map2(O_UMAX);
    case Intrinsic::umin: return map2(O_UMIN);
    case Intrinsic::abs: return map1(O_ABS);
    case Intrinsic::sadd_sat: return map2(O_SADDSAT);
    case Intrinsic::ssub_sat: return map2(O_SSUBSAT);
    case Intrinsic::uadd_sat: return map2(O_UADDSAT);
    case Intrinsic::usub_sat: return map2(O_USUBSAT);
    case Intrinsic::fshl: return map3(O_FSHL);
    case Intrinsic::fshr: return map3(O_FSHR);
    case Intrinsic::ctpop: return map1(O_CTPOP);
    case Intrinsic::ctlz: { unsigned w = ew(); return vecmap(rt, {a[0]}, [&](const std::vector<Val> &x) { return apply(O_CTLZ, w, w, x); }); }
    case Intrinsic::cttz: { unsigned w = ew(); return vecmap(rt, {a[0]}, [&](const std::vector<Val> &x) { return apply(O_CTTZ, w, w, x); }); }
    case Intrinsic::bswap: return map1(O_BSWAP);
    case Intrinsic::bitreverse: return map1(O_BITREV);
    case Intrinsic::fabs: return map1(O_FABS);
    case Intrinsic::copysign: return map2(O_COPYSIGN);
    case Intrinsic::minnum: return map2(O_FMINNUM);
    case Intrinsic::maxnum: return map2(O_FMAXNUM);
    case Intrinsic::minimum: return map2(O_FMIN);
    case Intrinsic::maximum: return map2(O_FMAX);
    case Intrinsic::fma: case Intrinsic::fmuladd: return map3(O_FMA);
    case Intrinsic::sqrt: return map1(O_SQRT);
    case Intrinsic::floor: return map1(O_FLOOR);
    case Intrinsic::ceil: return map1(O_CEIL);
    case Intrinsic::round: return map1(O_ROUND);
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return map1(O_RINT);
    case Intrinsic::trunc: return map1(O_TRUNCF);
    case Intrinsic::exp: return map1(O_EXP);
    case Intrinsic::log: return map1(O_LOG);
    case Intrinsic::log2: return map1(O_LOG2);
    case Intrinsic::pow: return map2(O_POW);
    case Intrinsic::sin: return map1(O_SIN);
    case Intrinsic::cos: return map1(O_COS);
    case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
      int v, o;
      switch (F->getIntrinsicID()) { case Intrinsic::sadd_with_overflow: v = O_ADD; o = O_SADDO; break; case Intrinsic::uadd_with_overflow: v = O_ADD; o = O_UADDO; break; case Intrinsic::ssub_with_overflow: v = O_SUB; o = O_SSUBO; break; case Intrinsic::usub_with_overflow: v = O_SUB; o = O_USUBO; break; case Intrinsic::smul_with_overflow: v = O_MUL; o = O_SMULO; break; default: v = O_MUL; o = O_UMULO; }
      unsigned w = a[0].w;
      return vvec({apply(v, w, w, a), apply(o, 1, w, a)});
    }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_smin: case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_mul: {
      int op; switch (F->getIntrinsicID()) { case Intrinsic::vector_reduce_add: op = O_ADD; break; case Intrinsic::vector_reduce_or: op = O_OR; break; case Intrinsic::vector_reduce_and: op = O_AND; break; case Intrinsic::vector_reduce_xor: op = O_XOR; break; case Intrinsic::vector_reduce_smax: op = O_SMAX; break; case Intrinsic::vector_reduce_smin: op = O_SMIN; break; case Intrinsic::vector_reduce_umax: op = O_UMAX; break; case Intrinsic::vector_reduce_umin: op = O_UMIN; break; default: op = O_MUL; }
      auto &e = lanes(a[0]); Val r = e[0]; for (size_t i = 1; i < e.size(); ++i) r = apply(op, r.w, r.w, {r, e[i]}); return r;
    }
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: {
      std::string d = F->getIntrinsicID() == Intrinsic::ubsantrap && a[0].isc() ? std::to_string(a[0].c) : "";
      report("ub", "undefined behaviour", curI, btrue(), "check " + d);
      dead = true;
      return Val();
    }
    case Intrinsic::x86_avx2_psign_b: case Intrinsic::x86_avx2_psign_w: case Intrinsic::x86_avx2_psign_d:
    case Intrinsic::x86_ssse3_psign_b_128: case Intrinsic::x86_ssse3_psign_w_128: case Intrinsic::x86_ssse3_psign_d_128: return map2(O_PSIGN);
    case Intrinsic::x86_avx2_pshuf_b: case Intrinsic::x86_ssse3_pshuf_b_128: {
      auto &v = lanes(a[0]); auto &ix = lanes(a[1]);
      std::vector<Val> e;
      for (size_t i = 0; i < v.size(); ++i) {
        size_t blk = i / 16 * 16;
        if (ix[i].isc()) { e.push_back(ix[i].c & 128 ? vconst(0, 8) : v[blk + (ix[i].c & 15)]); continue; }
        Val r = v[blk]; Val lo = slicev(ix[i], 0, 4);
        for (int j = 1; j < 16; ++j) r = vite(getbit(apply(O_EQ, 1, 4, {lo, vconst(j, 4)}), 0), v[blk + j], r);
        e.push_back(vite(getbit(ix[i], 7), vconst(0, 8), r));
      }
      return vvec(std::move(e));
    }
    case Intrinsic::x86_avx2_permd: case Intrinsic::x86_avx2_permps: {
      auto &v = lanes(a[0]); auto &ix = lanes(a[1]);
      std::vector<Val> e;
      for (size_t i = 0; i < v.size(); ++i) {
        if (ix[i].isc()) { e.push_back(v[ix[i].c & 7]); continue; }
        Val r = v[0]; Val lo = slicev(ix[i], 0, 3);
        for (int j = 1; j < 8; ++j) r = vite(getbit(apply(O_EQ, 1, 3, {lo, vconst(j, 3)}), 0), v[j], r);
        e.push_back(r);
      }
      return vvec(std::move(e));
    }
    case Intrinsic::x86_sse_min_ps: case Intrinsic::x86_avx_min_ps_256: case Intrinsic::x86_sse2_min_pd: case Intrinsic::x86_avx_min_pd_256: return map2(O_X86MIN);
    case Intrinsic::x86_sse_max_ps: case Intrinsic::x86_avx_max_ps_256: case Intrinsic::x86_sse2_max_pd: case Intrinsic::x86_avx_max_pd_256: return map2(O_X86MAX);
    case Intrinsic::x86_sse_cmp_ps: case Intrinsic::x86_sse2_cmp_pd: case Intrinsic::x86_avx_cmp_ps_256: case Intrinsic::x86_avx_cmp_pd_256: {
      static const int pr[8] = {1, 4, 5, 8, 14, 11, 10, 7}; // EQ LT LE UNORD NEQ(u) NLT(uge) NLE(ugt) ORD
      int p = pr[a[2].c & 7]; unsigned w = ew();
      return vecmap(rt, {a[0], a[1]}, [&](const std::vector<Val> &x) { return apply(O_SEXT, w, 1, {apply(O_FCMP + p, 1, w, x)}); });
    }
    case Intrinsic::x86_avx2_pblendvb: case Intrinsic::x86_sse41_pblendvb: case Intrinsic::x86_sse41_blendvps: case Intrinsic::x86_sse41_blendvpd: case Intrinsic::x86_avx_blendv_ps_256: case Intrinsic::x86_avx_blendv_pd_256:
      return vecmap(rt, {a[0], a[1], a[2]}, [&](const std::vector<Val> &x) { return vite(getbit(x[2], x[2].w - 1), x[1], x[0]); });
    case Intrinsic::aarch64_neon_sqadd: return map2(O_SADDSAT);
    case Intrinsic::aarch64_neon_sqsub: return map2(O_SSUBSAT);
    case Intrinsic::aarch64_neon_uqadd: return map2(O_UADDSAT);
    case Intrinsic::aarch64_neon_uqsub: return map2(O_USUBSAT);
    case Intrinsic::aarch64_neon_smin: return map2(O_SMIN);
    case Intrinsic::aarch64_neon_smax: return map2(O_SMAX);
    case Intrinsic::aarch64_neon_umin: return map2(O_UMIN);
    case Intrinsic::aarch64_neon_umax: return map2(O_UMAX);
    case Intrinsic::aarch64_neon_fmin: return map2(O_FMIN);
    case Intrinsic::aarch64_neon_fmax: return map2(O_FMAX);
    case Intrinsic::aarch64_neon_abs: return map1(O_ABS);
    case Intrinsic::aarch64_neon_sqabs: return map1(O_SQABS);
    case Intrinsic::aarch64_neon_sqneg: return map1(O_SQNEG);
    case Intrinsic::aarch64_neon_sshl: case Intrinsic::aarch64_neon_ushl: {
      bool sg = F->getIntrinsicID() == Intrinsic::aarch64_neon_sshl; unsigned w = ew();
      return vecmap(rt, {a[0], a[1]}, [&](const std::vector<Val> &x) { if (!x[1].isc()) throw Unsupported{"variable neon shift"}; i64 s = sextw(x[1].c, 8); return s >= 0 ? apply(O_SHL, w, w, {x[0], vconst(s, w)}) : apply(sg ? O_ASHR : O_LSHR, w, w, {x[0], vconst(-s, w)}); });
    }
    case Intrinsic::aarch64_neon_tbl1: case Intrinsic::aarch64_neon_tbl2: {
      std::vector<Val> tb = lanes(a[0]);
      if (F->getIntrinsicID() == Intrinsic::aarch64_neon_tbl2) { auto &t2 = lanes(a[1]); tb.insert(tb.end(), t2.begin(), t2.end()); }
      auto &ix = lanes(a.back());
      std::vector<Val> e;
      for (size_t i = 0; i < ix.size(); ++i) {
        if (ix[i].isc()) { e.push_back(ix[i].c < tb.size() ? tb[ix[i].c] : vconst(0, 8)); continue; }
        Val r = vconst(0, 8);
        for (size_t j = 0; j < tb.size(); ++j) r = vite(getbit(apply(O_EQ, 1, 8, {ix[i], vconst(j, 8)}), 0), tb[j], r);
        e.push_back(r);
      }
      return vvec(std::move(e));
    }
    default:
      throw Unsupported{"intrinsic " + nm};
    }
  }
  auto str = [&](int i) { return a[i].isc() ? readStr(a[i].c) : std::string("?"); };
  auto cst = [&](int i) -> u64 { if (!a[i].isc()) throw Unsupported{nm + ": argument must be constant"}; return a[i].c; };
  if (nm == "sa_bits") { // (p, nbytes, name): every bit a fresh input symbol
    u64 p = cst(0), n = cst(1); std::string s = str(2);
    std::vector<Bit> all; for (u64 i = 0; i < n * 8; ++i) all.push_back(baff(aff.sym(newsym(S_INPUT, s, i))));
    for (u64 i = 0; i < n; ++i) storeN(vconst(p + i, 64), vbits(std::vector<Bit>(all.begin() + i * 8, all.begin() + i * 8 + 8)), 1, 1);
    return Val();
  }
  if (nm == "sa_word") { // (name, w) -> fresh w-bit unsigned in a 64-bit word
    return apply(O_ZEXT, 64, cst(1), {fresh(S_INPUT, str(0), cst(1))});
  }
  if (nm == "sa_bit") return fresh(S_INPUT, str(0), 1);
  if (nm == "sa_stale") {
    u64 p = cst(0), n = cst(1);
    for (u64 i = 0; i < n; ++i) storeN(vconst(p + i, 64), fresh(S_STALE, "stale", 8), 1, 1);
    return Val();
  }
  if (nm == "sa_ivl") { // (p, bytes, isfloat, neg, lo, hi): value = neg ? -[lo,hi] : [lo,hi]
    u64 p = cst(0), n = cst(1); bool fl = cst(2);
    Bit neg = getbit(a[3], 0);
    i64 lo = sextw(cst(4), 64), hi = sextw(cst(5), 64);
    Support s(MAXK); s.add(neg);
    size_t N = 1ull << s.k();
    Tab t; evalbits(&neg, 1, s.basis, t);
    std::vector<i64> L, H; std::vector<double> FL, FH;
    for (size_t i = 0; i < N; ++i) { bool g = t[i] & 1; if (fl) { FL.push_back(g ? -(double)hi : lo); FH.push_back(g ? -(double)lo : hi); } else { L.push_back(g ? -hi : lo); H.push_back(g ? -lo : hi); } }
    storeN(vconst(p, 64), mkivl(n * 8, fl, s.basis, L, H, FL, FH), n, 1);
    return Val();
  }
  if (nm == "sa_alloc") { // (size, align, name)
    u32 id = newobj(cst(0), cst(1), str(2));
    return vconst(objs[id]->base, 64);
  }
  if (nm == "sa_readonly" || nm == "sa_writable") {
    u64 off; Obj *o = findobj(cst(0), off);
    if (!o) throw Unsupported{"sa_readonly"};
    if (nm == "sa_readonly") o->ro.push_back({off, off + cst(1)}); else o->ro.clear();
    return Val();
  }
  if (nm == "sa_track") { u64 off; u32 id; Obj *o = findobj(cst(0), off, &id); if (!o) throw Unsupported{"sa_track"}; trackObj = id; tracked.clear(); return Val(); }
  if (nm == "sa_havoc_written") { // replace everything written since sa_track by stale unknowns
    int id = trackObj; trackObj = -1;
    for (u64 off : tracked) if (id >= 0 && !objs[id]->dead && off < objs[id]->size) rawstore(id, off, fresh(S_STALE, "stale state at +" + std::to_string(off), 8), 1);
    u64 n = tracked.size(); tracked.clear();
    notes["havocked bytes"] += n;
    return vconst(n, 64);
  }
  if (nm == "sa_assume") {
    Bit c = getbit(a[0], 0);
    int d = decide(c);
    if (!(d & 1)) { dead = true; return Val(); }
    if (d == 3) guards.push_back(c);
    return Val();
  }
  if (nm == "sa_assume_distinct") { return Val(); }
  if (nm == "sa_eq") { // (p, q, n, label)
    u64 p = cst(0), q = cst(1), n = cst(2); std::string label = str(3);
    ++n_checks; ++checkHits[label];
    for (u64 i = 0; i < n; ++i) {
      u32 pi, qi; u64 po, qo; std::string why;
      if (!accessOK(p + i, 1, 1, false, pi, po, why) || !accessOK(q + i, 1, 1, false, qi, qo, why)) throw Unsupported{"sa_eq range: " + why};
      Cell &cp = objs[pi]->cells[po], &cq = objs[qi]->cells[qo];
      const Instruction *wr = cp.wr;
      if (cp.n && cq.n && cp.v.k != K_IVL && cq.v.k != K_IVL) {
        Val x = cellbyte(pi, po), y = cellbyte(qi, qo);
        if (x.same(y)) continue;
        std::vector<Bit> bx = getbits(x), by = getbits(y);
        for (int j = 0; j < 8; ++j) { Bit d = bxor(bx[j], by[j]); checkZero("mismatch", label, d, "byte " + std::to_string(i) + " bit " + std::to_string(j) + " differs", wr); }
      } else if (cp.n && cp.n == cq.n && cp.idx == cq.idx && cp.v.p.p == cq.v.p.p) continue;
      else {
        Val x = cellbyte(pi, po), y = cellbyte(qi, qo);
        std::vector<Bit> bx = getbits(x), by = getbits(y);
        for (int j = 0; j < 8; ++j) { Bit d = bxor(bx[j], by[j]); checkZero("mismatch", label, d, "byte " + std::to_string(i) + " bit " + std::to_string(j) + " differs", wr); }
      }
    }
    return Val();
  }
  if (nm == "sa_true") { // (cond, label)
    std::string label = str(1);
    ++n_checks; ++checkHits[label];
    if (a[0].k == K_UNDEF) { report("uninit", label, curI, btrue(), "condition is undefined"); return Val(); }
    checkZero("false", label, bnot(getbit(a[0], 0)), "condition can be false", nullptr);
    return Val();
  }
  if (nm == "sa_reach") { ++n_checks; ++checkHits[str(0)]; return Val(); }
  if (nm == "sa_note") { notes[str(0)] += a[1].isc() ? a[1].c : 0; return Val(); }
  if (nm == "sa_isconst") { // (p,n): 1 if every byte is a known constant
    u64 p = cst(0), n = cst(1); bool r = true;
    for (u64 i = 0; i < n && r; ++i) { u32 id; u64 off; std::string why; if (!accessOK(p + i, 1, 1, false, id, off, why)) r = false; else r = objs[id]->cells[off].n && cellbyte(id, off).isc(); }
    return vconst(r, 1);
  }
  if (nm == "sa_maxperiod") { // (before, after, nbytes, nbits): after = A * before over GF(2); is ord(A) == 2^nbits - 1 ?
    u64 p = cst(0), q = cst(1), n = cst(2); unsigned nb = cst(3); std::string label = str(4);
    ++n_checks; ++checkHits[label];
    std::vector<Bit> in, out;
    const Instruction *wr = nullptr;
    for (u64 i = 0; i < n; ++i) for (int s = 0; s < 2; ++s) {
      u32 id; u64 off; std::string why;
      if (!accessOK((s ? q : p) + i, 1, 1, false, id, off, why)) throw Unsupported{"sa_maxperiod range"};
      if (s && objs[id]->cells[off].wr) wr = objs[id]->cells[off].wr;
      auto b = getbits(cellbyte(id, off));
      auto &dst = s ? out : in; dst.insert(dst.end(), b.begin(), b.end());
    }
    // state bits = bits of `in` that are symbols
    std::map<u32, int> symrow; std::vector<int> pos;
    for (size_t i = 0; i < in.size(); ++i) if (!in[i].isconst()) { if (in[i].f) throw Unsupported{"sa_maxperiod: state"}; symrow[in[i].id] = pos.size(); pos.push_back(i); }
    auto fail = [&](const std::string &d, bool def) { Report r; r.kind = "period"; r.label = label; r.detail = d; r.definite = def; std::ostringstream os; addScopes(wr, r, os); r.chain = os.str(); reports.push_back(r); };
    if (pos.size() != nb) { fail("state has " + std::to_string(pos.size()) + " free bits, expected " + std::to_string(nb), false); return Val(); }
    std::vector<BV> Mx(nb, BV((nb + 63) / 64));
    for (unsigned r = 0; r < nb; ++r) {
      Bit b = out[pos[r]];
      if (b.f) {
        // a non-linear bit: some combination of output bits that is not balanced proves the update is not a permutation
        std::vector<BV> ech; auto red = [&](BV v) { for (auto &e : ech) { size_t pi = 0; while (!e[pi]) ++pi; int pb = __builtin_ctzll(e[pi]); if (pi < v.size() && (v[pi] >> pb & 1)) { if (v.size() < e.size()) v.resize(e.size()); for (size_t i = 0; i < e.size(); ++i) v[i] ^= e[i]; } } while (!v.empty() && !v.back()) v.pop_back(); return v; };
        for (unsigned q2 = 0; q2 < nb; ++q2) { Bit l = out[pos[q2]]; if (l.f) continue; BV v = red(aff.forms[l.id]); if (!v.empty()) ech.push_back(v); }
        const std::vector<u32> at = bases.tab[b.f->basis].atoms; unsigned k = at.size();
        std::vector<int> W(1ull << k);
        for (u64 t = 0; t < W.size(); ++t) W[t] = (b.f->get(t) >> b.id & 1) ? -1 : 1;
        for (u64 h = 1; h < W.size(); h *= 2) for (u64 i = 0; i < W.size(); i += 2 * h) for (u64 j = i; j < i + h; ++j) { int x = W[j], y = W[j + h]; W[j] = x + y; W[j + h] = x - y; }
        for (u64 m = 0; m < W.size(); ++m) if (W[m]) {
          u32 id = b.ax; for (unsigned i = 0; i < k; ++i) if (m >> i & 1) id = aff.xr(id, at[i]);
          if (red(aff.forms[id]).empty()) { fail("a combination of the next state's bits is not balanced: different states have the same successor", true); return Val(); }
        }
        fail("state update is not GF(2)-linear", false); return Val();
      }
      if (b.neg) { fail("state update has a constant term: the zero state is not fixed", true); return Val(); }
      BV v = aff.forms[b.id];
      for (size_t x = 0; x < v.size(); ++x) { u64 y = v[x]; while (y) { int j = __builtin_ctzll(y); y &= y - 1; auto it = symrow.find(aff.sym(x * 64 + j)); if (it == symrow.end()) { fail("state update depends on something outside the state", true); return Val(); } Mx[r][it->second / 64] |= 1ull << (it->second % 64); } }
    }
    for (size_t i = 0; i < out.size(); ++i) if (in[i].isconst() && !out[i].isconst()) { fail("bits outside the state depend on it", true); return Val(); }
    size_t W = (nb + 63) / 64;
    auto mul = [&](const std::vector<BV> &A, const std::vector<BV> &B) { std::vector<BV> C(nb, BV(W)); for (unsigned r = 0; r < nb; ++r) for (unsigned k = 0; k < nb; ++k) if (A[r][k / 64] >> (k % 64) & 1) for (size_t x = 0; x < W; ++x) C[r][x] ^= B[k][x]; return C; };
    std::vector<BV> Id(nb, BV(W)); for (unsigned r = 0; r < nb; ++r) Id[r][r / 64] |= 1ull << (r % 64);
    // exponent arithmetic on big numbers: 2^nb-1 and its prime factors
    static const std::map<unsigned, std::vector<std::string>> fac = {
      {2, {"3"}}, {3, {"7"}}, {4, {"3", "5"}}, {5, {"31"}}, {6, {"3", "7"}}, {7, {"127"}}, {8, {"3", "5", "17"}}, {9, {"7", "73"}}, {10, {"3", "11", "31"}}, {11, {"23", "89"}}, {12, {"3", "5", "7", "13"}}, {13, {"8191"}}, {14, {"3", "43", "127"}}, {15, {"7", "31", "151"}}, {16, {"3", "5", "17", "257"}}, {17, {"131071"}}, {18, {"3", "7", "19", "73"}}, {19, {"524287"}}, {20, {"3", "5", "11", "31", "41"}},
      {21, {"7", "127", "337"}}, {22, {"3", "23", "89", "683"}}, {23, {"47", "178481"}}, {24, {"3", "5", "7", "13", "17", "241"}}, {31, {"2147483647"}},
      {32, {"3", "5", "17", "257", "65537"}}, {64, {"3", "5", "17", "257", "641", "65537", "6700417"}},
      {128, {"3", "5", "17", "257", "641", "65537", "274177", "6700417", "67280421310721"}},
      {160, {"3", "5", "11", "17", "31", "41", "257", "61681", "65537", "414721", "4278255361", "44479210368001"}},
      {192, {"3", "5", "7", "13", "17", "97", "193", "241", "257", "641", "673", "65537", "6700417", "22253377", "18446744069414584321"}}};
    auto fi = fac.find(nb);
    if (fi == fac.end()) throw Unsupported{"sa_maxperiod: factors"};
    auto pw = [&](std::vector<u32> e) { // big exponent, little endian 32-bit limbs
      std::vector<BV> R = Id, S = Mx; int top = -1; for (int i = (int)e.size() * 32 - 1; i >= 0; --i) if (e[i / 32] >> (i % 32) & 1) { top = i; break; }
      for (int i = 0; i <= top; ++i) { if (e[i / 32] >> (i % 32) & 1) R = mul(R, S); S = mul(S, S); } return R; };
    std::vector<u32> full((nb + 31) / 32, 0xffffffffu); if (nb % 32) full.back() = (1u << (nb % 32)) - 1;
    if (pw(full) != Id) { fail("A^(2^" + std::to_string(nb) + "-1) is not the identity", true); return Val(); }
    for (auto &fs : fi->second) {
      unsigned __int128 d = 0; for (char c : fs) d = d * 10 + (c - '0');
      std::vector<u32> qv(full.size()); unsigned __int128 rem = 0;
      for (int i = (int)full.size() - 1; i >= 0; --i) { rem = (rem << 32) | full[i]; qv[i] = (u32)(rem / d); rem %= d; }
      if (rem) throw Unsupported{"sa_maxperiod: bad factor " + fs};
      if (pw(qv) == Id) { fail("period divides (2^" + std::to_string(nb) + "-1)/" + fs, true); return Val(); }
    }
    return Val();
  }
  if (nm == "__assert_fail" || nm == "__assert_rtn" || nm == "abort" || nm == "_ZSt9terminatev" || nm == "exit" || nm == "__assert") {
    std::string msg = nm == "__assert_fail" ? str(0) : nm;
    report("assert", "assertion can fail", curI, btrue(), msg);
    dead = true;
    return Val();
  }
  if (F->getName().starts_with("_ZSt") && F->getName().contains("__throw_") || nm == "__cxa_throw" || nm == "__cxa_throw_bad_array_new_length" || nm == "__cxa_pure_virtual") {
    report("assert", "exception can be thrown", curI, btrue(), nm);
    dead = true;
    return Val();
  }
  if (nm == "_Znwm" || nm == "_Znam" || nm == "malloc" || nm == "calloc" || nm == "_ZnwmSt11align_val_t" || nm == "aligned_alloc" || nm == "_ZnamSt11align_val_t" || nm == "_ZnwmRKSt9nothrow_t" || nm == "_ZnamRKSt9nothrow_t" || nm == "_ZnwmSt11align_val_tRKSt9nothrow_t" || nm == "_ZnamSt11align_val_tRKSt9nothrow_t") {
    notes["heap allocations"]++;
    u64 sz = nm == "aligned_alloc" ? cst(1) : nm == "calloc" ? cst(0) * cst(1) : cst(0), al = nm == "aligned_alloc" ? cst(0) : F->getName().contains("align_val_t") ? cst(1) : 16;
    u32 id = newobj(sz, al, "heap");
    if (nm == "calloc") for (u64 i = 0; i < sz; ++i) storeN(vconst(objs[id]->base + i, 64), vconst(0, 8), 1, 1);
    return vconst(objs[id]->base, 64);
  }
  if (nm == "strlen") { u64 n = 0; for (;; ++n) { Val c = loadN(addv(a[0], n), 1, 1); if (!c.isc()) throw Unsupported{"strlen of unknown text"}; if (!c.c) break; } return vconst(n, 64); }
  if (nm == "_ZdlPv" || nm == "_ZdaPv" || nm == "_ZdlPvm" || nm == "_ZdaPvm" || nm == "free" || nm == "_ZdlPvRKSt9nothrow_t" || nm == "_ZdaPvRKSt9nothrow_t" || nm == "_ZdaPvmSt11align_val_t" || nm == "_ZdlPvmSt11align_val_t" || nm == "_ZdlPvSt11align_val_t" || nm == "_ZdaPvSt11align_val_t") {
    u64 off; if (cst(0)) { Obj *o = findobj(cst(0), off); if (!o || o->dead || off) report("memory", "invalid free", curI, btrue(), ""); else if (!journalDepth) { o->dead = true; o->cells.clear(); } }
    return Val();
  }
  if (nm == "memcpy" || nm == "memmove") { copyMem(a[0], a[1], cst(2)); return a[0]; }
  if (nm == "memset") { Val b = slicev(a[1], 0, 8); for (u64 i = 0; i < cst(2); ++i) storeN(addv(a[0], i), b, 1, 1); return a[0]; }
  if (nm == "memcmp" || nm == "bcmp") {
    u64 n = cst(2); Val r = vconst(0, 32);
    for (u64 i = n; i-- > 0;) {
      Val x = loadN(addv(a[0], i), 1, 1), y = loadN(addv(a[1], i), 1, 1);
      Val e = apply(O_EQ, 1, 8, {x, y});
      Val d = apply(O_SUB, 32, 32, {apply(O_ZEXT, 32, 8, {x}), apply(O_ZEXT, 32, 8, {y})});
      r = vite(getbit(e, 0), r, d);
    }
    return r;
  }
  static const std::map<std::string, int> libm = {{"exp", O_EXP}, {"expf", O_EXP}, {"log", O_LOG}, {"logf", O_LOG}, {"log2", O_LOG2}, {"log2f", O_LOG2}, {"pow", O_POW}, {"powf", O_POW}, {"sqrt", O_SQRT}, {"sqrtf", O_SQRT}, {"sin", O_SIN}, {"cos", O_COS}, {"tanh", O_TANH}, {"tanhf", O_TANH}, {"atanh", O_ATANH}, {"fmod", O_FREM}, {"fabs", O_FABS}, {"rint", O_RINT}, {"nearbyint", O_RINT}, {"nearbyintf", O_RINT}, {"round", O_ROUND}, {"floor", O_FLOOR}, {"ceil", O_CEIL}, {"rintf", O_RINT}, {"roundf", O_ROUND}, {"floorf", O_FLOOR}, {"ceilf", O_CEIL}, {"trunc", O_TRUNCF}, {"truncf", O_TRUNCF}, {"fabsf", O_FABS}, {"sinf", O_SIN}, {"cosf", O_COS}, {"fmodf", O_FREM}, {"atanhf", O_ATANH}, {"fmax", O_FMAXNUM}, {"fmaxf", O_FMAXNUM}, {"fmin", O_FMINNUM}, {"fminf", O_FMINNUM}, {"copysign", O_COPYSIGN}, {"copysignf", O_COPYSIGN}};
  auto lm = libm.find(nm);
  if (lm != libm.end()) { unsigned w = ew(); return apply(lm->second, w, w, a); }
  if (nm == "ldexp" || nm == "ldexpf" || nm == "scalbn" || nm == "scalbnf") {
    double f = std::ldexp(1.0, (int32_t)cst(1)); float ff = (float)f; u64 c = 0; u32 c32;
    if (ew() == 64) __builtin_memcpy(&c, &f, 8); else { __builtin_memcpy(&c32, &ff, 4); c = c32; }
    return apply(O_FMUL, ew(), ew(), {a[0], vconst(c, ew())});
  }
  if (nm == "exp2" || nm == "exp2f") {
    u64 c = ew() == 64 ? 0x4000000000000000ull : 0x40000000ull;
    return apply(O_POW, ew(), ew(), {vconst(c, ew()), a[0]});
  }
  if (nm == "hypot" || nm == "hypotf") return apply(O_SQRT, ew(), ew(), {apply(O_FADD, ew(), ew(), {apply(O_FMUL, ew(), ew(), {a[0], a[0]}), apply(O_FMUL, ew(), ew(), {a[1], a[1]})})});
  if (nm == "lround" || nm == "lroundf" || nm == "llround" || nm == "llroundf" || nm == "lrint" || nm == "lrintf" || nm == "llrint" || nm == "llrintf") {
    unsigned w = nm.back() == 'f' ? 32 : 64;
    return apply(O_FPTOSI, 64, w, {apply(nm.find("round") != std::string::npos ? O_ROUND : O_RINT, w, w, a)});
  }
  if (nm == "__cxa_guard_acquire") { Val g = loadN(a[0], 1, 1); return apply(O_ZEXT, 32, 1, {apply(O_EQ, 1, 8, {g, vconst(0, 8)})}); }
  if (nm == "__cxa_guard_release") { storeN(a[0], vconst(1, 8), 1, 1); return Val(); }
  if (nm == "__cxa_atexit" || nm == "atexit") return vconst(0, 32);
  throw Unsupported{"external function " + nm};
}
