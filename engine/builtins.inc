// Builtin operations: engine API, memory primitives, arithmetic intrinsics.
static std::string cstr(State &s, uint64_t a, size_t max = 4096) { std::string r; for (size_t i = 0; i < max; ++i) { SymByte sb; uint8_t c; bool in; if (s.mem.rdByte(a + i, sb, c, in) != M_OK || sb.e || !c) break; r += (char)c; } return r; }
#define BF(n) static BR n(Exec &X, State &s, const CallT &c, Val *a, Val *ret)
static uint32_t tiSel(uint64_t ad) { return ((ad >> 32) == R_RW ? 0x40000000u : 0u) | (uint32_t)(ad & 0x3fffffff); }

// find or create the symbol for the n-th input of a path
static std::unordered_map<std::string, E> gInputSyms;
static E inputSym(State &s, const std::string &name, unsigned w) {
  std::string key = name + "@" + std::to_string(s.inputs.size()) + ":" + std::to_string(w);
  auto it = gInputSyms.find(key); if (it != gInputSyms.end()) return it->second;
  E e = mkSym(name, w); gInputSyms[key] = e; return e;
}
BF(b_sym) { std::string n = cstr(s, a[0].c); unsigned w = a[1].c; E e = inputSym(s, n, w); s.inputs.push_back({n, (uint8_t)w, e, 0}); ret[0] = fromE(mkZext(e, 64)); return B_OK; }
static BR choice(Exec &X, State &s, const std::string &n, uint64_t k, Val *ret, bool shard) {
  // forked states re-execute the call with the choice recorded
  std::vector<uint64_t> opts; if (s.shRank < 0) { s.shRank = O.shard; s.shN = O.nshards; }
  if (!shard || s.shN == 1) { for (uint64_t i = 0; i < k; ++i) opts.push_back(i); }
  else if ((int)k >= s.shN) { for (uint64_t i = 0; i < k; ++i) if ((int)(i % s.shN) == s.shRank) opts.push_back(i); s.shRank = 0; s.shN = 1; }
  else { int i = s.shRank % (int)k; opts.push_back(i); s.shRank /= (int)k; s.shN = (s.shN - i + (int)k - 1) / (int)k; }
  if (opts.empty()) { X.assumesKilled++; return B_DEAD; }
  for (size_t i = opts.size(); i-- > 1;) { // continue past the call in each clone
    State *m = X.clone(s); m->inputs.push_back({n, 32, nullptr, opts[i]}); m->note = "";
    Frame &f = m->frames.back(); DInst &ci = f.f->code[f.pc]; CallT &ct = f.f->calls[ci.aux];
    m->regs[f.base + ci.dst] = Val{opts[i], nullptr};
    if (ct.normalEdge >= 0) takeEdge(*m, f, f.f->edges[ct.normalEdge]); else f.pc++;
    X.push(m);
  }
  s.inputs.push_back({n, 32, nullptr, opts[0]}); ret[0] = Val{opts[0], nullptr}; return B_OK;
}
BF(b_choice) { return choice(X, s, cstr(s, a[0].c), a[1].c, ret, false); }
BF(b_shard_choice) { return choice(X, s, cstr(s, a[0].c), a[1].c, ret, true); }
BF(b_assume) {
  if (!a[0].e) { if (a[0].c) return B_OK; X.assumesKilled++; return B_DEAD; }
  if (evalE(a[0].e, *s.model)) { X.addCons(s, a[0].e); return B_OK; }
  ModelP m; SatR r = X.sat(s, a[0].e, &m); if (r == S_UNKNOWN) X.incomplete++;
  if (r != S_SAT) { X.assumesKilled++; return B_DEAD; }
  s.model = m; X.addCons(s, a[0].e); return B_OK;
}
static BR doAssert(Exec &X, State &s, Val v, const std::string &id) {
  X.assertIds[id]++; X.assertsChecked++;
  if (!v.e) { X.assertsConst++; if (v.c) return B_OK; X.addViol(s, *s.model, "assert", id, "assertion fails on this path"); return B_DEAD; }
  E ne = mkNot(v.e); ModelP m; gStats.assertQueries++;
  if (evalE(ne, *s.model)) { X.addViol(s, *s.model, "assert", id, "assertion can fail"); }
  else {
    SatR r = checkSat(s.pc, ne, *s.model, &m, true);
    if (r == S_UNSAT) return B_OK;
    if (r == S_UNKNOWN) { X.incomplete++; X.solverUnknown++; return B_OK; }
    X.addViol(s, *m, "assert", id, "assertion can fail");
  }
  // continue with the inputs for which it holds
  if (evalE(v.e, *s.model)) { X.addCons(s, v.e); return B_OK; }
  SatR r = X.sat(s, v.e, &m); if (r != S_SAT) return B_DEAD; s.model = m; X.addCons(s, v.e); return B_OK;
}
BF(b_assert) { return doAssert(X, s, a[0], cstr(s, a[1].c)); }
// vs_known(ok, id, region, finding): ok must hold outside region; a failure inside region is reported as the known finding
BF(b_known) {
  std::string id = cstr(s, a[1].c), fd = cstr(s, a[3].c); E ok = toE(a[0], 1), rg = toE(a[2], 1);
  E bad = mkAnd(rg, mkNot(ok)); ModelP m;
  if (!(isC(bad) && !bad->aux)) { if (X.knownHits.find(fd) == X.knownHits.end()) { SatR r = checkSat(s.pc, bad, *s.model, &m); if (r == S_SAT) { X.knownHits[fd] = id; Viol v = X.mkViol(s, *m, "known", fd, id); X.knownViols.push_back(v); } } }
  return doAssert(X, s, fromE(mkOr(ok, rg)), id);
}
BF(b_observe) { s.obs.push_back({nullptr, a[1], 64}); static std::set<std::string> names; s.obs.back().label = names.insert(cstr(s, a[0].c)).first->c_str(); return B_OK; }
BF(b_reach) { std::string n = cstr(s, a[0].c); if (std::find(s.reached.begin(), s.reached.end(), n) == s.reached.end()) s.reached.push_back(n); return B_OK; }
BF(b_live) { ret[0] = Val{s.liveBytes, nullptr}; return B_OK; }
BF(b_livecount) { ret[0] = Val{s.liveCount, nullptr}; return B_OK; }
BF(b_isconc) { ret[0] = Val{(uint64_t)(a[0].e == nullptr || s.known.count(a[0].e)), nullptr}; return B_OK; }
// k may be symbolic: one path without a failure (k = 0), and one for every allocation that is reached (k = its number)
BF(b_failalloc) {
  if (!a[0].e) { if (s.failK) { X.assumesKilled++; return B_DEAD; } s.failAt = a[0].c; s.failCount = 0; return B_OK; } // k beyond the last allocation: the same run as k = 0
  E z = mkEq(a[0].e, mkConst(0, a[0].e->w)); bool none = X.decide(s, z); s.failAt = 0; s.failCount = 0; s.failK = none ? nullptr : a[0].e; s.failNow = false; return B_OK;
}
BF(b_failcount) { ret[0] = Val{s.failCount, nullptr}; return B_OK; }
BF(b_maxdepth) { s.maxDepth = s.frames.size() + a[0].c; return B_OK; }
BF(b_nouninit) { s.noUninit = a[0].c; return B_OK; }
BF(b_conc) { uint64_t v; X.conc(s, a[0], 64, v); ret[0] = Val{v, nullptr}; return B_OK; }
BF(b_fail) { X.fail(s, cstr(s, a[0].c), cstr(s, a[0].c)); return B_DEAD; }
BF(b_exit) { X.assumesKilled++; return B_DEAD; }
BF(b_fmtsym) { X.fmtSym++; return B_OK; }
BF(b_debug) { fprintf(stderr, "[vs] %s %s\n", cstr(s, a[0].c).c_str(), a[1].e ? showE(a[1].e).c_str() : std::to_string(a[1].c).c_str()); return B_OK; }
BF(b_trace) { fprintf(stderr, "[trace] %s\n", X.where(s).c_str()); return B_OK; }

BF(b_malloc) { // __vs_malloc(size, kind); returns 0 when this allocation is made to fail
  uint64_t n; X.conc(s, a[0], 64, n); unsigned k = a[1].c;
  if (s.failK && (k == 2 || k == 3)) {
    s.failCount++;
    if (s.failNow) { s.failK = nullptr; s.failNow = false; ret[0] = Val{0, nullptr}; return B_OK; }
    E eq = mkEq(s.failK, mkConst(s.failCount, s.failK->w)); ModelP m; SatR r = X.sat(s, eq, &m); if (r == S_UNKNOWN) X.incomplete++;
    if (r == S_SAT) { State *f = X.clone(s); f->model = m; X.addCons(*f, eq); f->failCount--; f->failNow = true; X.push(f); }
  }
  if (s.failAt && (k == 2 || k == 3)) { s.failCount++; if (s.failCount == s.failAt) { s.failAt = 0; ret[0] = Val{0, nullptr}; return B_OK; } }
  if (n > (256u << 20)) { ret[0] = Val{0, nullptr}; return B_OK; }
  ret[0] = Val{heapAlloc(s, n, k), nullptr}; return B_OK;
}
BF(b_free) { // __vs_free(ptr, kind)
  uint64_t p; if (a[0].e && X.undefDependent(s, a[0].e)) { X.fail(s, "uninit", "free of an uninitialised pointer"); return B_DEAD; }
  X.conc(s, a[0], 64, p); if (!p) return B_OK;
  HeapHdr h; if ((p >> 32) != R_HEAP) { X.fail(s, "free", "free of a non-heap address " + describeAddr(s, p)); return B_DEAD; }
  s.mem.rawR(p - HDR, &h, sizeof h);
  if (h.magic == 0x44454144) { X.fail(s, "free", "double free"); return B_DEAD; }
  if (h.magic != 0x4C495645 || (p & 15)) { X.fail(s, "free", "free of an address that is not the start of an allocation: " + describeAddr(s, p)); return B_DEAD; }
  if (h.kind != a[1].c) { X.fail(s, "free", "allocation and deallocation functions do not match"); return B_DEAD; }
  uint64_t dead = 0x44454144; s.mem.rawW(p - HDR, &dead, 8); s.mem.mark(p, h.size ? h.size : 1, false, false); s.liveBytes -= h.size; s.liveCount--; return B_OK;
}
BF(b_allocsize) { HeapHdr h; s.mem.rawR(a[0].c - HDR, &h, sizeof h); ret[0] = Val{h.magic == 0x4C495645 ? h.size : 0, nullptr}; return B_OK; }
BF(b_unwind) { return X.unwind(s, a[0].c) ? B_JUMPED : B_DEAD; }
BF(b_typeid) { ret[0] = Val{tiSel(a[0].c), nullptr}; return B_OK; }

static BR memcheck(Exec &X, State &s, uint64_t p, uint64_t n, bool wr) {
  if (n && wr && (p >> 32) == R_RO) { X.fail(s, "memory", "write to read-only memory"); return B_DEAD; }
  if (!s.mem.validRange(p, n)) { uint64_t q = p; while (s.mem.validRange(q, 1) && q < p + n) ++q; X.fail(s, "memory", std::string("invalid ") + (wr ? "write" : "read") + " in block operation of " + std::to_string(n) + " bytes: " + describeAddr(s, q)); return B_DEAD; }
  return B_OK;
}
BF(b_memcpy) {
  uint64_t d, p, n; X.conc(s, a[2], 64, n); X.conc(s, a[0], 64, d); X.conc(s, a[1], 64, p); ret[0] = Val{d, nullptr};
  if (!n) return B_OK; if (memcheck(X, s, p, n, false) || memcheck(X, s, d, n, true)) return B_DEAD;
  s.mem.copy(d, p, n); return B_OK;
}
BF(b_memset) {
  uint64_t d, n; X.conc(s, a[2], 64, n); X.conc(s, a[0], 64, d); ret[0] = Val{d, nullptr}; if (!n) return B_OK; if (memcheck(X, s, d, n, true)) return B_DEAD;
  Val v = a[1]; if (v.e) v = fromE(mkExtract(v.e, 0, 8)); else v.c &= 255;
  if (!v.e) { for (uint64_t i = 0; i < n;) { if (((d + i) & 7) == 0 && n - i >= 8) { s.mem.store(d + i, 8, Val{v.c * 0x0101010101010101ull, nullptr}, 64); i += 8; } else { s.mem.store(d + i, 1, v, 8); ++i; } } }
  else for (uint64_t i = 0; i < n; ++i) s.mem.store(d + i, 1, v, 8);
  return B_OK;
}
static BR memcmpImpl(Exec &X, State &s, Val *a, Val *ret, bool eqOnly) {
  uint64_t p, q, n; X.conc(s, a[2], 64, n); X.conc(s, a[0], 64, p); X.conc(s, a[1], 64, q);
  if (!n) { ret[0] = Val{0, nullptr}; return B_OK; }
  if (memcheck(X, s, p, n, false) || memcheck(X, s, q, n, false)) return B_DEAD;
  if (eqOnly) {
    E eq = mkConst(1, 1);
    for (uint64_t i = 0; i < n; ++i) { Val x, y; bool dd; if (!X.loadVal(s, Val{p + i, nullptr}, 0, 1, 8, x, dd) || !X.loadVal(s, Val{q + i, nullptr}, 0, 1, 8, y, dd)) return B_DEAD; if (!x.e && !y.e) { if (x.c != y.c) { eq = mkConst(0, 1); break; } } else eq = mkAnd(eq, mkEq(toE(x, 8), toE(y, 8))); }
    ret[0] = fromE(mkZext(mkNot(eq), 32)); return B_OK;
  }
  std::vector<std::pair<E, E>> v; uint64_t i; E r = mkConst(0, 32);
  for (i = 0; i < n; ++i) { Val x, y; bool dd; if (!X.loadVal(s, Val{p + i, nullptr}, 0, 1, 8, x, dd) || !X.loadVal(s, Val{q + i, nullptr}, 0, 1, 8, y, dd)) return B_DEAD; if (!x.e && !y.e) { if (x.c != y.c) { r = mkConst(x.c < y.c ? -1 : 1, 32); break; } } else v.push_back({toE(x, 8), toE(y, 8)}); }
  for (size_t k = v.size(); k-- > 0;) r = mkIte(mkEq(v[k].first, v[k].second), r, mkIte(mk(O_ULT, 1, v[k].first, v[k].second), mkConst(-1, 32), mkConst(1, 32)));
  ret[0] = fromE(r); return B_OK;
}
BF(b_memcmp) { return memcmpImpl(X, s, a, ret, false); }
BF(b_bcmp) { return memcmpImpl(X, s, a, ret, true); }

// ---- arithmetic intrinsics
template <Op OP> static BR ovf(Exec &X, State &s, const CallT &c, Val *a, Val *ret, bool sgn) {
  unsigned w = c.argw[0]; E x = toE(a[0], w), y = toE(a[1], w); E r = mk(OP, w, x, y), o;
  if (OP == O_ADD) { if (!sgn) o = mk(O_ULT, 1, r, x); else { E z = mkConst(0, w); E sx = mk(O_SLT, 1, x, z), sy = mk(O_SLT, 1, y, z), sr = mk(O_SLT, 1, r, z); o = mkAnd(mkEq(sx, sy), mkNot(mkEq(sx, sr))); } }
  else if (OP == O_SUB) { if (!sgn) o = mk(O_ULT, 1, x, y); else { E z = mkConst(0, w); E sx = mk(O_SLT, 1, x, z), sy = mk(O_SLT, 1, y, z), sr = mk(O_SLT, 1, r, z); o = mkAnd(mkNot(mkEq(sx, sy)), mkNot(mkEq(sx, sr))); } }
  else o = mk(sgn ? O_SMULO : O_UMULO, 1, x, y);
  ret[0] = fromE(r); ret[1] = fromE(o); return B_OK;
}
BF(b_uaddo) { return ovf<O_ADD>(X, s, c, a, ret, false); } BF(b_saddo) { return ovf<O_ADD>(X, s, c, a, ret, true); }
BF(b_usubo) { return ovf<O_SUB>(X, s, c, a, ret, false); } BF(b_ssubo) { return ovf<O_SUB>(X, s, c, a, ret, true); }
BF(b_umulo) { return ovf<O_MUL>(X, s, c, a, ret, false); } BF(b_smulo) { return ovf<O_MUL>(X, s, c, a, ret, true); }
template <Op CMP, bool SWAP> static BR mm(const CallT &c, Val *a, Val *ret) { unsigned w = c.argw[0]; E x = toE(a[0], w), y = toE(a[1], w); E l = SWAP ? mk(CMP, 1, y, x) : mk(CMP, 1, x, y); ret[0] = fromE(mkIte(l, x, y)); return B_OK; }
BF(b_umin) { return mm<O_ULT, false>(c, a, ret); } BF(b_umax) { return mm<O_ULT, true>(c, a, ret); } BF(b_smin) { return mm<O_SLT, false>(c, a, ret); } BF(b_smax) { return mm<O_SLT, true>(c, a, ret); }
BF(b_uaddsat) { unsigned w = c.argw[0]; E x = toE(a[0], w), y = toE(a[1], w), r = mk(O_ADD, w, x, y); ret[0] = fromE(mkIte(mk(O_ULT, 1, r, x), mkConst(~0ull, w), r)); return B_OK; }
BF(b_usubsat) { unsigned w = c.argw[0]; E x = toE(a[0], w), y = toE(a[1], w), r = mk(O_SUB, w, x, y); ret[0] = fromE(mkIte(mk(O_ULT, 1, x, y), mkConst(0, w), r)); return B_OK; }
BF(b_abs) { unsigned w = c.argw[0]; E x = toE(a[0], w); ret[0] = fromE(mkIte(mk(O_SLT, 1, x, mkConst(0, w)), mk(O_SUB, w, mkConst(0, w), x), x)); return B_OK; }
BF(b_bswap) { unsigned w = c.argw[0]; E x = toE(a[0], w); E r = mkExtract(x, 0, 8); for (unsigned i = 1; i < w / 8; ++i) r = mkConcat(r, mkExtract(x, 8 * i, 8)); ret[0] = fromE(r); return B_OK; }
BF(b_ctpop) { unsigned w = c.argw[0]; if (!a[0].e) { ret[0] = Val{(uint64_t)__builtin_popcountll(a[0].c), nullptr}; return B_OK; } E r = mkConst(0, w); for (unsigned i = 0; i < w; ++i) r = mk(O_ADD, w, r, mkZext(mkExtract(a[0].e, i, 1), w)); ret[0] = fromE(r); return B_OK; }
BF(b_ctlz) { unsigned w = c.argw[0]; if (!a[0].e) { ret[0] = Val{a[0].c ? (uint64_t)__builtin_clzll(a[0].c) - (64 - w) : w, nullptr}; return B_OK; } E r = mkConst(w, w); for (unsigned i = 0; i < w; ++i) r = mkIte(mkExtract(a[0].e, i, 1), mkConst(w - 1 - i, w), r); ret[0] = fromE(r); return B_OK; }
BF(b_cttz) { unsigned w = c.argw[0]; if (!a[0].e) { ret[0] = Val{a[0].c ? (uint64_t)__builtin_ctzll(a[0].c) : w, nullptr}; return B_OK; } E r = mkConst(w, w); for (int i = w - 1; i >= 0; --i) r = mkIte(mkExtract(a[0].e, i, 1), mkConst(i, w), r); ret[0] = fromE(r); return B_OK; }
static BR fsh(const CallT &c, Val *a, Val *ret, bool left) { unsigned w = c.argw[0]; E n = mk(O_UREM, w, toE(a[2], w), mkConst(w, w)), x = toE(a[0], w), y = toE(a[1], w), k = mk(O_SUB, w, mkConst(w, w), n); E hi = left ? mk(O_SHL, w, x, n) : mk(O_SHL, w, x, k), lo = left ? mk(O_LSHR, w, y, k) : mk(O_LSHR, w, y, n); ret[0] = fromE(mk(O_OR, w, hi, lo)); return B_OK; }
BF(b_fshl) { return fsh(c, a, ret, true); } BF(b_fshr) { return fsh(c, a, ret, false); }
BF(b_first) { ret[0] = a[0]; return B_OK; } BF(b_nop) { ret[0] = Val{0, nullptr}; return B_OK; }
BF(b_objsize) { ret[0] = Val{maskw(c.retw), nullptr}; return B_OK; }
BF(b_isconst) { ret[0] = Val{0, nullptr}; return B_OK; }
BF(b_trap) { X.fail(s, "ub", "undefined behaviour (sanitizer trap " + std::to_string(c.args.empty() ? -1 : (int)a[0].c) + ")"); return B_DEAD; }
BF(b_ssave) { ret[0] = Val{s.sp, nullptr}; return B_OK; }
BF(b_srest) { if (a[0].c < s.sp) { s.mem.mark(a[0].c, s.sp - a[0].c, false, false); s.sp = a[0].c; } return B_OK; }
// ---- floating point
BF(b_fabs) { unsigned w = c.argw[0]; if (!a[0].e) ret[0] = Val{a[0].c & (maskw(w) >> 1), nullptr}; else ret[0] = fromE(mk(O_AND, w, a[0].e, mkConst(maskw(w) >> 1, w))); return B_OK; }
static BR rint_(const CallT &c, Val *a, Val *ret, unsigned rm) { unsigned w = c.argw[0]; ret[0] = fromE(mk(O_FRINT, w, toE(a[0], w), nullptr, nullptr, rm)); return B_OK; }
BF(b_floor) { return rint_(c, a, ret, RM_RTN); } BF(b_ceil) { return rint_(c, a, ret, RM_RTP); } BF(b_ftrunc) { return rint_(c, a, ret, RM_RTZ); } BF(b_rint) { return rint_(c, a, ret, RM_RNE); } BF(b_round) { return rint_(c, a, ret, RM_RNA); }
BF(b_sqrt) { unsigned w = c.argw[0]; ret[0] = fromE(mk(O_FSQRT, w, toE(a[0], w))); return B_OK; }
BF(b_fmod) { unsigned w = c.argw[0]; ret[0] = fromE(mk(O_FREM, w, toE(a[0], w), toE(a[1], w))); return B_OK; }
BF(b_remainder) { unsigned w = c.argw[0]; ret[0] = fromE(mk(O_FREMAINDER, w, toE(a[0], w), toE(a[1], w))); return B_OK; }
BF(b_fmuladd) { unsigned w = c.argw[0]; if (a[0].e || a[1].e || a[2].e) { ret[0] = fromE(mk(O_FADD, w, mk(O_FMUL, w, toE(a[0], w), toE(a[1], w)), toE(a[2], w))); return B_OK; } ret[0] = Val{evalOp(O_FADD, w, w, 0, evalOp(O_FMUL, w, w, 0, a[0].c, a[1].c, 0), a[2].c, 0), nullptr}; return B_OK; }
BF(b_copysign) { unsigned w = c.argw[0]; uint64_t sg = 1ull << (w - 1); ret[0] = fromE(mk(O_OR, w, mk(O_AND, w, toE(a[0], w), mkConst(~sg & maskw(w), w)), mk(O_AND, w, toE(a[1], w), mkConst(sg, w)))); return B_OK; }
BF(b_modf) { // modf(double, double*)
  uint64_t p; X.conc(s, a[1], 64, p); E x = toE(a[0], 64); E ip = mk(O_FRINT, 64, x, nullptr, nullptr, RM_RTZ);
  E inf = mkEq(mk(O_AND, 64, x, mkConst(0x7fffffffffffffffull, 64)), mkConst(0x7ff0000000000000ull, 64)); E sg = mk(O_AND, 64, x, mkConst(1ull << 63, 64));
  E fr = mkIte(inf, sg, mk(O_OR, 64, mk(O_AND, 64, mk(O_FSUB, 64, x, ip), mkConst(0x7fffffffffffffffull, 64)), sg));
  if (s.mem.store(p, 8, fromE(ip), 64) != M_OK) { X.fail(s, "memory", "modf result pointer"); return B_DEAD; }
  ret[0] = fromE(fr); return B_OK;
}
BF(b_isfpclass) {
  unsigned w = c.argw[0], mb = w == 64 ? 52 : 23, eb = w == 64 ? 11 : 8; uint64_t m = a[1].c; E x = toE(a[0], w);
  E man = mkExtract(x, 0, mb), ex = mkExtract(x, mb, eb), sg = mkExtract(x, w - 1, 1); E mz = mkEq(man, mkConst(0, mb)), ea = mkEq(ex, mkConst(~0ull, eb)), ez = mkEq(ex, mkConst(0, eb)); E q = mkExtract(x, mb - 1, 1);
  E nan = mkAnd(ea, mkNot(mz)), inf = mkAnd(ea, mz), zero = mkAnd(ez, mz), sub = mkAnd(ez, mkNot(mz)), nor = mkAnd(mkNot(ea), mkNot(ez)); E r = mkConst(0, 1);
  auto add = [&](int bit, E e) { if (m >> bit & 1) r = mkOr(r, e); };
  add(0, mkAnd(nan, mkNot(q))); add(1, mkAnd(nan, q)); add(2, mkAnd(inf, sg)); add(3, mkAnd(nor, sg)); add(4, mkAnd(sub, sg)); add(5, mkAnd(zero, sg)); add(6, mkAnd(zero, mkNot(sg))); add(7, mkAnd(sub, mkNot(sg))); add(8, mkAnd(nor, mkNot(sg))); add(9, mkAnd(inf, mkNot(sg)));
  ret[0] = fromE(r); return B_OK;
}
template <double (*F)(double)> static BR cfun(Exec &X, State &s, const CallT &c, Val *a, Val *ret) { if (a[0].e) { uint64_t v; X.conc(s, a[0], 64, v); a[0] = Val{v, nullptr}; } double d; memcpy(&d, &a[0].c, 8); d = F(d); uint64_t r; memcpy(&r, &d, 8); ret[0] = Val{r, nullptr}; return B_OK; }
BF(b_pow) { if (a[0].e || a[1].e) { X.unsupported(s, "symbolic pow"); return B_DEAD; } double x, y; memcpy(&x, &a[0].c, 8); memcpy(&y, &a[1].c, 8); x = pow(x, y); memcpy(&ret[0].c, &x, 8); return B_OK; }
// snprintf with concrete arguments
BF(b_snprintf) {
  std::string fmt = cstr(s, a[2].c), out; size_t ai = 3;
  for (size_t i = 0; i < fmt.size(); ++i) {
    if (fmt[i] != '%') { out += fmt[i]; continue; }
    if (fmt[i + 1] == '%') { out += '%'; ++i; continue; }
    std::string sp = "%"; ++i; while (i < fmt.size() && strchr("-+ #0123456789.*lhzjtL", fmt[i])) { if (fmt[i] == '*') { sp += std::to_string((int)a[ai++].c); } else sp += fmt[i]; ++i; }
    char cv = fmt[i]; sp += cv; char b[512]; Val v = a[ai++];
    if (v.e) { X.fmtSym++; out += "0"; continue; }
    if (cv == 's') out += cstr(s, v.c); else if (strchr("feEgGa", cv)) { double d; memcpy(&d, &v.c, 8); snprintf(b, sizeof b, sp.c_str(), d); out += b; } else { if (sp.find('l') != std::string::npos || sp.find('z') != std::string::npos || cv == 'p') snprintf(b, sizeof b, sp.c_str(), v.c); else snprintf(b, sizeof b, sp.c_str(), (int)v.c); out += b; }
  }
  uint64_t n = a[1].c; for (size_t i = 0; i < out.size() + 1 && i < n; ++i) { uint8_t ch = i == out.size() || i + 1 == n ? 0 : out[i]; if (s.mem.store(a[0].c + i, 1, Val{ch, nullptr}, 8) != M_OK) { X.fail(s, "memory", "snprintf buffer"); return B_DEAD; } }
  ret[0] = Val{out.size(), nullptr}; return B_OK;
}
// exact conversion of a double to/from text for concrete arguments: __vs_fmt_double(buf, n, fmtkind, d), __vs_parse_double(str, len, *out)
BF(b_fmtdouble) { if (a[3].e) { ret[0] = Val{0, nullptr}; return B_OK; } double d; memcpy(&d, &a[3].c, 8); char b[400]; const char *f = a[2].c == 0 ? "%f" : "%.17g"; int n = snprintf(b, sizeof b, f, d); for (int i = 0; i <= n && i < (int)a[1].c; ++i) s.mem.store(a[0].c + i, 1, Val{(uint8_t)b[i], nullptr}, 8); ret[0] = Val{(uint64_t)n, nullptr}; return B_OK; }
BF(b_parsedouble) { // decimal text already known to be well formed; all bytes concrete
  std::string t; for (uint64_t i = 0; i < a[1].c; ++i) { SymByte sb; uint8_t ch; bool in; if (s.mem.rdByte(a[0].c + i, sb, ch, in) != M_OK || sb.e) { ret[0] = Val{0, nullptr}; return B_OK; } t += (char)ch; }
  double d = strtod(t.c_str(), nullptr); uint64_t u; memcpy(&u, &d, 8); s.mem.store(a[2].c, 8, Val{u, nullptr}, 64); ret[0] = Val{1, nullptr}; return B_OK; }

static const Builtin builtinTable[] = {
  {"vs_sym", b_sym}, {"vs_choice", b_choice}, {"vs_shard_choice", b_shard_choice}, {"vs_assume", b_assume}, {"vs_assert", b_assert}, {"vs_known", b_known}, {"vs_observe", b_observe}, {"vs_reach", b_reach}, {"vs_live", b_live}, {"vs_live_count", b_livecount}, {"vs_is_concrete", b_isconc}, {"vs_fail_alloc", b_failalloc}, {"vs_alloc_count", b_failcount}, {"vs_max_depth", b_maxdepth}, {"vs_no_uninit", b_nouninit}, {"vs_concretize", b_conc}, {"vs_debug", b_debug}, {"vs_trace", b_trace},
  {"__vs_fail", b_fail}, {"__vs_exit", b_exit}, {"__vs_fmtsym", b_fmtsym}, {"__vs_malloc", b_malloc}, {"__vs_free", b_free}, {"__vs_alloc_size", b_allocsize}, {"__vs_unwind", b_unwind}, {"__vs_fmt_double", b_fmtdouble}, {"__vs_parse_double", b_parsedouble},
  {"memcpy", b_memcpy}, {"memmove", b_memcpy}, {"memset", b_memset}, {"memcmp", b_memcmp}, {"bcmp", b_bcmp},
  {"llvm.memcpy", b_memcpy}, {"llvm.memmove", b_memcpy}, {"llvm.memset", b_memset}, {"llvm.memcpy.inline", b_memcpy}, {"llvm.memset.inline", b_memset},
  {"llvm.eh.typeid.for", b_typeid}, {"llvm.uadd.with.overflow", b_uaddo}, {"llvm.sadd.with.overflow", b_saddo}, {"llvm.usub.with.overflow", b_usubo}, {"llvm.ssub.with.overflow", b_ssubo}, {"llvm.umul.with.overflow", b_umulo}, {"llvm.smul.with.overflow", b_smulo},
  {"llvm.umin", b_umin}, {"llvm.umax", b_umax}, {"llvm.smin", b_smin}, {"llvm.smax", b_smax}, {"llvm.uadd.sat", b_uaddsat}, {"llvm.usub.sat", b_usubsat}, {"llvm.abs", b_abs}, {"llvm.bswap", b_bswap}, {"llvm.ctpop", b_ctpop}, {"llvm.ctlz", b_ctlz}, {"llvm.cttz", b_cttz}, {"llvm.fshl", b_fshl}, {"llvm.fshr", b_fshr},
  {"llvm.expect", b_first}, {"llvm.launder.invariant.group", b_first}, {"llvm.strip.invariant.group", b_first}, {"llvm.threadlocal.address", b_first}, {"llvm.objectsize", b_objsize}, {"llvm.is.constant", b_isconst}, {"llvm.trap", b_trap}, {"llvm.ubsantrap", b_trap}, {"llvm.stacksave", b_ssave}, {"llvm.stackrestore", b_srest}, {"llvm.assume", b_nop}, {"llvm.va_start", b_nop}, {"llvm.va_end", b_nop},
  {"llvm.fabs", b_fabs}, {"llvm.floor", b_floor}, {"llvm.ceil", b_ceil}, {"llvm.trunc", b_ftrunc}, {"llvm.rint", b_rint}, {"llvm.nearbyint", b_rint}, {"llvm.round", b_round}, {"llvm.sqrt", b_sqrt}, {"llvm.fmuladd", b_fmuladd}, {"llvm.copysign", b_copysign}, {"llvm.is.fpclass", b_isfpclass},
  {"fabs", b_fabs}, {"floor", b_floor}, {"ceil", b_ceil}, {"trunc", b_ftrunc}, {"rint", b_rint}, {"nearbyint", b_rint}, {"round", b_round}, {"sqrt", b_sqrt}, {"fmod", b_fmod}, {"remainder", b_remainder}, {"modf", b_modf}, {"copysign", b_copysign}, {"log10", cfun<log10>}, {"log2", cfun<log2>}, {"log", cfun<log>}, {"exp", cfun<exp>}, {"pow", b_pow}, {"snprintf", b_snprintf},
};
