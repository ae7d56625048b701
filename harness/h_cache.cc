// Monitors over the cache of packed operands.
//   mode seq   : results with caching compared bit for bit with an uncached
//                twin over histories of views of shared buffers (P10)
//   mode big   : same with entries large enough to be evicted under the real
//                limit; content of the cache compared with an LRU model (P10,
//                P11)
//   mode model : the cache class itself against an LRU model, memory observed
//                at the system allocation functions (P11)
#include <algorithm>
#include <list>
#include <map>
#include <tuple>

#include "ctxutil.h"
#include "problem.h"
#include "ruy/mat.h"
#include "ruy/prepacked_cache.h"
#include "ruy/trmul_params.h"
#include "sysalloc.h"
#include "vf.h"
#include "wrap.h"

using namespace vf;

namespace {

// ------------------------------------------------------------------- seq
struct Shared {
  std::vector<float> f;
  std::vector<double> d;
  std::vector<std::uint8_t> b;
  std::vector<std::int16_t> s;
  bool maybe_cached[4] = {false, false, false, false};
};
int ClassOf(T t) { return t == T::f32 ? 0 : t == T::f64 ? 1 : t == T::i16 ? 3 : 2; }

void Scramble(Rng& rng, Shared* sh, int cls, int lo, int hi) {
  for (int i = lo; i < hi; i++) {
    switch (cls) {
      case 0: sh->f[i] = static_cast<float>(rng.unit() * 2 - 1); break;
      case 1: sh->d[i] = rng.unit() * 2 - 1; break;
      case 2: sh->b[i] = static_cast<std::uint8_t>(rng.u64()); break;
      default: sh->s[i] = static_cast<std::int16_t>(rng.range(-900, 900)); break;
    }
  }
}

const int kN = 40000;

void MakeView(Rng& rng, Shared* cacheable, Shared* uncached, T t, int rows, int cols, bool zero_zp, MatSpec* m) {
  m->type = t;
  m->rows = rows;
  m->cols = cols;
  m->order = rng.range(0, 1);
  const int inner = m->order == kColMajor ? rows : cols;
  m->stride = inner + rng.pick({0, 0, 0, 1, 3});
  if (rng.chance(1, 4)) m->stride = std::max(inner, std::max(rows, cols));
  m->zp = 0;
  if (!zero_zp && t == T::i8) m->zp = rng.pick({0, 0, -5, 7, 100});
  if (!zero_zp && t == T::u8) m->zp = rng.pick({128, 128, 123, 135, 0, 7, 100, 228});
  const int off = rng.pick({0, 0, 0, 0, 1, 8, 64});
  Shared* sh = rng.chance(1, 4) ? uncached : cacheable;
  switch (ClassOf(t)) {
    case 0: m->data = sh->f.data() + off; break;
    case 1: m->data = sh->d.data() + off; break;
    case 2: m->data = sh->b.data() + off; break;
    default: m->data = sh->s.data() + off; break;
  }
  if (off + m->Extent() > kN) HarnessError("view does not fit");
  m->cache_policy = sh == uncached ? 0 : rng.pick({0, 1, 2, 3, 3, 3});
}

std::string ViewText(const MatSpec& m) {
  char b[200];
  snprintf(b, sizeof b, "%s %dx%d%sstride %d zp %d policy %d", Name(m.type), m.rows, m.cols, m.order == kColMajor ? " column-major " : " row-major ",
           m.stride, m.zp, m.cache_policy);
  return b;
}

void Seq(long index, Rng& rng) {
  // Buffers that may be cached, constant until the cache is cleared, and
  // buffers never to be cached, modified at will.
  static Shared sh, fresh;
  for (Shared* x : {&sh, &fresh})
    if (x->f.empty()) { x->f.resize(kN); x->d.resize(kN); x->b.resize(kN); x->s.resize(kN); }
  for (int c = 0; c < 4; c++) { Scramble(rng, &sh, c, 0, 6000); Scramble(rng, &fresh, c, 0, 6000); sh.maybe_cached[c] = false; }
  if (index % 16 == 0)
    for (int c = 0; c < 4; c++) { Scramble(rng, &sh, c, 6000, kN); Scramble(rng, &fresh, c, 6000, kN); }
  ruy::Context cached, plain;
  static Plan plan;
  plan.record = true;
  const int steps = rng.range(6, 40);
  // Few classes per history make repeated use of the same buffer likely.
  const int family = rng.range(0, 4);
  std::vector<int> combos;
  for (int i = 0; i < kNumCombos; i++) {
    const bool fl = IsFloat(kCombos[i].dst), s16 = kCombos[i].lhs == T::i16 || kCombos[i].rhs == T::i16;
    if ((family == 0 && i == 0) || (family == 1 && fl) || (family == 2 && !fl && !s16) || (family == 3 && s16) || family == 4) combos.push_back(i);
  }
  std::uint64_t hist = family;
  const std::vector<int> paths = UsablePaths();
  int path = paths[rng.range(0, paths.size() - 1)];
  std::vector<int> sizes;
  for (int i = 0; i < 4; i++) sizes.push_back(rng.chance(1, 5) ? rng.pick({64, 65, 96, 100, 130, 190}) : rng.pick({1, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 25, 32, 33, 48}));
  for (int st = 0; st < steps; st++) {
    if (rng.chance(1, 6)) path = paths[rng.range(0, paths.size() - 1)];
    if (rng.chance(1, 8)) {  // in-place modification
      const int cls = rng.range(0, 3);
      if (sh.maybe_cached[cls]) {
        cached.ClearPrepackedCache();
        for (bool& x : sh.maybe_cached) x = false;
        Count("cache_clears");
        hist = Mix(hist, 991);
      }
      const int lo = rng.range(0, 200), hi = rng.chance(1, 2) ? lo + 1 : rng.range(lo + 1, kN);
      Scramble(rng, &sh, cls, lo, hi);
      Count("in_place_modifications");
    }
    Call c;
    c.combo = combos[rng.range(0, combos.size() - 1)];
    const ComboInfo& ci = kCombos[c.combo];
    const bool s16 = ci.lhs == T::i16 || ci.rhs == T::i16;
    if (rng.chance(1, 2)) {
      for (T t : {ci.lhs, ci.rhs}) Scramble(rng, &fresh, ClassOf(t), 0, rng.pick({1, 64, 300}));
      Count("uncached_modifications");
    }
    const int rows = sizes[rng.range(0, 3)], cols = sizes[rng.range(0, 3)], depth = sizes[rng.range(0, 3)];
    MakeView(rng, &sh, &fresh, ci.lhs, rows, depth, s16, &c.lhs);
    MakeView(rng, &sh, &fresh, ci.rhs, depth, cols, s16, &c.rhs);
    c.dst.type = ci.dst;
    c.dst.rows = rows;
    c.dst.cols = cols;
    c.dst.order = rng.range(0, 1);
    c.dst.stride = c.dst.order == kColMajor ? rows : cols;
    c.dst.zp = Quantized(c) && !s16 ? (ci.dst == T::u8 ? 100 : -3) : 0;
    c.mp.mult = 1518500250;
    c.mp.exponent = -7;
    std::vector<std::uint8_t> out(c.dst.Extent() * SizeOf(ci.dst), 0xAB), want(out);
    Config cfg;
    cfg.path = path;
    cfg.threads = rng.range(1, 3);
    cfg.force_max = rng.chance(1, 2);
    Apply(cfg, &cached);
    SetContext("step %d lhs %s rhs %s", st, ViewText(c.lhs).c_str(), ViewText(c.rhs).c_str());
    c.dst.data = out.data();
    plan.Reset();
    InstallPlan(&plan);
    RunMul(c, &cached, 1);
    InstallPlan(nullptr);
    int inserted[2] = {0, 0};
    for (const Event& e : plan.Events()) if (e.kind == kPackStart && e.in_prepare) inserted[e.side] = 1;
    for (int s = 0; s < 2; s++)
      if (plan.prepacked[s]) {
        Count(inserted[s] ? "cache_inserts" : "cache_hits");
        hist = Mix(hist, Mix(s + 2 * inserted[s], c.combo));
      }
    for (MatSpec* m : {&c.lhs, &c.rhs}) if (m->cache_policy) sh.maybe_cached[ClassOf(m->type)] = true;
    Config p1 = cfg;
    p1.threads = 1;
    Apply(p1, &plain);
    Call u = c;
    u.lhs.cache_policy = u.rhs.cache_policy = 0;
    u.dst.data = want.data();
    RunMul(u, &plain, 1);
    Count("compared_muls");
    Distinct("histories", hist = Mix(hist, Mix(Mix(rows, cols), Mix(depth, path))));
    if (out != want) {
      std::size_t i = 0;
      while (out[i] == want[i]) i++;
      Violation("cached-result", "step %d: result with caching differs from the result without (byte %zu of %zu); %s; lhs %s%s; rhs %s%s; path %s", st, i,
                out.size(), ci.name, ViewText(c.lhs).c_str(), plan.prepacked[0] && !inserted[0] ? " (reused)" : "", ViewText(c.rhs).c_str(),
                plan.prepacked[1] && !inserted[1] ? " (reused)" : "", PathName(path));
      return;
    }
    Tick();
  }
  if (rng.chance(1, 40)) Sample("history of " + std::to_string(steps) + " multiplications, family " + std::to_string(family));
}

// ------------------------------------------------------------------- big
struct ModelKey {
  const void* data;
  int type, rows, cols, stride, order, zp;
  int prows, pcols, pstride, krows, kcols, korder, ptype;
  bool operator<(const ModelKey& o) const {
    return std::tie(data, type, rows, cols, stride, order, zp, prows, pcols, pstride, krows, kcols, korder, ptype) <
           std::tie(o.data, o.type, o.rows, o.cols, o.stride, o.order, o.zp, o.prows, o.pcols, o.pstride, o.krows, o.kcols, o.korder, o.ptype);
  }
};
struct ModelEntry {
  ModelKey key;
  std::int64_t bytes;
};

void Big(long index, Rng& rng) {
  const std::int64_t kLimit = ruy::PrepackedCache::kDefaultMaxBuffersBytes;
  static std::vector<float> arena;
  const std::int64_t arena_n = 38 << 20;
  if (arena.empty()) {
    arena.resize(arena_n);
    Rng r2(77);
    for (auto& x : arena) x = static_cast<float>(static_cast<int>(r2.u64() % 17) - 8);
  }
  ruy::Context cached, plain;
  Config cfg;
  const std::vector<int> paths = UsablePaths(false);
  cfg.path = paths[paths.size() - 1 - rng.range(0, std::min<int>(2, paths.size() - 1))];
  cfg.threads = 1;
  Apply(cfg, &cached);
  Apply(cfg, &plain);
  std::list<ModelEntry> lru;  // front = oldest
  std::int64_t total = 0;
  static Plan plan;
  plan.record = true;
  std::vector<ModelKey> keys(2);
  std::vector<std::int64_t> bytes(2);
  plan.on_prepare = [&](ruy::TrMulParams* p) {
    for (int s = 0; s < 2; s++) {
      const ruy::EMat& src = p->src[static_cast<ruy::Side>(s)];
      const ruy::PEMat& pk = p->packed_matrix[static_cast<ruy::Side>(s)];
      keys[s] = ModelKey{src.data, src.data_type.size * 4 + src.data_type.is_signed * 2 + src.data_type.is_floating_point, src.layout.rows, src.layout.cols,
                         src.layout.stride, static_cast<int>(src.layout.order), src.zero_point, pk.layout.rows, pk.layout.cols, pk.layout.stride,
                         pk.layout.kernel.rows, pk.layout.kernel.cols, static_cast<int>(pk.layout.kernel.order),
                         pk.data_type.size * 4 + pk.data_type.is_signed * 2 + pk.data_type.is_floating_point};
      bytes[s] = std::int64_t(pk.layout.stride) * pk.layout.cols * pk.data_type.size;
      if (!pk.sums_type.is_floating_point) bytes[s] += std::int64_t(pk.layout.cols) * pk.sums_type.size;
    }
  };
  bool freed_in_use = false;
  plan.on_done = [&](ruy::TrMulParams* p) {
    for (int s = 0; s < 2; s++) {
      const void* start;
      std::int64_t size;
      const ruy::PEMat& pk = p->packed_matrix[static_cast<ruy::Side>(s)];
      if (!LiveBlockAt(pk.data, &start, &size)) freed_in_use = true;
    }
  };
  const int steps = rng.range(16, 30);
  std::vector<Call> previous;
  for (int st = 0; st < steps; st++) {
    Call c;
    const bool both_huge = rng.chance(1, 8);
    const bool again = !previous.empty() && rng.chance(1, 2);
    if (again) {
      c = previous[rng.chance(1, 2) ? previous.size() - 1 - rng.range(0, std::min<int>(3, previous.size() - 1)) : rng.range(0, previous.size() - 1)];
    } else {
      c.combo = rng.chance(1, 3) ? ComboByName("i8xi8_i32") : 0;
      const ComboInfo& ci = ComboOf(c);
      int rows, cols, depth;
      if (both_huge && c.combo == 0) {
        rows = cols = 16;
        depth = rng.range(1500000, 2300000);
      } else {
        rows = rng.range(200, 900);
        cols = rng.chance(1, 2) ? 1 : rng.range(1, 8);
        depth = rng.range(4000, 30000);
        if (rng.chance(1, 3)) std::swap(rows, cols);
      }
      auto set = [&](MatSpec* m, T t, int r, int k) {
        m->type = t;
        m->rows = r;
        m->cols = k;
        m->order = rng.range(0, 1);
        m->stride = m->order == kColMajor ? r : k;
        m->zp = 0;
        m->data = arena.data() + rng.pick({0, 0, 16, 64, 256});
        m->cache_policy = rng.pick({0, 3, 3, 3, 3});
      };
      set(&c.lhs, ci.lhs, rows, depth);
      set(&c.rhs, ci.rhs, depth, cols);
      c.dst.type = ci.dst;
      c.dst.rows = rows;
      c.dst.cols = cols;
      c.dst.order = rng.range(0, 1);
      c.dst.stride = c.dst.order == kColMajor ? rows : cols;
      previous.push_back(c);
    }
    if (rng.chance(1, 30)) {
      cached.ClearPrepackedCache();
      lru.clear();
      total = 0;
    }
    std::vector<std::uint8_t> out(c.dst.Extent() * SizeOf(c.dst.type), 0xAB), want(out);
    SetContext("step %d lhs %s rhs %s", st, ViewText(c.lhs).c_str(), ViewText(c.rhs).c_str());
    c.dst.data = out.data();
    plan.Reset();
    InstallPlan(&plan);
    RunMul(c, &cached, 0);
    InstallPlan(nullptr);
    Tick();
    Call u = c;
    u.lhs.cache_policy = u.rhs.cache_policy = 0;
    u.dst.data = want.data();
    RunMul(u, &plain, 0);
    Tick();
    Count("compared_muls");
    if (freed_in_use) { Violation("evicted-in-use", "step %d: a packed operand of the multiplication in progress was released; lhs %s; rhs %s", st, ViewText(c.lhs).c_str(), ViewText(c.rhs).c_str()); break; }
    if (out != want) { Violation("cached-result", "step %d: result with caching differs; lhs %s; rhs %s", st, ViewText(c.lhs).c_str(), ViewText(c.rhs).c_str()); break; }
    // LRU model; entries of the multiplication in progress are not evicted
    int inserted[2] = {0, 0};
    for (const Event& e : plan.Events()) if (e.kind == kPackStart && e.in_prepare) inserted[e.side] = 1;
    std::vector<ModelKey> pinned;
    auto is_pinned = [&](const ModelKey& k) {
      for (auto& q : pinned) if (!(q < k) && !(k < q)) return true;
      return false;
    };
    for (int s = 0; s < 2; s++) {
      if (!plan.prepacked[s]) continue;
      auto it = std::find_if(lru.begin(), lru.end(), [&](const ModelEntry& e) { return !(e.key < keys[s]) && !(keys[s] < e.key); });
      const bool hit = it != lru.end();
      if (hit == static_cast<bool>(inserted[s])) {
        Violation(hit ? "evicted-too-early" : "kept-too-long", "step %d side %d: entry was %s although the least-recently-used rule says otherwise; %lld bytes of %lld held", st, s,
                  inserted[s] ? "not found" : "found", (long long)total, (long long)kLimit);
        plan.on_prepare = nullptr; plan.on_done = nullptr;
        return;
      }
      if (hit) {
        lru.splice(lru.end(), lru, it);
        Count("cache_hits");
      } else {
        for (auto e = lru.begin(); e != lru.end() && total + bytes[s] > kLimit;) {
          if (is_pinned(e->key)) { ++e; continue; }
          total -= e->bytes;
          e = lru.erase(e);
          Count("evictions");
        }
        lru.push_back(ModelEntry{keys[s], bytes[s]});
        total += bytes[s];
        Count("cache_inserts");
      }
      pinned.push_back(keys[s]);
    }
    const auto* cache = ruy::get_ctx(&cached)->GetPrepackedCache();
    if (cache->BuffersBytes() != total || cache->MatrixCount() != static_cast<int>(lru.size())) {
      Violation("accounting", "step %d: cache reports %lld bytes in %d entries, %lld bytes in %d entries expected", st, (long long)cache->BuffersBytes(),
                cache->MatrixCount(), (long long)total, int(lru.size()));
      break;
    }
    std::int64_t need = 0;
    for (int s = 0; s < 2; s++) if (plan.prepacked[s]) need += bytes[s];
    // Room is made when something is inserted.
    if ((inserted[0] || inserted[1]) && total > kLimit && total > need) Violation("over-limit", "%lld bytes held", (long long)total);
    if (total > kLimit) Count("operations_larger_than_limit");
    Max("bytes_held", total);
    Distinct("cache_states", Mix(Mix(lru.size(), total), Mix(inserted[0] * 2 + inserted[1], keys[0].rows)));
    if (rng.chance(1, 40)) Sample("entries " + std::to_string(lru.size()) + " bytes " + std::to_string(total) + " after " + ViewText(c.lhs));
  }
  plan.on_prepare = nullptr;
  plan.on_done = nullptr;
}

// ------------------------------------------------------------------- policy
// Which operands are packed anew and which are kept, from the pack steps of
// each multiplication and the number of entries held.
void Policy(long index, Rng& rng) {
  Call c;
  c.combo = static_cast<int>(rng.range(0, kNumCombos - 1));
  const ComboInfo& ci = ComboOf(c);
  const bool zps = !IsFloat(ci.lhs) && ci.lhs != T::i16 && ci.rhs != T::i16;
  const int depth = rng.pick({1, 3, 16, 40, 100});
  struct Operand {
    std::vector<std::uint8_t> data;
    int width, order, zp;
  };
  std::vector<Operand> ops[2];
  for (int s = 0; s < 2; s++)
    for (int i = rng.range(1, 3); i > 0; i--) {
      Operand o;
      o.width = ops[s].empty() && s ? rng.pick({1, 2, 7}) : rng.pick({1, 1, 2, 7, 16, 33, 64, 65, 200, 1500});
      o.order = static_cast<int>(rng.range(0, 1));
      o.zp = zps ? static_cast<int>(rng.range(0, 2)) : 0;
      o.data.assign(std::size_t(o.width) * depth * 8, 0);
      ops[s].push_back(std::move(o));
    }
  ruy::Context ctx;
  Config cfg;
  const std::vector<int> paths = UsablePaths();
  std::set<ModelKey> kept;
  static Plan plan;
  plan.record = true;
  ModelKey keys[2];
  int user_side[2] = {0, 1};
  plan.on_prepare = [&](ruy::TrMulParams* p) {
    for (int s = 0; s < 2; s++) {
      const ruy::EMat& src = p->src[static_cast<ruy::Side>(s)];
      const ruy::PEMat& pk = p->packed_matrix[static_cast<ruy::Side>(s)];
      keys[s] = ModelKey{src.data, src.data_type.size * 4 + src.data_type.is_signed * 2 + src.data_type.is_floating_point, src.layout.rows, src.layout.cols,
                         src.layout.stride, static_cast<int>(src.layout.order), src.zero_point, pk.layout.rows, pk.layout.cols, pk.layout.stride,
                         pk.layout.kernel.rows, pk.layout.kernel.cols, static_cast<int>(pk.layout.kernel.order),
                         pk.data_type.size * 4 + pk.data_type.is_signed * 2 + pk.data_type.is_floating_point};
      user_side[s] = src.data == c.lhs.data ? 0 : 1;
    }
  };
  const int steps = rng.range(3, 20);
  std::uint64_t hist = c.combo;
  for (int st = 0; st < steps && !TooManyViolations(); st++) {
    if (st == 0 || rng.chance(1, 6)) {
      if (rng.chance(1, 2)) cfg.path = paths[rng.range(0, paths.size() - 1)];
      cfg.threads = rng.pick({1, 1, 2, 4});
      cfg.force_max = rng.chance(1, 2);
      Apply(cfg, &ctx);
    }
    if (rng.chance(1, 12)) {
      ctx.ClearPrepackedCache();
      kept.clear();
      if (ruy::get_ctx(&ctx)->GetPrepackedCache()->MatrixCount()) Violation("policy-clear", "step %d: entries left after clearing", st);
      Count("clears");
    }
    Operand* o[2];
    MatSpec* m[2] = {&c.lhs, &c.rhs};
    for (int s = 0; s < 2; s++) {
      o[s] = &ops[s][rng.range(0, ops[s].size() - 1)];
      while (s && std::int64_t(o[0]->width) * o[1]->width * depth > 1000000 && o[1] != &ops[1][0]) --o[1];
      m[s]->type = s ? ci.rhs : ci.lhs;
      m[s]->rows = s ? depth : o[s]->width;
      m[s]->cols = s ? o[s]->width : depth;
      m[s]->order = o[s]->order;
      m[s]->stride = o[s]->order == kColMajor ? m[s]->rows : m[s]->cols;
      m[s]->zp = o[s]->zp;
      m[s]->data = o[s]->data.data();
      m[s]->cache_policy = static_cast<int>(rng.range(0, 3));
      hist = Mix(hist, Mix(o[s]->width, m[s]->cache_policy));
    }
    c.dst.type = ci.dst;
    c.dst.rows = o[0]->width;
    c.dst.cols = o[1]->width;
    c.dst.order = static_cast<int>(rng.range(0, 1));
    c.dst.stride = c.dst.order == kColMajor ? c.dst.rows : c.dst.cols;
    std::vector<std::uint8_t> out(c.dst.Extent() * SizeOf(c.dst.type));
    c.dst.data = out.data();
    SetContext("step %d lhs %s policy %d rhs %s policy %d path %s", st, ViewText(c.lhs).c_str(), c.lhs.cache_policy, ViewText(c.rhs).c_str(), c.rhs.cache_policy, PathName(cfg.path));
    plan.Reset();
    InstallPlan(&plan);
    RunMul(c, &ctx, 1);
    InstallPlan(nullptr);
    Tick();
    Count("policy_muls");
    const int held = ruy::get_ctx(&ctx)->GetPrepackedCache()->MatrixCount();
    for (int s = 0; s < 2; s++) {
      const int u = user_side[s], policy = m[u]->cache_policy, other = o[1 - u]->width;
      const std::int64_t packed = plan.columns_packed[s];
      const bool was_kept = kept.count(keys[s]);
      if (packed != 0 && packed != plan.dims[s]) {
        Violation("policy-partial", "step %d: %lld of %d columns of the %s operand packed", st, (long long)packed, plan.dims[s], u ? "right" : "left");
        return;
      }
      if (policy == 0 && packed == 0) Violation("policy-never", "step %d: an operand that must not be cached was taken from the cache", st);
      // Whether it is in the cache now: packed before the blocks are computed,
      // or not packed at all.
      bool cached_now = packed == 0;
      for (const Event& e : plan.Events()) if (e.kind == kPackStart && e.side == s && e.in_prepare) cached_now = true;
      if (policy == 3 && !cached_now) Violation("policy-always", "step %d: the %s operand was not cached although caching was requested", st, u ? "right" : "left");
      if (policy == 3 && was_kept && packed) Violation("policy-repacked", "step %d: the %s operand was packed again although it was in the cache", st, u ? "right" : "left");
      if (policy && !was_kept && !packed) Violation("policy-not-packed", "step %d: the %s operand was never packed", st, u ? "right" : "left");
      if (policy == 0 && cached_now) Violation("policy-never", "step %d: an operand that must not be cached was cached", st);
      if ((policy == 1 || policy == 2) && other == 1 && !cached_now) Violation("policy-vector", "step %d: the matrix of a matrix-vector product was not cached under policy %d", st, policy);
      if ((policy == 1 || policy == 2) && other >= 1000 && cached_now) Violation("policy-wide", "step %d: policy %d cached next to an operand of width %d", st, policy, other);
      if (was_kept && packed == 0) Count("reused_operands");
      if (cached_now) kept.insert(keys[s]);
      Count("policy_decisions");
      hist = Mix(hist, cached_now * 2 + was_kept);
    }
    if (held != static_cast<int>(kept.size())) {
      Violation("policy-held", "step %d: %d entries held, %d expected", st, held, static_cast<int>(kept.size()));
      break;
    }
    // The more permissive policy caches whatever the stricter one does.
    if (rng.chance(1, 3)) {
      bool kept_by[2][2];
      for (int policy = 1; policy <= 2; policy++) {
        ruy::Context probe;
        Apply(cfg, &probe);
        c.lhs.cache_policy = c.rhs.cache_policy = policy;
        plan.Reset();
        InstallPlan(&plan);
        RunMul(c, &probe, 1);
        InstallPlan(nullptr);
        for (int s = 0; s < 2; s++) kept_by[policy - 1][s] = false;
        for (const Event& e : plan.Events()) if (e.kind == kPackStart && e.in_prepare) kept_by[policy - 1][e.side] = true;
      }
      for (int s = 0; s < 2; s++)
        if (kept_by[0][s] && !kept_by[1][s]) Violation("policy-order", "step %d: cached for a large speedup but not for a significant one", st);
      Count("policy_pairs");
    }
  }
  plan.on_prepare = nullptr;
  Distinct("policy_histories", hist);
  if (rng.chance(1, 300)) Sample(std::string(ci.name) + " depth " + std::to_string(depth) + ": " + std::to_string(steps) + " steps, " + std::to_string(kept.size()) + " operands kept");
}

// ------------------------------------------------------------------- model
void Model(long index, Rng& rng) {
  SetAllocMode(rng.chance(1, 4) ? AllocMode::kGuard : AllocMode::kPoison, static_cast<std::uint8_t>(rng.u64()));
  const AllocStats base = GetAllocStats();
  const bool long_run = index % 199 == 3;  // very many uses before it goes on
  const std::int64_t limit = long_run ? rng.pick({1000, 5000, 20000}) : rng.pick({1, 64, 100, 500, 1000, 5000, 20000, 100000});
  std::uint64_t hist = limit;
  {
    ruy::PrepackedCache cache(static_cast<int>(limit));
    struct E {
      ruy::PEMat m;
      std::int64_t bytes;
      int src;
      std::uint8_t pattern;
    };
    std::list<E> lru;
    std::int64_t total = 0;
    const int nsrc = rng.range(1, 6), steps = long_run ? rng.range(80, 120) : rng.range(5, 120);
    // one data type per source pointer
    std::vector<ruy::Type> types, sums;
    static char src_area[4096];
    for (int i = 0; i < nsrc; i++) {
      switch (rng.range(0, 4)) {
        case 0: types.push_back(ruy::Type::Create<float>()); sums.push_back(ruy::Type::Create<float>()); break;
        case 1: types.push_back(ruy::Type::Create<double>()); sums.push_back(ruy::Type::Create<double>()); break;
        case 2: types.push_back(ruy::Type::Create<std::int8_t>()); sums.push_back(ruy::Type::Create<std::int32_t>()); break;
        case 3: types.push_back(ruy::Type::Create<std::int16_t>()); sums.push_back(ruy::Type::Create<std::int32_t>()); break;
        default: types.push_back(ruy::Type::Create<std::uint8_t>()); sums.push_back(ruy::Type::Create<std::int32_t>()); break;
      }
    }
    const int maxdim = limit < 200 ? 12 : 60;
    std::vector<int> dims;
    for (int i = 0; i < 3; i++) dims.push_back(rng.range(1, maxdim));
    auto data_bytes = [](const ruy::PEMat& m) {
      return std::int64_t(m.layout.stride) * (m.layout.order == ruy::Order::kColMajor ? m.layout.cols : m.layout.rows) * m.data_type.size;
    };
    auto check_pattern = [&](const E& e, const char* when) {
      const std::uint8_t* d = static_cast<const std::uint8_t*>(e.m.data);
      for (std::int64_t i = 0; i < data_bytes(e.m); i++)
        if (d[i] != e.pattern) { Violation("entry-overwritten", "contents of a cached entry changed (%s)", when); return; }
      if (!e.m.sums_type.is_floating_point) {
        const std::uint8_t* s = static_cast<const std::uint8_t*>(e.m.sums);
        for (int i = 0; i < e.m.layout.cols * 4; i++)
          if (s[i] != static_cast<std::uint8_t>(e.pattern + 1)) { Violation("entry-overwritten", "sums of a cached entry changed (%s)", when); return; }
      }
    };
    const int long_run_at = long_run ? steps / 2 : -1;
    for (int st = 0; st < steps && !TooManyViolations(); st++) {
      if (st == long_run_at && !lru.empty()) {
        // Ends shortly before a round number of uses altogether.
        const int uses = rng.pick({32768, 65536, 65536, 131072}) - st - rng.range(0, steps - st);
        // Entries at the old end are left alone.
        const int keep = rng.range(0, lru.size() - 1);
        for (int i = 0; i < uses; i++) {
          auto it = lru.begin();
          std::advance(it, rng.range(keep, lru.size() - 1));
          ruy::PEMat again = it->m;
          again.data = again.sums = nullptr;
          if (cache.Get(src_area + 64 * it->src, &again) != ruy::PrepackedCache::Action::kGotExistingEntry || again.data != it->m.data || again.sums != it->m.sums) {
            Violation("evicted-too-early", "use %d in a row: the entry was not found again", i);
            break;
          }
          lru.splice(lru.end(), lru, it);
          if (i % 4096 == 0) Tick();
        }
        Count("long_runs_of_uses");
        Count("operations", uses);
      }
      ruy::PEMat m;
      int src;
      if (!lru.empty() && rng.chance(2, 5)) {
        auto it = lru.begin();
        std::advance(it, rng.range(0, lru.size() - 1));
        m = it->m;
        src = it->src;
        m.data = m.sums = nullptr;
      } else {
        src = rng.range(0, nsrc - 1);
        m.data_type = types[src];
        m.sums_type = sums[src];
        m.layout.rows = dims[rng.range(0, 2)];
        m.layout.cols = dims[rng.range(0, 2)];
        m.layout.order = ruy::Order::kColMajor;
        m.layout.stride = m.layout.rows + (rng.chance(1, 4) ? 1 : 0);
        m.layout.kernel.rows = rng.pick({1, 1, 4});
        m.layout.kernel.cols = rng.pick({1, 1, 8});
        m.layout.kernel.order = rng.chance(1, 4) ? ruy::Order::kRowMajor : ruy::Order::kColMajor;
        m.zero_point = rng.pick({0, 0, 0, 3});
      }
      const ruy::PEMat want = m;
      auto same = [&](const E& e) { return e.src == src && e.m.layout == want.layout && e.m.zero_point == want.zero_point; };
      auto it = std::find_if(lru.begin(), lru.end(), same);
      const AllocStats s0 = GetAllocStats();
      SetContext("step %d limit %lld", st, (long long)limit);
      const auto action = cache.Get(src_area + 64 * src, &m);
      const bool inserted = action == ruy::PrepackedCache::Action::kInsertedNewEntry;
      Count("operations");
      hist = Mix(hist, Mix(src, Mix(inserted, lru.size())));
      if (inserted == (it != lru.end())) {
        Violation(inserted ? "evicted-too-early" : "wrong-hit", "step %d: %s", st, inserted ? "entry should still have been cached" : "entry should not have been found");
        break;
      }
      if (!(m.layout == want.layout) || m.zero_point != want.zero_point || !(m.data_type == want.data_type))
        Violation("wrong-entry", "step %d: entry with different layout, type or zero point returned", st);
      if (!inserted) {
        if (m.data != it->m.data || m.sums != it->m.sums) Violation("moved", "step %d: entry moved", st);
        check_pattern(*it, "found again");
        lru.splice(lru.end(), lru, it);
        Count("hits");
      } else {
        E e;
        e.m = m;
        e.src = src;
        e.pattern = static_cast<std::uint8_t>(rng.u64());
        const std::int64_t ds = LiveBlockSize(m.data), ss = m.sums ? LiveBlockSize(m.sums) : 0;
        const bool need_sums = !m.sums_type.is_floating_point;
        if (ds < data_bytes(m) || (need_sums && ss < m.layout.cols * 4)) {
          Violation("too-small", "step %d: buffers of %lld and %lld bytes for a %dx%d matrix", st, (long long)ds, (long long)ss, m.layout.rows, m.layout.cols);
          break;
        }
        if (reinterpret_cast<std::uintptr_t>(m.data) % 64 || reinterpret_cast<std::uintptr_t>(m.sums) % 64) Violation("alignment", "step %d: buffers not aligned", st);
        memset(m.data, e.pattern, data_bytes(m));
        if (need_sums) memset(m.sums, static_cast<std::uint8_t>(e.pattern + 1), m.layout.cols * 4);
        e.bytes = ds + ss;
        int gone = 0;
        while (!lru.empty() && total + e.bytes > limit) {
          // the oldest entry must have been released
          if (LiveBlockSize(lru.front().m.data) >= 0 && lru.front().m.data != m.data && lru.front().m.data != m.sums)
            { Violation("not-evicted", "step %d: the least recently used entry was kept although room was needed", st); break; }
          total -= lru.front().bytes;
          lru.pop_front();
          gone++;
        }
        Count("evictions", gone);
        if (gone > 1) Count("multi_evictions");
        lru.push_back(e);
        total += e.bytes;
        Count("inserts");
      }
      for (const E& e : lru)
        if (LiveBlockSize(e.m.data) < 0) { Violation("evicted-too-early", "step %d: an entry that should be kept was released", st); break; }
      const AllocStats now = GetAllocStats();
      if (now.live_bytes - base.live_bytes != cache.BuffersBytes())
        Violation("accounting", "step %d: cache reports %lld bytes but holds %lld", st, (long long)cache.BuffersBytes(), (long long)(now.live_bytes - base.live_bytes));
      if (cache.BuffersBytes() != total) Violation("total", "step %d: cache reports %lld bytes, expected %lld", st, (long long)cache.BuffersBytes(), (long long)total);
      if (cache.MatrixCount() != static_cast<int>(lru.size())) Violation("count", "step %d: %d entries reported, %d expected", st, cache.MatrixCount(), int(lru.size()));
      if (total > limit && lru.size() > 1) Violation("over-limit", "step %d: %lld bytes in %d entries with a limit of %lld", st, (long long)total, int(lru.size()), (long long)limit);
      Distinct("cache_states", hist);
      (void)s0;
    }
    for (const E& e : lru) check_pattern(e, "end");
    Max("entries", lru.size());
  }
  if (!TooManyViolations() && GetAllocStats().live_bytes != base.live_bytes)
    Violation("leak", "%lld bytes still held after the cache was destroyed", (long long)(GetAllocStats().live_bytes - base.live_bytes));
  if (rng.chance(1, 200)) Sample("limit " + std::to_string(limit));
  SetAllocMode(AllocMode::kPass);
  Tick();
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, [](const std::string&) { StartWatchdog(); },
              [](long index, Rng& rng) {
                if (args.mode == "seq") Seq(index, rng);
                else if (args.mode == "big") Big(index, rng);
                else if (args.mode == "policy") Policy(index, rng);
                else if (args.mode == "model") Model(index, rng);
                else HarnessError("mode %s", args.mode.c_str());
              });
}
