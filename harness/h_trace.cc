// Monitors on builds with tracing enabled (P27).
//   mode trace: histories of multiplications in a child process that exits
//               normally; the trace it leaves is compared with the steps
//               observed while they were carried out
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <memory>
#include <thread>

#include "ctxutil.h"
#include "problem.h"
#include "trace_parse.h"
#include "vf.h"
#include "wrap.h"

using namespace vf;

namespace {

struct Step {
  int pack, side, s0, e0, s1, e1;
  bool operator==(const Step& o) const { return pack == o.pack && s0 == o.s0 && e0 == o.e0 && s1 == o.s1 && e1 == o.e1 && side == o.side; }
  bool operator<(const Step& o) const {
    return std::tie(pack, side, s0, e0, s1, e1) < std::tie(o.pack, o.side, o.s0, o.e0, o.s1, o.e1);
  }
};

// One multiplication as observed in the child.
struct Rec {
  char lhs[200], rhs[200], dst[200];
  int caller, path, first, events, user;
  int inner[3], stride[3];  // of the operands and the destination
  bool prepacked[2], packed_now[2];
  int dims[2];
};
const int kMaxRecs = 128, kMaxEvents = 60000;
struct Shared {
  std::atomic<int> recs, events, overflow, stage;
  Rec rec[kMaxRecs];
  Event event[kMaxEvents];
  char error[1000];
};
Shared* g_shared = nullptr;
int g_err = -1, g_trace = -1, g_out = -1;

std::string ReadFd(int fd) {
  std::string s;
  char buf[65536];
  lseek(fd, 0, SEEK_SET);
  for (;;) {
    ssize_t n = read(fd, buf, sizeof buf);
    if (n <= 0) break;
    s.append(buf, n);
  }
  return s;
}

const char* TypeName(T t) {
  switch (t) {
    case T::f32: return "float";
    case T::f64: return "double";
    case T::i8: return "int8_t";
    case T::u8: return "uint8_t";
    case T::i16: return "int16_t";
    default: return "int32_t";
  }
}
std::string Text(const MatSpec& m) {
  std::string s = std::string("Matrix<") + TypeName(m.type) + ">, " + std::to_string(m.rows) + "x" + std::to_string(m.cols) + ", " +
                  (m.order == kRowMajor ? "row-major" : "column-major");
  const int inner = m.order == kRowMajor ? m.cols : m.rows;
  s += inner != m.stride ? ", stride=" + std::to_string(m.stride) : ", unstrided";
  if (m.zp) s += ", zero_point=" + std::to_string(m.zp);
  if (m.cache_policy) s += ", cache_policy=" + std::to_string(m.cache_policy);
  return s;
}
const char* PathText(int bit) {
  switch (bit) {
    case 1: return "kStandardCpp";
    case 2: return "kInternalStandardCppVariant1";
    case 4: return "kInternalStandardCppVariant2";
    case 8: return "kInternalStandardCppVariant3";
    case 0x10: return "kAvx";
    case 0x20: return "kAvx2Fma";
    case 0x40: return "kAvx512";
  }
  return "?";
}

// What one user thread of the child does.
struct User {
  struct Item { int prob; bool clear; std::uint64_t delay; int style; };
  struct Ctx { Config cfg; int local, last; std::vector<Item> items; };
  std::vector<std::unique_ptr<Prob>> probs;
  std::vector<Ref> refs;
  std::vector<Ctx> ctxs;
};

void RunUser(User& u, int number, std::uint64_t seed) {
  Shared& s = *g_shared;
  Rng rng(seed);
  for (auto& c : u.ctxs) {
    ruy::Context ctx;
    Apply(c.cfg, &ctx);
    SetCaches(&ctx, c.local, c.last);
    for (auto& it : c.items) {
      Prob& p = *u.probs[it.prob];
      if (it.clear) ctx.ClearPrepackedCache();
      FillDst(rng, &p);
      std::unique_ptr<Plan> plan(new Plan);
      plan->delay_seed = it.delay;
      plan->delay_style = it.style;
      InstallPlan(plan.get());
      RunMul(p.call, &ctx, 1);
      InstallPlan(nullptr);
      std::string err = CheckDst(p, u.refs[it.prob], static_cast<int>(ctx.last_used_path()) >= 0x10 ? 1 : 0);
      if (!err.empty() && !s.error[0]) snprintf(s.error, sizeof s.error, "%s; %s", err.c_str(), p.Describe().c_str());
      const auto events = plan->Events();
      const int k = s.recs++;
      const int first = s.events.fetch_add(events.size());
      if (plan->overflowed() || k >= kMaxRecs || first + static_cast<int>(events.size()) > kMaxEvents) { s.overflow = 1; return; }
      Rec& r = s.rec[k];
      snprintf(r.lhs, sizeof r.lhs, "%s", Text(p.call.lhs).c_str());
      snprintf(r.rhs, sizeof r.rhs, "%s", Text(p.call.rhs).c_str());
      snprintf(r.dst, sizeof r.dst, "%s", Text(p.call.dst).c_str());
      const MatSpec* mats[3] = {&p.call.lhs, &p.call.rhs, &p.call.dst};
      for (int i = 0; i < 3; i++) { r.inner[i] = mats[i]->order == kRowMajor ? mats[i]->cols : mats[i]->rows; r.stride[i] = mats[i]->stride; }
      r.user = number;
      r.caller = ThreadNumber();
      r.path = static_cast<int>(ctx.last_used_path());
      r.first = first;
      r.events = events.size();
      for (int i = 0; i < 2; i++) { r.prepacked[i] = plan->prepacked[i]; r.packed_now[i] = false; r.dims[i] = plan->dims[i]; }
      for (std::size_t i = 0; i < events.size(); i++) {
        s.event[first + i] = events[i];
        if (events[i].kind == kPackStart && events[i].in_prepare) r.packed_now[events[i].side] = true;
      }
    }
  }
}

// The steps a section reports, and the descriptions of its multiplications.
struct Reported {
  std::vector<Step> steps;
  std::vector<std::string> muls;
};

bool Matrices(const std::vector<TraceLine>& l, std::size_t i) {
  return i + 2 < l.size() && StartsWith(l[i].text, "LHS: Matrix<") && StartsWith(l[i + 1].text, "RHS: Matrix<") && StartsWith(l[i + 2].text, "Destination: Matrix<");
}

// Reads "..., 10x20, row-major, stride=30" or "unstrided".
bool ReadLayout(const std::string& s, int* rows, int* cols, int* inner, int* stride) {
  for (std::size_t p = s.find(", "); p != std::string::npos; p = s.find(", ", p + 1)) {
    int n = 0;
    if (sscanf(s.c_str() + p, ", %dx%d, %n", rows, cols, &n) != 2 || !n) continue;
    const std::string rest = s.substr(p + n);
    if (StartsWith(rest, "row-major, ")) *inner = *cols; else if (StartsWith(rest, "column-major, ")) *inner = *rows; else continue;
    const std::size_t q = rest.find(", ") + 2;
    if (rest.compare(q, 9, "unstrided") == 0) { *stride = *inner; return true; }
    return sscanf(rest.c_str() + q, "stride=%d", stride) == 1;
  }
  return false;
}

std::string ReadSteps(const TraceSection& t, Reported* r) {
  Step block{-1, 0, 0, 0, 0, 0};
  int panel[2] = {-1, -1}, announced = -1, announced_side = 0;
  bool waiting = false;
  for (std::size_t i = 0; i < t.lines.size(); i++) {
    const std::string& s = t.lines[i].text;
    int a, b, c, d, id;
    char order[16];
    if (Matrices(t.lines, i)) {
      r->muls.push_back(s + "|" + t.lines[i + 1].text + "|" + t.lines[i + 2].text);
      i += 2;
    } else if (sscanf(s.c_str(), "Block #%d has shape %dx%d and starts at position (%d, %d)", &id, &a, &b, &c, &d) == 5) {
      block = Step{0, 0, c, c + a, d, d + b};
      panel[0] = panel[1] = -1;
    } else if (sscanf(s.c_str(), "Block #%d depends on LHS panel #%d and RHS panel #%d", &id, &a, &b) == 3) {
      panel[0] = a;
      panel[1] = b;
    } else if (sscanf(s.c_str(), "%3[LRHS] panel #%d is not already packed. Packing it now", order, &a) == 2 && EndsWith(s, "Packing it now.")) {
      announced = a;
      announced_side = order[0] == 'R';
    } else if (StartsWith(s, "We're blocked on other threads")) {
      waiting = true;
    } else if (StartsWith(s, "Other threads have finished")) {
      if (!waiting) return "the end of a wait that was not begun";
      waiting = false;
      Count("waits_paired");
    } else if (sscanf(s.c_str(), "Packing panel consisting of columns [%d, %d)", &a, &b) == 2) {
      r->steps.push_back(Step{1, 0, a, b, 0, 0});
      if (announced >= 0 && block.pack == 0 && panel[0] >= 0) {
        // The panels of the block at hand are known by number and by range.
        const bool own = announced_side ? a == block.s1 && b == block.e1 : a == block.s0 && b == block.e0;
        if (own != (announced == panel[announced_side])) return "panel " + std::to_string(announced) + " announced, then '" + s + "'";
        Count("panels_checked");
      }
      announced = -1;
      int a2, b2, rows[2] = {0, 0}, cols[2] = {0, 0}, inner, stride;
      bool past = false, more = false, known = true;
      for (std::size_t k = i + 1; k < t.lines.size() && k < i + 3; k++) known = known && ReadLayout(t.lines[k].text, &rows[k - i - 1], &cols[k - i - 1], &inner, &stride);
      for (std::size_t k = i + 1; k < t.lines.size() && t.lines[k].indent == t.lines[i].indent; k++) {
        if (StartsWith(t.lines[k].text, "This runs past the last column")) past = true;
        if (StartsWith(t.lines[k].text, "The packed matrix has more rows")) more = true;
      }
      if (!known) return "no description of the matrices after '" + s + "'";
      if (past != (b > cols[0])) return "'" + s + "' of " + std::to_string(cols[0]) + (past ? " said" : " not said") + " to run past the last column";
      if (more != (rows[1] > rows[0])) return "'" + s + "' with " + std::to_string(rows[0]) + " rows into " + std::to_string(rows[1]) + (more ? "" : " not") + " said to need padding";
      for (std::size_t k = i + 1; k < t.lines.size() && k < i + 3; k++) {
        const char* text = t.lines[k].text.c_str();
        if (sscanf(text, "Source: columns [%d, %d) of", &a2, &b2) == 2 || sscanf(text, "Destination: columns [%d, %d) of", &a2, &b2) == 2)
          if (a2 != a || b2 != b) return "'" + s + "' but '" + t.lines[k].text + "'";
      }
    } else if (sscanf(s.c_str(), "Destination: block [%d, %d)x[%d, %d) of %15s", &a, &b, &c, &d, order) == 5) {
      const Step k{0, 0, a, b, c, d};
      r->steps.push_back(k);
      if (block.pack == 0 && !(block == k)) return "block announced as [" + std::to_string(block.s0) + ", " + std::to_string(block.e0) + ")x[" + std::to_string(block.s1) + ", " + std::to_string(block.e1) + "), then '" + s + "'";
      block.pack = -1;
      if (waiting) return "computing while still waiting";
      int rows, cols, inner, stride, kr, kc, nr, nc;
      bool over = false;
      if (!ReadLayout(s, &rows, &cols, &inner, &stride)) return "no description of the destination in '" + s + "'";
      for (std::size_t k2 = i + 1; k2 < t.lines.size() && t.lines[k2].indent == t.lines[i].indent; k2++) {
        if (StartsWith(t.lines[k2].text, "This runs over the destination")) over = true;
        if (sscanf(t.lines[k2].text.c_str(), "The kernel's inner loop only produces a %dx%d block, so the kernel's outer loops will run %dx%d times", &kr, &kc, &nr, &nc) == 4 &&
            (kr * nr != b - a || kc * nc != d - c))
          return "'" + s + "' but '" + t.lines[k2].text + "'";
      }
      if (over != (b > rows || d > cols)) return "'" + s + "'" + (over ? "" : " not") + " said to run over the boundaries";
      if (over) Count("overruns_reported");
      for (std::size_t k2 = i >= 2 ? i - 2 : 0; k2 < i; k2++) {
        int x, y;
        if (sscanf(t.lines[k2].text.c_str(), "LHS: columns [%d, %d)", &x, &y) == 2 && (x != a || y != b)) return "'" + t.lines[k2].text + "' but '" + s + "'";
        if (sscanf(t.lines[k2].text.c_str(), "RHS: columns [%d, %d)", &x, &y) == 2 && (x != c || y != d)) return "'" + t.lines[k2].text + "' but '" + s + "'";
      }
    }
  }
  return "";
}

// Checks what the calling thread reported about one multiplication.
std::string CheckMul(const Rec& r, const std::vector<TraceLine>& lines, std::size_t from, std::size_t to) {
  const Shared& s = *g_shared;
  std::vector<std::pair<int, int>> rows, cols;
  int kernels = 0;
  std::vector<int> threads;
  for (int i = r.first; i < r.first + r.events; i++) {
    const Event& e = s.event[i];
    if (e.kind != kKernStart) continue;
    kernels++;
    rows.emplace_back(e.s0, e.e0);
    cols.emplace_back(e.s1, e.e1);
    threads.push_back(e.thread);
  }
  auto unique = [](std::vector<std::pair<int, int>>* v) {
    std::sort(v->begin(), v->end());
    v->erase(std::unique(v->begin(), v->end()), v->end());
  };
  unique(&rows);
  unique(&cols);
  std::sort(threads.begin(), threads.end());
  const int used = std::unique(threads.begin(), threads.end()) - threads.begin();
  bool caching_seen[2] = {false, false}, simple = false, general = false, many = false;
  int sent = 0, finalized = 0, tentative = 0;
  std::vector<std::pair<int, int>> layouts, want;
  for (int i = 0; i < 3; i++) want.emplace_back(r.inner[i], r.stride[i]);
  for (std::size_t i = from; i < to; i++) {
    const std::string& t = lines[i].text;
    int a, b, c, d, e, f;
    if (StartsWith(t, "Runtime-selected path: ")) {
      Count("paths_checked");
      if (t != std::string("Runtime-selected path: ") + PathText(r.path)) return "'" + t + "', used was " + PathText(r.path);
    } else if (StartsWith(t, "LHS: EMat") || StartsWith(t, "RHS: EMat") || StartsWith(t, "Destination: EMat")) {
      if (!ReadLayout(t, &a, &b, &c, &d)) return "no layout in '" + t + "'";
      layouts.emplace_back(c, d);
    } else if (sscanf(t.c_str(), "Tentative thread count: %d", &a) == 1) {
      tentative = a;
    } else if (StartsWith(t, "Choosing to use the general case")) {
      many = EndsWith(t, "multi-threading");
    } else if (StartsWith(t, "Path: ") || StartsWith(t, "Here we have this Path as a template parameter: ")) {
      if (!EndsWith(t, std::string(" ") + PathText(r.path))) return "'" + t + "', used was " + PathText(r.path);
    } else if (StartsWith(t, "Caching the packed ") || StartsWith(t, "Not caching the packed ")) {
      const int side = t.find(" LHS ") != std::string::npos ? 0 : 1;
      const bool caching = t[0] == 'C';
      Count("caching_reports_checked");
      caching_seen[side] = true;
      if (caching != r.prepacked[side]) return "'" + t + "' although it was" + (r.prepacked[side] ? "" : " not");
      if (caching && EndsWith(t, " no") != r.packed_now[side]) return "'" + t + "' although it was" + (r.packed_now[side] ? "" : " not") + " packed for this";
    } else if (StartsWith(t, "Entering the simple loop")) {
      simple = true;
    } else if (StartsWith(t, "Entering the general case")) {
      general = true;
    } else if (sscanf(t.c_str(), "BlockMap has %dx%d blocks, each of size between %dx%d and %dx%d", &a, &b, &c, &d, &e, &f) == 6) {
      if (a * b != kernels || a != static_cast<int>(rows.size()) || b != static_cast<int>(cols.size()))
        return "'" + t + "', observed " + std::to_string(rows.size()) + "x" + std::to_string(cols.size());
      for (auto& x : rows) if (x.second - x.first < c || x.second - x.first > e) return "'" + t + "', observed " + std::to_string(x.second - x.first) + " rows";
      for (auto& x : cols) if (x.second - x.first < d || x.second - x.first > f) return "'" + t + "', observed " + std::to_string(x.second - x.first) + " columns";
      Count("plans_checked");
    } else if (sscanf(t.c_str(), "The first %d rows of blocks have %d rows, the remaining ones have %d", &a, &b, &c) == 3) {
      for (std::size_t k = 0; k < rows.size(); k++) {
        const int n = rows[k].second - rows[k].first;
        if (n != (static_cast<int>(k) < a ? b : c)) return "'" + t + "', observed " + std::to_string(n) + " in number " + std::to_string(k);
      }
      if (a && a < static_cast<int>(rows.size())) Count("uneven_rows");
    } else if (sscanf(t.c_str(), "The first %d columns of blocks have %d columns, the remaining ones have %d", &a, &b, &c) == 3) {
      for (std::size_t k = 0; k < cols.size(); k++) {
        const int n = cols[k].second - cols[k].first;
        if (n != (static_cast<int>(k) < a ? b : c)) return "'" + t + "', observed " + std::to_string(n) + " in number " + std::to_string(k);
      }
      if (a && a < static_cast<int>(cols.size())) Count("uneven_columns");
    } else if (sscanf(t.c_str(), "BlockMap shape: %dx%d", &a, &b) == 2) {
      if (a != r.dims[0] || b != r.dims[1]) return "'" + t + "', observed " + std::to_string(r.dims[0]) + "x" + std::to_string(r.dims[1]);
    } else if (sscanf(t.c_str(), "Finalized thread count: %d", &a) == 1) {
      finalized = a;
      if (used > a) return "'" + t + "' but " + std::to_string(used) + " threads took part";
    } else if (StartsWith(t, "Sending task #")) {
      sent++;
    }
  }
  if (!caching_seen[0] || !caching_seen[1]) return "nothing reported on caching one side";
  if (simple == general) return "neither or both ways of splitting the work reported";
  if (simple && (kernels != 1 || used != 1)) return "reported as not split, observed " + std::to_string(kernels) + " blocks";
  if (general && (finalized < 1 || sent != finalized - 1)) return "thread count " + std::to_string(finalized) + " but " + std::to_string(sent) + " tasks sent";
  if (general && many != (tentative > 1)) return std::string("general case ") + (many ? "" : "not ") + "because of threads, of which " + std::to_string(tentative) + " were planned";
  std::sort(layouts.begin(), layouts.end());
  std::sort(want.begin(), want.end());
  if (layouts != want) return "lengths and strides of the matrices differ from those given";
  Count(simple ? "simple_reported" : "general_reported");
  return "";
}

void Compare(const std::vector<TraceSection>& sections, const std::string& where, bool one_context) {
  const Shared& s = *g_shared;
  struct Thread {
    std::vector<Step> steps;
    std::vector<const Rec*> recs;
    bool taken = false;
    int id = -2;
  };
  std::map<int, Thread> threads;
  std::vector<const Rec*> recs;
  for (int i = 0; i < s.recs; i++) recs.push_back(&s.rec[i]);
  // Records of one thread are in the order in which it finished them.
  for (const Rec* r : recs) threads[r->caller].recs.push_back(r);
  // Pool threads serve one context after the other, too: per thread, by record.
  for (const Rec* r : recs)
    for (int i = r->first; i < r->first + r->events; i++) {
      const Event& e = s.event[i];
      if (e.kind == kPackStart) threads[e.thread].steps.push_back(Step{1, 0, e.s0, e.e0, 0, 0});
      if (e.kind == kKernStart) threads[e.thread].steps.push_back(Step{0, 0, e.s0, e.e0, e.s1, e.e1});
    }
  int with_steps = 0;
  for (const TraceSection& t : sections) {
    int scopes = 0;
    std::string err = CheckScopes(t, &scopes);
    Count("scopes_checked", scopes);
    if (!err.empty()) Violation("trace-scopes", "thread %d: %s; %s", t.id, err.c_str(), where.c_str());
    Reported r;
    err = ReadSteps(t, &r);
    if (!err.empty()) Violation("trace-step", "thread %d: %s; %s", t.id, err.c_str(), where.c_str());
    Count("lines_read", t.lines.size());
    if (r.steps.empty() && r.muls.empty()) continue;
    with_steps++;
    // The thread these come from.
    Thread* match = nullptr;
    const char* why = "no thread carried out these steps";
    for (auto& kv : threads) {
      Thread& th = kv.second;
      if (th.taken) continue;
      if (th.steps.size() != r.steps.size() || !std::equal(r.steps.begin(), r.steps.end(), th.steps.begin())) continue;
      bool same = th.recs.size() == r.muls.size();
      for (std::size_t i = 0; same && i < r.muls.size(); i++)
        same = r.muls[i] == std::string("LHS: ") + th.recs[i]->lhs + "|RHS: " + th.recs[i]->rhs + "|Destination: " + th.recs[i]->dst;
      if (!same) { why = "the multiplications are described differently"; continue; }
      match = &th;
      break;
    }
    Count("threads_compared");
    if (!match) {
      std::string text;
      for (std::size_t i = 0; i < r.muls.size() && i < 3; i++) text += r.muls[i] + "; ";
      for (std::size_t i = 0; i < r.steps.size() && i < 6; i++)
        text += std::string(r.steps[i].pack ? "pack" : "compute") + " [" + std::to_string(r.steps[i].s0) + "," + std::to_string(r.steps[i].e0) + ")x[" + std::to_string(r.steps[i].s1) + "," + std::to_string(r.steps[i].e1) + ") ";
      Violation("trace-steps", "thread %d of the trace, %zu multiplications and %zu steps: %s (%s); %s", t.id, r.muls.size(), r.steps.size(), why, text.c_str(), where.c_str());
      continue;
    }
    match->taken = true;
    match->id = t.id;
    Count("steps_compared", r.steps.size());
    if (match->recs.empty()) Count("worker_sections");
    // What it says about each of its multiplications.
    std::vector<std::size_t> starts;
    for (std::size_t i = 0; i < t.lines.size(); i++) if (Matrices(t.lines, i)) { starts.push_back(i); i += 2; }
    for (std::size_t i = 0; i < starts.size(); i++) {
      const std::size_t end = i + 1 < starts.size() ? starts[i + 1] : t.lines.size();
      err = CheckMul(*match->recs[i], t.lines, starts[i], end);
      Count("muls_compared");
      if (!err.empty()) Violation("trace-mul", "%s; %s x %s", err.c_str(), match->recs[i]->lhs, match->recs[i]->rhs);
    }
  }
  for (auto& kv : threads)
    if (!kv.second.taken && !(kv.second.steps.empty() && kv.second.recs.empty()))
      Violation("trace-missing", "the trace lacks a thread with %zu multiplications and %zu steps (%zu sections, %d with steps); %s", kv.second.recs.size(), kv.second.steps.size(),
                sections.size(), with_steps, where.c_str());
  if (one_context) {
    // Every thread of the context has its own identity; the calling one is the first.
    std::vector<int> ids;
    for (auto& kv : threads) {
      if (!kv.second.taken || kv.second.id < 0) continue;
      ids.push_back(kv.second.id);
      if (!kv.second.recs.empty() && kv.second.id != 0) Violation("trace-id", "the calling thread is number %d; %s", kv.second.id, where.c_str());
      if (kv.second.recs.empty() && kv.second.id == 0) Violation("trace-id", "a worker is number 0; %s", where.c_str());
    }
    std::sort(ids.begin(), ids.end());
    if (std::unique(ids.begin(), ids.end()) != ids.end()) Violation("trace-id", "two threads with the same number; %s", where.c_str());
    Count("identities_checked", ids.size());
  }
}

void TraceMode(long index, Rng& rng) {
  if (!g_shared) {
    g_shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    g_err = memfd_create("err", 0);
    g_trace = memfd_create("trace", 0);
    g_out = memfd_create("out", 0);
    if (g_shared == MAP_FAILED || g_err < 0 || g_trace < 0 || g_out < 0) HarnessError("no memory to share");
  }
  // The history.
  const int users = rng.chance(1, 3) ? rng.range(2, 3) : 1;
  std::vector<User> all(users);
  std::string where;
  for (User& u : all) {
    const int probs = rng.range(1, 3);
    for (int i = 0; i < probs; i++) {
      GenOpts o;
      o.max_macs = rng.chance(1, 5) ? 400000 : 60000;
      o.max_dim = 250;
      o.cache_policies = rng.chance(1, 2);
      for (;;) {
        std::unique_ptr<Prob> q(new Prob);
        Generate(rng, o, q.get());
        Ref r;
        ComputeRef(*q, &r);
        bool ok = true;
        if (!FloatCombo(q->call)) for (auto a : r.acc) if (a > 2147483647ll || a < -2147483648ll) ok = false;
        if (Quantized(q->call)) for (auto a : r.q) if (a > 2147483647ll - 70000 || a < -2147483648ll + 70000) ok = false;
        if (!ok) continue;
        u.probs.push_back(std::move(q));
        u.refs.push_back(std::move(r));
        break;
      }
    }
    const int ctxs = rng.chance(1, 4) ? 2 : 1;
    const auto paths = UsablePaths();
    for (int i = 0; i < ctxs; i++) {
      User::Ctx c;
      c.cfg.threads = rng.pick({1, 1, 2, 3, 4, 7});
      c.cfg.force_max = rng.chance(2, 3);
      if (rng.chance(1, 2)) c.cfg.path = paths[rng.range(0, paths.size() - 1)];
      c.local = 1 << rng.range(9, 20);
      c.last = c.local << rng.range(0, 6);
      const int items = rng.range(1, 5);
      for (int k = 0; k < items; k++)
        c.items.push_back(User::Item{static_cast<int>(rng.range(0, probs - 1)), rng.chance(1, 8), rng.chance(1, 2) ? rng.u64() | 1 : 0, static_cast<int>(rng.range(0, 5))});
      u.ctxs.push_back(c);
      where += " {" + Describe(c.cfg) + " x" + std::to_string(items) + "}";
    }
    where += " " + u.probs[0]->Describe();
  }
  const bool html = rng.chance(1, 2), to_stdout = rng.chance(1, 4);
  const char* html_value = html ? rng.pick({"1", "2", "-1", "1x"}) : rng.pick({"", "0", "yes", static_cast<const char*>(nullptr)});
  where = std::string(html ? "html" : "terminal") + (to_stdout ? " to standard output," : " to a file,") + where;
  SetContext("%s", where.c_str());
  int status = 0;
  bool timed_out = false;
  for (int attempt = 0; attempt < 2; attempt++) {
    Shared& s = *g_shared;
    s.recs = s.events = s.overflow = s.stage = 0;
    s.error[0] = 0;
    for (int fd : {g_err, g_trace, g_out}) {
      if (ftruncate(fd, 0)) HarnessError("ftruncate failed");
      lseek(fd, 0, SEEK_SET);
    }
    const std::uint64_t seed = rng.u64();
    fflush(stdout);
    const pid_t pid = fork();
    if (pid < 0) HarnessError("fork failed");
    if (pid == 0) {
      struct rlimit no_core = {0, 0};
      setrlimit(RLIMIT_CORE, &no_core);
      dup2(g_err, 2);
      dup2(g_out, 1);
      for (int sig : {SIGABRT, SIGILL, SIGFPE, SIGSEGV, SIGBUS}) signal(sig, SIG_DFL);
      unsetenv("RUY_PATHS");
      if (html_value) setenv("RUY_TRACE_HTML", html_value, 1); else unsetenv("RUY_TRACE_HTML");
      const std::string path = "/proc/self/fd/" + std::to_string(g_trace);
      if (to_stdout) unsetenv("RUY_TRACE_FILE"); else setenv("RUY_TRACE_FILE", path.c_str(), 1);
      if (users == 1) {
        RunUser(all[0], 0, seed);
      } else {
        std::vector<std::thread> ts;
        for (int i = 0; i < users; i++) ts.emplace_back([&, i] { RunUser(all[i], i, seed + i); });
        for (auto& t : ts) t.join();
      }
      s.stage = 1;
      exit(0);
    }
    timed_out = false;
    for (int ms = 0;; ms++) {
      const pid_t r = waitpid(pid, &status, WNOHANG);
      if (r == pid) break;
      if (r < 0) HarnessError("waitpid failed");
      if (ms > 60000) {
        kill(pid, SIGKILL);
        waitpid(pid, &status, 0);
        timed_out = true;
        break;
      }
      timespec ts{0, ms < 50 ? 100000 : 1000000};
      nanosleep(&ts, nullptr);
    }
    Tick();
    if (!timed_out) break;
  }
  const Shared& s = *g_shared;
  Count("histories");
  if (timed_out || status || s.stage != 1) {
    Violation(timed_out ? "trace-hang" : "trace-died", "a traced process %s (status %x) %s; %s", timed_out ? "did not finish" : "did not exit normally", status,
              ReadFd(g_err).substr(0, 300).c_str(), where.c_str());
    return;
  }
  if (s.error[0]) Violation("trace-result", "%s; %s", s.error, where.c_str());
  if (s.overflow) { Count("skipped_too_long"); return; }
  Count("muls", s.recs);
  const std::string trace = ReadFd(to_stdout ? g_out : g_trace), other = ReadFd(to_stdout ? g_trace : g_out);
  Count("bytes_read", trace.size());
  if (!other.empty()) Violation("trace-place", "%zu bytes written to %s; %s", other.size(), to_stdout ? "a file" : "standard output", where.c_str());
  std::vector<TraceSection> sections;
  const std::string err = ParseTrace(trace, html, &sections);
  Count(html ? "html_traces" : "terminal_traces");
  Count(to_stdout ? "traces_on_stdout" : "traces_in_files");
  if (args.verbose) fwrite(trace.data(), 1, trace.size(), stdout);
  if (!err.empty()) { Violation("trace-form", "%s; %s", err.c_str(), where.c_str()); return; }
  Compare(sections, where, users == 1 && all[0].ctxs.size() == 1);
  std::uint64_t h = 0;
  for (int i = 0; i < s.recs; i++) {
    h = Mix(h, HashBytes(s.rec[i].lhs, strlen(s.rec[i].lhs)));
    h = Mix(h, s.rec[i].path);
    for (int k = s.rec[i].first; k < s.rec[i].first + s.rec[i].events; k++) h = Mix(h, (s.event[k].kind << 16) + s.event[k].s0 * 31 + s.event[k].s1 + s.event[k].thread * 7919);
  }
  Distinct("traces", h);
  if (rng.chance(1, 40)) Sample(where + " -> " + std::to_string(sections.size()) + " threads, " + std::to_string(trace.size()) + " bytes");
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, [](const std::string&) { StartWatchdog(); }, [](long index, Rng& rng) { TraceMode(index, rng); });
}
