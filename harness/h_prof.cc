// Monitors over the profiler (P18).
//   mode tree : trees built from generated samples compared with a model
//   mode live : threads with random label nestings, starting and ending, while
//               the profiler runs; every sample compared with what the thread
//               was executing, the final tree with the samples taken
//   mode mul  : multiplications under the profiler
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <thread>

#include "ctxutil.h"
#include "problem.h"
#include "ruy/profiler/instrumentation.h"
#include "ruy/profiler/profiler.h"
#include "ruy/profiler/treeview.h"
#include "vf.h"

using namespace vf;
using ruy::profiler::Label;
using ruy::profiler::TreeView;
namespace pd = ruy::profiler::detail;

namespace {
std::atomic<std::uint64_t> g_passes{0};
std::atomic<bool> g_fast{false};
std::atomic<int> g_sample_ns{30000};
}  // namespace

extern "C" {
int __real_nanosleep(const timespec*, timespec*);
int __wrap_nanosleep(const timespec* a, timespec* b);
// The profiler's period between samples, shortened to get more of them.
int __wrap_nanosleep(const timespec* a, timespec* b) {
  if (g_fast.load(std::memory_order_relaxed) && a->tv_sec == 0 && a->tv_nsec == 1000000) {
    g_passes.fetch_add(1, std::memory_order_relaxed);
    timespec t = {0, g_sample_ns.load(std::memory_order_relaxed)};
    return __real_nanosleep(&t, b);
  }
  return __real_nanosleep(a, b);
}
}

namespace {

std::string Key(const Label& l) { return std::string(l.format()) + '\x01' + l.Formatted(); }

// ------------------------------------------------------------------- model
struct Model {
  int weight = 0, exact = 0;
  std::map<std::string, Model> children;
  void Add(const std::vector<std::string>& path) {
    Model* m = this;
    m->weight++;
    for (auto& k : path) { m = &m->children[k]; m->weight++; }
    m->exact++;
  }
};

// Compares a tree with the model; returns "" or what is wrong.
std::string Compare(const TreeView::Node& n, const Model& m, const std::string& where, std::uint64_t* nodes) {
  ++*nodes;
  if (n.weight != m.weight) return "weight " + std::to_string(n.weight) + " instead of " + std::to_string(m.weight) + " at " + where;
  int sum = 0, other = 0, prev = -1;
  std::set<std::string> seen;
  for (auto& c : n.children) {
    if (prev >= 0 && c->weight > prev) return "children not ordered by weight at " + where;
    prev = c->weight;
    sum += c->weight;
    const std::string k = Key(c->label);
    auto it = m.children.find(k);
    if (it == m.children.end()) {
      if (c->label.Formatted() != "[other]") return "label '" + c->label.Formatted() + "' was never active at " + where;
      if (!c->children.empty()) return "[other] has children at " + where;
      other += c->weight;
      if (c->weight <= 0) return "[other] of weight " + std::to_string(c->weight) + " at " + where;
      ++*nodes;
      continue;
    }
    if (!seen.insert(k).second) return "label '" + c->label.Formatted() + "' appears twice at " + where;
    std::string e = Compare(*c, it->second, where + "/" + c->label.Formatted(), nodes);
    if (!e.empty()) return e;
  }
  if (seen.size() != m.children.size()) return "a label active when sampled is missing at " + where;
  if (!n.children.empty() && sum != n.weight) return "children weigh " + std::to_string(sum) + " of " + std::to_string(n.weight) + " at " + where;
  if (!n.children.empty() && other != m.exact) return "[other] weighs " + std::to_string(other) + " instead of " + std::to_string(m.exact) + " at " + where;
  return "";
}

std::string CompareTree(const TreeView& tv, const std::map<std::uint32_t, Model>& models, std::uint64_t* nodes) {
  if (tv.thread_roots().size() != models.size())
    return std::to_string(tv.thread_roots().size()) + " threads in the tree instead of " + std::to_string(models.size());
  for (auto& r : tv.thread_roots()) {
    auto it = models.find(r.first);
    if (it == models.end()) return "unknown thread " + std::to_string(r.first);
    char b[100];
    snprintf(b, sizeof b, "Thread %x (%d samples)", r.first, it->second.weight);
    if (r.second->label.Formatted() != b) return "thread labelled '" + r.second->label.Formatted() + "' instead of '" + b + "'";
    std::string e = Compare(*r.second, it->second, "thread " + std::to_string(r.first), nodes);
    if (!e.empty()) return e;
  }
  return "";
}

// ------------------------------------------------------------------- labels
const char* const kFormats[][2] = {{"alpha", "0"}, {"beta %d", "1"}, {"gamma %d-%d", "2"}, {"delta %d %d %d", "3"}, {"eps(%x,%d,%d,%d)", "4"},
                                   {"Kernel", "0"}, {"Pack (%dx%d)", "2"}, {"a label with a much longer text than the others, to see that it is not cut %d", "1"}, {"", "0"}};
constexpr int kNumFormats = sizeof(kFormats) / sizeof(kFormats[0]);

struct Lab {
  int f, a[4];
  void Set(Label* l) const {
    const char* s = kFormats[f][0];
    switch (kFormats[f][1][0]) {
      case '0': l->Set(s); break;
      case '1': l->Set(s, a[0]); break;
      case '2': l->Set(s, a[0], a[1]); break;
      case '3': l->Set(s, a[0], a[1], a[2]); break;
      default: l->Set(s, a[0], a[1], a[2], a[3]); break;
    }
  }
  void Push(pd::ThreadStack* t) const {
    const char* s = kFormats[f][0];
    switch (kFormats[f][1][0]) {
      case '0': t->Push(s); break;
      case '1': t->Push(s, a[0]); break;
      case '2': t->Push(s, a[0], a[1]); break;
      case '3': t->Push(s, a[0], a[1], a[2]); break;
      default: t->Push(s, a[0], a[1], a[2], a[3]); break;
    }
  }
  std::string Text() const {
    char b[256];
    const char* s = kFormats[f][0];
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
#pragma GCC diagnostic ignored "-Wformat-security"
    switch (kFormats[f][1][0]) {
      case '0': return s;
      case '1': snprintf(b, sizeof b, s, a[0]); break;
      case '2': snprintf(b, sizeof b, s, a[0], a[1]); break;
      case '3': snprintf(b, sizeof b, s, a[0], a[1], a[2]); break;
      default: snprintf(b, sizeof b, s, a[0], a[1], a[2], a[3]); break;
    }
#pragma GCC diagnostic pop
    return b;
  }
  std::string K() const { return std::string(kFormats[f][0]) + '\x01' + Text(); }
};
Lab RandomLab(Rng& rng, int variety) {
  Lab l;
  l.f = rng.range(0, kNumFormats - 1);
  for (int& v : l.a) v = rng.chance(1, 12) ? static_cast<int>(rng.u64()) : rng.range(0, variety);
  return l;
}

// ------------------------------------------------------------------- queries
int SumWhere(const TreeView::Node& n, const std::function<bool(const Label&)>& f) {
  int w = f(n.label) ? n.weight : 0;
  for (auto& c : n.children) w += SumWhere(*c, f);
  return w;
}
int Depth(const TreeView::Node& n) {
  int d = -1;
  for (auto& c : n.children) d = std::max(d, Depth(*c));
  return d + 1;
}
std::string Dump(const TreeView::Node& n, int depth, const std::function<bool(const Label&)>* collapse_at, int collapse_depth) {
  std::string s = Key(n.label) + ":" + std::to_string(n.weight) + "(";
  if (depth < 0 || depth > 0)
    for (auto& c : n.children) {
      int d = depth < 0 ? -1 : depth - 1;
      if (d < 0 && collapse_at && (*collapse_at)(c->label)) d = collapse_depth;
      s += Dump(*c, d, collapse_at, collapse_depth);
    }
  return s + ")";
}
std::string DumpRoot(const TreeView::Node& n, const std::function<bool(const Label&)>& f, int depth) {
  return Dump(n, f(n.label) ? depth : -1, &f, depth);
}

void CheckQueries(Rng& rng, const TreeView& tv) {
  for (auto& r : tv.thread_roots()) {
    const TreeView::Node& root = *r.second;
    if (DepthOfTreeBelow(root) != Depth(root)) Violation("prof-depth", "tree depth %d instead of %d", DepthOfTreeBelow(root), Depth(root));
    const std::string fmt = rng.chance(1, 8) ? "[other]" : rng.chance(1, 8) ? "Thread %x (%d samples)" : kFormats[rng.range(0, kNumFormats - 1)][0];
    const int wu = WeightBelowNodeMatchingUnformatted(root, fmt), eu = SumWhere(root, [&](const Label& l) { return fmt == l.format(); });
    if (wu != eu) Violation("prof-query", "weight of '%s' is %d instead of %d", fmt.c_str(), wu, eu);
    const std::string txt = RandomLab(rng, 2).Text();
    const int wf = WeightBelowNodeMatchingFormatted(root, txt), ef = SumWhere(root, [&](const Label& l) { return l.Formatted() == txt; });
    if (wf != ef) Violation("prof-query", "weight of formatted '%s' is %d instead of %d", txt.c_str(), wf, ef);
    Count("queries", 3);
  }
  // collapse
  const int depth = rng.range(0, 3);
  const std::string fmt = kFormats[rng.range(0, kNumFormats - 1)][0], txt = RandomLab(rng, 1).Text();
  const bool formatted = rng.chance(1, 2);
  std::function<bool(const Label&)> match = [&](const Label& l) { return formatted ? l.Formatted() == txt : fmt == l.format(); };
  TreeView out;
  if (rng.chance(1, 2)) CollapseNodesMatchingFunction(tv, depth, [](const Label&) { return true; }, &out);  // previous contents must go
  if (formatted) CollapseNodesMatchingFormatted(tv, depth, txt, &out);
  else CollapseNodesMatchingUnformatted(tv, depth, fmt, &out);
  if (out.thread_roots().size() != tv.thread_roots().size()) Violation("prof-collapse", "collapsing changed the number of threads");
  for (auto& r : out.thread_roots()) {
    auto it = tv.thread_roots().find(r.first);
    if (it == tv.thread_roots().end()) { Violation("prof-collapse", "collapsing renamed a thread"); continue; }
    static const std::function<bool(const Label&)> never = [](const Label&) { return false; };
    if (Dump(*r.second, -1, &never, 0) != DumpRoot(*it->second, match, depth))
      Violation("prof-collapse", "collapsing at depth %d gives a different tree", depth);
    Count("collapses");
  }
  for (auto& r : tv.thread_roots()) {
    TreeView::Node n;
    const int d = rng.range(0, 4);
    CollapseNode(*r.second, d, &n);
    static const std::function<bool(const Label&)> never = [](const Label&) { return false; };
    if (Dump(n, -1, &never, 0) != Dump(*r.second, d, &never, 0)) Violation("prof-collapse", "CollapseNode at depth %d gives a different tree", d);
  }
}

// The printed report: one line per node in tree order, with its share and its
// label, deeper nodes further to the right.  Returns "" or what is wrong.
struct Line {
  std::size_t indent;
  std::string text;
};
std::string CheckPrinted(const TreeView::Node& n, const TreeView::Node& root, const std::vector<Line>& lines, std::size_t* at) {
  if (*at == lines.size()) return "a node is missing";
  const Line& l = lines[(*at)++];
  const std::string label = n.label.Formatted();
  if (l.text.size() < label.size() || l.text.compare(l.text.size() - label.size(), label.size(), label)) return "'" + l.text + "' printed for '" + label + "'";
  if (&n != &root) {
    const double share = strtod(l.text.c_str() + 1, nullptr), want = 100.0 * n.weight / root.weight;
    if (l.text[0] != '*' || share < want - 0.0101 || share > want + 0.0101) return "'" + l.text + "' printed for a share of " + std::to_string(want);
  }
  std::size_t indent = static_cast<std::size_t>(-1);
  for (auto& c : n.children) {
    if (*at < lines.size()) {
      if (indent == static_cast<std::size_t>(-1)) indent = lines[*at].indent;
      if (lines[*at].indent != indent) return "children of one node are indented differently";
      if (&n != &root && indent <= l.indent) return "a child is not indented under its parent";
    }
    const std::string e = CheckPrinted(*c, root, lines, at);
    if (!e.empty()) return e;
  }
  return "";
}

std::string CheckPrint(const TreeView& tv, std::uint64_t* compared) {
  char* text = nullptr;
  std::size_t size = 0;
  FILE* saved = stdout;
  FILE* f = open_memstream(&text, &size);
  stdout = f;
  ruy::profiler::Print(tv);
  fclose(f);
  stdout = saved;
  std::vector<Line> lines;
  for (std::size_t i = 0; i < size;) {
    std::size_t e = i;
    while (e < size && text[e] != '\n') e++;
    std::size_t b = i;
    while (b < e && text[b] == ' ') b++;
    const std::string t(text + b, e - b);
    if (!t.compare(0, 1, "*") || !t.compare(0, 7, "Thread ")) lines.push_back(Line{b - i, t});
    i = e + 1;
  }
  free(text);
  std::size_t at = 0;
  for (auto& r : tv.thread_roots()) {
    const std::string e = CheckPrinted(*r.second, *r.second, lines, &at);
    if (!e.empty()) return e;
  }
  *compared = at;
  if (at != lines.size()) return std::to_string(lines.size()) + " lines printed for " + std::to_string(at) + " nodes";
  return "";
}

// ------------------------------------------------------------------- tree
void TreeMode(long index, Rng& rng) {
  const int threads = rng.range(1, 4), samples = rng.chance(1, 10) ? 0 : rng.range(1, 200), variety = rng.range(0, 2);
  std::map<std::uint32_t, Model> models;
  std::vector<char> buf;
  std::vector<std::vector<Lab>> cur(threads);
  std::vector<std::uint32_t> ids(threads);
  for (auto& i : ids) i = rng.chance(1, 6) ? static_cast<std::uint32_t>(rng.u64()) >> 1 : rng.range(0, 40);
  std::sort(ids.begin(), ids.end());
  ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
  std::unique_ptr<pd::Stack> st(new pd::Stack);
  const int max_depth = rng.chance(1, 10) ? 64 : rng.range(1, 12);
  std::uint64_t h = 5;
  for (int s = 0; s < samples; s++) {
    const int t = rng.range(0, ids.size() - 1);
    auto& c = cur[t];
    const int moves = rng.range(0, max_depth > 20 ? 30 : 4);
    for (int i = 0; i < moves; i++) {
      if (!c.empty() && rng.chance(1, 2)) c.pop_back();
      else if (static_cast<int>(c.size()) < max_depth) c.push_back(RandomLab(rng, variety));
    }
    if (c.empty()) c.push_back(RandomLab(rng, variety));
    st->id = ids[t];
    st->size = c.size();
    std::vector<std::string> path;
    for (std::size_t i = 0; i < c.size(); i++) { c[i].Set(&st->labels[i]); path.push_back(c[i].K()); h = Mix(h, Mix(c[i].f, c[i].a[0])); }
    models[ids[t]].Add(path);
    const std::size_t n = pd::GetBufferSize(*st), o = buf.size();
    buf.resize(o + n);
    pd::CopyToBuffer(*st, buf.data() + o);
    pd::Stack back;
    pd::ReadFromBuffer(buf.data() + o, &back);
    bool same = back.id == st->id && back.size == st->size;
    for (int i = 0; same && i < st->size; i++) same = back.labels[i] == st->labels[i] && back.labels[i].Formatted() == c[i].Text();
    if (!same) Violation("prof-buffer", "a recorded stack of %d labels is read back differently", st->size);
    Count("samples");
    Max("deepest_stack", st->size);
  }
  TreeView tv;
  if (rng.chance(1, 3)) {  // previous contents must not survive
    pd::Stack x;
    x.id = 3;
    x.size = 1;
    x.labels[0].Set("stale");
    std::vector<char> b(pd::GetBufferSize(x));
    pd::CopyToBuffer(x, b.data());
    tv.Populate(b);
  }
  std::vector<char> exact(buf);  // exact capacity, so that overruns are seen
  exact.shrink_to_fit();
  tv.Populate(exact);
  std::uint64_t nodes = 0;
  std::string e = CompareTree(tv, models, &nodes);
  if (!e.empty()) Violation("prof-tree", "%s", e.c_str());
  Count("nodes", nodes);
  Count("trees");
  CheckQueries(rng, tv);
  if (rng.chance(1, 3)) {
    std::uint64_t lines = 0;
    const std::string pe = CheckPrint(tv, &lines);
    Count("prints");
    Count("printed_lines_compared", lines);
    if (!pe.empty()) Violation("prof-print", "%s", pe.c_str());
  }
  Distinct("trees", h);
  Tick();
  if (rng.chance(1, 600)) Sample("tree of " + std::to_string(samples) + " samples, " + std::to_string(nodes) + " nodes, " + std::to_string(ids.size()) + " threads");
}

// ------------------------------------------------------------------- live
// What a thread is executing, published with a sequence number that is odd
// while it is being changed.  Not used under the race detector, where it would
// hide unsynchronised accesses.
struct Shadow {
  std::atomic<std::uint32_t> seq{0};
  std::atomic<int> size{0};
  std::atomic<int> lab[pd::Stack::kMaxSize];
  std::atomic<std::uint64_t> samples{0};
};
constexpr int kShadows = 4096;
Shadow* g_shadow = nullptr;  // by thread label argument
std::vector<std::string> g_label_text;  // key text of the pool of labels

struct Taken {
  std::uint32_t id;
  std::vector<std::string> path;
};
std::vector<Taken> g_taken;  // sampler thread only, read after it has ended
bool g_record = false;
std::atomic<std::uint64_t> g_stable{0}, g_moving{0};
std::string g_bad;

void OnSample(const pd::Stack& s) {
  if (!g_record) return;
  Taken t;
  t.id = s.id;
  for (int i = 0; i < s.size; i++) t.path.push_back(Key(s.labels[i]));
  int who = -1;
  if (s.size > 0 && !strcmp(s.labels[0].format(), "thread %d")) who = atoi(s.labels[0].Formatted().c_str() + 7);
  if (who >= 0 && who < kShadows) {
    Shadow& sh = g_shadow[who];
#ifndef VF_TSAN
    const std::uint32_t a = sh.seq.load(std::memory_order_seq_cst);
    std::vector<int> copy;
    const int n = sh.size.load(std::memory_order_seq_cst);
    for (int i = 0; i < n && i < pd::Stack::kMaxSize; i++) copy.push_back(sh.lab[i].load(std::memory_order_seq_cst));
    const std::uint32_t b = sh.seq.load(std::memory_order_seq_cst);
    if (a == b && a % 2 == 0) {
      // The thread is between label changes: the stack must be what it says.
      g_stable.fetch_add(1, std::memory_order_relaxed);
      bool same = static_cast<int>(copy.size()) == s.size - 1;
      for (std::size_t i = 0; same && i < copy.size(); i++) same = t.path[i + 1] == g_label_text[copy[i]];
      if (!same && g_bad.empty()) {
        g_bad = "sampled " + std::to_string(s.size) + " labels:";
        for (auto& p : t.path) g_bad += " /" + p.substr(p.find('\x01') + 1);
        g_bad += " while executing:";
        for (int i : copy) g_bad += " /" + g_label_text[i].substr(g_label_text[i].find('\x01') + 1);
      }
    } else {
      g_moving.fetch_add(1, std::memory_order_relaxed);
    }
#endif
    sh.samples.fetch_add(1, std::memory_order_relaxed);
  }
  g_taken.push_back(std::move(t));
}

}  // namespace

extern "C" {
void __real__ZN3ruy8profiler6detail12CopyToBufferERKNS1_5StackEPc(const pd::Stack&, char*);
void __wrap__ZN3ruy8profiler6detail12CopyToBufferERKNS1_5StackEPc(const pd::Stack&, char*);
void __wrap__ZN3ruy8profiler6detail12CopyToBufferERKNS1_5StackEPc(const pd::Stack& s, char* dst) {
  __real__ZN3ruy8profiler6detail12CopyToBufferERKNS1_5StackEPc(s, dst);
  OnSample(s);
}
}

namespace {

struct Pool {
  std::vector<Lab> labs;
};

void Worker(std::uint64_t seed, int who, const Pool* pool, int steps, std::uint64_t* pushes, std::atomic<int>* neglected) {
  Rng rng(seed);
  Shadow& sh = g_shadow[who];
  const int max_depth = rng.chance(1, 10) ? 60 : rng.range(1, 10);
  std::vector<int> cur;
  ruy::profiler::ScopeLabel bottom("thread %d", who);
  pd::ThreadStack* ts = pd::ThreadLocalThreadStack();
  for (int i = 0; i < steps; i++) {
    const bool pop = !cur.empty() && rng.chance(1, 2);
    if (!pop && static_cast<int>(cur.size()) >= max_depth) continue;
    const int l = rng.range(0, pool->labs.size() - 1);
    sh.seq.fetch_add(1, std::memory_order_seq_cst);
    if (pop) {
      ts->Pop();
      cur.pop_back();
      sh.size.store(cur.size(), std::memory_order_seq_cst);
    } else {
      pool->labs[l].Push(ts);
      sh.lab[cur.size()].store(l, std::memory_order_seq_cst);
      cur.push_back(l);
      sh.size.store(cur.size(), std::memory_order_seq_cst);
      ++*pushes;
    }
    sh.seq.fetch_add(1, std::memory_order_seq_cst);
    if (rng.chance(1, 20)) {
      timespec t = {0, static_cast<long>(rng.range(0, 60000))};
      nanosleep(&t, nullptr);
    } else if (rng.chance(1, 300)) {
      // Stay here for several sampling passes: some must see this thread.
      const std::uint64_t p0 = g_passes.load(), s0 = sh.samples.load();
      for (int k = 0; k < 4000 && g_passes.load() < p0 + 6; k++) {
        timespec t = {0, 50000};
        nanosleep(&t, nullptr);
      }
      if (g_passes.load() >= p0 + 6) {
        Tick();
        if (sh.samples.load() == s0) neglected->fetch_add(1);
      }
    }
  }
  while (!cur.empty()) {
    sh.seq.fetch_add(1, std::memory_order_seq_cst);
    ts->Pop();
    cur.pop_back();
    sh.size.store(cur.size(), std::memory_order_seq_cst);
    sh.seq.fetch_add(1, std::memory_order_seq_cst);
  }
  if (ts->stack().size != 1) HarnessError("unbalanced labels");
}

void Live(long index, Rng& rng) {
  if (!g_shadow) g_shadow = new Shadow[kShadows];
  static int next = 0;
  Pool pool;
  g_label_text.clear();
  const int n = rng.range(3, 20);
  for (int i = 0; i < n; i++) {
    pool.labs.push_back(RandomLab(rng, 3));
    g_label_text.push_back(pool.labs.back().K());
  }
  g_fast.store(true);
  g_sample_ns.store(rng.pick({1000, 20000, 60000}));
  const int rounds = rng.range(1, 3);
  const int waves = rng.range(1, 3);
  for (int round = 0; round < rounds; round++) {
    g_taken.clear();
    g_bad.clear();
    TreeView tv;
    const std::uint64_t p0 = g_passes.load();
    std::vector<std::uint64_t> pushes(waves * 4, 0);
    std::atomic<int> neglected{0};
    int started = 0;
    SetContext("profile round %d, %d waves", round, waves);
    {
      std::vector<std::thread> ts;
      auto wave = [&] {
        const int k = rng.range(1, 4);
        for (int i = 0; i < k; i++) {
          const int who = next++ % kShadows;
          const int slot = started++;
          ts.emplace_back(&Worker, rng.u64(), who, &pool, static_cast<int>(rng.range(20, 1500)), &pushes[slot], &neglected);
        }
      };
      // Some threads are already running when the profile starts.
      g_record = true;
      const bool early = rng.chance(1, 2);
      if (early) wave();
      {
        ruy::profiler::ScopeProfile disabled(false);
        std::unique_ptr<ruy::profiler::ScopeProfile> prof(rng.chance(1, 2) ? new ruy::profiler::ScopeProfile : new ruy::profiler::ScopeProfile(true));
        prof->SetUserTreeView(&tv);
        for (int w = early ? 1 : 0; w < waves; w++) {
          wave();
          if (rng.chance(1, 2)) { for (auto& t : ts) t.join(); ts.clear(); }
          if (rng.chance(1, 2)) usleep(rng.range(0, 2000));
        }
        const bool late = rng.chance(1, 3);  // threads outlive the profile
        if (!late) { for (auto& t : ts) t.join(); ts.clear(); }
        prof.reset();
      }
      g_record = false;
      for (auto& t : ts) t.join();
    }
    Tick();
    Count("profiles");
    Count("threads", started);
    Count("samples_compared", g_taken.size());
    std::uint64_t total = 0;
    for (auto v : pushes) total += v;
    Count("labels_pushed", total);
    Count("sampling_passes", g_passes.load() - p0);
    if (!g_bad.empty()) Violation("prof-sample", "%s", g_bad.c_str());
    if (neglected.load()) Violation("prof-neglected", "%d times a thread was in a label for several sampling passes without being sampled", neglected.load());
    // The tree holds exactly the samples taken.
    std::map<std::uint32_t, Model> models;
    std::uint64_t h = 3, nodes = 0;
    for (auto& t : g_taken) {
      models[t.id].Add(t.path);
      for (auto& p : t.path) h = Mix(h, HashBytes(p.data(), p.size()));
      Distinct("stacks", h % 1000003);
    }
    // Every thread has an identity of its own; its bottom label tells which it is.
    std::map<std::uint32_t, std::string> owner;
    for (auto& t : g_taken) {
      if (t.path.empty()) continue;
      auto it = owner.emplace(t.id, t.path[0]).first;
      if (it->second == t.path[0]) continue;
      Violation("prof-shared-identity", "samples of \"%s\" and \"%s\" are put down to the same thread", it->second.c_str(), t.path[0].c_str());
      break;
    }
    Count("threads_identified", owner.size());
    std::string e = CompareTree(tv, models, &nodes);
    if (!e.empty()) Violation("prof-live-tree", "%s", e.c_str());
    Count("nodes", nodes);
    Distinct("profiles", h);
    CheckQueries(rng, tv);
    if (rng.chance(1, 20)) Sample(std::to_string(started) + " threads, " + std::to_string(total) + " labels pushed, " + std::to_string(g_taken.size()) + " samples, " + std::to_string(nodes) + " nodes");
  }
  Count("stable_samples", g_stable.exchange(0));
  Count("moving_samples", g_moving.exchange(0));
  g_fast.store(false);
}

// ------------------------------------------------------------------- mul
void MulMode(long index, Rng& rng) {
  GenOpts o;
  o.max_macs = rng.chance(1, 3) ? 400000 : 60000;
  o.max_dim = 220;
  o.cache_policies = rng.chance(1, 3);
  Prob p;
  Generate(rng, o, &p);
  Config cfg;
  auto paths = UsablePaths();
  cfg.path = paths[rng.range(0, paths.size() - 1)];
  cfg.threads = rng.range(1, 5);
  cfg.force_max = rng.chance(3, 4);
  cfg.spin_ms = 0;
  std::unique_ptr<ruy::Context> ctx(new ruy::Context);
  Apply(cfg, ctx.get());
  RandomCaches(rng, ctx.get());
  SetContext("%s %s", p.Describe().c_str(), Describe(cfg).c_str());
  FillDst(rng, &p);
  RunMul(p.call, ctx.get(), 1);
  const std::vector<std::uint8_t> ref = Entries(p.call.dst);
  g_fast.store(true);
  g_sample_ns.store(2000);
  g_taken.clear();
  g_record = true;
  TreeView tv;
  const int muls = rng.range(1, 12);
  {
    ruy::profiler::ScopeProfile prof;
    prof.SetUserTreeView(&tv);
    for (int i = 0; i < muls; i++) {
      if (rng.chance(1, 6)) { ctx.reset(new ruy::Context); Apply(cfg, ctx.get()); RandomCaches(rng, ctx.get()); }
      FillDst(rng, &p);
      RunMul(p.call, ctx.get(), 1);
      Tick();
      Count("muls_profiled");
      if (Entries(p.call.dst) != ref) Violation("prof-result", "result differs under the profiler; %s %s", p.Describe().c_str(), Describe(cfg).c_str());
      if (pd::ThreadLocalThreadStack()->stack().size != 0) {
        Violation("prof-unbalanced", "%d labels left after a multiplication", pd::ThreadLocalThreadStack()->stack().size);
        break;
      }
    }
    if (rng.chance(1, 2)) ctx.reset();  // workers end while sampled
  }
  g_record = false;
  g_fast.store(false);
  std::map<std::uint32_t, Model> models;
  std::uint64_t nodes = 0;
  for (auto& t : g_taken) {
    models[t.id].Add(t.path);
    std::uint64_t h = 1;
    for (auto& q : t.path) h = Mix(h, HashBytes(q.data(), q.size()));
    Distinct("mul_stacks", h);
  }
  Count("mul_samples", g_taken.size());
  std::string e = CompareTree(tv, models, &nodes);
  if (!e.empty()) Violation("prof-mul-tree", "%s", e.c_str());
  if (rng.chance(1, 60)) Sample(std::to_string(muls) + " multiplications profiled, " + std::to_string(g_taken.size()) + " samples, " + p.Describe());
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, [](const std::string&) { StartWatchdog(20, 300); },
              [](long index, Rng& rng) {
                if (args.mode == "tree") TreeMode(index, rng);
                else if (args.mode == "live") Live(index, rng);
                else if (args.mode == "mul") MulMode(index, rng);
                else HarnessError("mode %s", args.mode.c_str());
              });
}
