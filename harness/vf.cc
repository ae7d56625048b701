#include "vf.h"

#include <dirent.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <thread>

namespace vf {

Args args;

namespace {
std::mutex g_mu;
std::map<std::string, std::uint64_t> g_counts;
std::map<std::string, std::unordered_set<std::uint64_t>> g_distinct;
std::map<std::string, std::uint64_t> g_max;
std::vector<std::string> g_samples;
std::atomic<int> g_violations{0};
std::atomic<long> g_case{-1};
std::atomic<std::uint64_t> g_ticks{0};
std::atomic<int> g_wd_pause{0};
char g_context[512];
int g_progress_fd = -1;

std::string Esc(const std::string& s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') r += '\\';
    if (static_cast<unsigned char>(c) < 32) { r += ' '; continue; }
    r += c;
  }
  return r;
}

void WriteOut() {
  if (args.out.empty()) return;
  std::string tmp = args.out + ".tmp";
  FILE* f = fopen(tmp.c_str(), "w");
  if (!f) { fprintf(stderr, "cannot write %s\n", tmp.c_str()); _exit(3); }
  std::lock_guard<std::mutex> l(g_mu);
  fprintf(f, "{\"counts\":{");
  bool first = true;
  for (auto& p : g_counts) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", p.first.c_str(), (unsigned long long)p.second); first = false; }
  fprintf(f, "},\"max\":{");
  first = true;
  for (auto& p : g_max) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", p.first.c_str(), (unsigned long long)p.second); first = false; }
  fprintf(f, "},\"distinct\":{");
  first = true;
  for (auto& p : g_distinct) {
    fprintf(f, "%s\"%s\":[", first ? "" : ",", p.first.c_str());
    first = false;
    bool f2 = true;
    for (auto h : p.second) { fprintf(f, "%s\"%llx\"", f2 ? "" : ",", (unsigned long long)h); f2 = false; }
    fprintf(f, "]");
  }
  fprintf(f, "},\"samples\":[");
  first = true;
  for (auto& s : g_samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", Esc(s).c_str()); first = false; }
  fprintf(f, "],\"violations\":%d,\"done\":true}\n", g_violations.load());
  fclose(f);
  rename(tmp.c_str(), args.out.c_str());
}

void SigHandler(int sig, siginfo_t* si, void*) {
  char buf[900];
  int n = snprintf(buf, sizeof buf, "\nCRASH signal=%d addr=%p case=%ld context=%s\n", sig, si ? si->si_addr : nullptr,
                   g_case.load(), g_context);
  if (n > 0) (void)!write(1, buf, n < (int)sizeof buf ? n : (int)sizeof buf - 1);
  signal(sig, SIG_DFL);
  raise(sig);
}
}  // namespace

std::uint64_t HashBytes(const void* p, std::size_t n, std::uint64_t h) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  while (n >= 8) {
    std::uint64_t v;
    memcpy(&v, c, 8);
    h = Mix(h, v);
    c += 8; n -= 8;
  }
  std::uint64_t v = 0;
  memcpy(&v, c, n);
  return Mix(h, v + n);
}

std::uint64_t CaseSeed(long index) {
  std::uint64_t h = Mix(0xabcdef, args.seed);
  h = HashBytes(args.mode.data(), args.mode.size(), h);
  return Mix(h, static_cast<std::uint64_t>(index));
}

void SetCase(long index) {
  g_case = index;
  Tick();
  if (g_progress_fd >= 0) {
    char b[32];
    int n = snprintf(b, sizeof b, "%-20ld\n", index);
    (void)!pwrite(g_progress_fd, b, n, 0);
  }
}
long CurrentCase() { return g_case; }

void SetContext(const char* fmt, ...) {
  char tmp[sizeof g_context];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(tmp, sizeof tmp, fmt, ap);
  va_end(ap);
  memcpy(g_context, tmp, sizeof tmp);
}

void Violation(const std::string& key, const char* fmt, ...) {
  char buf[1500];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  for (char* c = buf; *c; c++) if (*c == '\n') *c = ' ';
  int n = ++g_violations;
  if (n <= 20) {
    std::lock_guard<std::mutex> l(g_mu);
    printf("V key=%s case=%ld %s\n", key.c_str(), g_case.load(), buf);
    fflush(stdout);
  }
}
int ViolationCount() { return g_violations; }
bool TooManyViolations() { return g_violations >= 12; }

void HarnessError(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  printf("HARNESS-ERROR case=%ld ", g_case.load());
  vprintf(fmt, ap);
  printf("\n");
  va_end(ap);
  fflush(stdout);
  _exit(3);
}

void Count(const std::string& name, std::uint64_t n) {
  std::lock_guard<std::mutex> l(g_mu);
  g_counts[name] += n;
}
void Distinct(const std::string& name, std::uint64_t hash) {
  std::lock_guard<std::mutex> l(g_mu);
  auto& s = g_distinct[name];
  if (s.size() < 200000) s.insert(hash);
}
void Max(const std::string& name, std::uint64_t v) {
  std::lock_guard<std::mutex> l(g_mu);
  auto& m = g_max[name];
  if (v > m) m = v;
}
void Sample(const std::string& text) {
  std::lock_guard<std::mutex> l(g_mu);
  if (g_samples.size() < 4) g_samples.push_back(text);
}

void Tick() { g_ticks.fetch_add(1, std::memory_order_relaxed); }

void WatchdogPause() { g_wd_pause++; }
void WatchdogResume() { g_wd_pause--; Tick(); }

namespace {
// Returns true if every thread but the caller is blocked (state S or D).
bool AllOthersBlocked() {
  const long self = syscall(SYS_gettid);
  DIR* d = opendir("/proc/self/task");
  if (!d) return false;
  bool all = true;
  while (dirent* e = readdir(d)) {
    long tid = atol(e->d_name);
    if (tid <= 0 || tid == self) continue;
    char path[64], buf[512];
    snprintf(path, sizeof path, "/proc/self/task/%ld/stat", tid);
    int fd = open(path, O_RDONLY);
    if (fd < 0) continue;
    int n = read(fd, buf, sizeof buf - 1);
    close(fd);
    if (n <= 0) continue;
    buf[n] = 0;
    char* p = strrchr(buf, ')');
    if (!p || (p[2] != 'S')) { all = false; break; }
  }
  closedir(d);
  return all;
}

void WatchdogFunc(int blocked_seconds, int busy_cpu_seconds) {
  std::uint64_t last = g_ticks;
  int blocked_samples = 0;
  timespec cpu0;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &cpu0);
  while (true) {
    timespec ts{0, 50 * 1000 * 1000};
    nanosleep(&ts, nullptr);
    std::uint64_t now = g_ticks;
    timespec cpu;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &cpu);
    if (now != last || g_wd_pause.load()) {
      last = now;
      blocked_samples = 0;
      cpu0 = cpu;
      continue;
    }
    if (AllOthersBlocked()) blocked_samples++; else blocked_samples = 0;
    double cpu_used = (cpu.tv_sec - cpu0.tv_sec) + 1e-9 * (cpu.tv_nsec - cpu0.tv_nsec);
    if (blocked_samples > blocked_seconds * 20) {
      printf("V key=deadlock case=%ld every thread blocked for %d s without progress; %s\n", g_case.load(), blocked_seconds, g_context);
      fflush(stdout);
      _exit(4);
    }
    if (cpu_used > busy_cpu_seconds) {
      printf("HANG case=%ld no progress during %d s of CPU time; %s\n", g_case.load(), busy_cpu_seconds, g_context);
      fflush(stdout);
      _exit(5);
    }
  }
}
}  // namespace

void StartWatchdog(int blocked_seconds, int busy_cpu_seconds) {
  std::thread(WatchdogFunc, blocked_seconds, busy_cpu_seconds).detach();
}

int Main(int argc, char** argv, const std::function<void(const std::string&)>& init,
         const std::function<void(long, Rng&)>& body, const std::function<void()>& finish) {
  bool one = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() -> const char* {
      if (i + 1 >= argc) HarnessError("missing value for %s", a.c_str());
      return argv[++i];
    };
    if (a == "--mode") args.mode = next();
    else if (a == "--seed") args.seed = strtoull(next(), nullptr, 10);
    else if (a == "--from") args.from = atol(next());
    else if (a == "--to") args.to = atol(next());
    else if (a == "--case") { args.from = atol(next()); args.to = args.from + 1; one = true; }
    else if (a == "--thorough") args.thorough = true;
    else if (a == "--out") args.out = next();
    else if (a == "--progress") args.progress = next();
    else if (a == "--extra") args.extra = next();
    else if (a == "-v") args.verbose = true;
    else HarnessError("unknown argument %s", a.c_str());
  }
  (void)one;
  if (!args.progress.empty()) {
    g_progress_fd = open(args.progress.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0644);
  }
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && !defined(VF_SANITIZED)
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = SigHandler;
  sa.sa_flags = SA_SIGINFO | SA_RESETHAND;
  for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT}) sigaction(s, &sa, nullptr);
#endif
  if (init) init(args.mode);
  for (long i = args.from; i < args.to; i++) {
    SetCase(i);
    Rng rng(CaseSeed(i));
    body(i, rng);
    Count("cases");
    if (TooManyViolations()) break;
  }
  if (finish) finish();
  WriteOut();
  fflush(stdout);
  return 0;
}

// ---------------------------------------------------------------- GuardBuf
namespace {
const std::size_t kPage = 4096;
const std::uint8_t kCanary = 0xC9;
}  // namespace

void GuardBuf::Init(std::size_t bytes, Guard g, std::size_t align) {
  Free();
  bytes_ = bytes;
  if (g == Guard::kHeap) {
    heap_ = true;
    data_ = malloc(bytes ? bytes : 1);
    if (!data_) HarnessError("malloc failed");
    return;
  }
  heap_ = false;
  std::size_t usable = (bytes + align + kPage - 1) / kPage * kPage;
  if (usable == 0) usable = kPage;
  map_bytes_ = usable + 2 * kPage;
  map_ = mmap(nullptr, map_bytes_, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (map_ == MAP_FAILED) HarnessError("mmap failed");
  std::uint8_t* base = static_cast<std::uint8_t*>(map_) + kPage;
  if (mprotect(base, usable, PROT_READ | PROT_WRITE)) HarnessError("mprotect failed");
  if (g == Guard::kStart) {
    data_ = base;
  } else {
    std::uintptr_t p = reinterpret_cast<std::uintptr_t>(base) + usable - bytes;
    p -= p % align;
    data_ = reinterpret_cast<void*>(p);
  }
  lead_ = base;
  lead_n_ = static_cast<std::uint8_t*>(data_) - base;
  trail_n_ = usable - lead_n_ - bytes;
  memset(base, kCanary, lead_n_);
  memset(static_cast<std::uint8_t*>(data_) + bytes, kCanary, trail_n_);
}

void GuardBuf::Free() {
  if (map_) munmap(map_, map_bytes_);
  if (heap_ && data_) free(data_);
  map_ = nullptr;
  data_ = nullptr;
  heap_ = false;
  bytes_ = 0;
}

bool GuardBuf::CheckCanaries() const {
  if (heap_ || !map_) return true;
  for (std::size_t i = 0; i < lead_n_; i++) if (lead_[i] != kCanary) return false;
  const std::uint8_t* t = static_cast<const std::uint8_t*>(data_) + bytes_;
  for (std::size_t i = 0; i < trail_n_; i++) if (t[i] != kCanary) return false;
  return true;
}

void GuardBuf::Protect(bool readonly) {
  if (heap_ || !map_) return;
  mprotect(static_cast<std::uint8_t*>(map_) + kPage, map_bytes_ - 2 * kPage, readonly ? PROT_READ : (PROT_READ | PROT_WRITE));
}

}  // namespace vf
