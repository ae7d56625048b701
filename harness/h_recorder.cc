// Monitors on the trace recorder by itself (P27).
//   mode recorder: threads record invented scopes and lines at the same time in
//                  a child process; the trace it leaves at exit has to hold
//                  exactly these, thread by thread
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <memory>
#include <thread>

#include "ruy/trace.h"
#include "trace_parse.h"
#include "vf.h"

using namespace vf;

namespace {

int g_err = -1, g_trace = -1;

std::string ReadFd(int fd) {
  std::string s;
  char buf[65536];
  lseek(fd, 0, SEEK_SET);
  for (;;) {
    ssize_t n = read(fd, buf, sizeof buf);
    if (n <= 0) break;
    s.append(buf, n);
  }
  return s;
}

const char* const kFiles[] = {"pack.h", "ruy/kernel.h", "/a/b/trmul.cc", "x/block_map.cc", "thread_pool.cc", "ruy\\ctx.cc", "../ruy.h", "d/prepare_packed_matrices.cc"};
const char* const kBases[] = {"pack.h", "kernel.h", "trmul.cc", "block_map.cc", "thread_pool.cc", "ctx.cc", "ruy.h", "prepare_packed_matrices.cc"};
const char* const kScopes[] = {"Mul", "TrMulTask::Run", "operator()", "Main loop iteration", "RunPack<f, g>"};

std::string Words(Rng& rng) {
  static const char* const kParts[] = {"LHS", "Matrix<float>", "a<b>c", "[0, 8)x[16, 24)", "100%", "%d", "&", "&lt", "panel #3", ">>", "<<<", "\\n", "}", "{x"};
  std::string s;
  const int n = rng.range(1, 8);
  for (int i = 0; i < n; i++) s += (i ? " " : "") + std::string(kParts[rng.range(0, 13)]);
  return s;
}

// One thread's history; the same when recorded and when predicted.
void Play(Rng& rng, int depth, int* budget, std::vector<TraceLine>* expect) {
  const int n = rng.range(1, 6);
  for (int i = 0; i < n && *budget > 0; i++) {
    --*budget;
    const int f = rng.range(0, 7), line = rng.range(1, 900);
    if (depth < 12 && rng.chance(1, 3)) {
      const char* name = kScopes[rng.range(0, 4)];
      if (expect) {
        expect->push_back(TraceLine{kBases[f], line, depth, std::string(name) + " {"});
        Play(rng, depth + 1, budget, expect);
        expect->push_back(TraceLine{kBases[f], line, depth, std::string("}  // end of ") + name});
      } else {
        ruy::RuyTraceScope scope(kFiles[f], line, name);
        Play(rng, depth + 1, budget, nullptr);
      }
    } else {
      const std::string words = Words(rng);
      const int number = rng.range(-1000000, 1000000);
      if (expect) {
        expect->push_back(TraceLine{kBases[f], line, depth, words + ": " + std::to_string(number)});
      } else {
        ruy::ThreadLocalTrace()->set_current_source_file(kFiles[f]);
        ruy::ThreadLocalTrace()->set_current_source_line(line);
        ruy::ThreadLocalTrace()->Write("%s: %d", words, number);
      }
    }
  }
}

void RecorderMode(long index, Rng& rng) {
  if (g_err < 0) {
    g_err = memfd_create("err", 0);
    g_trace = memfd_create("trace", 0);
    if (g_err < 0 || g_trace < 0) HarnessError("no memory to share");
  }
  const int threads = rng.range(1, 12);
  const bool html = rng.chance(1, 2);
  std::vector<int> ids(threads), budgets(threads);
  for (int i = 0; i < threads; i++) ids[i] = i;
  for (int i = threads - 1; i > 0; i--) std::swap(ids[i], ids[rng.range(0, i)]);
  for (int& b : budgets) b = rng.range(1, rng.chance(1, 4) ? 400 : 40);
  const std::uint64_t seed = rng.u64();
  const std::string where = std::to_string(threads) + " threads, " + (html ? "html" : "terminal");
  SetContext("%s", where.c_str());
  int status = 0;
  bool timed_out = false;
  for (int attempt = 0; attempt < 2; attempt++) {
    for (int fd : {g_err, g_trace}) {
      if (ftruncate(fd, 0)) HarnessError("ftruncate failed");
      lseek(fd, 0, SEEK_SET);
    }
    fflush(stdout);
    const pid_t pid = fork();
    if (pid < 0) HarnessError("fork failed");
    if (pid == 0) {
      struct rlimit no_core = {0, 0};
      setrlimit(RLIMIT_CORE, &no_core);
      dup2(g_err, 2);
      dup2(g_err, 1);
      for (int sig : {SIGABRT, SIGILL, SIGFPE, SIGSEGV, SIGBUS}) signal(sig, SIG_DFL);
      setenv("RUY_TRACE_HTML", html ? "1" : "0", 1);
      setenv("RUY_TRACE_FILE", ("/proc/self/fd/" + std::to_string(g_trace)).c_str(), 1);
      std::vector<std::thread> ts;
      std::atomic<int> ready{0};
      for (int i = 0; i < threads; i++) ts.emplace_back([&, i] {
        ready++;
        while (ready < threads) std::this_thread::yield();
        Rng r(seed + i);
        int budget = budgets[i];
        Play(r, 0, &budget, nullptr);
        ruy::ThreadLocalTrace()->set_thread_id(ids[i]);
      });
      for (auto& t : ts) t.join();
      exit(0);
    }
    timed_out = false;
    for (int ms = 0;; ms++) {
      const pid_t r = waitpid(pid, &status, WNOHANG);
      if (r == pid) break;
      if (r < 0) HarnessError("waitpid failed");
      if (ms > 60000) {
        kill(pid, SIGKILL);
        waitpid(pid, &status, 0);
        timed_out = true;
        break;
      }
      timespec ts{0, ms < 50 ? 100000 : 1000000};
      nanosleep(&ts, nullptr);
    }
    Tick();
    if (!timed_out) break;
  }
  Count("recordings");
  if (timed_out || status) {
    Violation(timed_out ? "trace-hang" : "trace-died", "a recording process %s (status %x) %s; %s", timed_out ? "did not finish" : "did not exit normally", status,
              ReadFd(g_err).substr(0, 600).c_str(), where.c_str());
    return;
  }
  const std::string trace = ReadFd(g_trace), other = ReadFd(g_err);
  if (!other.empty()) Violation("trace-place", "%zu bytes written elsewhere (%s); %s", other.size(), other.substr(0, 100).c_str(), where.c_str());
  std::vector<TraceSection> sections;
  const std::string err = ParseTrace(trace, html, &sections);
  if (!err.empty()) { Violation("trace-form", "%s; %s", err.c_str(), where.c_str()); return; }
  if (static_cast<int>(sections.size()) != threads) Violation("recorder-threads", "%zu threads in the trace; %s", sections.size(), where.c_str());
  std::uint64_t h = 0;
  for (int i = 0; i < threads; i++) {
    std::vector<TraceLine> want;
    Rng r(seed + i);
    int budget = budgets[i];
    Play(r, 0, &budget, &want);
    const TraceSection* got = nullptr;
    for (auto& t : sections) if (t.id == ids[i]) got = &t;
    if (!got) { Violation("recorder-threads", "no thread %d in the trace; %s", ids[i], where.c_str()); continue; }
    if (got->lines.size() != want.size()) Violation("recorder-lines", "thread %d: %zu lines instead of %zu; %s", ids[i], got->lines.size(), want.size(), where.c_str());
    for (std::size_t k = 0; k < want.size() && k < got->lines.size(); k++) {
      const TraceLine &a = got->lines[k], &b = want[k];
      h = Mix(h, HashBytes(b.text.data(), b.text.size()));
      if (a.file == b.file && a.line == b.line && a.indent == b.indent && a.text == b.text) continue;
      Violation("recorder-line", "thread %d line %zu: '%s:%d' %d '%s' instead of '%s:%d' %d '%s'; %s", ids[i], k, a.file.c_str(), a.line, a.indent, a.text.c_str(),
                b.file.c_str(), b.line, b.indent, b.text.c_str(), where.c_str());
      break;
    }
    Count("recorded_lines_compared", want.size());
  }
  Distinct("recordings", h);
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, [](const std::string&) {}, [](long index, Rng& rng) { RecorderMode(index, rng); });
}
