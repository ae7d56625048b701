// A workload whose results are digested, to be compared between builds (P20).
//   mode digest: one line per case and code path
#include <cstdio>

#include "ctxutil.h"
#include "problem.h"
#include "vf.h"

using namespace vf;

namespace {

FILE* g_digests = nullptr;

void Digest(long index, Rng& rng) {
  GenOpts o;
  o.max_macs = rng.chance(1, 12) ? 3000000 : rng.chance(1, 3) ? 400000 : 40000;
  o.max_dim = rng.chance(1, 5) ? 700 : 200;
  o.cache_policies = rng.chance(1, 3);
  Prob p;
  Generate(rng, o, &p);
  const std::uint64_t case_seed = rng.u64();
  const int compiled = rng.chance(1, 2);
  const int repeats = o.cache_policies ? 3 : 1;
  // Paths left out of a build by its switches are not detected and not used
  // there; unscaled integer results are the same on every path, so they are
  // also compared on whichever path is chosen by default.
  ruy::Context probe;
  const int detected = static_cast<int>(probe.get_runtime_enabled_paths());
  std::vector<int> paths;
  for (int path : UsablePaths(compiled == 1))
    if (path < 0x10 || (path & detected)) paths.push_back(path);
  if (RawInt(p.call)) paths.push_back(0);
  for (int path : paths) {
    Rng r(Mix(case_seed, path));
    Config cfg;
    cfg.path = path;
    cfg.threads = r.range(1, 6);
    cfg.force_max = r.chance(2, 3);
    cfg.tuning = r.range(0, 2);
    cfg.spin_ms = r.chance(1, 2) ? 0 : 1;
    ruy::Context ctx;
    Apply(cfg, &ctx);
    if (r.chance(3, 4)) RandomCaches(r, &ctx);
    SetContext("%s %s", p.Describe().c_str(), Describe(cfg).c_str());
    std::uint64_t h = 7;
    const std::uint64_t fill_seed = r.u64();
    for (int i = 0; i < repeats; i++) {
      Rng f(Mix(fill_seed, i));
      FillDst(f, &p);
      RunMul(p.call, &ctx, compiled);
      std::vector<std::uint8_t> raw = Raw(p.call.dst);
      h = Mix(h, HashBytes(raw.data(), raw.size()));
      Tick();
      Count("muls");
    }
    // The entry point with a single compiled path is what was asked for.
    if (path && (ctx.last_used_path() != static_cast<ruy::Path>(path)))
      Violation("switch-path", "path %s asked for, %x used", PathName(path), static_cast<int>(ctx.last_used_path()));
    if (g_digests) fprintf(g_digests, "%ld %s %016llx %s %s\n", index, PathName(path), (unsigned long long)h, p.Describe().c_str(), Describe(cfg).c_str());
    Count("digests");
    Distinct("digests", Mix(h, path));
  }
  if (rng.chance(1, 500)) Sample(p.Describe());
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv,
              [](const std::string&) {
                StartWatchdog(20, 300);
                if (!args.out.empty()) g_digests = fopen((args.out + ".digests").c_str(), "w");
              },
              [](long index, Rng& rng) {
                if (args.mode == "digest") Digest(index, rng);
                else HarnessError("mode %s", args.mode.c_str());
              },
              [] { if (g_digests) fclose(g_digests); });
}
