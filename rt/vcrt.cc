// Native runtime: replays a counterexample on the real code, or searches for a failing input.
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace {
struct Entry { std::string prop, name; void (*fn)(); };
std::vector<Entry>& reg() { static std::vector<Entry> r; return r; }

struct Reject {};
struct Fail {};

struct Shared {
  volatile std::uint64_t len;
  volatile int failed;
  volatile std::uint64_t iters, rejected;
  char check[256];
  char log[1 << 20];
};
Shared* sh;

bool replay = false;
std::map<std::string, std::uint64_t> vals;     // "name#k" / "len:name" / "name[i]@off"
std::map<std::string, int> occ;
std::map<std::string, std::uint64_t> hits;     // cover points
bool throw_ok = false;
std::uint64_t rng_state;
std::vector<std::uint64_t> recent;
int mode = 0;

std::uint64_t rnd() {
  rng_state += 0x9E3779B97F4A7C15ULL;
  std::uint64_t z = rng_state;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
std::uint64_t mask(unsigned b) { return b >= 64 ? ~0ULL : ((1ULL << b) - 1); }

void logv(const std::string& k, std::uint64_t v) {
  char buf[512];
  int const n = std::snprintf(buf, sizeof buf, "%s %llu\n", k.c_str(), static_cast<unsigned long long>(v));
  if (sh->len + n < sizeof(sh->log)) {
    std::memcpy(sh->log + sh->len, buf, n);
    sh->len = sh->len + n;
  }
}

std::uint64_t gen(unsigned bits) {
  std::uint64_t v = 0;
  unsigned const k = rnd() % 100;
  int const small = mode % 3;
  if (small == 0 && k < 70) { v = rnd() % 5; }
  else if (k < 25) v = rnd() % 9;
  else if (k < 40) {
    unsigned const b = rnd() % (bits + 1);
    v = (b >= 64 ? 0 : (1ULL << b)) + (rnd() % 3) - 1;
  } else if (k < 60 && !recent.empty()) {
    v = recent[rnd() % recent.size()] + (rnd() % 5) - 2;
  } else if (k < 70) {
    v = ~0ULL - rnd() % 4;
  } else {
    unsigned const b = 1 + rnd() % bits;
    v = rnd() & mask(b);
  }
  return v & mask(bits);
}

std::uint64_t get(const std::string& key, std::uint64_t (*g)(void*), void* ctx) {
  std::uint64_t v;
  if (replay) {
    auto it = vals.find(key);
    v = it == vals.end() ? 0 : it->second;
  } else {
    v = g(ctx);
    recent.push_back(v);
    if (recent.size() > 24) recent.erase(recent.begin());
  }
  logv(key, v);
  return v;
}
std::string okey(const char* name) {
  int const k = occ[name]++;
  return std::string(name) + "#" + std::to_string(k);
}
}  // namespace

extern "C" {
void vc_register(const char* p, const char* n, void (*fn)()) { reg().push_back({p, n, fn}); }
std::uint64_t vc_nondet(const char* name, unsigned bits) {
  return get(okey(name), [](void* c) { return gen(*static_cast<unsigned*>(c)); }, &bits);
}
void vc_wide_raw(const char* name, void* dst, unsigned bits) {
  // sparse, dense and random words
  unsigned const style = replay ? 0 : rnd() % 4;
  for (unsigned k = 0; k < bits / 64; ++k) {
    struct C { unsigned style; } c{style};
    std::uint64_t v = get(okey(name), [](void* p) -> std::uint64_t {
      switch (static_cast<C*>(p)->style) {
        case 0: return rnd();
        case 1: return rnd() % 3 ? 0 : 1ULL << (rnd() % 64);
        case 2: return rnd() % 3 ? ~0ULL : ~(1ULL << (rnd() % 64));
        default: return rnd() % 2 ? 0 : rnd() & rnd() & rnd();
      }
    }, &c);
    std::memcpy(static_cast<char*>(dst) + 8 * k, &v, 8);
  }
}
double vc_nondet_double(const char* name) {
  auto v = vc_nondet(name, 64);
  double d;
  std::memcpy(&d, &v, 8);
  return d;
}
std::uint64_t vc_native_range(const char* name, std::uint64_t lo, std::uint64_t hi, int sg) {
  struct C { std::uint64_t lo, hi; int sg; } c{lo, hi, sg};
  return get(okey(name), [](void* p) -> std::uint64_t {
    auto& c = *static_cast<C*>(p);
    std::uint64_t const span = c.hi - c.lo;
    if (span == ~0ULL) return gen(64);
    unsigned const k = rnd() % 100;
    std::uint64_t off;
    if (span < 16) off = rnd() % (span + 1);
    else if (k < 15) off = rnd() % 4;
    else if (k < 30) off = span - rnd() % 4;
    else if (k < 60) {
      unsigned b = 1; while (b < 64 && (span >> b)) ++b;
      off = (rnd() & mask(1 + rnd() % b));
      if (off > span) off %= (span + 1);
    } else if (k < 75 && !recent.empty()) {
      off = recent[rnd() % recent.size()] + (rnd() % 5) - 2 - c.lo;
      if (off > span) off = rnd() % (span + 1);
    } else off = rnd() % (span + 1);
    return c.lo + off;
  }, &c);
}
bool vc_native_replaying() { return replay; }
std::uint64_t vc_native_len(const char* name, std::uint64_t maxn) {
  struct C { std::uint64_t m; } c{maxn};
  return get(std::string("len:") + name, [](void* p) { return rnd() % (static_cast<C*>(p)->m + 1); }, &c);
}
std::uint64_t vc_native_field(const char* name, std::uint64_t i, unsigned off, unsigned w) {
  unsigned bits = w * 8;
  return get(std::string(name) + "[" + std::to_string(i) + "]@" + std::to_string(off),
             [](void* c) { return gen(*static_cast<unsigned*>(c)); }, &bits);
}
void vc_assume(bool b) { if (!b) throw Reject{}; }
void vc_assert(bool b, const char* n) {
  if (!b) {
    std::snprintf(sh->check, sizeof sh->check, "%s", n);
    throw Fail{};
  }
}
void vc_cover(const char* n, bool b) { if (b) ++hits[n]; }
void vc_throws_only_if(bool b) { throw_ok = b; }
void vc_atom(bool) {}
void vc_ghost(std::uint64_t) {}
void vc_term(std::uint64_t, unsigned) {}
void vc_init_globals(const char*) {}
}

// reached through a function that no included source defines: no verdict about the code
extern "C" [[noreturn]] void vc_undefined_function() {
  std::printf("UNDEFINED FUNCTION REACHED\n");
  std::fflush(stdout);
  _exit(5);
}

static int run_once(const Entry& e) {
  occ.clear();
  throw_ok = false;
  sh->len = 0;
  std::snprintf(sh->check, sizeof sh->check, "no crash, sanitizer report or hang");
  try {
    e.fn();
  } catch (Reject&) {
    return 2;
  } catch (Fail&) {
    return 1;
  } catch (std::exception& x) {
    if (!throw_ok) {
      std::snprintf(sh->check, sizeof sh->check, "no unexpected exception or abort (%s)", x.what());
      return 1;
    }
  } catch (...) {
    if (!throw_ok) {
      std::snprintf(sh->check, sizeof sh->check, "no unexpected exception or abort");
      return 1;
    }
  }
  return 0;
}

// usage: prog list | prog replay PROP NAME FILE | prog search PROP NAME SECONDS SEED OUT
int main(int argc, char** argv) {
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::string const cmd = argc > 1 ? argv[1] : "list";
  if (cmd == "list") {
    for (auto& e : reg()) std::printf("%s %s\n", e.prop.c_str(), e.name.c_str());
    return 0;
  }
  const Entry* ent = nullptr;
  for (auto& e : reg()) if (e.prop == argv[2] && e.name == argv[3]) ent = &e;
  if (!ent) { std::printf("NO SUCH CONTRACT\n"); return 3; }
  if (cmd == "replay") {
    replay = true;
    if (FILE* f = std::fopen(argv[4], "r")) {
      char k[600]; unsigned long long v;
      while (std::fscanf(f, "%599s %llu", k, &v) == 2) vals[k] = v;
      std::fclose(f);
    }
  }
  double const secs = cmd == "search" ? std::atof(argv[4]) : 10;
  std::uint64_t const seed = cmd == "search" ? std::strtoull(argv[5], nullptr, 10) : 0;
  std::uint64_t const maxit = argc > 7 ? std::strtoull(argv[7], nullptr, 10) : 2000000;
  pid_t const pid = fork();
  if (pid == 0) {
    std::time_t const t0 = std::time(nullptr);
    std::time_t last = 0;
    rlimit rl{}; rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    if (cmd == "replay") {
      alarm(60);
      int const r = run_once(*ent);
      if (r == 1) { sh->failed = 1; _exit(1); }
      _exit(r == 2 ? 4 : 0);
    }
    for (std::uint64_t it = 0; it < maxit; ++it) {
      if (std::time_t const now = std::time(nullptr); now != last) {
        if (now - t0 > secs) break;
        alarm(60);
        last = now;
      }
      rng_state = seed * 0x100000001B3ULL + it * 0x9E3779B97F4A7C15ULL + 1;
      mode = static_cast<int>(it % 7);
      recent.clear();
      int const r = run_once(*ent);
      sh->iters = sh->iters + 1;
      if (r == 2) sh->rejected = sh->rejected + 1;
      if (r == 1) { sh->failed = 1; _exit(1); }
      if (recent.empty()) break;  // no inputs: nothing else to try
    }
    for (auto& h : hits) std::printf("cover %s %llu\n", h.first.c_str(), static_cast<unsigned long long>(h.second));
    std::fflush(stdout);
    _exit(0);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  std::printf("iterations %llu rejected %llu\n", static_cast<unsigned long long>(sh->iters),
              static_cast<unsigned long long>(sh->rejected));
  bool fail = false;
  if (WIFSIGNALED(status)) {
    std::printf("SIGNAL %d\n", WTERMSIG(status));
    fail = true;
  } else if (WEXITSTATUS(status) == 4) {
    std::printf("REJECTED (precondition not met)\n");
    return 4;
  } else if (WEXITSTATUS(status) == 5) {
    return 5;
  } else if (WEXITSTATUS(status) != 0) {
    fail = true;
  }
  if (!fail) { std::printf("PASS\n"); return 0; }
  std::printf("FAIL %s\n", sh->check);
  std::string const out = cmd == "search" ? argv[6] : "";
  if (!out.empty()) {
    if (FILE* f = std::fopen(out.c_str(), "w")) {
      std::fwrite(sh->log, 1, sh->len, f);
      std::fclose(f);
    }
  }
  std::fwrite(sh->log, 1, sh->len > 4000 ? 4000 : sh->len, stdout);
  return 1;
}

extern "C" std::uint64_t vc_result(unsigned) { return 0; }
extern "C" void vc_invariant(bool (*)()) {}
