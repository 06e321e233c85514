// Native run of a harness on concrete inputs: replays counterexamples and
// cross-checks the symbolic executor.  Input file, one case per line:
//   harness nparams p.. ninputs v..      (decimal / hex values)
// Output per case: "case", "out <hex..>" lines, "fail <what>", "skip", "exc <what>", "ok".
#include "verif.h"
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <ctime>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/wait.h>
#include <exception>
#include <fstream>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
static thread_local std::vector<int64_t> P;
static thread_local std::vector<uint64_t> I;
static thread_local size_t pos;
static thread_local jmp_buf jb;
static thread_local std::string log_;
static thread_local int failed;
extern "C" {
uint64_t v_sym(unsigned b) { uint64_t v = pos < I.size() ? I[pos] : 0; pos++; return b < 64 ? v & ((1ull << b) - 1) : v; }
void v_sym_bytes(void *p, size_t n) { for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)v_sym(8); }
int64_t v_param(int i) { return P.at(i); }
void v_assume(bool c) { if (!c) longjmp(jb, 1); }
void v_assert(bool c, const char *w) { if (!c) { failed = 1; log_ += std::string("fail ") + w + "\n"; longjmp(jb, 2); } }
void v_reach(int) {}
void v_out(const void *p, size_t n) {
  log_ += "out"; char b[8];
  for (size_t i = 0; i < n; i++) { snprintf(b, sizeof b, " %x", ((const unsigned char *)p)[i]); log_ += b; }
  log_ += "\n";
}
void v_outi(uint64_t v) { char b[32]; snprintf(b, sizeof b, "out %llx\n", (unsigned long long)v); log_ += b; }
uint64_t v_split(uint64_t v) { return v; }
int v_symbolic(void) { return 0; }
void v_mark(void) {}
void v_reset(void) {}
void v_alone(void (*f)(void *), void *a, void *buf, size_t n) {
  int fd[2];
  if (pipe(fd)) abort();
  fflush(stdout);
  pid_t c = fork();
  if (c < 0) abort();
  if (c == 0) {
    try { f(a); } catch (...) { _exit(3); }
    for (size_t i = 0; i < n;) { ssize_t k = write(fd[1], (char *)buf + i, n - i); if (k <= 0) _exit(4); i += (size_t)k; }
    _exit(0);
  }
  close(fd[1]);
  for (size_t i = 0; i < n;) { ssize_t k = read(fd[0], (char *)buf + i, n - i); if (k <= 0) break; i += (size_t)k; }
  close(fd[0]);
  int st;
  waitpid(c, &st, 0);
}
void v_assert_nearest(uint64_t, uint64_t, int, uint64_t bits, const char *text, const char *what) {
  double d = strtod(text, 0); uint64_t u; memcpy(&u, &d, 8);
  v_assert(u == bits, what);
}
void v_assert_nearest32(uint64_t, uint64_t, int, uint32_t bits, const char *text, const char *what) {
  float d = strtof(text, 0); uint32_t u; memcpy(&u, &d, 4);
  v_assert(u == bits, what);
}
void v_assert_lin(const uint64_t *r, size_t n, const uint64_t *x, const uint64_t *c, size_t k, size_t m, const char *what) {
  size_t N = (n > m ? n : m) + 3;
  std::vector<uint64_t> s(N, 0);
  for (size_t i = 0; i < k; i++) {
    unsigned __int128 t = 0;
    for (size_t j = 0; j < N; j++) {
      t += s[j];
      if (j < m) t += (unsigned __int128)x[i] * c[i * m + j];
      s[j] = (uint64_t)t;
      t >>= 64;
    }
  }
  bool ok = true;
  for (size_t j = 0; j < N; j++) ok = ok && s[j] == (j < n ? r[j] : 0);
  v_assert(ok, what);
}
void v_assert_conv(int k, const void *r, const char *t, const char *what) {
  if (k == 0) { float a, b = strtof(t, 0); memcpy(&a, r, 4); v_assert(!memcmp(&a, &b, 4) || (a != a && b != b), what); }
  if (k == 1) { double a, b = strtod(t, 0); memcpy(&a, r, 8); v_assert(!memcmp(&a, &b, 8) || (a != a && b != b), what); }
  if (k == 2) { long double a, b = strtold(t, 0); memcpy(&a, r, 10); v_assert(!memcmp(&a, &b, 10) || (a != a && b != b), what); }
}
}
static void one(void (*f)(), const std::vector<int64_t> &p, const std::vector<uint64_t> &in, std::string &out) {
  P = p; I = in; pos = 0; failed = 0; log_ = "";
  int r = setjmp(jb);
  if (r == 0) {
    try { f(); } catch (std::exception &e) { log_ += std::string("exc ") + e.what() + "\n"; } catch (...) { log_ += "exc ?\n"; }
  }
  if (r == 1) log_ += "skip\n"; else if (r == 0) log_ += "ok\n";
  out = log_;
}
// Search for a concrete failing input of a job the solver could not settle.
// Line: harness nparams p.. ninputs width..; prints "hit <hex..>" for the first failure.
static void died(int) {
  char b[4096]; int n = snprintf(b, sizeof b, "hit");
  for (size_t i = 0; i < I.size() && n < 4000; i++) n += snprintf(b + n, sizeof b - n, " %llx", (unsigned long long)I[i]);
  b[n++] = '\n';
  if (write(1, b, n)) {}
  _exit(0);
}
static int search(const char *file, long count, unsigned secs) {
  std::ifstream f(file);
  std::string h; size_t n;
  f >> h >> n;
  std::vector<int64_t> p(n);
  for (auto &x : p) f >> x;
  f >> n;
  std::vector<unsigned> w(n);
  for (auto &x : w) f >> x;
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, h.c_str());
  if (!fn) return 0;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, died);
  uint64_t x = 0x9e3779b97f4a7c15ull;
  auto rnd = [&] { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x * 0x2545f4914f6cdd1dull; };
  std::vector<uint64_t> in(n);
  std::string out;
  time_t end = time(nullptr) + secs;
  static const char text[] = "0123456789+-.eE \t\nx";
  for (long k = 0; k < count && time(nullptr) < end; k++) {
    uint64_t mode = rnd() >> 60;
    for (size_t i = 0; i < n; i++) {
      uint64_t v = rnd() >> (64 - w[i]), r = rnd() >> 32;
      if (w[i] == 8 && mode & 8) v = (unsigned char)text[r % (sizeof text - 1)];
      else if (w[i] > 8 && mode == 1) v >>= r % w[i];
      else if (w[i] > 8 && mode == 2) v = (w[i] < 64 ? (1ull << w[i]) - 1 : ~0ull) ^ (v >> r % w[i]);
      else if (w[i] > 8 && mode == 3) v &= ~0ull << r % w[i];
      in[i] = v;
    }
    alarm(20);
    one(fn, p, in, out);
    if (failed || out.find("exc") != std::string::npos) { I = in; died(0); }
  }
  alarm(0);
  return 0;
}
int main(int argc, char **argv) {
  if (argc > 4 && !strcmp(argv[2], "search")) return search(argv[1], atol(argv[3]), (unsigned)atoi(argv[4]));
  std::ifstream f(argv[1]);
  int threads = argc > 2 ? atoi(argv[2]) : 1;
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream s(line);
    std::string h, t; size_t n;
    s >> h >> n;
    std::vector<int64_t> p(n);
    for (auto &x : p) s >> x;
    s >> n;
    std::vector<uint64_t> in(n);
    for (auto &x : in) { s >> t; x = strtoull(t.c_str(), 0, 0); }
    void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, h.c_str());
    printf("case\n"); fflush(stdout);
    if (!fn) { printf("nosym\n"); continue; }
    if (threads > 1) {
      std::vector<std::thread> ts; std::vector<std::string> o(threads);
      for (int i = 0; i < threads; i++) ts.emplace_back([&, i] { for (int k = 0; k < 50; k++) one(fn, p, in, o[i]); });
      for (auto &x : ts) x.join();
      fputs(o[0].c_str(), stdout);
    } else { std::string o; one(fn, p, in, o); fputs(o.c_str(), stdout); }
    fflush(stdout);
  }
  return 0;
}
