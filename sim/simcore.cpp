// Deterministic simulator core: simulated disk below std::fstream, failing
// operator new, step clock, run/replay loop.  See sim.h and DESIGN.md.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <malloc.h>
#include <memory>
#include <new>
#include <set>
#include <unordered_set>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/resource.h>
#include <unistd.h>

#define NOCOV __attribute__((no_sanitize("coverage")))

namespace
{
  using namespace sim;
  // ------------------------------------------------------------------ raw output (never through the simulated calls)
  void raw_out(int fd, const char * s, size_t n)
  { while (n) { long r = syscall(SYS_write, fd, s, n); if (r <= 0) { if (errno == EINTR) continue; return; } s += r; n -= (size_t)r; } }
  void raw_line(std::string const & s) { std::string t = s + "\n"; raw_out(1, t.data(), t.size()); }

  // ------------------------------------------------------------------ heap state (plain globals; no allocation here)
  bool  heap_on = false;             // accounting/faults only while a run executes
  bool fail_paused = false; i64   fail_at = 0; bool fail_sticky = false; u64 fail_count = 0;
  u64   n_alloc = 0; u64 blocks = 0, bytes = 0, budget = 0, max_request = 0;
  bool  budget_hit = false;
  int   guard_depth = 0;             // >0: allocation belongs to the simulator

  struct guard { guard() { ++guard_depth; } ~guard() { --guard_depth; } };

  // ------------------------------------------------------------------ steps
  u64 step_now = 0, step_limit = 0;
  unsigned char * cov = nullptr; size_t cov_n = 0; size_t cov_hit = 0;

  // ------------------------------------------------------------------ run log
  u64 run_hash = 0; bool run_violated = false; std::string run_rule, run_detail; bool verbose_ = false;
  std::map<std::string, u64> * counters = nullptr;
  std::unordered_set<u64> * states = nullptr;
  std::string current_run;

  // ------------------------------------------------------------------ disk
  struct inode { std::string data; };
  struct handle { std::shared_ptr<inode> node; std::string path; u64 pos = 0; bool write = false; bool append = false; u64 n_read = 0, n_write = 0; bool deferred = false; };
  struct disk
  {
    std::map<std::string, std::shared_ptr<inode>> files;
    std::map<int, handle> open;       // fd -> handle
    std::vector<disk_fault> faults;
    std::vector<write_event> log;
    u64 fired = 0, fired_hard = 0;
    std::set<int> once_done;
  };
  disk * D = nullptr;
  bool is_sim_path(const char * p) { return p && std::strncmp(p, "/sim/", 5) == 0; }
  bool ends_with(std::string const & s, std::string const & x) { return s.size() >= x.size() && s.compare(s.size() - x.size(), x.size(), x) == 0; }
  disk_fault * find_fault(int kind, std::string const & path)
  { for (auto & f : D->faults) if (f.kind == kind && ends_with(path, f.suffix)) return &f; return nullptr; }
  void fire(int kind)
  {
    ++D->fired;
    if (kind != F_READ_SHORT && kind != F_READ_EINTR && kind != F_WRITE_SHORT && kind != F_WRITE_EINTR) ++D->fired_hard;
    std::string k = std::string("fault.") + fault_name(kind);
    ++(*counters)[k];
  }

  FILE * real_fopen(const char * p, const char * m)
  {
    static FILE * (*f)(const char *, const char *) = nullptr;
    if (!f) f = (FILE * (*)(const char *, const char *))dlsym(RTLD_NEXT, "fopen64");
    return f(p, m);
  }
  int real_fclose(FILE * fp)
  {
    static int (*f)(FILE *) = nullptr;
    if (!f) f = (int (*)(FILE *))dlsym(RTLD_NEXT, "fclose");
    return f(fp);
  }

  FILE * sim_fopen(const char * path, const char * mode)
  {
    guard g;
    bool w = std::strchr(mode, 'w') || std::strchr(mode, 'a') || std::strchr(mode, '+');
    if (disk_fault * f = find_fault(w ? F_OPEN_WRITE : F_OPEN_READ, path)) { fire(f->kind); errno = f->err ? f->err : EACCES; return nullptr; }
    auto it = D->files.find(path);
    if (!w && it == D->files.end()) { errno = ENOENT; return nullptr; }
    FILE * fp = real_fopen("/dev/null", w ? "r+" : "r");
    if (!fp) { raw_line("X cannot open /dev/null"); _exit(70); }
    setvbuf(fp, nullptr, _IONBF, 0);
    handle h; h.path = path; h.write = w; h.append = std::strchr(mode, 'a') != nullptr;
    if (it == D->files.end()) { D->files[path] = std::make_shared<inode>(); D->log.push_back(write_event{0, path, 0, ""}); }
    else if (std::strchr(mode, 'w')) { D->files[path] = std::make_shared<inode>(); D->log.push_back(write_event{0, path, 0, ""}); }
    h.node = D->files[path];
    if (h.append) h.pos = h.node->data.size();
    D->open[fileno(fp)] = h;
    return fp;
  }

  ssize_t sim_read(handle & h, void * buf, size_t n)
  {
    guard g;
    ++h.n_read;
    if (disk_fault * f = find_fault(F_READ_EINTR, h.path))
      if (h.n_read % (u64)(f->n < 2 ? 2 : f->n) == 1) { fire(f->kind); errno = EINTR; return -1; }
    std::string const & d = h.node->data;
    size_t avail = h.pos < d.size() ? d.size() - h.pos : 0;
    size_t m = n < avail ? n : avail;
    if (disk_fault * f = find_fault(F_READ_SHORT, h.path))
      if ((i64)m > f->n && f->n > 0) { m = (size_t)f->n; fire(f->kind); }
    if (disk_fault * f = find_fault(F_READ_EIO, h.path))
    {
      if ((i64)h.pos >= f->n) { fire(f->kind); errno = EIO; return -1; }
      if ((i64)(h.pos + m) > f->n) m = (size_t)(f->n - (i64)h.pos);
    }
    for (size_t i = 0; i < D->faults.size(); ++i)
    {
      disk_fault & f = D->faults[i];
      if (f.kind != F_READ_EIO_ONCE || !ends_with(h.path, f.suffix) || D->once_done.count((int)i)) continue;
      if ((i64)h.pos >= f.n) { D->once_done.insert((int)i); fire(f.kind); errno = EIO; return -1; }
      if ((i64)(h.pos + m) > f.n) m = (size_t)(f.n - (i64)h.pos);
    }
    std::memcpy(buf, d.data() + h.pos, m);
    h.pos += m;
    return (ssize_t)m;
  }

  ssize_t sim_write(handle & h, const char * buf, size_t n)
  {
    guard g;
    ++h.n_write;
    if (disk_fault * f = find_fault(F_WRITE_EINTR, h.path))
      if (h.n_write % (u64)(f->n < 2 ? 2 : f->n) == 1) { fire(f->kind); errno = EINTR; return -1; }
    size_t m = n;
    if (disk_fault * f = find_fault(F_WRITE_SHORT, h.path))
      if ((i64)m > f->n && f->n > 0) { m = (size_t)f->n; fire(f->kind); }
    if (disk_fault * f = find_fault(F_WRITE_EIO, h.path))
    {
      if ((i64)h.pos + (i64)m > f->n && (i64)h.pos >= f->n) { fire(f->kind); errno = EIO; return -1; }
      if ((i64)(h.pos + m) > f->n) m = (size_t)(f->n - (i64)h.pos);
    }
    for (size_t i = 0; i < D->faults.size(); ++i)
    {
      disk_fault & f = D->faults[i];
      if (f.kind != F_WRITE_ONCE || !ends_with(h.path, f.suffix) || D->once_done.count((int)i)) continue;
      if (m > 0 && (i64)h.pos >= f.n) { D->once_done.insert((int)i); fire(f.kind); errno = f.err % 2 ? EIO : ENOSPC; return -1; }
      if ((i64)(h.pos + m) > f.n) m = (size_t)(f.n - (i64)h.pos);
    }
    for (auto & f : D->faults)
      if (f.kind == F_WRITE_ENOSPC && ends_with(h.path, f.suffix))
      {
        if (m > 0 && f.n <= 0) { fire(f.kind); errno = ENOSPC; return -1; }
        if ((i64)m > f.n) m = (size_t)f.n;
        f.n -= (i64)m;
      }
    if (h.append) h.pos = h.node->data.size();
    if (h.node->data.size() < h.pos + m) h.node->data.resize(h.pos + m);
    std::memcpy(&h.node->data[0] + h.pos, buf, m);
    D->log.push_back(write_event{1, h.path, h.pos, std::string(buf, m)});
    h.pos += m;
    return (ssize_t)m;
  }
}

// ======================================================================== interposed libc calls
extern "C"
{
  NOCOV FILE * fopen64(const char * p, const char * m) { if (D && is_sim_path(p)) return sim_fopen(p, m); return real_fopen(p, m); }
  NOCOV FILE * fopen(const char * p, const char * m) { if (D && is_sim_path(p)) return sim_fopen(p, m); return real_fopen(p, m); }
  NOCOV int fclose(FILE * fp)
  {
    if (D && !D->open.empty())
    {
      guard g;
      auto it = D->open.find(fileno(fp));
      if (it != D->open.end())
      {
        bool err = false;
        if (it->second.write)
        {
          D->log.push_back(write_event{2, it->second.path, 0, ""});
          if (disk_fault * f = find_fault(F_CLOSE_ERR, it->second.path)) { fire(f->kind); err = true; }
        }
        D->open.erase(it);
        real_fclose(fp);
        if (err) { errno = EIO; return EOF; }
        return 0;
      }
    }
    return real_fclose(fp);
  }
  NOCOV ssize_t read(int fd, void * buf, size_t n)
  {
    if (D && !D->open.empty()) { auto it = D->open.find(fd); if (it != D->open.end()) return sim_read(it->second, buf, n); }
    return syscall(SYS_read, fd, buf, n);
  }
  NOCOV ssize_t write(int fd, const void * buf, size_t n)
  {
    if (D && !D->open.empty()) { auto it = D->open.find(fd); if (it != D->open.end()) return sim_write(it->second, (const char *)buf, n); }
    return syscall(SYS_write, fd, buf, n);
  }
  NOCOV ssize_t writev(int fd, const struct iovec * iov, int cnt)
  {
    if (D && !D->open.empty())
    {
      auto it = D->open.find(fd);
      if (it != D->open.end())
      {
        std::string all;
        { guard g; for (int i = 0; i < cnt; ++i) all.append((const char *)iov[i].iov_base, iov[i].iov_len); }
        ssize_t r = sim_write(it->second, all.data(), all.size());
        { guard g; std::string().swap(all); }
        return r;
      }
    }
    return syscall(SYS_writev, fd, iov, cnt);
  }
  NOCOV off64_t lseek64(int fd, off64_t off, int wh) noexcept
  {
    if (D && !D->open.empty())
    {
      auto it = D->open.find(fd);
      if (it != D->open.end())
      {
        handle & h = it->second;
        i64 base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)h.pos : (i64)h.node->data.size();
        if (base + off < 0) { errno = EINVAL; return -1; }
        h.pos = (u64)(base + off);
        return (off64_t)h.pos;
      }
    }
    return (off64_t)syscall(SYS_lseek, fd, off, wh);
  }

  // -------------------------------------------------------------------- step clock + coverage
  NOCOV void __sanitizer_cov_trace_pc_guard_init(uint32_t * a, uint32_t * b)
  {
    static uint32_t n = 0;
    if (a == b || *a) return;
    for (uint32_t * p = a; p < b; ++p) *p = ++n;
    cov_n = n;
    cov = (unsigned char *)realloc(cov, n + 1); std::memset(cov, 0, n + 1);
  }
  NOCOV void __sanitizer_cov_trace_pc_guard(uint32_t * g)
  {
    if (!cov[*g]) { cov[*g] = 1; ++cov_hit; }
    ++step_now;
    if (step_limit && step_now > step_limit)
    {
      step_limit = 0;
      std::string m = "C hang step budget exhausted: no progress";
      raw_line(m);
      _exit(78);
    }
  }
}

// ======================================================================== operator new / delete
namespace
{
  NOCOV void * do_new(size_t n, bool nothrow)
  {
    if (heap_on && guard_depth == 0)
    {
      ++n_alloc;
      if (max_request && n > max_request) { if (nothrow) return nullptr; throw std::bad_alloc(); }
      if (fail_at > 0 && !fail_paused)
      {
        if (--fail_at == 0)
        {
          ++fail_count;
          if (fail_sticky) fail_at = 1;
          if (nothrow) return nullptr;
          throw std::bad_alloc();
        }
      }
      if (budget && bytes + n > budget) { budget_hit = true; if (nothrow) return nullptr; throw std::bad_alloc(); }
    }
    void * p = malloc(n ? n : 1);
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    if (heap_on && guard_depth == 0) { ++blocks; bytes += malloc_usable_size(p); }
    return p;
  }
  NOCOV void do_delete(void * p)
  {
    if (!p) return;
    if (heap_on && guard_depth == 0) { --blocks; bytes -= malloc_usable_size(p); }
    free(p);
  }
}
NOCOV void * operator new(size_t n) { return do_new(n, false); }
NOCOV void * operator new[](size_t n) { return do_new(n, false); }
NOCOV void * operator new(size_t n, std::nothrow_t const &) noexcept { return do_new(n, true); }
NOCOV void * operator new[](size_t n, std::nothrow_t const &) noexcept { return do_new(n, true); }
NOCOV void operator delete(void * p) noexcept { do_delete(p); }
NOCOV void operator delete[](void * p) noexcept { do_delete(p); }
NOCOV void operator delete(void * p, size_t) noexcept { do_delete(p); }
NOCOV void operator delete[](void * p, size_t) noexcept { do_delete(p); }

// ======================================================================== sim:: API
namespace sim
{
  std::string num(i64 v) { return std::to_string(v); }
  void hash_add(u64 v) { run_hash = mix(run_hash ^ v) + 0x2545F4914F6CDD1DULL; }
  void hash_add(std::string const & s)
  { u64 h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } hash_add(h); }
  u64 hash_value() { return run_hash; }
  void state_visit(u64 h) { guard g; if (states->size() < 4000000) states->insert(h); }
  bool verbose() { return verbose_; }
  void say(std::string const & s) { if (verbose_) { guard g; raw_line("# " + s); } }
  void violation(std::string const & rule, std::string const & detail)
  {
    guard g;
    if (!run_violated) { run_violated = true; run_rule = rule; run_detail = detail; }
    if (verbose_) raw_line("# VIOLATION " + rule + ": " + detail);
  }
  bool violated() { return run_violated; }
  void count(const char * key, u64 n) { guard g; (*counters)[key] += n; }

  u64 steps() { return step_now; }
  void set_step_budget(u64 n) { step_limit = n ? step_now + n : 0; }

  void alloc_fail_arm(i64 nth, bool sticky) { fail_at = nth; fail_sticky = sticky; fail_count = 0; }
  u64 alloc_fail_disarm() { fail_at = 0; u64 r = fail_count; fail_count = 0; if (r) { guard g; (*counters)["fault.alloc_fail"] += r; } return r; }
  void alloc_fail_stop() { fail_at = 0; }
  void alloc_pause(bool on) { fail_paused = on; }
  u64 alloc_calls() { return n_alloc; }
  u64 live_blocks() { return blocks; }
  u64 live_bytes() { return bytes; }
  void set_alloc_budget(u64 b) { budget = b ? bytes + b : 0; if (b) budget_hit = false; }
  bool alloc_budget_hit() { return budget_hit; }
  void set_alloc_max(u64 b) { max_request = b; }

  const char * fault_name(int k)
  {
    static const char * n[] = { "none", "open_read_fail", "read_eio", "read_short", "read_eintr", "open_write_fail", "write_enospc",
                                "write_eio", "write_short", "write_eintr", "close_error", "read_eio_once", "write_once" };
    return k >= 0 && k < F_KINDS ? n[k] : "?";
  }
  void disk_reset() { guard g; D->files.clear(); D->faults.clear(); D->log.clear(); D->once_done.clear(); D->fired = D->fired_hard = 0; }
  void disk_put(std::string const & p, std::string const & d) { guard g; auto n = std::make_shared<inode>(); n->data = d; D->files[p] = n; }
  bool disk_get(std::string const & p, std::string & d)
  { auto it = D->files.find(p); if (it == D->files.end()) return false; d = it->second->data; return true; }
  void disk_remove(std::string const & p) { guard g; D->files.erase(p); }
  std::vector<std::string> disk_list() { std::vector<std::string> r; for (auto & f : D->files) r.push_back(f.first); return r; }
  void disk_clear_faults() { guard g; D->faults.clear(); D->once_done.clear(); D->fired = D->fired_hard = 0; }
  void disk_add_fault(disk_fault const & f) { guard g; D->faults.push_back(f); }
  u64 disk_fired() { return D->fired; }
  u64 disk_fired_hard() { return D->fired_hard; }
  int disk_open_count() { return (int)D->open.size(); }
  std::vector<write_event> const & disk_log() { return D->log; }
  void disk_log_clear() { guard g; D->log.clear(); }
}

// ======================================================================== run loop
namespace
{
  std::string plan_text(plan const & p, scenario * sc)
  {
    std::string r = "prop " + p.prop + "\n";
    for (auto & c : p.cfg) r += "cfg " + c.first + " " + std::to_string(c.second) + "\n";
    for (auto & o : p.ops)
    {
      r += "op " + std::to_string(o.code);
      for (int i = 0; i < 6; ++i) r += " " + std::to_string(o.a[i]);
      r += " # "; r += sc->op_name(o.code); r += "\n";
    }
    return r;
  }
  bool load_plan(const char * file, plan & p)
  {
    FILE * f = real_fopen(file, "r");
    if (!f) return false;
    char line[4096];
    while (fgets(line, sizeof line, f))
    {
      if (char * h = std::strchr(line, '#')) *h = 0;
      char k[64] = "", s[256] = ""; long long v = 0; int n = 0;
      if (std::sscanf(line, "%63s%n", k, &n) != 1) continue;
      if (!std::strcmp(k, "prop") && std::sscanf(line + n, "%255s", s) == 1) p.prop = s;
      else if (!std::strcmp(k, "cfg") && std::sscanf(line + n, "%255s %lld", s, &v) == 2) p.cfg[s] = v;
      else if (!std::strcmp(k, "op"))
      {
        long long c = 0, a[6] = {0,0,0,0,0,0};
        std::sscanf(line + n, "%lld %lld %lld %lld %lld %lld %lld", &c, a, a+1, a+2, a+3, a+4, a+5);
        p.ops.push_back(op((int)c, a[0], a[1], a[2], a[3], a[4], a[5]));
      }
    }
    real_fclose(f);
    return true;
  }

  // executes one plan in this process; returns true if it ran without violation
  bool run_plan(scenario * sc, plan const & p)
  {
    run_hash = 0x12345; run_violated = false; run_rule.clear(); run_detail.clear();
    sim::disk_reset(); D->open.clear();
    fail_at = 0; fail_paused = false; fail_count = 0; budget = 0; budget_hit = false; max_request = 0; step_limit = 0;
    blocks = bytes = 0; n_alloc = 0;
    heap_on = true;
    try { sc->execute(p); }
    catch (sim::abandon_run const &) {}
    heap_on = false;
    fail_at = 0; step_limit = 0; budget = 0; max_request = 0;
    return !run_violated;
  }

  void on_signal(int sig)
  {
    // ASan handles SEGV itself; this is for SIGABRT (failed assertion, std::terminate)
    std::string m = "C abort signal " + std::to_string(sig);
    raw_line(m);
    _exit(77);
  }
}

int main(int argc, char ** argv)
{
  guard_depth = 0;
  D = new disk; counters = new std::map<std::string, u64>; states = new std::unordered_set<u64>;
  std::string prop; u64 seed = 1; i64 first = 0, cnt = 0; bool thorough = false, dump = false; const char * planfile = nullptr; i64 dup = 0;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    if (a == "--prop") prop = argv[++i];
    else if (a == "--seed") seed = strtoull(argv[++i], nullptr, 10);
    else if (a == "--first") first = atoll(argv[++i]);
    else if (a == "--count") cnt = atoll(argv[++i]);
    else if (a == "--thorough") thorough = true;
    else if (a == "--dump") dump = true;
    else if (a == "--verbose") verbose_ = true;
    else if (a == "--dup") dup = atoll(argv[++i]);
    else if (a == "--plan") planfile = argv[++i];
  }
  struct sigaction sa; std::memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sigaction(SIGABRT, &sa, nullptr);

  plan loaded;
  if (planfile)
  {
    if (!load_plan(planfile, loaded)) { raw_line("X cannot read plan"); return 2; }
    prop = loaded.prop;
  }
  scenario * sc = make_scenario(prop);
  if (!sc) { raw_line("X no scenario for " + prop); return 2; }

  if (planfile)
  {
    bool ok = run_plan(sc, loaded);
    char h[32]; std::snprintf(h, sizeof h, "%016llx", run_hash);
    raw_line(std::string("E 0 ") + (ok ? "ok " : "bad ") + h);
    if (!ok) raw_line("V 0 " + run_rule + " | " + run_detail);
    _exit(ok ? 0 : 1);
  }
  std::unordered_set<u64> plans;
  u64 total_ops = 0, runs = 0;
  for (i64 i = first; i < first + cnt; ++i)
  {
    plan p; p.prop = prop;
    sc->generate(p, mix(mix(seed) ^ (u64)i * 0x9E3779B97F4A7C15ULL), thorough);
    if (dump) { std::string t = plan_text(p, sc); raw_out(1, t.data(), t.size()); continue; }
    raw_line("B " + std::to_string(i));
    u64 ph = 7; for (auto & o : p.ops) { ph = mix(ph ^ (u64)o.code); for (int k = 0; k < 6; ++k) ph = mix(ph ^ (u64)o.a[k]); }
    for (auto & c : p.cfg) ph = mix(ph ^ (u64)c.second);
    plans.insert(ph);
    bool ok = run_plan(sc, p);
    u64 h1 = run_hash;
    total_ops += p.ops.size(); ++runs;
    char h[32]; std::snprintf(h, sizeof h, "%016llx", h1);
    std::string rule = run_rule, detail = run_detail;
    if (dup && i % dup == 0)
    {
      bool ok2 = run_plan(sc, p);
      (*counters)["determinism.checked"] += 1;
      if (ok2 != ok || run_hash != h1) { (*counters)["determinism.mismatch"] += 1; raw_line("N " + std::to_string(i)); }
    }
    if (!ok) raw_line("V " + std::to_string(i) + " " + rule + " | " + detail);
    raw_line("E " + std::to_string(i) + (ok ? " ok " : " bad ") + h);
  }
  if (!dump)
  {
    (*counters)["runs"] += runs; (*counters)["ops"] += total_ops; (*counters)["steps"] += step_now;
    for (auto & c : *counters) raw_line("S " + c.first + " " + std::to_string(c.second));
    raw_line("S max.cov_edges_total " + std::to_string(cov_n));
    // coverage bitmap and state hashes for merging
    std::string bits = "G ";
    { size_t k = 0; unsigned v = 0; for (size_t i = 1; i <= cov_n; ++i) { v |= (unsigned)(cov[i] ? 1 : 0) << k; if (++k == 4) { bits += "0123456789abcdef"[v]; v = 0; k = 0; } } if (k) bits += "0123456789abcdef"[v]; }
    raw_line(bits);
    raw_line("S states " + std::to_string(states->size()));
    raw_line("S distinct_plans " + std::to_string(plans.size()));
    // a sample of state hashes lets the driver estimate cross-worker duplicates exactly (all of them when few)
    std::string sh = "H";
    size_t lim = 200000; for (u64 s : *states) { char b[24]; std::snprintf(b, sizeof b, " %llx", s); sh += b; if (!--lim) break; }
    raw_line(sh);
  }
  raw_line("D done");
  _exit(0);
}
