// Interface of the deterministic simulator.  Usable from C++98 and C++17.
//
// One run = one plan.  A plan is a list of integer operations produced from a
// seed (or read back from a replay file).  Everything the system under test can
// observe besides its arguments comes from here: file contents, results of
// open/read/write/close, results of operator new, and (for the fiber harness)
// the order in which threads run.
#ifndef VERIF_SIM_H
#define VERIF_SIM_H
#include <cstddef>
#include <string>
#include <vector>
#include <map>

namespace sim
{
  typedef unsigned long long u64;
  typedef long long i64;

  inline u64 mix(u64 x)
  {
    x += 0x9E3779B97F4A7C15ULL;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
    return x ^ (x >> 31);
  }

  struct rng
  {
    u64 s;
    explicit rng(u64 seed) : s(mix(seed ^ 0xD1B54A32D192ED03ULL)) {}
    u64 next() { s += 0x9E3779B97F4A7C15ULL; return mix(s); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
  };

  // ---------------------------------------------------------------- plans
  struct op
  {
    int code;
    i64 a[6];
    op(int c = 0, i64 x0 = 0, i64 x1 = 0, i64 x2 = 0, i64 x3 = 0, i64 x4 = 0, i64 x5 = 0)
      : code(c) { a[0]=x0; a[1]=x1; a[2]=x2; a[3]=x3; a[4]=x4; a[5]=x5; }
  };
  struct plan
  {
    std::string prop;
    std::map<std::string, i64> cfg;     // swarm configuration of this run
    std::vector<op> ops;
    i64 get(std::string const & k, i64 dflt = 0) const
    { std::map<std::string, i64>::const_iterator it = cfg.find(k); return it == cfg.end() ? dflt : it->second; }
  };

  // ---------------------------------------------------------------- run log
  // Every observable result is folded into the run hash.
  void hash_add(u64 v);
  void hash_add(std::string const & s);
  u64  hash_value();
  void state_visit(u64 h);               // distinct-state measure
  void say(std::string const & s);       // verbose trace (replay only)
  bool verbose();
  // records a violation of the property under test (first one wins)
  void violation(std::string const & rule, std::string const & detail);
  bool violated();
  // counters reported as evidence ("fault.open_fail", "op.add_cell", ...)
  void count(const char * key, u64 n = 1);
  std::string num(i64 v);

  // thrown by nobody in the code under test; used by the harness to leave a run
  struct abandon_run {};

  // ---------------------------------------------------------------- steps
  u64  steps();
  void set_step_budget(u64 n);           // relative to now; 0 = none

  // ---------------------------------------------------------------- heap
  void alloc_fail_arm(i64 nth, bool sticky); // nth allocation from now fails (1 = next)
  u64  alloc_fail_disarm();                  // number of failures injected
  void alloc_fail_stop();                    // no further failures; the count is kept for alloc_fail_disarm
  void alloc_pause(bool on);                 // no failures while paused (building the inputs of an operation)
  u64  alloc_calls();                        // number of operator new calls so far
  u64  live_blocks();
  u64  live_bytes();
  void set_alloc_budget(u64 bytes);          // live bytes above this => violation rule "memory"
  bool alloc_budget_hit();                   // since the last set_alloc_budget(non zero)
  void set_alloc_max(u64 bytes);             // a single request above this => bad_alloc (like a real machine)

  // ---------------------------------------------------------------- disk
  // Every path below "/sim/" lives on the simulated disk.
  enum fault_kind
  {
    F_NONE = 0,
    F_OPEN_READ,     // open for reading fails (ENOENT/EACCES/EMFILE/EIO)
    F_READ_EIO,      // read at or after byte offset fails with EIO (sticky)
    F_READ_SHORT,    // reads return at most n bytes
    F_READ_EINTR,    // every n-th read is interrupted first
    F_OPEN_WRITE,    // open for writing fails
    F_WRITE_ENOSPC,  // disk full after n more bytes (a write may be short first)
    F_WRITE_EIO,     // write at or after byte offset fails with EIO (sticky)
    F_WRITE_SHORT,   // writes accept at most n bytes
    F_WRITE_EINTR,   // every n-th write is interrupted first
    F_CLOSE_ERR,     // close reports a deferred write error (EIO)
    F_READ_EIO_ONCE, // a single read fails with EIO, later ones work
    F_WRITE_ONCE,    // a single write at or after byte offset fails (EIO or ENOSPC), later ones work
    F_KINDS
  };
  const char * fault_name(int k);
  struct disk_fault
  {
    int kind; std::string suffix; i64 n; int err;   // applies to paths ending in suffix
    disk_fault(int k = 0, std::string const & s = "", i64 nn = 0, int e = 5) : kind(k), suffix(s), n(nn), err(e) {}
  };
  struct write_event { int type; std::string path; u64 off; std::string data; };  // type 0 create/truncate, 1 data, 2 close

  void disk_reset();
  void disk_put(std::string const & path, std::string const & data);
  bool disk_get(std::string const & path, std::string & data);
  void disk_remove(std::string const & path);
  std::vector<std::string> disk_list();
  void disk_clear_faults();
  void disk_add_fault(disk_fault const & f);
  u64  disk_fired();                         // faults fired since last clear
  u64  disk_fired_hard();                    // faults fired that a caller must notice (not short/EINTR)
  int  disk_open_count();                    // files currently open
  std::vector<write_event> const & disk_log();
  void disk_log_clear();

  // ---------------------------------------------------------------- harness entry points (one scenario per binary)
  struct scenario
  {
    virtual ~scenario() {}
    virtual void generate(plan & p, u64 seed, bool thorough) = 0;
    virtual void execute(plan const & p) = 0;
    virtual const char * op_name(int code) = 0;
  };
  scenario * make_scenario(std::string const & prop);
}
#endif
