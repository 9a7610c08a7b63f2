// I/O harness: readers and writers of the library run unchanged on a simulated
// disk.  A plan stores files (produced by the library's own writers or by the
// generators below), damages them, arms disk and heap faults, reads, writes and
// crashes.  Every answer is compared with the description the file was made from.
#include "sim.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>

namespace io
{
  using sim::num;
  using sim::u64;
  using sim::i64;
  typedef std::vector<int> ints;

  struct pt { double c[3]; pt() { c[0] = c[1] = c[2] = 0; } };

  inline std::string dstr(double v)
  {
    if (v != v) return "nan";
    char b[64]; std::snprintf(b, sizeof b, "%.17g", v); return b;
  }
  inline std::string pstr(double const * c, int gd)
  { std::string r; for (int i = 0; i < gd; ++i) { if (i) r += ","; r += dstr(c[i] == 0 ? 0.0 : c[i]); } return r; }
  inline double dec(std::string const & s) { return std::strtod(s.c_str(), 0); }

  // canonical description of what a file contains, one fact per line
  struct facts
  {
    std::set<std::string> dummy;
    std::multiset<std::string> l;
    void add(std::string const & s) { l.insert(s); }
    std::string text() const { std::string r; for (std::multiset<std::string>::const_iterator i = l.begin(); i != l.end(); ++i) r += *i + "\n"; return r; }
  };
  // first line in which two canonical descriptions differ
  inline std::string difference(std::string const & want, std::string const & got)
  {
    std::multiset<std::string> a, b; std::string x;
    std::istringstream sa(want), sb(got);
    while (std::getline(sa, x)) a.insert(x);
    while (std::getline(sb, x)) b.insert(x);
    std::vector<std::string> d;
    std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(d));
    if (!d.empty()) return "missing: " + d[0].substr(0, 160);
    std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(d));
    if (!d.empty()) return "unexpected: " + d[0].substr(0, 160);
    return "nothing";
  }

  // ------------------------------------------------------------------ files on the simulated disk
  struct finfo
  {
    std::string path;
    std::string data;                                   // pristine contents
    std::size_t need;                                   // bytes [0, need) hold everything the file announces
    std::vector<std::pair<std::size_t, std::size_t> > amb;   // cuts at a in (first, second] may look like another complete file
    finfo() : need(0) {}
    bool ambiguous(std::size_t c) const { for (std::size_t i = 0; i < amb.size(); ++i) if (c > amb[i].first && c <= amb[i].second) return true; return false; }
  };
  struct qkey { int on, comps; std::string name; int seg; };      // seg -1: everywhere
  struct fileset
  {
    int fmt; std::string main; std::vector<finfo> files; std::string want;
    std::vector<qkey> q;                                // quantities a reader may register
    bool present; int damaged;                          // number of damages other than a cut
    i64 cut_file, cut_at;                               // a single cut (-1: none)
    fileset() : fmt(-1), present(false), damaged(0), cut_file(-1), cut_at(-1) {}
  };
  struct outcome { bool ok; bool alien; std::string what, got; outcome() : ok(false), alien(false) {} };

  enum { VTU = 0, PVD, VTUGEN, PVDGEN, NETGEN, BND, BNDHELP, TETGEN, NEPER, NFMT };
  inline const char * fmt_name(int f) { static const char * n[] = { "vtu", "pvd", "vtu(generated)", "pvd(generated)", "netgen", "bnd", "bnd_helper", "tetgen", "neper" }; return n[f]; }
  enum { W_VTK = 0, W_OPENDX, W_VMESH, W_MPHTXT, NWRITER };
  inline const char * writer_name(int f) { static const char * n[] = { "vtk", "opendx", "vmesh", "mphtxt" }; return n[f]; }

  struct backend
  {
    virtual ~backend() {}
    virtual std::vector<int> formats() = 0;
    virtual std::vector<int> writers() { return std::vector<int>(); }
    // stores a pristine file set (fault free)
    virtual void make(int fmt, u64 seed, std::string const & base, fileset & out) = 0;
    // reads with the long-lived (reuse) or new reader and mesh objects; reg selects which quantities are registered
    virtual outcome read(fileset const & fs, bool reuse_reader, bool reuse_mesh, u64 reg) = 0;
    virtual void forget() = 0;                          // drops all long-lived objects (process end)
    // writes the mesh described by seed; returns false and sets what if the writer threw
    virtual outcome write(int, u64, std::string const &, bool) { return outcome(); }
    // what reading the written main file should give; empty if the format has no reader
    virtual void describe(int, u64, std::string const &, fileset &) {}
    virtual std::string check_export(int, u64, std::string const &) { return ""; }
  };

  // ------------------------------------------------------------------ disk helpers
  typedef std::map<std::string, std::string> image;
  inline image snapshot()
  { image r; std::vector<std::string> f = sim::disk_list(); for (std::size_t i = 0; i < f.size(); ++i) sim::disk_get(f[i], r[f[i]]); return r; }
  inline void restore(image const & im)
  {
    std::vector<std::string> f = sim::disk_list();
    for (std::size_t i = 0; i < f.size(); ++i) if (im.find(f[i]) == im.end()) sim::disk_remove(f[i]);
    for (image::const_iterator i = im.begin(); i != im.end(); ++i) sim::disk_put(i->first, i->second);
  }

  // ------------------------------------------------------------------ damage
  inline void damage(std::string & d, int kind, u64 pos, u64 val, std::string const & other)
  {
    static const char * toks[] = { "<", ">", "\"", "</DataArray>", "<DataArray ", " -1 ", "99999999999999999999", "0 ", "1e999 ", "nan", "#", "**vertex\n", "**face\n", "**polyhedron\n",
                                   "(", ")", "(\"", "Region (\"x\") {\n material = Contact\n Elements (1) { 0 }\n", "/", "=", "Elements (3) {\n", "10 3 ", " 2 0 1 2", "\n", "\t", "\r", "2147483648", "-2147483649", "<DataSet part=\"-3\" file=\"x.vtu\"/>", "</Collection>", "name=\"\"", "<Piece ", "   " };
    static const char * nums[] = { "0", "-1", "1", "2", "3", "2147483647", "2147483648", "4294967295", "4294967296", "18446744073709551615", "99999999999999999999999", "1.5", "nan", "", "+1", "-2147483648", "1000000", "1e5", "x", "007", "500000000" };
    static const char chars[] = "0123456789<>\"/=-. \n\te#(){}\0";
    std::size_t n = d.size();
    std::vector<std::size_t> lines;                      // line starts
    if (kind >= 7 && kind <= 9) { lines.push_back(0); for (std::size_t i = 0; i < n; ++i) if (d[i] == '\n' && i + 1 < n) lines.push_back(i + 1); lines.push_back(n); }
    switch (kind)
    {
      case 0: d.resize(pos % (n + 1)); break;
      case 1: if (n) d[pos % n] = (char)(d[pos % n] ^ (char)(1 + val % 255)); break;
      case 2: if (n) d[pos % n] = chars[val % sizeof chars]; break;
      case 3: if (n) d.erase(pos % n, 1 + val % 40); break;
      case 4: if (n) { std::string r = d.substr(pos % n, 1 + val % 60); d.insert(pos % n, r); } break;
      case 5: d.insert(pos % (n + 1), toks[val % (sizeof toks / sizeof *toks)]); break;
      case 6:
      {
        std::vector<std::pair<std::size_t, std::size_t> > t;
        for (std::size_t i = 0; i < n;)
          if (std::strchr("0123456789-.", d[i]) && d[i]) { std::size_t j = i; while (j < n && d[j] && std::strchr("0123456789-.e+", d[j])) ++j; t.push_back(std::make_pair(i, j - i)); i = j; }
          else ++i;
        if (t.empty()) break;
        std::pair<std::size_t, std::size_t> x = t[pos % t.size()];
        u64 k = sizeof nums / sizeof *nums + 3;
        std::string v;
        u64 w = val % k;
        if (w < sizeof nums / sizeof *nums) v = nums[w];
        else { long o = std::atol(d.substr(x.first, x.second).c_str()); v = num(w % 3 == 0 ? o + 1 : w % 3 == 1 ? o - 1 : -o - 1); }
        d.replace(x.first, x.second, v);
        break;
      }
      case 7: { std::size_t m = lines.size() - 1; std::size_t a = pos % m, b = val % m; if (a > b) std::swap(a, b); if (a == b) break;
                std::string la = d.substr(lines[a], lines[a+1] - lines[a]), lb = d.substr(lines[b], lines[b+1] - lines[b]), mid = d.substr(lines[a+1], lines[b] - lines[a+1]);
                d = d.substr(0, lines[a]) + lb + mid + la + d.substr(lines[b+1]); break; }
      case 8: { std::size_t a = pos % (lines.size() - 1); d.erase(lines[a], lines[a+1] - lines[a]); break; }
      case 9: { std::size_t a = pos % (lines.size() - 1); d.insert(lines[a], d.substr(lines[a], lines[a+1] - lines[a])); break; }
      case 10: d = d.substr(0, pos % (n + 1)) + (other.empty() ? std::string() : other.substr(val % other.size())); break;
    }
  }

  enum { OP_MAKE = 1, OP_DAMAGE, OP_FAULT, OP_ALLOC, OP_READ, OP_WRITE, OP_CRASH, OP_RESTART, OP_REMOVE, NOPS };

  // ------------------------------------------------------------------ scenario
  struct scenario : sim::scenario
  {
    std::string prop; backend * B;
    scenario(std::string const & p, backend * b) : prop(p), B(b) {}
    ~scenario() { delete B; }
    const char * op_name(int c)
    { static const char * n[] = { "", "make", "damage", "fault", "alloc_fail", "read", "write", "crash_next_write", "restart", "remove_file" }; return c > 0 && c < NOPS ? n[c] : "?"; }
    bool is(const char * p) const { return prop == p; }

    // ---------------------------------------------------------------- generation
    static int read_fault(sim::rng & r, bool hard)
    {
      static const int h[] = { sim::F_READ_EIO, sim::F_READ_EIO, sim::F_READ_EIO_ONCE, sim::F_OPEN_READ };
      static const int s[] = { sim::F_READ_SHORT, sim::F_READ_EINTR };
      return hard ? h[r.below(4)] : s[r.below(2)];
    }
    static int write_fault(sim::rng & r, bool hard)
    {
      static const int h[] = { sim::F_WRITE_ENOSPC, sim::F_WRITE_EIO, sim::F_WRITE_ONCE, sim::F_CLOSE_ERR, sim::F_OPEN_WRITE };
      static const int s[] = { sim::F_WRITE_SHORT, sim::F_WRITE_EINTR };
      return hard ? h[r.below(5)] : s[r.below(2)];
    }
    // op fault: kind, file selector (-1: all), position, errno
    sim::op fault(sim::rng & r, bool rd, bool hard)
    {
      int k = rd ? read_fault(r, hard) : write_fault(r, hard);
      i64 n;
      if (k == sim::F_READ_SHORT || k == sim::F_WRITE_SHORT) n = 1 + (i64)r.below(r.chance(1, 2) ? 8 : 3000);
      else if (k == sim::F_READ_EINTR || k == sim::F_WRITE_EINTR) n = 2 + (i64)r.below(3);
      else n = (i64)r.below(1000003);
      static const int errs[] = { 13, 2, 24, 5, 28, 30 };
      return sim::op(OP_FAULT, k, r.chance(3, 4) ? (i64)r.below(8) : -1, n, errs[r.below(6)]);
    }
    void generate(sim::plan & p, u64 seed, bool thorough)
    {
      sim::rng r(seed);
      std::vector<int> F = B->formats(), W = B->writers();
      int n = 1 + (int)r.below(thorough ? 8 : 5);
      if (is("P01"))
      {
        for (int i = 0; i < n; ++i)
        {
          int slot = (int)r.below(2);
          p.ops.push_back(sim::op(OP_MAKE, slot, F[r.below(F.size())], (i64)(r.next() >> 1)));
          int rounds = 1 + (int)r.below(4);
          for (int j = 0; j < rounds; ++j)
          {
            int m = r.chance(1, 8) ? 0 : 1 + (int)r.below(r.chance(1, 3) ? 6 : 2);
            for (int k = 0; k < m; ++k)
            {
              static const int kinds[] = { 0, 1, 1, 2, 2, 3, 4, 5, 5, 6, 6, 6, 6, 7, 8, 9, 10, 11 };
              p.ops.push_back(sim::op(OP_DAMAGE, slot, (i64)r.below(5), kinds[r.below(18)], (i64)r.below(1000000007), (i64)r.below(1000000007)));
            }
            if (r.chance(1, 4)) p.ops.push_back(fault(r, true, r.chance(2, 3)));
            if (r.chance(1, 6)) p.ops.push_back(sim::op(OP_ALLOC, 1 + (i64)r.below(r.chance(1, 2) ? 60 : 1500), r.chance(1, 4)));
            p.ops.push_back(sim::op(OP_READ, slot, r.chance(1, 2), r.chance(1, 2), (i64)r.below(1 << 20)));
            if (r.chance(1, 3)) p.ops.push_back(sim::op(OP_MAKE, slot, F[r.below(F.size())], (i64)(r.next() >> 1)));
          }
          // the same objects still work
          p.ops.push_back(sim::op(OP_MAKE, 2, F[r.below(F.size())], (i64)(r.next() >> 1)));
          p.ops.push_back(sim::op(OP_READ, 2, 1, 1, (i64)r.below(1 << 20)));
        }
      }
      else if (is("P02"))
      {
        for (int i = 0; i < n; ++i)
        {
          p.ops.push_back(sim::op(OP_MAKE, 0, F[r.below(F.size())], (i64)(r.next() >> 1)));
          int rounds = 1 + (int)r.below(4);
          for (int j = 0; j < rounds; ++j)
          {
            unsigned w = (unsigned)r.below(10);
            if (w < 4) { i64 cuts = (i64)r.below(1000000007); p.ops.push_back(sim::op(OP_DAMAGE, 0, (i64)r.below(5), 0, cuts, r.chance(1, 3))); }
            if (w >= 4 && w < 8) p.ops.push_back(fault(r, true, true));
            if (r.chance(1, 2)) p.ops.push_back(fault(r, true, false));
            p.ops.push_back(sim::op(OP_READ, 0, r.chance(1, 3), r.chance(1, 3), (i64)r.below(1 << 20)));
            if (w < 4) p.ops.push_back(sim::op(OP_DAMAGE, 0, 0, 12));     // put the pristine files back
          }
        }
      }
      else if (is("P03"))
      {
        int reads = 2 + (int)r.below(thorough ? 12 : 7);
        for (int i = 0; i < reads; ++i)
        {
          int slot = (int)r.below(2);
          if (i < 2 || r.chance(1, 2)) p.ops.push_back(sim::op(OP_MAKE, slot, F[r.below(F.size())], (i64)(r.next() >> 1)));
          if (r.chance(1, 3))
          {
            static const int kinds[] = { 0, 0, 2, 5, 6, 8, 11, 3 };
            p.ops.push_back(sim::op(OP_DAMAGE, slot, (i64)r.below(5), kinds[r.below(8)], (i64)r.below(1000000007), (i64)r.below(1000000007)));
          }
          if (r.chance(1, 4)) p.ops.push_back(fault(r, true, r.chance(3, 4)));
          if (r.chance(1, 10)) p.ops.push_back(sim::op(OP_ALLOC, 1 + (i64)r.below(800), 0));
          p.ops.push_back(sim::op(OP_READ, slot, 1, r.chance(1, 2), (i64)r.below(1 << 20)));
        }
      }
      else if (is("P04"))
      {
        int writes = 1 + (int)r.below(thorough ? 8 : 5);
        int w = W[r.below(W.size())];
        for (int i = 0; i < writes; ++i)
        {
          if (r.chance(1, 4)) w = W[r.below(W.size())];
          if (r.chance(2, 3)) p.ops.push_back(fault(r, false, true));
          if (r.chance(1, 3)) p.ops.push_back(fault(r, false, false));
          if (r.chance(1, 10)) p.ops.push_back(sim::op(OP_ALLOC, 1 + (i64)r.below(600), 0));
          p.ops.push_back(sim::op(OP_WRITE, w, (i64)(r.next() >> 1), (i64)r.below(2), r.chance(2, 3)));
        }
      }
      else if (is("P05"))
      {
        int writes = 1 + (int)r.below(thorough ? 6 : 4);
        int name = (int)r.below(2);
        for (int i = 0; i < writes; ++i)
        {
          if (r.chance(1, 4)) name = (int)r.below(2);
          bool crash = i + 1 == writes || r.chance(1, 2);
          if (r.chance(1, 4)) p.ops.push_back(fault(r, false, r.chance(1, 3)));
          if (crash) p.ops.push_back(sim::op(OP_CRASH, (i64)r.below(1000000007), (i64)r.below(1000000007), r.chance(1, 3)));
          p.ops.push_back(sim::op(OP_WRITE, W_VTK, (i64)(r.next() >> 1), name, r.chance(1, 2)));
          if (crash) p.ops.push_back(sim::op(OP_RESTART));
          if (crash || r.chance(1, 2))
          {
            if (r.chance(1, 4)) p.ops.push_back(fault(r, true, false));
            p.ops.push_back(sim::op(OP_READ, 3 + name, r.chance(1, 3), r.chance(1, 3), (i64)r.below(1 << 20)));
          }
        }
      }
      else if (is("P06"))
      {
        int writes = 1 + (int)r.below(thorough ? 8 : 5);
        for (int i = 0; i < writes; ++i)
        {
          int name = (int)r.below(2);
          if (r.chance(1, 6)) p.ops.push_back(fault(r, false, r.chance(1, 3)));
          p.ops.push_back(sim::op(OP_WRITE, W_VTK, (i64)(r.next() >> 1), name, r.chance(2, 3)));
          int reads = r.chance(1, 5) ? 0 : 1 + (int)r.below(2);
          for (int j = 0; j < reads; ++j)
          {
            if (r.chance(1, 5)) p.ops.push_back(fault(r, true, false));
            p.ops.push_back(sim::op(OP_READ, 3 + (r.chance(1, 5) ? 1 - name : name), r.chance(2, 3), r.chance(1, 2), (i64)r.below(1 << 20)));
          }
        }
      }
      else if (is("P15"))
      {
        W.erase(std::remove(W.begin(), W.end(), (int)W_VTK), W.end());
        int writes = 1 + (int)r.below(thorough ? 8 : 4);
        for (int i = 0; i < writes; ++i)
        {
          if (r.chance(1, 6)) p.ops.push_back(fault(r, false, r.chance(1, 3)));
          p.ops.push_back(sim::op(OP_WRITE, W[r.below(W.size())], (i64)(r.next() >> 1), (i64)r.below(2), r.chance(2, 3)));
        }
      }
    }

    // ---------------------------------------------------------------- execution
    std::vector<fileset> slot;                                       // 0..2 made files, 3..4 written names
    std::map<std::string, std::set<std::string> > allowed;   // main file -> contents that may be found there
    std::vector<sim::op> pend_fault; bool pend_alloc; i64 alloc_n; bool alloc_sticky; bool pend_crash; i64 crash_k, crash_cut; bool crash_whole;

    void reset_pending() { pend_fault.clear(); pend_alloc = false; pend_crash = false; }
    void bad(std::string const & rule, std::string const & d) { sim::violation(rule, d); }

    static std::string base_of(int s) { return std::string("/sim/") + (s < 3 ? "f" : "w") + num(s); }

    // hands the pending faults to the disk; returns the smallest position of a hard read fault per file
    void arm(std::vector<std::pair<std::string, std::size_t> > const & sizes)
    {
      sim::disk_clear_faults();
      for (std::size_t i = 0; i < pend_fault.size(); ++i)
      {
        sim::op const & o = pend_fault[i];
        std::string suffix; std::size_t size = 400;
        if (!sizes.empty())
        {
          std::size_t k = o.a[1] >= 0 ? (std::size_t)o.a[1] % sizes.size() : sizes.size() - 1;
          size = sizes[k].second;
          if (o.a[1] >= 0) suffix = sizes[k].first;
        }
        i64 n = o.a[2];
        int kind = (int)o.a[0];
        if (kind != sim::F_READ_SHORT && kind != sim::F_READ_EINTR && kind != sim::F_WRITE_SHORT && kind != sim::F_WRITE_EINTR)
          n = (i64)((u64)n % (size + (kind == sim::F_WRITE_ENOSPC ? 1 : 2)));
        sim::disk_add_fault(sim::disk_fault(kind, suffix, n, (int)o.a[3]));
        if (sim::verbose()) sim::say(std::string("  fault ") + sim::fault_name(kind) + " on '" + suffix + "' at " + num(n));
      }
    }

    outcome do_read(fileset const & fs, bool rr, bool rm, u64 reg)
    {
      u64 bytes = 0;
      for (std::size_t i = 0; i < fs.files.size(); ++i) { std::string d; if (sim::disk_get(fs.files[i].path, d)) bytes += d.size(); }
      sim::set_step_budget(4000000 + 4000 * bytes);
      sim::set_alloc_budget((u64)(8 << 20) + 4000 * bytes);
      if (pend_alloc) sim::alloc_fail_arm(alloc_n, alloc_sticky);
      u64 s0 = sim::steps();
      outcome o = B->read(fs, rr, rm, reg);
      if (sim::verbose()) sim::say("  steps " + num((i64)(sim::steps() - s0)) + " for " + num((i64)bytes) + " bytes");
      sim::set_step_budget(0); sim::set_alloc_budget(0);
      return o;
    }

    void op_read(sim::op const & o)
    {
      int s = (int)(((u64)o.a[0]) % 5);
      fileset & fs = slot[s];
      if (!fs.present) { reset_pending(); return; }
      std::vector<std::pair<std::string, std::size_t> > sizes;
      for (std::size_t i = 0; i < fs.files.size(); ++i) sizes.push_back(std::make_pair(fs.files[i].path, fs.files[i].data.size()));
      arm(sizes);
      bool rr = o.a[1] != 0, rm = o.a[2] != 0;
      outcome out = do_read(fs, rr, rm, (u64)o.a[3]);
      u64 nalloc = sim::alloc_fail_disarm();
      u64 hard = sim::disk_fired_hard();
      std::string id = std::string(fmt_name(fs.fmt)) + " file";
      sim::count(out.ok ? "op.read_ok" : "op.read_failed");
      sim::hash_add(out.ok ? 1 : 0); sim::hash_add(out.got); sim::hash_add(out.ok ? std::string() : out.what);
      { u64 h = sim::hash_value(); (void)h; u64 q = 99; std::string const & t = out.ok ? out.got : out.what; for (std::size_t i = 0; i < t.size(); ++i) q = sim::mix(q ^ (unsigned char)t[i]); sim::state_visit(q); }
      if (sim::verbose()) sim::say(std::string("  read ") + fs.main + " -> " + (out.ok ? "ok" : "failed: " + out.what) + " hard=" + num((i64)hard) + " alloc=" + num((i64)nalloc));
      if (out.alien) { bad("exception-type", id + ": an exception not derived from std::exception left the reader"); return; }
      if (sim::alloc_budget_hit()) { bad("memory", id + ": the reader asked for more memory than the file size justifies"); return; }
      if (sim::disk_open_count() != 0) { bad("open-file", id + ": the reader left a file open"); return; }
      bool intact = fs.damaged == 0 && fs.cut_file < 0;

      if (s >= 3)   // written by the library's writer
      {
        if (hard || nalloc) { reset_pending(); return; }
        std::set<std::string> const & al = allowed[fs.main];
        if (out.ok && al.find(out.got) == al.end())
          bad(is("P05") ? "crash-image" : "round-trip", id + " " + fs.main + ": read something that was never stored there; " + (al.empty() ? std::string("nothing was stored") : difference(fs.want, out.got)));
        else if (!out.ok && intact)
          bad(is("P05") ? "complete-set-unreadable" : "round-trip", id + ": a completely written file set cannot be read: " + out.what);
      }
      else if (nalloc)
      {
        // a stream may swallow the failure; all that counts is that nothing breaks
      }
      else if (intact && !hard)
      {
        if (!out.ok) bad("good-file-rejected", id + ": " + out.what);
        else if (out.got != fs.want) bad("wrong-contents", id + ": " + difference(fs.want, out.got));
      }
      else if (fs.damaged == 0 && !is("P03"))
      {
        // a cut, or a failing read
        bool must_fail = false, any = false;
        if (fs.cut_file >= 0)
        {
          finfo const & f = fs.files[(std::size_t)fs.cut_file];
          std::size_t c = (std::size_t)fs.cut_at;
          if (f.ambiguous(c)) any = true;
          else if (c < f.need) must_fail = true;
        }
        if (hard)
        {
          // the position of the fault decides; a fault behind the needed bytes may go unnoticed
          for (std::size_t i = 0; i < pend_fault.size(); ++i)
          {
            sim::op const & q = pend_fault[i];
            int kind = (int)q.a[0];
            if (kind != sim::F_READ_EIO && kind != sim::F_READ_EIO_ONCE && kind != sim::F_OPEN_READ) continue;
            for (std::size_t k = 0; k < fs.files.size(); ++k)
            {
              if (q.a[1] >= 0 && (std::size_t)q.a[1] % fs.files.size() != k) continue;
              std::size_t size = fs.files[q.a[1] >= 0 ? k : fs.files.size() - 1].data.size();
              std::size_t n = (std::size_t)((u64)q.a[2] % (size + 2));
              if (kind == sim::F_OPEN_READ) { must_fail = true; continue; }
              if (fs.cut_file == (i64)k && n >= (std::size_t)fs.cut_at) continue;   // behind the end
              if (n < fs.files[k].need) must_fail = true;
            }
          }
          if (must_fail) any = false;
        }
        if (any) {}
        else if (must_fail) { if (out.ok) bad("incomplete-accepted", id + ": reported success although " + (hard ? "reading failed with an I/O error" : "the file ends early") + (out.got == fs.want ? "" : "; " + difference(fs.want, out.got))); }
        else if (out.ok && out.got != fs.want) bad("wrong-contents", id + ": " + difference(fs.want, out.got));
      }
      if (!sim::violated() && is("P03") && !nalloc)
      {
        // what a new reader makes of the same disk
        arm(sizes);
        bool pa = pend_alloc; pend_alloc = false;
        outcome f = do_read(fs, false, false, (u64)o.a[3]);
        pend_alloc = pa;
        if (f.ok != out.ok) bad("depends-on-history", id + ": the used reader " + (out.ok ? "succeeds" : "fails (" + out.what + ")") + ", a new one " + (f.ok ? "succeeds" : "fails (" + f.what + ")"));
        else if (f.ok && f.got != out.got) bad("depends-on-history", id + ": " + difference(f.got, out.got));
      }
      sim::disk_clear_faults();
      reset_pending();
    }

    void op_write(sim::op const & o)
    {
      int w = (int)o.a[0]; u64 seed = (u64)o.a[1]; int name = (int)(((u64)o.a[2]) % 2); bool reuse = o.a[3] != 0;
      std::vector<int> W = B->writers();
      if (std::find(W.begin(), W.end(), w) == W.end()) { reset_pending(); return; }
      std::string base = base_of(3 + name);
      if (w != W_VTK) base += writer_name(w);
      image before = snapshot();
      // reference: new writer, healthy disk
      sim::disk_clear_faults(); sim::disk_log_clear();
      outcome ref = B->write(w, seed, base, false);
      std::string id = std::string(writer_name(w)) + " writer";
      if (!ref.ok) { bad("write-failed", id + ": failed on a healthy disk: " + ref.what); return; }
      std::vector<std::pair<std::string, std::size_t> > sizes;
      image want = snapshot();
      std::set<std::string> touched;
      { std::vector<sim::write_event> const & l = sim::disk_log(); for (std::size_t i = 0; i < l.size(); ++i) if (touched.insert(l[i].path).second) sizes.push_back(std::make_pair(l[i].path, want[l[i].path].size())); }
      restore(before);
      fileset fs; fs.fmt = VTU;
      if (w == W_VTK) B->describe(w, seed, base, fs);
      // the write under test
      arm(sizes); sim::disk_log_clear();
      if (pend_alloc) sim::alloc_fail_arm(alloc_n, alloc_sticky);
      sim::set_step_budget(400000000);
      outcome out = B->write(w, seed, base, reuse);
      sim::set_step_budget(0);
      u64 nalloc = sim::alloc_fail_disarm();
      u64 hard = sim::disk_fired_hard();
      int open = sim::disk_open_count();
      sim::disk_clear_faults();
      sim::count(out.ok ? "op.write_ok" : "op.write_failed");
      if (sim::verbose()) sim::say(std::string("  write ") + base + " by " + writer_name(w) + " -> " + (out.ok ? "ok" : "failed: " + out.what) + " hard=" + num((i64)hard) + " alloc=" + num((i64)nalloc));
      image got = snapshot();
      sim::hash_add(out.ok ? 1 : 0);
      for (image::iterator i = got.begin(); i != got.end(); ++i) { sim::hash_add(i->first); sim::hash_add(i->second); }
      { u64 q = 7; for (image::iterator i = got.begin(); i != got.end(); ++i) for (std::size_t k = 0; k < i->second.size(); ++k) q = sim::mix(q ^ (unsigned char)i->second[k]); sim::state_visit(q); }
      if (open) { bad("open-file", id + ": a file is still open after the write"); return; }
      if (out.alien) { bad("exception-type", id + ": an exception not derived from std::exception left the writer"); return; }
      if (out.ok)
      {
        if (nalloc) {}
        else if (hard) bad("lost-write", id + ": reported success although the disk refused data");
        else for (std::set<std::string>::iterator i = touched.begin(); i != touched.end(); ++i)
          if (got[*i] != want[*i]) bad("bytes-differ", id + ": " + *i + " differs from what a new writer stores on a healthy disk");
      }
      else if (!hard && !nalloc) bad("write-failed", id + ": failed although every byte was accepted: " + out.what);
      if (out.ok && is("P15") && !nalloc && !sim::violated())
      {
        std::string e = B->check_export(w, seed, base);
        if (!e.empty()) bad("export", id + ": " + e);
      }
      if (w == W_VTK && !sim::violated())
      {
        int s = 3 + name;
        std::set<std::string> & al = allowed[fs.main];   // writes with less than two segments and others have different main files
        if (pend_crash)
        {
          sim::count("fault.crash");
          std::vector<sim::write_event> log = sim::disk_log();
          std::size_t k = log.empty() ? 0 : (std::size_t)((u64)crash_k % (log.size() + 1));
          std::size_t total = 0;
          for (std::size_t i = 0; i < k; ++i) total += log[i].data.size();
          restore(before);
          for (std::size_t i = 0; i < k + 1 && i < log.size(); ++i)
          {
            sim::write_event const & e = log[i];
            if (i == k && (e.type != 1 || crash_whole)) break;
            std::string d; sim::disk_get(e.path, d);
            if (e.type == 0) sim::disk_put(e.path, "");
            else if (e.type == 1)
            {
              std::string x = e.data; if (i == k) x.resize((std::size_t)((u64)crash_cut % (x.size() + 1)));
              if (d.size() < e.off + x.size()) d.resize(e.off + x.size());
              d.replace(e.off, x.size(), x);
              sim::disk_put(e.path, d);
            }
          }
          if (sim::verbose()) sim::say("  crash after event " + num((i64)k) + " of " + num((i64)log.size()));
          al.insert(fs.want);
          fs.damaged = 1;
          B->forget();
        }
        else if (out.ok) { al.clear(); al.insert(fs.want); }
        else { al.insert(fs.want); fs.damaged = 1; }
        fs.present = true;
        slot[s] = fs;
      }
      reset_pending();
    }

    void execute(sim::plan const & p)
    {
      u64 before = sim::live_blocks();
      slot.resize(5);
      run(p);
      B->forget();
      std::vector<fileset>().swap(slot);
      allowed.clear();
      std::vector<sim::op>().swap(pend_fault);
      u64 after = sim::live_blocks();
      if (after != before && !sim::violated()) bad("leak", num((i64)(after - before)) + " heap blocks are still allocated after all objects are gone");
    }
    void run(sim::plan const & p)
    {
      reset_pending();
      for (std::size_t i = 0; i < p.ops.size() && !sim::violated(); ++i)
      {
        sim::op const & o = p.ops[i];
        if (sim::verbose()) sim::say("op " + num((i64)i) + " " + op_name(o.code));
        switch (o.code)
        {
          case OP_MAKE:
          {
            int s = (int)((u64)o.a[0] % 3);
            std::vector<int> F = B->formats();
            int f = (int)o.a[1];
            if (std::find(F.begin(), F.end(), f) == F.end()) f = F[(std::size_t)((u64)f % F.size())];
            for (std::size_t k = 0; k < slot[s].files.size(); ++k) sim::disk_remove(slot[s].files[k].path);
            slot[s] = fileset(); slot[s].fmt = f;
            sim::disk_clear_faults();
            B->make(f, (u64)o.a[2], base_of(s), slot[s]);
            for (std::size_t k = 0; k < slot[s].files.size(); ++k) sim::disk_put(slot[s].files[k].path, slot[s].files[k].data);
            slot[s].present = true;
            if (sim::verbose()) { sim::say(std::string("  made ") + fmt_name(f) + " " + slot[s].main + " files " + num((i64)slot[s].files.size())); if (std::getenv("IO_DUMP")) for (std::size_t k = 0; k < slot[s].files.size(); ++k) sim::say("----- " + slot[s].files[k].path + "\n" + slot[s].files[k].data); }
            break;
          }
          case OP_DAMAGE:
          {
            int s = (int)((u64)o.a[0] % 3);
            fileset & fs = slot[s];
            if (!fs.present || fs.files.empty()) break;
            if (o.a[2] == 12) { for (std::size_t k = 0; k < fs.files.size(); ++k) sim::disk_put(fs.files[k].path, fs.files[k].data); fs.damaged = 0; fs.cut_file = fs.cut_at = -1; break; }
            std::size_t k = (std::size_t)((u64)o.a[1] % fs.files.size());
            std::string d; sim::disk_get(fs.files[k].path, d);
            if (o.a[2] == 11) { sim::disk_remove(fs.files[k].path); fs.damaged++; sim::count("fault.file_missing"); break; }
            std::string prev = d;
            u64 pos = (u64)o.a[3];
            if (o.a[2] == 0 && is("P02") && o.a[4]) pos = fs.files[k].need > 40 ? fs.files[k].need - 40 + pos % 42 : pos;   // near the end
            damage(d, (int)o.a[2], pos, (u64)o.a[4], slot[(s + 1) % 3].files.empty() ? prev : slot[(s + 1) % 3].files[0].data);
            if (d.size() > (1u << 20)) d.resize(1u << 20);
            sim::disk_put(fs.files[k].path, d);
            if (d == prev) break;
            sim::count(o.a[2] == 0 ? "fault.truncated_file" : "fault.damaged_file");
            if (o.a[2] == 0 && fs.cut_file < 0) { fs.cut_file = (i64)k; fs.cut_at = (i64)d.size(); }
            else fs.damaged++;
            if (sim::verbose()) { sim::say("  damage kind " + num(o.a[2]) + " " + fs.files[k].path + " " + num((i64)prev.size()) + " -> " + num((i64)d.size())); if (std::getenv("IO_DUMP")) sim::say("----- damaged " + fs.files[k].path + "\n" + d); }
            break;
          }
          case OP_FAULT: pend_fault.push_back(o); break;
          case OP_ALLOC: pend_alloc = true; alloc_n = o.a[0] < 1 ? 1 : o.a[0]; alloc_sticky = o.a[1] != 0; break;
          case OP_CRASH: pend_crash = true; crash_k = o.a[0]; crash_cut = o.a[1]; crash_whole = o.a[2] != 0; break;
          case OP_RESTART: B->forget(); break;
          case OP_READ: op_read(o); break;
          case OP_WRITE: op_write(o); break;
        }
      }
    }
  };
}
