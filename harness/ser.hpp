// Serialization harness: meshes with histories are saved to and loaded from
// Boost archives on the simulated disk through viennagrid::io::mesh_serializer.
#include "io_mesh.hpp"
#include "viennagrid/io/serialization.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>

namespace ser
{
  using sim::num;
  using sim::u64;
  using sim::i64;
  using io::ints;
  enum { OP_MAKE = 1, OP_ERASE, OP_SAVE, OP_DAMAGE, OP_FAULT, OP_ALLOC, OP_LOAD, OP_CLEAR, OP_ASSIGN, NOPS };
  enum { NM = 3, NF = 3 };

  // everything the archive is meant to carry, in order
  struct shape
  {
    std::vector<std::string> v; std::vector<ints> c;
    bool operator==(shape const & o) const { return v == o.v && c == o.c; }
    std::string text() const
    { std::string r; for (std::size_t i = 0; i < v.size(); ++i) r += v[i] + ";"; for (std::size_t i = 0; i < c.size(); ++i) { for (std::size_t k = 0; k < c[i].size(); ++k) r += num(c[i][k]) + " "; r += ";"; } return r; }
  };

  template <class CFG> struct scenario : sim::scenario
  {
    typedef io::mesh_backend<CFG> B;
    typedef typename B::mesh_t mesh_t;
    typedef typename B::built built;
    typedef viennagrid::io::mesh_serializer<mesh_t> ser_t;
    std::string prop;
    scenario(std::string const & p) : prop(p), S(0)
    {
      // lazily created library state (type information, locale caches) before any heap accounting
      mesh_t m; built b; io::spec s = io::draw_spec(1, CFG::D, CFG::GD, CFG::CUBE != 0, false); B::build(s, b);
      for (int bin = 0; bin < 2; ++bin)
      {
        std::stringstream ss; ser_t x(b.m), y(m);
        try { save_to(x, ss, bin != 0); load_from(y, ss, bin != 0); } catch (std::exception const &) {}   // judged by the runs
      }
    }
    ~scenario() { delete S; }
    const char * op_name(int c)
    { static const char * n[] = { "", "make", "erase", "save", "damage", "fault", "alloc_fail", "load", "clear", "assign" }; return c > 0 && c < NOPS ? n[c] : "?"; }

    static void save_to(ser_t const & s, std::ostream & os, bool bin)
    {
      if (bin) { boost::archive::binary_oarchive oa(os); oa << s; }
      else { boost::archive::text_oarchive oa(os); oa << s; }
    }
    static void load_from(ser_t & s, std::istream & is, bool bin)
    {
      if (bin) { boost::archive::binary_iarchive ia(is); ia >> s; }
      else { boost::archive::text_iarchive ia(is); ia >> s; }
    }

    void generate(sim::plan & p, u64 seed, bool thorough)
    {
      sim::rng r(seed);
      int n = 2 + (int)r.below(thorough ? 20 : 9);
      bool hostile = r.chance(1, 2);
      p.ops.push_back(sim::op(OP_MAKE, 0, (i64)(r.next() >> 1)));
      for (int i = 0; i < n; ++i)
      {
        if (r.chance(1, 4)) p.ops.push_back(sim::op(OP_MAKE, (i64)r.below(NM), (i64)(r.next() >> 1)));
        if (r.chance(1, 2)) { int k = 1 + (int)r.below(3); for (int j = 0; j < k; ++j) p.ops.push_back(sim::op(OP_ERASE, (i64)r.below(NM), r.chance(1, 2), (i64)r.below(1000))); }
        if (r.chance(1, 8)) p.ops.push_back(sim::op(OP_CLEAR, (i64)r.below(NM)));
        if (r.chance(1, 8)) p.ops.push_back(sim::op(OP_ASSIGN, (i64)r.below(NM), (i64)r.below(NM)));
        if (hostile && r.chance(1, 8)) p.ops.push_back(sim::op(OP_ALLOC, 1 + (i64)r.below(60), r.chance(1, 4)));
        int f = (int)r.below(NF);
        p.ops.push_back(sim::op(OP_SAVE, (i64)r.below(NM), f, r.chance(1, 3), (i64)r.below(4)));
        int loads = r.chance(1, 5) ? 0 : 1 + (int)r.below(2);
        for (int j = 0; j < loads; ++j)
        {
          if (hostile && r.chance(1, 3))
          {
            static const int kinds[] = { 0, 0, 0, 2, 3, 5, 6, 6, 6, 4, 10 };
            p.ops.push_back(sim::op(OP_DAMAGE, f, kinds[r.below(11)], (i64)r.below(1000000007), (i64)r.below(1000000007), r.chance(1, 3)));
          }
          if (hostile && r.chance(1, 4))
          {
            static const int kinds[] = { sim::F_READ_EIO, sim::F_READ_EIO_ONCE, sim::F_OPEN_READ, sim::F_READ_SHORT, sim::F_READ_EINTR };
            int k = kinds[r.below(5)];
            p.ops.push_back(sim::op(OP_FAULT, k, k == sim::F_READ_SHORT ? 1 + (i64)r.below(30) : k == sim::F_READ_EINTR ? 2 + (i64)r.below(3) : (i64)r.below(1000003)));
          }
          if (hostile && r.chance(1, 6)) p.ops.push_back(sim::op(OP_ALLOC, 1 + (i64)r.below(r.chance(1, 2) ? 40 : 800), r.chance(1, 4)));
          if (r.chance(1, 2)) p.ops.push_back(sim::op(OP_CLEAR, (i64)r.below(NM)));
          p.ops.push_back(sim::op(OP_LOAD, f, (i64)r.below(NM), (i64)r.below(4)));
        }
      }
    }

    // ---------------------------------------------------------------- state
    struct file { bool present, bin; int damaged; i64 cut; std::string data; std::size_t need, last, body; shape want; file() : present(false), bin(false), damaged(0), cut(-1), need(0), last(0), body(0) {} };
    std::vector<mesh_t *> M; std::vector<file> F; ser_t * S;
    std::vector<sim::op> pend; bool pend_alloc; i64 alloc_n; bool alloc_sticky;
    void bad(std::string const & rule, std::string const & d) { sim::violation(rule, d); }
    static std::string path(int f) { return "/sim/archive" + num(f); }

    static shape look(mesh_t const & m, bool & dangling)
    {
      typedef typename viennagrid::result_of::const_vertex_range<mesh_t>::type VR;
      typedef typename viennagrid::result_of::iterator<VR>::type VI;
      typedef typename viennagrid::result_of::const_cell_range<mesh_t>::type CR;
      typedef typename viennagrid::result_of::iterator<CR>::type CI;
      shape s; std::map<i64, int> pos;
      VR vs(m);
      for (VI v = vs.begin(); v != vs.end(); ++v)
      {
        pos[(i64)v->id().get()] = (int)s.v.size();
        double c[3]; for (int d = 0; d < CFG::GD; ++d) c[d] = viennagrid::point(*v)[(std::size_t)d];
        s.v.push_back(io::pstr(c, CFG::GD));
      }
      CR cs(m);
      for (CI c = cs.begin(); c != cs.end(); ++c)
      {
        ints t;
        for (std::size_t k = 0; k < (std::size_t)CFG::NV; ++k)
        { i64 id = (i64)viennagrid::vertices(*c)[k].id().get(); if (pos.find(id) == pos.end()) { dangling = true; t.push_back(-1); } else t.push_back(pos[id]); }
        s.c.push_back(t);
      }
      return s;
    }
    shape see(mesh_t const & m) { bool d = false; shape s = look(m, d); if (d) bad("dangling", "a cell has a vertex which is not in the mesh"); return s; }
    static std::string differ(shape const & want, shape const & got)
    {
      if (want.v.size() != got.v.size()) return num((i64)got.v.size()) + " vertices instead of " + num((i64)want.v.size());
      for (std::size_t i = 0; i < want.v.size(); ++i) if (want.v[i] != got.v[i]) return "vertex " + num((i64)i) + " is at " + got.v[i] + " instead of " + want.v[i];
      if (want.c.size() != got.c.size()) return num((i64)got.c.size()) + " cells instead of " + num((i64)want.c.size());
      for (std::size_t i = 0; i < want.c.size(); ++i) if (want.c[i] != got.c[i]) return "cell " + num((i64)i) + " connects other vertices";
      return "nothing";
    }

    void op_save(sim::op const & o)
    {
      int m = (int)((u64)o.a[0] % NM), f = (int)((u64)o.a[1] % NF); bool bin = o.a[2] != 0; int how = (int)((u64)o.a[3] % 4);
      shape before = see(*M[(std::size_t)m]);
      sim::disk_clear_faults();
      bool ok = false; std::string what; std::string data;
      {
        if (pend_alloc) sim::alloc_fail_arm(alloc_n, alloc_sticky);
        sim::set_step_budget(100000000);
        try
        {
          std::ofstream os(path(f).c_str(), bin ? std::ios::out | std::ios::binary : std::ios::out);
          if (how == 0) { ser_t s(*M[(std::size_t)m]); save_to(s, os, bin); }
          else if (how == 1) { S->load(*M[(std::size_t)m]); save_to(*S, os, bin); }
          else if (how == 2) { ser_t s; s.load(*M[(std::size_t)m]); ser_t const & c = s; if (&c() != M[(std::size_t)m] || &s.get() != M[(std::size_t)m]) { sim::alloc_fail_stop(); bad("wrong-mesh", "the serializer does not refer to its mesh"); } save_to(c, os, bin); }
          else
          {
            ser_t none; bool refused = false;
            try { std::stringstream x; save_to(none, x, bin); } catch (viennagrid::io::bad_serialization_state_exception const & e) { refused = std::string(e.what()).find("Bad serialization state") != std::string::npos; }
            catch (std::exception const &) { refused = true; }
            if (!refused) { sim::alloc_fail_stop(); bad("no-mesh", "a serializer without mesh was saved"); }
            ser_t s(*M[(std::size_t)m]); save_to(s, os, bin);
          }
          os.close(); ok = !os.fail();
          if (!ok) what = "stream";
        }
        catch (std::exception const & e) { sim::alloc_fail_stop(); what = e.what(); }
      }
      u64 nalloc = sim::alloc_fail_disarm(); sim::set_step_budget(0);
      sim::count(ok ? "op.save_ok" : "op.save_failed");
      sim::disk_get(path(f), data);
      sim::hash_add(ok ? 1 : 0); if (!bin) sim::hash_add(data);
      F[(std::size_t)f] = file();
      shape after = see(*M[(std::size_t)m]);
      if (!(after == before)) { bad("save-changes", "saving changed the mesh: " + differ(before, after)); return; }
      if (!ok && !nalloc) { bad("save-failed", "saving failed on a healthy disk: " + what); return; }
      if (!ok || nalloc) return;                          // formatted output may swallow a failed allocation
      file & x = F[(std::size_t)f];
      x.present = true; x.bin = bin; x.data = data; x.want = before;
      x.need = data.size();
      if (!bin)
      {
        while (x.need && std::isspace((unsigned char)data[x.need - 1])) --x.need;
        x.last = x.need; while (x.last && !std::isspace((unsigned char)data[x.last - 1])) --x.last;
        int tok = 0; while (x.body < data.size() && tok < 5) if (data[x.body++] == ' ') ++tok;
      }
    }

    void op_load(sim::op const & o)
    {
      int f = (int)((u64)o.a[0] % NF), m = (int)((u64)o.a[1] % NM), how = (int)((u64)o.a[2] % 4);
      file & x = F[(std::size_t)f];
      if (!x.present) { pend.clear(); pend_alloc = false; return; }
      mesh_t & T = *M[(std::size_t)m];
      shape before = see(T);
      std::string d; sim::disk_get(path(f), d);
      sim::disk_clear_faults();
      bool must_fail = false, any = false;
      for (std::size_t i = 0; i < pend.size(); ++i)
      {
        int k = (int)pend[i].a[0]; i64 n = pend[i].a[1];
        if (k == sim::F_READ_EIO || k == sim::F_READ_EIO_ONCE) { n = (i64)((u64)n % (x.data.size() + 2)); if ((std::size_t)n < x.need && (x.cut < 0 || n < x.cut)) must_fail = true; }
        if (k == sim::F_OPEN_READ) must_fail = true;
        sim::disk_add_fault(sim::disk_fault(k, "", n, 5));
      }
      if (x.cut >= 0 && (std::size_t)x.cut < x.need) { if (!x.bin && (std::size_t)x.cut > x.last) any = true; else must_fail = true; }
      if (x.damaged) { must_fail = false; any = true; }
      bool ok = false; std::string what;
      sim::set_step_budget(40000000 + 40000 * (u64)d.size()); sim::set_alloc_budget((u64)(16 << 20) + 8000 * (u64)d.size());
      if (pend_alloc) sim::alloc_fail_arm(alloc_n, alloc_sticky);
      try
      {
        std::ifstream is(path(f).c_str(), x.bin ? std::ios::in | std::ios::binary : std::ios::in);
        if (how == 0) { ser_t s(T); load_from(s, is, x.bin); }
        else if (how == 1) { S->load(T); load_from(*S, is, x.bin); }
        else if (how == 2) { ser_t s; s.load(T); load_from(s, is, x.bin); }
        else { ser_t s(T); ser_t c(s); load_from(c, is, x.bin); }
        ok = true;
      }
      catch (std::exception const & e) { sim::alloc_fail_stop(); what = e.what(); }
      u64 nalloc = sim::alloc_fail_disarm();
      bool memory = sim::alloc_budget_hit();
      sim::set_step_budget(0); sim::set_alloc_budget(0);
      u64 hard = sim::disk_fired_hard(); sim::disk_clear_faults(); pend.clear(); pend_alloc = false;
      sim::count(ok ? "op.load_ok" : "op.load_failed");
      sim::hash_add(ok ? 1 : 0);
      if (memory) { bad("memory", "loading asked for more memory than the archive justifies"); return; }
      if (sim::disk_open_count() != 0) { bad("open-file", "the archive is still open"); return; }
      if (nalloc && !ok)
      {
        T.clear();                                        // a mesh whose loading failed can be cleared and used again
        if (!(see(T) == shape())) bad("clear", "a cleared mesh has elements");
        return;
      }
      shape after = see(T);
      if (sim::violated()) return;
      { u64 q = 3; std::string t = after.text(); for (std::size_t i = 0; i < t.size(); ++i) q = sim::mix(q ^ (unsigned char)t[i]); sim::state_visit(q); sim::hash_add(t); }
      if (after.v.size() < before.v.size() || after.c.size() < before.c.size() || !std::equal(before.v.begin(), before.v.end(), after.v.begin()) || !std::equal(before.c.begin(), before.c.end(), after.c.begin()))
      { bad("load-disturbs", "loading changed elements which were in the mesh before"); return; }
      if (nalloc || any) {}
      else if (must_fail && ok) { bad("incomplete-accepted", std::string("loading reported success although ") + (hard ? "reading failed with an I/O error" : "the archive ends early")); return; }
      else if (must_fail || hard) {}
      else if (!ok) { bad("load-failed", "a complete archive cannot be loaded: " + what); return; }
      if (ok && !nalloc && !any)
      {
        shape want = before;
        want.v.insert(want.v.end(), x.want.v.begin(), x.want.v.end());
        for (std::size_t i = 0; i < x.want.c.size(); ++i) { ints t = x.want.c[i]; for (std::size_t k = 0; k < t.size(); ++k) t[k] += (int)before.v.size(); want.c.push_back(t); }
        if (!(want == after)) bad("wrong-contents", "the loaded mesh is not the saved one: " + differ(want, after));
      }
      if (!ok) { T.clear(); }
    }

    void run(sim::plan const & p)
    {
      pend.clear(); pend_alloc = false;
      for (std::size_t i = 0; i < p.ops.size() && !sim::violated(); ++i)
      {
        sim::op const & o = p.ops[i];
        if (sim::verbose()) sim::say("op " + num((i64)i) + " " + op_name(o.code));
        std::size_t m = (std::size_t)((u64)o.a[0] % NM);
        switch (o.code)
        {
          case OP_MAKE:
          {
            if (see(*M[m]).v.size() > 200) break;
            io::spec s = io::draw_spec((u64)o.a[1], CFG::D, CFG::GD, CFG::CUBE != 0, false);
            s.segs.clear(); s.q.clear(); s.with_segmentation = false;
            built b; B::build(s, b); *M[m] = b.m;
            break;
          }
          case OP_ERASE:
          {
            typedef typename viennagrid::result_of::vertex_range<mesh_t>::type VR;
            typedef typename viennagrid::result_of::cell_range<mesh_t>::type CR;
            if (o.a[1]) { VR v(*M[m]); if (v.size()) viennagrid::erase_element(*M[m], v.handle_at((std::size_t)((u64)o.a[2] % v.size()))); }
            else { CR c(*M[m]); if (c.size()) viennagrid::erase_element(*M[m], c.handle_at((std::size_t)((u64)o.a[2] % c.size()))); }
            break;
          }
          case OP_CLEAR: M[m]->clear(); break;
          case OP_ASSIGN: *M[m] = *M[(std::size_t)((u64)o.a[1] % NM)]; break;
          case OP_FAULT: pend.push_back(o); break;
          case OP_ALLOC: pend_alloc = true; alloc_n = o.a[0] < 1 ? 1 : o.a[0]; alloc_sticky = o.a[1] != 0; break;
          case OP_SAVE: op_save(o); pend.clear(); pend_alloc = false; break;
          case OP_LOAD: if (see(*M[(std::size_t)((u64)o.a[1] % NM)]).v.size() > 300) { pend.clear(); pend_alloc = false; break; } op_load(o); break;
          case OP_DAMAGE:
          {
            file & x = F[(std::size_t)((u64)o.a[0] % NF)];
            if (!x.present) break;
            std::string d; std::string pa = path((int)((u64)o.a[0] % NF)); sim::disk_get(pa, d);
            if (o.a[1] == 0)
            {
              u64 pos = (u64)o.a[2]; if (o.a[4]) pos = x.need > 30 ? x.need - 30 + pos % 30 : pos;
              std::size_t c = (std::size_t)(pos % (d.size() + 1));
              if (c >= d.size()) break;
              d.resize(c); sim::count("fault.truncated_file");
              if (x.cut < 0 || (i64)c < x.cut) x.cut = (i64)c;
            }
            else
            {
              // what Boost itself makes of a damaged header is not the library's business
              if (x.bin || d.size() <= x.body) break;
              std::string b = d.substr(x.body), prev = b;
              io::damage(b, (int)o.a[1], (u64)o.a[2], (u64)o.a[3], prev);
              if (b == prev) break;
              d = d.substr(0, x.body) + b; x.damaged++; sim::count("fault.damaged_file");
            }
            sim::disk_put(pa, d);
            break;
          }
        }
      }
    }
    void execute(sim::plan const & p)
    {
      u64 before = sim::live_blocks();
      for (int i = 0; i < NM; ++i) M.push_back(new mesh_t());
      F.resize(NF); S = new ser_t();
      run(p);
      delete S; S = 0;
      for (int i = 0; i < NM; ++i) delete M[(std::size_t)i];
      std::vector<mesh_t *>().swap(M); std::vector<file>().swap(F); std::vector<sim::op>().swap(pend);
      u64 after = sim::live_blocks();
      if (after != before && !sim::violated()) bad("leak", num((i64)(after - before)) + " heap blocks are still allocated after all objects are gone");
    }
  };
}
