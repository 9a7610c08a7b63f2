// PLC backend of the I/O harness: Tetgen .poly and Neper .tess readers.
#include "io.hpp"
#include "viennagrid/forwards.hpp"
#include "viennagrid/config/default_configs.hpp"
#include "viennagrid/mesh/element_creation.hpp"
#include "viennagrid/mesh/mesh_operations.hpp"
#include "viennagrid/io/tetgen_poly_reader.hpp"
#include "viennagrid/io/neper_tess_reader.hpp"

namespace io
{
  struct plc_backend : backend
  {
    typedef viennagrid::plc_3d_mesh mesh_t;
    typedef viennagrid::result_of::point<mesh_t>::type point_t;
    typedef viennagrid::result_of::vertex<mesh_t>::type vertex_t;
    typedef viennagrid::result_of::line<mesh_t>::type line_t;
    typedef viennagrid::result_of::plc<mesh_t>::type plc_t;

    mesh_t * M; std::vector<point_t> * H; std::vector<std::pair<point_t, int> > * S;
    plc_backend() : M(0), H(0), S(0) {}
    ~plc_backend() { forget(); }
    void forget() { delete M; M = 0; delete H; H = 0; delete S; S = 0; }
    std::vector<int> formats() { std::vector<int> r; r.push_back(TETGEN); r.push_back(NEPER); return r; }

    // ---------------------------------------------------------------- description
    struct facet { std::vector<ints> polys; std::vector<pt> holes; };
    struct spec { std::vector<pt> pts; ints ids; std::vector<facet> facets; std::vector<pt> holes; std::vector<std::pair<pt, int> > seeds; };

    static pt draw_pt(sim::rng & r) { pt p; for (int d = 0; d < 3; ++d) p.c[d] = dec(num(r.range(-999999, 999999)) + "e" + num(r.range(-8, 3))); return p; }
    static spec draw(u64 seed, bool neper)
    {
      sim::rng r(seed); spec s;
      int n = 3 + (int)r.below(r.chance(1, 8) ? 40 : 10);
      int base = neper || r.chance(1, 2) ? 1 : 0; bool gaps = !neper && r.chance(1, 4);
      std::set<std::string> seen;
      for (int i = 0; i < n; ++i) { pt p = draw_pt(r); if (!seen.insert(pstr(p.c, 3)).second) continue; s.pts.push_back(p); s.ids.push_back(base); base += gaps ? 1 + (int)r.below(4) : 1; }
      int nf = (int)r.below(6);
      std::set<std::set<int> > used;
      for (int i = 0; i < nf; ++i)
      {
        facet f; int np = neper ? 1 : 1 + (r.chance(1, 3) ? (int)r.below(3) : 0); std::set<int> vs;
        for (int k = 0; k < np; ++k)
        {
          int nv = neper ? 3 + (int)r.below(3) : r.chance(2, 3) ? 3 + (int)r.below(4) : 1 + (int)r.below(2);
          ints all; for (std::size_t j = 0; j < s.pts.size(); ++j) all.push_back((int)j);
          ints poly; for (int j = 0; j < nv && !all.empty(); ++j) { std::size_t x = r.below(all.size()); poly.push_back(all[x]); vs.insert(all[x]); all.erase(all.begin() + (long)x); }
          if (neper && poly.size() < 3) poly.clear();
          if (!poly.empty()) f.polys.push_back(poly);
        }
        if (f.polys.empty() || !used.insert(vs).second) continue;
        if (!neper && r.chance(1, 4)) { int k = 1 + (int)r.below(2); for (int j = 0; j < k; ++j) f.holes.push_back(draw_pt(r)); }
        s.facets.push_back(f);
      }
      if (!neper) { int k = r.chance(1, 2) ? 0 : (int)r.below(12); for (int j = 0; j < k; ++j) s.holes.push_back(draw_pt(r)); }
      { int k = r.chance(1, 3) ? 0 : (int)r.below(12); for (int j = 0; j < k; ++j) s.seeds.push_back(std::make_pair(draw_pt(r), (int)r.range(neper ? 1 : -3, 400))); }
      return s;
    }
    static std::string want(spec const & s, bool ids)
    {
      facts f; std::set<std::string> lines;
      for (std::size_t i = 0; i < s.pts.size(); ++i) f.add("vertex " + (ids ? num(s.ids[i]) + " " : std::string()) + pstr(s.pts[i].c, 3));
      for (std::size_t i = 0; i < s.facets.size(); ++i)
      {
        std::set<std::string> l, v; std::multiset<std::string> h;
        for (std::size_t k = 0; k < s.facets[i].polys.size(); ++k)
        {
          ints const & p = s.facets[i].polys[k];
          for (std::size_t j = 0; j < p.size(); ++j)
          {
            v.insert(pstr(s.pts[(std::size_t)p[j]].c, 3));
            if (p.size() < 2 || (p.size() == 2 && j == 1)) continue;
            l.insert(ltext(pstr(s.pts[(std::size_t)p[j]].c, 3), pstr(s.pts[(std::size_t)p[(j + 1) % p.size()]].c, 3)));
          }
        }
        for (std::size_t k = 0; k < s.facets[i].holes.size(); ++k) h.insert(pstr(s.facets[i].holes[k].c, 3));
        lines.insert(l.begin(), l.end());
        f.add(ftext(l, v, h));
      }
      for (std::set<std::string>::iterator i = lines.begin(); i != lines.end(); ++i) f.add("line " + *i);
      for (std::size_t i = 0; i < s.holes.size(); ++i) f.add("hole " + num((i64)i) + " " + pstr(s.holes[i].c, 3));
      for (std::size_t i = 0; i < s.seeds.size(); ++i) f.add("seed " + num((i64)i) + " " + num(s.seeds[i].second) + " " + pstr(s.seeds[i].first.c, 3));
      return f.text();
    }
    static std::string ltext(std::string a, std::string b) { if (b < a) std::swap(a, b); return "[" + a + " " + b + "]"; }
    static std::string ftext(std::set<std::string> const & l, std::set<std::string> const & v, std::multiset<std::string> const & h)
    {
      std::string r = "facet";
      for (std::set<std::string>::const_iterator i = l.begin(); i != l.end(); ++i) r += " " + *i;
      r += " vertices"; for (std::set<std::string>::const_iterator i = v.begin(); i != v.end(); ++i) r += " " + *i;
      r += " holes"; for (std::multiset<std::string>::const_iterator i = h.begin(); i != h.end(); ++i) r += " " + *i;
      return r;
    }

    // ---------------------------------------------------------------- file texts
    static std::string sp(sim::rng & r) { static const char * w[] = { " ", " ", "  ", "\t" }; return w[r.below(4)]; }
    struct text
    {
      std::string t; std::size_t last;                       // start of the last token that counts
      text() : last(0) {}
      void tok(std::string const & s) { last = t.size(); t += s; }
    };
    static void junk(sim::rng & r, text & x) { if (r.chance(1, 6)) x.t += r.chance(1, 2) ? "# part\n" : "\n"; }
    static void coords(sim::rng & r, text & x, pt const & p) { for (int d = 0; d < 3; ++d) { x.t += sp(r); x.tok(dstr(p.c[d])); } }
    static std::size_t tok_end(text const & x) { std::size_t e = x.last; while (e < x.t.size() && !std::isspace((unsigned char)x.t[e])) ++e; return e; }

    static void poly_text(sim::rng & r, spec const & s, finfo & f)
    {
      text x;
      if (r.chance(1, 2)) x.t += "# generated\n";
      int attrs = r.chance(1, 3) ? 1 + (int)r.below(2) : 0; bool mark = r.chance(1, 3);
      x.tok(num((i64)s.pts.size())); x.t += sp(r) + "3" + sp(r) + num(attrs) + sp(r) + (mark ? "1" : "0") + "\n";
      for (std::size_t i = 0; i < s.pts.size(); ++i)
      {
        junk(r, x);
        x.t += sp(r) + num(s.ids[i]); coords(r, x, s.pts[i]);
        for (int k = 0; k < attrs; ++k) x.t += sp(r) + "0.5";
        if (mark) x.t += " 1";
        x.t += "\n";
      }
      junk(r, x);
      bool fmark = r.chance(1, 3);
      x.tok(num((i64)s.facets.size())); x.t += fmark ? " 1\n" : " 0\n";
      for (std::size_t i = 0; i < s.facets.size(); ++i)
      {
        facet const & fc = s.facets[i];
        junk(r, x);
        x.tok(num((i64)fc.polys.size())); x.t += sp(r) + num((i64)fc.holes.size()); if (fmark) x.t += " 7"; x.t += "\n";
        for (std::size_t k = 0; k < fc.polys.size(); ++k)
        {
          x.t += num((i64)fc.polys[k].size());
          for (std::size_t j = 0; j < fc.polys[k].size(); ++j) { x.t += sp(r); x.tok(num(s.ids[(std::size_t)fc.polys[k][j]])); }
          x.t += "\n";
        }
        for (std::size_t k = 0; k < fc.holes.size(); ++k) { x.t += num((i64)k + 1); coords(r, x, fc.holes[k]); x.t += "\n"; }
      }
      // a file may end after each of the following sections
      f.need = tok_end(x);
      std::size_t open = x.last;
      if (!s.holes.empty() || !s.seeds.empty() || r.chance(2, 3))
      {
        junk(r, x);
        f.amb.push_back(std::make_pair(open, x.t.size()));
        x.tok(num((i64)s.holes.size())); x.t += "\n";
        for (std::size_t i = 0; i < s.holes.size(); ++i) { junk(r, x); x.t += num((i64)i + 1); coords(r, x, s.holes[i]); x.t += "\n"; }
        f.need = tok_end(x); open = x.last;
        if (!s.seeds.empty() || r.chance(1, 2))
        {
          junk(r, x);
          f.amb.push_back(std::make_pair(open, x.t.size()));
          x.tok(num((i64)s.seeds.size())); x.t += "\n";
          for (std::size_t i = 0; i < s.seeds.size(); ++i) { junk(r, x); x.t += num((i64)i + 1); coords(r, x, s.seeds[i].first); x.t += sp(r); x.tok(num(s.seeds[i].second)); if (r.chance(1, 3)) x.t += " -1"; x.t += "\n"; }
          f.need = tok_end(x); open = x.last;
        }
      }
      f.amb.push_back(std::make_pair(open, f.need - 1));
      if (r.chance(1, 4)) x.t.resize(x.t.find_last_not_of(" \n\t") + 1);
      f.data = x.t;
      if (f.need > f.data.size()) f.need = f.data.size();
    }
    static void tess_text(sim::rng & r, spec const & s, finfo & f)
    {
      text x;
      x.t = "***tess\n **format\n   2.0\n **general\n   3 standard\n **cell\n   " + num((i64)s.seeds.size()) + "\n";
      // the sections are found by their names; a file that ends between two sections is a file without the later ones
      std::size_t open = 0;
      x.t += " **vertex"; f.amb.push_back(std::make_pair(open, x.t.size() - 1)); x.t += "\n   ";
      x.tok(num((i64)s.pts.size())); x.t += "\n";
      for (std::size_t i = 0; i < s.pts.size(); ++i)
      {
        x.t += "  " + num(s.ids[i]) + " 4 1 2 3 4\n     1 2\n    "; coords(r, x, s.pts[i]); x.t += " 0\n";
      }
      f.need = tok_end(x); open = x.last;
      x.t += " **edge\n   1\n   1 1 2\n 3 1 2 3 1\n";
      if (!s.facets.empty() || r.chance(1, 2))
      {
        x.t += " **face"; f.amb.push_back(std::make_pair(open, x.t.size() - 1)); x.t += "\n   ";
        x.tok(num((i64)s.facets.size())); x.t += "\n";
        f.need = tok_end(x); open = x.last;
        for (std::size_t i = 0; i < s.facets.size(); ++i)
        {
          x.t += "  " + num((i64)i + 1) + " 1 2\n  2 0 0\n  1 2\n  ";
          ints const & p = s.facets[i].polys[0];
          x.t += num((i64)p.size());
          for (std::size_t j = 0; j < p.size(); ++j) { x.t += sp(r); x.tok(num(s.ids[(std::size_t)p[j]])); }
          x.t += "\n 4 1 2 3 4\n 0.5 0.5 0.5 1\n";
          open = x.t.size(); f.need = open + 1;
          x.t += " 0 0\n";
        }
      }
      if (!s.seeds.empty() || r.chance(1, 2))
      {
        x.t += " **polyhedron"; f.amb.push_back(std::make_pair(open, x.t.size() - 1)); x.t += "\n   ";
        x.tok(num((i64)s.seeds.size())); x.t += "\n";
        f.need = tok_end(x); open = x.last;
        for (std::size_t i = 0; i < s.seeds.size(); ++i)
        {
          x.t += "  " + num(s.seeds[i].second); coords(r, x, s.seeds[i].first); x.t += "\n 2 1 2\n";
          open = x.t.size(); f.need = open + 1;
          x.t += " 4 1 2 3 4\n";
        }
      }
      f.amb.push_back(std::make_pair(open, f.need - 1));
      x.t += "***end\n";
      f.data = x.t;
    }

    void make(int fmt, u64 seed, std::string const & base, fileset & fs)
    {
      sim::rng r(sim::mix(seed) ^ 99);
      spec s = draw(seed, fmt == NEPER);
      finfo f; f.path = fs.main = base + (fmt == NEPER ? ".tess" : ".poly");
      if (fmt == NEPER) tess_text(r, s, f); else poly_text(r, s, f);
      fs.files.push_back(f);
      fs.want = want(s, fmt == TETGEN);
    }

    // ---------------------------------------------------------------- reading
    static std::string vtext(vertex_t const & v) { double c[3]; for (int d = 0; d < 3; ++d) c[d] = viennagrid::point(v)[(std::size_t)d]; return pstr(c, 3); }
    static std::string ptext(point_t const & p) { double c[3]; for (int d = 0; d < 3; ++d) c[d] = p[(std::size_t)d]; return pstr(c, 3); }
    template <class L> static std::string line_text(L const & l) { return ltext(vtext(viennagrid::vertices(l)[0]), vtext(viennagrid::vertices(l)[1])); }

    template <class T> struct holder { T * p; holder() : p(0) {} ~holder() { delete p; } };
    outcome read(fileset const & fs, bool, bool rm, u64 reg)
    {
      typedef viennagrid::result_of::const_vertex_range<mesh_t>::type VR; typedef viennagrid::result_of::iterator<VR>::type VI;
      typedef viennagrid::result_of::const_line_range<mesh_t>::type LR; typedef viennagrid::result_of::iterator<LR>::type LI;
      typedef viennagrid::result_of::const_plc_range<mesh_t>::type PR; typedef viennagrid::result_of::iterator<PR>::type PI;
      typedef viennagrid::result_of::const_line_range<plc_t>::type PLR; typedef viennagrid::result_of::iterator<PLR>::type PLI;
      typedef viennagrid::result_of::const_vertex_range<plc_t>::type PVR; typedef viennagrid::result_of::iterator<PVR>::type PVI;
      typedef std::vector<std::pair<point_t, int> > seeds_t; typedef std::vector<point_t> holes_t;
      outcome o; facts f;
      sim::alloc_pause(true);
      holder<mesh_t> hm; holder<holes_t> hh; holder<seeds_t> hs;
      mesh_t * m; holes_t * h; seeds_t * s;
      if (rm) { if (!M) M = new mesh_t; if (!H) H = new holes_t; if (!S) S = new seeds_t; m = M; h = H; s = S; m->clear(); }
      else { m = hm.p = new mesh_t; h = hh.p = new holes_t; s = hs.p = new seeds_t; }
      sim::alloc_pause(false);
      bool gh = true, gs = true;                          // which of the output parameters are asked for
      try
      {
        if (fs.fmt == NEPER) { viennagrid::io::neper_tess_reader x; x(*m, fs.main, *s); gh = false; }
        else
        {
          viennagrid::io::tetgen_poly_reader x;
          switch (reg % 4)
          {
            case 0: x(*m, fs.main); gh = gs = false; break;
            case 1: x(*m, fs.main, *h); gs = false; break;
            case 2: x(*m, fs.main, *s); gh = false; break;
            default: x(*m, fs.main, *h, *s); break;
          }
        }
        o.ok = true;
      }
      catch (std::exception const & e) { sim::alloc_fail_stop(); o.what = e.what(); }
      catch (...) { sim::alloc_fail_stop(); o.alien = true; o.what = "unknown exception"; }
      sim::alloc_fail_stop();
      mesh_t const & cm = *m;
      VR vr(cm); for (VI i = vr.begin(); i != vr.end(); ++i) f.add("vertex " + (fs.fmt == TETGEN ? num((i64)i->id().get()) + " " : std::string()) + vtext(*i));
      LR lr(cm); for (LI i = lr.begin(); i != lr.end(); ++i) f.add("line " + line_text(*i));
      PR pr(cm);
      for (PI i = pr.begin(); i != pr.end(); ++i)
      {
        std::set<std::string> l, v; std::multiset<std::string> hp;
        PLR pl(*i); for (PLI k = pl.begin(); k != pl.end(); ++k) if (!l.insert(line_text(*k)).second) f.add("a facet lists a line twice");
        PVR pv(*i); for (PVI k = pv.begin(); k != pv.end(); ++k) if (!v.insert(vtext(*k)).second) f.add("a facet lists a vertex twice");
        plc_t::appendix_type const & a = viennagrid::hole_points(*i);
        for (plc_t::appendix_type::const_iterator k = a.begin(); k != a.end(); ++k) hp.insert(ptext(*k));
        f.add(ftext(l, v, hp));
      }
      if (gh) for (std::size_t i = 0; i < h->size(); ++i) f.add("hole " + num((i64)i) + " " + ptext((*h)[i]));
      if (gs) for (std::size_t i = 0; i < s->size(); ++i) f.add("seed " + num((i64)i) + " " + num((*s)[i].second) + " " + ptext((*s)[i].first));
      // what was not asked for is taken from the description
      if (o.ok && (fs.fmt == TETGEN) && !(gh && gs))
      {
        std::istringstream w(fs.want); std::string x;
        while (std::getline(w, x)) if ((!gh && x.compare(0, 5, "hole ") == 0) || (!gs && x.compare(0, 5, "seed ") == 0)) f.add(x);
      }
      if (o.ok) o.got = f.text();
      return o;
    }
  };
}
