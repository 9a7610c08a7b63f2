// Derived meshes (P16: refinement, P17: hull, seed points, transferred quantities): operations that
// build something new from a mesh with an arbitrary history, under failing memory.  Included by hist.hpp
// when HIST_DERIVE is set.
#include <cmath>
#include "viennagrid/algorithm/refine.hpp"
#include "viennagrid/algorithm/extract_boundary.hpp"
#include "viennagrid/algorithm/extract_seed_points.hpp"
#include "viennagrid/algorithm/quantity_transfer.hpp"
#include "viennagrid/algorithm/centroid.hpp"
#include "viennagrid/algorithm/geometry.hpp"
#include "viennagrid/algorithm/distance.hpp"
#include "viennagrid/algorithm/volume.hpp"
#include "viennagrid/algorithm/surface.hpp"
#include "viennagrid/algorithm/geometric_transform.hpp"
#include "viennagrid/algorithm/voronoi.hpp"

namespace hist
{
  template <typename CFG> struct hull_of;
  template <> struct hull_of<cfg_tri2>  { typedef viennagrid::line_2d_mesh type; };
  template <> struct hull_of<cfg_quad2> { typedef viennagrid::line_2d_mesh type; };
  template <> struct hull_of<cfg_tet3>  { typedef viennagrid::triangular_3d_mesh type; };
  template <> struct hull_of<cfg_hex3>  { typedef viennagrid::quadrilateral_3d_mesh type; };

  typedef std::vector<mpoint> tuple_t;
  inline bool pless(mpoint const & a, mpoint const & b)
  { for (int k = 0; k < 3; ++k) { if (a.c[k] < b.c[k] - 1e-9) return true; if (a.c[k] > b.c[k] + 1e-9) return false; } return false; }
  inline bool same_point(mpoint const & a, mpoint const & b) { return !pless(a, b) && !pless(b, a); }
  inline mpoint mid(mpoint const & a, mpoint const & b) { mpoint r; for (int k = 0; k < 3; ++k) r.c[k] = 0.5 * (a.c[k] + b.c[k]); return r; }
  inline double dist(mpoint const & a, mpoint const & b) { double s = 0; for (int k = 0; k < 3; ++k) s += (a.c[k] - b.c[k]) * (a.c[k] - b.c[k]); return std::sqrt(s); }
  inline double simplex_measure(std::vector<mpoint> const & p)
  {
    if (p.size() == 2) return dist(p[0], p[1]);
    double a[3], b[3], c[3];
    for (int k = 0; k < 3; ++k) { a[k] = p[1].c[k] - p[0].c[k]; b[k] = p[2].c[k] - p[0].c[k]; c[k] = p.size() > 3 ? p[3].c[k] - p[0].c[k] : 0; }
    double n[3] = { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] };
    if (p.size() == 3) return 0.5 * std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
    return std::fabs(n[0] * c[0] + n[1] * c[1] + n[2] * c[2]) / 6.0;
  }

  // sizes of a set of simplices: used points, total measure, measure of the facets with one cell
  struct shape
  {
    std::vector<mpoint> pts; double volume, surface; int cells, crowded;
    shape() : volume(0), surface(0), cells(0), crowded(0) {}
  };
  inline shape measure(std::map<int, mpoint> const & pt, std::vector<ints> const & cells)
  {
    shape r; std::set<int> used; std::map<ints, int> f;
    for (std::size_t i = 0; i < cells.size(); ++i)
    {
      std::vector<mpoint> p;
      for (std::size_t k = 0; k < cells[i].size(); ++k) { used.insert(cells[i][k]); p.push_back(pt.find(cells[i][k])->second); }
      r.volume += simplex_measure(p); ++r.cells;
      for (std::size_t k = 0; k < cells[i].size(); ++k) { ints t = cells[i]; t.erase(t.begin() + (long)k); ++f[sorted(t)]; }
    }
    for (std::map<ints, int>::iterator i = f.begin(); i != f.end(); ++i)
    {
      if (i->second > 2) ++r.crowded;
      if (i->second != 1) continue;
      std::vector<mpoint> p; for (std::size_t k = 0; k < i->first.size(); ++k) p.push_back(pt.find(i->first[k])->second);
      r.surface += simplex_measure(p);
    }
    for (std::set<int>::iterator i = used.begin(); i != used.end(); ++i) r.pts.push_back(pt.find(*i)->second);
    std::sort(r.pts.begin(), r.pts.end(), pless);
    return r;
  }
  inline bool close(double a, double b) { return std::fabs(a - b) <= 1e-8 * (1 + std::fabs(a) + std::fabs(b)); }

  struct cell_flags      // flags as a user would provide them: an accessor object
  {
    typedef bool value_type;
    std::set<int> const * on;
    explicit cell_flags(std::set<int> const & s) : on(&s) {}
    template <typename E> bool operator()(E const & e) const { return on->count((int)e.id().get()) != 0; }
  };

  template <typename V> struct recorder
  {
    std::map<int, V> * out;
    explicit recorder(std::map<int, V> & o) : out(&o) {}
    template <typename E> void operator()(E const & e, V const & v) { (*out)[(int)e.id().get()] = v; }
  };
  struct mean
  {
    double operator()(std::vector<double> const & v) const { double s = 0; for (std::size_t i = 0; i < v.size(); ++i) s += v[i]; return v.empty() ? -1 : s / (double)v.size(); }
  };
  struct id_filter
  {
    int mod, rem; id_filter(int m, int r) : mod(m), rem(r) {}
    template <typename E> bool operator()(E const & e) const { return mod == 1 || (int)(e.id().get() % mod) != rem; }
    bool ok(int id) const { return mod == 1 || id % mod != rem; }
  };

  template <typename CFG, int CUBE> struct refine_part;
  template <typename CFG> struct geometry;

  // ------------------------------------------------------------------ refinement (simplices only)
  template <typename CFG> struct refine_part<CFG, 1> { static void run(world<CFG> &, sim::op const &, typename world<CFG>::slot &) {} };
  template <typename CFG> struct refine_part<CFG, 0>
  {
    typedef world<CFG> W; typedef typename W::slot slot; typedef typename W::mesh_t mesh_t; typedef typename W::segmentation_t segmentation_t;
    enum { D = CFG::D };
    typedef typename W::template T<D>::tag cell_tag; typedef typename W::template T<D>::elem cell_t; typedef typename W::template T<1>::elem edge_t;

    struct request
    {
      int kind; bool seg; std::set<int> cells; idset edges;       // flagged cells (ids), flagged edges (sorted vertex pairs)
      bool variant; mpoint at, normal; double eps;                // other overload of the same service; hyperplane
      std::map<ints, mpoint> cut;                                 // where the flagged edges are split
      double side(mpoint const & p) const { double s = 0; for (int k = 0; k < 3; ++k) s += (p.c[k] - at.c[k]) * normal.c[k]; return s; }
    };

    static void call(W & w, slot & S, request & q, mesh_t & out, segmentation_t & so)
    {
      typedef typename viennagrid::result_of::element_range<mesh_t, viennagrid::line_tag>::type ER; typedef typename viennagrid::result_of::iterator<ER>::type EI;
      typedef typename viennagrid::result_of::element_range<mesh_t, cell_tag>::type CR; typedef typename viennagrid::result_of::iterator<CR>::type CI;
      mesh_t const & in = *S.m;
      switch (q.kind)
      {
        case 0:
          if (q.variant)
          {
            std::deque<bool> f; typename viennagrid::result_of::accessor<std::deque<bool>, edge_t>::type acc(f);
            if (q.seg) viennagrid::refine_uniformly<cell_tag>(in, *S.sg, out, so, acc); else viennagrid::refine_uniformly<cell_tag>(in, out, acc);
            break;
          }
          if (q.seg) viennagrid::cell_refine_uniformly(in, *S.sg, out, so); else viennagrid::cell_refine_uniformly(in, out);
          break;
        case 1:
        {
          std::deque<bool> f; typename viennagrid::result_of::accessor<std::deque<bool>, cell_t>::type acc(f);
          CR cs(*S.m); for (CI it = cs.begin(); it != cs.end(); ++it) acc(*it) = q.cells.count((int)it->id().get()) != 0;
          if (q.seg) viennagrid::cell_refine(in, *S.sg, out, so, acc); else viennagrid::cell_refine(in, out, acc);
          break;
        }
        case 2:
          if (q.variant)
          {
            if (q.seg) viennagrid::element_refine<cell_tag>(in, *S.sg, out, so, cell_flags(q.cells)); else viennagrid::element_refine<cell_tag>(in, out, cell_flags(q.cells));
            break;
          }
          if (q.seg) viennagrid::cell_refine(in, *S.sg, out, so, cell_flags(q.cells)); else viennagrid::cell_refine(in, out, cell_flags(q.cells));
          break;
        case 5:
        {
          typename W::point_t at, n; for (int k = 0; k < CFG::GD; ++k) { at[(std::size_t)k] = q.at.c[k]; n[(std::size_t)k] = q.normal.c[k]; }
          if (q.seg) viennagrid::hyperplane_refine(in, *S.sg, out, so, at, n, q.eps); else viennagrid::hyperplane_refine(in, out, at, n, q.eps);
          break;
        }
        default:
        {
          std::deque<bool> f; typename viennagrid::result_of::accessor<std::deque<bool>, edge_t>::type acc(f);
          ER es(*S.m); for (EI it = es.begin(); it != es.end(); ++it) acc(*it) = q.edges.count(w.template ident<1>(*it)) != 0;
          if (q.kind == 4)
          {
            viennagrid::ensure_longest_edge_refinement<cell_tag>(in, acc);
            sim::alloc_pause(true);
            idset now; for (EI it = es.begin(); it != es.end(); ++it) if (acc(*it)) now.insert(w.template ident<1>(*it));
            q.edges = now;
            sim::alloc_pause(false);
          }
          if (q.variant)
          {
            if (q.seg) viennagrid::refine<cell_tag>(in, *S.sg, out, so, viennagrid::default_point_accessor(in), acc); else viennagrid::refine<cell_tag>(in, out, viennagrid::default_point_accessor(in), acc);
            break;
          }
          if (q.seg) viennagrid::refine<cell_tag>(in, *S.sg, out, so, acc); else viennagrid::refine<cell_tag>(in, out, acc);
        }
      }
    }

    static void read(W & w, mesh_t & out, std::map<int, mpoint> & pt, std::map<int, ints> & cells)
    {
      typedef typename viennagrid::result_of::vertex_range<mesh_t>::type VR; typedef typename viennagrid::result_of::iterator<VR>::type VI;
      typedef typename viennagrid::result_of::element_range<mesh_t, cell_tag>::type CR; typedef typename viennagrid::result_of::iterator<CR>::type CI;
      VR vs(out); for (VI it = vs.begin(); it != vs.end(); ++it) { mpoint p; for (int k = 0; k < CFG::GD; ++k) p.c[k] = viennagrid::point(out, *it)[(std::size_t)k]; pt[(int)it->id().get()] = p; }
      CR cs(out); for (CI it = cs.begin(); it != cs.end(); ++it) cells[(int)it->id().get()] = w.template everts<D>(*it);
    }

    static void compare(W & w, std::string const & what, model const & m, std::vector<ints> const & in_cells, request const & q, std::map<int, mpoint> const & opt, std::vector<ints> const & out_cells)
    {
      idset const & flagged = q.edges;
      shape a = measure(m.points, in_cells), b = measure(opt, out_cells);
      // expected points: used vertices and the middle of each flagged edge of a cell
      idset in_edges; for (std::size_t i = 0; i < in_cells.size(); ++i) { std::vector<ints> e = boundary_tuples(0, D, in_cells[i], 1); for (std::size_t k = 0; k < e.size(); ++k) in_edges.insert(sorted(e[k])); }
      int nflag = 0;
      for (idset::const_iterator i = in_edges.begin(); i != in_edges.end(); ++i) if (flagged.count(*i)) { ++nflag; a.pts.push_back(q.kind == 5 ? q.cut.find(*i)->second : mid(m.points.find((*i)[0])->second, m.points.find((*i)[1])->second)); }
      std::sort(a.pts.begin(), a.pts.end(), pless);
      if (b.crowded) w.viol("refine", what + ": a facet of the refined mesh has more than two cells");
      else if (a.pts.size() != b.pts.size()) w.viol("refine", what + ": refined cells use " + num((sim::i64)b.pts.size()) + " vertices, expected " + num((sim::i64)a.pts.size()));
      else
      {
        for (std::size_t i = 0; i < a.pts.size(); ++i) if (!same_point(a.pts[i], b.pts[i])) { w.viol("refine", what + ": a vertex of the refined mesh is neither an old vertex nor the splitting point of an edge to be split"); return; }
        if (q.kind == 5)
          for (std::size_t i = 0; i < out_cells.size(); ++i)
          {
            bool below = false, above = false;
            for (std::size_t k = 0; k < out_cells[i].size(); ++k) { double d = q.side(opt.find(out_cells[i][k])->second); if (d < -1e-7) below = true; if (d > 1e-7) above = true; }
            if (below && above) { w.viol("refine", what + ": a refined cell still intersects the hyperplane"); return; }
          }
        if (!close(a.volume, b.volume)) w.viol("refine", what + ": the refined cells do not have the measure of the original ones");
        else if (!close(a.surface, b.surface)) w.viol("refine", what + ": the refined mesh is not conforming (its one-sided facets do not match the boundary of the original)");
        else if (nflag == 0 && b.cells != a.cells) w.viol("refine", what + ": cells without flagged edges are not kept");
        else if (q.kind != 5 && nflag == (int)in_edges.size() && b.cells != a.cells * (1 << D)) w.viol("refine", what + ": uniform refinement gives " + num(b.cells) + " cells for " + num(a.cells));
        sim::count("oracle.refined_cells", (sim::u64)b.cells);
      }
    }

    static void run(W & w, sim::op const & o, slot & S)
    {
      model & m = S.mo; sim::rng g((sim::u64)o.a[2]);
      request q; q.kind = (int)(o.a[1] % 6); q.variant = o.a[3] % 8 >= 4; q.eps = 1e-8; q.seg = S.sg.get() != 0 && o.a[3] % 4 != 0;
      std::vector<ints> in_cells; idset all_edges;
      for (std::map<ints, melem>::iterator i = m.el[D].begin(); i != m.el[D].end(); ++i) { in_cells.push_back(i->second.v); if (q.kind == 1 || q.kind == 2) { if (g.chance(1, 3)) q.cells.insert(i->first[0]); } }
      for (std::map<ints, melem>::iterator i = m.el[1].begin(); i != m.el[1].end(); ++i) { all_edges.insert(i->first); if ((q.kind == 3 || q.kind == 4) && g.chance(1, 3)) q.edges.insert(i->first); }
      if (q.kind == 0) q.edges = all_edges;
      if (q.kind == 5)
      {
        // a plane through a vertex or between the vertices; no vertex is nearly on it
        double len = 0;
        for (int k = 0; k < CFG::GD; ++k) { q.normal.c[k] = (double)g.below(7) - 3; len += q.normal.c[k] * q.normal.c[k]; }
        if (len == 0) { q.normal.c[0] = 1; len = 1; }
        len = std::sqrt(len); for (int k = 0; k < CFG::GD; ++k) q.normal.c[k] /= len;
        if (m.points.empty()) return;
        std::map<int, mpoint>::iterator a = m.points.begin(), b = m.points.begin(); std::advance(a, (long)g.below(m.points.size())); std::advance(b, (long)g.below(m.points.size()));
        double t = g.chance(1, 2) ? 0 : 0.25 + 0.125 * (double)g.below(5);
        for (int k = 0; k < 3; ++k) q.at.c[k] = a->second.c[k] + t * (b->second.c[k] - a->second.c[k]);
        double size = 0; for (idset::iterator i = all_edges.begin(); i != all_edges.end(); ++i) size = std::max(size, dist(m.points[(*i)[0]], m.points[(*i)[1]]));
        for (a = m.points.begin(); a != m.points.end(); ++a) { double d = std::fabs(q.side(a->second)); if (d > 1e-10 && d < 1e-3 * std::max(1.0, size)) return; }
        for (idset::iterator i = all_edges.begin(); i != all_edges.end(); ++i)
        {
          mpoint const & p0 = m.points[(*i)[0]], & p1 = m.points[(*i)[1]]; double d0 = q.side(p0), d1 = q.side(p1);
          if (std::fabs(d0) < 1e-9 || std::fabs(d1) < 1e-9 || (d0 < 0) == (d1 < 0)) continue;
          q.edges.insert(*i);
          mpoint c; for (int k = 0; k < 3; ++k) c.c[k] = p0.c[k] + d0 / (d0 - d1) * (p1.c[k] - p0.c[k]);
          q.cut[*i] = c;
        }
        // edges that cross each other (overlapping cells) would share the new vertex
        for (std::map<ints, mpoint>::iterator i = q.cut.begin(); i != q.cut.end(); ++i)
          for (std::map<ints, mpoint>::iterator j = q.cut.begin(); j != i; ++j) { double r = 0; for (int k = 0; k < 3; ++k) r += std::fabs(i->second.c[k]); if (dist(i->second, j->second) < 1e-5 * (1 + r)) return; }
        sim::count("oracle.hyperplane_cuts", (sim::u64)q.edges.size());
      }
      idset asked = q.edges;
      if (q.kind == 1 || q.kind == 2)
        for (std::map<ints, melem>::iterator i = m.el[D].begin(); i != m.el[D].end(); ++i) if (q.cells.count(i->first[0])) { std::vector<ints> e = m.bnd(D, i->second, 1); q.edges.insert(e.begin(), e.end()); }
      sim::i64 pf = w.pending_fault; w.pending_fault = 0;
      mesh_t out; segmentation_t so(out);
      if (pf > 0)
      {
        request q2 = q;
        bool bad = false;
        sim::alloc_fail_arm(pf, w.fault_sticky);
        try { call(w, S, q2, out, so); } catch (std::bad_alloc const &) { bad = true; }
        sim::u64 fired = sim::alloc_fail_disarm();
        if (!bad && fired) { w.viol("alloc", "allocation failure during refinement was swallowed"); return; }
        if (bad && !fired) { w.viol("alloc", "bad_alloc without an allocation failure"); return; }
        if (bad) sim::count("derive.bad_alloc");
        viennagrid::clear(so); viennagrid::clear(out);
      }
      call(w, S, q, out, so);
      if (q.kind == 4)
      {
        // closure: flags only grow, and a cell with a flagged edge has one of its longest edges flagged
        for (idset::iterator i = asked.begin(); i != asked.end(); ++i) if (!q.edges.count(*i)) { w.viol("refine", "ensure_longest_edge_refinement dropped a flag"); return; }
        for (std::size_t i = 0; i < in_cells.size(); ++i)
        {
          std::vector<ints> e = boundary_tuples(0, D, in_cells[i], 1); double longest = 0, flagged = -1;
          for (std::size_t k = 0; k < e.size(); ++k) { double l = dist(m.points[e[k][0]], m.points[e[k][1]]); longest = std::max(longest, l); if (q.edges.count(sorted(e[k]))) flagged = std::max(flagged, l); }
          if (flagged >= 0 && flagged < longest - 1e-9) { w.viol("refine", "a cell to be refined has no longest edge flagged"); return; }
        }
      }
      std::map<int, mpoint> pt; std::map<int, ints> oc; read(w, out, pt, oc);
      std::vector<ints> ocv; for (std::map<int, ints>::iterator i = oc.begin(); i != oc.end(); ++i) ocv.push_back(i->second);
      compare(w, "mesh", m, in_cells, q, pt, ocv);
      sim::hash_add((sim::u64)ocv.size()); sim::hash_add((sim::u64)pt.size());
      if (sim::violated()) return;
      if (q.seg)
      {
        std::set<int> covered;
        for (std::map<int, mseg>::iterator si = m.segs.begin(); si != m.segs.end(); ++si)
        {
          std::vector<ints> ic, rc; idset const & mem = si->second.el[D];
          for (idset::const_iterator i = mem.begin(); i != mem.end(); ++i) ic.push_back(m.el[D][*i].v);
          if (so.segment_present(si->first))
          {
            typedef typename segmentation_t::segment_handle_type seg_t;
            typedef typename viennagrid::result_of::element_range<seg_t, cell_tag>::type CR; typedef typename viennagrid::result_of::iterator<CR>::type CI;
            seg_t & sg = so.get_segment(si->first);
            CR cs(sg); for (CI it = cs.begin(); it != cs.end(); ++it) { rc.push_back(w.template everts<D>(*it)); covered.insert((int)it->id().get()); }
          }
          compare(w, "segment " + num(si->first), m, ic, q, pt, rc);
          if (sim::violated()) return;
        }
        // segments that do not exist in the original
        for (typename segmentation_t::iterator i = so.begin(); i != so.end(); ++i) if (!m.segs.count((int)i->id())) { w.viol("refine", "the refined segmentation has segment " + num((sim::i64)i->id()) + ", which the original does not have"); return; }
      }
    }
  };

  // ------------------------------------------------------------------ hull, seeds, transfer
  template <typename CFG> struct derive
  {
    typedef world<CFG> W; typedef typename W::slot slot; typedef typename W::mesh_t mesh_t; typedef typename W::segmentation_t segmentation_t;
    typedef typename W::segment_t segment_t; typedef typename W::point_t point_t;
    typedef typename hull_of<CFG>::type hull_t; typedef typename viennagrid::result_of::segmentation<hull_t>::type hull_seg_t;
    enum { D = CFG::D };
    typedef typename W::template T<D>::tag cell_tag; typedef typename W::template T<D - 1>::tag facet_tag; typedef typename W::template T<D>::elem cell_t;
    typedef typename W::template T<D - 1>::elem facet_t;

    struct tless { bool operator()(tuple_t const & a, tuple_t const & b) const { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), pless); } };
    typedef std::multiset<tuple_t, tless> shape_set;

    template <typename MESH, typename E> static tuple_t coords(MESH & mesh, E const & e)
    {
      typedef typename viennagrid::result_of::const_vertex_range<E>::type R; typedef typename viennagrid::result_of::iterator<R>::type I;
      tuple_t t; R r(e);
      for (I it = r.begin(); it != r.end(); ++it) { mpoint p; for (int k = 0; k < CFG::GD; ++k) p.c[k] = viennagrid::point(mesh, *it)[(std::size_t)k]; t.push_back(p); }
      return t;
    }
    template <typename H, typename MESH> static shape_set hull_cells(H & host, MESH & mesh)
    {
      typedef typename viennagrid::result_of::element_range<H, facet_tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I;
      shape_set s; R r(host); for (I it = r.begin(); it != r.end(); ++it) s.insert(coords(mesh, *it));
      return s;
    }
    static shape_set expected(W & w, slot & S, visible const & v, std::set<int> & used)
    {
      shape_set s;
      for (idset::const_iterator i = v.el[D - 1].begin(); i != v.el[D - 1].end(); ++i)
        if (W::facet_on_boundary(S.mo, v, *i)) { facet_t * f = w.template locate<D - 1>(*S.m, *i); if (!f) { w.viol("structure", "facet missing"); return s; } s.insert(coords(*S.m, *f)); used.insert(i->begin(), i->end()); }
      return s;
    }
    static bool same(shape_set const & a, shape_set const & b)
    {
      if (a.size() != b.size()) return false;
      tless l; typename shape_set::const_iterator i = a.begin(), j = b.begin();
      for (; i != a.end(); ++i, ++j) if (l(*i, *j) || l(*j, *i)) return false;
      return true;
    }
    static void call_hull(slot & S, bool seg, bool explicit_tag, hull_t & h, hull_seg_t & hs)
    {
      mesh_t const & in = *S.m;
      if (seg) { if (explicit_tag) viennagrid::extract_boundary<facet_tag>(in, *S.sg, h, hs); else viennagrid::extract_boundary(in, *S.sg, h, hs); }
      else { if (explicit_tag) viennagrid::extract_boundary<facet_tag>(in, h); else viennagrid::extract_boundary(in, h); }
    }
    static void hull(W & w, sim::op const & o, slot & S, hull_t & h, hull_seg_t & hs)
    {
      bool seg = S.sg.get() != 0 && o.a[3] % 4 != 0;
      sim::i64 pf = w.pending_fault; w.pending_fault = 0;
      if (pf > 0)
      {
        bool bad = false; sim::alloc_fail_arm(pf, w.fault_sticky);
        try { call_hull(S, seg, o.a[2] % 2 != 0, h, hs); } catch (std::bad_alloc const &) { bad = true; }
        sim::u64 fired = sim::alloc_fail_disarm();
        if (!bad && fired) { w.viol("alloc", "allocation failure during hull extraction was swallowed"); return; }
        if (bad) sim::count("derive.bad_alloc");
      }
      if (!seg && o.a[4] % 2) viennagrid::clear(hs);
      call_hull(S, seg, o.a[2] % 2 != 0, h, hs);
      std::set<int> used; shape_set got = hull_cells(h, h), want;
      if (!seg || S.mo.segs.empty())
      {
        visible v = W::view_mesh(S.mo); want = expected(w, S, v, used);
        if (sim::violated()) return;
        if (!same(got, want)) { w.viol("hull", "the hull has " + num((sim::i64)got.size()) + " facets that do not equal the " + num((sim::i64)want.size()) + " facets with one cell"); return; }
      }
      else
      {
        idset seen;
        for (std::map<int, mseg>::iterator si = S.mo.segs.begin(); si != S.mo.segs.end(); ++si)
        {
          visible v = W::view_seg(S.mo, si->first); shape_set ws = expected(w, S, v, used);
          if (sim::violated()) return;
          for (idset::const_iterator i = v.el[D - 1].begin(); i != v.el[D - 1].end(); ++i)
            if (W::facet_on_boundary(S.mo, v, *i) && seen.insert(*i).second) want.insert(coords(*S.m, *w.template locate<D - 1>(*S.m, *i)));
          if (!hs.segment_present(si->first)) { w.viol("hull", "the hull segmentation lacks segment " + num(si->first)); return; }
          typename hull_seg_t::segment_handle_type & sg = hs.get_segment(si->first);
          shape_set gs = hull_cells(sg, h);
          if (!same(gs, ws)) { w.viol("hull", "segment " + num(si->first) + " of the hull has " + num((sim::i64)gs.size()) + " facets that do not equal the " + num((sim::i64)ws.size()) + " boundary facets of the segment"); return; }
        }
        if (hs.size() != S.mo.segs.size()) { w.viol("hull", "the hull has " + num((sim::i64)hs.size()) + " segments instead of " + num((sim::i64)S.mo.segs.size())); return; }
        if (!same(got, want)) { w.viol("hull", "the hull mesh does not consist of the boundary facets of the segments, each once"); return; }
      }
      if (viennagrid::vertices(h).size() != used.size()) w.viol("hull", "the hull has " + num((sim::i64)viennagrid::vertices(h).size()) + " vertices instead of " + num((sim::i64)used.size()));
      sim::count("oracle.hull_facets", (sim::u64)got.size()); sim::hash_add((sim::u64)got.size());
    }

    // connected components (through facets) of the visible cells
    static std::vector<idset> components(model const & m, visible const & v)
    {
      std::vector<idset> r; idset left = v.el[D];
      while (!left.empty())
      {
        idset c; std::vector<ints> todo(1, *left.begin());
        while (!todo.empty())
        {
          ints x = todo.back(); todo.pop_back();
          if (!c.insert(x).second) continue;
          left.erase(x);
          idset n = W::exp_nbr(m, v, D - 1, D, x);
          for (idset::iterator i = n.begin(); i != n.end(); ++i) if (!c.count(*i)) todo.push_back(*i);
        }
        r.push_back(c);
      }
      return r;
    }
    static void check_seeds(W & w, slot & S, visible const & v, std::vector<point_t> const & seeds, std::string const & what)
    {
      std::vector<idset> comp = components(S.mo, v);
      if (comp.size() != seeds.size()) { w.viol("seeds", what + " has " + num((sim::i64)comp.size()) + " connected parts but " + num((sim::i64)seeds.size()) + " seed points"); return; }
      for (std::size_t c = 0; c < comp.size(); ++c)
      {
        int hit = 0;
        for (std::size_t k = 0; k < seeds.size(); ++k)
        {
          bool in = false;
          for (idset::iterator i = comp[c].begin(); i != comp[c].end() && !in; ++i)
          {
            cell_t * e = w.template locate<D>(*S.m, *i); if (!e) { w.viol("structure", "cell missing"); return; }
            point_t p = viennagrid::centroid(*e); bool eq = true;
            for (int q = 0; q < CFG::GD; ++q) if (std::fabs(p[(std::size_t)q] - seeds[k][(std::size_t)q]) > 1e-9) eq = false;
            in = eq;
          }
          hit += in;
        }
        if (hit < 1) { w.viol("seeds", what + ": a connected part has no seed point"); return; }
      }
      sim::count("oracle.seed_points", seeds.size());
    }
    static void seeds(W & w, sim::op const & o, slot & S)
    {
      mesh_t const & in = *S.m;
      if (S.sg.get() && o.a[3] % 3)
      {
        std::vector<std::pair<point_t, int> > sp;
        viennagrid::extract_seed_points(in, *S.sg, sp);
        if (S.mo.segs.empty())
        {
          std::vector<point_t> p; for (std::size_t i = 0; i < sp.size(); ++i) p.push_back(sp[i].first);
          visible v = W::view_mesh(S.mo); check_seeds(w, S, v, p, "mesh"); return;
        }
        std::size_t n = 0;
        for (std::map<int, mseg>::iterator si = S.mo.segs.begin(); si != S.mo.segs.end(); ++si)
        {
          std::vector<point_t> p; for (std::size_t i = 0; i < sp.size(); ++i) if (sp[i].second == si->first) p.push_back(sp[i].first);
          n += p.size();
          visible v = W::view_seg(S.mo, si->first); check_seeds(w, S, v, p, "segment " + num(si->first));
          if (sim::violated()) return;
        }
        if (n != sp.size()) w.viol("seeds", "a seed point belongs to no segment");
      }
      else
      {
        std::vector<point_t> p; viennagrid::extract_seed_points(in, p);
        visible v = W::view_mesh(S.mo); check_seeds(w, S, v, p, "mesh");
      }
    }

    template <int from, int to, typename H> static void transfer_one(W & w, slot & S, H const & host, visible const & v, id_filter fs, id_filter fd)
    {
      typedef typename W::template T<from>::tag ft; typedef typename W::template T<to>::tag tt; typedef typename W::template T<from>::elem fe;
      std::map<int, double> src; 
      std::vector<double> store; typename viennagrid::result_of::accessor<std::vector<double>, fe>::type acc(store);
      typedef typename viennagrid::result_of::element_range<mesh_t, ft>::type R; typedef typename viennagrid::result_of::iterator<R>::type I;
      R r(*S.m); std::map<ints, int> fid;
      for (I it = r.begin(); it != r.end(); ++it) { int id = (int)(*it).id().get(); acc(*it) = id * 3 + 1; fid[w.template ident<from>(*it)] = id; }
      std::map<int, double> got; recorder<double> rec(got);
      viennagrid::quantity_transfer<ft, tt>(host, acc, rec, mean(), fs, fd);
      typedef typename viennagrid::result_of::element_range<mesh_t, tt>::type R2; typedef typename viennagrid::result_of::iterator<R2>::type I2;
      R2 r2(*S.m); std::map<int, double> want;
      for (I2 it = r2.begin(); it != r2.end(); ++it)
      {
        ints x = w.template ident<to>(*it); int id = (int)(*it).id().get();
        if (!v.el[to].count(x) || !fd.ok(id)) continue;
        double s = 0; int n = 0;
        if (from > to)
        {
          idset c = W::exp_cob(S.mo, v, to, from, x);
          for (idset::iterator i = c.begin(); i != c.end(); ++i) if (fs.ok(fid[*i])) { s += fid[*i] * 3 + 1; ++n; }
          if (n) want[id] = s / n;
        }
        else
        {
          std::vector<ints> b = S.mo.bnd(to, S.mo.el[to][x], from);
          for (std::size_t i = 0; i < b.size(); ++i) if (fs.ok(fid[b[i]])) { s += fid[b[i]] * 3 + 1; ++n; }
          want[id] = n ? s / n : -1;
        }
      }
      bool ok = got.size() == want.size();
      for (std::map<int, double>::iterator i = want.begin(); ok && i != want.end(); ++i) ok = got.count(i->first) && close(got[i->first], i->second);
      if (!ok) w.viol("transfer", "values transferred from dimension " + num(from) + " to " + num(to) + " are not the means of the adjacent values");
      sim::count("oracle.transferred", got.size());
    }
    template <typename H> static void transfer_on(W & w, sim::op const & o, slot & S, H const & host, visible const & v)
    {
      id_filter fs(1 + (int)(o.a[4] % 3), (int)(o.a[4] / 3 % 3)), fd(1 + (int)(o.a[5] % 3), (int)(o.a[5] / 3 % 3));
      switch (o.a[2] % 4)
      {
        case 0: transfer_one<D, 0>(w, S, host, v, fs, fd); break;
        case 1: transfer_one<0, D>(w, S, host, v, fs, fd); break;
        case 2: transfer_one<D, D - 1>(w, S, host, v, fs, fd); break;
        default: transfer_one<D - 1, D>(w, S, host, v, fs, fd); break;
      }
    }
    static void transfer(W & w, sim::op const & o, slot & S)
    {
      int seg = o.a[3] % 2 ? w.pick_seg(S, o.a[1]) : -1;
      if (seg >= 0) { visible v = W::view_seg(S.mo, seg); segment_t const & h = S.sg->get_segment(seg); transfer_on(w, o, S, h, v); }
      else { visible v = W::view_mesh(S.mo); mesh_t const & h = *S.m; transfer_on(w, o, S, h, v); }
    }

    static void run(W & w, sim::op const & o, slot & S)
    {
      if (o.code == OP_MEASURE || o.code == OP_TRANSFORM || o.code == OP_VORONOI) { geometry<CFG>::run(w, o, S); return; }
      if (o.code == OP_REFINE) { refine_part<CFG, CFG::CUBE>::run(w, o, S); return; }
      if (o.code == OP_HULL)
      {
        // the target is a new mesh or one that has been used before
        if (o.a[1] % 3 == 0) { hull_t h; hull_seg_t hs(h); hull(w, o, S, h, hs); }
        else { hull(w, o, S, old_hull(w), old_seg(w)); }
        return;
      }
      if (o.code == OP_SEEDS) { seeds(w, o, S); return; }
      transfer(w, o, S);
    }
    static hull_t & old_hull(W & w) { keep(w); return *static_cast<holder *>(w.kept.get())->h; }
    static hull_seg_t & old_seg(W & w) { keep(w); return *static_cast<holder *>(w.kept.get())->s; }
    struct holder : kept_base { std::auto_ptr<hull_t> h; std::auto_ptr<hull_seg_t> s; holder() : h(new hull_t), s(new hull_seg_t(*h)) {} ~holder() { s.reset(); h.reset(); } };
    static void keep(W & w) { if (!w.kept.get()) w.kept.reset(new holder); }
  };

  // ------------------------------------------------------------------ measures, transformations, Voronoi quantities (P18)
  typedef std::vector<mpoint> pts_t;
  inline mpoint sub(mpoint const & a, mpoint const & b) { mpoint r; for (int k = 0; k < 3; ++k) r.c[k] = a.c[k] - b.c[k]; return r; }
  inline double dot(mpoint const & a, mpoint const & b) { return a.c[0] * b.c[0] + a.c[1] * b.c[1] + a.c[2] * b.c[2]; }
  inline mpoint cross(mpoint const & a, mpoint const & b) { mpoint r; r.c[0] = a.c[1] * b.c[2] - a.c[2] * b.c[1]; r.c[1] = a.c[2] * b.c[0] - a.c[0] * b.c[2]; r.c[2] = a.c[0] * b.c[1] - a.c[1] * b.c[0]; return r; }
  inline mpoint middle(pts_t const & p) { mpoint r; for (std::size_t i = 0; i < p.size(); ++i) for (int k = 0; k < 3; ++k) r.c[k] += p[i].c[k] / (double)p.size(); return r; }
  inline double simplex_of(mpoint const & a, mpoint const & b) { return dist(a, b); }
  inline double simplex_of(mpoint const & a, mpoint const & b, mpoint const & c) { pts_t p; p.push_back(a); p.push_back(b); p.push_back(c); return simplex_measure(p); }
  inline double simplex_of(mpoint const & a, mpoint const & b, mpoint const & c, mpoint const & d) { pts_t p; p.push_back(a); p.push_back(b); p.push_back(c); p.push_back(d); return simplex_measure(p); }

  // measure of a convex element with plane faces, by cones over its faces
  inline double element_measure(int cube, int dim, pts_t const & p)
  {
    if (!cube || dim < 2) return p.size() == 1 ? 1 : simplex_measure(p);
    if (dim == 2) return simplex_of(p[0], p[1], p[3]) + simplex_of(p[0], p[2], p[3]);
    mpoint m = middle(p); double s = 0;
    for (int axis = 0; axis < 3; ++axis) for (int side = 0; side < 2; ++side)
    {
      int a = 1 << axis, b = 1 << ((axis + 1) % 3), c = 1 << ((axis + 2) % 3), o = side ? a : 0;
      s += simplex_of(m, p[(std::size_t)o], p[(std::size_t)(o + b)], p[(std::size_t)(o + b + c)]) + simplex_of(m, p[(std::size_t)o], p[(std::size_t)(o + c)], p[(std::size_t)(o + b + c)]);
    }
    return s;
  }
  // the point with equal distance to all corners, in the plane of the element
  inline mpoint circum(int cube, pts_t const & p)
  {
    if (cube || p.size() == 2) return middle(p);
    mpoint a = sub(p[1], p[0]), b = sub(p[2], p[0]), r = p[0];
    if (p.size() == 3)
    {
      mpoint n = cross(a, b), u = cross(n, a), v = cross(b, n); double q = 2 * dot(n, n);
      for (int k = 0; k < 3; ++k) r.c[k] += (dot(b, b) * u.c[k] + dot(a, a) * v.c[k]) / q;
      return r;
    }
    mpoint c = sub(p[3], p[0]), x = cross(b, c), y = cross(c, a), z = cross(a, b); double q = 2 * dot(a, x);
    for (int k = 0; k < 3; ++k) r.c[k] += (dot(a, a) * x.c[k] + dot(b, b) * y.c[k] + dot(c, c) * z.c[k]) / q;
    return r;
  }

  template <typename CFG> struct geometry
  {
    typedef world<CFG> W; typedef typename W::slot slot; typedef typename W::mesh_t mesh_t; typedef typename W::segment_t segment_t; typedef typename W::point_t point_t;
    enum { D = CFG::D, CUBE = CFG::CUBE, GD = CFG::GD };
    typedef typename W::template T<D>::tag cell_tag; typedef typename W::template T<D>::elem cell_t; typedef typename W::template T<1>::elem edge_t; typedef typename W::template T<0>::elem vertex_t;
    typedef typename viennagrid::result_of::const_handle<mesh_t, cell_tag>::type chandle_t;
    typedef typename viennagrid::result_of::voronoi_cell_contribution<chandle_t>::type contrib_t;

    static pts_t corners(model const & m, ints const & v) { pts_t p; for (std::size_t i = 0; i < v.size(); ++i) p.push_back(m.points.find(v[i])->second); return p; }
    static bool near(double a, double b) { return std::fabs(a - b) <= 1e-7 * (1e-3 + std::fabs(a) + std::fabs(b)); }

    template <typename H> static void sizes(W & w, slot & S, H const & host, visible const & v, std::string const & what)
    {
      double vol = 0, sur = 0; model const & m = S.mo;
      for (idset::const_iterator i = v.el[D].begin(); i != v.el[D].end(); ++i) vol += element_measure(CUBE, D, corners(m, m.el[D].find(*i)->second.v));
      for (idset::const_iterator i = v.el[D - 1].begin(); i != v.el[D - 1].end(); ++i) if (W::facet_on_boundary(m, v, *i)) sur += element_measure(CUBE, D - 1, corners(m, m.el[D - 1].find(*i)->second.v));
      double gv = viennagrid::volume(host), gs = viennagrid::surface(host);
      if (!near(gv, vol)) w.viol("measure", "volume of the " + what + " is not the sum over its cells");
      else if (!near(gs, sur)) w.viol("measure", "surface of the " + what + " is not the sum over its boundary facets");
      sim::count("check.measure"); sim::hash_add((sim::u64)(sim::i64)(gv * 1024)); sim::hash_add((sim::u64)(sim::i64)(gs * 1024));
    }
    // extent, centroids and distances to the boundary
    static mpoint model_point(point_t const & p) { mpoint r; for (int k = 0; k < GD; ++k) r.c[k] = p[(std::size_t)k]; return r; }
    static double to_line(mpoint const & p, mpoint const & a, mpoint const & b)
    {
      mpoint d = sub(b, a); double q = dot(d, d), t = q > 0 ? dot(sub(p, a), d) / q : 0; t = std::max(0.0, std::min(1.0, t));
      mpoint x = a; for (int k = 0; k < 3; ++k) x.c[k] += t * d.c[k]; return dist(p, x);
    }
    static double to_triangle(mpoint const & p, mpoint const & a, mpoint const & b, mpoint const & c)
    {
      mpoint n = cross(sub(b, a), sub(c, a)); double q = dot(n, n);
      bool inside = dot(cross(sub(b, a), sub(p, a)), n) >= 0 && dot(cross(sub(c, b), sub(p, b)), n) >= 0 && dot(cross(sub(a, c), sub(p, c)), n) >= 0;
      if (inside && q > 0) return std::fabs(dot(sub(p, a), n)) / std::sqrt(q);
      return std::min(to_line(p, a, b), std::min(to_line(p, b, c), to_line(p, c, a)));
    }
    static double to_facet(mpoint const & p, pts_t const & f)
    {
      if (f.size() == 1) return dist(p, f[0]);
      if (f.size() == 2) return to_line(p, f[0], f[1]);
      double r = to_triangle(p, f[0], f[1], f[2]); if (f.size() == 4) r = std::min(r, to_triangle(p, f[1], f[2], f[3]));
      return r;
    }
    static bool flat(pts_t const & f)
    {
      if (f.size() < 3) return f.size() == 2 && !(dist(f[0], f[1]) > 0);
      mpoint a = sub(f[1], f[0]), b = sub(f[2], f[0]), n = cross(a, b); if (dot(n, n) < 1e-4 * dot(a, a) * dot(b, b)) return true;
      if (f.size() == 4) { a = sub(f[1], f[3]); b = sub(f[2], f[3]); n = cross(a, b); if (dot(n, n) < 1e-4 * dot(a, a) * dot(b, b)) return true; }
      return false;
    }
    static std::vector<pts_t> border(model const & m, visible const & v)
    {
      std::vector<pts_t> r;
      for (idset::const_iterator i = v.el[D - 1].begin(); i != v.el[D - 1].end(); ++i) if (W::facet_on_boundary(m, v, *i)) r.push_back(corners(m, m.el[D - 1].find(*i)->second.v));
      return r;
    }
    template <typename H> static void extent(W & w, sim::op const & o, slot & S, H const & host, visible const & v, std::string const & what)
    {
      model const & m = S.mo; sim::rng g((sim::u64)o.a[3]); double big = 0;
      mpoint lo, hi; bool any = false;
      for (idset::const_iterator i = v.el[0].begin(); i != v.el[0].end(); ++i)
      {
        mpoint p = m.points.find((*i)[0])->second;
        for (int k = 0; k < GD; ++k) { if (!any || p.c[k] < lo.c[k]) lo.c[k] = p.c[k]; if (!any || p.c[k] > hi.c[k]) hi.c[k] = p.c[k]; big = std::max(big, std::fabs(p.c[k])); }
        any = true;
      }
      if (any)
      {
        std::pair<point_t, point_t> bb = viennagrid::bounding_box(host);
        for (int k = 0; k < GD; ++k) if (bb.first[(std::size_t)k] != lo.c[k] || bb.second[(std::size_t)k] != hi.c[k]) { w.viol("extent", "bounding box of the " + what + " is not that of its vertices"); return; }
        if (!near(viennagrid::mesh_size(host), dist(lo, hi))) { w.viol("extent", "size of the " + what + " is not the diagonal of its bounding box"); return; }
        sim::count("check.extent");
      }
      double tv = 0; mpoint cc;
      for (idset::const_iterator i = v.el[D].begin(); i != v.el[D].end(); ++i) { pts_t p = corners(m, m.el[D].find(*i)->second.v); double x = element_measure(CUBE, D, p); mpoint q = middle(p); tv += x; for (int k = 0; k < 3; ++k) cc.c[k] += x * q.c[k]; }
      if (tv > 1e-6)
      {
        mpoint r = model_point(viennagrid::centroid(host, viennagrid::default_point_accessor(host))); for (int k = 0; k < 3; ++k) cc.c[k] /= tv;
        if (dist(r, cc) > 1e-6 * (1 + big)) { w.viol("centroid", "centroid of the " + what + " is not the weighted mean over its cells"); return; }
        sim::count("check.centroid");
      }
      std::vector<pts_t> b = border(m, v); if (b.empty()) return;
      for (std::size_t i = 0; i < b.size(); ++i) if (flat(b[i])) return;
      for (int q = 0; q < 3; ++q)
      {
        point_t x; for (int k = 0; k < GD; ++k) x[(std::size_t)k] = lo.c[k] + (hi.c[k] - lo.c[k]) * 0.125 * ((double)g.below(17) - 4);
        double want = -1; for (std::size_t i = 0; i < b.size(); ++i) { double d = to_facet(model_point(x), b[i]); if (want < 0 || d < want) want = d; }
        double got = g.chance(1, 2) ? viennagrid::boundary_distance(x, host) : viennagrid::boundary_distance(host, x);
        if (std::fabs(got - want) > 1e-6 * (1 + big)) { w.viol("distance", "distance of a point to the boundary of the " + what + " is wrong"); return; }
        std::pair<point_t, point_t> cp = viennagrid::closest_points_on_boundary(viennagrid::default_point_accessor(host), x, host);
        if (std::fabs(viennagrid::norm_2(cp.first - cp.second) - want) > 1e-6 * (1 + big)) { w.viol("distance", "closest points on the boundary of the " + what + " are not closest"); return; }
        sim::count("check.distance");
      }
    }
    static double between(pts_t const & f, pts_t const & h)
    {
      double a = turn(f[0], f[1], h[0]), b = turn(f[0], f[1], h[1]), c = turn(h[0], h[1], f[0]), d = turn(h[0], h[1], f[1]);
      if (((a > 0 && b < 0) || (a < 0 && b > 0)) && ((c > 0 && d < 0) || (c < 0 && d > 0))) return 0;
      return std::min(std::min(to_line(f[0], h[0], h[1]), to_line(f[1], h[0], h[1])), std::min(to_line(h[0], f[0], f[1]), to_line(h[1], f[0], f[1])));
    }
    static double turn(mpoint const & a, mpoint const & b, mpoint const & c) { mpoint u = sub(b, a), v = sub(c, a); return u.c[0] * v.c[1] - u.c[1] * v.c[0]; }
    template <int> struct dim_tag {};
    template <int X> static void apart(W &, sim::op const &, slot &, int, dim_tag<X>) {}
    // distances between segments, and of an edge to a segment, in the plane
    static void apart(W & w, sim::op const & o, slot & S, int seg, dim_tag<2>)
    {
      int seg2 = w.pick_seg(S, o.a[4]); model const & m = S.mo; double big = 0;
      for (std::map<int, mpoint>::const_iterator i = m.points.begin(); i != m.points.end(); ++i) for (int k = 0; k < GD; ++k) big = std::max(big, std::fabs(i->second.c[k]));
      visible v = W::view_seg(m, seg), v2 = W::view_seg(m, seg2); segment_t const & h = S.sg->get_segment(seg); segment_t const & h2 = S.sg->get_segment(seg2);
      std::vector<pts_t> b = border(m, v), b2 = border(m, v2); double want = -1;
      for (std::size_t i = 0; i < b.size(); ++i) { if (flat(b[i])) return; for (std::size_t j = 0; j < b2.size(); ++j) { if (flat(b2[j])) return; double d = between(b[i], b2[j]); if (want < 0 || d < want) want = d; } }
      if (want >= 0)
      {
        if (std::fabs(viennagrid::boundary_distance(h, h2) - want) > 1e-6 * (1 + big)) { w.viol("distance", "distance between the boundaries of two segments is wrong"); return; }
        sim::count("check.segment_distance");
      }
      if (m.el[1].empty() || v.el[1].empty()) return;
      std::map<ints, melem>::const_iterator e = m.el[1].begin(); std::advance(e, (long)((sim::u64)o.a[5] % m.el[1].size()));
      pts_t x = corners(m, e->second.v); want = -1; if (flat(x)) return;
      for (idset::const_iterator i = v.el[1].begin(); i != v.el[1].end(); ++i) { pts_t y = corners(m, m.el[1].find(*i)->second.v); if (flat(y)) return; double d = between(x, y); if (want < 0 || d < want) want = d; }
      edge_t const & edge = viennagrid::dereference_handle(*S.m, w.template locate_handle<1>(*S.m, e->first));
      double got = o.a[5] % 2 ? viennagrid::distance(edge, h) : viennagrid::distance(h, edge);
      if (std::fabs(got - want) > 1e-6 * (1 + big)) { w.viol("distance", "distance of an edge to the edges of a segment is wrong"); return; }
      sim::count("check.edge_distance");
    }
    static void measure_op(W & w, sim::op const & o, slot & S)
    {
      int seg = o.a[1] % 2 ? w.pick_seg(S, o.a[2]) : -1;
      if (seg >= 0) { visible v = W::view_seg(S.mo, seg); segment_t const & h = S.sg->get_segment(seg); sizes(w, S, h, v, "segment"); if (!sim::violated()) extent(w, o, S, h, v, "segment"); if (!sim::violated()) apart(w, o, S, seg, dim_tag<D>()); }
      else { visible v = W::view_mesh(S.mo); mesh_t const & h = *S.m; sizes(w, S, h, v, "mesh"); if (!sim::violated()) extent(w, o, S, h, v, "mesh"); }
    }

    struct taper { typedef point_t result_type; point_t operator()(point_t const & p) const { point_t q = p; double s = 1.0 / (1.0 + 0.03125 * p[GD - 1]); for (int k = 0; k < GD; ++k) q[(std::size_t)k] = p[(std::size_t)k] * s; return q; } };

    static void transform(W & w, sim::op const & o, slot & S)
    {
      model & m = S.mo; sim::rng g((sim::u64)o.a[2]);
      double A[9] = { 1, 0, 0, 0, 1, 0, 0, 0, 1 }, t[3] = { 0, 0, 0 }; int kind = (int)(o.a[1] % 5);
      double f = g.chance(1, 2) ? 2 : 0.5; if (w.scale_exp > 3) f = 0.5; if (w.scale_exp < -2) f = 2;
      point_t c; for (int k = 0; k < GD; ++k) c[(std::size_t)k] = (double)(int)g.below(4);
      if (kind == 4)
      {
        bool ok = !w.tapered; for (std::map<int, mpoint>::iterator i = m.points.begin(); i != m.points.end(); ++i) if (i->second.c[GD - 1] < 0 || i->second.c[GD - 1] > 60) ok = false;
        if (!ok || GD < 2) return;
        w.tapered = true; taper tp; viennagrid::geometric_transform(*S.m, tp);
        for (std::map<int, mpoint>::iterator i = m.points.begin(); i != m.points.end(); ++i) { point_t q = tp(W::real_point(i->second)); for (int k = 0; k < GD; ++k) i->second.c[k] = q[(std::size_t)k]; }
        return;
      }
      if (w.tapered) kind &= ~1;       // coordinates are no longer short binary fractions: only exact operations
      if (kind <= 1)
      {
        for (int k = 0; k < 3; ++k) A[4 * k] = f;
        if (kind == 1) { for (int k = 0; k < GD; ++k) t[k] = c[(std::size_t)k] - f * c[(std::size_t)k]; viennagrid::scale(*S.m, f, c); } else viennagrid::scale(*S.m, f);
        w.scale_exp += f > 1 ? 1 : -1;
      }
      else
      {
        int p[3] = { 0, 1, 2 }; for (int k = GD - 1; k > 0; --k) std::swap(p[k], p[g.below((sim::u64)k + 1)]);
        for (int k = 0; k < 9; ++k) A[k] = 0;
        for (int k = 0; k < 3; ++k) A[3 * k + p[k]] = (k < GD && g.chance(1, 2)) ? -1 : 1;
        double M[9]; for (int r = 0; r < GD; ++r) for (int q = 0; q < GD; ++q) M[r * GD + q] = A[3 * r + q];
        if (kind == 3) { for (int k = 0; k < GD; ++k) t[k] = c[(std::size_t)k]; viennagrid::affine_transform(*S.m, M, c); } else { viennagrid::affine_transform_functor<mesh_t> fn(M); viennagrid::geometric_transform(*S.m, fn); }
      }
      w.apply(A, t, m);
      sim::count("oracle.transforms");
    }

    // positive if C lies on the same side of the edge as the cell
    static double beyond(model & m, ints const & cell, ints const & edge, mpoint const & C)
    {
      mpoint a = m.points[edge[0]], d = sub(m.points[edge[1]], a); int o = -1; for (std::size_t z = 0; z < cell.size(); ++z) if (cell[z] != edge[0] && cell[z] != edge[1]) o = cell[z];
      mpoint u = sub(C, a), v = sub(m.points[o], a); double cu = d.c[0] * u.c[1] - d.c[1] * u.c[0], cv = d.c[0] * v.c[1] - d.c[1] * v.c[0]; return cv > 0 ? cu : -cu;
    }
    static mpoint crossing(mpoint const & a, mpoint const & b, mpoint const & p, mpoint const & q)
    {
      mpoint d = sub(b, a), e = sub(q, p), f = sub(p, a), r = a; double t = (f.c[0] * e.c[1] - f.c[1] * e.c[0]) / (d.c[0] * e.c[1] - d.c[1] * e.c[0]);
      for (int k = 0; k < 2; ++k) r.c[k] += t * d.c[k]; return r;
    }
    static void voronoi(W & w, slot & S)
    {
      model & m = S.mo; if (!w.grid_mode || w.tapered) return;
      std::deque<double> ia, vb, eb; std::deque<contrib_t> iac, vbc, ebc; mesh_t const & in = *S.m;
      viennagrid::apply_voronoi<cell_t>(in, viennagrid::make_field<edge_t>(ia), viennagrid::make_field<edge_t>(iac), viennagrid::make_field<vertex_t>(vb), viennagrid::make_field<vertex_t>(vbc), viennagrid::make_field<edge_t>(eb), viennagrid::make_field<edge_t>(ebc));
      // reference: every cell is cut into the corners of its flags (vertex, edge, facet, cell)
      std::map<ints, double> area, ebox; std::map<int, double> box; std::map<ints, double> angle; std::map<ints, std::set<ints> > cells_at; idset noarea; bool obtuse = false;
      for (std::map<ints, melem>::iterator i = m.el[D].begin(); i != m.el[D].end(); ++i)
      {
        mpoint C = circum(CUBE, corners(m, i->second.v));
        std::vector<ints> fs = boundary_tuples(CUBE, D, i->second.v, D - 1);
        for (std::size_t q = 0; q < fs.size(); ++q)
        {
          mpoint F = circum(CUBE, corners(m, fs[q]));
          std::vector<ints> es; if (D == 2) es.push_back(fs[q]); else es = boundary_tuples(CUBE, D - 1, fs[q], 1);
          for (std::size_t e = 0; e < es.size(); ++e)
          {
            ints k = sorted(es[e]); mpoint a = m.points[k[0]], b = m.points[k[1]], M = mid(a, b);
            double l = dist(a, b), ar = D == 2 ? simplex_of(M, C) : simplex_of(M, F, C); cells_at[k].insert(i->first);
            if (D == 2 && !CUBE)
            {
              // a circumcenter beyond an edge: that edge has a negative part; without a cell on the other side the boxes end at the edge
              double side = beyond(m, i->second.v, k, C), l2 = l * l;
              if (side < -1e-9 * l2) { obtuse = true; if (m.facet_cells(k) == 1) continue; ar = -ar; }
              else
              {
                bool cut = false;
                for (std::size_t z = 0; z < fs.size(); ++z)
                {
                  ints kz = sorted(fs[z]); if (kz == k || beyond(m, i->second.v, kz, C) >= -1e-9 * l2 || m.facet_cells(kz) != 1) continue;
                  cut = true; int o = k[0] == kz[0] || k[0] == kz[1] ? k[1] : k[0], n = o == k[0] ? k[1] : k[0];     // o: opposite to the cut edge
                  mpoint p = m.points[kz[0]], q = m.points[kz[1]], x = crossing(M, C, p, q), y = crossing(m.points[o], C, p, q);
                  double bn = simplex_of(x, M, m.points[n]), bo = simplex_of(x, M, m.points[o]) + simplex_of(y, x, m.points[o]);
                  box[n] += bn; box[o] += bo; ebox[k] += bn + bo; noarea.insert(k); obtuse = true;
                }
                if (cut) continue;
              }
            }
            double bv = ar * l / 2 / D;
            area[k] += ar; ebox[k] += 2 * bv; box[k[0]] += bv; box[k[1]] += bv;
            if (D == 3 && !CUBE)
            {
              // dihedral angle at the edge, half from each of the two facets
              mpoint d = sub(b, a), n1, n2; bool first = true;
              for (std::size_t z = 0; z < i->second.v.size(); ++z) { int x = i->second.v[z]; if (x == k[0] || x == k[1]) continue; mpoint n = cross(d, sub(m.points[x], a)); if (first) n1 = n; else n2 = n; first = false; }
              angle[k] += 0.5 * std::acos(std::max(-1.0, std::min(1.0, dot(n1, n2) / std::sqrt(dot(n1, n1) * dot(n2, n2)))));
            }
          }
        }
      }
      // the tetrahedral algorithm needs a convex interface polygon: the cells at the edge form one wedge of at most 180 degrees or surround it
      idset skip; std::set<int> vskip;
      if (D == 3 && !CUBE)
        for (std::map<ints, double>::iterator i = angle.begin(); i != angle.end(); ++i)
        {
          int open = 0;
          for (std::map<ints, melem>::iterator f = m.el[2].begin(); f != m.el[2].end(); ++f)
            if (std::find(f->first.begin(), f->first.end(), i->first[0]) != f->first.end() && std::find(f->first.begin(), f->first.end(), i->first[1]) != f->first.end() && m.facet_cells(f->first) == 1) ++open;
          bool good = (open == 0 && i->second > 6.28) || (open == 2 && i->second < 3.1416);
          if (!good) { skip.insert(i->first); vskip.insert(i->first[0]); vskip.insert(i->first[1]); }
        }
      typedef typename viennagrid::result_of::const_element_range<mesh_t, viennagrid::line_tag>::type ER; typedef typename viennagrid::result_of::iterator<ER>::type EI;
      typedef typename viennagrid::result_of::const_vertex_range<mesh_t>::type VR; typedef typename viennagrid::result_of::iterator<VR>::type VI;
      ER es(in);
      for (EI it = es.begin(); it != es.end(); ++it)
      {
        ints k = w.template ident<1>(*it); std::size_t id = (std::size_t)(*it).id().get();
        if (skip.count(k)) continue;
        double a = id < ia.size() ? ia[id] : 0, b = id < eb.size() ? eb[id] : 0;
        if (!noarea.count(k) && !near(a, area[k])) { w.viol("voronoi", "interface area of edge " + str(k) + " is wrong"); return; }
        if (!near(b, ebox[k])) { w.viol("voronoi", "edge box volume of edge " + str(k) + " is wrong"); return; }
        double sa = 0, sb = 0; if (id < iac.size()) for (typename contrib_t::iterator q = iac[id].begin(); q != iac[id].end(); ++q) { sa += q->second; }
        if (id < ebc.size()) for (typename contrib_t::iterator q = ebc[id].begin(); q != ebc[id].end(); ++q) { sb += q->second; if (!obtuse && !cells_at[k].count(w.template ident<D>(viennagrid::dereference_handle(in, q->first)))) { if (std::fabs(q->second) > 1e-9) { w.viol("voronoi", "a cell contributes to edge " + str(k) + " without containing it"); return; } } }
        if ((!noarea.count(k) && !near(sa, a)) || !near(sb, b)) { w.viol("voronoi", "contributions of the cells do not add up for edge " + str(k)); return; }
        sim::count("check.voronoi_edge");
      }
      VR vs(in);
      for (VI it = vs.begin(); it != vs.end(); ++it)
      {
        std::size_t id = (std::size_t)(*it).id().get(); if (vskip.count((int)id)) continue;
        double a = id < vb.size() ? vb[id] : 0, sa = 0; if (id < vbc.size()) for (typename contrib_t::iterator q = vbc[id].begin(); q != vbc[id].end(); ++q) sa += q->second;
        if (!near(a, box[(int)id]) || !near(sa, a)) { w.viol("voronoi", "box volume of vertex " + num((sim::i64)id) + " is wrong"); return; }
        sim::count("check.voronoi_vertex");
      }
    }
    static void run(W & w, sim::op const & o, slot & S)
    {
      if (o.code == OP_MEASURE) measure_op(w, o, S);
      else if (o.code == OP_TRANSFORM) transform(w, o, S);
      else voronoi(w, S);
    }
  };
}
