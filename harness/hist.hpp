// History harness: several simulated clients (builder, eraser, segment editor,
// querier, copier, data writer) share up to three meshes.  A seeded scheduler
// interleaves their operations, optionally failing heap allocations, and every
// answer is compared with a small reference model (sets of vertex-id tuples).
//
// Compiled once per mesh configuration (-DHIST_CFG=n); all code below the
// simulator is the real library.
#include "sim.h"
#include <algorithm>
#include <cstring>
#include <deque>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>

#include "viennagrid/forwards.hpp"
#include "viennagrid/config/default_configs.hpp"
#include "viennagrid/mesh/element_creation.hpp"
#include "viennagrid/mesh/element_deletion.hpp"
#include "viennagrid/mesh/mesh_operations.hpp"
#include "viennagrid/mesh/coboundary_iteration.hpp"
#include "viennagrid/mesh/neighbor_iteration.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/mesh/segmented_mesh.hpp"
#include "viennagrid/algorithm/boundary.hpp"
#include "viennagrid/algorithm/interface.hpp"
#include "viennagrid/accessor.hpp"

namespace hist
{
  using sim::num;
  typedef std::vector<int> ints;
  typedef std::set<ints> idset;

  inline std::string str(ints const & v)
  { std::string r = "("; for (std::size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += num(v[i]); } return r + ")"; }
  inline std::string str(idset const & s)
  { std::string r = "{"; for (idset::const_iterator i = s.begin(); i != s.end(); ++i) r += str(*i); return r + "}"; }
  inline ints sorted(ints v) { std::sort(v.begin(), v.end()); return v; }
  inline ints one(int i) { return ints(1, i); }

  // ------------------------------------------------------------------ configurations
  struct cfg_line2  { typedef viennagrid::line_2d_mesh mesh; typedef viennagrid::result_of::segmentation<mesh>::type segmentation; enum { D = 1, GD = 2, NV = 2, CUBE = 0, INFO = 0 }; static const char * name() { return "line_2d"; } };
  struct cfg_tri2   { typedef viennagrid::triangular_2d_mesh mesh; typedef viennagrid::result_of::segmentation<mesh>::type segmentation; enum { D = 2, GD = 2, NV = 3, CUBE = 0, INFO = 0 }; static const char * name() { return "triangular_2d"; } };
  struct cfg_quad2  { typedef viennagrid::quadrilateral_2d_mesh mesh; typedef viennagrid::result_of::segmentation<mesh>::type segmentation; enum { D = 2, GD = 2, NV = 4, CUBE = 1, INFO = 0 }; static const char * name() { return "quadrilateral_2d"; } };
  struct cfg_tet3   { typedef viennagrid::tetrahedral_3d_mesh mesh; typedef viennagrid::result_of::segmentation<mesh>::type segmentation; enum { D = 3, GD = 3, NV = 4, CUBE = 0, INFO = 0 }; static const char * name() { return "tetrahedral_3d"; } };
  struct cfg_hex3   { typedef viennagrid::hexahedral_3d_mesh mesh; typedef viennagrid::result_of::segmentation<mesh>::type segmentation; enum { D = 3, GD = 3, NV = 8, CUBE = 1, INFO = 0 }; static const char * name() { return "hexahedral_3d"; } };

  struct cfg_hull3  { typedef viennagrid::triangular_3d_mesh mesh; typedef viennagrid::triangular_hull_3d_segmentation segmentation; enum { D = 2, GD = 3, NV = 3, CUBE = 0, INFO = 1 }; static const char * name() { return "triangular_hull_3d"; } };

  template <int CUBE, int d> struct tag_of { typedef viennagrid::simplex_tag<d> type; };
  template <> struct tag_of<1, 2> { typedef viennagrid::hypercube_tag<2> type; };
  template <> struct tag_of<1, 3> { typedef viennagrid::hypercube_tag<3> type; };

  // the makers named after the element type
  template <typename TAG> struct named;
  template <> struct named<viennagrid::simplex_tag<1> > { template <typename H, typename V> static typename viennagrid::result_of::line_handle<H>::type make(H & h, V const & v, sim::i64 r) { if (r % 2) return viennagrid::make_edge(h, v[0], v[1]); return viennagrid::make_line(h, v[0], v[1]); } };
  template <> struct named<viennagrid::simplex_tag<2> > { template <typename H, typename V> static typename viennagrid::result_of::triangle_handle<H>::type make(H & h, V const & v, sim::i64) { return viennagrid::make_triangle(h, v[0], v[1], v[2]); } };
  template <> struct named<viennagrid::simplex_tag<3> > { template <typename H, typename V> static typename viennagrid::result_of::tetrahedron_handle<H>::type make(H & h, V const & v, sim::i64) { return viennagrid::make_tetrahedron(h, v[0], v[1], v[2], v[3]); } };
  template <> struct named<viennagrid::hypercube_tag<2> > { template <typename H, typename V> static typename viennagrid::result_of::quadrilateral_handle<H>::type make(H & h, V const & v, sim::i64) { return viennagrid::make_quadrilateral(h, v[0], v[1], v[2], v[3]); } };
  template <> struct named<viennagrid::hypercube_tag<3> > { template <typename H, typename V> static typename viennagrid::result_of::hexahedron_handle<H>::type make(H & h, V const & v, sim::i64) { return viennagrid::make_hexahedron(h, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]); } };

  // reference topology of a cell / facet given its ordered vertices (independent of the library's tables):
  // all boundary elements of dimension d as ordered vertex tuples
  inline std::vector<ints> boundary_tuples(int cube, int dim, ints const & v, int d)
  {
    std::vector<ints> r;
    if (d == dim) { r.push_back(v); return r; }
    if (d == 0) { for (std::size_t i = 0; i < v.size(); ++i) r.push_back(one(v[i])); return r; }
    if (!cube || dim == 1)
    {
      std::size_t n = v.size();
      if (d == 1) for (std::size_t i = 0; i < n; ++i) for (std::size_t j = i + 1; j < n; ++j) { ints t; t.push_back(v[i]); t.push_back(v[j]); r.push_back(t); }
      if (d == 2) for (std::size_t i = 0; i < n; ++i) for (std::size_t j = i + 1; j < n; ++j) for (std::size_t k = j + 1; k < n; ++k) { ints t; t.push_back(v[i]); t.push_back(v[j]); t.push_back(v[k]); r.push_back(t); }
      return r;
    }
    // hypercube: vertex i sits at the binary coordinates of i; a face fixes dim-d coordinates
    int n = 1 << dim;
    for (int mask = 0; mask < n; ++mask)           // mask = free coordinates
    {
      int free = 0; for (int b = 0; b < dim; ++b) free += (mask >> b) & 1;
      if (free != d) continue;
      for (int base = 0; base < n; ++base)
      {
        if (base & mask) continue;
        ints t;
        for (int i = 0; i < n; ++i) if ((i & ~mask) == base) t.push_back(v[(std::size_t)i]);
        r.push_back(t);
      }
    }
    return r;
  }

  struct melem { int id; ints v; melem() : id(-1) {} };             // id -1: not learned yet
  struct mpoint { double c[3]; mpoint() { c[0] = c[1] = c[2] = 0; } };
  struct mseg { std::string name; std::map<int, idset> el; std::map<ints, int> info; };       // el[d]; info of the cells in the segment, -1: not known

  // reference model of one mesh + its segmentation
  struct model
  {
    int cube, D;
    std::map<int, mpoint> points;                       // vertex id -> point
    std::map<ints, melem> el[4];                        // dimension -> ident -> element
    std::map<int, mseg> segs;
    bool has_seg;
    std::map<int, double> data[4][3];                   // dimension -> container kind -> id -> value
    std::map<std::pair<int,int>, int> unused_;
    model() : cube(0), D(0), has_seg(false) {}

    // ident: vertices (id), intermediate elements sorted vertex ids, cells (id)
    std::vector<ints> bnd(int hi, melem const & e, int lo) const
    {
      std::vector<ints> r = boundary_tuples(cube, hi, e.v, lo);
      for (std::size_t i = 0; i < r.size(); ++i) r[i] = sorted(r[i]);
      return r;
    }
    bool incident(int hi, ints const & h, int lo, ints const & l) const
    {
      std::map<ints, melem>::const_iterator it = el[hi].find(h);
      if (it == el[hi].end()) return false;
      std::vector<ints> b = bnd(hi, it->second, lo);
      return std::find(b.begin(), b.end(), l) != b.end();
    }
    void add_low(int d, ints const & v)   // intermediate element with ordered vertices v, closure included
    {
      ints k = sorted(v);
      if (el[d].find(k) == el[d].end()) { melem m; m.v = v; el[d][k] = m; }
      for (int q = 1; q < d; ++q)
      {
        std::vector<ints> b = boundary_tuples(cube, d, v, q);
        for (std::size_t i = 0; i < b.size(); ++i) if (el[q].find(sorted(b[i])) == el[q].end()) { melem m; m.v = b[i]; el[q][sorted(b[i])] = m; }
      }
    }
    void add_cell(int id, ints const & v)
    {
      melem m; m.id = id; m.v = v; el[D][one(id)] = m;
      for (int q = 1; q < D; ++q)
      {
        std::vector<ints> b = boundary_tuples(cube, D, v, q);
        for (std::size_t i = 0; i < b.size(); ++i) if (el[q].find(sorted(b[i])) == el[q].end()) { melem x; x.v = b[i]; el[q][sorted(b[i])] = x; }
      }
    }
    void add_vertex(int id, mpoint const & p) { points[id] = p; melem m; m.id = id; m.v = one(id); el[0][one(id)] = m; }

    // everything that has to go when element x of dimension d goes
    void closure_up(int d, ints const & x, std::vector<std::pair<int, ints> > & out) const
    {
      out.push_back(std::make_pair(d, x));
      for (int h = d + 1; h <= D; ++h)
        for (std::map<ints, melem>::const_iterator it = el[h].begin(); it != el[h].end(); ++it)
          if (incident(h, it->first, d, x)) out.push_back(std::make_pair(h, it->first));
    }
    void remove(int d, ints const & x)
    {
      if (d == 0) points.erase(x[0]);
      std::map<ints, melem>::iterator it = el[d].find(x);
      if (it == el[d].end()) return;
      el[d].erase(it);
    }
    idset all(int d) const { idset r; for (std::map<ints, melem>::const_iterator it = el[d].begin(); it != el[d].end(); ++it) r.insert(it->first); return r; }
    int facet_cells(ints const & f) const
    {
      int n = 0;
      for (std::map<ints, melem>::const_iterator it = el[D].begin(); it != el[D].end(); ++it) if (incident(D, it->first, D - 1, f)) ++n;
      return n;
    }
    sim::u64 hash() const
    {
      sim::u64 h = 99;
      for (int d = 0; d <= D; ++d) for (std::map<ints, melem>::const_iterator it = el[d].begin(); it != el[d].end(); ++it)
      { h = sim::mix(h ^ (sim::u64)d); for (std::size_t i = 0; i < it->first.size(); ++i) h = sim::mix(h ^ (sim::u64)it->first[i]); for (std::size_t i = 0; i < it->second.v.size(); ++i) h = sim::mix(h ^ (sim::u64)(it->second.v[i] + 1000)); }
      for (std::map<int, mseg>::const_iterator s = segs.begin(); s != segs.end(); ++s)
      {
        h = sim::mix(h ^ (sim::u64)s->first ^ 0x5555);
        for (std::map<int, idset>::const_iterator e = s->second.el.begin(); e != s->second.el.end(); ++e)
          for (idset::const_iterator i = e->second.begin(); i != e->second.end(); ++i) for (std::size_t k = 0; k < i->size(); ++k) h = sim::mix(h ^ (sim::u64)((*i)[k] + 7 * e->first));
      }
      return h;
    }
  };

  // what is visible through a host (whole mesh or one segment)
  struct visible { idset el[4]; };

  enum
  {
    OP_ADD_VERTEX = 1, OP_ADD_CELL, OP_ADD_LOW, OP_ERASE, OP_ERASE_MULTI, OP_Q_BOUNDARY, OP_Q_COBOUNDARY, OP_Q_NEIGHBOR, OP_AUDIT,
    OP_COPY_CTOR, OP_ASSIGN, OP_CLEAR, OP_COPY_FN, OP_SEG_MAKE, OP_SEG_ADD, OP_SEG_ERASE, OP_SEG_NEW_CELL, OP_SEG_NAME, OP_SEG_CLEAR,
    OP_SEG_COPY, OP_Q_SEG_BOUNDARY, OP_Q_SEG_COBOUNDARY, OP_Q_SEG_NEIGHBOR, OP_Q_INTERFACE, OP_AUDIT_SEG, OP_DATA_SET, OP_DATA_CHECK,
    OP_ALLOC_FAULT, OP_SEG_DROP, OP_SEG_NEW_VERTEX, OP_LOOKUP, OP_SEG_FOREIGN, OP_REFINE, OP_HULL, OP_SEEDS, OP_TRANSFER, OP_MEASURE, OP_TRANSFORM, OP_VORONOI, OP_VIEW, OP_SEG_INFO, OP_COUNT
  };
  inline const char * opname(int c)
  {
    static const char * n[] = { "?", "add_vertex", "add_cell", "add_low", "erase", "erase_multi", "q_boundary", "q_coboundary", "q_neighbor", "audit",
      "copy_ctor", "assign", "clear", "copy_fn", "seg_make", "seg_add", "seg_erase", "seg_new_cell", "seg_name", "seg_clear",
      "seg_copy", "q_seg_boundary", "q_seg_coboundary", "q_seg_neighbor", "q_interface", "audit_seg", "data_set", "data_check",
      "alloc_fault", "seg_drop", "seg_new_vertex", "lookup", "seg_foreign", "refine", "hull", "seeds", "transfer", "measure", "transform", "voronoi", "view", "seg_info" };
    return c > 0 && c < OP_COUNT ? n[c] : "?";
  }

  struct kept_base { virtual ~kept_base() {} };
  template <typename CFG> struct derive;      // derive.hpp, only with HIST_DERIVE

  struct parity_functor
  {
    int mod, rem;
    parity_functor(int m, int r) : mod(m), rem(r) {}
    template <typename C> bool operator()(C const & c) const { return (int)(c.id().get() % mod) != rem; }
  };

  // ------------------------------------------------------------------ the world
  template <typename CFG>
  struct world
  {
    typedef typename CFG::mesh mesh_t;
    typedef typename CFG::segmentation segmentation_t;
    typedef typename segmentation_t::segment_handle_type segment_t;
    typedef typename viennagrid::result_of::point<mesh_t>::type point_t;
    typedef typename viennagrid::result_of::vertex_handle<mesh_t>::type vhandle_t;
    enum { D = CFG::D, CUBE = CFG::CUBE, NSLOT = 3 };

    template <int d> struct T
    {
      typedef typename tag_of<CUBE, d>::type tag;
      typedef typename viennagrid::result_of::element<mesh_t, tag>::type elem;
      typedef typename viennagrid::result_of::handle<mesh_t, tag>::type handle;
      typedef typename viennagrid::result_of::id<elem>::type id;
    };

    struct containers { std::vector<double> a; std::deque<double> b; };
    struct slot
    {
      std::auto_ptr<mesh_t> m; std::auto_ptr<segmentation_t> sg; model mo;
      std::vector<double> dv[4]; std::deque<double> dd[4];
      std::map<int, void const *> addr[4];           // id -> address, valid until the next erase (handles stay good while only adding)
      bool broken;                                   // an allocation failed inside a mutation
      slot() : broken(false) {}
    };
    slot s[NSLOT];
    int nslot;
    std::string prop;
    bool q_mesh, q_seg, structure, member, data, alloc;
    sim::i64 pending_fault;       // allocation index that fails in the next op, 0 = none
    bool fault_sticky;
    int serial;
    std::auto_ptr<kept_base> kept;      // results of earlier extractions, reused as targets
    bool rejected;                      // the operation was refused with a library exception
    int grid_mode, scale_exp; bool tapered; double frame[12]; mpoint const * forced;    // grid meshes: position of node n is frame * n
    bool derived; int lattice, cap; std::set<std::vector<double> > taken;

    world(std::string const & p, int n) : nslot(n), prop(p), pending_fault(0), fault_sticky(false), serial(0), lattice(0), cap(14)
    {
      q_mesh = p == "P07" || p == "P12" || p == "P09" || p == "P14";
      q_seg = p == "P08" || p == "P14";
      structure = p == "P09" || p == "P10" || p == "P12" || p == "P14";
      member = p == "P11" || p == "P12" || p == "P14";
      data = p == "P13";
      alloc = p == "P14"; derived = p == "P16" || p == "P17" || p == "P18"; rejected = false; grid_mode = 0; scale_exp = 0; tapered = false; forced = 0;
      for (int k = 0; k < 12; ++k) frame[k] = k < 9 && k % 4 == 0;
      if (derived) structure = member = true;
      for (int i = 0; i < nslot; ++i) fresh(i);
    }
    void fresh(int i)
    {
      s[i].sg.reset(); s[i].m.reset(new mesh_t()); s[i].mo = model(); s[i].mo.D = D; s[i].mo.cube = CUBE; s[i].broken = false;
      for (int d = 0; d < 4; ++d) { s[i].dv[d].clear(); s[i].dd[d].clear(); s[i].addr[d].clear(); }
    }
    void viol(std::string const & rule, std::string const & det) { sim::violation(rule, std::string(CFG::name()) + ": " + det); }

    // -------------------------------------------------------------- identification of real elements
    template <int d> static int eid(typename T<d>::elem const & e) { return (int)e.id().get(); }
    template <int d> struct ident_of
    {
      static ints get(typename T<d>::elem const & e)
      {
        if (d == D) return one(eid<d>(e));
        return sorted(verts(e));
      }
      static ints verts(typename T<d>::elem const & e)
      {
        typedef typename viennagrid::result_of::const_vertex_range<typename T<d>::elem>::type R;
        typedef typename viennagrid::result_of::iterator<R>::type I;
        ints r; R rng(e);
        for (I it = rng.begin(); it != rng.end(); ++it) r.push_back((int)it->id().get());
        return r;
      }
    };
    template <int d> ints ident(typename T<d>::elem const & e) { return ident_sel<d>(e, int_c<d>()); }
    template <int d> ints everts(typename T<d>::elem const & e) { return everts_sel<d>(e, int_c<d>()); }
    template <int v> struct int_c {};
    template <int d> ints ident_sel(typename T<0>::elem const & e, int_c<0>) { return one(eid<0>(e)); }
    template <int d, int k> ints ident_sel(typename T<k>::elem const & e, int_c<k>) { return ident_of<k>::get(e); }
    template <int d> ints everts_sel(typename T<0>::elem const & e, int_c<0>) { return one(eid<0>(e)); }
    template <int d, int k> ints everts_sel(typename T<k>::elem const & e, int_c<k>) { return ident_of<k>::verts(e); }

    // element of the host with the given ident, 0 if missing
    template <int d, typename H> typename T<d>::elem * locate(H & host, ints const & id)
    {
      typedef typename viennagrid::result_of::element_range<H, typename T<d>::tag>::type R;
      typedef typename viennagrid::result_of::iterator<R>::type I;
      R r(host);
      for (I it = r.begin(); it != r.end(); ++it) if (ident<d>(*it) == id) return &*it;
      return 0;
    }
    template <int d> typename T<d>::handle locate_handle(mesh_t & host, ints const & id)
    {
      typedef typename viennagrid::result_of::element_range<mesh_t, typename T<d>::tag>::type R;
      typedef typename viennagrid::result_of::iterator<R>::type I;
      R r(host);
      for (I it = r.begin(); it != r.end(); ++it) if (ident<d>(*it) == id) return it.handle();
      return typename T<d>::handle();
    }
    template <int d, typename H> idset list(H & host)
    {
      typedef typename viennagrid::result_of::element_range<H, typename T<d>::tag>::type R;
      typedef typename viennagrid::result_of::iterator<R>::type I;
      idset o; R r(host);
      for (I it = r.begin(); it != r.end(); ++it) o.insert(ident<d>(*it));
      return o;
    }

    static visible view_mesh(model const & m) { visible v; for (int d = 0; d <= D; ++d) v.el[d] = m.all(d); return v; }
    static visible view_seg(model const & m, int id)
    { visible v; std::map<int, mseg>::const_iterator it = m.segs.find(id); if (it != m.segs.end()) for (int d = 0; d <= D; ++d) { std::map<int, idset>::const_iterator e = it->second.el.find(d); if (e != it->second.el.end()) v.el[d] = e->second; } return v; }

    // -------------------------------------------------------------- expected answers
    static idset exp_cob(model const & m, visible const & v, int lo, int hi, ints const & x)
    { idset r; for (idset::const_iterator i = v.el[hi].begin(); i != v.el[hi].end(); ++i) if (m.incident(hi, *i, lo, x)) r.insert(*i); return r; }
    static idset exp_nbr(model const & m, visible const & v, int lo, int hi, ints const & x)
    {
      idset r; std::map<ints, melem>::const_iterator it = m.el[hi].find(x); if (it == m.el[hi].end()) return r;
      std::vector<ints> b = m.bnd(hi, it->second, lo);
      for (std::size_t k = 0; k < b.size(); ++k)
      {
        if (!v.el[lo].count(b[k])) continue;
        idset c = exp_cob(m, v, lo, hi, b[k]); r.insert(c.begin(), c.end());
      }
      r.erase(x);
      return r;
    }
    static bool facet_on_boundary(model const & m, visible const & v, ints const & f) { return v.el[D - 1].count(f) && exp_cob(m, v, D - 1, D, f).size() == 1; }
    static bool exp_bnd(model const & m, visible const & v, int d, ints const & x)
    {
      if (d == D - 1) return facet_on_boundary(m, v, x);
      for (idset::const_iterator i = v.el[D - 1].begin(); i != v.el[D - 1].end(); ++i)
        if (m.incident(D - 1, *i, d, x) && facet_on_boundary(m, v, *i)) return true;
      return false;
    }
    static bool exp_ifc(model const & m, visible const & v0, visible const & v1, int d, ints const & x)
    {
      if (d == D - 1) return facet_on_boundary(m, v0, x) && facet_on_boundary(m, v1, x);
      for (idset::const_iterator i = v0.el[D - 1].begin(); i != v0.el[D - 1].end(); ++i)
        if (m.incident(D - 1, *i, d, x) && facet_on_boundary(m, v0, *i) && facet_on_boundary(m, v1, *i)) return true;
      return false;
    }

    // -------------------------------------------------------------- queries on the real code
    // A query may be hit by an allocation failure: then it has to throw bad_alloc and a repetition has to give the right answer.
    template <typename Range> idset drain_cells(Range const & r, std::size_t & n);

    template <int lo, int hi, typename H> void do_cob(H & host, ints const & x, int how, idset & out, std::size_t & n)
    {
      typedef typename T<lo>::tag L; typedef typename T<hi>::tag Hh;
      typename T<lo>::elem * e = locate<lo>(host, x);
      out.clear(); n = 0;
      if (!e) { viol("lookup", "element " + str(x) + " of dimension " + num(lo) + " cannot be found by iteration"); return; }
      if (how % 3 == 0)
      {
        typedef typename viennagrid::result_of::const_coboundary_range<H, L, Hh>::type R;
        typedef typename viennagrid::result_of::iterator<R>::type I;
        R r(static_cast<H const &>(host), viennagrid::handle(static_cast<H const &>(host), static_cast<typename T<lo>::elem const &>(*e)));
        for (I it = r.begin(); it != r.end(); ++it) { out.insert(ident<hi>(*it)); ++n; }
        if (r.size() != n) viol("coboundary", "range size() disagrees with iteration");
      }
      else if (how % 3 == 1)
      {
        typedef typename viennagrid::result_of::coboundary_range<H, L, Hh>::type R;
        typedef typename viennagrid::result_of::iterator<R>::type I;
        R r(host, viennagrid::handle(host, *e));
        for (I it = r.begin(); it != r.end(); ++it) { out.insert(ident<hi>(*it)); ++n; }
      }
      else
      {
        typedef typename viennagrid::result_of::coboundary_range<H, L, Hh>::type R;
        typedef typename viennagrid::result_of::iterator<R>::type I;
        R r = viennagrid::coboundary_elements<L, Hh>(host, viennagrid::handle(host, *e));
        for (I it = r.begin(); it != r.end(); ++it) { out.insert(ident<hi>(*it)); ++n; }
      }
    }
    template <int lo, int hi, typename H> void do_nbr(H & host, ints const & x, int how, idset & out, std::size_t & n)
    {
      typedef typename T<lo>::tag L; typedef typename T<hi>::tag Hh;
      typename T<hi>::elem * e = locate<hi>(host, x);
      out.clear(); n = 0;
      if (!e) { viol("lookup", "element " + str(x) + " of dimension " + num(hi) + " cannot be found by iteration"); return; }
      if (how % 2 == 0)
      {
        typedef typename viennagrid::result_of::const_neighbor_range<H, Hh, L>::type R;
        typedef typename viennagrid::result_of::iterator<R>::type I;
        R r(static_cast<H const &>(host), viennagrid::handle(static_cast<H const &>(host), static_cast<typename T<hi>::elem const &>(*e)));
        for (I it = r.begin(); it != r.end(); ++it) { out.insert(ident<hi>(*it)); ++n; }
      }
      else
      {
        typedef typename viennagrid::result_of::neighbor_range<H, Hh, L>::type R;
        typedef typename viennagrid::result_of::iterator<R>::type I;
        R r(host, viennagrid::handle(host, *e));
        for (I it = r.begin(); it != r.end(); ++it) { out.insert(ident<hi>(*it)); ++n; }
      }
    }
    template <int d, typename H> bool do_bnd(H & host, ints const & x)
    {
      typename T<d>::elem * e = locate<d>(host, x);
      if (!e) { viol("lookup", "element " + str(x) + " of dimension " + num(d) + " cannot be found by iteration"); return false; }
      return viennagrid::is_boundary(static_cast<H const &>(host), *e);
    }

    void arm() { if (pending_fault > 0) sim::alloc_fail_arm(pending_fault, fault_sticky); pending_fault = 0; }

    template <int lo, int hi, typename H> void check_cob(model const & m, H & host, visible const & v, ints const & x, int how, const char * where)
    {
      idset got; std::size_t n = 0;
      arm();
      try { do_cob<lo, hi>(host, x, how, got, n); sim::alloc_fail_disarm(); }
      catch (std::bad_alloc const &) { if (!sim::alloc_fail_disarm()) throw; sim::count("query.bad_alloc_retried"); do_cob<lo, hi>(host, x, how, got, n); }
      idset want = exp_cob(m, v, lo, hi, x);
      sim::hash_add(n); sim::count("check.coboundary");
      if (got != want || n != want.size())
        viol("coboundary", std::string(where) + " co-boundary " + num(lo) + "->" + num(hi) + " of " + str(x) + ": got " + num((sim::i64)n) + " " + str(got) + " expected " + str(want));
    }
    template <int lo, int hi, typename H> void check_nbr(model const & m, H & host, visible const & v, ints const & x, int how, const char * where)
    {
      idset got; std::size_t n = 0;
      arm();
      try { do_nbr<lo, hi>(host, x, how, got, n); sim::alloc_fail_disarm(); }
      catch (std::bad_alloc const &) { if (!sim::alloc_fail_disarm()) throw; sim::count("query.bad_alloc_retried"); do_nbr<lo, hi>(host, x, how, got, n); }
      idset want = exp_nbr(m, v, lo, hi, x);
      sim::hash_add(n); sim::count("check.neighbor");
      if (got != want || n != want.size())
        viol("neighbor", std::string(where) + " neighbors (dim " + num(hi) + " via " + num(lo) + ") of " + str(x) + ": got " + num((sim::i64)n) + " " + str(got) + " expected " + str(want));
    }
    template <int d, typename H> void check_bnd(model const & m, H & host, visible const & v, ints const & x, const char * where)
    {
      bool got = false;
      arm();
      try { got = do_bnd<d>(host, x); sim::alloc_fail_disarm(); }
      catch (std::bad_alloc const &) { if (!sim::alloc_fail_disarm()) throw; sim::count("query.bad_alloc_retried"); got = do_bnd<d>(host, x); }
      bool want = exp_bnd(m, v, d, x);
      sim::hash_add(got); sim::count("check.boundary");
      if (got != want) viol("boundary", std::string(where) + " is_boundary(dim " + num(d) + " " + str(x) + ") = " + num(got) + ", expected " + num(want));
    }

    // dispatch over dimension pairs
    template <int q, int dummy = 0> struct pairs;
    template <int dummy> struct pairs<1, dummy>
    {
      template <typename H> static void cob(world & w, model const & m, H & h, visible const & v, int lo, int hi, ints const & x, int how, const char * wh)
      { (void)lo; (void)hi; w.template check_cob<0, 1>(m, h, v, x, how, wh); }
      template <typename H> static void nbr(world & w, model const & m, H & h, visible const & v, int lo, int hi, ints const & x, int how, const char * wh)
      { (void)lo; (void)hi; w.template check_nbr<0, 1>(m, h, v, x, how, wh); }
      template <typename H> static void bnd(world & w, model const & m, H & h, visible const & v, int d, ints const & x, const char * wh)
      { (void)d; w.template check_bnd<0>(m, h, v, x, wh); }
    };
    template <int dummy> struct pairs<2, dummy>
    {
      template <typename H> static void cob(world & w, model const & m, H & h, visible const & v, int lo, int hi, ints const & x, int how, const char * wh)
      {
        if (lo == 0 && hi == 1) w.template check_cob<0, 1>(m, h, v, x, how, wh);
        else if (lo == 0) w.template check_cob<0, 2>(m, h, v, x, how, wh);
        else w.template check_cob<1, 2>(m, h, v, x, how, wh);
      }
      template <typename H> static void nbr(world & w, model const & m, H & h, visible const & v, int lo, int hi, ints const & x, int how, const char * wh)
      {
        if (lo == 0 && hi == 1) w.template check_nbr<0, 1>(m, h, v, x, how, wh);
        else if (lo == 0) w.template check_nbr<0, 2>(m, h, v, x, how, wh);
        else w.template check_nbr<1, 2>(m, h, v, x, how, wh);
      }
      template <typename H> static void bnd(world & w, model const & m, H & h, visible const & v, int d, ints const & x, const char * wh)
      { if (d == 0) w.template check_bnd<0>(m, h, v, x, wh); else w.template check_bnd<1>(m, h, v, x, wh); }
    };
    template <int dummy> struct pairs<3, dummy>
    {
      template <typename H> static void cob(world & w, model const & m, H & h, visible const & v, int lo, int hi, ints const & x, int how, const char * wh)
      {
        switch (lo * 10 + hi)
        {
          case 1: w.template check_cob<0, 1>(m, h, v, x, how, wh); break;
          case 2: w.template check_cob<0, 2>(m, h, v, x, how, wh); break;
          case 3: w.template check_cob<0, 3>(m, h, v, x, how, wh); break;
          case 12: w.template check_cob<1, 2>(m, h, v, x, how, wh); break;
          case 13: w.template check_cob<1, 3>(m, h, v, x, how, wh); break;
          case 23: w.template check_cob<2, 3>(m, h, v, x, how, wh); break;
        }
      }
      template <typename H> static void nbr(world & w, model const & m, H & h, visible const & v, int lo, int hi, ints const & x, int how, const char * wh)
      {
        switch (lo * 10 + hi)
        {
          case 1: w.template check_nbr<0, 1>(m, h, v, x, how, wh); break;
          case 2: w.template check_nbr<0, 2>(m, h, v, x, how, wh); break;
          case 3: w.template check_nbr<0, 3>(m, h, v, x, how, wh); break;
          case 12: w.template check_nbr<1, 2>(m, h, v, x, how, wh); break;
          case 13: w.template check_nbr<1, 3>(m, h, v, x, how, wh); break;
          case 23: w.template check_nbr<2, 3>(m, h, v, x, how, wh); break;
        }
      }
      template <typename H> static void bnd(world & w, model const & m, H & h, visible const & v, int d, ints const & x, const char * wh)
      { if (d == 0) w.template check_bnd<0>(m, h, v, x, wh); else if (d == 1) w.template check_bnd<1>(m, h, v, x, wh); else w.template check_bnd<2>(m, h, v, x, wh); }
    };

    static void pick_pair(sim::i64 r, int & lo, int & hi)
    {
      int n = D * (D + 1) / 2; int k = (int)(r % n);
      for (lo = 0; lo < D; ++lo) for (hi = lo + 1; hi <= D; ++hi) if (k-- == 0) return;
    }
    static bool pick(idset const & v, sim::i64 r, ints & x)
    { if (v.empty()) return false; sim::i64 k = r % (sim::i64)v.size(); idset::const_iterator it = v.begin(); std::advance(it, k); x = *it; return true; }

    // every co-boundary / neighbor / boundary question about a host
    template <typename H> void audit_queries(model const & m, H & host, visible const & v, const char * wh, int salt)
    {
      for (int lo = 0; lo < D; ++lo) for (int hi = lo + 1; hi <= D; ++hi)
      {
        for (idset::const_iterator i = v.el[lo].begin(); i != v.el[lo].end(); ++i) pairs<D>::cob(*this, m, host, v, lo, hi, *i, salt++, wh);
        for (idset::const_iterator i = v.el[hi].begin(); i != v.el[hi].end(); ++i) pairs<D>::nbr(*this, m, host, v, lo, hi, *i, salt++, wh);
        if (sim::violated()) return;
      }
      for (int d = 0; d < D; ++d) for (idset::const_iterator i = v.el[d].begin(); i != v.el[d].end(); ++i) pairs<D>::bnd(*this, m, host, v, d, *i, wh);
    }

    // -------------------------------------------------------------- structural audit of a mesh
    // a range shows the same elements in the same order however it is walked
    template <typename R> static std::string walk(R & r)
    {
      typedef typename viennagrid::result_of::iterator<R>::type I; std::vector<void const *> f, p, b, q;
      for (I it = r.begin(); it != r.end(); ++it) f.push_back(&*it);
      for (I it = r.begin(); it != r.end(); ) p.push_back(&*it++);
      if (!f.empty())
      {
        I i = r.end(); do { --i; b.push_back(&*i); } while (i != r.begin());
        I j = r.end(); j--; while (j != r.begin()) q.push_back(&*j--);
        q.push_back(&*j); std::reverse(b.begin(), b.end()); std::reverse(q.begin(), q.end());
        std::size_t k = f.size() / 2; if (&r[k] != f[k]) return "access by position differs from iteration";
      }
      if (p != f) return "iteration with it++ differs from iteration with ++it";
      if (b != f) return "backward iteration with --it differs from forward iteration";
      if (q != f) return "backward iteration with it-- differs from forward iteration";
      if (r.empty() != f.empty() || r.size() != f.size()) return "size of the range differs from iteration";
      return "";
    }
    // the parts of the interface that only some ranges have
    template <int on, int dummy = 0> struct walk_more { template <typename R> static std::string run(R &) { return ""; } };
    template <int dummy> struct walk_more<1, dummy>
    {
      template <typename R> static std::string run(R & r)
      {
        typedef typename R::const_iterator CI; typedef typename R::reverse_iterator RI; typedef typename R::const_reverse_iterator CRI;
        R const & c = r; std::vector<void const *> f, x, y, z, zc;
        for (typename viennagrid::result_of::iterator<R>::type it = r.begin(); it != r.end(); ++it) f.push_back(&*it);
        for (CI it = c.begin(); it != c.end(); ++it) x.push_back(&*it);
        for (CI it = c.begin(); it != c.end(); ) y.push_back(&*it++);
        for (RI it = r.rbegin(); it != r.rend(); ++it) z.push_back(&*it);
        for (CRI it = c.rbegin(); it != c.rend(); ++it) zc.push_back(&*it);
        std::reverse(z.begin(), z.end()); std::reverse(zc.begin(), zc.end());
        if (x != f || y != f) return "iteration over a const range differs";
        if (z != f || zc != f) return "reverse iteration differs from forward iteration";
        if (!f.empty() && (&r.front() != f.front() || &c.front() != f.front() || &r.back() != f.back() || &c.back() != f.back())) return "first or last element differs from iteration";
        return "";
      }
    };
    template <int d> void audit_dim(slot & S, const char * wh)
    {
      typedef typename viennagrid::result_of::element_range<mesh_t, typename T<d>::tag>::type R;
      typedef typename viennagrid::result_of::iterator<R>::type I;
      model & m = S.mo;
      R r(*S.m);
      idset seen; std::set<int> ids; std::size_t n = 0;
      for (I it = r.begin(); it != r.end(); ++it)
      {
        ++n;
        ints k = ident<d>(*it); int id = eid<d>(*it);
        if (!ids.insert(id).second) viol("ids", std::string(wh) + " id " + num(id) + " of dimension " + num(d) + " is used twice");
        if (!seen.insert(k).second) viol("shared", std::string(wh) + " element " + str(k) + " of dimension " + num(d) + " is stored twice");
        std::map<ints, melem>::iterator e = m.el[d].find(k);
        if (e == m.el[d].end()) { viol("structure", std::string(wh) + " unexpected element " + str(k) + " of dimension " + num(d)); continue; }
        if (d > 0 && sorted(everts<d>(*it)) != sorted(e->second.v)) viol("structure", std::string(wh) + " element " + str(k) + " has vertices " + str(everts<d>(*it)) + ", expected " + str(e->second.v));
        if (d == D && everts<d>(*it) != e->second.v) viol("structure", std::string(wh) + " cell " + str(k) + " has vertex order " + str(everts<d>(*it)) + ", expected " + str(e->second.v));
        if (e->second.id == -1) e->second.id = id;
        else if (e->second.id != id) viol("ids", std::string(wh) + " element " + str(k) + " of dimension " + num(d) + " changed id from " + num(e->second.id) + " to " + num(id));
        // address stability while only adding
        std::map<int, void const *>::iterator a = S.addr[d].find(id);
        if (a == S.addr[d].end()) S.addr[d][id] = &*it;
        else if (a->second != &*it) viol("handle", std::string(wh) + " element " + str(k) + " moved although nothing was erased");
        // lookup by id
        if (&*viennagrid::find(*S.m, (*it).id()) != &*it) viol("lookup", std::string(wh) + " lookup of id " + num(id) + " of dimension " + num(d) + " gives a different element");
        {
          mesh_t const & cm = *S.m;
          if (&*viennagrid::find(cm, (*it).id()) != &*it) viol("lookup", std::string(wh) + " const lookup of id " + num(id) + " of dimension " + num(d) + " gives a different element");
          if (&*viennagrid::find_by_handle(*S.m, it.handle()) != &*it) viol("lookup", std::string(wh) + " lookup of the handle of " + str(k) + " gives a different element");
          if (&*viennagrid::find_by_handle(cm, it.handle()) != &*it) viol("lookup", std::string(wh) + " const lookup of the handle of " + str(k) + " gives a different element");
          typename T<d>::id none((typename T<d>::id::base_id_type)(id + 100000));
          if (viennagrid::find(*S.m, none) != r.end()) viol("lookup", std::string(wh) + " an id that no element has is found");
        }
        if (&viennagrid::dereference_handle(*S.m, it.handle()) != &*it) viol("handle", std::string(wh) + " handle of " + str(k) + " denotes a different element");
      }
      if (n != m.el[d].size()) viol("structure", std::string(wh) + " " + num((sim::i64)n) + " elements of dimension " + num(d) + ", expected " + num((sim::i64)m.el[d].size()) + ": " + str(seen) + " vs " + str(m.all(d)));
      if (viennagrid::elements<typename T<d>::tag>(*S.m).size() != n) viol("structure", "element count disagrees with iteration");
      std::string bad = walk(r); if (bad.empty()) bad = walk_more<d == 0 || d == D>::run(r);
      {
        // the same elements in the same order through a mesh that may not be changed
        typedef typename viennagrid::result_of::const_element_range<mesh_t, typename T<d>::tag>::type CR;
        mesh_t const & cm = *S.m; CR c(cm), c2 = viennagrid::elements<typename T<d>::tag>(cm);
        if (bad.empty()) bad = walk(c);
        typename viennagrid::result_of::const_iterator<CR>::type j = c.begin(), k = c2.begin();
        for (I it = r.begin(); bad.empty() && it != r.end(); ++it, ++j, ++k) if (j == c.end() || k == c2.end() || &*j != &*it || &*k != &*it) bad = "iteration over a const mesh differs";
        if (bad.empty() && (j != c.end() || k != c2.end())) bad = "iteration over a const mesh shows more elements";
      }
      if (!bad.empty()) viol("iteration", std::string(wh) + " elements of dimension " + num(d) + ": " + bad);
      sim::hash_add(n); sim::count("check.structure");
    }
    // the vertices of a boundary element in the order in which its host sees them
    template <int lo, int dummy = 0> struct oriented
    {
      template <typename E, typename BH> static void get(mesh_t & mesh, E & e, BH const & bh, std::size_t n, std::vector<ints> & out)
      {
        ints t, c;
        for (std::size_t i = 0; i < n; ++i) { t.push_back((int)viennagrid::dereference_handle(mesh, viennagrid::local_vertex(e, bh, i)).id().get()); }
        E const & ce = e; mesh_t const & cm = mesh;
        for (std::size_t i = 0; i < n; ++i) c.push_back((int)viennagrid::dereference_handle(cm, viennagrid::local_vertex(ce, bh, i)).id().get());
        out.push_back(t == c ? t : ints());
      }
    };
    template <int dummy> struct oriented<0, dummy> { template <typename E, typename BH> static void get(mesh_t &, E &, BH const &, std::size_t, std::vector<ints> &) {} };
    template <int hi, int lo> void audit_bnd(slot & S, const char * wh)
    {
      typedef typename viennagrid::result_of::element_range<mesh_t, typename T<hi>::tag>::type R;
      typedef typename viennagrid::result_of::iterator<R>::type I;
      typedef typename viennagrid::result_of::element_range<typename T<hi>::elem, typename T<lo>::tag>::type BR;
      typedef typename viennagrid::result_of::iterator<BR>::type BI;
      model & m = S.mo;
      R r(*S.m);
      for (I it = r.begin(); it != r.end(); ++it)
      {
        ints k = ident<hi>(*it);
        std::map<ints, melem>::iterator e = m.el[hi].find(k);
        if (e == m.el[hi].end()) continue;
        std::vector<ints> want = m.bnd(hi, e->second, lo); std::vector<ints> got;
        std::vector<ints> own = boundary_tuples(CUBE, hi, everts<hi>(*it), lo), turned;      // vertices in the order this element's shape prescribes
        BR b(*it);
        for (BI bt = b.begin(); bt != b.end(); ++bt)
        {
          ints bk = ident<lo>(*bt); got.push_back(bk);
          typename T<lo>::elem * real = locate<lo>(*S.m, bk);
          if (real != &*bt) viol("shared", std::string(wh) + " element " + str(k) + " refers to a private copy of " + str(bk));
          else oriented<lo>::get(*S.m, *it, bt.handle(), bk.size(), turned);
        }
        if (lo > 0)
        {
          std::sort(own.begin(), own.end()); std::sort(turned.begin(), turned.end());
          if (turned.size() == own.size() && turned != own) viol("structure", std::string(wh) + " orientation of the boundary elements of dimension " + num(lo) + " of element " + str(k) + " is wrong");
          sim::count("check.orientation");
        }
        std::string bad = walk(b); if (!bad.empty()) viol("iteration", std::string(wh) + " boundary elements of dimension " + num(lo) + " of element " + str(k) + ": " + bad);
        std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
        if (want != got) viol("structure", std::string(wh) + " boundary elements of dimension " + num(lo) + " of element " + str(k) + " are wrong");
      }
    }
    template <int dim, int dummy = 0> struct audit_all;
    template <int dummy> struct audit_all<1, dummy> { static void run(world & w, slot & S, const char * wh) { w.template audit_dim<0>(S, wh); w.template audit_dim<1>(S, wh); w.template audit_bnd<1, 0>(S, wh); } };
    template <int dummy> struct audit_all<2, dummy>
    { static void run(world & w, slot & S, const char * wh)
      { w.template audit_dim<0>(S, wh); w.template audit_dim<1>(S, wh); w.template audit_dim<2>(S, wh); w.template audit_bnd<1, 0>(S, wh); w.template audit_bnd<2, 0>(S, wh); w.template audit_bnd<2, 1>(S, wh); } };
    template <int dummy> struct audit_all<3, dummy>
    { static void run(world & w, slot & S, const char * wh)
      { w.template audit_dim<0>(S, wh); w.template audit_dim<1>(S, wh); w.template audit_dim<2>(S, wh); w.template audit_dim<3>(S, wh);
        w.template audit_bnd<1, 0>(S, wh); w.template audit_bnd<2, 0>(S, wh); w.template audit_bnd<2, 1>(S, wh); w.template audit_bnd<3, 0>(S, wh); w.template audit_bnd<3, 1>(S, wh); w.template audit_bnd<3, 2>(S, wh); } };

    void audit_points(slot & S, const char * wh)
    {
      typedef typename viennagrid::result_of::vertex_range<mesh_t>::type R;
      typedef typename viennagrid::result_of::iterator<R>::type I;
      R r(*S.m);
      for (I it = r.begin(); it != r.end(); ++it)
      {
        int id = eid<0>(*it);
        std::map<int, mpoint>::iterator p = S.mo.points.find(id);
        if (p == S.mo.points.end()) continue;
        for (int k = 0; k < CFG::GD; ++k) if (viennagrid::point(*S.m, *it)[(std::size_t)k] != p->second.c[k]) { viol("points", std::string(wh) + " vertex " + num(id) + " has the wrong coordinates"); break; }
      }
    }
    void audit_structure(slot & S, const char * wh) { audit_all<D>::run(*this, S, wh); audit_points(S, wh); }

    // -------------------------------------------------------------- segments
    // the information attached to a cell in a segment (segmentations that have it)
    template <bool on, int dummy = 0> struct info_part
    {
      template <typename E> static void check(world &, slot &, ints const &, E &, const char *) {}
      static void set(world &, slot &, int, ints const &, bool) {}
    };
    template <int dummy> struct info_part<true, dummy>
    {
      template <typename E> static void check(world & w, slot & S, ints const & k, E & e, const char * wh)
      {
        segmentation_t const & sg = *S.sg;
        for (std::map<int, mseg>::iterator s2 = S.mo.segs.begin(); s2 != S.mo.segs.end(); ++s2)
        {
          bool const * p = viennagrid::segment_element_info(sg.get_segment(s2->first), e);
          bool in = s2->second.el[D].count(k) != 0;
          if ((p != 0) != in) w.viol("info", std::string(wh) + " segment " + num(s2->first) + (p ? " has" : " lacks") + " information about cell " + str(k));
          else if (p && s2->second.info[k] >= 0 && *p != (s2->second.info[k] == 1)) w.viol("info", std::string(wh) + " information about cell " + str(k) + " in segment " + num(s2->first) + " is not the stored one");
        }
        sim::count("check.segment_info");
      }
      static void set(world & w, slot & S, int seg, ints const & x, bool v)
      {
        typename T<D>::elem * e = w.template locate<D>(*S.m, x);
        if (!e) { w.viol("lookup", "element " + str(x) + " cannot be found by iteration"); return; }
        segment_t & sg = S.sg->get_segment(seg);
        bool * p = viennagrid::segment_element_info(sg, *e);
        if (!p) w.viol("info", "segment " + num(seg) + " lacks information about cell " + str(x)); else { *p = v; S.mo.segs[seg].info[x] = v; }
      }
    };
    template <int d> void audit_member(slot & S, const char * wh)
    {
      model & m = S.mo; segmentation_t & sg = *S.sg;
      typedef typename viennagrid::result_of::element_range<mesh_t, typename T<d>::tag>::type R;
      typedef typename viennagrid::result_of::iterator<R>::type I;
      R r(*S.m);
      idset uni;
      for (I it = r.begin(); it != r.end(); ++it)
      {
        ints k = ident<d>(*it);
        std::set<int> want, got; std::size_t n = 0;
        for (std::map<int, mseg>::iterator s2 = m.segs.begin(); s2 != m.segs.end(); ++s2)
        {
          bool in = s2->second.el[d].count(k) != 0;
          if (in) { want.insert(s2->first); uni.insert(k); }
          if (viennagrid::is_in_segment(sg.get_segment(s2->first), *it) != in) viol("membership", std::string(wh) + " is_in_segment(" + num(s2->first) + ", dim " + num(d) + " " + str(k) + ") is wrong, expected " + num(in));
        }
        info_part<d == D && CFG::INFO>::check(*this, S, k, *it, wh);
        typedef typename viennagrid::result_of::segment_id_range<segmentation_t, typename T<d>::elem>::type SR;
        SR sr = viennagrid::segment_ids(sg, *it);
        for (typename SR::const_iterator q = sr.begin(); q != sr.end(); ++q) { got.insert((int)*q); ++n; }
        if (got != want || n != want.size()) viol("membership", std::string(wh) + " segment ids of dim " + num(d) + " " + str(k) + " are wrong");
      }
      // comparing the segment lists of two elements
      I last = r.end();
      for (I it = r.begin(); it != r.end(); ++it)
      {
        if (last != r.end())
        {
          std::set<int> wa, wb;
          for (std::map<int, mseg>::iterator s2 = m.segs.begin(); s2 != m.segs.end(); ++s2) { if (s2->second.el[d].count(ident<d>(*last))) wa.insert(s2->first); if (s2->second.el[d].count(ident<d>(*it))) wb.insert(s2->first); }
          if (viennagrid::segment_ids(sg, *last).is_equal(viennagrid::segment_ids(sg, *it)) != (wa == wb)) viol("membership", std::string(wh) + " comparison of segment ids of two elements of dim " + num(d) + " is wrong");
        }
        last = it;
      }
      for (std::map<int, mseg>::iterator s2 = m.segs.begin(); s2 != m.segs.end(); ++s2)
      {
        segment_t & seg = sg.get_segment(s2->first);
        idset got = list<d>(seg); std::size_t n = viennagrid::elements<typename T<d>::tag>(seg).size();
        if (got != s2->second.el[d] || n != got.size())
          viol("membership", std::string(wh) + " segment " + num(s2->first) + " lists dim " + num(d) + " " + num((sim::i64)n) + " " + str(got) + ", expected " + str(s2->second.el[d]));
        typename viennagrid::result_of::element_range<segment_t, typename T<d>::tag>::type sr2(seg);
        for (I it = r.begin(); it != r.end(); ++it)
        {
          bool in = s2->second.el[d].count(ident<d>(*it)) != 0;
          typename viennagrid::result_of::iterator<typename viennagrid::result_of::element_range<segment_t, typename T<d>::tag>::type>::type fi = viennagrid::find(seg, (*it).id()), fh = viennagrid::find_by_handle(seg, it.handle());
          if ((fi != sr2.end()) != in || (in && &*fi != &*it)) viol("membership", std::string(wh) + " lookup of the id of " + str(ident<d>(*it)) + " in segment " + num(s2->first) + (in ? " fails" : " succeeds although it is not in there"));
          if ((fh != sr2.end()) != in || (in && &*fh != &*it)) viol("membership", std::string(wh) + " lookup of the handle of " + str(ident<d>(*it)) + " in segment " + num(s2->first) + (in ? " fails" : " succeeds although it is not in there"));
        }
        std::string bad = walk(sr2); if (!bad.empty()) viol("iteration", std::string(wh) + " elements of dimension " + num(d) + " of a segment: " + bad);
      }
      idset allg = list<d>(sg.all_elements());
      if (allg != uni) viol("membership", std::string(wh) + " segmentation-wide elements of dim " + num(d) + " are " + str(allg) + ", expected " + str(uni));
      sim::count("check.membership");
    }
    template <int dim, int dummy = 0> struct member_all { static void run(world & w, slot & S, const char * wh) { member_all<dim - 1, dummy>::run(w, S, wh); w.template audit_member<dim>(S, wh); } };
    template <int dummy> struct member_all<0, dummy> { static void run(world & w, slot & S, const char * wh) { w.template audit_member<0>(S, wh); } };

    void audit_segments(slot & S, const char * wh)
    {
      model & m = S.mo;
      if (!S.sg.get()) return;
      segmentation_t & sg = *S.sg;
      segmentation_t const & csg = *S.sg;
      std::set<int> got; std::size_t n = 0;
      for (typename segmentation_t::iterator it = sg.begin(); it != sg.end(); ++it) { got.insert((int)it->id()); ++n; }
      std::set<int> want; for (std::map<int, mseg>::iterator s2 = m.segs.begin(); s2 != m.segs.end(); ++s2) want.insert(s2->first);
      if (got != want || n != want.size() || sg.size() != want.size()) { viol("segments", std::string(wh) + " segmentation lists " + num((sim::i64)n) + " segments, expected " + num((sim::i64)want.size())); return; }
      for (std::map<int, mseg>::iterator s2 = m.segs.begin(); s2 != m.segs.end(); ++s2)
      {
        if (!csg.segment_present(s2->first)) { viol("segments", "segment " + num(s2->first) + " is not present"); return; }
        segment_t & seg = sg.get_segment(s2->first);
        if ((int)seg.id() != s2->first) viol("segments", "segment looked up by id " + num(s2->first) + " has id " + num(seg.id()));
        if (seg.name() != s2->second.name) viol("names", std::string(wh) + " segment " + num(s2->first) + " is named " + seg.name() + ", expected " + s2->second.name);
        segment_t & byname = sg.get_segment(s2->second.name);
        if ((int)byname.id() != s2->first) viol("names", std::string(wh) + " name " + s2->second.name + " finds segment " + num(byname.id()) + ", expected " + num(s2->first));
        if ((int)csg.at(s2->second.name).id() != s2->first || (int)csg.get_segment(s2->second.name).id() != s2->first) viol("names", std::string(wh) + " const lookup of name " + s2->second.name + " finds the wrong segment");
        if ((int)sg.find(s2->first)->id() != s2->first || csg.find(s2->first) == csg.end()) viol("segments", "find() gives the wrong segment");
        if ((int)sg.id_upper_bound() < s2->first) viol("segments", "the largest segment id is reported as " + num(sg.id_upper_bound()));
        if ((int)csg.at(s2->first).id() != s2->first) viol("segments", "at() gives the wrong segment");
        if (&seg.parent() != S.sg.get() || &seg.mesh() != S.m.get()) viol("segments", "segment belongs to the wrong segmentation or mesh");
      }
      bool threw = false;
      try { csg.at(100000); } catch (std::exception const &) { threw = true; }
      if (!threw) viol("segments", "lookup of an unknown segment id does not fail");
      for (int k = 0; k < 16; ++k)
      {
        std::string nm = k < 4 ? "seg" + num(k) : k < 8 ? num(k + 16) : num(k - 8);
        if (name_used(m, nm)) continue;
        threw = false;
        try { csg.at(nm); } catch (std::exception const &) { threw = true; }
        if (!threw) viol("names", std::string(wh) + " a segment is found under the name " + nm + ", which no segment has");
      }
      if (sg.find(100000) != sg.end() || csg.empty() != m.segs.empty()) viol("segments", "find() or empty() is wrong");
      if (csg.segment_present(100000)) viol("segments", "unknown segment id is present");
      member_all<D>::run(*this, S, wh);
    }
    void audit_seg_queries(slot & S, const char * wh, int salt)
    {
      if (!S.sg.get()) return;
      for (std::map<int, mseg>::iterator s2 = S.mo.segs.begin(); s2 != S.mo.segs.end(); ++s2)
      {
        segment_t & seg = S.sg->get_segment(s2->first);
        visible v = view_seg(S.mo, s2->first);
        audit_queries(S.mo, seg, v, wh, salt);
        if (sim::violated()) return;
      }
      for (std::map<int, mseg>::iterator a = S.mo.segs.begin(); a != S.mo.segs.end(); ++a)
        for (std::map<int, mseg>::iterator b = S.mo.segs.begin(); b != S.mo.segs.end(); ++b)
        {
          if (a->first == b->first) continue;
          for (int d = 0; d < D; ++d)
          {
            idset u = a->second.el[d]; u.insert(b->second.el[d].begin(), b->second.el[d].end());
            for (idset::iterator i = u.begin(); i != u.end(); ++i) check_ifc(S, a->first, b->first, d, *i, wh);
          }
          if (sim::violated()) return;
        }
    }
    template <int d> bool do_ifc(slot & S, int a, int b, ints const & x)
    {
      typename T<d>::elem * e = locate<d>(*S.m, x);
      if (!e) { viol("lookup", "element " + str(x) + " cannot be found by iteration"); return false; }
      segmentation_t const & sg = *S.sg;
      return viennagrid::is_interface(sg.get_segment(a), sg.get_segment(b), *e);
    }
    template <int dim, int dummy = 0> struct ifc_sel { static bool run(world & w, slot & S, int a, int b, int d, ints const & x) { if (d == dim) return w.template do_ifc<dim>(S, a, b, x); return ifc_sel<dim - 1, dummy>::run(w, S, a, b, d, x); } };
    template <int dummy> struct ifc_sel<0, dummy> { static bool run(world & w, slot & S, int a, int b, int, ints const & x) { return w.template do_ifc<0>(S, a, b, x); } };
    void check_ifc(slot & S, int a, int b, int d, ints const & x, const char * wh)
    {
      bool got = false;
      arm();
      try { got = ifc_sel<D - 1>::run(*this, S, a, b, d, x); sim::alloc_fail_disarm(); }
      catch (std::bad_alloc const &) { if (!sim::alloc_fail_disarm()) throw; sim::count("query.bad_alloc_retried"); got = ifc_sel<D - 1>::run(*this, S, a, b, d, x); }
      bool want = exp_ifc(S.mo, view_seg(S.mo, a), view_seg(S.mo, b), d, x);
      sim::hash_add(got); sim::count("check.interface");
      if (got != want) viol("interface", std::string(wh) + " is_interface(" + num(a) + "," + num(b) + ", dim " + num(d) + " " + str(x) + ") = " + num(got) + ", expected " + num(want));
    }

    // -------------------------------------------------------------- mutations
    mpoint new_point(sim::i64 r)
    {
      mpoint p;
      if (forced) return *forced;
      if (lattice)        // few distinct coordinates: many edges of the same length
      {
        std::vector<double> c; sim::i64 q = r;
        for (int k = 0; k < 3; ++k) { c.push_back(k < CFG::GD ? (double)(q % lattice) : 0); q /= lattice; }
        if (taken.insert(c).second) { for (int k = 0; k < 3; ++k) p.c[k] = c[(std::size_t)k]; return p; }
        p.c[0] = lattice + (double)(++serial); p.c[1] = (double)(r % 7) * 0.37; p.c[2] = CFG::GD > 2 ? (double)((r / 7) % 5) * 0.29 : 0; if (CFG::GD < 2) p.c[1] = 0; return p;
      }
      p.c[0] = (double)(++serial); if (CFG::GD > 1) p.c[1] = (double)(r % 7) * 0.5; if (CFG::GD > 2) p.c[2] = (double)((r / 7) % 5) * 0.25;
      return p;
    }
    static point_t real_point(mpoint const & p) { point_t q; for (int k = 0; k < CFG::GD; ++k) q[(std::size_t)k] = p.c[k]; return q; }

    template <typename H> int create_vertex(slot & S, H & host, sim::i64 r, int mode, bool is_mesh)
    {
      model & m = S.mo;
      mpoint p = new_point(r);
      vhandle_t h;
      if (mode == 1)
      {
        int id = free_id(m.el[0], r);
        h = viennagrid::make_vertex_with_id(host, typename T<0>::id(id), real_point(p));
        if (eid<0>(viennagrid::dereference_handle(host, h)) != id) viol("ids", "vertex requested with id " + num(id) + " got id " + num(eid<0>(viennagrid::dereference_handle(host, h))));
      }
      else if (mode == 2 && is_mesh && !m.points.empty() && r % 2)
      {
        // unique vertex: asking for the location of an existing vertex returns that vertex
        std::map<int, mpoint>::iterator it = m.points.begin(); std::advance(it, (r / 2) % (sim::i64)m.points.size());
        point_t near_it = real_point(it->second); if (r % 3 == 0) near_it[0] += 0.004;
        h = viennagrid::make_unique_vertex(host, near_it, 0.01);
        int id = eid<0>(viennagrid::dereference_handle(host, h));
        std::map<int, mpoint>::iterator f = m.points.find(id);
        if (f == m.points.end() || std::memcmp(f->second.c, it->second.c, sizeof it->second.c)) viol("structure", "unique vertex at the location of vertex " + num(it->first) + " is vertex " + num(id));
        return id;
      }
      else if (mode == 2) { point_t q = real_point(p); if (r % 3) h = viennagrid::make_unique_vertex(host, q, 0.01); else h = viennagrid::make_unique_vertex(host, q); }
      else if (r % 3 == 0) { h = viennagrid::make_vertex(host); viennagrid::point(host, h) = real_point(p); }
      else h = viennagrid::make_vertex(host, real_point(p));
      int id = eid<0>(viennagrid::dereference_handle(host, h));
      if (m.points.count(id)) viol("ids", "new vertex got id " + num(id) + ", which is in use");
      std::map<int, int> & gr = grid[&S - s];        // ids of erased vertices come back
      for (std::map<int, int>::iterator k = gr.begin(); k != gr.end(); ) { if (k->second == id) gr.erase(k++); else ++k; }
      m.add_vertex(id, p);
      sim::hash_add((sim::u64)id);
      return id;
    }
    static int free_id(std::map<ints, melem> const & e, sim::i64 r)
    {
      int mx = -1; std::set<int> used;
      for (std::map<ints, melem>::const_iterator i = e.begin(); i != e.end(); ++i) { mx = std::max(mx, i->second.id); used.insert(i->second.id); }
      if (r % 3 == 0) return mx + 1;
      if (r % 3 == 1) return mx + 1 + (int)((r / 3) % 4);
      for (int k = 0; k <= mx; ++k) if (!used.count(k)) return k;
      return mx + 1;
    }

    // vertices for a new cell; false if there is no admissible one
    bool choose_cell(slot & S, sim::op const & o, ints & v)
    {
      model & m = S.mo;
      v.clear();
      if (grid_mode) return choose_grid(S, o, v);
      if (CUBE && D == 3) return choose_hex(S, o, v);
      std::vector<int> ids; for (std::map<int, mpoint>::iterator i = m.points.begin(); i != m.points.end(); ++i) ids.push_back(i->first);
      if ((int)ids.size() < CFG::NV) return false;
      for (int attempt = 0; attempt < 12; ++attempt)
      {
        sim::rng g((sim::u64)o.a[1] * 131 + (sim::u64)attempt);
        v.clear();
        std::vector<int> pool = ids;
        // prefer recent vertices a little: locality gives shared facets
        for (int k = 0; k < CFG::NV; ++k) { std::size_t j = (std::size_t)g.below(pool.size()); v.push_back(pool[j]); pool.erase(pool.begin() + (long)j); }
        if (admissible(m, v)) return true;
      }
      v.clear();
      return false;
    }
    bool admissible(model const & m, ints const & v)
    {
      if (std::set<int>(v.begin(), v.end()).size() != v.size()) return false;
      for (std::map<ints, melem>::const_iterator i = m.el[D].begin(); i != m.el[D].end(); ++i) if (sorted(i->second.v) == sorted(v)) return false;
      std::vector<ints> f = boundary_tuples(CUBE, D, v, D - 1);
      for (std::size_t i = 0; i < f.size(); ++i) if (m.facet_cells(sorted(f[i])) >= 2) return false;
      return true;
    }
    // hexahedra live on a small grid so that shared faces have one consistent edge structure
    std::map<int, int> grid[NSLOT];   // grid node -> vertex id
    bool choose_hex(slot & S, sim::op const & o, ints & v)
    {
      int si = (int)(&S - s);
      model & m = S.mo;
      sim::rng g((sim::u64)o.a[1]);
      const int NX = 3, NY = 2, NZ = 2;
      for (int attempt = 0; attempt < 6; ++attempt)
      {
        int cx = (int)g.below(NX), cy = (int)g.below(NY), cz = (int)g.below(NZ);
        int rot = (int)g.below(24);
        ints w;
        for (int i = 0; i < 8; ++i)
        {
          int c[3] = { i & 1, (i >> 1) & 1, (i >> 2) & 1 }, q[3];
          cube_rotation(rot, c, q);
          int node = (cx + q[0]) + (NX + 1) * ((cy + q[1]) + (NY + 1) * (cz + q[2]));
          std::map<int, int>::iterator it = grid[si].find(node);
          if (it == grid[si].end() || !m.points.count(it->second))
          {
            int id = create_vertex(S, *S.m, o.a[2] + i, 0, true);
            grid[si][node] = id; w.push_back(id);
          }
          else w.push_back(it->second);
        }
        if (admissible(m, w)) { v = w; return true; }
      }
      return false;
    }
    static void cube_rotation(int r, int const c[3], int q[3])
    {
      static const int perm[6][3] = { {0,1,2},{1,2,0},{2,0,1},{0,2,1},{2,1,0},{1,0,2} };
      int const * p = perm[r / 4]; int f = r % 4; bool odd = r / 4 >= 3;
      int flip[3] = { (f & 1), (f >> 1) & 1, (f & 1) ^ ((f >> 1) & 1) };
      for (int k = 0; k < 3; ++k) q[k] = c[p[k]] ^ flip[k] ^ (odd ? 1 : 0);
    }
    // ---- cells of a regular grid (P18): simplices of the Kuhn decomposition or boxes, in the current frame
    void set_grid(int mode)
    {
      grid_mode = mode;
      static const double acute2[9] = { 1, -0.5, 0, 0, 0.875, 0, 0, 0, 1 }, acute3[9] = { -0.5, 0.5, 0.5, 0.5, -0.5, 0.5, 0.5, 0.5, -0.5 }, box[9] = { 1, 0, 0, 0, 0.5, 0, 0, 0, 2 };
      static const double obtuse[3][9] = { { 1, 1, 0, 0, 0.5, 0, 0, 0, 1 }, { 1, -0.625, 0, 0, 0.25, 0, 0, 0, 1 }, { 1, -0.25, 0, 0, 0.5, 0, 0, 0, 1 } };
      for (int k = 0; k < 9; ++k) frame[k] = (mode >= 4 && !CUBE && D == 2) ? obtuse[(mode - 4) % 3][k] : (mode == 2 && !CUBE) ? (D == 3 ? acute3[k] : acute2[k]) : mode == 3 ? box[k] : (k % 4 == 0);
    }
    void apply(double const A[9], double const t[3], model & m)
    {
      for (std::map<int, mpoint>::iterator i = m.points.begin(); i != m.points.end(); ++i)
      { mpoint q; for (int r = 0; r < CFG::GD; ++r) { q.c[r] = t[r]; for (int c = 0; c < 3; ++c) q.c[r] += A[3 * r + c] * i->second.c[c]; } i->second = q; }
      double f[12];
      for (int r = 0; r < 3; ++r) { for (int c = 0; c < 3; ++c) { f[3 * r + c] = 0; for (int k = 0; k < 3; ++k) f[3 * r + c] += A[3 * r + k] * frame[3 * k + c]; } f[9 + r] = t[r]; for (int k = 0; k < 3; ++k) f[9 + r] += A[3 * r + k] * frame[9 + k]; }
      for (int k = 0; k < 12; ++k) frame[k] = f[k];
    }
    bool choose_grid(slot & S, sim::op const & o, ints & v)
    {
      int si = (int)(&S - s);
      model & m = S.mo;
      for (int attempt = 0; attempt < 6; ++attempt)
      {
        sim::rng g((sim::u64)o.a[1] * 17 + (sim::u64)attempt);
        int at[3] = { (int)g.below(2), D > 1 ? (int)g.below(2) : 0, D > 2 ? (int)g.below(2) : 0 };
        std::vector<std::vector<int> > nodes;      // grid positions of the corners
        if (CUBE)
        {
          int flip = (int)g.below(1 << D); bool sw = g.chance(1, 2);
          for (int i = 0; i < (1 << D); ++i)
          {
            int c[3] = { (i ^ flip) & 1, ((i ^ flip) >> 1) & 1, ((i ^ flip) >> 2) & 1 }; if (sw) std::swap(c[0], c[1]);
            std::vector<int> n; for (int k = 0; k < 3; ++k) n.push_back(at[k] + (k < D ? c[k] : 0)); nodes.push_back(n);
          }
        }
        else
        {
          int p[3] = { 0, 1, 2 }; for (int k = D - 1; k > 0; --k) std::swap(p[k], p[g.below((sim::u64)k + 1)]);
          std::vector<int> n(at, at + 3); nodes.push_back(n);
          for (int k = 0; k < D; ++k) { ++n[(std::size_t)p[k]]; nodes.push_back(n); }
          for (std::size_t k = nodes.size() - 1; k > 0; --k) std::swap(nodes[k], nodes[(std::size_t)g.below((sim::u64)k + 1)]);
        }
        ints w;
        for (std::size_t i = 0; i < nodes.size(); ++i)
        {
          int node = nodes[i][0] + 4 * (nodes[i][1] + 4 * nodes[i][2]);
          std::map<int, int>::iterator it = grid[si].find(node);
          if (it == grid[si].end() || !m.points.count(it->second))
          {
            if (tapered) break;
            mpoint p; for (int r = 0; r < CFG::GD; ++r) { p.c[r] = frame[9 + r]; for (int c = 0; c < 3; ++c) p.c[r] += frame[3 * r + c] * nodes[i][(std::size_t)c]; }
            forced = &p; int id = create_vertex(S, *S.m, o.a[2] + (int)i, 0, true); forced = 0;
            grid[si][node] = id; w.push_back(id);
          }
          else w.push_back(it->second);
        }
        if (w.size() == nodes.size() && admissible(m, w)) { v = w; return true; }
      }
      return false;
    }
    std::vector<vhandle_t> handles(slot & S, ints const & v)
    { std::vector<vhandle_t> h; for (std::size_t i = 0; i < v.size(); ++i) h.push_back(locate_handle<0>(*S.m, one(v[i]))); return h; }

    typedef typename T<D>::handle chandle_t;
    template <typename H> int create_cell(slot & S, H & host, ints const & v, sim::i64 r, int mode)
    {
      model & m = S.mo;
      std::vector<vhandle_t> h = handles(S, v);
      chandle_t c;
      if (mode == 1)
      {
        int id = free_id(m.el[D], r);
        c = viennagrid::make_cell_with_id(host, h.begin(), h.end(), typename T<D>::id(id));
        if (eid<D>(viennagrid::dereference_handle(host, c)) != id) viol("ids", "cell requested with id " + num(id) + " got a different id");
      }
      else if (r % 3 == 0) c = viennagrid::make_cell(host, h.begin(), h.end());
      else if (r % 3 == 1) c = viennagrid::make_element<typename T<D>::tag>(host, h.begin(), h.end());
      else c = named<typename T<D>::tag>::make(host, h, r / 3);
      int id = eid<D>(viennagrid::dereference_handle(host, c));
      if (m.el[D].count(one(id))) viol("ids", "new cell got id " + num(id) + ", which is in use");
      m.add_cell(id, v);
      sim::hash_add((sim::u64)id);
      return id;
    }
    void seg_add_closure(slot & S, int seg, int d, ints const & x)
    {
      mseg & g = S.mo.segs[seg];
      if (d == D && !g.el[d].count(x)) g.info[x] = 0;
      g.el[d].insert(x);
      std::map<ints, melem>::iterator e = S.mo.el[d].find(x);
      for (int q = 0; q < d; ++q)
      {
        std::vector<ints> b = S.mo.bnd(d, e->second, q);
        for (std::size_t i = 0; i < b.size(); ++i) g.el[q].insert(b[i]);
      }
    }

    template <int d> void real_erase(slot & S, ints const & x) { viennagrid::erase_element(*S.m, locate_handle<d>(*S.m, x)); }
    template <int dim, int dummy = 0> struct erase_sel { static void run(world & w, slot & S, int d, ints const & x) { if (d == dim) w.template real_erase<dim>(S, x); else erase_sel<dim - 1, dummy>::run(w, S, d, x); } };
    template <int dummy> struct erase_sel<0, dummy> { static void run(world & w, slot & S, int, ints const & x) { w.template real_erase<0>(S, x); } };
    typedef typename viennagrid::result_of::mesh_view<mesh_t>::type erase_view_t;
    template <int d> void real_mark(slot & S, erase_view_t & ev, ints const & x) { viennagrid::mark_erase_elements(*S.m, ev, locate_handle<d>(*S.m, x)); }
    template <int dim, int dummy = 0> struct mark_sel { static void run(world & w, slot & S, erase_view_t & ev, int d, ints const & x) { if (d == dim) w.template real_mark<dim>(S, ev, x); else mark_sel<dim - 1, dummy>::run(w, S, ev, d, x); } };
    template <int dummy> struct mark_sel<0, dummy> { static void run(world & w, slot & S, erase_view_t & ev, int, ints const & x) { w.template real_mark<0>(S, ev, x); } };

    // ---- a view of its own: filled, queried, elements erased from it, queried again
    template <int d> void view_insert(slot & S, erase_view_t & v, ints const & x) { viennagrid::elements<typename T<d>::tag>(v).insert_unique_handle(locate_handle<d>(*S.m, x)); }
    template <int d> void view_erase(slot & S, erase_view_t & v, ints const & x, int how)
    {
      erase_view_t ev = viennagrid::make_view(*S.m);
      if (how % 2) viennagrid::mark_erase_elements(v, ev, locate_handle<d>(*S.m, x));
      else { viennagrid::elements<typename T<d>::tag>(ev).insert_unique_handle(locate_handle<d>(*S.m, x)); viennagrid::mark_referencing_elements(v, ev, locate_handle<d>(*S.m, x)); }
      viennagrid::erase_elements(v, ev);
    }
    template <int d> void view_audit(erase_view_t & h, visible const & v)
    {
      typedef typename viennagrid::result_of::element_range<erase_view_t, typename T<d>::tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I;
      R r(h); idset seen; for (I it = r.begin(); it != r.end(); ++it) if (!seen.insert(ident<d>(*it)).second) viol("view", "element " + str(ident<d>(*it)) + " is twice in the view");
      if (seen != v.el[d]) viol("view", "elements " + str(seen) + " of dimension " + num(d) + " instead of " + str(v.el[d]));
    }
    template <int dim, int dummy = 0> struct view_sel
    {
      static void insert(world & w, slot & S, erase_view_t & v, int d, ints const & x) { if (d == dim) w.template view_insert<dim>(S, v, x); else view_sel<dim - 1, dummy>::insert(w, S, v, d, x); }
      static void erase(world & w, slot & S, erase_view_t & v, int d, ints const & x, int how) { if (d == dim) w.template view_erase<dim>(S, v, x, how); else view_sel<dim - 1, dummy>::erase(w, S, v, d, x, how); }
      static void audit(world & w, erase_view_t & h, visible const & v) { w.template view_audit<dim>(h, v); view_sel<dim - 1, dummy>::audit(w, h, v); }
    };
    template <int dummy> struct view_sel<-1, dummy>
    {
      static void insert(world &, slot &, erase_view_t &, int, ints const &) {} static void erase(world &, slot &, erase_view_t &, int, ints const &, int) {} static void audit(world &, erase_view_t &, visible const &) {}
    };
    void view_op(slot & S, sim::i64 r)
    {
      model & m = S.mo; sim::rng g((sim::u64)r); visible v; erase_view_t h = viennagrid::make_view(*S.m);
      int p = 1 + (int)g.below(3);
      for (int d = D; d >= 0; --d) { idset a = m.all(d); for (idset::iterator i = a.begin(); i != a.end(); ++i) if (d == D ? g.chance((sim::u64)p, 3) : g.chance(1, 8))
        { v.el[d].insert(*i); std::map<ints, melem>::iterator e = m.el[d].find(*i); for (int q = 0; q < d; ++q) { std::vector<ints> b = m.bnd(d, e->second, q); for (std::size_t k = 0; k < b.size(); ++k) v.el[q].insert(b[k]); } } }
      for (int d = 0; d <= D; ++d) for (idset::iterator i = v.el[d].begin(); i != v.el[d].end(); ++i) view_sel<D>::insert(*this, S, h, d, *i);
      viennagrid::detail::increment_change_counter(h);     // handles were put in directly
      for (int step = 0; step < 3 && !sim::violated(); ++step)
      {
        view_sel<D>::audit(*this, h, v); if (sim::violated()) return;
        if (g.chance(1, 2)) audit_queries(m, h, v, "view", (int)g.below(16));
        else for (int k = 0; k < 4; ++k)
        {
          int lo, hi; ints x; pick_pair((sim::i64)g.below(6), lo, hi);
          if (k < 2) { if (pick(v.el[lo], (sim::i64)g.below(64), x)) pairs<D>::cob(*this, m, h, v, lo, hi, x, (int)g.below(8), "view"); }
          else if (k == 2) { if (pick(v.el[hi], (sim::i64)g.below(64), x)) pairs<D>::nbr(*this, m, h, v, lo, hi, x, (int)g.below(8), "view"); }
          else if (pick(v.el[lo], (sim::i64)g.below(64), x)) pairs<D>::bnd(*this, m, h, v, lo, x, "view");
        }
        if (sim::violated()) return;
        if (g.chance(1, 3) && (int)m.el[D].size() < cap)
        {
          // a cell is created through the view: it is in the view and in the mesh
          ints c; sim::op q(OP_ADD_CELL, 0, (sim::i64)g.below(100000), (sim::i64)g.below(1000), 0, 0);
          if (choose_cell(S, q, c))
          {
            for (std::size_t k = 0; k < c.size(); ++k) if (v.el[0].insert(one(c[k])).second) view_sel<D>::insert(*this, S, h, 0, one(c[k]));
            viennagrid::detail::increment_change_counter(h);
            int lo, hi; ints y; pick_pair((sim::i64)g.below(6), lo, hi);
            if (pick(v.el[lo], (sim::i64)g.below(64), y)) pairs<D>::cob(*this, m, h, v, lo, hi, y, (int)g.below(8), "view");
            int id = create_cell(S, h, c, (sim::i64)g.below(1000), (int)g.below(2)); ints x = one(id);
            v.el[D].insert(x); std::map<ints, melem>::iterator e = m.el[D].find(x);
            for (int b = 0; b < D; ++b) { std::vector<ints> w = m.bnd(D, e->second, b); v.el[b].insert(w.begin(), w.end()); }
            sim::count("op.cell_through_view");
            continue;
          }
        }
        int d = g.chance(1, 2) ? D : (int)g.below(D + 1); ints x; if (!pick(v.el[d], (sim::i64)g.below(64), x)) return;
        view_sel<D>::erase(*this, S, h, d, x, (int)g.below(2));
        std::vector<std::pair<int, ints> > out; m.closure_up(d, x, out);
        for (std::size_t k = 0; k < out.size(); ++k) v.el[out[k].first].erase(out[k].second);
      }
      view_sel<D>::audit(*this, h, v); if (!sim::violated()) audit_queries(m, h, v, "view", (int)g.below(16));
      sim::count("check.view");
    }

    template <int d> void real_seg_add(slot & S, int seg, ints const & x, int how)
    {
      typename T<d>::elem * e = locate<d>(*S.m, x);
      if (!e) { viol("lookup", "element " + str(x) + " cannot be found by iteration"); return; }
      segment_t & sg = S.sg->get_segment(seg);
      bool fresh = how % 7 >= 5;          // nothing of it in the segment yet
      if (fresh)
      {
        mseg & g = S.mo.segs[seg]; fresh = !g.el[d].count(x); std::map<ints, melem>::iterator me = S.mo.el[d].find(x);
        for (int q = 0; q < d; ++q) { std::vector<ints> b = S.mo.bnd(d, me->second, q); for (std::size_t i = 0; i < b.size(); ++i) if (g.el[q].count(b[i])) fresh = false; }
      }
      std::vector<int> ids(1, seg); if (how % 2) ids.push_back(seg);
      if (fresh && how % 2) viennagrid::unchecked_add(sg, *e);
      else if (fresh) viennagrid::unchecked_add(sg, viennagrid::handle(*S.m, *e));
      else if (how % 7 == 0 || how % 7 == 5) viennagrid::add(sg, *e);
      else if (how % 7 == 1) viennagrid::add(sg, viennagrid::handle(*S.m, *e));
      else if (how % 7 == 2) viennagrid::add(*S.sg, seg, *e);
      else if (how % 7 == 3) viennagrid::add(*S.sg, ids.begin(), ids.end(), *e);
      else if (how % 7 == 4) viennagrid::add(*S.sg, ids.begin(), ids.end(), viennagrid::handle(*S.m, *e));
      else viennagrid::add(*S.sg, seg, viennagrid::handle(*S.m, *e));
    }
    template <int dim, int dummy = 0> struct segadd_sel { static void run(world & w, slot & S, int seg, int d, ints const & x, int how) { if (d == dim) w.template real_seg_add<dim>(S, seg, x, how); else segadd_sel<dim - 1, dummy>::run(w, S, seg, d, x, how); } };
    template <int dummy> struct segadd_sel<0, dummy> { static void run(world & w, slot & S, int seg, int, ints const & x, int how) { w.template real_seg_add<0>(S, seg, x, how); } };
    template <int d> void real_seg_erase(slot & S, int seg, ints const & x)
    {
      typename T<d>::elem * e = locate<d>(*S.m, x);
      if (!e) { viol("lookup", "element " + str(x) + " cannot be found by iteration"); return; }
      viennagrid::erase(S.sg->get_segment(seg), *e);
    }
    template <int dim, int dummy = 0> struct segerase_sel { static void run(world & w, slot & S, int seg, int d, ints const & x) { if (d == dim) w.template real_seg_erase<dim>(S, seg, x); else segerase_sel<dim - 1, dummy>::run(w, S, seg, d, x); } };
    template <int dummy> struct segerase_sel<0, dummy> { static void run(world & w, slot & S, int seg, int, ints const & x) { w.template real_seg_erase<0>(S, seg, x); } };

    template <int d> void real_add_low(slot & S, ints const & v)
    {
      std::vector<vhandle_t> h = handles(S, v);
      typename T<d>::handle c = (v[0] + v[1]) % 2 ? named<typename T<d>::tag>::make(*S.m, h, v[0]) : viennagrid::make_element<typename T<d>::tag>(*S.m, h.begin(), h.end());
      if (sorted(everts<d>(viennagrid::dereference_handle(*S.m, c))) != sorted(v)) viol("shared", "creating element " + str(v) + " returned " + str(everts<d>(viennagrid::dereference_handle(*S.m, c))));
    }
    template <int q, int dummy = 0> struct low_sel;
    template <int dummy> struct low_sel<1, dummy> { static void run(world &, slot &, int, ints const &) {} };
    template <int dummy> struct low_sel<2, dummy> { static void run(world & w, slot & S, int, ints const & v) { w.template real_add_low<1>(S, v); } };
    template <int dummy> struct low_sel<3, dummy> { static void run(world & w, slot & S, int d, ints const & v) { if (d == 1) w.template real_add_low<1>(S, v); else w.template real_add_low<2>(S, v); } };

    // -------------------------------------------------------------- data
    template <int d> void real_data_set(slot & S, ints const & x, int kind, double val)
    {
      typedef typename T<d>::elem E;
      E * e = locate<d>(*S.m, x);
      if (!e) { viol("lookup", "element " + str(x) + " cannot be found by iteration"); return; }
      // one of the ways of writing a value, chosen by the value itself
      int way = static_cast<int>(val) % 4; if (way < 0) way += 4;
      if (kind == 0)
      {
        typename viennagrid::result_of::accessor<std::vector<double>, E>::type a(S.dv[d]);
        if (way == 1) viennagrid::make_accessor<E>(S.dv[d])(*e) = val; else data_write(a, *e, val, way);
      }
      else if (kind == 1)
      {
        typename viennagrid::result_of::field<std::deque<double>, E>::type f(S.dd[d], -7.0);
        if (way == 1) viennagrid::make_field<E>(S.dd[d])(*e) = val; else data_write(f, *e, val, way);
      }
      else
      {
        typedef std::map<typename T<d>::id, double> M;
        typename viennagrid::result_of::accessor<M, E>::type a(dmap<d>(S)); typename viennagrid::result_of::field<M, E>::type f(dmap<d>(S), -7.0);
        if (way == 1) data_write(f, *e, val, static_cast<int>(val / 4) % 4); else data_write(a, *e, val, way);
      }
    }
    // stores through operator(), or, when there is a value already, through at() or find()
    template <class A, class E> void data_write(A & a, E const & e, double val, int way)
    {
      double * p = a.find(e);
      if (p && way == 2) *p = val;
      else if (p && way == 3) a.at(e) = val;
      else a(e) = val;
    }
    // what the accessor concept promises for one element: p is where the container stores the value, 0 if it does not
    template <class A, class E> void data_probe(A & a, E const & e, double const * p, bool field, const char * nm)
    {
      if (!a.is_valid()) viol("data", std::string(nm) + " over a container calls itself invalid");
      double const * f = a.find(e), * q = 0; bool out = false;
      if (f != p) viol("data", std::string(nm) + " find() " + (f ? p ? "gives another value" : "gives a value where none is stored" : "misses a stored value"));
      try { q = &a.at(e); } catch (std::out_of_range const &) { out = true; }
      if (out != (p == 0) || q != p) viol("data", std::string(nm) + " at() " + (out ? "throws for a stored value" : p ? "gives another value" : "gives a value where none is stored"));
      A const & c = a;
      if (p) { if (&c(e) != p) viol("data", std::string(nm) + " operator() gives another value"); }
      else if (field && c(e) != -7.0) viol("data", std::string(nm) + " without a value does not give its default");
    }
    template <class A, class CA, class C, class E> void data_probes(C & c, E const & e, double const * p, bool field, const char * nm, A & a, CA & ca)
    {
      A const & b = a;
      std::size_t before = c.size();
      data_probe(a, e, p, field, nm); data_probe(b, e, p, field, nm); data_probe(ca, e, p, field, nm);
      if (c.size() != before) viol("data", std::string(nm) + " reading changed the container");
    }
    template <class C, class E> void data_probe_all(C & c, E const & e, double const * p, const char * nm)
    {
      typedef typename viennagrid::result_of::accessor<C, E>::type A; typedef typename viennagrid::result_of::accessor<const C, E>::type CA;
      typedef typename viennagrid::result_of::field<C, E>::type F;    typedef typename viennagrid::result_of::field<const C, E>::type CF;
      C const & cc = c;
      A a(c); CA ca(cc); F f(c, -7.0); CF cf(cc, -7.0);
      data_probes(c, e, p, false, nm, a, ca); data_probes(c, e, p, true, nm, f, cf);
      A ma(viennagrid::make_accessor<E>(c)); CA mca(viennagrid::make_accessor<E>(cc));
      data_probes(c, e, p, false, nm, ma, mca);
      if (A().is_valid() || CA().is_valid() || F().is_valid() || CF().is_valid()) viol("data", std::string(nm) + " without a container calls itself valid");
      viennagrid::dynamic_accessor_wrapper<A> da(a); viennagrid::dynamic_accessor_wrapper<const CA> dca(ca);
      viennagrid::dynamic_field_wrapper<F> df(f); viennagrid::dynamic_field_wrapper<const CF> dcf(cf);
      data_dyn(da, e, p, false, nm); data_dyn(dca, e, p, false, nm); data_dyn(df, e, p, true, nm); data_dyn(dcf, e, p, true, nm);
    }
    // the same values behind the virtual interface
    template <class A, class E> void data_dyn(A & a, E const & e, double const * p, bool field, const char * nm)
    {
      A const & c = a;
      if (a.find(e) != p || c.find(e) != p) viol("data", std::string(nm) + " find() of the dynamic wrapper gives another value");
      double const * q = 0, * r = 0; int out = 0;
      try { q = &a.at(e); } catch (std::out_of_range const &) { ++out; }
      try { r = &c.at(e); } catch (std::out_of_range const &) { ++out; }
      if (q != p || r != p || out != (p ? 0 : 2)) viol("data", std::string(nm) + " at() of the dynamic wrapper gives another value");
      if (p) { if (&c(e) != p || &a(e) != p) viol("data", std::string(nm) + " operator() of the dynamic wrapper gives another value"); }
      else if (field && c(e) != -7.0) viol("data", std::string(nm) + " dynamic field without a value does not give its default");
    }
    static std::size_t data_span(std::map<int, double> const & m) { return m.empty() ? 0 : m.rbegin()->first + 1; }
    std::map<typename T<0>::id, double> m0[NSLOT]; std::map<typename T<D>::id, double> mD[NSLOT];
    std::map<typename T<(D > 1 ? 1 : 0)>::id, double> m1[NSLOT]; std::map<typename T<(D > 2 ? 2 : 0)>::id, double> m2[NSLOT];
    template <int d> std::map<typename T<d>::id, double> & dmap(slot & S) { return dmap_sel(S, int_c<(d == D ? 9 : d)>()); }
    std::map<typename T<0>::id, double> & dmap_sel(slot & S, int_c<0>) { return m0[&S - s]; }
    std::map<typename T<(D > 1 ? 1 : 0)>::id, double> & dmap_sel(slot & S, int_c<1>) { return m1[&S - s]; }
    std::map<typename T<(D > 2 ? 2 : 0)>::id, double> & dmap_sel(slot & S, int_c<2>) { return m2[&S - s]; }
    std::map<typename T<D>::id, double> & dmap_sel(slot & S, int_c<9>) { return mD[&S - s]; }

    // data written through containers of slot C, read for the elements of slot S (same slot, or a copy of it)
    template <int d> void real_data_check(slot & S, slot & C, const char * wh)
    {
      typedef typename T<d>::elem E;
      typedef typename viennagrid::result_of::element_range<mesh_t, typename T<d>::tag>::type R;
      typedef typename viennagrid::result_of::iterator<R>::type I;
      if (C.dv[d].size() > data_span(C.mo.data[d][0]) || C.dd[d].size() > data_span(C.mo.data[d][1])) viol("data", std::string(wh) + " container of dim " + num(d) + " has grown beyond the elements that got a value");
      R r(*S.m);
      for (I it = r.begin(); it != r.end(); ++it)
      {
        int id = eid<d>(*it);
        for (int kind = 0; kind < 3; ++kind)
        {
          std::map<int, double>::iterator w = C.mo.data[d][kind].find(id);
          double const * ptr = 0;
          if (kind == 0) { if (id < static_cast<int>(C.dv[d].size())) ptr = &C.dv[d][id]; data_probe_all(C.dv[d], *it, ptr, "vector"); }
          else if (kind == 1) { if (id < static_cast<int>(C.dd[d].size())) ptr = &C.dd[d][id]; data_probe_all(C.dd[d], *it, ptr, "deque"); }
          else { typename std::map<typename T<d>::id, double>::iterator mi = dmap<d>(C).find((*it).id()); if (mi != dmap<d>(C).end()) ptr = &mi->second; data_probe_all(dmap<d>(C), *it, ptr, "map"); }
          bool have = ptr != 0; double got = have ? *ptr : -1;
          if (w != C.mo.data[d][kind].end())
          {
            if (!have || got != w->second) viol("data", std::string(wh) + " value of dim " + num(d) + " element id " + num(id) + " kind " + num(kind) + " is lost or belongs to another element");
          }
          else if (have && kind == 2) viol("data", std::string(wh) + " map container has a value for element id " + num(id) + " that never got one");
          else if (have && got != 0.0 && got != -7.0) viol("data", std::string(wh) + " element id " + num(id) + " of dim " + num(d) + " kind " + num(kind) + " shows a value it never got");
        }
      }
      sim::count("check.data");
    }
    template <int dim, int dummy = 0> struct data_sel
    {
      static void set(world & w, slot & S, int d, ints const & x, int k, double v) { if (d == dim) w.template real_data_set<dim>(S, x, k, v); else data_sel<dim - 1, dummy>::set(w, S, d, x, k, v); }
      static void check(world & w, slot & S, slot & C, const char * wh) { w.template real_data_check<dim>(S, C, wh); data_sel<dim - 1, dummy>::check(w, S, C, wh); }
    };
    template <int dummy> struct data_sel<0, dummy>
    {
      static void set(world & w, slot & S, int, ints const & x, int k, double v) { w.template real_data_set<0>(S, x, k, v); }
      static void check(world & w, slot & S, slot & C, const char * wh) { w.template real_data_check<0>(S, C, wh); }
    };

    // -------------------------------------------------------------- model bookkeeping
    void model_erase(slot & S, int d, ints const & x)
    {
      std::vector<std::pair<int, ints> > out; S.mo.closure_up(d, x, out);
      for (std::size_t i = 0; i < out.size(); ++i) S.mo.remove(out[i].first, out[i].second);
    }
    void forget_addresses(slot & S) { for (int d = 0; d < 4; ++d) S.addr[d].clear(); }
    // after viennagrid::copy(): learn the new ids of an isomorphic mesh
    static ints key_of_points(model const & m, ints const & v)
    { ints r; for (std::size_t i = 0; i < v.size(); ++i) r.push_back((int)(m.points.find(v[i])->second.c[0])); return r; }
    // the ways to copy some of the cells of a mesh into another one
    void copy_cells(slot & S, mesh_t & dst, int mod, int rem, int how)
    {
      parity_functor f(mod, rem);
      typedef typename viennagrid::result_of::const_cell_range<mesh_t>::type R; typedef typename viennagrid::result_of::iterator<R>::type I;
      typedef typename viennagrid::result_of::const_handle<mesh_t, typename T<D>::tag>::type CH;
      mesh_t const & src = *S.m; R r(src);
      if (how <= 1) { viennagrid::copy(src, dst, f); return; }
      dst.clear();
      if (how == 2 && mod == 1) { viennagrid::copy_elements(r.begin(), r.end(), dst); return; }
      if (how <= 3)
      {
        std::vector<CH> l; for (I it = r.begin(); it != r.end(); ++it) if (f(*it)) l.push_back(it.handle());
        if (how == 3) { viennagrid::copy_elements_by_handle(src, l.begin(), l.end(), dst); return; }
        std::vector<typename T<D>::elem> e; for (I it = r.begin(); it != r.end(); ++it) if (f(*it)) e.push_back(*it);
        viennagrid::copy_elements(e.begin(), e.end(), dst, 0.001); return;
      }
      if (rem == 2) { for (I it = r.begin(); it != r.end(); ++it) if (f(*it)) { if (eid<D>(viennagrid::dereference_handle(dst, viennagrid::copy_element(*it, dst, 0.001))) < 0) viol("copy", "no handle"); } return; }
      viennagrid::vertex_copy_map<mesh_t, mesh_t> vm(dst);
      for (I it = r.begin(); it != r.end(); ++it) if (f(*it)) vm.copy_element(*it);
    }

    bool adopt_copy(slot & src, slot & dst, std::set<int> const & cells, const char * wh)
    {
      model n; n.D = D; n.cube = CUBE; n.has_seg = false;
      std::map<int, int> byx;    // point serial -> new vertex id
      std::map<int, mpoint> want;
      for (std::set<int>::const_iterator c = cells.begin(); c != cells.end(); ++c)
      { ints const & v = src.mo.el[D][one(*c)].v; for (std::size_t i = 0; i < v.size(); ++i) want[(int)src.mo.points[v[i]].c[0]] = src.mo.points[v[i]]; }
      typedef typename viennagrid::result_of::vertex_range<mesh_t>::type R;
      typedef typename viennagrid::result_of::iterator<R>::type I;
      R r(*dst.m);
      for (I it = r.begin(); it != r.end(); ++it)
      {
        int x = (int)viennagrid::point(*dst.m, *it)[0];
        if (!want.count(x) || byx.count(x)) { viol("copy", std::string(wh) + " copied mesh has an unexpected or duplicate vertex"); return false; }
        byx[x] = eid<0>(*it); n.add_vertex(eid<0>(*it), want[x]);
      }
      if (byx.size() != want.size()) { viol("copy", std::string(wh) + " copied mesh has " + num((sim::i64)byx.size()) + " vertices, expected " + num((sim::i64)want.size())); return false; }
      std::map<ints, int> wantc;   // point-serial tuple -> source cell
      for (std::set<int>::const_iterator c = cells.begin(); c != cells.end(); ++c) wantc[key_of_points(src.mo, src.mo.el[D][one(*c)].v)] = *c;
      typedef typename viennagrid::result_of::cell_range<mesh_t>::type CR;
      typedef typename viennagrid::result_of::iterator<CR>::type CI;
      CR cr(*dst.m); std::size_t cnt = 0;
      copied_from.clear();
      for (CI it = cr.begin(); it != cr.end(); ++it)
      {
        ints k = key_of_points(n, everts<D>(*it));
        if (!wantc.count(k)) { viol("copy", std::string(wh) + " copied mesh has an unexpected cell"); return false; }
        n.add_cell(eid<D>(*it), everts<D>(*it)); copied_from[eid<D>(*it)] = wantc[k]; wantc.erase(k); ++cnt;
      }
      if (!wantc.empty()) { viol("copy", std::string(wh) + " copied mesh lacks " + num((sim::i64)wantc.size()) + " cells"); return false; }
      dst.mo = n; forget_addresses(dst);
      return true;
    }
    std::map<int, int> copied_from;

    void audit_slot(int i, const char * wh, int salt)
    {
      slot & S = s[i];
      if (S.broken) return;
      if (structure) audit_structure(S, wh);
      if (sim::violated()) return;
      if (q_mesh) { visible v = view_mesh(S.mo); audit_queries(S.mo, *S.m, v, wh, salt); }
      if (sim::violated()) return;
      if (member) audit_segments(S, wh);
      if (sim::violated()) return;
      if (q_seg) audit_seg_queries(S, wh, salt);
      if (data) data_sel<D>::check(*this, S, S, wh);
    }

    int pick_seg(slot & S, sim::i64 r) { if (!S.sg.get() || S.mo.segs.empty()) return -1; std::map<int, mseg>::iterator it = S.mo.segs.begin(); std::advance(it, r % (sim::i64)S.mo.segs.size()); return it->first; }
    void ensure_seg(slot & S) { if (!S.sg.get()) { S.sg.reset(new segmentation_t(*S.m)); S.mo.has_seg = true; S.mo.segs.clear(); } }
    bool name_used(model const & m, std::string const & n) { for (std::map<int, mseg>::const_iterator i = m.segs.begin(); i != m.segs.end(); ++i) if (i->second.name == n) return true; return false; }

    bool numeric_name(model const & m) { for (std::map<int, mseg>::const_iterator i = m.segs.begin(); i != m.segs.end(); ++i) if (!i->second.name.empty() && i->second.name[0] >= '0' && i->second.name[0] <= '9' && i->second.name != num(i->first)) return true; return false; }

    void step(sim::op const & o)
    {
      int si = (int)(o.a[0] % nslot);
      slot & S = s[si];
      if (S.broken && o.code != OP_CLEAR && o.code != OP_ALLOC_FAULT && o.code != OP_COPY_CTOR && o.code != OP_ASSIGN && o.code != OP_COPY_FN) return;
      std::string cn = std::string("op.") + opname(o.code);
      sim::count(cn.c_str());
      if (sim::verbose()) { std::string l = std::string(opname(o.code)); for (int k = 0; k < 6; ++k) l += " " + num(o.a[k]); sim::say(l); }
      bool query = o.code == OP_Q_BOUNDARY || o.code == OP_Q_COBOUNDARY || o.code == OP_Q_NEIGHBOR || o.code == OP_Q_SEG_BOUNDARY || o.code == OP_Q_SEG_COBOUNDARY ||
                   o.code == OP_Q_SEG_NEIGHBOR || o.code == OP_Q_INTERFACE || o.code == OP_AUDIT || o.code == OP_AUDIT_SEG ||
                   o.code == OP_REFINE || o.code == OP_HULL || o.code == OP_SEEDS || o.code == OP_TRANSFER || o.code == OP_MEASURE || o.code == OP_VORONOI;
      if (query || o.code == OP_ALLOC_FAULT) { step_inner(o, S, si); return; }
      if (pending_fault > 0 && alloc)
      {
        // a mutation hit by failing memory: bad_alloc has to reach the caller; afterwards the mesh is only cleared or destroyed
        int touched = si;
        if (o.code == OP_COPY_CTOR || o.code == OP_ASSIGN || o.code == OP_COPY_FN || o.code == OP_SEG_COPY) touched = (int)(o.a[1] % nslot);
        model before = s[touched].mo; (void)before;
        sim::i64 pf = pending_fault; pending_fault = 0;
        sim::alloc_fail_arm(pf, fault_sticky);
        bool bad = false; rejected = false;
        try { step_inner(o, S, si); }
        catch (std::bad_alloc const &) { bad = true; }
        sim::u64 fired = sim::alloc_fail_disarm();
        if (bad && !fired) viol("alloc", "bad_alloc without an allocation failure");
        if (bad) { sim::count("mutation.bad_alloc"); s[touched].broken = true; if (touched != si && o.code != OP_COPY_CTOR && o.code != OP_ASSIGN) s[touched].broken = true; }
        else if (fired && rejected) sim::count("mutation.rejected");        // the refusal itself reached the caller (its text may be cut short)
        else if (fired) { viol("alloc", std::string("allocation failure during ") + opname(o.code) + " was swallowed"); }
        return;
      }
      if (!derived) pending_fault = 0;
      step_inner(o, S, si);
    }

    void step_inner(sim::op const & o, slot & S, int si)
    {
      model & m = S.mo;
      int lo = 0, hi = 0; ints x;
      switch (o.code)
      {
        case OP_ALLOC_FAULT: pending_fault = 1 + o.a[1] % 200; fault_sticky = (o.a[2] % 4) == 0; break;
        case OP_ADD_VERTEX: if ((int)m.points.size() < cap) create_vertex(S, *S.m, o.a[1], (int)(o.a[2] % (prop == "P18" ? 2 : 3)), true); break;
        case OP_ADD_CELL:
        {
          ints v;
          if ((int)m.el[D].size() < cap && choose_cell(S, o, v)) create_cell(S, *S.m, v, o.a[3], (int)(o.a[4] % 2));
          break;
        }
        case OP_ADD_LOW:
        {
          if (D < 2) break;
          int d = D == 2 ? 1 : 1 + (int)(o.a[1] % 2);
          if (CUBE && d == 2) d = 1;
          ints v; std::vector<int> ids; for (std::map<int, mpoint>::iterator i = m.points.begin(); i != m.points.end(); ++i) ids.push_back(i->first);
          if ((int)ids.size() < d + 1) break;
          sim::rng g((sim::u64)o.a[2]);
          while ((int)v.size() < d + 1) { int c = ids[(std::size_t)g.below(ids.size())]; if (std::find(v.begin(), v.end(), c) == v.end()) v.push_back(c); }
          low_sel<D>::run(*this, S, d, v);
          m.add_low(d, v);
          break;
        }
        case OP_ERASE:
        {
          int d = (int)(o.a[1] % (D + 1));
          if (S.sg.get() || !pick(m.all(d), o.a[2], x)) break;
          erase_sel<D>::run(*this, S, d, x);
          model_erase(S, d, x); forget_addresses(S);
          break;
        }
        case OP_ERASE_MULTI:
        {
          if (S.sg.get()) break;
          sim::rng g((sim::u64)o.a[2]);
          std::vector<std::pair<int, ints> > xs;
          int n = 1 + (int)(o.a[1] % 3);
          for (int k = 0; k < n; ++k) { int d = (int)g.below(D + 1); if (pick(m.all(d), (sim::i64)g.below(1000), x)) xs.push_back(std::make_pair(d, x)); }
          if (xs.empty()) break;
          {
            erase_view_t ev = viennagrid::make_view(*S.m);
            for (std::size_t k = 0; k < xs.size(); ++k) mark_sel<D>::run(*this, S, ev, xs[k].first, xs[k].second);
            viennagrid::erase_elements(*S.m, ev);
          }
          std::vector<std::pair<int, ints> > out;
          for (std::size_t k = 0; k < xs.size(); ++k) m.closure_up(xs[k].first, xs[k].second, out);
          for (std::size_t k = 0; k < out.size(); ++k) m.remove(out[k].first, out[k].second);
          forget_addresses(S);
          break;
        }
        case OP_Q_BOUNDARY:
        { if (!q_mesh) break; int d = (int)(o.a[1] % D); if (pick(m.all(d), o.a[2], x)) { visible v = view_mesh(m); pairs<D>::bnd(*this, m, *S.m, v, d, x, "mesh"); } break; }
        case OP_Q_COBOUNDARY:
        { if (!q_mesh) break; pick_pair(o.a[1], lo, hi); if (pick(m.all(lo), o.a[2], x)) { visible v = view_mesh(m); pairs<D>::cob(*this, m, *S.m, v, lo, hi, x, (int)o.a[3], "mesh"); } break; }
        case OP_Q_NEIGHBOR:
        { if (!q_mesh) break; pick_pair(o.a[1], lo, hi); if (pick(m.all(hi), o.a[2], x)) { visible v = view_mesh(m); pairs<D>::nbr(*this, m, *S.m, v, lo, hi, x, (int)o.a[3], "mesh"); } break; }
        case OP_AUDIT: audit_slot(si, "audit", (int)o.a[1]); break;
        case OP_COPY_CTOR:
        {
          int di = (int)(o.a[1] % nslot); if (di == si || S.broken) break;
          std::auto_ptr<mesh_t> c(new mesh_t(*S.m));
          // the accessor data of the source must fit the copy: ids are preserved
          s[di].sg.reset(); s[di].m = c; copy_model(S, s[di]);
          break;
        }
        case OP_ASSIGN:
        {
          int di = (int)(o.a[1] % nslot);
          if (S.broken) break;
          if (di == si && (S.sg.get() || alloc)) break;
          s[di].sg.reset();
          *s[di].m = *S.m; if (di != si) copy_model(S, s[di]); else forget_addresses(S);
          break;
        }
        case OP_CLEAR:
          S.sg.reset();
          if (o.a[1] % 2) viennagrid::clear(*S.m); else S.m->clear();
          { S.mo = model(); S.mo.D = D; S.mo.cube = CUBE; forget_addresses(S); S.broken = false; clear_data(si); grid_reset(si); if (nslot == 1) tapered = false; }
          break;
        case OP_COPY_FN:
        {
          int di = (int)(o.a[1] % nslot); if (di == si || S.broken) break;
          s[di].sg.reset();
          int mod = 1 + (int)(o.a[2] % 3), rem = (int)(o.a[3] % 3);
          if (mod == 1) rem = 1;
          std::set<int> cells;
          for (std::map<ints, melem>::iterator i = m.el[D].begin(); i != m.el[D].end(); ++i) if (i->first[0] % mod != rem) cells.insert(i->first[0]);
          copy_cells(S, *s[di].m, mod, rem, (int)(o.a[4] % 5));
          clear_data(di); s[di].broken = false; grid_reset(di);
          adopt_copy(S, s[di], cells, "copy()");
          break;
        }
        case OP_SEG_MAKE:
        {
          ensure_seg(S);
          if (m.segs.size() >= 5) break;
          int mode = (int)(o.a[1] % 4);
          if (mode == 0 || mode == 3)
          {
            int id = -1;
            try { id = (int)S.sg->make_segment().id(); } catch (viennagrid::segment_name_collision_exception const &) { rejected = true; }
            if (id < 0) { if (!numeric_name(m)) viol("names", "a new segment is rejected although no name can be in its way"); break; }
            if (m.segs.count(id)) viol("segments", "new segment got id " + num(id) + ", which is in use");
            m.segs[id].name = num(id);
          }
          else if (mode == 1)
          {
            int id = (int)(o.a[2] % 8);
            bool known = m.segs.count(id) != 0;
            if (!known && name_used(m, num(id)))
            {
              bool threw = false;
              try { S.sg->get_make_segment(id); } catch (viennagrid::segment_name_collision_exception const &) { threw = rejected = true; }
              if (!threw) viol("names", "segment " + num(id) + " was created although its name is taken");
              break;
            }
            segment_t & g = (o.a[3] % 2) ? (*S.sg)[id] : S.sg->get_make_segment(id);
            if ((int)g.id() != id) viol("segments", "segment requested with id " + num(id) + " has id " + num(g.id()));
            if (!known) m.segs[id].name = num(id);
          }
          else
          {
            std::string nm = "seg" + num(o.a[2] % 4);
            int known = -1; for (std::map<int, mseg>::iterator i = m.segs.begin(); i != m.segs.end(); ++i) if (i->second.name == nm) known = i->first;
            int id = -1;
            try { id = (int)S.sg->get_make_segment(nm).id(); } catch (viennagrid::segment_name_collision_exception const &) { rejected = true; }
            if (id < 0) { if (known >= 0 || !numeric_name(m)) viol("names", "asking for segment " + nm + " is rejected"); break; }
            if (known >= 0) { if (id != known) viol("names", "segment " + nm + " was found as segment " + num(id)); }
            else { if (m.segs.count(id)) viol("segments", "new segment got id " + num(id) + ", which is in use"); m.segs[id].name = nm; }
          }
          break;
        }
        case OP_SEG_ADD:
        {
          int seg = pick_seg(S, o.a[1]); int d = (o.a[2] % 8) < 5 ? D : (int)(o.a[2] % (D + 1));
          if (seg < 0 || !pick(m.all(d), o.a[3], x)) break;
          segadd_sel<D>::run(*this, S, seg, d, x, (int)o.a[4]);
          seg_add_closure(S, seg, d, x);
          break;
        }
        case OP_SEG_INFO:
        {
          int seg = pick_seg(S, o.a[1]);
          if (seg < 0 || !pick(m.segs[seg].el[D], o.a[2], x)) break;
          info_part<CFG::INFO>::set(*this, S, seg, x, o.a[3] % 4 != 0);
          break;
        }
        case OP_SEG_ERASE:
        {
          int seg = pick_seg(S, o.a[1]); int d = (int)(o.a[2] % (D + 1));
          if (seg < 0 || !pick(m.segs[seg].el[d], o.a[3], x)) break;
          segerase_sel<D>::run(*this, S, seg, d, x);
          std::vector<std::pair<int, ints> > out; m.closure_up(d, x, out);
          for (std::size_t k = 0; k < out.size(); ++k) { m.segs[seg].el[out[k].first].erase(out[k].second); if (out[k].first == D) m.segs[seg].info.erase(out[k].second); }
          break;
        }
        case OP_SEG_NEW_CELL:
        {
          int seg = pick_seg(S, o.a[3]); ints v;
          if (seg < 0 || (int)m.el[D].size() >= cap || !choose_cell(S, o, v)) break;
          int id = create_cell(S, S.sg->get_segment(seg), v, o.a[3], (int)(o.a[4] % 2));
          seg_add_closure(S, seg, D, one(id));
          break;
        }
        case OP_SEG_NEW_VERTEX:
        {
          int seg = pick_seg(S, o.a[3]);
          if (seg < 0 || (int)m.points.size() >= cap) break;
          int id = create_vertex(S, S.sg->get_segment(seg), o.a[1], (int)(o.a[2] % 2), false);
          m.segs[seg].el[0].insert(one(id));
          break;
        }
        case OP_SEG_NAME:
        {
          int seg = pick_seg(S, o.a[1]); if (seg < 0) break;
          std::string nm = (o.a[2] % 5) ? "seg" + num(o.a[2] % 4) : num(o.a[2] % 2 ? 20 + o.a[2] % 3 : o.a[2] / 10 % 8);
          if (m.segs[seg].name == nm) break;
          bool used = name_used(m, nm), threw = false;
          try { S.sg->get_segment(seg).set_name(nm); } catch (std::exception const & e) { if (dynamic_cast<std::bad_alloc const *>(&e)) throw; threw = rejected = true; }
          if (threw != used) viol("names", std::string("renaming to a name that is ") + (used ? "taken was accepted" : "free was rejected"));
          if (!used) m.segs[seg].name = nm;
          break;
        }
        case OP_SEG_CLEAR:
          if (o.a[2] % 2)
          {
            int seg = pick_seg(S, o.a[3]); if (seg < 0) break;
            viennagrid::clear(S.sg->get_segment(seg)); m.segs[seg].el.clear(); m.segs[seg].info.clear();
            break;
          }
          if (S.sg.get()) { if (o.a[1] % 2) viennagrid::clear(*S.sg); else S.sg->clear(); m.segs.clear(); } break;
        case OP_SEG_DROP: S.sg.reset(); m.segs.clear(); m.has_seg = false; break;
        case OP_SEG_COPY:
        {
          int di = (int)(o.a[1] % nslot); if (di == si || !S.sg.get()) break;
          slot & Dd = s[di];
          if (o.a[2] % 2 || alloc || Dd.broken || !Dd.sg.get()) { Dd.sg.reset(); if (o.a[2] % 2 == 0) Dd.sg.reset(new segmentation_t(*Dd.m)); }
          if (o.a[2] % 2)
          {
            *Dd.m = *S.m; copy_model(S, Dd);
            Dd.sg.reset(new segmentation_t(*Dd.m));
            viennagrid::copy_segmentation(*S.m, *S.sg, *Dd.m, *Dd.sg);
            Dd.mo.has_seg = true;
            for (std::map<int, mseg>::iterator i = m.segs.begin(); i != m.segs.end(); ++i)
            {
              bool any = false; for (int d = 0; d <= D; ++d) any = any || !i->second.el[d].empty();
              if (any) { Dd.mo.segs[i->first] = i->second; Dd.mo.segs[i->first].name = num(i->first); }   // names are not part of the documented copy
              if (any && Dd.sg->segment_present(i->first)) Dd.mo.segs[i->first].name = Dd.sg->get_segment(i->first).name();
            }
          }
          else
          {
            int mod = 1 + (int)(o.a[3] % 3), rem = (int)(o.a[4] % 3); if (mod == 1) rem = 1;
            std::set<int> cells;
            for (std::map<ints, melem>::iterator i = m.el[D].begin(); i != m.el[D].end(); ++i) if (i->first[0] % mod != rem) cells.insert(i->first[0]);
            if (o.a[2] / 2 % 3) viennagrid::copy(*S.m, *S.sg, *Dd.m, *Dd.sg, parity_functor(mod, rem));
            else
            {
              // by way of segmented meshes, one of them with old content
              typedef viennagrid::segmented_mesh<mesh_t, segmentation_t> sm_t;
              sm_t a; viennagrid::copy(*S.m, *S.sg, a.mesh, a.segmentation, parity_functor(mod, rem));
              sm_t b(a), c; viennagrid::copy(*S.m, *S.sg, c.mesh, c.segmentation, parity_functor(2, rem % 2));
              if (o.a[4] % 2) a.clear(); else { sm_t & same = a; a = same; b = a; }
              c = b; b.clear();
              if (viennagrid::cells(b.mesh).size() != 0 || b.segmentation.size() != 0) viol("copy", "a cleared segmented mesh is not empty");
              viennagrid::copy(c.mesh, c.segmentation, *Dd.m, *Dd.sg, parity_functor(1, 1));
              sim::count("check.segmented_mesh");
            }
            clear_data(di); grid_reset(di);
            if (!adopt_copy(S, Dd, cells, "copy()")) break;
            Dd.broken = false;
            Dd.mo.has_seg = true;
            for (std::map<int, int>::iterator c = copied_from.begin(); c != copied_from.end(); ++c)
              for (std::map<int, mseg>::iterator i = m.segs.begin(); i != m.segs.end(); ++i)
                if (i->second.el[D].count(one(c->second)))
                {
                  if (!Dd.sg->segment_present(i->first)) { viol("copy", "segment " + num(i->first) + " is missing in the copy"); return; }
                  Dd.mo.segs[i->first].name = Dd.sg->get_segment(i->first).name();
                  seg_add_closure(Dd, i->first, D, one(c->first));
                }
          }
          // information about cells in segments is not part of the documented copies
          for (std::map<int, mseg>::iterator i = Dd.mo.segs.begin(); i != Dd.mo.segs.end(); ++i)
            for (std::map<ints, int>::iterator k = i->second.info.begin(); k != i->second.info.end(); ++k) k->second = -1;
          break;
        }
        case OP_Q_SEG_BOUNDARY:
        {
          int seg = pick_seg(S, o.a[1]), d = (int)(o.a[2] % D); if (!q_seg || seg < 0) break;
          visible v = view_seg(m, seg); if (pick(v.el[d], o.a[3], x)) pairs<D>::bnd(*this, m, S.sg->get_segment(seg), v, d, x, "segment"); break;
        }
        case OP_Q_SEG_COBOUNDARY:
        {
          int seg = pick_seg(S, o.a[1]); if (!q_seg || seg < 0) break; pick_pair(o.a[2], lo, hi);
          visible v = view_seg(m, seg); if (pick(v.el[lo], o.a[3], x)) pairs<D>::cob(*this, m, S.sg->get_segment(seg), v, lo, hi, x, (int)o.a[4], "segment"); break;
        }
        case OP_Q_SEG_NEIGHBOR:
        {
          int seg = pick_seg(S, o.a[1]); if (!q_seg || seg < 0) break; pick_pair(o.a[2], lo, hi);
          visible v = view_seg(m, seg); if (pick(v.el[hi], o.a[3], x)) pairs<D>::nbr(*this, m, S.sg->get_segment(seg), v, lo, hi, x, (int)o.a[4], "segment"); break;
        }
        case OP_Q_INTERFACE:
        {
          int a = pick_seg(S, o.a[1]), b = pick_seg(S, o.a[2]), d = (int)(o.a[3] % D); if (!q_seg || a < 0 || a == b) break;
          idset u = m.segs[a].el[d]; u.insert(m.segs[b].el[d].begin(), m.segs[b].el[d].end());
          if (pick(u, o.a[4], x)) check_ifc(S, a, b, d, x, "step");
          break;
        }
        case OP_VIEW: if (q_seg) view_op(S, o.a[1]); break;
        case OP_AUDIT_SEG: if (member) audit_segments(S, "audit"); if (q_seg) audit_seg_queries(S, "audit", (int)o.a[1]); break;
        case OP_DATA_SET:
        {
          if (!data) break;
          int d = (int)(o.a[1] % (D + 1)), kind = (int)(o.a[3] % 3); if (!pick(m.all(d), o.a[2], x)) break;
          double v = 1.0 + (double)(o.a[4] % 1000);
          data_sel<D>::set(*this, S, d, x, kind, v);
          typename std::map<ints, melem>::iterator e = m.el[d].find(x);
          int id = learn_id(S, d, x); (void)e;
          m.data[d][kind][id] = v;
          break;
        }
        case OP_DATA_CHECK: if (data) data_sel<D>::check(*this, S, S, "check"); break;
#ifdef HIST_DERIVE
        case OP_REFINE: case OP_HULL: case OP_SEEDS: case OP_TRANSFER: case OP_MEASURE: case OP_TRANSFORM: case OP_VORONOI: if (!S.broken) derive<CFG>::run(*this, o, S); break;
#endif
        case OP_LOOKUP: if (structure || data) audit_structure(S, "lookup"); break;
      }
      sim::state_visit(S.mo.hash());
    }

    template <int d> int learn(slot & S, ints const & x) { typename T<d>::elem * e = locate<d>(*S.m, x); return e ? eid<d>(*e) : -1; }
    template <int dim, int dummy = 0> struct learn_sel { static int run(world & w, slot & S, int d, ints const & x) { return d == dim ? w.template learn<dim>(S, x) : learn_sel<dim - 1, dummy>::run(w, S, d, x); } };
    template <int dummy> struct learn_sel<0, dummy> { static int run(world & w, slot & S, int, ints const & x) { return w.template learn<0>(S, x); } };
    int learn_id(slot & S, int d, ints const & x) { return learn_sel<D>::run(*this, S, d, x); }

    void clear_data(int i) { for (int d = 0; d < 4; ++d) { s[i].dv[d].clear(); s[i].dd[d].clear(); for (int k = 0; k < 3; ++k) s[i].mo.data[d][k].clear(); } m0[i].clear(); m1[i].clear(); m2[i].clear(); mD[i].clear(); }
    void grid_reset(int i) { grid[i].clear(); }
    void copy_model(slot & src, slot & dst)
    {
      int a = (int)(&src - s), b = (int)(&dst - s);
      dst.mo = src.mo; dst.mo.segs.clear(); dst.mo.has_seg = false; dst.broken = false;
      forget_addresses(dst);
      for (int d = 0; d < 4; ++d) { dst.dv[d] = src.dv[d]; dst.dd[d] = src.dd[d]; }
      m0[b] = m0[a]; m1[b] = m1[a]; m2[b] = m2[a]; mD[b] = mD[a]; grid[b] = grid[a];
      if (data) data_sel<D>::check(*this, dst, src, "after copy");
    }
  };

  // ------------------------------------------------------------------ scenario
  template <typename CFG>
  struct scenario : sim::scenario
  {
    std::string prop;
    explicit scenario(std::string const & p) : prop(p) {}
    const char * op_name(int c) { return opname(c); }

    void generate(sim::plan & p, sim::u64 seed, bool thorough)
    {
      sim::rng g(seed);
      bool faults = (prop == "P14") || ((prop == "P07" || prop == "P08" || prop == "P16" || prop == "P17") && g.chance(1, 3));
      int len = (int)g.range(8, thorough ? 160 : 60);
      if (g.chance(1, 40)) { len = (int)g.range(100, 240); p.cfg["cap"] = 18 + (int)g.below(CFG::D == 3 ? 10 : 30); }          // now and then a longer history of a larger mesh
      p.cfg["slots"] = (prop == "P12" || prop == "P13" || prop == "P14") ? 1 + (int)g.below(3) : 1 + (int)g.chance(1, 5);
      if (prop == "P18") p.cfg["slots"] = 1;
      if (prop == "P12") p.cfg["slots"] = 2 + (int)g.below(2);
      p.cfg["faults"] = faults;
      // clients of this run with their weights (swarm: each may be absent)
      unsigned w[OP_COUNT]; std::memset(w, 0, sizeof w);
      w[OP_ADD_VERTEX] = 6; w[OP_ADD_CELL] = 10; w[OP_ADD_LOW] = g.chance(1, 2) ? 2 : 0;
      bool segs = prop == "P08" || prop == "P11" || ((prop == "P12" || prop == "P14" || prop == "P16" || prop == "P17" || prop == "P18") && g.chance(1, 2));
      bool erase = (!segs || g.chance(1, 3)) && (prop == "P07" || prop == "P09" || ((prop == "P10" || prop == "P12" || prop == "P13" || prop == "P14" || prop == "P16" || prop == "P17" || prop == "P18" || prop == "P08" || prop == "P11") && g.chance(1, 2)));
      if (erase) { w[OP_ERASE] = 2 + (unsigned)g.below(6); w[OP_ERASE_MULTI] = g.chance(1, 2) ? 2 : 0; }
      if (prop == "P07" || prop == "P09" || prop == "P12" || prop == "P14")
      { w[OP_Q_BOUNDARY] = g.chance(3, 4) ? 4 : 0; w[OP_Q_COBOUNDARY] = g.chance(3, 4) ? 6 : 0; w[OP_Q_NEIGHBOR] = g.chance(3, 4) ? 5 : 0; }
      if (prop == "P12" || prop == "P14" || prop == "P13") { w[OP_COPY_CTOR] = 2; w[OP_ASSIGN] = 2; w[OP_CLEAR] = 1; w[OP_COPY_FN] = prop == "P13" ? 0 : 2; }
      else if (g.chance(1, 3)) w[OP_CLEAR] = 1;
      if (segs)
      {
        w[OP_SEG_MAKE] = 4; w[OP_SEG_INFO] = CFG::INFO ? 6 : 0; w[OP_SEG_ADD] = 12; w[OP_SEG_ERASE] = g.chance(2, 3) ? 4 : 0; w[OP_SEG_NEW_CELL] = g.chance(2, 3) ? 5 : 0;
        w[OP_SEG_NEW_VERTEX] = g.chance(1, 3) ? 2 : 0; w[OP_SEG_NAME] = g.chance(1, 2) ? 2 : 0; w[OP_SEG_CLEAR] = g.chance(1, 3) ? 1 : 0; w[OP_SEG_DROP] = g.chance(1, 4) ? 1 : 0;
        if (prop == "P12" || prop == "P14") w[OP_SEG_COPY] = 3;
        if (prop == "P08" || prop == "P14") { w[OP_Q_SEG_BOUNDARY] = g.chance(3, 4) ? 4 : 0; w[OP_Q_SEG_COBOUNDARY] = g.chance(3, 4) ? 5 : 0; w[OP_Q_SEG_NEIGHBOR] = g.chance(3, 4) ? 4 : 0; w[OP_Q_INTERFACE] = g.chance(3, 4) ? 7 : 0; }
        if (prop == "P11" || prop == "P12") w[OP_AUDIT_SEG] = g.chance(1, 2) ? 2 : 0;
        if (prop == "P08") w[OP_AUDIT_SEG] = g.chance(1, 3) ? 1 : 0;
        if (prop == "P08") w[OP_VIEW] = g.chance(1, 3) ? 2 : 0;
      }
      if (prop == "P09" || prop == "P10" || prop == "P12") w[OP_AUDIT] = g.chance(1, 2) ? 2 : 0;
      if (prop == "P07") w[OP_AUDIT] = g.chance(1, 3) ? 1 : 0;
      if (prop == "P10" || prop == "P09") w[OP_LOOKUP] = 2;
      if (prop == "P13") { w[OP_DATA_SET] = 14; w[OP_DATA_CHECK] = 3; }
      if (prop == "P16") { w[OP_REFINE] = 8; p.cfg["lattice"] = g.chance(1, 2) ? 0 : 2 + (int)g.below(3); }
      if (prop == "P18")
      {
        w[OP_MEASURE] = 6; w[OP_TRANSFORM] = g.chance(3, 4) ? 4 : 0; w[OP_VORONOI] = 6;
        p.cfg["grid"] = (CFG::CUBE || g.chance(2, 3)) ? 1 + (int)g.below(!CFG::CUBE && CFG::D == 2 ? 6 : 3) : 0;
        if (g.chance(1, 2)) w[OP_ADD_LOW] = 0;
      }
      if (prop == "P17") { w[OP_HULL] = g.chance(3, 4) ? 6 : 0; w[OP_SEEDS] = g.chance(3, 4) ? 5 : 0; w[OP_TRANSFER] = 6; }
      if (faults) w[OP_ALLOC_FAULT] = 4;
      unsigned tot = 0; for (int k = 0; k < OP_COUNT; ++k) tot += w[k];
      // a few vertices and cells to start from
      int nv = (int)g.range(CFG::NV, CFG::NV + 5);
      if (!(CFG::CUBE && CFG::D == 3)) for (int k = 0; k < nv; ++k) p.ops.push_back(sim::op(OP_ADD_VERTEX, 0, (sim::i64)g.below(1000), (sim::i64)g.below(6)));
      for (int k = (int)g.below(4); k > 0; --k) p.ops.push_back(sim::op(OP_ADD_CELL, 0, (sim::i64)g.below(100000), (sim::i64)g.below(1000), (sim::i64)g.below(1000), (sim::i64)g.below(6)));
      for (int k = 0; k < len; ++k)
      {
        unsigned r = (unsigned)g.below(tot); int c = 0;
        while (r >= w[c]) { r -= w[c]; ++c; }
        sim::op o(c);
        o.a[0] = (sim::i64)g.below((sim::u64)p.cfg["slots"]);
        for (int q = 1; q < 6; ++q) o.a[q] = (sim::i64)g.below(100000);
        if (c == OP_ALLOC_FAULT) o.a[1] = (sim::i64)g.below(g.chance(1, 2) ? 12 : 160);
        p.ops.push_back(o);
      }
    }

    void inner(sim::plan const & p)
    {
      world<CFG> w(prop, (int)std::max<sim::i64>(1, std::min<sim::i64>(3, p.get("slots", 1))));
      w.lattice = (int)p.get("lattice", 0); w.cap = (int)p.get("cap", 14); w.set_grid((int)p.get("grid", 0));
      for (std::size_t i = 0; i < p.ops.size(); ++i)
      {
        if (p.ops[i].code <= 0 || p.ops[i].code >= OP_COUNT) continue;
        sim::set_step_budget(400000000ULL);
        w.step(p.ops[i]);
        if (sim::violated()) return;
      }
      w.pending_fault = 0;
      for (int i = 0; i < w.nslot; ++i) { w.audit_slot(i, "final", 3); if (sim::violated()) return; }
      if (prop == "P14")
        for (int i = 0; i < w.nslot; ++i)
        {
          // recovery: a mesh that saw failing memory is cleared and must then work like a new one
          if (!w.s[i].broken) continue;
          w.step(sim::op(OP_CLEAR, i, 0));
          w.grid_reset(i);
          for (int k = 0; k < CFG::NV + 2; ++k) w.step(sim::op(OP_ADD_VERTEX, i, k * 7, 0));
          for (int k = 0; k < 3; ++k) w.step(sim::op(OP_ADD_CELL, i, 11 * k + 1, k, 0, 0));
          w.audit_slot(i, "after recovery", 1);
          if (sim::violated()) return;
        }
    }

    void execute(sim::plan const & p)
    {
      sim::u64 before = sim::live_blocks();
      try { inner(p); }
      catch (std::bad_alloc const &) { sim::alloc_fail_disarm(); sim::violation("exception", "bad_alloc outside an injected failure"); }
      catch (std::exception const & e) { sim::alloc_fail_disarm(); sim::violation("exception", std::string("unexpected exception: ") + typeid(e).name()); }
      sim::u64 after = sim::live_blocks();
      if ((prop == "P14" || prop == "P16" || prop == "P17" || prop == "P18") && !sim::violated() && after != before) sim::violation("leak", num((sim::i64)(after - before)) + " heap blocks are still allocated after all meshes are destroyed");
    }
  };
}

#ifdef HIST_DERIVE
#include "derive.hpp"
#endif
