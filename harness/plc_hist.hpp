// Histories of piecewise linear complexes (polygons with a variable number of lines, loose vertices and holes):
// creation, erasing, copying, clearing, segments and queries against a reference model.
#include <cstring>
#include <set>
#include <sstream>
#include <memory>
#include <algorithm>
#include "sim.h"
#include "viennagrid/config/default_configs.hpp"
#include "viennagrid/mesh/element_creation.hpp"
#include "viennagrid/mesh/element_deletion.hpp"
#include "viennagrid/mesh/coboundary_iteration.hpp"
#include "viennagrid/mesh/neighbor_iteration.hpp"
#include "viennagrid/mesh/mesh_operations.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/algorithm/boundary.hpp"

namespace plch
{
  using sim::num;
  typedef std::set<int> ids;
  struct mpoint { double c[3]; mpoint(double x = 0, double y = 0, double z = 0) { c[0] = x; c[1] = y; c[2] = z; } bool operator==(mpoint const & o) const { return c[0] == o.c[0] && c[1] == o.c[1] && c[2] == o.c[2]; } bool operator<(mpoint const & o) const { return std::lexicographical_compare(c, c + 3, o.c, o.c + 3); } };
  struct mplc { ids lines, verts; std::vector<mpoint> holes; };
  struct mseg { ids el[3]; };
  struct model
  {
    std::map<int, mpoint> v; std::map<int, std::pair<int, int> > l; std::map<int, mplc> p; std::map<int, mseg> segs;
    ids all(int d) const
    {
      ids r;
      if (d == 0) for (std::map<int, mpoint>::const_iterator i = v.begin(); i != v.end(); ++i) r.insert(i->first);
      if (d == 1) for (std::map<int, std::pair<int, int> >::const_iterator i = l.begin(); i != l.end(); ++i) r.insert(i->first);
      if (d == 2) for (std::map<int, mplc>::const_iterator i = p.begin(); i != p.end(); ++i) r.insert(i->first);
      return r;
    }
    ids parts(int hi, int x, int lo) const
    {
      ids r;
      if (hi == 1) { std::pair<int, int> e = l.find(x)->second; r.insert(e.first); r.insert(e.second); }
      if (hi == 2) r = lo == 0 ? p.find(x)->second.verts : p.find(x)->second.lines;
      return r;
    }
    ids above(int lo, int x, int hi, ids const & among) const
    { ids r; for (ids::const_iterator i = among.begin(); i != among.end(); ++i) if (parts(hi, *i, lo).count(x)) r.insert(*i); return r; }
    ids near(int d, int x, int via, ids const & among) const
    {
      ids b = parts(d, x, via), r;
      for (ids::const_iterator i = among.begin(); i != among.end(); ++i)
      { if (*i == x) continue; ids o = parts(d, *i, via); for (ids::iterator k = o.begin(); k != o.end(); ++k) if (b.count(*k)) { r.insert(*i); break; } }
      return r;
    }
    // drops the elements and everything that has one of them on its boundary
    static void spread(model const & m, ids drop[3])
    {
      for (std::map<int, std::pair<int, int> >::const_iterator i = m.l.begin(); i != m.l.end(); ++i) if (drop[0].count(i->second.first) || drop[0].count(i->second.second)) drop[1].insert(i->first);
      for (std::map<int, mplc>::const_iterator i = m.p.begin(); i != m.p.end(); ++i)
      {
        bool hit = false;
        for (ids::const_iterator k = i->second.verts.begin(); k != i->second.verts.end(); ++k) hit = hit || drop[0].count(*k);
        for (ids::const_iterator k = i->second.lines.begin(); k != i->second.lines.end(); ++k) hit = hit || drop[1].count(*k);
        if (hit) drop[2].insert(i->first);
      }
    }
  };
  inline std::string str(ids const & s) { std::string r = "{"; for (ids::const_iterator i = s.begin(); i != s.end(); ++i) r += " " + num(*i); return r + " }"; }

  enum { ADD_VERTEX = 1, ADD_LINE, ADD_PLC, ERASE, ERASE_MULTI, COPY_CTOR, ASSIGN, CLEAR, COPY_EL, Q_COBOUNDARY, Q_NEIGHBOR, Q_BOUNDARY, SEG_MAKE, SEG_ADD, SEG_ERASE, SEG_CLEAR, SEG_NEW, ALLOC_FAULT, CODES };

  typedef viennagrid::plc_3d_mesh mesh_t; typedef viennagrid::plc_3d_segmentation seg_t; typedef viennagrid::plc_3d_segment_handle segment_t;
  typedef viennagrid::result_of::point<mesh_t>::type point_t;
  template <int d> struct T; 
  template <> struct T<0> { typedef viennagrid::vertex_tag tag; };
  template <> struct T<1> { typedef viennagrid::line_tag tag; };
  template <> struct T<2> { typedef viennagrid::plc_tag tag; };
  template <int d> struct E { typedef typename viennagrid::result_of::element<mesh_t, typename T<d>::tag>::type type; typedef typename viennagrid::result_of::handle<mesh_t, typename T<d>::tag>::type handle; };
  inline point_t pt(mpoint const & p) { return point_t(p.c[0], p.c[1], p.c[2]); }
  template <typename P> mpoint mp(P const & p) { return mpoint(p[0], p[1], p[2]); }

  struct world
  {
    struct slot { std::auto_ptr<mesh_t> m; std::auto_ptr<seg_t> sg; model mo; bool broken; slot() : broken(false) {} };
    slot s[2]; std::string prop; sim::i64 pending; bool sticky; int serial;
    explicit world(std::string const & p) : prop(p), pending(0), sticky(false), serial(0) { for (int i = 0; i < 2; ++i) s[i].m.reset(new mesh_t()); }
    void viol(std::string const & rule, std::string const & what) { sim::violation(rule, "plc_3d: " + what); }

    template <int d, typename H> ids list(H & h, std::size_t & n)
    {
      typedef typename viennagrid::result_of::element_range<H, typename T<d>::tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I;
      ids r; R a(h); n = 0; for (I it = a.begin(); it != a.end(); ++it, ++n) r.insert((int)(*it).id().get()); return r;
    }
    template <int d> typename E<d>::type & get(slot & S, int id)
    {
      typedef typename viennagrid::result_of::element_range<mesh_t, typename T<d>::tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I;
      R a(*S.m); for (I it = a.begin(); it != a.end(); ++it) if ((int)(*it).id().get() == id) return *it;
      viol("lookup", "element " + num(id) + " of dimension " + num(d) + " is not in the mesh"); throw sim::abandon_run();
    }
    template <int d> typename E<d>::handle hd(slot & S, int id) { return viennagrid::handle(*S.m, get<d>(S, id)); }
    static bool pick(ids const & a, sim::i64 r, int & x) { if (a.empty()) return false; ids::const_iterator i = a.begin(); std::advance(i, (long)((sim::u64)r % a.size())); x = *i; return true; }

    // ---------------------------------------------------------------- audits
    template <int d> void audit_dim(slot & S)
    {
      typedef typename viennagrid::result_of::element_range<mesh_t, typename T<d>::tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I;
      std::size_t n; ids got = list<d>(*S.m, n), want = S.mo.all(d);
      if (got != want || n != want.size()) { viol("structure", "elements of dimension " + num(d) + " are " + str(got) + " (" + num((sim::i64)n) + "), expected " + str(want)); return; }
      R a(*S.m); if (a.size() != n) viol("structure", "element count disagrees with iteration");
      for (I it = a.begin(); it != a.end(); ++it)
      {
        if (&*viennagrid::find(*S.m, (*it).id()) != &*it) viol("lookup", "lookup of id " + num((sim::i64)(*it).id().get()) + " of dimension " + num(d) + " gives a different element");
        if (&viennagrid::dereference_handle(*S.m, it.handle()) != &*it) viol("handle", "a handle denotes a different element");
      }
    }
    template <int hi, int lo> void audit_parts(slot & S)
    {
      typedef typename viennagrid::result_of::element_range<mesh_t, typename T<hi>::tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I;
      typedef typename viennagrid::result_of::element_range<typename E<hi>::type, typename T<lo>::tag>::type BR; typedef typename viennagrid::result_of::iterator<BR>::type BI;
      R a(*S.m);
      for (I it = a.begin(); it != a.end(); ++it)
      {
        ids got; std::size_t n = 0; BR b(*it);
        for (BI k = b.begin(); k != b.end(); ++k, ++n) { got.insert((int)(*k).id().get()); if (&*k != &*viennagrid::find(*S.m, (*k).id())) { viol("shared", "an element refers to a private copy of a boundary element"); return; } }
        int id = (int)(*it).id().get(); ids want = S.mo.parts(hi, id, lo);
        if (got != want || n != want.size()) { viol("structure", "boundary elements of dimension " + num(lo) + " of " + num(id) + " (dimension " + num(hi) + ") are " + str(got) + ", expected " + str(want)); return; }
      }
    }
    void audit(slot & S)
    {
      audit_dim<0>(S); audit_dim<1>(S); audit_dim<2>(S); if (sim::violated()) return;
      audit_parts<1, 0>(S); audit_parts<2, 0>(S); audit_parts<2, 1>(S); if (sim::violated()) return;
      for (std::map<int, mpoint>::iterator i = S.mo.v.begin(); i != S.mo.v.end(); ++i) if (!(mp(viennagrid::point(*S.m, get<0>(S, i->first))) == i->second)) { viol("structure", "vertex " + num(i->first) + " has other coordinates"); return; }
      for (std::map<int, std::pair<int, int> >::iterator i = S.mo.l.begin(); i != S.mo.l.end(); ++i)
      { E<1>::type & l = get<1>(S, i->first); if ((int)viennagrid::vertices(l)[0].id().get() != i->second.first || (int)viennagrid::vertices(l)[1].id().get() != i->second.second) { viol("structure", "line " + num(i->first) + " changed the order of its vertices"); return; } }
      for (std::map<int, mplc>::iterator i = S.mo.p.begin(); i != S.mo.p.end(); ++i)
      {
        E<2>::type & p = get<2>(S, i->first); E<2>::type const & cp = p; std::vector<mpoint> h;
        for (std::size_t k = 0; k < viennagrid::hole_points(cp).size(); ++k) h.push_back(mp(viennagrid::hole_points(cp)[k]));
        if (h != i->second.holes) { viol("structure", "polygon " + num(i->first) + " has " + num((sim::i64)h.size()) + " hole points, expected " + num((sim::i64)i->second.holes.size())); return; }
      }
      if (S.sg.get()) { audit_seg<0>(S); audit_seg<1>(S); audit_seg<2>(S); }
      sim::hash_add(S.mo.v.size() * 10007 + S.mo.l.size() * 101 + S.mo.p.size()); sim::count("check.structure");
      sim::state_visit(sim::hash_value());
    }
    template <int d> void audit_seg(slot & S)
    {
      ids uni; seg_t & sg = *S.sg; std::size_t n;
      if (sg.size() != S.mo.segs.size()) { viol("segments", "segmentation has " + num((sim::i64)sg.size()) + " segments"); return; }
      for (std::map<int, mseg>::iterator i = S.mo.segs.begin(); i != S.mo.segs.end(); ++i)
      {
        segment_t & g = sg.get_segment(i->first); ids got = list<d>(g, n);
        if (got != i->second.el[d] || n != got.size()) { viol("membership", "segment " + num(i->first) + " lists " + str(got) + " of dimension " + num(d) + ", expected " + str(i->second.el[d])); return; }
        ids a = S.mo.all(d);
        for (ids::iterator k = a.begin(); k != a.end(); ++k) if (viennagrid::is_in_segment(g, get<d>(S, *k)) != (i->second.el[d].count(*k) != 0)) { viol("membership", "is_in_segment is wrong for element " + num(*k) + " of dimension " + num(d)); return; }
        uni.insert(i->second.el[d].begin(), i->second.el[d].end());
      }
      ids all = list<d>(sg.all_elements(), n);
      if (all != uni) viol("membership", "segmentation-wide elements of dimension " + num(d) + " are " + str(all) + ", expected " + str(uni));
    }

    // ---------------------------------------------------------------- queries on a mesh or a segment
    template <int lo, int hi, typename H> ids real_cob(slot & S, H & h, int x, int how, std::size_t & n)
    {
      ids r; n = 0; typename E<lo>::type & e = get<lo>(S, x);
      if (how % 2)
      {
        typedef typename viennagrid::result_of::coboundary_range<H, typename T<lo>::tag, typename T<hi>::tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I;
        R a(h, viennagrid::handle(*S.m, e)); for (I it = a.begin(); it != a.end(); ++it, ++n) r.insert((int)(*it).id().get());
      }
      else
      {
        typedef typename viennagrid::result_of::const_coboundary_range<H, typename T<lo>::tag, typename T<hi>::tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I;
        H const & ch = h; mesh_t const & cm = *S.m; typename E<lo>::type const & ce = e;
        R a(ch, viennagrid::handle(cm, ce)); for (I it = a.begin(); it != a.end(); ++it, ++n) r.insert((int)(*it).id().get());
      }
      return r;
    }
    template <int d, int via, typename H> ids real_near(slot & S, H & h, int x, std::size_t & n)
    {
      typedef typename viennagrid::result_of::neighbor_range<H, typename T<d>::tag, typename T<via>::tag>::type R; typedef typename viennagrid::result_of::iterator<R>::type I;
      ids r; n = 0; R a(h, hd<d>(S, x)); for (I it = a.begin(); it != a.end(); ++it, ++n) r.insert((int)(*it).id().get());
      return r;
    }
    template <typename H> void query(sim::op const & o, slot & S, H & h, ids const vis[3], std::string const & where)
    {
      int x = 0, k = (int)(o.a[2] % 3); ids got, want; std::size_t n = 0;
      for (int attempt = 0; attempt < 2; ++attempt)
      {
        if (attempt == 0) { if (pending > 0) sim::alloc_fail_arm(pending, sticky); pending = 0; }
        try
        {
          if (o.code == Q_COBOUNDARY)
          {
            int lo = k == 2 ? 1 : 0, hi = k == 0 ? 1 : 2; if (!pick(vis[lo], o.a[3], x)) { sim::alloc_fail_disarm(); return; }
            if (k == 0) got = real_cob<0, 1>(S, h, x, (int)o.a[4], n); else if (k == 1) got = real_cob<0, 2>(S, h, x, (int)o.a[4], n); else got = real_cob<1, 2>(S, h, x, (int)o.a[4], n);
            sim::alloc_fail_disarm(); want = S.mo.above(lo, x, hi, vis[hi]);
          }
          else if (o.code == Q_NEIGHBOR)
          {
            int d = k == 0 ? 1 : 2, via = k == 2 ? 1 : 0; if (!pick(vis[d], o.a[3], x)) { sim::alloc_fail_disarm(); return; }
            if (k == 0) got = real_near<1, 0>(S, h, x, n); else if (k == 1) got = real_near<2, 0>(S, h, x, n); else got = real_near<2, 1>(S, h, x, n);
            sim::alloc_fail_disarm(); want = S.mo.near(d, x, via, vis[d]);
          }
          else
          {
            int d = k % 2; if (!pick(vis[d], o.a[3], x)) { sim::alloc_fail_disarm(); return; }
            bool b = d ? viennagrid::is_boundary(h, get<1>(S, x)) : viennagrid::is_boundary(h, get<0>(S, x)); sim::alloc_fail_disarm();
            bool w = false, odd = false; // lines with more than two polygons have no documented answer
            for (ids::const_iterator i = vis[1].begin(); i != vis[1].end(); ++i) if (S.mo.above(1, *i, 2, vis[2]).size() > 2) odd = true;
            if (odd) return;
            for (ids::const_iterator i = vis[1].begin(); i != vis[1].end(); ++i) if (S.mo.above(1, *i, 2, vis[2]).size() == 1 && (d ? *i == x : S.mo.parts(1, *i, 0).count(x) != 0)) w = true;
            if (b != w) viol("boundary", where + " is_boundary of element " + num(x) + " of dimension " + num(d) + " is " + num(b));
            sim::count("check.boundary"); return;
          }
        }
        catch (std::bad_alloc const &) { if (!sim::alloc_fail_disarm()) throw; sim::count("query.bad_alloc_retried"); continue; }
        break;
      }
      if (got != want || n != want.size()) viol(o.code == Q_NEIGHBOR ? "neighbor" : "coboundary", where + " query " + num(k) + " of element " + num(x) + " gives " + str(got) + " (" + num((sim::i64)n) + "), expected " + str(want));
      sim::count("check.query");
    }

    // ---------------------------------------------------------------- mutations
    template <typename H> int add_plc(slot & S, H & h, sim::op const & o)
    {
      sim::rng g((sim::u64)o.a[1]); model & m = S.mo; mplc p; int x; std::vector<E<1>::handle> lh; std::vector<E<0>::handle> vh; std::vector<point_t> hp;
      ids ls = m.all(1), vs = m.all(0);
      int nl = 1 + (int)g.below(6), nv = o.a[2] % 3 == 0 ? 0 : (int)g.below(3), nh = o.a[2] % 3 == 2 ? (int)g.below(4) : 0;
      if (ls.empty()) return -1;
      for (int k = 0; k < nl; ++k) { pick(ls, (sim::i64)g.below(1000), x); p.lines.insert(x); lh.push_back(hd<1>(S, x)); }
      for (int k = 0; k < nv; ++k) { pick(vs, (sim::i64)g.below(1000), x); p.verts.insert(x); vh.push_back(hd<0>(S, x)); }
      for (int k = 0; k < nh; ++k) { mpoint q((double)g.below(100), 0.25 * (double)k, 1); p.holes.push_back(q); hp.push_back(pt(q)); }
      for (ids::iterator i = p.lines.begin(); i != p.lines.end(); ++i) { ids b = m.parts(1, *i, 0); p.verts.insert(b.begin(), b.end()); }
      E<2>::handle r;
      if (o.a[2] % 3 == 0) r = viennagrid::make_plc(h, lh.begin(), lh.end());
      else if (o.a[2] % 3 == 1) r = viennagrid::make_plc(h, lh.begin(), lh.end(), vh.begin(), vh.end());
      else r = viennagrid::make_plc(h, lh.begin(), lh.end(), vh.begin(), vh.end(), hp.begin(), hp.end());
      int id = (int)viennagrid::dereference_handle(*S.m, r).id().get();
      if (m.p.count(id)) { viol("ids", "a new polygon got id " + num(id) + ", which is in use"); return -1; }
      m.p[id] = p; return id;
    }
    void seg_closure(slot & S, int seg, int d, int x)
    {
      mseg & g = S.mo.segs[seg]; g.el[d].insert(x);
      for (int q = 0; q < d; ++q) { ids b = S.mo.parts(d, x, q); g.el[q].insert(b.begin(), b.end()); }
    }
    void forget_seg(slot & S) { S.sg.reset(); S.mo.segs.clear(); }

    void apply(sim::op const & o, slot & S, int si)
    {
      model & m = S.mo; int x, y;
      switch (o.code)
      {
        case ALLOC_FAULT: pending = 1 + o.a[1] % 60; sticky = o.a[2] % 4 == 0; break;
        case ADD_VERTEX:
        {
          if (m.v.size() >= 12) break;
          ++serial; mpoint p(serial, serial * serial % 17, o.a[1] % 5);
          int id = (int)viennagrid::dereference_handle(*S.m, viennagrid::make_vertex(*S.m, pt(p))).id().get();
          if (m.v.count(id)) viol("ids", "a new vertex got id " + num(id) + ", which is in use");
          m.v[id] = p; break;
        }
        case ADD_LINE:
        {
          if (m.l.size() >= 20 || !pick(m.all(0), o.a[1], x) || !pick(m.all(0), o.a[2], y) || x == y) break;
          int known = -1; for (std::map<int, std::pair<int, int> >::iterator i = m.l.begin(); i != m.l.end(); ++i) if ((i->second.first == x && i->second.second == y) || (i->second.first == y && i->second.second == x)) known = i->first;
          E<0>::handle hx = hd<0>(S, x), hy = hd<0>(S, y);
          int id = (int)viennagrid::dereference_handle(*S.m, viennagrid::make_line(*S.m, hx, hy)).id().get();
          if (known >= 0 && id != known) viol("shared", "creating a line twice gives lines " + num(known) + " and " + num(id));
          else if (known < 0 && m.l.count(id)) viol("ids", "a new line got id " + num(id) + ", which is in use");
          if (known < 0) m.l[id] = std::make_pair(x, y);
          break;
        }
        case ADD_PLC: if (m.p.size() < 12) add_plc(S, *S.m, o); break;
        case ERASE: case ERASE_MULTI:
        {
          if (S.sg.get()) break;
          ids drop[3]; int d = (int)(o.a[1] % 3); sim::rng g((sim::u64)o.a[2]);
          typedef viennagrid::result_of::mesh_view<mesh_t>::type view_t; view_t v = viennagrid::make_view(*S.m);
          for (int k = o.code == ERASE ? 1 : 2 + (int)g.below(3); k > 0; --k)
          {
            if (o.code == ERASE_MULTI) d = (int)g.below(3);
            if (!pick(m.all(d), (sim::i64)g.below(1000), x)) break;
            drop[d].insert(x);
            if (o.code == ERASE)
            {
              if (d == 0) viennagrid::erase_element(*S.m, hd<0>(S, x)); else if (d == 1) viennagrid::erase_element(*S.m, hd<1>(S, x)); else viennagrid::erase_element(*S.m, hd<2>(S, x));
            }
            else if (d == 0) viennagrid::mark_erase_elements(*S.m, v, hd<0>(S, x)); else if (d == 1) viennagrid::mark_erase_elements(*S.m, v, hd<1>(S, x)); else viennagrid::mark_erase_elements(*S.m, v, hd<2>(S, x));
          }
          if (o.code == ERASE_MULTI) viennagrid::erase_elements(*S.m, v);
          model::spread(m, drop);
          for (ids::iterator i = drop[0].begin(); i != drop[0].end(); ++i) m.v.erase(*i);
          for (ids::iterator i = drop[1].begin(); i != drop[1].end(); ++i) m.l.erase(*i);
          for (ids::iterator i = drop[2].begin(); i != drop[2].end(); ++i) m.p.erase(*i);
          break;
        }
        case COPY_CTOR: { slot & D = s[1 - si]; if (S.broken) break; forget_seg(D); D.m.reset(new mesh_t(*S.m)); D.mo = m; D.mo.segs.clear(); D.broken = false; break; }
        case ASSIGN:
        {
          if (S.broken) break;
          if (o.a[1] % 4 == 0) { mesh_t & same = *S.m; forget_seg(S); *S.m = same; break; }
          slot & D = s[1 - si]; forget_seg(D); *D.m = *S.m; D.mo = m; D.mo.segs.clear(); D.broken = false; break;
        }
        case CLEAR: forget_seg(S); if (o.a[1] % 2) viennagrid::clear(*S.m); else S.m->clear(); m = model(); S.broken = false; break;
        case COPY_EL:
        {
          slot & D = s[1 - si]; if (S.broken || prop != "P12") break;
          typedef viennagrid::result_of::plc_range<mesh_t>::type R;
          std::auto_ptr<mesh_t> out(new mesh_t()); R r(*S.m);
          if (o.a[1] % 2) viennagrid::copy_elements(r.begin(), r.end(), *out, -1.0);
          else { std::vector<E<2>::handle> hs; ids a = m.all(2); for (ids::iterator i = a.begin(); i != a.end(); ++i) hs.push_back(hd<2>(S, *i)); viennagrid::copy_elements_by_handle(*S.m, hs.begin(), hs.end(), *out, -1.0); }
          compare_copy(S, *out); (void)D; break;
        }
        case SEG_MAKE:
        {
          if (!S.sg.get()) S.sg.reset(new seg_t(*S.m));
          if (m.segs.size() >= 4) break;
          int id = (int)S.sg->make_segment().id(); if (m.segs.count(id)) viol("segments", "a new segment got id " + num(id) + ", which is in use"); m.segs[id]; break;
        }
        case SEG_ADD:
        {
          int d = (int)(o.a[2] % 3); if (!S.sg.get() || m.segs.empty() || !pick(m.all(d), o.a[3], x)) break;
          std::map<int, mseg>::iterator i = m.segs.begin(); std::advance(i, (long)(o.a[1] % (sim::i64)m.segs.size())); segment_t & g = S.sg->get_segment(i->first);
          if (d == 0) viennagrid::add(g, get<0>(S, x)); else if (d == 1) viennagrid::add(g, get<1>(S, x)); else viennagrid::add(g, get<2>(S, x));
          seg_closure(S, i->first, d, x); break;
        }
        case SEG_NEW:
        {
          if (!S.sg.get() || m.segs.empty() || m.p.size() >= 12) break;
          std::map<int, mseg>::iterator i = m.segs.begin(); std::advance(i, (long)(o.a[3] % (sim::i64)m.segs.size()));
          int id = add_plc(S, S.sg->get_segment(i->first), o); if (id >= 0) seg_closure(S, i->first, 2, id); break;
        }
        case SEG_ERASE:
        {
          if (!S.sg.get() || m.segs.empty()) break;
          std::map<int, mseg>::iterator i = m.segs.begin(); std::advance(i, (long)(o.a[1] % (sim::i64)m.segs.size())); int d = (int)(o.a[2] % 3); if (!pick(i->second.el[d], o.a[3], x)) break;
          segment_t & g = S.sg->get_segment(i->first); ids drop[3]; drop[d].insert(x); model::spread(m, drop);
          if (d == 0) viennagrid::erase(g, get<0>(S, x)); else if (d == 1) viennagrid::erase(g, get<1>(S, x)); else viennagrid::erase(g, get<2>(S, x));
          for (int q = 0; q < 3; ++q) for (ids::iterator k = drop[q].begin(); k != drop[q].end(); ++k) i->second.el[q].erase(*k);
          break;
        }
        case SEG_CLEAR:
        {
          if (!S.sg.get()) break;
          if (o.a[2] % 2 || m.segs.empty()) { viennagrid::clear(*S.sg); m.segs.clear(); break; }
          std::map<int, mseg>::iterator i = m.segs.begin(); std::advance(i, (long)(o.a[1] % (sim::i64)m.segs.size()));
          viennagrid::clear(S.sg->get_segment(i->first)); for (int q = 0; q < 3; ++q) i->second.el[q].clear(); break;
        }
        case Q_COBOUNDARY: case Q_NEIGHBOR: case Q_BOUNDARY:
        {
          if (o.a[5] % 2 && S.sg.get() && !m.segs.empty())
          {
            std::map<int, mseg>::iterator i = m.segs.begin(); std::advance(i, (long)(o.a[1] % (sim::i64)m.segs.size()));
            segment_t & g = S.sg->get_segment(i->first); ids vis[3] = { i->second.el[0], i->second.el[1], i->second.el[2] }; query(o, S, g, vis, "segment");
          }
          else { ids vis[3] = { m.all(0), m.all(1), m.all(2) }; query(o, S, *S.m, vis, "mesh"); }
        }
      }
    }
    // every polygon with its coordinates, independent of ids
    typedef std::pair<std::vector<std::pair<mpoint, mpoint> >, std::pair<std::vector<mpoint>, std::vector<mpoint> > > shape;
    void compare_copy(slot & S, mesh_t & out)
    {
      std::vector<shape> a, b;
      for (std::map<int, mplc>::iterator i = S.mo.p.begin(); i != S.mo.p.end(); ++i)
      {
        shape q; for (ids::iterator k = i->second.lines.begin(); k != i->second.lines.end(); ++k) { std::pair<int, int> e = S.mo.l[*k]; q.first.push_back(std::make_pair(S.mo.v[e.first], S.mo.v[e.second])); }
        for (ids::iterator k = i->second.verts.begin(); k != i->second.verts.end(); ++k) q.second.first.push_back(S.mo.v[*k]);
        q.second.second = i->second.holes; norm(q); a.push_back(q);
      }
      typedef viennagrid::result_of::plc_range<mesh_t>::type R; typedef viennagrid::result_of::iterator<R>::type I; R r(out);
      for (I it = r.begin(); it != r.end(); ++it)
      {
        shape q; for (std::size_t k = 0; k < viennagrid::lines(*it).size(); ++k) { E<1>::type & l = viennagrid::lines(*it)[k]; q.first.push_back(std::make_pair(mp(viennagrid::point(viennagrid::vertices(l)[0])), mp(viennagrid::point(viennagrid::vertices(l)[1])))); }
        for (std::size_t k = 0; k < viennagrid::vertices(*it).size(); ++k) q.second.first.push_back(mp(viennagrid::point(viennagrid::vertices(*it)[k])));
        for (std::size_t k = 0; k < viennagrid::hole_points(*it).size(); ++k) q.second.second.push_back(mp(viennagrid::hole_points(*it)[k]));
        norm(q); b.push_back(q);
      }
      std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
      if (a != b) viol("copy", "copied polygons differ from the originals");
      ids ls, vs; for (std::map<int, mplc>::iterator i = S.mo.p.begin(); i != S.mo.p.end(); ++i) { ls.insert(i->second.lines.begin(), i->second.lines.end()); vs.insert(i->second.verts.begin(), i->second.verts.end()); }
      if (viennagrid::lines(out).size() != ls.size() || viennagrid::vertices(out).size() != vs.size()) viol("copy", "copied polygons have " + num((sim::i64)viennagrid::vertices(out).size()) + " vertices and " + num((sim::i64)viennagrid::lines(out).size()) + " lines, expected " + num((sim::i64)vs.size()) + " and " + num((sim::i64)ls.size()));
      sim::count("check.copy");
    }
    static void norm(shape & q)
    {
      for (std::size_t k = 0; k < q.first.size(); ++k) if (q.first[k].second < q.first[k].first) std::swap(q.first[k].first, q.first[k].second);
      std::sort(q.first.begin(), q.first.end()); std::sort(q.second.first.begin(), q.second.first.end());
    }

    static const char * name(int c)
    {
      static const char * n[] = { "?", "add_vertex", "add_line", "add_plc", "erase", "erase_multi", "copy_ctor", "assign", "clear", "copy_elements", "q_coboundary", "q_neighbor", "q_boundary", "seg_make", "seg_add", "seg_erase", "seg_clear", "seg_new", "alloc_fault" };
      return c > 0 && c < CODES ? n[c] : "?";
    }
    void step(sim::op const & o)
    {
      int si = (int)(o.a[0] % 2); slot & S = s[si];
      if (S.broken && o.code != CLEAR && o.code != ALLOC_FAULT) return;
      sim::count((std::string("op.") + name(o.code)).c_str());
      if (sim::verbose()) { std::string l = name(o.code); for (int k = 0; k < 6; ++k) l += " " + num(o.a[k]); sim::say(l); }
      bool query = o.code == Q_COBOUNDARY || o.code == Q_NEIGHBOR || o.code == Q_BOUNDARY || o.code == ALLOC_FAULT;
      if (!query && pending > 0 && prop == "P14")
      {
        slot & touched = (o.code == COPY_CTOR || (o.code == ASSIGN && o.a[1] % 4)) ? s[1 - si] : S;
        bool bad = false; sim::i64 pf = pending; pending = 0; sim::alloc_fail_arm(pf, sticky);
        try { apply(o, S, si); } catch (std::bad_alloc const &) { bad = true; }
        sim::u64 fired = sim::alloc_fail_disarm();
        if (bad && !fired) viol("alloc", "bad_alloc without an allocation failure");
        if (!bad && fired) viol("alloc", std::string("allocation failure during ") + name(o.code) + " was swallowed");
        if (bad) { touched.broken = true; sim::count("mutation.bad_alloc"); }
        if (bad || sim::violated()) return;
      }
      else { if (!query) pending = 0; apply(o, S, si); }
      if (sim::violated() || (query && o.a[4] % 4)) return;
      for (int i = 0; i < 2; ++i) if (!s[i].broken) { audit(s[i]); if (sim::violated()) return; }
    }
  };

  struct scenario : public sim::scenario
  {
    std::string prop;
    explicit scenario(std::string const & p) : prop(p) {}
    const char * op_name(int c) { return world::name(c); }
    void generate(sim::plan & p, sim::u64 seed, bool thorough)
    {
      sim::rng g(seed); unsigned w[CODES]; std::memset(w, 0, sizeof w);
      int len = (int)g.range(8, thorough ? 120 : 50);
      bool segs = prop == "P08" || prop == "P11" || ((prop == "P12" || prop == "P14") && g.chance(1, 2));
      w[ADD_VERTEX] = 5; w[ADD_LINE] = 10; w[ADD_PLC] = 8;
      if (prop != "P10" || g.chance(1, 2)) { w[ERASE] = segs ? 0 : 3; w[ERASE_MULTI] = segs || g.chance(1, 2) ? 0 : 2; }
      if (prop == "P12" || prop == "P14") { w[COPY_CTOR] = 2; w[ASSIGN] = 3; w[COPY_EL] = 2; w[CLEAR] = 1; } else if (g.chance(1, 4)) w[CLEAR] = 1;
      if (prop != "P10" && prop != "P11") { w[Q_COBOUNDARY] = g.chance(3, 4) ? 6 : 0; w[Q_NEIGHBOR] = g.chance(3, 4) ? 5 : 0; w[Q_BOUNDARY] = g.chance(3, 4) ? 5 : 0; }
      if (segs) { w[SEG_MAKE] = 4; w[SEG_ADD] = 10; w[SEG_ERASE] = g.chance(2, 3) ? 4 : 0; w[SEG_CLEAR] = g.chance(1, 2) ? 1 : 0; w[SEG_NEW] = g.chance(2, 3) ? 4 : 0; }
      bool faults = prop == "P14" || ((prop == "P07" || prop == "P08") && g.chance(1, 3)); if (faults) w[ALLOC_FAULT] = 4;
      int slots = prop == "P12" || prop == "P14" ? 2 : 1;
      unsigned tot = 0; for (int k = 0; k < CODES; ++k) tot += w[k];
      for (int k = 4 + (int)g.below(4); k > 0; --k) p.ops.push_back(sim::op(ADD_VERTEX, 0, (sim::i64)g.below(100)));
      for (int k = 4 + (int)g.below(6); k > 0; --k) p.ops.push_back(sim::op(ADD_LINE, 0, (sim::i64)g.below(1000), (sim::i64)g.below(1000)));
      for (int k = 0; k < len; ++k)
      {
        unsigned r = (unsigned)g.below(tot); int c = 0; while (r >= w[c]) { r -= w[c]; ++c; }
        sim::op o(c); o.a[0] = (sim::i64)g.below((sim::u64)slots); for (int q = 1; q < 6; ++q) o.a[q] = (sim::i64)g.below(100000);
        if (c == ALLOC_FAULT) o.a[1] = (sim::i64)g.below(g.chance(1, 2) ? 12 : 60);
        p.ops.push_back(o);
      }
    }
    void execute(sim::plan const & p)
    {
      sim::u64 before = sim::live_blocks();
      try
      {
        world w(prop);
        for (std::size_t i = 0; i < p.ops.size() && !sim::violated(); ++i) if (p.ops[i].code > 0 && p.ops[i].code < CODES) { sim::set_step_budget(400000000ULL); w.step(p.ops[i]); }
        if (prop == "P14" && !sim::violated())
          for (int i = 0; i < 2; ++i)
          {
            if (!w.s[i].broken) continue;
            w.pending = 0; w.step(sim::op(CLEAR, i)); for (int k = 0; k < 5; ++k) w.step(sim::op(ADD_VERTEX, i, k)); for (int k = 0; k < 6; ++k) w.step(sim::op(ADD_LINE, i, k, k + 1)); w.step(sim::op(ADD_PLC, i, 7, 2));
          }
      }
      catch (sim::abandon_run const &) {}
      catch (std::bad_alloc const &) { sim::alloc_fail_disarm(); sim::violation("exception", "bad_alloc outside an injected failure"); }
      catch (std::exception const & e) { sim::alloc_fail_disarm(); sim::violation("exception", std::string("unexpected exception: ") + typeid(e).name()); }
      sim::u64 after = sim::live_blocks();
      if (prop == "P14" && !sim::violated() && after != before) sim::violation("leak", num((sim::i64)(after - before)) + " heap blocks are still allocated after all meshes are destroyed");
    }
  };
}
