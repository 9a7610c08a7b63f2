// Mesh backend of the I/O harness: VTK, OpenDX, vmesh and mphtxt writers, VTK,
// Netgen and BND readers for one mesh type.
#include "io.hpp"
#include "viennagrid/forwards.hpp"
#include "viennagrid/config/default_configs.hpp"
#include "viennagrid/mesh/element_creation.hpp"
#include "viennagrid/mesh/element_deletion.hpp"
#include "viennagrid/mesh/mesh_operations.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/algorithm/geometry.hpp"
#include "viennagrid/algorithm/centroid.hpp"
#include "viennagrid/algorithm/boundary.hpp"
#include "viennagrid/accessor.hpp"
#include "viennagrid/io/vtk_reader.hpp"
#include "viennagrid/io/vtk_writer.hpp"
#include "viennagrid/io/netgen_reader.hpp"
#include "viennagrid/io/opendx_writer.hpp"
#include "viennagrid/io/vmesh_writer.hpp"
#include "viennagrid/io/mphtxt_writer.hpp"
#include "viennagrid/io/bnd_reader.hpp"

namespace io
{
  struct cfg_line1 { typedef viennagrid::line_1d_mesh mesh; enum { D = 1, GD = 1, NV = 2, CUBE = 0, VTKTYPE = 3, DX = 1 }; };
  struct cfg_line3 { typedef viennagrid::line_3d_mesh mesh; enum { D = 1, GD = 3, NV = 2, CUBE = 0, VTKTYPE = 3, DX = 0 }; };
  struct cfg_tri2  { typedef viennagrid::triangular_2d_mesh mesh; enum { D = 2, GD = 2, NV = 3, CUBE = 0, VTKTYPE = 5, DX = 1 }; };
  struct cfg_tri3  { typedef viennagrid::triangular_3d_mesh mesh; enum { D = 2, GD = 3, NV = 3, CUBE = 0, VTKTYPE = 5, DX = 0 }; };
  struct cfg_quad2 { typedef viennagrid::quadrilateral_2d_mesh mesh; enum { D = 2, GD = 2, NV = 4, CUBE = 1, VTKTYPE = 9, DX = 0 }; };
  struct cfg_tet3  { typedef viennagrid::tetrahedral_3d_mesh mesh; enum { D = 3, GD = 3, NV = 4, CUBE = 0, VTKTYPE = 10, DX = 1 }; };
  struct cfg_hex3  { typedef viennagrid::hexahedral_3d_mesh mesh; enum { D = 3, GD = 3, NV = 8, CUBE = 1, VTKTYPE = 12, DX = 0 }; };

  // ------------------------------------------------------------------ description of a mesh with data
  struct quantity
  {
    int on, comps, seg; std::string name;               // seg -1: the whole mesh
    std::vector<std::vector<double> > v;                // per point / cell of the description
  };
  struct spec
  {
    std::vector<pt> pts; std::vector<ints> cells; std::map<int, std::set<int> > segs; std::vector<quantity> q;
    bool with_segmentation;
    // how the mesh object comes about (does not show in any file)
    std::vector<ints> decoy_cells; ints decoy_after, decoy_vertex; std::vector<bool> used;
  };

  inline double draw_value(sim::rng & r, bool special)
  {
    if (special && r.chance(1, 12)) { static const char * s[] = { "nan", "inf", "-inf", "0", "-0", "1e-300", "-9.99999999999999e+299", "0.1", "123456789012345" }; return dec(s[r.below(9)]); }
    std::string m = num((i64)r.below(r.chance(1, 3) ? 1000 : 1000000000000000ULL));
    std::string t = (r.chance(1, 2) ? "-" : "") + m + "e" + num(r.range(-30, 30));
    return dec(t);
  }

  inline spec draw_spec(u64 seed, int D, int GD, bool cube, bool in_segments)
  {
    sim::rng r(seed);
    spec s;
    int n[3] = { 1, 1, 1 };
    bool big = r.chance(1, 10);
    for (int d = 0; d < D; ++d) n[d] = 1 + (int)r.below(D == 1 ? (big ? 30 : 7) : D == 2 ? (big ? 6 : 3) : (big ? 3 : 2));
    int P[3]; for (int d = 0; d < 3; ++d) P[d] = d < D ? n[d] + 1 : 1;
    // lattice points, in shuffled creation order
    int np = P[0] * P[1] * P[2];
    ints order; for (int i = 0; i < np; ++i) order.push_back(i);
    if (r.chance(1, 2)) for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
    ints where(np);
    int exp[3]; bool wide = r.chance(1, 3); for (int d = 0; d < 3; ++d) exp[d] = (int)r.range(-20, 6);
    if (r.chance(1, 2)) exp[0] = exp[1] = exp[2] = wide ? -13 : -9;
    for (std::size_t k = 0; k < order.size(); ++k)
    {
      int idx = order[k];
      int co[3] = { idx % P[0], (idx / P[0]) % P[1], idx / (P[0] * P[1]) };
      pt p;
      for (int d = 0; d < GD; ++d)
      {
        i64 unit = wide ? 10000000000000LL : 1000000000LL;
        i64 m = (d < D ? co[d] : co[0] + 3 * co[1]) * unit - 2 * unit + (r.chance(1, 3) ? 0 : (i64)r.below((u64)(unit / 3)));
        p.c[d] = dec(num(m) + "e" + num(exp[d]));
      }
      where[idx] = (int)s.pts.size();
      s.pts.push_back(p);
    }
    // cells of the lattice
    std::vector<ints> all;
    for (int z = 0; z < (D > 2 ? n[2] : 1); ++z) for (int y = 0; y < (D > 1 ? n[1] : 1); ++y) for (int x = 0; x < n[0]; ++x)
    {
      ints c;
      for (int b = 0; b < (1 << D); ++b)
      {
        int i = x + (b & 1), j = y + ((b >> 1) & 1), k = z + ((b >> 2) & 1);
        c.push_back(where[i + P[0] * (j + P[1] * k)]);
      }
      if (D == 1 || cube) all.push_back(c);
      else if (D == 2) { ints a, b; a.push_back(c[0]); a.push_back(c[1]); a.push_back(c[3]); b.push_back(c[0]); b.push_back(c[3]); b.push_back(c[2]); all.push_back(a); all.push_back(b); }
      else
      {
        static const int perm[6][3] = { {0,1,2}, {0,2,1}, {1,0,2}, {1,2,0}, {2,0,1}, {2,1,0} };
        for (int q = 0; q < 6; ++q) { ints t; int b = 0; t.push_back(c[0]); for (int k = 0; k < 3; ++k) { b |= 1 << perm[q][k]; t.push_back(c[(std::size_t)b]); } all.push_back(t); }
      }
    }
    for (std::size_t i = all.size(); i > 1; --i) std::swap(all[i - 1], all[r.below(i)]);
    if (!cube) for (std::size_t i = 0; i < all.size(); ++i) if (r.chance(1, 2)) for (std::size_t k = all[i].size(); k > 1; --k) std::swap(all[i][k - 1], all[i][r.below(k)]);
    std::size_t keep = 1 + (std::size_t)r.below(all.size() > 14 && !big ? 14 : all.size());
    if (r.chance(1, 30)) keep = 0;
    for (std::size_t i = 0; i < all.size(); ++i)
      if (i < keep) s.cells.push_back(all[i]);
      else if (s.decoy_cells.size() < 3 && r.chance(1, 3)) { s.decoy_cells.push_back(all[i]); s.decoy_after.push_back((int)r.below(keep + 1)); }
    for (std::size_t i = 0; i < s.pts.size(); ++i) if (r.chance(1, 8)) s.decoy_vertex.push_back((int)i);
    // segments
    s.with_segmentation = r.chance(5, 6);
    int ns = s.with_segmentation ? (int)r.below(5) : 0;
    for (int k = 0; k < ns; ++k)
    {
      int id = r.chance(1, 2) ? k : (int)r.below(12);
      std::set<int> & m = s.segs[id];
      unsigned den = 1 + (unsigned)r.below(4);
      bool empty = r.chance(1, 8);
      if (!empty) for (std::size_t c = 0; c < s.cells.size(); ++c) if (r.chance(1, den)) m.insert((int)c);
    }
    if (in_segments)   // every cell in exactly one segment
    {
      if (s.segs.empty()) s.segs[1];
      for (std::map<int, std::set<int> >::iterator i = s.segs.begin(); i != s.segs.end(); ++i) i->second.clear();
      for (std::size_t c = 0; c < s.cells.size(); ++c) { std::map<int, std::set<int> >::iterator i = s.segs.begin(); std::advance(i, (long)r.below(s.segs.size())); i->second.insert((int)c); }
      for (std::map<int, std::set<int> >::iterator i = s.segs.begin(); i != s.segs.end();) if (i->second.empty()) s.segs.erase(i++); else ++i;
    }
    // quantities
    static const char * names[] = { "potential", "Temperature", "a b", "x", "E-field", "normal_1", "data=3", "q/2" };
    int nq = r.chance(1, 4) ? 0 : (int)r.below(6);
    std::map<std::string, int> level;                    // kind+name -> -1 mesh level, 1 segment level
    for (int k = 0; k < nq; ++k)
    {
      quantity q;
      q.on = (int)r.below(2); q.comps = r.chance(1, 2) ? 1 : 3; q.name = names[r.below(8)]; q.seg = -1;
      if (s.segs.size() >= 2 && r.chance(1, 2)) { std::map<int, std::set<int> >::iterator i = s.segs.begin(); std::advance(i, (long)r.below(s.segs.size())); q.seg = i->first; }
      std::string key = num(q.on) + num(q.comps) + q.name;
      int lv = q.seg < 0 ? -1 : 1;
      if (level.count(key) && level[key] != lv) continue;
      bool dup = false;
      for (std::size_t i = 0; i < s.q.size(); ++i) if (s.q[i].on == q.on && s.q[i].comps == q.comps && s.q[i].name == q.name && s.q[i].seg == q.seg) dup = true;
      if (dup) continue;
      level[key] = lv;
      std::size_t cnt = q.on ? s.cells.size() : s.pts.size();
      bool flat = r.chance(1, 5);                        // vectors of plane problems: stored with less than three entries
      for (std::size_t i = 0; i < cnt; ++i) { std::vector<double> v; for (int c = 0; c < q.comps; ++c) v.push_back(c == 2 && flat ? 0.0 : draw_value(r, true)); q.v.push_back(v); }
      s.q.push_back(q);
    }
    s.used.assign(s.pts.size(), false);
    return s;
  }

  // ------------------------------------------------------------------ canonical text
  inline std::string cell_text(std::vector<std::string> pts, bool unordered)
  { if (unordered) std::sort(pts.begin(), pts.end()); std::string r; for (std::size_t i = 0; i < pts.size(); ++i) r += (i ? " " : "") + pts[i]; return r; }
  inline std::string val_text(std::vector<double> const & v) { std::string r; for (std::size_t i = 0; i < v.size(); ++i) r += " " + dstr(v[i]); return r; }

  // what the file (or file set) with the given segments holds
  inline std::string expected(spec const & s, int GD, bool all_points, std::map<int, std::set<int> > const & segs, bool quantities, bool seg_quantities, bool unordered)
  {
    facts f;
    std::vector<std::string> P; for (std::size_t i = 0; i < s.pts.size(); ++i) P.push_back(pstr(s.pts[i].c, GD));
    std::vector<std::string> C; for (std::size_t i = 0; i < s.cells.size(); ++i) { std::vector<std::string> v; for (std::size_t k = 0; k < s.cells[i].size(); ++k) v.push_back(P[(std::size_t)s.cells[i][k]]); C.push_back(cell_text(v, unordered)); }
    std::set<int> up, uc;
    for (std::map<int, std::set<int> >::const_iterator i = segs.begin(); i != segs.end(); ++i)
    {
      f.add("segment " + num(i->first));
      std::set<int> sp;
      for (std::set<int>::const_iterator c = i->second.begin(); c != i->second.end(); ++c)
      {
        uc.insert(*c); f.add("in segment " + num(i->first) + " cell " + C[(std::size_t)*c]);
        for (std::size_t k = 0; k < s.cells[(std::size_t)*c].size(); ++k) sp.insert(s.cells[(std::size_t)*c][k]);
      }
      for (std::set<int>::const_iterator p = sp.begin(); p != sp.end(); ++p) { up.insert(*p); f.add("in segment " + num(i->first) + " vertex " + P[(std::size_t)*p]); }
      if (quantities) for (std::size_t k = 0; k < s.q.size(); ++k)
      {
        quantity const & q = s.q[k];
        if (q.seg >= 0 && (!seg_quantities || q.seg != i->first)) continue;
        std::string h = "segment " + num(i->first) + (q.on ? " cell" : " vertex") + (q.comps == 1 ? " scalar " : " vector ") + "'" + q.name + "'";
        f.add("quantity " + h);
        if (q.on) for (std::set<int>::const_iterator c = i->second.begin(); c != i->second.end(); ++c) f.add("value " + h + " at " + C[(std::size_t)*c] + " =" + val_text(q.v[(std::size_t)*c]));
        else for (std::set<int>::const_iterator p = sp.begin(); p != sp.end(); ++p) f.add("value " + h + " at " + P[(std::size_t)*p] + " =" + val_text(q.v[(std::size_t)*p]));
      }
    }
    for (std::size_t i = 0; i < P.size(); ++i) if (all_points || up.count((int)i)) f.add("vertex " + P[i]);
    for (std::set<int>::iterator c = uc.begin(); c != uc.end(); ++c) f.add("cell " + C[(std::size_t)*c]);
    return f.text();
  }

  // ------------------------------------------------------------------ file generators (independent of the writers)
  inline std::string ws(sim::rng & r) { static const char * w[] = { " ", " ", "  ", "\n", " \n ", "\t" }; return w[r.below(6)]; }
  inline std::string d15(double v) { if (v != v) return "nan"; char b[64]; std::snprintf(b, sizeof b, "%.17g", v); return b; }

  inline std::string attr(sim::rng & r, std::string const & a, std::string const & b = "", std::string const & c = "")
  {
    std::vector<std::string> v; if (!a.empty()) v.push_back(a); if (!b.empty()) v.push_back(b); if (!c.empty()) v.push_back(c);
    for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
    std::string s; for (std::size_t i = 0; i < v.size(); ++i) s += " " + v[i]; return s;
  }
  inline std::string vtu_text(sim::rng & r, spec const & s, std::set<int> const & cells, int seg, int GD, int NV, bool cube, int vtktype, bool all_points, finfo & f)
  {
    ints pts; std::map<int, int> local;
    std::set<int> used; for (std::set<int>::const_iterator c = cells.begin(); c != cells.end(); ++c) for (int k = 0; k < NV; ++k) used.insert(s.cells[(std::size_t)*c][(std::size_t)k]);
    if (all_points) for (std::size_t i = 0; i < s.pts.size(); ++i) pts.push_back((int)i); else pts.assign(used.begin(), used.end());
    for (std::size_t i = pts.size(); i > 1; --i) std::swap(pts[i - 1], pts[r.below(i)]);
    for (std::size_t i = 0; i < pts.size(); ++i) local[pts[i]] = (int)i;
    ints cl(cells.begin(), cells.end());
    for (std::size_t i = cl.size(); i > 1; --i) std::swap(cl[i - 1], cl[r.below(i)]);
    std::string t = "<?xml version=\"1.0\"?>\n<VTKFile" + attr(r, "type=\"UnstructuredGrid\"", "version=\"0.1\"", "byte_order=\"LittleEndian\"") + ">\n <UnstructuredGrid>\n";
    t += "<Piece" + attr(r, "NumberOfPoints=\"" + num((i64)pts.size()) + "\"", "NumberOfCells=\"" + num((i64)cl.size()) + "\"") + ">" + ws(r);
    int pc = r.chance(3, 4) ? 3 : GD;
    t += "<Points>\n<DataArray" + attr(r, "type=\"Float32\"", "NumberOfComponents=\"" + num(pc) + "\"", "format=\"ascii\"") + ">\n";
    for (std::size_t i = 0; i < pts.size(); ++i) for (int d = 0; d < pc; ++d) t += d15(d < GD ? s.pts[(std::size_t)pts[i]].c[d] : 0) + ws(r);
    t += "</DataArray>\n</Points>\n";
    for (int on = 0; on < 2; ++on)
    {
      if (on == 1)
      {
        static const int vtk_to_lattice4[] = { 0, 1, 3, 2 }, vtk_to_lattice8[] = { 0, 1, 3, 2, 4, 5, 7, 6 };
        std::string conn, off, typ;
        conn = "<DataArray" + attr(r, "type=\"Int32\"", "Name=\"connectivity\"", "format=\"ascii\"") + ">\n";
        off = "<DataArray" + attr(r, "type=\"Int32\"", "Name=\"offsets\"", "format=\"ascii\"") + ">\n";
        typ = "<DataArray" + attr(r, "type=\"UInt8\"", "Name=\"types\"", "format=\"ascii\"") + ">\n";
        for (std::size_t i = 0; i < cl.size(); ++i)
        {
          for (int k = 0; k < NV; ++k) conn += num(local[s.cells[(std::size_t)cl[i]][(std::size_t)(cube ? (NV == 4 ? vtk_to_lattice4[k] : vtk_to_lattice8[k]) : k)]]) + ws(r);
          off += num((i64)(i + 1) * NV) + ws(r); typ += num(vtktype) + ws(r);
        }
        conn += "</DataArray>\n"; off += "</DataArray>\n"; typ += "</DataArray>\n";
        std::string a[3] = { conn, off, typ };
        for (std::size_t i = 3; i > 1; --i) std::swap(a[i - 1], a[r.below(i)]);
        t += "<Cells>\n" + a[0] + a[1] + a[2] + "</Cells>\n";
      }
      std::string d;
      for (std::size_t k = 0; k < s.q.size(); ++k)
      {
        quantity const & q = s.q[k];
        if (q.on != on || (q.seg >= 0 && q.seg != seg)) continue;
        std::string nc = q.comps == 1 && r.chance(1, 2) ? "" : "NumberOfComponents=\"" + num(q.comps) + "\"";
        d += "<DataArray" + attr(r, "type=\"Float32\"", "Name=\"" + q.name + "\"", nc) + ">\n";
        ints const & e = on ? cl : pts;
        for (std::size_t i = 0; i < e.size(); ++i) for (int c = 0; c < q.comps; ++c) d += d15(q.v[(std::size_t)e[i]][(std::size_t)c]) + ws(r);
        d += "</DataArray>\n";
      }
      if (!d.empty() || r.chance(1, 4)) t += (on ? "<CellData>\n" : "<PointData>\n") + d + (on ? "</CellData>\n" : "</PointData>\n");
    }
    t += "</Piece>\n</UnstructuredGrid>\n</VTKFile>";
    f.need = t.size();
    if (r.chance(3, 4)) t += "\n";
    f.data = t;
    return t;
  }

  inline void netgen_text(sim::rng & r, spec const & s, int GD, finfo & f)
  {
    std::string t = num((i64)s.pts.size()) + "\n";
    for (std::size_t i = 0; i < s.pts.size(); ++i) { for (int d = 0; d < GD; ++d) t += (d ? " " : "  ") + d15(s.pts[i].c[d]); t += "\n"; }
    t += num((i64)s.cells.size());
    std::size_t last = t.size() - num((i64)s.cells.size()).size();
    t += "\n";
    f.need = t.size() - 1;
    std::vector<int> seg(s.cells.size());
    for (std::map<int, std::set<int> >::const_iterator i = s.segs.begin(); i != s.segs.end(); ++i) for (std::set<int>::const_iterator c = i->second.begin(); c != i->second.end(); ++c) seg[(std::size_t)*c] = i->first;
    for (std::size_t i = 0; i < s.cells.size(); ++i)
    {
      t += " " + num(seg[i]);
      for (std::size_t k = 0; k < s.cells[i].size(); ++k) { t += " "; last = t.size(); t += num(s.cells[i][k] + 1); }
      f.need = t.size();
      t += "\n";
    }
    if (s.cells.empty() || true) f.amb.push_back(std::make_pair(last, f.need - 1));
    if (r.chance(1, 4)) t.resize(f.need);
    f.data = t;
  }

  // three dimensional boundary file: triangles grouped into regions
  inline void bnd_text(sim::rng & r, spec const & s, int dim, finfo & f, std::vector<std::string> & names, std::vector<std::string> & mats, std::vector<std::pair<std::string, std::vector<ints> > > & contacts)
  {
    std::map<std::pair<int,int>, int> eidx; std::vector<std::pair<int,int> > edges; std::vector<ints> faces;
    std::string t = "DF-ISE text\n\nInfo {\n  version = 1.1\n  type    = boundary\n  dimension   = " + num(dim) + "\n  nb_vertices = " + num((i64)s.pts.size()) + "\n";
    std::size_t nreg = s.segs.size();
    // contacts come after the regions
    int ncont = (int)r.below(3); if (s.cells.empty()) ncont = 0;
    t += "  nb_regions  = " + num((i64)nreg + ncont) + "\n}\n\nData {\n\n  CoordSystem {\n  }\n\n";
    t += "  Vertices (" + num((i64)s.pts.size()) + ") {\n";
    for (std::size_t i = 0; i < s.pts.size(); ++i) { for (int d = 0; d < dim; ++d) t += " " + d15(s.pts[i].c[d]); t += "\n"; }
    t += "  }\n\n";
    for (std::size_t i = 0; i < s.cells.size(); ++i)
    {
      ints fc;
      for (std::size_t k = 0; k < s.cells[i].size(); ++k)
      {
        if (s.cells[i].size() == 2 && k == 1) break;
        int a = s.cells[i][k], b = s.cells[i][(k + 1) % s.cells[i].size()];
        std::pair<int,int> e(a, b), x(b, a);
        if (eidx.count(e)) fc.push_back(eidx[e]);
        else if (eidx.count(x)) fc.push_back(-eidx[x] - 1);
        else if (r.chance(1, 2)) { eidx[e] = (int)edges.size(); edges.push_back(e); fc.push_back(eidx[e]); }
        else { eidx[x] = (int)edges.size(); edges.push_back(x); fc.push_back(-eidx[x] - 1); }
      }
      faces.push_back(fc);
    }
    t += "  Edges (" + num((i64)edges.size()) + ") {\n";
    for (std::size_t i = 0; i < edges.size(); ++i) t += " " + num(edges[i].first) + " " + num(edges[i].second) + "\n";
    t += "  }\n\n";
    if (dim == 3)
    {
      t += "  Faces (" + num((i64)faces.size()) + ") {\n";
      for (std::size_t i = 0; i < faces.size(); ++i) { t += " " + num((i64)faces[i].size()); for (std::size_t k = 0; k < faces[i].size(); ++k) t += " " + num(faces[i][k]); t += "\n"; }
      t += "  }\n\n";
    }
    t += "  Locations (0) {\n  }\n\n";
    std::vector<std::vector<int> > cf((std::size_t)ncont);
    int nel = (int)nreg; for (int i = 0; i < ncont; ++i) { int k = 1 + (int)r.below(2); for (int j = 0; j < k; ++j) { cf[(std::size_t)i].push_back((int)r.below(s.cells.size())); ++nel; } }
    t += "  Elements (" + num(nel) + ") {\n";
    for (std::map<int, std::set<int> >::const_iterator i = s.segs.begin(); i != s.segs.end(); ++i)
    {
      t += std::string(dim == 3 ? " 10 " : " 4 ") + num((i64)i->second.size()) + "\n ";
      for (std::set<int>::const_iterator c = i->second.begin(); c != i->second.end(); ++c) t += " " + num(dim == 3 ? (r.chance(1, 2) ? *c : -*c - 1) : faces[(std::size_t)*c][0]);
      t += "\n";
    }
    for (std::size_t i = 0; i < cf.size(); ++i) for (std::size_t j = 0; j < cf[i].size(); ++j)
    {
      if (dim == 3) { t += " 2"; for (std::size_t k = 0; k < faces[(std::size_t)cf[i][j]].size(); ++k) t += " " + num(faces[(std::size_t)cf[i][j]][k]); t += "\n"; }
      else t += " 1 " + num(s.cells[(std::size_t)cf[i][j]][0]) + " " + num(s.cells[(std::size_t)cf[i][j]][1]) + "\n";
    }
    t += "  }\n\n";
    std::size_t last = t.size();
    int el = 0;
    f.need = 0;
    for (std::size_t i = 0; i < nreg + cf.size(); ++i)
    {
      bool ct = i >= nreg;
      std::string nm = std::string(ct ? "contact_" : "region ") + num((i64)i), mat = ct ? "Contact" : r.chance(1, 2) ? "Silicon" : "Oxide";
      int k = ct ? (int)cf[i - nreg].size() : 1;
      t += "  Region (\"" + nm + "\") {\n    material = " + mat + "\n    Elements (" + num(k) + ") {\n";
      if (ct) contacts.push_back(std::make_pair(nm, std::vector<ints>())); else { names.push_back(nm); mats.push_back(mat); }
      for (int j = 0; j < k; ++j) { t += " "; last = t.size(); t += num(el); f.need = t.size(); if (ct) contacts.back().second.push_back(s.cells[(std::size_t)cf[i - nreg][(std::size_t)j]]); ++el; }
      t += "\n    }\n  }\n\n";
    }
    if (f.need) f.amb.push_back(std::make_pair(last, f.need - 1)); else f.need = last;
    t += "}\n";
    f.data = t;
  }

  // ------------------------------------------------------------------ access to meshes
  template <class CFG> struct mesh_backend : backend
  {
    typedef typename CFG::mesh mesh_t;
    enum { D = CFG::D, GD = CFG::GD, NV = CFG::NV };
    typedef typename viennagrid::result_of::segmentation<mesh_t>::type seg_t;
    typedef typename viennagrid::result_of::segment_handle<seg_t>::type sh_t;
    typedef typename viennagrid::result_of::point<mesh_t>::type point_t;
    typedef typename viennagrid::result_of::vertex<mesh_t>::type vertex_t;
    typedef typename viennagrid::result_of::cell<mesh_t>::type cell_t;
    typedef typename viennagrid::result_of::vertex_handle<mesh_t>::type vhandle_t;
    typedef typename viennagrid::result_of::cell_handle<mesh_t>::type chandle_t;
    typedef typename viennagrid::result_of::id<vertex_t>::type vid_t;
    typedef typename viennagrid::result_of::id<cell_t>::type cid_t;
    typedef viennagrid::io::vtk_reader<mesh_t> reader_t;
    typedef viennagrid::io::vtk_writer<mesh_t> writer_t;

    struct built
    {
      mesh_t m; seg_t * s; std::vector<vid_t> vid; std::vector<cid_t> cid;
      std::vector<std::deque<double> > sc; std::vector<std::deque<std::vector<double> > > ve;
      built() : s(0) {}
      ~built() { delete s; }
    private: built(built const &); built & operator=(built const &);
    };

    static point_t mkpoint(pt const & p) { point_t r; for (int d = 0; d < GD; ++d) r[(std::size_t)d] = p.c[d]; return r; }

    static void build(spec const & s, built & b)
    {
      std::vector<vid_t> junk;
      for (std::size_t i = 0; i < s.pts.size(); ++i)
      {
        if (std::find(s.decoy_vertex.begin(), s.decoy_vertex.end(), (int)i) != s.decoy_vertex.end())
        { pt p; for (int d = 0; d < GD; ++d) p.c[d] = 7e77 + 1e76 * (double)i; vhandle_t h = viennagrid::make_vertex(b.m, mkpoint(p)); if (i % 2) junk.push_back(viennagrid::dereference_handle(b.m, h).id()); }
        vhandle_t h = viennagrid::make_vertex(b.m, mkpoint(s.pts[i]));
        b.vid.push_back(viennagrid::dereference_handle(b.m, h).id());
      }
      std::vector<cid_t> junkc;
      for (std::size_t i = 0; i <= s.cells.size(); ++i)
      {
        for (std::size_t k = 0; k < s.decoy_cells.size(); ++k) if (s.decoy_after[k] == (int)i) junkc.push_back(make_cell(b, s.decoy_cells[k]));
        if (i < s.cells.size()) b.cid.push_back(make_cell(b, s.cells[i]));
      }
      for (std::size_t i = 0; i < junkc.size(); ++i) viennagrid::erase_element(b.m, viennagrid::find(b.m, junkc[i]).handle());
      for (std::size_t i = 0; i < junk.size(); ++i) viennagrid::erase_element(b.m, viennagrid::find(b.m, junk[i]).handle());
      b.s = new seg_t(b.m);
      for (std::map<int, std::set<int> >::const_iterator i = s.segs.begin(); i != s.segs.end(); ++i)
      {
        sh_t & sg = b.s->get_make_segment(i->first);
        for (std::set<int>::const_iterator c = i->second.begin(); c != i->second.end(); ++c) viennagrid::add(sg, *viennagrid::find(b.m, b.cid[(std::size_t)*c]));
      }
      b.sc.resize(s.q.size()); b.ve.resize(s.q.size());
      for (std::size_t k = 0; k < s.q.size(); ++k)
      {
        quantity const & q = s.q[k];
        for (std::size_t i = 0; i < q.v.size(); ++i)
        {
          std::size_t id = (std::size_t)(q.on ? b.cid[i].get() : b.vid[i].get());
          if (q.comps == 1) { if (b.sc[k].size() <= id) b.sc[k].resize(id + 1); b.sc[k][id] = q.v[i][0]; }
          else { if (b.ve[k].size() <= id) b.ve[k].resize(id + 1, std::vector<double>(3)); b.ve[k][id] = q.v[i]; if (dstr(q.v[i][2]) == "0") b.ve[k][id].pop_back(); }
        }
        // elements outside the description still have a value
        if (q.comps == 3) b.ve[k].resize(b.ve[k].size() + 60, std::vector<double>(3)); else b.sc[k].resize(b.sc[k].size() + 60);
      }
    }
    static cid_t make_cell(built & b, ints const & c)
    {
      std::vector<vhandle_t> h;
      for (std::size_t k = 0; k < c.size(); ++k) h.push_back(viennagrid::find(b.m, b.vid[(std::size_t)c[k]]).handle());
      chandle_t ch = viennagrid::make_cell(b.m, h.begin(), h.end());
      return viennagrid::dereference_handle(b.m, ch).id();
    }

    // ---------------------------------------------------------------- writing
    writer_t * W; viennagrid::io::vmesh_writer<mesh_t> * VM;
    template <int dx, int dummy> struct dxw { typedef viennagrid::io::opendx_writer<mesh_t> type; };
    template <int dummy> struct dxw<0, dummy> { struct type { void operator()(mesh_t const &, std::string const &) {} template <class A> void add_scalar_data_on_vertices(A const, std::string) {} template <class A> void add_scalar_data_on_cells(A const, std::string) {} }; };
    typedef typename dxw<CFG::DX, 0>::type dxwriter_t;
    dxwriter_t * DX;
    template <int is3, int dummy> struct mph { static void write(mesh_t const & m, seg_t const & s, std::string const & f) { viennagrid::io::mphtxt_writer w; w(m, s, f); } };
    template <int dummy> struct mph<0, dummy> { static void write(mesh_t const &, seg_t const &, std::string const &) {} };
    enum { TET = D == 3 && !CFG::CUBE };

    mesh_backend() : W(0), VM(0), DX(0), R(0), M(0), S(0), BH(0) {}
    ~mesh_backend() { forget(); }
    void forget()
    {
      delete W; W = 0; delete VM; VM = 0; delete DX; DX = 0;
      delete R; R = 0; delete S; S = 0; delete M; M = 0; delete BH; BH = 0;
    }
    std::vector<int> writers()
    { std::vector<int> r; r.push_back(W_VTK); r.push_back(W_VMESH); if (CFG::DX) r.push_back(W_OPENDX); if (TET) r.push_back(W_MPHTXT); return r; }
    std::vector<int> formats()
    {
      std::vector<int> r; r.push_back(VTU); r.push_back(PVD); r.push_back(VTUGEN); r.push_back(PVDGEN); r.push_back(NETGEN);
      if (D == 2 && GD == 3) { r.push_back(BND); r.push_back(BND); r.push_back(BNDHELP); }
      if (D == 1) r.push_back(BNDHELP);
      return r;
    }

    spec wspec(int w, u64 seed) { return draw_spec(seed, D, GD, CFG::CUBE, false); }

    // registers the quantities of the description with a VTK writer
    static void enlist(writer_t & w, spec const & s, built & b)
    {
      for (std::size_t k = 0; k < s.q.size(); ++k)
      {
        quantity const & q = s.q[k];
        if (q.on == 0 && q.comps == 1) { if (q.seg < 0) w.add_scalar_data_on_vertices(viennagrid::make_field<vertex_t>(b.sc[k]), q.name); else if (k % 2) w.add_scalar_data_on_vertices(q.seg, viennagrid::make_field<vertex_t>(b.sc[k]), q.name); else w.add_scalar_data_on_vertices((*b.s)[q.seg], viennagrid::make_field<vertex_t>(b.sc[k]), q.name); }
        if (q.on == 0 && q.comps == 3) { if (q.seg < 0) w.add_vector_data_on_vertices(viennagrid::make_field<vertex_t>(b.ve[k]), q.name); else if (k % 2) w.add_vector_data_on_vertices(q.seg, viennagrid::make_field<vertex_t>(b.ve[k]), q.name); else w.add_vector_data_on_vertices((*b.s)[q.seg], viennagrid::make_field<vertex_t>(b.ve[k]), q.name); }
        if (q.on == 1 && q.comps == 1) { if (q.seg < 0) w.add_scalar_data_on_cells(viennagrid::make_field<cell_t>(b.sc[k]), q.name); else if (k % 2) w.add_scalar_data_on_cells(q.seg, viennagrid::make_field<cell_t>(b.sc[k]), q.name); else w.add_scalar_data_on_cells((*b.s)[q.seg], viennagrid::make_field<cell_t>(b.sc[k]), q.name); }
        if (q.on == 1 && q.comps == 3) { if (q.seg < 0) w.add_vector_data_on_cells(viennagrid::make_field<cell_t>(b.ve[k]), q.name); else if (k % 2) w.add_vector_data_on_cells(q.seg, viennagrid::make_field<cell_t>(b.ve[k]), q.name); else w.add_vector_data_on_cells((*b.s)[q.seg], viennagrid::make_field<cell_t>(b.ve[k]), q.name); }
      }
    }

    static bool dxq(quantity const & q) { return q.comps == 1 && q.seg < 0; }

    outcome write(int w, u64 seed, std::string const & base, bool reuse)
    {
      outcome o;
      // the mesh is built before any fault applies
      sim::alloc_pause(true);
      spec s = wspec(w, seed);
      built b;
      build(s, b);
      sim::alloc_pause(false);
      try
      {
        if (w == W_VTK)
        {
          writer_t * x = reuse ? (W ? W : W = new writer_t) : new writer_t;
          holder<writer_t> h(reuse ? 0 : x);
          try { enlist(*x, s, b); }
          catch (...) { if (reuse) { delete W; W = 0; } throw; }   // what was registered so far refers to this mesh
          if (s.with_segmentation) (*x)(b.m, *b.s, base); else (*x)(b.m, base);
        }
        else if (w == W_VMESH)
        {
          typedef viennagrid::io::vmesh_writer<mesh_t> vm;
          vm * x = reuse ? (VM ? VM : VM = new vm) : new vm;
          holder<vm> h(reuse ? 0 : x);
          (*x)(b.m, *b.s, "in put.mesh", base + (seed % 2 ? ".vmesh" : ""));
        }
        else if (w == W_OPENDX)
        {
          // registered data stays registered, so only a writer without data is used again for another mesh
          bool data = false; for (std::size_t k = 0; k < s.q.size(); ++k) data = data || dxq(s.q[k]);
          if (data) reuse = false;
          dxwriter_t * x = reuse ? (DX ? DX : DX = new dxwriter_t) : new dxwriter_t;
          holder<dxwriter_t> h(reuse ? 0 : x);
          for (std::size_t k = 0; k < s.q.size(); ++k) if (dxq(s.q[k]))
          { if (s.q[k].on) x->add_scalar_data_on_cells(viennagrid::make_field<cell_t>(b.sc[k]), s.q[k].name); else x->add_scalar_data_on_vertices(viennagrid::make_field<vertex_t>(b.sc[k]), s.q[k].name); }
          (*x)(b.m, base);
        }
        else mph<TET, 0>::write(b.m, *b.s, base + (seed % 2 ? ".mphtxt" : ""));
        o.ok = true;
      }
      catch (std::exception const & e) { sim::alloc_fail_stop(); o.what = e.what(); }
      catch (...) { sim::alloc_fail_stop(); o.alien = true; o.what = "unknown exception"; }
      sim::alloc_fail_stop();
      return o;
    }
    template <class T> struct holder { T * p; holder(T * q) : p(q) {} ~holder() { delete p; } };

    // ---------------------------------------------------------------- contents of the other export formats
    struct tokens
    {
      std::vector<std::string> t; std::size_t i; bool bad;
      tokens(std::string const & d, bool comments) : i(0), bad(false)
      {
        std::istringstream ls(d); std::string line, w;
        while (std::getline(ls, line)) { if (comments) { std::size_t h = line.find('#'); if (h != std::string::npos) line.resize(h); } std::istringstream ws(line); while (ws >> w) t.push_back(w); }
      }
      std::string next() { if (i >= t.size()) { bad = true; return ""; } return t[i++]; }
      i64 integer() { std::string w = next(); char * e = 0; i64 v = std::strtoll(w.c_str(), &e, 10); if (w.empty() || *e) bad = true; return v; }
      bool skip(const char * list) { std::istringstream ws(list); std::string w; while (ws >> w) if (next() != w) bad = true; return !bad; }
    };
    static std::string digits(double v, int n) { char b[64]; std::snprintf(b, sizeof b, "%.*g", n, v == 0 ? 0.0 : v); return b; }
    static std::string ptext(double const * c, int n) { std::string r; for (int d = 0; d < GD; ++d) r += (d ? "," : "") + digits(c[d], n); return r; }

    std::string check_export(int w, u64 seed, std::string const & base)
    {
      spec s = wspec(w, seed);
      std::string path = base + (w == W_VMESH ? ".vmesh" : w == W_MPHTXT ? ".mphtxt" : "");
      std::string data; if (!sim::disk_get(path, data)) return "no file " + path;
      // vertices that are in the mesh without being part of the description
      std::vector<pt> pts = s.pts;
      for (std::size_t k = 0; k < s.decoy_vertex.size(); ++k) if (s.decoy_vertex[k] % 2 == 0) { pt p; for (int d = 0; d < GD; ++d) p.c[d] = 7e77 + 1e76 * (double)s.decoy_vertex[k]; pts.push_back(p); }
      if (w == W_VMESH)
      {
        std::string flat; for (std::size_t i = 0; i < data.size(); ++i) if (!std::isspace((unsigned char)data[i]) || data[i] == ' ') flat += data[i];
        std::string x; for (std::size_t i = 0; i < flat.size(); ++i) { if (flat[i] == ' ' && (x.empty() || x[x.size() - 1] == '>' || x[x.size() - 1] == ' ')) continue; x += flat[i]; }
        std::string want = "<mesh><file>in put.mesh</file><geomdim>" + num(GD) + "</geomdim><celltype>";
        if (x.compare(0, want.size(), want)) return "header differs: " + x.substr(0, 80);
        std::size_t e = x.find("</celltype>"); if (e == std::string::npos) return "no cell type";
        x = x.substr(e);
        want = "</celltype><vertices>" + num((i64)pts.size()) + "</vertices><cells>" + num((i64)s.cells.size()) + "</cells><segments>" + num((i64)s.segs.size()) + "</segments><segmentation>";
        for (std::map<int, std::set<int> >::iterator i = s.segs.begin(); i != s.segs.end(); ++i)
        {
          std::set<int> v; for (std::set<int>::iterator c = i->second.begin(); c != i->second.end(); ++c) v.insert(s.cells[(std::size_t)*c].begin(), s.cells[(std::size_t)*c].end());
          want += "<segment><id>" + num(i->first) + "</id><name></name><vertices>" + num((i64)v.size()) + "</vertices><cells>" + num((i64)i->second.size()) + "</cells></segment>";
        }
        want += "</segmentation></mesh>";
        return x == want ? "" : "contents differ: " + x + " instead of " + want;
      }
      int prec = w == W_OPENDX ? 6 : 15;
      std::multiset<std::string> wp, wc, gp, gc;
      std::vector<std::string> PT; for (std::size_t i = 0; i < pts.size(); ++i) { PT.push_back(ptext(pts[i].c, prec)); wp.insert(PT.back()); }
      std::vector<std::string> CT; for (std::size_t i = 0; i < s.cells.size(); ++i) { std::vector<std::string> v; for (std::size_t k = 0; k < s.cells[i].size(); ++k) v.push_back(PT[(std::size_t)s.cells[i][k]]); CT.push_back(cell_text(v, false)); wc.insert(CT.back()); }
      if (w == W_OPENDX)
      {
        tokens t(data, false);
        t.skip("object \"points\" class array type float rank 1 shape"); if (t.integer() != GD) return "wrong dimension"; t.skip("items");
        i64 np = t.integer(); t.skip("data follows"); if (t.bad) return "malformed header";
        std::vector<std::string> P; for (i64 i = 0; i < np && !t.bad; ++i) { double c[3]; for (int d = 0; d < GD; ++d) c[d] = dec(t.next()); P.push_back(ptext(c, prec)); gp.insert(P.back()); }
        if (gp != wp) return "the points differ";
        t.skip("object \"grid_Line_One\" class array type int rank 1 shape"); if (t.integer() != NV) return "wrong number of vertices per cell"; t.skip("items");
        i64 nc = t.integer(); t.skip("data follows"); if (t.bad) return "malformed cell header";
        std::vector<std::string> C;
        for (i64 i = 0; i < nc && !t.bad; ++i) { std::vector<std::string> v; for (int k = 0; k < NV; ++k) { i64 x = t.integer(); if (x < 0 || x >= np) return "a cell refers to point " + num(x) + " of " + num(np); v.push_back(P[(std::size_t)x]); } C.push_back(cell_text(v, false)); gc.insert(C.back()); }
        if (gc != wc) return "the cells differ";
        t.skip("attribute \"element type\" string"); if (t.next() != (D == 1 ? "\"line\"" : D == 2 ? "\"triangles\"" : "\"tetrahedra\"")) return "wrong element type";
        t.skip("attribute \"ref\" string \"positions\""); if (t.bad) return "malformed after the cells";
        int on = -1; std::string name; std::size_t qi = 0;
        for (int o = 0; o < 2 && on < 0; ++o) for (std::size_t k = 0; k < s.q.size(); ++k) if (dxq(s.q[k]) && s.q[k].on == o && (on < 0 || s.q[k].name < name)) { on = o; name = s.q[k].name; qi = k; }
        if (on >= 0)
        {
          t.skip("object \"VisData\" class array items"); if (t.integer() != (on ? nc : np)) return "wrong number of values"; t.skip("data follows"); if (t.bad) return "malformed data header";
          std::multimap<std::string, double> val;
          for (std::size_t i = 0; i < (on ? s.cells.size() : pts.size()); ++i) val.insert(std::make_pair(on ? CT[i] : PT[i], i < s.q[qi].v.size() ? s.q[qi].v[i][0] : 0.0));
          for (i64 i = 0; i < (on ? nc : np); ++i)
          {
            std::string tok = t.next(); double g = dec(tok); bool found = false;
            std::pair<std::multimap<std::string, double>::iterator, std::multimap<std::string, double>::iterator> e = val.equal_range(on ? C[(std::size_t)i] : P[(std::size_t)i]);
            for (std::multimap<std::string, double>::iterator k = e.first; k != e.second; ++k)
            {
              double v = k->second, df = v - g;
              if ((v != v && g != g) || v == g || (df < 2.1e-5 && df > -2.1e-5) || (v != 0 && df / v < 1e-12 && df / v > -1e-12)) { val.erase(k); found = true; break; }
            }
            if (!found) return "the value " + tok + " does not belong to this element";
          }
          t.skip("attribute \"dep\" string"); if (t.next() != (on ? "\"connections\"" : "\"positions\"")) return "values depend on the wrong elements";
        }
        t.skip("object \"AttPotential\" class field component \"data\" \"VisData\" component \"positions\" \"points\" component \"connections\" \"grid_Line_One\"");
        return t.bad || t.i != t.t.size() ? "malformed end" : "";
      }
      // Comsol
      tokens t(data, true);
      t.skip("0 1 1 15 viennagrid_mesh 1 3 obj 0 0 1 4 Mesh 2"); if (t.integer() != GD || t.bad) return "malformed header";
      i64 np = t.integer(); t.skip("0"); if (t.bad) return "malformed point header";
      std::vector<std::string> P; for (i64 i = 0; i < np && !t.bad; ++i) { double c[3]; for (int d = 0; d < GD; ++d) c[d] = dec(t.next()); P.push_back(ptext(c, prec)); gp.insert(P.back()); }
      if (gp != wp) return "the points differ";
      // triangles on the hull of a segment
      std::map<std::string, std::multiset<int> > hull;
      for (std::map<int, std::set<int> >::iterator i = s.segs.begin(); i != s.segs.end(); ++i)
      {
        std::map<std::string, int> n;
        for (std::set<int>::iterator c = i->second.begin(); c != i->second.end(); ++c) for (int k = 0; k < NV; ++k)
        { std::vector<std::string> v; for (int j = 0; j < NV; ++j) if (j != k) v.push_back(PT[(std::size_t)s.cells[(std::size_t)*c][(std::size_t)j]]); n[cell_text(v, true)]++; }
        for (std::map<std::string, int>::iterator k = n.begin(); k != n.end(); ++k) if (k->second == 1) hull[k->first].insert(i->first + 1);
      }
      bool overlap = false; { std::set<int> seen; for (std::map<int, std::set<int> >::iterator i = s.segs.begin(); i != s.segs.end(); ++i) for (std::set<int>::iterator c = i->second.begin(); c != i->second.end(); ++c) if (!seen.insert(*c).second) overlap = true; }
      t.skip("2 3 tri 3"); i64 nt = t.integer(); if (t.bad) return "malformed triangle header";
      if (nt != (i64)hull.size()) return num(nt) + " triangles instead of " + num((i64)hull.size());
      std::vector<std::string> T; std::set<std::string> seen;
      for (i64 i = 0; i < nt && !t.bad; ++i) { std::vector<std::string> v; for (int k = 0; k < 3; ++k) { i64 x = t.integer(); if (x < 0 || x >= np) return "a triangle refers to point " + num(x); v.push_back(P[(std::size_t)x]); } T.push_back(cell_text(v, true)); if (!hull.count(T.back())) return "a triangle is on no segment hull"; if (!seen.insert(T.back()).second) return "a triangle is listed twice"; }
      t.skip("3 0"); if (t.integer() != nt) return "wrong number of contact indices";
      for (i64 i = 0; i < nt; ++i) { i64 x = t.integer(); if (x < 0 || x >= nt) return "contact index " + num(x); }
      if (t.integer() != nt) return "wrong number of orientations";
      for (i64 i = 0; i < nt; ++i)
      {
        i64 a = t.integer(), b = t.integer(); std::multiset<int> g; if (a) g.insert((int)a); if (b) g.insert((int)b);
        if (!overlap && g != hull[T[(std::size_t)i]]) return "a triangle has the wrong segments on its sides";
      }
      t.skip("3 tet 4"); i64 nc = t.integer(); if (t.bad) return "malformed tetrahedron header";
      std::vector<std::string> C;
      for (i64 i = 0; i < nc && !t.bad; ++i) { std::vector<std::string> v; for (int k = 0; k < 4; ++k) { i64 x = t.integer(); if (x < 0 || x >= np) return "a tetrahedron refers to point " + num(x); v.push_back(P[(std::size_t)x]); } C.push_back(cell_text(v, false)); gc.insert(C.back()); }
      if (gc != wc) return "the tetrahedra differ";
      t.skip("4 0"); if (t.integer() != nc) return "wrong number of segment indices";
      for (i64 i = 0; i < nc; ++i)
      {
        i64 x = t.integer(); std::set<i64> ok;
        for (std::map<int, std::set<int> >::iterator k = s.segs.begin(); k != s.segs.end(); ++k) for (std::set<int>::iterator c = k->second.begin(); c != k->second.end(); ++c) if (CT[(std::size_t)*c] == C[(std::size_t)i]) ok.insert(k->first + 1);
        if (ok.empty()) ok.insert(0);
        if (!ok.count(x)) return "a tetrahedron has the segment index " + num(x);
      }
      t.skip("0");
      return t.bad || t.i != t.t.size() ? "malformed end" : "";
    }

    void describe(int, u64 seed, std::string const & base, fileset & fs)
    {
      spec s = wspec(W_VTK, seed);
      describe_written(s, base, fs);
    }
    void describe_written(spec const & s, std::string const & base, fileset & fs)
    {
      std::map<int, std::set<int> > segs = s.segs;
      bool multi = s.with_segmentation && s.segs.size() > 1;
      fs.fmt = multi ? PVD : VTU;
      finfo f;
      if (!multi)
      {
        segs.clear(); std::set<int> & all = segs[0]; for (std::size_t i = 0; i < s.cells.size(); ++i) all.insert((int)i);
        fs.main = base + ".vtu"; f.path = fs.main; fs.files.push_back(f);
      }
      else
      {
        fs.main = base + "_main.pvd"; f.path = fs.main; fs.files.push_back(f);
        for (std::map<int, std::set<int> >::const_iterator i = segs.begin(); i != segs.end(); ++i) { f.path = base + "_" + num(i->first) + ".vtu"; fs.files.push_back(f); }
      }
      for (std::size_t k = 0; k < s.q.size(); ++k) { qkey q; q.on = s.q[k].on; q.comps = s.q[k].comps; q.name = s.q[k].name; q.seg = s.q[k].seg; fs.q.push_back(q); }
      fs.want = expected(s, GD, false, segs, true, multi, false);
    }

    // ---------------------------------------------------------------- making files
    void make(int fmt, u64 seed, std::string const & base, fileset & fs)
    {
      sim::rng r(sim::mix(seed) ^ 77);
      fs.fmt = fmt;
      if (fmt == VTU || fmt == PVD)
      {
        u64 sd = seed; spec s;
        for (int t = 0; t < 40; ++t) { s = wspec(W_VTK, sd); bool multi = s.with_segmentation && s.segs.size() > 1; if (multi == (fmt == PVD)) break; sd = sim::mix(sd); }
        describe_written(s, base, fs);
        image before = snapshot();
        outcome o = write(W_VTK, sd, base, false);
        if (!o.ok) { sim::violation("write-failed", "vtk writer failed on a healthy disk: " + o.what); }
        for (std::size_t i = 0; i < fs.files.size(); ++i)
        {
          sim::disk_get(fs.files[i].path, fs.files[i].data);
          fs.files[i].need = fs.files[i].data.rfind('>') + 1;
        }
        restore(before);
      }
      else if (fmt == VTUGEN || fmt == PVDGEN)
      {
        spec s = draw_spec(seed, D, GD, CFG::CUBE, false);
        bool multi = fmt == PVDGEN;
        bool allp = r.chance(1, 3);
        std::map<int, std::set<int> > segs = s.segs;
        if (!multi || segs.empty()) { segs.clear(); std::set<int> & all = segs[multi ? 4 : 0]; for (std::size_t i = 0; i < s.cells.size(); ++i) all.insert((int)i); }
        bool segq = multi && s.segs.size() == segs.size() && !s.segs.empty();
        if (!segq) for (std::size_t k = s.q.size(); k-- > 0;) if (s.q[k].seg >= 0) s.q.erase(s.q.begin() + (long)k);
        fs.main = base + (multi ? "_all.pvd" : ".vtu");
        std::string pvd = "<?xml version=\"1.0\"?>\n<VTKFile" + attr(r, "type=\"Collection\"", "version=\"0.1\"") + ">\n<Collection>\n";
        std::vector<finfo> sub;
        for (std::map<int, std::set<int> >::iterator i = segs.begin(); i != segs.end(); ++i)
        {
          finfo f; std::string nm = "part" + num(i->first) + ".vtu";
          f.path = multi ? base + nm : fs.main;
          vtu_text(r, s, i->second, i->first, GD, NV, CFG::CUBE, CFG::VTKTYPE, allp, f);
          std::string rel = f.path.substr(5);
          pvd += "<DataSet" + attr(r, "part=\"" + num(i->first) + "\"", "file=\"" + rel + "\"", "name=\"Segment_" + num(i->first) + "\"") + "/>\n";
          sub.push_back(f);
        }
        pvd += "</Collection>\n</VTKFile>";
        if (multi) { finfo f; f.path = fs.main; f.data = pvd + "\n"; f.need = pvd.size(); fs.files.push_back(f); }
        fs.files.insert(fs.files.end(), sub.begin(), sub.end());
        for (std::size_t k = 0; k < s.q.size(); ++k) { qkey q; q.on = s.q[k].on; q.comps = s.q[k].comps; q.name = s.q[k].name; q.seg = s.q[k].seg; fs.q.push_back(q); }
        fs.want = expected(s, GD, allp && !segs.empty(), segs, true, segq, false);
      }
      else if (fmt == NETGEN)
      {
        spec s = draw_spec(seed, D, GD, CFG::CUBE, true);
        finfo f; f.path = fs.main = base + ".mesh";
        netgen_text(r, s, GD, f);
        fs.files.push_back(f);
        fs.want = expected(s, GD, true, s.segs, false, false, false);
      }
      else
      {
        spec s = draw_spec(seed, D, D == 1 ? 2 : 3, false, r.chance(1, 2));
        if (s.segs.empty()) { s.segs[0].insert(0); }
        // regions are numbered from zero in the order of their elements
        std::map<int, std::set<int> > rn; int k = 0;
        for (std::map<int, std::set<int> >::iterator i = s.segs.begin(); i != s.segs.end(); ++i) { std::set<int> m; for (std::set<int>::iterator c = i->second.begin(); c != i->second.end(); ++c) if (*c < (int)s.cells.size()) m.insert(*c); rn[k++] = m; }
        s.segs = rn;
        finfo f; f.path = fs.main = base + ".bnd";
        std::vector<std::string> names, mats; std::vector<std::pair<std::string, std::vector<ints> > > contacts;
        int dim = D == 1 ? 2 : 3;
        bnd_text(r, s, dim, f, names, mats, contacts);
        fs.files.push_back(f);
        if (fmt == BND) fs.want = expected(s, GD, false, s.segs, false, false, true);
        else
        {
          facts x;
          x.add("dimension " + num(dim));
          for (std::size_t i = 0; i < s.pts.size(); ++i) x.add("point " + num((i64)i) + " " + pstr(s.pts[i].c, dim));
          for (std::size_t i = 0; i < rn.size(); ++i)
          {
            x.add("segment " + num((i64)i) + " name " + names[i] + " material " + mats[i] + " polygons " + num((i64)rn[(int)i].size()));
            for (std::set<int>::iterator c = rn[(int)i].begin(); c != rn[(int)i].end(); ++c) { ints p = s.cells[(std::size_t)*c]; std::sort(p.begin(), p.end()); std::string t; for (std::size_t q = 0; q < p.size(); ++q) t += " " + num(p[q]); x.add("segment " + num((i64)i) + " polygon" + t); }
          }
          for (std::size_t i = 0; i < contacts.size(); ++i)
          {
            x.add("contact " + num((i64)i) + " " + contacts[i].first);
            for (std::size_t j = 0; j < contacts[i].second.size(); ++j) { ints p = contacts[i].second[j]; std::sort(p.begin(), p.end()); std::string t; for (std::size_t q = 0; q < p.size(); ++q) t += " " + num(p[q]); x.add("contact " + num((i64)i) + " face" + t); }
          }
          fs.want = x.text();
        }
      }
    }

    // ---------------------------------------------------------------- reading
    reader_t * R; mesh_t * M; seg_t * S; viennagrid::io::bnd_helper * BH;

    struct targets   // quantities registered by the caller
    {
      std::map<std::string, std::deque<double> > sc; std::map<std::string, std::deque<std::vector<double> > > ve;
    };
    static std::string tkey(int on, int comps, std::string const & n, int seg) { return num(on) + num(comps) + num(seg) + n; }

    template <int d> static std::string etext(typename viennagrid::result_of::element<mesh_t, typename viennagrid::result_of::cell_tag<mesh_t>::type>::type const & c, bool unordered)
    {
      typedef typename viennagrid::result_of::const_vertex_range<cell_t>::type VR;
      typedef typename viennagrid::result_of::iterator<VR>::type VI;
      std::vector<std::string> v; VR vr(c);
      for (VI i = vr.begin(); i != vr.end(); ++i) v.push_back(vtext(*i));
      return cell_text(v, unordered);
    }
    static std::string vtext(vertex_t const & v)
    { double c[3] = { 0, 0, 0 }; for (int d = 0; d < GD; ++d) c[d] = viennagrid::point(v)[(std::size_t)d]; return pstr(c, GD); }

    template <class FIELD, class E> static std::string fval1(FIELD const & f, E const & e) { return " " + dstr(f(e)); }
    template <class FIELD, class E> static std::string fval3(FIELD const & f, E const & e) { return val_text(f(e)); }

    static void collect(mesh_t & m, seg_t & s, bool unordered, reader_t const * rd, targets const & t, u64 reg, fileset const & fs, facts & f)
    {
      typedef typename viennagrid::result_of::const_vertex_range<mesh_t>::type VR; typedef typename viennagrid::result_of::iterator<VR>::type VI;
      typedef typename viennagrid::result_of::const_cell_range<mesh_t>::type CR; typedef typename viennagrid::result_of::iterator<CR>::type CI;
      mesh_t const & cm = m;
      VR vr(cm); for (VI i = vr.begin(); i != vr.end(); ++i) f.add("vertex " + vtext(*i));
      CR cr(cm); for (CI i = cr.begin(); i != cr.end(); ++i) f.add("cell " + etext<0>(*i, unordered));
      for (typename seg_t::iterator g = s.begin(); g != s.end(); ++g)
      {
        typedef typename viennagrid::result_of::const_vertex_range<sh_t>::type SVR; typedef typename viennagrid::result_of::iterator<SVR>::type SVI;
        typedef typename viennagrid::result_of::const_cell_range<sh_t>::type SCR; typedef typename viennagrid::result_of::iterator<SCR>::type SCI;
        sh_t const & sg = *g;
        int id = (int)sg.id();
        f.add("segment " + num(id));
        SVR sv(sg); SCR sc(sg);
        for (SVI i = sv.begin(); i != sv.end(); ++i) f.add("in segment " + num(id) + " vertex " + vtext(*i));
        for (SCI i = sc.begin(); i != sc.end(); ++i) f.add("in segment " + num(id) + " cell " + etext<0>(*i, unordered));
        if (!rd) continue;
        for (int on = 0; on < 2; ++on) for (int comps = 1; comps < 4; comps += 2)
        {
          std::vector<std::string> names = on ? (comps == 1 ? rd->scalar_cell_data_names(sg.id()) : rd->vector_cell_data_names(sg.id())) : (comps == 1 ? rd->scalar_vertex_data_names(sg.id()) : rd->vector_vertex_data_names(sg.id()));
          std::vector<std::pair<std::size_t, std::string> > const & all = on ? (comps == 1 ? rd->get_scalar_data_on_cells() : rd->get_vector_data_on_cells()) : (comps == 1 ? rd->get_scalar_data_on_vertices() : rd->get_vector_data_on_vertices());
          std::vector<std::string> names2;
          for (std::size_t i = 0; i < all.size(); ++i) if ((int)all[i].first == id) names2.push_back(all[i].second);
          if (names != names2) f.add("the two lists of quantity names differ for segment " + num(id));
          for (std::size_t k = 0; k < names.size(); ++k)
          {
            std::string const & n = names[k];
            std::string h = "segment " + num(id) + (on ? " cell" : " vertex") + (comps == 1 ? " scalar " : " vector ") + "'" + n + "'";
            f.add("quantity " + h);
            // where are the values?
            std::string key = tkey(on, comps, n, -1);
            if (!t.sc.count(key) && !t.ve.count(key)) key = tkey(on, comps, n, id);
            bool registered = t.sc.count(key) || t.ve.count(key);
            if (comps == 1)
            {
              if (on == 0)
              {
                typename viennagrid::result_of::field<const std::deque<double>, vertex_t>::type fd = rd->vertex_scalar_field(n, sg.id());
                if (registered) { if (fd.is_valid()) f.add("reader keeps a registered quantity " + h); std::deque<double> const & dq = t.sc.find(key)->second; fd = viennagrid::make_field<vertex_t>(dq); }
                if (fd.is_valid()) for (SVI i = sv.begin(); i != sv.end(); ++i) f.add("value " + h + " at " + vtext(*i) + " =" + fval1(fd, *i));
              }
              else
              {
                typename viennagrid::result_of::field<const std::deque<double>, cell_t>::type fd = rd->cell_scalar_field(n, sg.id());
                if (registered) { if (fd.is_valid()) f.add("reader keeps a registered quantity " + h); std::deque<double> const & dq = t.sc.find(key)->second; fd = viennagrid::make_field<cell_t>(dq); }
                if (fd.is_valid()) for (SCI i = sc.begin(); i != sc.end(); ++i) f.add("value " + h + " at " + etext<0>(*i, unordered) + " =" + fval1(fd, *i));
              }
            }
            else
            {
              if (on == 0)
              {
                typename viennagrid::result_of::field<const std::deque<std::vector<double> >, vertex_t>::type fd = rd->vertex_vector_field(n, sg.id());
                if (registered) { if (fd.is_valid()) f.add("reader keeps a registered quantity " + h); std::deque<std::vector<double> > const & dq = t.ve.find(key)->second; fd = viennagrid::make_field<vertex_t>(dq); }
                if (fd.is_valid()) for (SVI i = sv.begin(); i != sv.end(); ++i) f.add("value " + h + " at " + vtext(*i) + " =" + fval3(fd, *i));
              }
              else
              {
                typename viennagrid::result_of::field<const std::deque<std::vector<double> >, cell_t>::type fd = rd->cell_vector_field(n, sg.id());
                if (registered) { if (fd.is_valid()) f.add("reader keeps a registered quantity " + h); std::deque<std::vector<double> > const & dq = t.ve.find(key)->second; fd = viennagrid::make_field<cell_t>(dq); }
                if (fd.is_valid()) for (SCI i = sc.begin(); i != sc.end(); ++i) f.add("value " + h + " at " + etext<0>(*i, unordered) + " =" + fval3(fd, *i));
              }
            }
          }
        }
      }
    }

    static void enlist(reader_t & rd, fileset const & fs, u64 reg, targets & t)
    {
      for (std::size_t k = 0; k < fs.q.size(); ++k)
      {
        if (!((reg >> (k % 16)) & 1)) continue;
        qkey const & q = fs.q[k];
        std::string key = tkey(q.on, q.comps, q.name, q.seg);
        if (q.comps == 1)
        {
          std::deque<double> & d = t.sc[key];
          if (q.on == 0) { if (q.seg < 0) rd.register_vertex_scalar(viennagrid::make_field<vertex_t>(d), q.name); else rd.register_vertex_scalar(q.seg, viennagrid::make_field<vertex_t>(d), q.name); }
          else { if (q.seg < 0) rd.register_cell_scalar(viennagrid::make_field<cell_t>(d), q.name); else rd.register_cell_scalar(q.seg, viennagrid::make_field<cell_t>(d), q.name); }
        }
        else
        {
          std::deque<std::vector<double> > & d = t.ve[key];
          if (q.on == 0) { if (q.seg < 0) rd.register_vertex_vector(viennagrid::make_field<vertex_t>(d), q.name); else rd.register_vertex_vector(q.seg, viennagrid::make_field<vertex_t>(d), q.name); }
          else { if (q.seg < 0) rd.register_cell_vector(viennagrid::make_field<cell_t>(d), q.name); else rd.register_cell_vector(q.seg, viennagrid::make_field<cell_t>(d), q.name); }
        }
      }
    }

    template <int ok, int dummy> struct bndr { static void read(mesh_t & m, seg_t & s, std::string const & f) { viennagrid::io::bnd_reader r; r(m, s, f); } };
    template <int dummy> struct bndr<0, dummy> { static void read(mesh_t &, seg_t &, std::string const &) {} };

    outcome read(fileset const & fs, bool rr, bool rm, u64 reg)
    {
      outcome o;
      facts f;
      if (fs.fmt == BNDHELP) return read_helper(fs, rr);
      holder<mesh_t> hm(0); holder<seg_t> hs(0); holder<reader_t> hr(0);
      mesh_t * m; seg_t * s; reader_t * rd = 0;
      sim::alloc_pause(true);
      if (rm)
      {
        if (!M) M = new mesh_t; if (!S) S = new seg_t(*M);
        m = M; s = S; s->clear(); m->clear();
      }
      else { m = hm.p = new mesh_t; s = hs.p = new seg_t(*m); }
      bool vtk = fs.fmt <= PVDGEN;
      if (vtk) { if (rr) rd = R ? R : R = new reader_t; else rd = hr.p = new reader_t; }
      targets t;
      sim::alloc_pause(false);
      try
      {
        if (vtk)
        {
          try { enlist(*rd, fs, reg, t); }
          catch (...) { if (rr) { delete R; R = 0; rd = 0; } throw; }   // what was registered so far refers to t
          (*rd)(*m, *s, fs.main);
        }
        else if (fs.fmt == NETGEN) { viennagrid::io::netgen_reader x; x(*m, *s, fs.main); }
        else bndr<D == 2 && GD == 3, 0>::read(*m, *s, fs.main);
        o.ok = true;
      }
      catch (std::exception const & e) { sim::alloc_fail_stop(); o.what = e.what(); }
      catch (...) { sim::alloc_fail_stop(); o.alien = true; o.what = "unknown exception"; }
      sim::alloc_fail_stop();
      // whatever happened, mesh and segments can be looked at
      collect(*m, *s, fs.fmt == BND, vtk ? rd : 0, t, reg, fs, f);
      if (o.ok) o.got = f.text();
      return o;
    }
    outcome read_helper(fileset const & fs, bool rr)
    {
      typedef viennagrid::io::bnd_helper bh;
      outcome o; facts x;
      holder<bh> h(0);
      sim::alloc_pause(true);
      bh * b = rr ? (BH ? BH : BH = new bh) : (h.p = new bh);
      sim::alloc_pause(false);
      try { o.ok = (*b)(fs.main) == EXIT_SUCCESS; }
      catch (std::exception const & e) { sim::alloc_fail_stop(); o.what = e.what(); }
      catch (...) { sim::alloc_fail_stop(); o.alien = true; }
      sim::alloc_fail_stop();
      if (!o.ok) return o;
      std::size_t dim = b->dim_geom();
      x.add("dimension " + num((i64)dim));
      for (std::size_t i = 0; i < b->geometry_size(); ++i) { double c[3] = { 0, 0, 0 }; for (std::size_t d = 0; d < dim && d < 3; ++d) c[d] = b->point(i)[d]; x.add("point " + num((i64)i) + " " + pstr(c, (int)dim)); }
      for (std::size_t i = 0; i < b->segment_size(); ++i)
      {
        bh::polygon_container_type & p = b->segment(i);
        x.add("segment " + num((i64)i) + " name " + b->segment_name(i) + " material " + b->segment_material(i) + " polygons " + num((i64)p.size()));
        for (std::size_t k = 0; k < p.size(); ++k) { bh::polygon_type v = p[k]; std::sort(v.begin(), v.end()); std::string t; for (std::size_t q = 0; q < v.size(); ++q) t += " " + num(v[q]); x.add("segment " + num((i64)i) + " polygon" + t); }
      }
      for (std::size_t i = 0; i < b->contact_size(); ++i)
      {
        x.add("contact " + num((i64)i) + " " + b->contact_name(i));
        bh::contact_face_container_type p = b->contact_faces(i);
        for (std::size_t k = 0; k < p.size(); ++k) { bh::contact_face_type v = p[k]; std::sort(v.begin(), v.end()); std::string t; for (std::size_t q = 0; q < v.size(); ++q) t += " " + num(v[q]); x.add("contact " + num((i64)i) + " face" + t); }
      }
      o.got = x.text();
      return o;
    }
  };
}
