// VTK round trip vocabulary: abstract description of a mesh with segments and
// data (the model), an independent parser of the written files, and observers
// of what the library delivers after reading.
#ifndef VERIF_VTK_HPP
#define VERIF_VTK_HPP
#include "vg.hpp"
#include "viennagrid/io/vtk_writer.hpp"
#include "viennagrid/io/vtk_reader.hpp"
#include <fstream>
#include <dirent.h>
#include <sys/stat.h>

#ifndef KIND
#define KIND 1
#endif
#if KIND == 0
typedef vg::line_2d_mesh Mesh; typedef vg::line_tag CT; static const int VTKTYPE = 3;
#elif KIND == 1
typedef vg::triangular_2d_mesh Mesh; typedef vg::triangle_tag CT; static const int VTKTYPE = 5;
#elif KIND == 2
typedef vg::triangular_3d_mesh Mesh; typedef vg::triangle_tag CT; static const int VTKTYPE = 5;
#elif KIND == 3
typedef vg::quadrilateral_2d_mesh Mesh; typedef vg::quadrilateral_tag CT; static const int VTKTYPE = 9;
#elif KIND == 4
typedef vg::tetrahedral_3d_mesh Mesh; typedef vg::tetrahedron_tag CT; static const int VTKTYPE = 10;
#elif KIND == 5
typedef vg::hexahedral_3d_mesh Mesh; typedef vg::hexahedron_tag CT; static const int VTKTYPE = 12;
#elif KIND == 6
typedef vg::line_1d_mesh Mesh; typedef vg::line_tag CT; static const int VTKTYPE = 3;
#elif KIND == 7
typedef vg::line_3d_mesh Mesh; typedef vg::line_tag CT; static const int VTKTYPE = 3;
#else
typedef vg::quadrilateral_3d_mesh Mesh; typedef vg::quadrilateral_tag CT; static const int VTKTYPE = 9;
#endif
typedef Shape<CT> SH;
static const int DIM = vg::result_of::geometric_dimension<Mesh>::value;
typedef vg::result_of::segmentation<Mesh>::type Segm;
typedef vg::result_of::vertex<Mesh>::type Vertex;
typedef vg::result_of::cell<Mesh>::type Cell;
typedef vg::result_of::vertex_handle<Mesh>::type VH;
typedef vg::result_of::cell_handle<Mesh>::type CH;
typedef std::vector<double> VD;

// VTK cell corner k is reference corner vtkorder()[k] (file-formats.pdf, fig. 2)
inline VI vtkorder()
{
  if (SH::nv == 4 && SH::dim == 2) return tup("0,1,3,2")[0];
  if (SH::nv == 8) return tup("0,1,3,2,4,5,7,6")[0];
  VI r; for (int i = 0; i < SH::nv; ++i) r.push_back(i); return r;
}

inline bool same(double a, double b) { return a == b || std::fabs(a-b) <= 1e-14 * std::max(std::fabs(a), std::fabs(b)); }
inline bool same(VD const & a, VD const & b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }

// ---- model
struct Model
{
  std::vector<VD> pos;              // pool of vertices (3 coordinates each)
  VI vid;                           // id of pool vertex i (-1: automatic)
  VVI cells;                        // corner tuples
  VI segids;                        // segments (none: mesh only)
  VVI member;                       // member[s]: cells of segment s, in the order they are added
  int data;                         // bit per data kind, see below
  double base;                      // shifts the data values
  int style;                        // names of the data
  Model() : data(255), base(0), style(0) {}
  // data kinds: 0 vertex scalar, 1 vertex vector, 2 cell scalar, 3 cell vector; +4: registered per segment; +8, +16: further sets of the same
  int sets() const { return data >> 16 ? 3 : data >> 8 ? 2 : 1; }
  std::string name(int k) const
  {
    static const char * nm[] = { "vs", "vv", "cs", "cv", "ps_vs", "ps_vv", "ps_cs", "ps_cv" }; int set = k >> 3; k &= 7;
    if (style == 0) { static const char * suf[] = { "", "_a", "0" }; return std::string(nm[k]) + suf[set]; }                       // prefixes of each other
    if (style == 1) { static const char * q[] = { "Zeta", "alpha", "M" }; return std::string(q[set]) + (k & 1 ? "-v" : "") + (k & 4 ? ".1" : ""); }   // vertices and cells share the name
    static const char * q[] = { "b c", "Name", "x=1/type" }; return std::string(k & 4 ? "in " : "") + q[set] + " " + nm[k & 3];
  }
  double vs(int v, int part) const { return base + 1./3 + v * 1.25 + part * 100; }
  VD vv(int v, int part) const { VD r; r.push_back(base + 1./3 + v + part * 7); r.push_back(-2.5 * v - part); r.push_back(1e-7 * (v + 1) + base); return r; }
  double cs(int c, int part) const { return base - 3.75 * c - 1./7 + part * 1000; }
  VD cv(int c, int part) const { VD r; r.push_back(c + 0.25 + part); r.push_back(base + 1e10 * c); r.push_back(-1./7 - c - part * 3); return r; }
  bool has(int k) const { return (data >> k) & 1; }
};

inline int identify(std::vector<VD> const & pos, VD const & p)
{ for (size_t i = 0; i < pos.size(); ++i) { bool e = true; for (int d = 0; d < DIM; ++d) if (!same(pos[i][d], p[d])) e = false; if (e) return (int)i; } return -1; }

// ---- scratch directory
inline std::string & scratch() { static std::string s; return s; }
inline void wipe()
{
  if (scratch().empty()) return;
  if (DIR * d = opendir(scratch().c_str()))
  { while (dirent * e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") unlink((scratch() + "/" + n).c_str()); } closedir(d); }
  rmdir(scratch().c_str());
}
inline void mkscratch()
{
  const char * b = getenv("MC_SCRATCH"); std::string t = std::string(b ? b : "/tmp") + "/vgmcXXXXXX";
  std::vector<char> c(t.begin(), t.end()); c.push_back(0);
  if (!mkdtemp(&c[0])) { perror("mkdtemp"); exit(5); }
  scratch() = &c[0]; atexit(wipe);
}
inline std::string slurp(std::string const & f) { std::ifstream i(f.c_str(), std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
inline bool exists(std::string const & f) { struct stat st; return stat(f.c_str(), &st) == 0; }

// ---- independent parser of a .vtu file
struct Array { std::string name; int comp; std::vector<double> v; std::string section; };
struct Vtu { bool ok; std::string err; long np, nc; std::vector<Array> arrays; Vtu() : ok(false), np(-1), nc(-1) {} 
  Array const * find(std::string const & sec, std::string const & n) const { for (size_t i = 0; i < arrays.size(); ++i) if (arrays[i].section == sec && arrays[i].name == n) return &arrays[i]; return 0; } };
inline std::string attr(std::string const & tag, std::string const & a)
{ size_t p = tag.find(" " + a + "=\""); if (p == std::string::npos) return ""; p += a.size() + 3; return tag.substr(p, tag.find('"', p) - p); }
inline Vtu parse_vtu(std::string const & t)
{
  Vtu r; std::vector<std::string> stack; size_t p = 0;
  while ((p = t.find('<', p)) != std::string::npos)
  {
    size_t e = t.find('>', p); if (e == std::string::npos) { r.err = "open tag"; return r; }
    std::string tag = t.substr(p+1, e-p-1), name = tag.substr(0, tag.find_first_of(" \n")); p = e + 1;
    if (tag[0] == '?') continue;
    if (tag[0] == '/') { if (stack.empty() || "/" + stack.back() != name) { r.err = "unbalanced " + name; return r; } stack.pop_back(); continue; }
    if (name == "Piece") { r.np = atol(attr(tag, "NumberOfPoints").c_str()); r.nc = atol(attr(tag, "NumberOfCells").c_str()); }
    if (name == "DataArray")
    {
      Array a; a.name = attr(tag, "Name"); a.comp = attr(tag, "NumberOfComponents").empty() ? 1 : atoi(attr(tag, "NumberOfComponents").c_str());
      a.section = stack.empty() ? "" : stack.back();
      size_t q = t.find('<', p); if (q == std::string::npos) { r.err = "array not closed"; return r; }
      std::stringstream s(t.substr(p, q-p)); std::string w;
      while (s >> w) { char * x; a.v.push_back(strtod(w.c_str(), &x)); if (*x) { r.err = "not a number: " + w; return r; } }
      r.arrays.push_back(a);
    }
    if (tag[tag.size()-1] != '/') stack.push_back(name);
  }
  if (!stack.empty()) { r.err = "not closed: " + stack.back(); return r; }
  r.ok = true; return r;
}

// ---- library objects of a model
struct Built
{
  Mesh mesh; Segm seg; std::vector<VH> vh; std::vector<CH> ch;
  VI vidx, cidx;                                  // id -> index
  std::vector<VD> vs_, cs_; std::vector<std::vector<VD> > vv_, cv_;   // data containers per part (0: global, 1+s: segment s)
  Built(Model const & m) : seg(mesh)
  {
    for (size_t i = 0; i < m.pos.size(); ++i)
    {
      vg::result_of::point<Mesh>::type p = mkpoint<Mesh>(m.pos[i][0], m.pos[i][1], m.pos[i][2]);
      if (m.vid.empty() || m.vid[i] < 0) vh.push_back(vg::make_vertex(mesh, p));
      else vh.push_back(vg::make_vertex_with_id(mesh, Vertex::id_type(m.vid[i]), p));
    }
    for (size_t s = 0; s < m.segids.size(); ++s) seg.get_make_segment(m.segids[s]);
    ch.resize(m.cells.size()); std::vector<bool> made(m.cells.size(), false);
    for (size_t s = 0; s < m.member.size(); ++s)
      for (size_t k = 0; k < m.member[s].size(); ++k)
      {
        int c = m.member[s][k];
        if (!made[c]) { std::vector<VH> h = corners(m, c); ch[c] = vg::make_element<CT>(seg[m.segids[s]], h.begin(), h.end()); made[c] = true; }
        else vg::add(seg[m.segids[s]], vg::dereference_handle(mesh, ch[c]));
        mc::transition();
      }
    for (size_t c = 0; c < m.cells.size(); ++c) if (!made[c]) { std::vector<VH> h = corners(m, (int)c); ch[c] = vg::make_element<CT>(mesh, h.begin(), h.end()); mc::transition(); }
    int nparts = (1 + (int)m.segids.size()) * m.sets();
    vs_.resize(nparts); cs_.resize(nparts); vv_.resize(nparts); cv_.resize(nparts);
    for (int p = 0; p < nparts; ++p)
    {
      for (size_t i = 0; i < vh.size(); ++i)
      { size_t id = vg::dereference_handle(mesh, vh[i]).id().get(); if (vs_[p].size() <= id) { vs_[p].resize(id+1, -99); vv_[p].resize(id+1, VD(3,-99)); } vs_[p][id] = m.vs((int)i, p); vv_[p][id] = m.vv((int)i, p); }
      for (size_t i = 0; i < ch.size(); ++i)
      { size_t id = vg::dereference_handle(mesh, ch[i]).id().get(); if (cs_[p].size() <= id) { cs_[p].resize(id+1, -99); cv_[p].resize(id+1, VD(3,-99)); } cs_[p][id] = m.cs((int)i, p); cv_[p][id] = m.cv((int)i, p); }
    }
  }
  std::vector<VH> corners(Model const & m, int c) { std::vector<VH> h; for (int k = 0; k < SH::nv; ++k) h.push_back(vh[m.cells[c][k]]); return h; }
  template<class W> void attach(W & w, Model const & m)
  {
    int np = 1 + (int)m.segids.size();
    for (int t = 0; t < m.sets(); ++t) { int o = t * np, k = 8 * t;
    if (m.has(k)) w.add_scalar_data_on_vertices(vg::make_field<Vertex>(vs_[o]), m.name(k));
    if (m.has(k+1)) w.add_vector_data_on_vertices(vg::make_field<Vertex>(vv_[o]), m.name(k+1));
    if (m.has(k+2)) w.add_scalar_data_on_cells(vg::make_field<Cell>(cs_[o]), m.name(k+2));
    if (m.has(k+3)) w.add_vector_data_on_cells(vg::make_field<Cell>(cv_[o]), m.name(k+3));
    for (size_t s = 0; s < m.segids.size(); ++s)
    {
      if (m.has(k+4)) w.add_scalar_data_on_vertices(seg[m.segids[s]], vg::make_field<Vertex>(vs_[o+1+s]), m.name(k+4));
      if (m.has(k+5)) w.add_vector_data_on_vertices(seg[m.segids[s]], vg::make_field<Vertex>(vv_[o+1+s]), m.name(k+5));
      if (m.has(k+6)) w.add_scalar_data_on_cells(seg[m.segids[s]], vg::make_field<Cell>(cs_[o+1+s]), m.name(k+6));
      if (m.has(k+7)) w.add_vector_data_on_cells(seg[m.segids[s]], vg::make_field<Cell>(cv_[o+1+s]), m.name(k+7));
    } }
  }
};
typedef vg::io::vtk_writer<Mesh> Writer;
typedef vg::io::vtk_reader<Mesh> Reader;

// the parts (files) of a model: (segment id, index of the data part, cells)
struct Part { int segid, data; SI cells; };
inline std::vector<Part> parts(Model const & m)
{
  std::vector<Part> r;
  if (m.segids.size() <= 1) { Part p; p.segid = 0; p.data = 0; for (size_t c = 0; c < m.cells.size(); ++c) p.cells.insert((int)c); r.push_back(p); return r; }
  for (size_t s = 0; s < m.segids.size(); ++s) { Part p; p.segid = m.segids[s]; p.data = 1 + (int)s; p.cells = SI(m.member[s].begin(), m.member[s].end()); r.push_back(p); }
  return r;
}
inline SI used(Model const & m, SI const & cells) { SI r; for (SI::const_iterator c = cells.begin(); c != cells.end(); ++c) r.insert(m.cells[*c].begin(), m.cells[*c].end()); return r; }

// ---- checks of written files and of what reading delivers
static std::string path(std::string const & n) { return scratch() + "/" + n; }

// checks one written file against the model
static void check_file(Model const & m, Part const & p, std::string const & text)
{
  Vtu v = parse_vtu(text);
  if (!MCHECK(v.ok, "vtk-file-syntax", v.err)) return;
  SI uv = used(m, p.cells);
  Array const * pts = v.find("Points", ""), * con = v.find("Cells", "connectivity"), * off = v.find("Cells", "offsets"), * typ = v.find("Cells", "types");
  if (!MCHECK(pts && con && off && typ, "vtk-file-arrays", "a mandatory array is missing")) return;
  MCHECK(v.np == (long)uv.size() && pts->comp == 3 && pts->v.size() == 3 * uv.size(), "vtk-file-points", mc::str(v.np) + " points for " + mc::str(uv.size()) + " vertices");
  MCHECK(v.nc == (long)p.cells.size() && con->v.size() == SH::nv * p.cells.size() && off->v.size() == p.cells.size() && typ->v.size() == p.cells.size(), "vtk-file-cells", mc::str(v.nc) + " cells for " + mc::str(p.cells.size()));
  VI pid; SI seen;
  for (size_t i = 0; i + 2 < pts->v.size(); i += 3)
  { VD q(pts->v.begin() + i, pts->v.begin() + i + 3); int k = identify(m.pos, q); pid.push_back(k); seen.insert(k);
    for (int d = DIM; d < 3; ++d) MCHECK(q[d] == 0, "vtk-file-points", "padding"); }
  if (!MCHECK(seen == uv && pid.size() == uv.size(), "vtk-file-points", "vertices " + show(seen) + " instead of " + show(uv))) return;
  VI ord = vtkorder(), cid; SI cseen;
  for (size_t c = 0; c < off->v.size() && (c + 1) * SH::nv <= con->v.size(); ++c)
  {
    MCHECK(off->v[c] == (double)((c + 1) * SH::nv), "vtk-file-offsets", mc::seq(off->v));
    MCHECK(typ->v[c] == VTKTYPE, "vtk-file-types", mc::seq(typ->v));
    VI t(SH::nv, -1);
    for (int k = 0; k < SH::nv; ++k) { double x = con->v[c * SH::nv + k]; if (x >= 0 && x < (double)pid.size()) t[ord[k]] = pid[(int)x]; }
    int f = -1; for (SI::const_iterator i = p.cells.begin(); i != p.cells.end(); ++i) if (m.cells[*i] == t) f = *i;
    MCHECK(f >= 0, "vtk-file-connectivity", "cell " + show(t) + " is not a cell of the part");
    cid.push_back(f); cseen.insert(f);
  }
  if (!MCHECK(cseen == p.cells, "vtk-file-connectivity", "cells " + show(cseen) + " instead of " + show(p.cells))) return;
  int expected = 0;
  for (int k = 0; k < 8 * m.sets(); ++k)
  {
    if (!m.has(k) || ((k & 4) && m.segids.size() <= 1)) continue;
    ++expected; std::string nm = m.name(k);
    bool cell = (k & 2) != 0, vec = (k & 1) != 0; int part = (k & 4 ? p.data : 0) + (k >> 3) * (1 + (int)m.segids.size());
    Array const * a = v.find(cell ? "CellData" : "PointData", nm);
    if (!MCHECK(a != 0, "vtk-file-data", std::string("no array ") + nm)) continue;
    VI const & ids = cell ? cid : pid;
    if (!MCHECK(a->comp == (vec ? 3 : 1) && a->v.size() == (size_t)a->comp * ids.size(), "vtk-file-data", std::string("size of ") + nm)) continue;
    for (size_t i = 0; i < ids.size(); ++i)
    {
      VD got(a->v.begin() + i * a->comp, a->v.begin() + (i+1) * a->comp);
      VD want = vec ? (cell ? m.cv(ids[i], part) : m.vv(ids[i], part)) : VD(1, cell ? m.cs(ids[i], part) : m.vs(ids[i], part));
      MCHECK(same(got, want), "vtk-file-data", std::string(nm) + " of " + mc::str(ids[i]) + ": " + mc::seq(got) + " instead of " + mc::seq(want));
    }
  }
  int n = 0; for (size_t i = 0; i < v.arrays.size(); ++i) if (v.arrays[i].section == "PointData" || v.arrays[i].section == "CellData") ++n;
  MCHECK(n == expected, "vtk-file-data", mc::str(n) + " data arrays, " + mc::str(expected) + " attached");
}

static std::string write(Writer & w, Model const & m, std::string const & name, bool with_seg)
{
  Built b(m); b.attach(w, m);
  if (with_seg) w(b.mesh, b.seg, path(name)); else w(b.mesh, path(name));
  mc::transition();
  std::vector<Part> ps = parts(m);
  if (m.segids.size() <= 1) { check_file(m, ps[0], slurp(path(name) + ".vtu")); return path(name) + ".vtu"; }
  std::string pvd = slurp(path(name) + "_main.pvd");
  for (size_t i = 0; i < ps.size(); ++i)
  {
    std::string f = name + "_" + mc::str(ps[i].segid) + ".vtu";
    MCHECK(pvd.find("file=\"" + f + "\"") != std::string::npos, "vtk-file-pvd", "no entry for " + f);
    check_file(m, ps[i], slurp(path(f)));
  }
  return path(name) + "_main.pvd";
}

template<class F> static VD value(F const & f, Vertex const & e) { return VD(1, f(e)); }
template<class T, class F> static bool expect(F const & f, T const & e, VD const & want, std::string const & what)
{ double g = f(e); VD got(1, g); return MCHECK(same(got, want), "vtk-read-data", what + ": " + mc::seq(got) + " instead of " + mc::seq(want)); }
template<class T, class F> static bool expectv(F const & f, T const & e, VD const & want, std::string const & what)
{ VD got = f(e); return MCHECK(same(got, want), "vtk-read-data", what + ": " + mc::seq(got) + " instead of " + mc::seq(want)); }

static bool hasname(std::vector<std::string> const & v, std::string const & n) { return std::count(v.begin(), v.end(), n) == 1; }

// mode 0: nothing registered, 1: all quantities registered for the whole mesh,
// 2: registered per segment; 3: as 0 through the overload without segmentation
static void read(Reader & r, Model const & m, std::string const & file, int mode)
{
  Mesh mesh; Segm seg(mesh);
  std::vector<Part> ps = parts(m);
  bool multi = m.segids.size() > 1;
  int np1 = 1 + (int)m.segids.size(), np = np1 * m.sets();
  std::vector<VD> vs(np), cs(np); std::vector<std::vector<VD> > vv(np), cv(np);
  for (int i = 0; i < np; ++i) { vs[i].resize(64, -77); cs[i].resize(64, -77); vv[i].resize(64); cv[i].resize(64); }
  for (int t = 0; t < m.sets(); ++t) { int o = t * np1, k = 8 * t;
  if (mode == 1)
  {
    r.register_vertex_scalar(vg::make_field<Vertex>(vs[o]), m.name(k)); r.register_vertex_vector(vg::make_field<Vertex>(vv[o]), m.name(k+1));
    r.register_cell_scalar(vg::make_field<Cell>(cs[o]), m.name(k+2)); r.register_cell_vector(vg::make_field<Cell>(cv[o]), m.name(k+3));
  }
  if (mode >= 1 && multi) for (size_t s = 0; s < m.segids.size(); ++s)
  {
    int id = m.segids[s];
    r.register_vertex_scalar(id, vg::make_field<Vertex>(vs[o+1+s]), m.name(k+4)); r.register_vertex_vector(id, vg::make_field<Vertex>(vv[o+1+s]), m.name(k+5));
    r.register_cell_scalar(id, vg::make_field<Cell>(cs[o+1+s]), m.name(k+6)); r.register_cell_vector(id, vg::make_field<Cell>(cv[o+1+s]), m.name(k+7));
  } }
  if (mode == 3) r(mesh, file); else r(mesh, seg, file);
  mc::transition();

  // vertices
  SI all; for (size_t i = 0; i < ps.size(); ++i) all.insert(ps[i].cells.begin(), ps[i].cells.end());
  SI uv = used(m, all);
  std::map<int,int> vi; SI got;
  typedef vg::result_of::const_vertex_range<Mesh>::type VR; VR vr(mesh);
  for (vg::result_of::iterator<VR>::type i = vr.begin(); i != vr.end(); ++i)
  { VD p(3, 0.); for (int d = 0; d < DIM; ++d) p[d] = vg::point(mesh, *i)[d]; int k = identify(m.pos, p); vi[(int)i->id().get()] = k; got.insert(k); }
  if (!MCHECK(got == uv && vr.size() == uv.size(), "vtk-read-vertices", show(got) + " instead of " + show(uv))) return;
  // cells
  std::map<int,int> ci; SI cgot;
  typedef vg::result_of::const_cell_range<Mesh>::type CR; CR cr(mesh);
  for (vg::result_of::iterator<CR>::type i = cr.begin(); i != cr.end(); ++i)
  {
    VI t = vids(*i), q; for (size_t k = 0; k < t.size(); ++k) q.push_back(vi[t[k]]);
    int f = -1; for (SI::const_iterator c = all.begin(); c != all.end(); ++c) if (m.cells[*c] == q) f = *c;
    MCHECK(f >= 0, "vtk-read-cells", "cell " + show(q) + " was not written");
    ci[(int)i->id().get()] = f; cgot.insert(f);
  }
  if (!MCHECK(cgot == all && cr.size() == all.size(), "vtk-read-cells", show(cgot) + " instead of " + show(all))) return;
  if (mode == 3) return;
  // segments
  SI sid, want; for (Segm::const_iterator s = seg.begin(); s != seg.end(); ++s) sid.insert((int)s->id());
  for (size_t i = 0; i < ps.size(); ++i) want.insert(ps[i].segid);
  if (!MCHECK(sid == want, "vtk-read-segments", show(sid) + " instead of " + show(want))) return;
  for (size_t i = 0; i < ps.size(); ++i)
  {
    Segm::segment_handle_type & s = seg[ps[i].segid];
    SI sc, sv; VI a = all_ids<CT>(s), b = all_ids<vg::vertex_tag>(s);
    for (size_t k = 0; k < a.size(); ++k) sc.insert(ci[a[k]]);
    for (size_t k = 0; k < b.size(); ++k) sv.insert(vi[b[k]]);
    MCHECK(sc == ps[i].cells && a.size() == sc.size(), "vtk-read-segments", "segment " + mc::str(ps[i].segid) + " has cells " + show(sc) + " instead of " + show(ps[i].cells));
    MCHECK(sv == used(m, ps[i].cells), "vtk-read-segments", "segment " + mc::str(ps[i].segid) + " has vertices " + show(sv));
    // data
    int id = ps[i].segid;
    for (int k = 0; k < 8 * m.sets(); ++k)
    {
      bool on = m.has(k) && (!(k & 4) || multi);
      std::string nm = m.name(k);
      bool cell = (k & 2) != 0, vec = (k & 1) != 0; int part = (k & 4 ? ps[i].data : 0) + (k >> 3) * np1;
      std::vector<std::string> names = cell ? (vec ? r.vector_cell_data_names(id) : r.scalar_cell_data_names(id)) : (vec ? r.vector_vertex_data_names(id) : r.scalar_vertex_data_names(id));
      MCHECK(hasname(names, nm) == on, "vtk-read-names", std::string(nm) + " in segment " + mc::str(id));
      std::vector<std::pair<std::size_t, std::string> > const & gl = cell ? (vec ? r.get_vector_data_on_cells() : r.get_scalar_data_on_cells()) : (vec ? r.get_vector_data_on_vertices() : r.get_scalar_data_on_vertices());
      MCHECK((std::count(gl.begin(), gl.end(), std::make_pair((std::size_t)id, std::string(nm))) == 1) == on, "vtk-read-names", std::string(nm) + " in the list of all data");
      if (!on) continue;
      bool registered = mode == 1 || (mode == 2 && (k & 4));
      std::string w = std::string(nm) + " in segment " + mc::str(id) + " of ";
      if (cell) { typedef vg::result_of::const_cell_range<Segm::segment_handle_type>::type R; R rr(s);
        for (vg::result_of::iterator<R>::type e = rr.begin(); e != rr.end(); ++e)
        { int c = ci[(int)e->id().get()];
          if (vec) { if (registered) expectv(vg::make_field<Cell>(cv[part]), *e, m.cv(c, part), w + mc::str(c)); else expectv(r.cell_vector_field(nm, s), *e, m.cv(c, part), w + mc::str(c)); }
          else { VD x(1, m.cs(c, part)); if (registered) expect(vg::make_field<Cell>(cs[part]), *e, x, w + mc::str(c)); else expect(r.cell_scalar_field(nm, s), *e, x, w + mc::str(c)); } } }
      else { typedef vg::result_of::const_vertex_range<Segm::segment_handle_type>::type R; R rr(s);
        for (vg::result_of::iterator<R>::type e = rr.begin(); e != rr.end(); ++e)
        { int c = vi[(int)e->id().get()];
          if (vec) { if (registered) expectv(vg::make_field<Vertex>(vv[part]), *e, m.vv(c, part), w + mc::str(c)); else expectv(r.vertex_vector_field(nm, s), *e, m.vv(c, part), w + mc::str(c)); }
          else { VD x(1, m.vs(c, part)); if (registered) expect(vg::make_field<Vertex>(vs[part]), *e, x, w + mc::str(c)); else expect(r.vertex_scalar_field(nm, s), *e, x, w + mc::str(c)); } } }
    }
  }
  mc::outcome(show(uv) + show(all) + mc::str(mode));
}

static VD P(double x, double y, double z) { VD r; r.push_back(x); r.push_back(y); r.push_back(z); return r; }
static std::vector<VD> pool(int n)
{
  static const double c[][3] = { {0,0,0}, {1./3,0.1,-2.5}, {-1e-7,1e9,4}, {2,-1./7,1e-12}, {-1,2,3}, {0.7,0.7,0.7}, {123456.789,-0.001,5}, {1e-300,-1,1e15},
                                 {5,5,-5}, {-3,0.125,8}, {17,1e-3,-8}, {0.3,-0.6,2e5} };
  std::vector<VD> r; for (int i = 0; i < n; ++i) r.push_back(P(c[i][0], c[i][1], c[i][2])); return r;
}
// base cells: mutually sharing vertices
static VVI basecells()
{
  if (SH::nv == 2) return tup("0,1;1,2;2,0;1,3");
  if (SH::nv == 3) return tup("0,1,2;1,2,3;0,2,4;2,3,4");
  if (SH::nv == 4 && SH::dim == 2) return tup("0,1,2,3;2,3,4,5;1,6,3,4;0,2,5,6");
  if (SH::nv == 4) return tup("0,1,2,3;1,2,3,4;0,1,3,5;2,3,4,5");
  return tup("0,1,2,3,4,5,6,7;4,5,6,7,8,9,10,11;1,0,3,8,5,4,9,11");
}
static const int NP = SH::nv == 2 ? 4 : SH::nv == 3 ? 5 : SH::nv == 8 ? 12 : SH::dim == 2 ? 7 : 6;

static std::string describe(Model const & m)
{ return "ids" + show(m.vid) + " cells" + show(m.cells) + " segs" + show(m.segids) + show(m.member) + " data" + mc::str(m.data) + (m.style ? "names" + mc::str(m.style) : ""); }

#endif
