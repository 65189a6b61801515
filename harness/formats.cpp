// P20 (FORMAT 0..4): Netgen, OpenDX, COMSOL mphtxt, vmesh, Tetgen poly deliver
// exactly the described mesh.  P19 (FORMAT 5, 6): damaged Netgen / poly files.
#ifndef FORMAT
#define FORMAT 0
#endif
#include "vtk.hpp"
#include "viennagrid/io/netgen_reader.hpp"
#include "viennagrid/io/opendx_writer.hpp"
#include "viennagrid/io/vmesh_writer.hpp"
#include "viennagrid/io/tetgen_poly_reader.hpp"
#if FORMAT == 2
#include "viennagrid/io/mphtxt_writer.hpp"
#endif

static void put(std::string const & f, std::string const & t) { std::ofstream o(f.c_str(), std::ios::binary); o << t; }
static std::string num(double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return b; }
static VVI orders()
{
  VVI r; VI o; for (int i = 0; i < SH::nv; ++i) o.push_back(i);
  if (SH::nv <= 4) do r.push_back(o); while (std::next_permutation(o.begin(), o.end()));
  else for (int k = 0; k < 8; ++k) { VI q(o); std::rotate(q.begin(), q.begin() + k, q.end()); r.push_back(q); std::reverse(q.begin(), q.end()); r.push_back(q); }
  return r;
}
// all meshes of the bound: orders of the first cell x order of a second, all segment assignments of up to 4 cells
struct Visit { virtual void operator()(Model const & m, VI const & seg) = 0; virtual ~Visit() {} };
static void meshes(Visit & v, VI const & segvalues)
{
  VVI base = basecells(), ord = orders(); int nv = (int)segvalues.size();
  mc::begin_group("orders");
  for (size_t a = 0; a < ord.size(); ++a) for (size_t b = 0; b <= ord.size(); ++b) for (int ids = 0; ids < 4; ++ids)
  {
    Model m; m.pos = pool(NP); m.cells.push_back(pick(base[0], ord[a])); if (b) m.cells.push_back(pick(base[1], ord[b-1]));
    for (int i = 0; i < NP && ids; ++i) m.vid.push_back(ids == 1 ? NP - 1 - i : ids == 2 ? 2 * i + 1 : (i * 7 + 3) % 13 + 20 * (i % 2));
    if (!mc::begin_case()) continue;
    VI s; for (size_t k = 0; k < m.cells.size(); ++k) s.push_back(segvalues[(a + b + k) % nv]);
    v(m, s);
  }
  mc::begin_group("segments");
  long n = 1; for (size_t k = 0; k < base.size(); ++k) n *= nv;
  for (long code = 0; code < n; ++code) for (int ids = 0; ids < 2; ++ids)
  {
    Model m; m.pos = pool(NP); m.cells = base; VI s; long c = code; for (size_t k = 0; k < base.size(); ++k, c /= nv) s.push_back(segvalues[c % nv]);
    for (int i = 0; i < NP && ids; ++i) m.vid.push_back(3 * (NP - i));
    if (!mc::begin_case()) continue;
    v(m, s);
  }
  mc::begin_group("no-cells");
  for (int k = 1; k <= NP; ++k) for (int ids = 0; ids < 4; ++ids)
  {
    Model m; m.pos = pool(k);
    for (int i = 0; i < k && ids; ++i) m.vid.push_back(ids == 1 ? k - 1 - i : ids == 2 ? 2 * i + 1 : (i * 7 + 3) % 13 + 20 * (i % 2));
    if (!mc::begin_case()) continue;
    v(m, VI());
  }
  mc::begin_group("blocks");
  VVI sizes = SH::dim == 1 ? tup("20,0,0;120,0,0") : SH::dim == 2 ? tup("4,3,0;12,9,0") : tup("2,2,2;5,5,4");
  for (size_t z = 0; z < sizes.size(); ++z) for (int k = 0; k < 27; ++k) for (int part = 0; part < 3; ++part)
  {
    Block b = block<CT>(sizes[z][0], sizes[z][1], sizes[z][2], k % 3, k / 3 % 3, k / 9); Model m; m.pos = b.pos; m.cells = b.cells; VI s; int n = (int)m.cells.size();
    for (int i = 0; i < n; ++i) s.push_back(segvalues[part == 0 ? 0 : part == 1 ? i % nv : i * nv / n]);
    for (size_t i = 0; i < m.pos.size() && part == 2; ++i) m.vid.push_back(3 * ((int)m.pos.size() - (int)i));
    if (!mc::begin_case()) continue;
    v(m, s);
  }
}

// ---------------------------------------------------------------- Netgen
static std::string netgen_text(Model const & m, VI const & seg, int style)
{
  std::string nl = style == 1 ? "\r\n" : "\n", sp = style == 2 ? "\t  " : " ", t = mc::str(m.pos.size()) + nl;
  for (size_t i = 0; i < m.pos.size(); ++i) { for (int d = 0; d < DIM; ++d) t += sp + num(m.pos[i][d]); t += nl; }
  t += mc::str(m.cells.size()) + nl;
  for (size_t c = 0; c < m.cells.size(); ++c) { t += mc::str(seg[c]); for (int k = 0; k < SH::nv; ++k) t += sp + mc::str(m.cells[c][k] + 1); if (c + 1 < m.cells.size() || style != 3) t += nl; }
  return t;
}
static void check_netgen(Mesh const & mesh, Segm * seg, Model const & m, VI const & want)
{
  typedef vg::result_of::const_vertex_range<Mesh>::type VR; VR vr(mesh);
  if (!MCHECK(vr.size() == m.pos.size(), "netgen-vertices", mc::str(vr.size()))) return;
  for (vg::result_of::iterator<VR>::type i = vr.begin(); i != vr.end(); ++i)
  { size_t id = i->id().get(); bool ok = id < m.pos.size(); for (int d = 0; ok && d < DIM; ++d) ok = same(vg::point(mesh, *i)[d], m.pos[id][d]); MCHECK(ok, "netgen-vertices", "vertex " + mc::str(id)); }
  typedef vg::result_of::const_cell_range<Mesh>::type CR; CR cr(mesh); SI seen;
  MCHECK(cr.size() == m.cells.size(), "netgen-cells", mc::str(cr.size()));
  for (vg::result_of::iterator<CR>::type i = cr.begin(); i != cr.end(); ++i)
  {
    size_t id = i->id().get(); seen.insert((int)id);
    if (!MCHECK(id < m.cells.size() && vids(*i) == m.cells[id], "netgen-cells", "cell " + mc::str(id) + " is " + show(vids(*i)))) continue;
    if (seg) { SI s; vg::result_of::segment_id_range<Segm, Cell>::type r = vg::segment_ids(*seg, *i); for (vg::result_of::segment_id_range<Segm, Cell>::type::iterator k = r.begin(); k != r.end(); ++k) s.insert((int)*k);
               SI w; w.insert(want[id]); MCHECK(s == w, "netgen-segments", "cell " + mc::str(id) + " in " + show(s) + " instead of " + show(w)); }
  }
  MCHECK(seen.size() == m.cells.size(), "netgen-cells", "ids " + show(seen));
  if (seg) { SI s, w(want.begin(), want.end()); for (Segm::const_iterator k = seg->begin(); k != seg->end(); ++k) s.insert((int)k->id()); MCHECK(s == w, "netgen-segments", "segments " + show(s) + " instead of " + show(w)); }
}
struct Netgen : Visit
{
  void operator()(Model const & m0, VI const & seg)
  {
    Model m = m0; m.vid.clear();
    mc::trace("cells" + show(m.cells) + " segs" + show(seg)); mc::state(show(m.cells) + show(seg));
    for (int style = 0; style < 4; ++style)
    {
      put(path("a.mesh"), netgen_text(m, seg, style));
      { Mesh mesh; Segm s(mesh); vg::io::netgen_reader r; r(mesh, s, path("a.mesh")); mc::transition(); check_netgen(mesh, &s, m, seg); }
      if (style == 0) { Mesh mesh; vg::io::netgen_reader r; r(mesh, path("a.mesh")); mc::transition(); check_netgen(mesh, 0, m, seg); }
    }
    mc::outcome(show(seg));
  }
};
// ---------------------------------------------------------------- OpenDX
struct Tok { std::stringstream s; Tok(std::string const & t) : s(t) {} std::string operator()() { std::string w; s >> w; return w; } double n() { std::string w; s >> w; char * e; double d = strtod(w.c_str(), &e); return w.empty() || *e ? NAN : d; } void until(std::string const & x) { std::string w; while (s >> w) if (w == x) return; } };
struct Odx : Visit
{
  void operator()(Model const & m, VI const & seg)
  {
    mc::trace("ids" + show(m.vid) + " cells" + show(m.cells)); mc::state(show(m.vid) + show(m.cells));
    for (int data = 0; data < 3; ++data)
    {
      Built b(m); vg::io::opendx_writer<Mesh> w;
      std::vector<double> vd, cd; 
      if (data == 1) vg::io::add_scalar_data_on_vertices(w, vg::make_field<Vertex>(b.vs_[0]), "q");
      if (data == 2) vg::io::add_scalar_data_on_cells(w, vg::make_field<Cell>(b.cs_[0]), "q");
      w(b.mesh, path("a.odx")); mc::transition();
      Tok t(slurp(path("a.odx")));
      t.until("\"points\""); t.until("shape"); MCHECK(t.n() == DIM, "opendx-points", "dimension");
      t.until("items"); if (!MCHECK(t.n() == (double)m.pos.size(), "opendx-points", "count")) return;
      t.until("follows"); VI pid; SI seen;
      for (size_t i = 0; i < m.pos.size(); ++i) { VD q(3, 0.); for (int d = 0; d < DIM; ++d) q[d] = t.n(); pid.push_back(identify(m.pos, q)); seen.insert(pid.back()); }
      MCHECK(seen.size() == m.pos.size() && !seen.count(-1), "opendx-points", "points " + show(pid));
      MCHECK(t() == "object", "opendx-syntax", "object expected");
      t.until("shape"); MCHECK(t.n() == SH::nv, "opendx-cells", "corners"); t.until("items"); MCHECK(t.n() == (double)m.cells.size(), "opendx-cells", "count");
      t.until("follows"); VI cid; SI cs;
      for (size_t c = 0; c < m.cells.size(); ++c)
      { VI q; for (int k = 0; k < SH::nv; ++k) { double x = t.n(); q.push_back(x >= 0 && x < (double)pid.size() ? pid[(int)x] : -1); }
        int f = -1; for (size_t k = 0; k < m.cells.size(); ++k) if (m.cells[k] == q) f = (int)k;
        MCHECK(f >= 0, "opendx-cells", "cell " + show(q)); cid.push_back(f); cs.insert(f); }
      MCHECK(cs.size() == m.cells.size(), "opendx-cells", show(cs));
      MCHECK(t() == "attribute", "opendx-syntax", "attribute expected"); t.until("string");
      std::string et = t(); MCHECK(et == (SH::dim == 1 ? "\"line\"" : SH::dim == 2 ? (SH::nv == 3 ? "\"triangles\"" : "\"quads\"") : (SH::nv == 4 ? "\"tetrahedra\"" : "\"cubes\"")), "opendx-cells", et);
      if (data)
      {
        t.until("\"VisData\""); t.until("items"); VI const & ids = data == 1 ? pid : cid; MCHECK(t.n() == (double)ids.size(), "opendx-data", "count"); t.until("follows");
        for (size_t i = 0; i < ids.size(); ++i) { double x = t.n(), want = data == 1 ? m.vs(ids[i], 0) : m.cs(ids[i], 0); MCHECK(std::fabs(x - want) <= 2.1e-5, "opendx-data", mc::str(x) + " instead of " + mc::str(want)); }
        MCHECK(t() == "attribute", "opendx-syntax", "attribute expected"); t.until("string"); MCHECK(t() == (data == 1 ? "\"positions\"" : "\"connections\""), "opendx-data", "dep");
      }
    }
    mc::outcome(show(m.vid) + show(m.cells));
  }
};
// ---------------------------------------------------------------- vmesh
static long between(std::string const & t, size_t & p, std::string const & tag)
{ p = t.find("<" + tag + ">", p); if (p == std::string::npos) return -1; p += tag.size() + 2; return atol(t.c_str() + p); }
struct Vmesh : Visit
{
  void operator()(Model const & m0, VI const & seg)
  {
    Model m = m0; std::map<int,VI> mem; for (size_t c = 0; c < seg.size(); ++c) if (seg[c] >= 0) mem[seg[c]].push_back((int)c);
    for (std::map<int,VI>::iterator i = mem.begin(); i != mem.end(); ++i) { m.segids.push_back(i->first); m.member.push_back(i->second); }
    mc::trace(describe(m)); mc::state(describe(m));
    Built b(m); vg::io::vmesh_writer<Mesh> w; w(b.mesh, b.seg, "in.mesh", path("a")); mc::transition();
    std::string t = slurp(path("a.vmesh")); size_t p = 0;
    MCHECK(t.find("<file>in.mesh</file>") != std::string::npos, "vmesh", "file");
    MCHECK(between(t, p, "geomdim") == DIM, "vmesh", "geomdim");
    MCHECK(between(t, p, "vertices") == (long)m.pos.size(), "vmesh", "vertices"); MCHECK(between(t, p, "cells") == (long)m.cells.size(), "vmesh", "cells"); MCHECK(between(t, p, "segments") == (long)m.segids.size(), "vmesh", "segments");
    std::map<int,std::pair<long,long> > got;
    while (p != std::string::npos) { long id = between(t, p, "id"); if (p == std::string::npos) break; long v = between(t, p, "vertices"), c = between(t, p, "cells"); got[(int)id] = std::make_pair(v, c); }
    MCHECK(got.size() == m.segids.size(), "vmesh", "segment entries");
    for (size_t s = 0; s < m.segids.size(); ++s) { SI cs(m.member[s].begin(), m.member[s].end()); MCHECK(got[m.segids[s]] == std::make_pair((long)used(m, cs).size(), (long)cs.size()), "vmesh", "segment " + mc::str(m.segids[s])); }
    mc::outcome(describe(m));
  }
};
// ---------------------------------------------------------------- mphtxt
#if FORMAT == 2
static double tetdet(Model const & m, VI const & a, int apex)
{ double e[3][3]; for (int k = 0; k < 3; ++k) for (int d = 0; d < 3; ++d) e[k][d] = m.pos[k < 2 ? a[k+1] : apex][d] - m.pos[a[0]][d];
  return e[0][0]*(e[1][1]*e[2][2]-e[1][2]*e[2][1]) - e[0][1]*(e[1][0]*e[2][2]-e[1][2]*e[2][0]) + e[0][2]*(e[1][0]*e[2][1]-e[1][1]*e[2][0]); }
static bool coplanar(Model const & m, VI const & a, VI const & b) { for (int k = 0; k < 3; ++k) if (std::fabs(tetdet(m, a, b[k])) > 1e-9) return false; return true; }
struct Mph
{
  // seg[c]: segment of cell c, -1: none
  void operator()(Model const & m0, VI const & seg)
  {
    Model m = m0; std::map<int,VI> mem; for (size_t c = 0; c < seg.size(); ++c) if (seg[c] >= 0) mem[seg[c]].push_back((int)c);
    for (std::map<int,VI>::iterator i = mem.begin(); i != mem.end(); ++i) { m.segids.push_back(i->first); m.member.push_back(i->second); }
    mc::trace(describe(m)); mc::state(describe(m));
    Built b(m); vg::io::mphtxt_writer w; w(b.mesh, b.seg, path("a")); mc::transition();
    std::string raw = slurp(path("a.mphtxt")), txt; bool com = false;
    for (size_t i = 0; i < raw.size(); ++i) { if (raw[i] == '#') com = true; if (raw[i] == '\n') com = false; if (!com) txt += raw[i]; }
    Tok t(txt);
    static const char * head[] = { "0","1","1","15","viennagrid_mesh","1","3","obj","0","0","1","4","Mesh","2","3" };
    for (size_t i = 0; i < sizeof head / sizeof *head; ++i) MCHECK(t() == head[i], "mphtxt-syntax", std::string("header ") + head[i]);
    if (!MCHECK(t.n() == (double)m.pos.size(), "mphtxt-points", "count")) return;
    MCHECK(t.n() == 0, "mphtxt-syntax", "lowest index"); VI pid; SI seen;
    for (size_t i = 0; i < m.pos.size(); ++i) { VD q(3, 0.); for (int d = 0; d < 3; ++d) q[d] = t.n(); pid.push_back(identify(m.pos, q)); seen.insert(pid.back()); }
    MCHECK(seen.size() == m.pos.size() && !seen.count(-1), "mphtxt-points", show(pid));
    MCHECK(t.n() == 2 && t() == "3" && t() == "tri" && t.n() == 3, "mphtxt-syntax", "tri section");
    // boundary triangles of the segments
    std::map<VI,VVI> owner;   // sorted triangle -> list of (cell, segment)
    static const int F[4][4] = { {0,1,2,3},{0,1,3,2},{0,2,3,1},{1,2,3,0} };
    for (size_t c = 0; c < m.cells.size(); ++c) if (seg[c] >= 0) for (int f = 0; f < 4; ++f) { VI tr; for (int k = 0; k < 3; ++k) tr.push_back(m.cells[c][F[f][k]]); VI o; o.push_back(m.cells[c][F[f][3]]); o.push_back(seg[c]); owner[sorted(tr)].push_back(o); }
    std::set<VI> want; for (std::map<VI,VVI>::iterator i = owner.begin(); i != owner.end(); ++i) if (!(i->second.size() == 2 && i->second[0][1] == i->second[1][1])) want.insert(i->first);
    size_t nt = (size_t)t.n(); if (!MCHECK(nt == want.size(), "mphtxt-triangles", mc::str(nt) + " instead of " + mc::str(want.size()))) return;
    VVI tri; std::set<VI> got;
    for (size_t i = 0; i < nt; ++i) { VI q; for (int k = 0; k < 3; ++k) { double x = t.n(); q.push_back(x >= 0 && x < (double)pid.size() ? pid[(int)x] : -1); } tri.push_back(q); got.insert(sorted(q)); }
    MCHECK(got == want, "mphtxt-triangles", show(got) + " instead of " + show(want));
    MCHECK(t.n() == 3 && t.n() == 0 && t.n() == (double)nt, "mphtxt-syntax", "contact section");
    VI contact; for (size_t i = 0; i < nt; ++i) contact.push_back((int)t.n());
    SI cc(contact.begin(), contact.end());
    MCHECK(cc.empty() || (*cc.begin() == 0 && *cc.rbegin() == (int)cc.size() - 1), "mphtxt-contacts", show(contact));
    MCHECK(t.n() == (double)nt, "mphtxt-syntax", "orientation section");
    VVI sides; for (size_t i = 0; i < nt; ++i) { VI s; s.push_back((int)t.n()); s.push_back((int)t.n()); sides.push_back(s); }
    if (got == want) for (size_t i = 0; i < nt; ++i)
    {
      VI e(2, 0); VVI const & o = owner[sorted(tri[i])];
      // the normal of triangle (a,b,c) is (b-a)x(c-a); the segment on the side the normal points away from is "up"
      for (size_t k = 0; k < o.size(); ++k) e[tetdet(m, tri[i], o[k][0]) < 0 ? 0 : 1] = o[k][1] + 1;
      MCHECK(sides[i] == e, "mphtxt-sides", "triangle " + show(tri[i]) + ": " + show(sides[i]) + " instead of " + show(e));
      // contacts are classes of coplanar triangles between the same segments
      for (size_t j = 0; j < i; ++j) { SI a, b; for (size_t k = 0; k < o.size(); ++k) a.insert(o[k][1]); VVI const & p = owner[sorted(tri[j])]; for (size_t k = 0; k < p.size(); ++k) b.insert(p[k][1]); bool same = a == b && coplanar(m, tri[i], tri[j]), touch = false; for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) touch |= tri[i][k] == tri[j][l];
        if (contact[i] == contact[j]) MCHECK(same, "mphtxt-contacts", "triangles " + show(tri[i]) + show(tri[j])); else MCHECK(!(same && touch), "mphtxt-contacts", "touching triangles apart " + show(tri[i]) + show(tri[j])); }
    }
    MCHECK(t() == "3" && t() == "tet" && t.n() == 4, "mphtxt-syntax", "tet section"); MCHECK(t.n() == (double)m.cells.size(), "mphtxt-cells", "count");
    VI cid; for (size_t c = 0; c < m.cells.size(); ++c)
    { VI q; for (int k = 0; k < 4; ++k) { double x = t.n(); q.push_back(x >= 0 && x < (double)pid.size() ? pid[(int)x] : -1); } int f = -1; for (size_t k = 0; k < m.cells.size(); ++k) if (m.cells[k] == q) f = (int)k; MCHECK(f >= 0, "mphtxt-cells", show(q)); cid.push_back(f); }
    MCHECK(SI(cid.begin(), cid.end()).size() == m.cells.size(), "mphtxt-cells", show(cid));
    MCHECK(t.n() == 4 && t.n() == 0 && t.n() == (double)m.cells.size(), "mphtxt-syntax", "domain section");
    for (size_t c = 0; c < cid.size(); ++c) { double x = t.n(); if (cid[c] >= 0) MCHECK(x == seg[cid[c]] + 1, "mphtxt-domains", "cell " + mc::str(cid[c]) + " in domain " + mc::str(x)); }
    MCHECK(t.n() == 0, "mphtxt-syntax", "end");
    mc::outcome(show(sides) + show(contact));
  }
};
#endif
// ---------------------------------------------------------------- poly
struct Facet { VVI polys; std::vector<VD> holes; };
struct Poly { std::vector<VD> pos; VI id; std::vector<Facet> facets; std::vector<VD> holes; std::vector<std::pair<VD,int> > regions; int style; };
static std::string poly_text(Poly const & p)
{
  std::string c = p.style & 1 ? "   # comment 1 2 3\n# 7 7 7\n\n" : "\n", s = p.style & 2 ? "  " : " ", t = (p.style & 1) ? "# head\n" : "";
  t += mc::str(p.pos.size()) + s + "3" + s + "0" + s + "0" + c;
  for (size_t i = 0; i < p.pos.size(); ++i) { t += mc::str(p.id[i]); for (int d = 0; d < 3; ++d) t += s + num(p.pos[i][d]); t += c; }
  t += mc::str(p.facets.size()) + s + "0" + c;
  for (size_t f = 0; f < p.facets.size(); ++f)
  {
    Facet const & F = p.facets[f];
    t += mc::str(F.polys.size()); if (!(p.style & 4) || F.holes.size()) t += s + mc::str(F.holes.size()); t += c;
    for (size_t k = 0; k < F.polys.size(); ++k) { t += mc::str(F.polys[k].size()); for (size_t v = 0; v < F.polys[k].size(); ++v) t += s + mc::str(p.id[F.polys[k][v]]); t += c; }
    for (size_t k = 0; k < F.holes.size(); ++k) { t += mc::str(k + 1); for (int d = 0; d < 3; ++d) t += s + num(F.holes[k][d]); t += c; }
  }
  if ((p.style & 8) && p.holes.empty() && p.regions.empty()) return t;
  t += mc::str(p.holes.size()) + c; for (size_t k = 0; k < p.holes.size(); ++k) { t += mc::str(k + 1); for (int d = 0; d < 3; ++d) t += s + num(p.holes[k][d]); t += c; }
  if ((p.style & 8) && p.regions.empty()) return t;
  t += mc::str(p.regions.size()) + c; for (size_t k = 0; k < p.regions.size(); ++k) { t += mc::str(k + 1); for (int d = 0; d < 3; ++d) t += s + num(p.regions[k].first[d]); t += s + mc::str(p.regions[k].second) + c; }
  return t;
}
typedef vg::plc_3d_mesh PMesh;
static bool eqp(vg::config::point_type_3d const & a, VD const & b) { return same(a[0], b[0]) && same(a[1], b[1]) && same(a[2], b[2]); }
static bool check_poly(PMesh const & mesh, std::vector<vg::config::point_type_3d> const & holes, std::vector<std::pair<vg::config::point_type_3d,int> > const & seeds, Poly const & p)
{
  long f0 = mc::S().fails;
  typedef vg::result_of::const_vertex_range<PMesh>::type VR; VR vr(mesh); std::map<int,int> vi;
  MCHECK(vr.size() == p.pos.size(), "poly-vertices", mc::str(vr.size()));
  for (vg::result_of::iterator<VR>::type i = vr.begin(); i != vr.end(); ++i)
  { int id = (int)i->id().get(), k = -1; for (size_t q = 0; q < p.id.size(); ++q) if (p.id[q] == id) k = (int)q; MCHECK(k >= 0 && eqp(vg::point(mesh, *i), p.pos[k]), "poly-vertices", "vertex " + mc::str(id)); vi[id] = k; }
  std::set<VI> lines; 
  typedef vg::result_of::const_element_range<PMesh, vg::plc_tag>::type PR; PR pr(mesh); size_t f = 0;
  if (!MCHECK(pr.size() == p.facets.size(), "poly-facets", mc::str(pr.size()) + " instead of " + mc::str(p.facets.size()))) return false;
  for (vg::result_of::iterator<PR>::type i = pr.begin(); i != pr.end(); ++i, ++f)
  {
    std::set<VI> want, got; SI wv, gv; Facet const & F = p.facets[f];
    for (size_t k = 0; k < F.polys.size(); ++k)
    { VI const & q = F.polys[k]; wv.insert(q.begin(), q.end()); if (q.size() >= 2) for (size_t v = 0; v < q.size(); ++v) { VI e; e.push_back(q[v]); e.push_back(q[(v+1) % q.size()]); want.insert(sorted(e)); } }
    lines.insert(want.begin(), want.end());
    typedef vg::result_of::element<PMesh, vg::plc_tag>::type PE;
    typedef vg::result_of::const_element_range<PE, vg::line_tag>::type LR; LR lr(*i);
    for (vg::result_of::iterator<LR>::type l = lr.begin(); l != lr.end(); ++l) { VI e = vids(*l); e[0] = vi[e[0]]; e[1] = vi[e[1]]; MCHECK(got.insert(sorted(e)).second, "poly-facets", "line twice"); }
    VI v = vids(*i); for (size_t k = 0; k < v.size(); ++k) MCHECK(gv.insert(vi[v[k]]).second, "poly-facets", "vertex twice");
    MCHECK(got == want, "poly-facets", "facet " + mc::str(f) + " lines " + show(got) + " instead of " + show(want));
    MCHECK(gv == wv, "poly-facets", "facet " + mc::str(f) + " vertices " + show(gv) + " instead of " + show(wv));
    std::vector<vg::config::point_type_3d> hp(vg::hole_points(*i).begin(), vg::hole_points(*i).end());
    bool ok = hp.size() == F.holes.size(); for (size_t k = 0; ok && k < hp.size(); ++k) ok = eqp(hp[k], F.holes[k]); MCHECK(ok, "poly-facet-holes", "facet " + mc::str(f));
  }
  VVI all = all_tuples<vg::line_tag>(mesh); MCHECK(all.size() == lines.size(), "poly-facets", "lines of the mesh");
  bool ok = holes.size() == p.holes.size(); for (size_t k = 0; ok && k < holes.size(); ++k) ok = eqp(holes[k], p.holes[k]); MCHECK(ok, "poly-holes", "hole points");
  ok = seeds.size() == p.regions.size(); for (size_t k = 0; ok && k < seeds.size(); ++k) ok = eqp(seeds[k].first, p.regions[k].first) && seeds[k].second == p.regions[k].second; MCHECK(ok, "poly-regions", "region points");
  return mc::S().fails == f0;
}
static std::vector<Facet> facet_kinds()
{
  std::vector<Facet> r; Facet f;
  f.polys = tup("0,1,2"); r.push_back(f);
  f.polys = tup("3,1,0,2"); r.push_back(f);
  f.polys = tup("0,1,2;3,4"); r.push_back(f);
  f.polys = tup("0,1,3,4;2"); r.push_back(f);
  f.polys = tup("4,2,0;1;3"); r.push_back(f);
  f.polys = tup("1,2"); r.push_back(f);
  f.polys = tup("0,2,4,1;0,4"); f.holes.push_back(pool(9)[8]); r.push_back(f);
  f.polys = tup("4,3,2"); f.holes.push_back(pool(10)[9]); r.push_back(f);
  return r;
}
static Poly make_poly(VI const & fk, int ids, int nh, int nr, int style)
{
  std::vector<Facet> k = facet_kinds(); Poly p; p.pos = pool(5); p.style = style;
  for (int i = 0; i < 5; ++i) p.id.push_back(ids == 0 ? i : ids == 1 ? i + 1 : ids == 2 ? 9 - 2 * i : (i * 3 + 1) % 7);
  for (size_t i = 0; i < fk.size(); ++i) p.facets.push_back(k[fk[i]]);
  for (int i = 0; i < nh; ++i) p.holes.push_back(pool(12)[5 + i]);
  for (int i = 0; i < nr; ++i) p.regions.push_back(std::make_pair(pool(12)[8 + i], 3 - 2 * i));
  return p;
}

#if FORMAT == 5
static void damage_netgen()
{
  Model m; m.pos = pool(NP); m.cells = basecells(); VI seg; for (size_t c = 0; c < m.cells.size(); ++c) seg.push_back(c % 2 ? 3 : 1);
  for (int style = 0; style < 4; style += 3)
  {
    std::string text = netgen_text(m, seg, style); size_t last = text.find_last_not_of(" \r\n\t");
    for (int op = 0; op < 4; ++op)
    {
      mc::begin_group(std::string("netgen-") + (op == 0 ? "cut" : op == 1 ? "remove" : op == 2 ? "garble" : "repeat") + mc::str(style));
      std::vector<std::pair<size_t,size_t> > tok;
      for (size_t p = 0; p < text.size(); ) { if (isspace(text[p])) { ++p; continue; } size_t e = p; while (e < text.size() && !isspace(text[e])) ++e; tok.push_back(std::make_pair(p, e)); p = e; }
      size_t n = op == 0 ? text.size() + 1 : tok.size();
      for (size_t i = 0; i < n; ++i)
      {
        if (!mc::begin_case()) continue;
        std::string t = op == 0 ? text.substr(0, i) : text.substr(0, tok[i].first) + (op == 1 ? "" : op == 2 ? "x" : text.substr(tok[i].first, tok[i].second - tok[i].first) + " " + text.substr(tok[i].first, tok[i].second - tok[i].first)) + text.substr(tok[i].second);
        mc::trace((op == 0 ? "cut at " : op == 1 ? "remove token " : op == 2 ? "garble token " : "repeat token ") + mc::str(i)); mc::state(mc::str(op) + "/" + mc::str(i) + "/" + mc::str(style));
        put(path("a.mesh"), t);
        Mesh mesh; Segm s(mesh); vg::io::netgen_reader r; bool failed = false; std::string what;
        try { r(mesh, s, path("a.mesh")); } catch (std::exception const & e) { failed = true; what = e.what(); }
        mc::transition();
        // a cut inside the last number may still leave a (different) number
        // a removed or repeated number shifts all others (the format has no structure): whatever happens must be safe
        bool must = op == 0 ? i <= tok.back().first : op == 2;
        if (must) MCHECK(failed, "netgen-bad-accepted", "damage not reported");
        if (op == 0 && i > last) { MCHECK(!failed, "netgen-rejected", what); check_netgen(mesh, &s, m, seg); }
        mc::outcome(failed ? what.substr(what.size() > 60 ? what.size() - 60 : 0) : "ok");
      }
    }
  }
}
#endif
#if FORMAT == 6
static void damage_poly()
{
  for (int cfg = 0; cfg < 4; ++cfg)
  {
    Poly p = make_poly(cfg == 0 ? tup("0,2,6")[0] : cfg == 1 ? tup("1,3")[0] : cfg == 2 ? tup("4,7,5")[0] : tup("0")[0], cfg, cfg % 3, (cfg + 1) % 3, cfg == 1 ? 4 : 0);
    std::string text = poly_text(p);
    for (int op = 0; op < 3; ++op)
    {
      mc::begin_group("poly-" + mc::str(cfg) + (op == 0 ? "cut" : op == 1 ? "remove" : "garble"));
      std::vector<std::pair<size_t,size_t> > tok;
      for (size_t q = 0; q < text.size(); ) { if (isspace(text[q])) { ++q; continue; } size_t e = q; while (e < text.size() && !isspace(text[e])) ++e; tok.push_back(std::make_pair(q, e)); q = e; }
      size_t n = op == 0 ? text.size() + 1 : tok.size();
      for (size_t i = 0; i < n; ++i)
      {
        if (!mc::begin_case()) continue;
        std::string t = op == 0 ? text.substr(0, i) : text.substr(0, tok[i].first) + (op == 1 ? "" : "x") + text.substr(tok[i].second);
        mc::trace((op == 0 ? "cut at " : op == 1 ? "remove token " : "garble token ") + mc::str(i)); mc::state(mc::str(cfg) + mc::str(op) + "/" + mc::str(i));
        put(path("a.poly"), t);
        PMesh mesh; vg::io::tetgen_poly_reader r; std::vector<vg::config::point_type_3d> h; std::vector<std::pair<vg::config::point_type_3d,int> > s; bool failed = false; std::string what;
        try { r(mesh, path("a.poly"), h, s); } catch (std::exception const & e) { failed = true; what = e.what(); }
        mc::transition();
        if (op == 0 && i + 1 >= text.size()) { MCHECK(!failed, "poly-rejected", what); check_poly(mesh, h, s, p); }
        mc::outcome(failed ? what.substr(what.size() > 60 ? what.size() - 60 : 0) : "ok");
      }
    }
  }
}
#endif

int main(int argc, char ** argv)
{
  mc::init(argc, argv); mkscratch(); std::cout.rdbuf(0); std::cerr.rdbuf(0);
  bool th = mc::S().thorough; (void)th;
#if FORMAT == 0
  { Netgen v; meshes(v, tup("1,2,5")[0]); }
#elif FORMAT == 1
  { Odx v; meshes(v, tup("1")[0]); }
#elif FORMAT == 3
  { Vmesh v; VI s = tup("0,1,4")[0]; s.push_back(-1); meshes(v, s); }
#elif FORMAT == 2
  {
    // a cube cut into 6 tetrahedra (coplanar outer faces) and 3 generic tetrahedra
    Mph v; std::vector<VD> cube; for (int i = 0; i < 8; ++i) cube.push_back(P(i & 1, (i >> 1) & 1, (i >> 2) & 1));
    VVI six = tup("0,1,3,7;0,1,5,7;0,2,3,7;0,2,6,7;0,4,5,7;0,4,6,7"); VVI ord = orders();
    mc::begin_group("orders");
    for (size_t a = 0; a < ord.size(); ++a) for (size_t b = 0; b < ord.size(); ++b) for (int sg = 0; sg < 9; ++sg) for (int ids = 0; ids < 2; ++ids)
    {
      Model m; m.pos = cube; m.cells.push_back(pick(six[0], ord[a])); m.cells.push_back(pick(six[1], ord[b]));
      for (int i = 0; i < 8 && ids; ++i) m.vid.push_back(20 - 2 * i);
      if (!mc::begin_case()) continue;
      VI s; s.push_back(sg % 3 - 1); s.push_back(sg / 3 - 1); v(m, s);
    }
    mc::begin_group("cube");
    for (int code = 0; code < 729 * (th ? 4 : 1); ++code) for (int o = 0; o < 3; ++o)
    {
      Model m; m.pos = cube; VI s; int c = code;
      for (int k = 0; k < 6; ++k, c /= 3) { m.cells.push_back(pick(six[k], ord[(k * 5 + o * 7 + code / 729) % 24])); s.push_back(c % 3 == 0 ? -1 : c % 3 == 1 ? 0 : 4); }
      if (!mc::begin_case()) continue;
      v(m, s);
    }
  }
#elif FORMAT == 4
  {
    int nk = (int)facet_kinds().size();
    mc::begin_group("poly");
    for (int nf = 0; nf <= (th ? 3 : 2); ++nf)
    {
      long n = 1; for (int k = 0; k < nf; ++k) n *= nk;
      for (long code = 0; code < n; ++code) for (int ids = 0; ids < 4; ++ids) for (int hr = 0; hr < 9; ++hr) for (int style = 0; style < 16; ++style)
      {
        VI fk; long c = code; for (int k = 0; k < nf; ++k, c /= nk) fk.push_back((int)(c % nk));
        if (nf >= 2 && SI(fk.begin(), fk.end()).size() != fk.size()) continue;
        if (nf >= 2 && !th && (hr + style + ids) % 4) continue;
        if (nf >= 3 && (hr + style + ids) % 8) continue;
        if (!mc::begin_case()) continue;
        Poly p = make_poly(fk, ids, hr % 3, hr / 3, style);
        mc::trace("facets" + show(fk) + " ids" + mc::str(ids) + " holes" + mc::str(hr % 3) + " regions" + mc::str(hr / 3) + " style" + mc::str(style)); mc::state(show(fk) + mc::str(ids) + mc::str(hr));
        put(path("a.poly"), poly_text(p));
        PMesh mesh; vg::io::tetgen_poly_reader r; std::vector<vg::config::point_type_3d> h(2); std::vector<std::pair<vg::config::point_type_3d,int> > s(1);
        r(mesh, path("a.poly"), h, s); mc::transition();
        if (check_poly(mesh, h, s, p)) mc::outcome(show(fk));
      }
    }
  }
#elif FORMAT == 5
  mc::S().case_timeout = 20; damage_netgen();
#else
  mc::S().case_timeout = 20; damage_poly();
#endif
  return mc::finish();
}
