// P20 (FORMAT 0 bnd, 1 neper tess): the reader delivers exactly what the file
// describes.  P19 (FORMAT 2, 3): damaged bnd / tess files.
#include "vg.hpp"
#include "viennagrid/io/bnd_reader.hpp"
#include "viennagrid/io/neper_tess_reader.hpp"
#include <fstream>
#ifndef FORMAT
#define FORMAT 0
#endif
typedef std::vector<double> VD;
static std::string path(std::string const & f) { const char * s = getenv("MC_SCRATCH"); return std::string(s ? s : ".") + "/" + f; }
static void put(std::string const & f, std::string const & t) { std::ofstream o(f.c_str(), std::ios::binary); o << t; }
static std::string num(double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return b; }
static double X(int i, int d) { static const double c[7][3] = {{0,0,0},{1.5,0,0},{0,2.25,0},{0,0,3.125},{1.5,2.25,-3},{-7,.1,1e-3},{12345.678,-9,2}}; return c[i][d]; }

// ------------------------------------------------------------------ bnd
struct Bnd
{
  int np; VVI edges, faces;                      // faces: vertex tuples
  std::vector<VI> seg; VVI contact;              // seg: signed 1-based faces (negative: reversed), contact groups of triangles (face numbers)
  std::vector<std::string> name, mat, cname; int style; VI order;   // order: order in which the regions are listed
};
static int signed_edge(Bnd const & b, int u, int v) { for (size_t k = 0; k < b.edges.size(); ++k) { if (b.edges[k][0] == u && b.edges[k][1] == v) return (int)k; if (b.edges[k][0] == v && b.edges[k][1] == u) return -(int)k - 1; } return 9999; }
static std::string bnd_text(Bnd const & b)
{
  const std::string nl = b.style & 1 ? " \n" : "\n"; const int per = b.style & 2 ? 2 : 10;
  size_t nc = 0; for (size_t g = 0; g < b.contact.size(); ++g) nc += b.contact[g].size();
  size_t nreg = b.seg.size() + b.contact.size();
  std::string t = "DF-ISE text" + nl + nl + "Info {" + nl + "  version = 1.1" + nl + "  type    = boundary" + nl + "  dimension   = 3" + nl + "  nb_vertices = " + mc::str(b.np) + nl + "  nb_edges    = " + mc::str(b.edges.size()) + nl + "  nb_faces    = " + mc::str(b.faces.size()) + nl + "  nb_elements = " + mc::str(b.seg.size() + nc) + nl + "  nb_regions  = " + mc::str(nreg) + nl + "}" + nl + nl + "Data {" + nl + nl;
  t += "  Vertices (" + mc::str(b.np) + ") {" + nl; for (int i = 0; i < b.np; ++i) t += " " + num(X(i,0)) + " " + num(X(i,1)) + " " + num(X(i,2)) + nl; t += "  }" + nl + nl;
  t += "  Edges (" + mc::str(b.edges.size()) + ") {" + nl; for (size_t i = 0; i < b.edges.size(); ++i) t += " " + mc::str(b.edges[i][0]) + " " + mc::str(b.edges[i][1]) + nl; t += "  }" + nl + nl;
  t += "  Faces (" + mc::str(b.faces.size()) + ") {" + nl;
  for (size_t f = 0; f < b.faces.size(); ++f) { VI const & q = b.faces[f]; t += " " + mc::str(q.size()); for (size_t k = 0; k < q.size(); ++k) t += " " + mc::str(signed_edge(b, q[k], q[(k+1) % q.size()])); t += nl; }
  t += "  }" + nl + nl + "  Elements (" + mc::str(b.seg.size() + nc) + ") {" + nl;
  for (size_t s = 0; s < b.seg.size(); ++s)
  { t += " 10 " + mc::str(b.seg[s].size()); for (size_t k = 0; k < b.seg[s].size(); ++k) { int f = b.seg[s][k]; t += (k && k % per == 0 ? nl : "") + " " + mc::str(f > 0 ? f - 1 : f); } t += nl; }
  for (size_t g = 0; g < b.contact.size(); ++g) for (size_t k = 0; k < b.contact[g].size(); ++k) { VI const & q = b.faces[b.contact[g][k]]; t += " 2"; for (int e = 0; e < 3; ++e) t += " " + mc::str(signed_edge(b, q[e], q[(e+1) % 3])); t += nl; }
  t += nl + "  }" + nl + nl;
  size_t next = b.seg.size(); std::vector<std::string> reg;
  for (size_t s = 0; s < b.seg.size(); ++s) reg.push_back("  Region (\"" + b.name[s] + "\") {" + nl + "    material = " + b.mat[s] + nl + "    Elements (1) {" + nl + " " + mc::str(s) + nl + "    }" + nl + "  }" + nl + nl);
  for (size_t g = 0; g < b.contact.size(); ++g) { std::string r = "  Region (\"" + b.cname[g] + "\") {" + nl + "    material = Contact" + nl + "    Elements (" + mc::str(b.contact[g].size()) + ") {" + nl; for (size_t k = 0; k < b.contact[g].size(); ++k) r += " " + mc::str(next++); reg.push_back(r + nl + "    }" + nl + "  }" + nl + nl); }
  for (size_t k = 0; k < reg.size(); ++k) t += reg[b.order.empty() ? k : b.order[k]];
  return t + "}" + nl;
}
typedef vg::triangular_3d_mesh M; typedef vg::result_of::segmentation<M>::type SG; typedef vg::result_of::cell<M>::type Cell;
static void check_bnd_mesh(M const & m, SG const & sg, Bnd const & b)
{
  std::set<int> used; std::map<VI, SI> in;
  for (size_t s = 0; s < b.seg.size(); ++s) for (size_t k = 0; k < b.seg[s].size(); ++k) { VI const & q = b.faces[std::abs(b.seg[s][k]) - 1]; used.insert(q.begin(), q.end()); in[sorted(q)].insert((int)s); }
  typedef vg::result_of::const_vertex_range<M>::type VR; VR vr(m); std::map<int,int> pt; SI seen;
  for (vg::result_of::iterator<VR>::type i = vr.begin(); i != vr.end(); ++i) { int f = -1; for (int k = 0; k < b.np; ++k) { bool ok = true; for (int d = 0; d < 3; ++d) ok &= vg::point(m, *i)[d] == X(k,d); if (ok) f = k; } pt[(int)i->id().get()] = f; MCHECK(seen.insert(f).second, "bnd-vertices", "vertex twice " + mc::str(f)); }
  MCHECK(SI(used.begin(), used.end()) == seen, "bnd-vertices", show(seen));
  typedef vg::result_of::const_cell_range<M>::type CR; CR cr(m); std::map<VI, SI> got;
  for (vg::result_of::iterator<CR>::type i = cr.begin(); i != cr.end(); ++i)
  {
    VI v = vids(*i); for (int k = 0; k < 3; ++k) v[k] = pt[v[k]];
    SI s; vg::result_of::segment_id_range<SG, Cell>::type r = vg::segment_ids(sg, *i); for (vg::result_of::segment_id_range<SG, Cell>::type::iterator k = r.begin(); k != r.end(); ++k) s.insert((int)*k);
    MCHECK(!got.count(sorted(v)), "bnd-cells", "cell twice " + show(v)); got[sorted(v)] = s;
  }
  MCHECK(got.size() == in.size(), "bnd-cells", mc::str(got.size()) + " instead of " + mc::str(in.size()));
  for (std::map<VI,SI>::iterator i = in.begin(); i != in.end(); ++i) { MCHECK(got.count(i->first), "bnd-cells", "missing " + show(i->first)); MCHECK(got[i->first] == i->second, "bnd-segments", show(i->first) + " in " + show(got[i->first]) + " want " + show(i->second)); }
  MCHECK(sg.size() == b.seg.size(), "bnd-segments", mc::str(sg.size()));
  for (size_t s = 0; s < b.seg.size(); ++s) { std::set<VI> w; for (std::map<VI,SI>::iterator i = in.begin(); i != in.end(); ++i) if (i->second.count((int)s)) w.insert(i->first); if (sg.segment_present(s)) MCHECK(vg::cells(sg.at((unsigned)s)).size() == w.size(), "bnd-segments", "size of " + mc::str(s)); }
}
static void check_bnd(Bnd const & b, bool mesh)
{
  put(path("a.bnd"), bnd_text(b));
  vg::io::bnd_helper h; for (int twice = 0; twice < 2; ++twice)
  {
    MCHECK(h(path("a.bnd")) == EXIT_SUCCESS, "bnd-helper", ""); mc::transition();
    MCHECK(h.dim_geom() == 3 && (int)h.geometry_size() == b.np && h.segment_size() == b.seg.size() && h.contact_size() == b.contact.size(), "bnd-helper", "sizes");
    for (int i = 0; i < b.np && i < (int)h.geometry_size(); ++i) for (int d = 0; d < 3; ++d) MCHECK(h.point(i)[d] == X(i,d), "bnd-helper", "point");
    for (size_t s = 0; s < b.seg.size() && s < h.segment_size(); ++s)
    {
      MCHECK(h.segment_name(s) == b.name[s] && h.segment_material(s) == b.mat[s], "bnd-names", h.segment_name(s) + "/" + h.segment_material(s));
      vg::io::bnd_helper::polygon_container_type & p = h.segment(s); if (!MCHECK(p.size() == b.seg[s].size(), "bnd-helper", "faces")) continue;
      for (size_t k = 0; k < p.size(); ++k)
      { // cyclic order of the corners (or its reverse)
        VI const & q = b.faces[std::abs(b.seg[s][k]) - 1]; VI g(p[k].begin(), p[k].end()); bool ok = false;
        for (size_t r = 0; r < q.size(); ++r) { VI z(q); std::rotate(z.begin(), z.begin() + r, z.end()); ok |= z == g; std::reverse(z.begin(), z.end()); ok |= z == g; }
        MCHECK(ok, "bnd-faces", show(g) + " instead of " + show(q)); }
    }
    for (size_t g = 0; g < b.contact.size() && g < h.contact_size(); ++g)
    {
      std::string want = b.cname[g]; size_t gi = g; // contacts are numbered in the order of the regions
      if (!b.order.empty()) { std::vector<int> o; for (size_t k = 0; k < b.order.size(); ++k) if (b.order[k] >= (int)b.seg.size()) o.push_back(b.order[k] - (int)b.seg.size()); gi = o[g]; want = b.cname[gi]; }
      MCHECK(h.contact_name(g) == want, "bnd-names", h.contact_name(g));
      vg::io::bnd_helper::contact_face_container_type p = h.contact_faces(g); if (!MCHECK(p.size() == b.contact[gi].size(), "bnd-contacts", "count")) continue;
      for (size_t k = 0; k < p.size(); ++k) { VI z(p[k].begin(), p[k].end()); MCHECK(sorted(z) == sorted(b.faces[b.contact[gi][k]]), "bnd-contacts", show(z)); }
    }
    h.clear();
  }
  if (mesh) { M m; SG sg(m); vg::io::bnd_reader r; r(m, sg, path("a.bnd")); mc::transition(); check_bnd_mesh(m, sg, b); }
}
static Bnd bnd_base(int np)
{
  Bnd b; b.np = np; b.style = 0;
  b.edges = tup("0,1;2,0;0,3;1,2;3,1;2,3;4,1;4,2;3,4"); b.faces = tup("0,1,2;0,3,1;0,2,3;1,2,3;1,4,2;2,4,3;3,4,1");
  return b;
}
static std::string show_bnd(Bnd const & b) { std::string s = "edges" + show(b.edges) + " faces" + show(b.faces) + " segs"; for (size_t i = 0; i < b.seg.size(); ++i) s += show(b.seg[i]); return s + " contacts" + show(b.contact) + " order" + show(b.order) + " style" + mc::str(b.style); }
static void go_bnd(Bnd const & b, bool mesh) { if (!mc::begin_case()) return; mc::trace(show_bnd(b)); mc::state(show_bnd(b)); check_bnd(b, mesh); mc::outcome(show(b.contact) + mc::str(b.seg.size())); }
static void all_bnd(bool T)
{
  static const char * N[] = {"Bond_oxide", "gate 1", "x"}; static const char * A[] = {"Oxide", "Silicon", "Copper"};
  mc::begin_group("directions");                        // direction of every edge, rotation and reflection of the faces
  for (int mask = 0; mask < 512; ++mask) for (int rot = 0; rot < 6; ++rot)
  {
    Bnd b = bnd_base(5 + mask % 3); for (int e = 0; e < 9; ++e) if (mask >> e & 1) std::swap(b.edges[e][0], b.edges[e][1]);
    for (size_t f = 0; f < b.faces.size(); ++f) { std::rotate(b.faces[f].begin(), b.faces[f].begin() + rot % 3, b.faces[f].end()); if ((rot / 3 + f) % 2) std::reverse(b.faces[f].begin(), b.faces[f].end()); }
    b.seg.push_back(tup("1,2,3,4")[0]); b.seg.push_back(tup("5,6,7")[0]); b.seg[1].push_back(-4); for (int s = 0; s < 2; ++s) { b.name.push_back(N[s]); b.mat.push_back(A[s]); }
    go_bnd(b, true);
  }
  mc::begin_group("segments");                          // every assignment of the 7 faces to two segments
  for (int code = 0; code < 16384; ++code)
  {
    Bnd b = bnd_base(5); VI s0, s1; int c = code; for (int f = 0; f < 7; ++f, c /= 4) { int sg = (f + code / 7) % 2 ? 1 : -1; if (c & 1) s0.push_back(sg * (f + 1)); if (c & 2) s1.push_back(-sg * (f + 1)); }
    if (!T && code % 3) continue;
    if (code % 2) std::reverse(s1.begin(), s1.end());
    b.seg.push_back(s0); b.seg.push_back(s1); b.style = code % 4; for (int s = 0; s < 2; ++s) { b.name.push_back(N[s]); b.mat.push_back(A[s]); }
    go_bnd(b, true);
  }
  mc::begin_group("contacts");                          // 0-2 groups of contact triangles, all orders of the regions
  VVI cg = tup("0;6;0,5;3,1,2;6,4");
  for (int ns = 1; ns <= 3; ++ns) for (int nc = 0; nc <= 2; ++nc) for (int a = 0; a < 5; ++a) for (int b2 = 0; b2 < (nc == 2 ? 5 : 1); ++b2)
  {
    VI o; for (int i = 0; i < ns + nc; ++i) o.push_back(i);
    do
    {
      // the elements of the contacts follow in the order of their regions, so only orders keeping the contacts in order describe the same file
      Bnd b = bnd_base(5); b.style = (a + nc) % 4; static const char * S[] = {"1,2,3,4", "5,6,7,4", "2,6"};
      for (int s = 0; s < ns; ++s) { b.seg.push_back(tup(S[s])[0]); b.name.push_back(N[s]); b.mat.push_back(A[s]); }
      if (nc > 0) { b.contact.push_back(cg[a]); b.cname.push_back("anode"); } if (nc > 1) { b.contact.push_back(cg[b2]); b.cname.push_back("the cathode"); }
      b.order = o; go_bnd(b, true);
    } while (std::next_permutation(o.begin(), o.end()));
  }
  mc::begin_group("polygons");                          // faces with more corners (helper only)
  for (int mask = 0; mask < 1024; ++mask) for (int rot = 0; rot < 5; ++rot)
  {
    Bnd b; b.np = 7; b.style = 0; b.edges = tup("0,1;1,2;2,3;3,4;4,0;4,2;2,0;3,0;5,4;5,3"); for (int e = 0; e < 10; ++e) if (mask >> e & 1) std::swap(b.edges[e][0], b.edges[e][1]);
    b.faces = tup("0,1,2,3,4;0,1,2,4;0,2,3;3,4,5;0,3,5,4"); for (size_t f = 0; f < b.faces.size(); ++f) std::rotate(b.faces[f].begin(), b.faces[f].begin() + rot % b.faces[f].size(), b.faces[f].end());
    b.seg.push_back(tup("1,3,5")[0]); b.seg.push_back(tup("2,4,5")[0]); b.seg[1][2] = -5; for (int s = 0; s < 2; ++s) { b.name.push_back(N[s]); b.mat.push_back(A[s]); }
    go_bnd(b, false);
  }
}
// ------------------------------------------------------------------ neper
struct Tess { VI id; VVI faces; std::vector<std::pair<int,int> > poly; int style; };
static std::string tess_text(Tess const & t)
{
  const std::string s = t.style & 1 ? "\t " : " "; std::string r = "***tess\n **format\n   1.10\n **general\n   2 standard\n **vertex\n   " + mc::str(t.id.size()) + "\n";
  for (size_t i = 0; i < t.id.size(); ++i) r += s + mc::str(t.id[i]) + "  2 7 8\n     1 9\n" + s + num(X(i,0)) + s + num(X(i,1)) + s + num(X(i,2)) + s + "0\n";
  r += " **edge\n   1\n   1 2 3 4\n   5 6\n   0\n **face\n   " + mc::str(t.faces.size()) + "\n";
  for (size_t f = 0; f < t.faces.size(); ++f) { r += s + mc::str(f + 1) + "\n   2 1 2\n   9 9 9\n" + s + mc::str(t.faces[f].size()); for (size_t k = 0; k < t.faces[f].size(); ++k) r += s + mc::str(t.id[t.faces[f][k]]); r += "\n   3 1 2 3\n   0.5 1 0 0\n   0 0\n"; }
  r += " **polyhedron\n   " + mc::str(t.poly.size()) + "\n"; for (size_t k = 0; k < t.poly.size(); ++k) r += s + mc::str(t.poly[k].second) + s + num(X(t.poly[k].first,0)) + s + num(X(t.poly[k].first,1)) + s + num(X(t.poly[k].first,2)) + s + "77\n   4 1 2 3 4\n   4 1 1 1 1\n";
  return r + (t.style & 2 ? "***end" : "***end\n");
}
typedef vg::plc_3d_mesh PM; typedef vg::result_of::point<PM>::type PP; typedef std::vector<std::pair<PP,int> > Seeds;
static void check_tess(PM const & m, Seeds const & seeds, Tess const & t)
{
  typedef vg::result_of::const_vertex_range<PM>::type VR; VR vr(m); int k = 0; MCHECK(vr.size() == t.id.size(), "tess-vertices", mc::str(vr.size()));
  std::map<int,int> pos; for (vg::result_of::iterator<VR>::type i = vr.begin(); i != vr.end(); ++i, ++k) { pos[(int)i->id().get()] = k; for (int d = 0; d < 3; ++d) MCHECK(vg::point(m, *i)[d] == X(k,d), "tess-vertices", mc::str(k)); }
  typedef vg::result_of::const_element_range<PM, vg::plc_tag>::type PR; PR pr(m); size_t f = 0; std::set<VI> lines;
  if (!MCHECK(pr.size() == t.faces.size(), "tess-faces", mc::str(pr.size()))) return;
  for (vg::result_of::iterator<PR>::type i = pr.begin(); i != pr.end(); ++i, ++f)
  {
    std::set<VI> want, got; VI const & q = t.faces[f]; for (size_t v = 0; v < q.size(); ++v) { VI e; e.push_back(q[v]); e.push_back(q[(v+1) % q.size()]); want.insert(sorted(e)); } lines.insert(want.begin(), want.end());
    typedef vg::result_of::element<PM, vg::plc_tag>::type PE; typedef vg::result_of::const_element_range<PE, vg::line_tag>::type LR; LR lr(*i);
    for (vg::result_of::iterator<LR>::type l = lr.begin(); l != lr.end(); ++l) { VI e = vids(*l); e[0] = pos[e[0]]; e[1] = pos[e[1]]; MCHECK(got.insert(sorted(e)).second, "tess-faces", "line twice"); }
    MCHECK(got == want, "tess-faces", show(got) + " instead of " + show(want));
    VI v = vids(*i); SI gv; for (size_t z = 0; z < v.size(); ++z) MCHECK(gv.insert(pos[v[z]]).second, "tess-faces", "vertex twice"); MCHECK(gv == SI(q.begin(), q.end()), "tess-faces", show(gv));
  }
  MCHECK(vg::lines(m).size() == lines.size(), "tess-lines", mc::str(vg::lines(m).size()) + " instead of " + mc::str(lines.size()));
  bool ok = seeds.size() == t.poly.size(); for (size_t z = 0; ok && z < seeds.size(); ++z) { ok = seeds[z].second == t.poly[z].second; for (int d = 0; d < 3; ++d) ok &= seeds[z].first[d] == X(t.poly[z].first, d); } MCHECK(ok, "tess-seeds", "");
}
static Tess make_tess(VI const & fk, int ids, int np, int style)
{
  static VVI kinds = tup("0,1,2;3,1,0,2;4,0,3;1,2,3,4,0;2,4,3;0,4"); Tess t; t.style = style;
  for (int i = 0; i < 5; ++i) t.id.push_back(ids == 0 ? i + 1 : ids == 1 ? 9 - 2 * i : ids == 2 ? (i * 3 + 1) % 7 : i * 100 - 150);
  for (size_t i = 0; i < fk.size(); ++i) t.faces.push_back(kinds[fk[i]]); for (int i = 0; i < np; ++i) t.poly.push_back(std::make_pair((i + 5) % 7, 4 - 3 * i)); return t;
}
static void all_tess(bool T)
{
  for (int nf = 0; nf <= (T ? 4 : 3); ++nf)
  {
    mc::begin_group("faces-" + mc::str(nf)); long n = 1; for (int k = 0; k < nf; ++k) n *= 6;
    for (long code = 0; code < n; ++code) for (int ids = 0; ids < 4; ++ids) for (int np = 0; np < 4; ++np) for (int style = 0; style < 4; ++style)
    {
      VI fk; long c = code; for (int k = 0; k < nf; ++k, c /= 6) fk.push_back((int)(c % 6)); if (SI(fk.begin(), fk.end()).size() != fk.size()) continue;
      if (!mc::begin_case()) continue;
      Tess t = make_tess(fk, ids, np, style); std::string id = "faces" + show(fk) + " ids" + mc::str(ids) + " polyhedra" + mc::str(np) + " style" + mc::str(style); mc::trace(id); mc::state(id);
      put(path("a.tess"), tess_text(t)); vg::io::neper_tess_reader r;
      { PM m; Seeds s(2); r(m, path("a.tess"), s); mc::transition(); check_tess(m, s, t); }
      if (style == 0) { PM m; r(m, path("a.tess")); mc::transition(); Seeds s; Tess u = t; u.poly.clear(); check_tess(m, s, u); }
      mc::outcome(show(fk));
    }
  }
}
// ------------------------------------------------------------------ damage
#if FORMAT >= 2
static void damage(int cfg)
{
  Bnd b = bnd_base(5); Tess t; std::string text;
  if (FORMAT == 2)
  {
    b.style = cfg; b.seg.push_back(tup("1,2,3,4")[0]); b.name.push_back("a"); b.mat.push_back("Oxide");
    if (cfg) { b.seg.push_back(tup("5,6,7")[0]); b.seg[1].push_back(-4); b.name.push_back("b c"); b.mat.push_back("Si"); b.contact = tup("0,5;2"); b.cname.push_back("k"); b.cname.push_back("l"); }
    text = bnd_text(b);
  }
  else { t = make_tess(cfg == 0 ? tup("0,2")[0] : cfg == 1 ? tup("1,4,5")[0] : tup("3")[0], cfg, cfg, cfg); text = tess_text(t); }
  size_t last = text.find_last_not_of(" \r\n\t");
  for (int op = 0; op < 6; ++op)
  {
    static const char * OP[] = {"cut", "remove", "garble", "repeat", "negate", "enlarge"};
    mc::begin_group((FORMAT == 2 ? "bnd-" : "tess-") + mc::str(cfg) + OP[op]); std::vector<std::pair<size_t,size_t> > tok;
    for (size_t p = 0; p < text.size(); ) { if (isspace(text[p])) { ++p; continue; } size_t e = p; while (e < text.size() && !isspace(text[e])) ++e; tok.push_back(std::make_pair(p, e)); p = e; }
    for (size_t i = 0; i < (op == 0 ? text.size() + 1 : tok.size()); ++i)
    {
      if (!mc::begin_case()) continue;
      std::string w = op ? text.substr(tok[i].first, tok[i].second - tok[i].first) : "";
      std::string d = op == 0 ? text.substr(0, i) : text.substr(0, tok[i].first) + (op == 1 ? "" : op == 2 ? "x" : op == 3 ? w + " " + w : op == 4 ? (w[0] == '(' ? "(-" + w.substr(1) : "-" + w) : (w[0] == '(' ? "(9" + w.substr(1) : "9" + w)) + text.substr(tok[i].second);
      mc::trace(std::string(OP[op]) + " " + mc::str(i)); mc::state(mc::str(cfg) + OP[op] + mc::str(i)); put(path("d"), d);
      bool failed = false; std::string what;
      if (FORMAT == 2)
      {
        M m; SG sg(m); vg::io::bnd_reader r; try { r(m, sg, path("d")); } catch (std::exception const & e) { failed = true; what = e.what(); }
        // what follows here matters for the names of the last region only, not for the mesh
        size_t need = text.rfind("Elements (") + 8;
        if (op == 0 && i < need) MCHECK(failed, "bnd-bad-accepted", "cut not reported");
        if (op == 0 && i > last) { MCHECK(!failed, "bnd-rejected", what); check_bnd_mesh(m, sg, b); }
      }
      else
      {
        PM m; Seeds s; vg::io::neper_tess_reader r; try { r(m, path("d"), s); } catch (std::exception const & e) { failed = true; what = e.what(); }
        if (op == 0 && i > last) { MCHECK(!failed, "tess-rejected", what); check_tess(m, s, t); }
      }
      mc::transition(); mc::outcome(failed ? what.substr(what.size() > 40 ? what.size() - 40 : 0) : "ok");
    }
  }
}
#endif
int main(int argc, char ** argv)
{
  mc::init(argc, argv); std::cout.rdbuf(0); std::cerr.rdbuf(0);
  const bool T = mc::S().thorough; (void)T;
#if FORMAT == 0
  all_bnd(T);
#elif FORMAT == 1
  all_tess(T);
#else
  mc::S().case_timeout = 20; for (int c = 0; c < 3; ++c) damage(c);
#endif
  return mc::finish();
}
