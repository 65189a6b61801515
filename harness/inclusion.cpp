// P15: point inclusion, bounding boxes, normals, determinants and
// orthogonalisation on every placement of small integer grids.
#ifndef KIND
#define KIND 0
#endif
#include "geo.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/algorithm/inclusion.hpp"
#include "viennagrid/algorithm/geometry.hpp"
#if KIND==0
typedef vg::triangular_2d_mesh M;
#elif KIND==1
typedef vg::triangular_3d_mesh M;
#elif KIND==2
typedef vg::tetrahedral_3d_mesh M;
#elif KIND==3
typedef vg::line_1d_mesh M;
#elif KIND==4
typedef vg::quadrilateral_3d_mesh M;
#endif
typedef vg::result_of::cell_tag<M>::type CT;
typedef vg::result_of::cell<M>::type Cell;
typedef vg::result_of::cell_handle<M>::type CH;
typedef vg::result_of::vertex_handle<M>::type VH;
typedef vg::result_of::point<M>::type Point;
static const int GD = vg::result_of::geometric_dimension<M>::value;
static Point mk(P3 p) { return mkpoint<M>(p.c[0], p.c[1], p.c[2]); }

#if KIND <= 2
// exact for grid coordinates: signs of integer (half-integer) determinants.
// The barycentric weights are computed per facet from the opposite vertex.
static bool inside(VP const & v, P3 p)
{
#if KIND == 2
  double d = det(v[1]-v[0], v[2]-v[0], v[3]-v[0]); double s = d > 0 ? 1 : -1;
  double w[4] = { det(v[1]-p, v[2]-p, v[3]-p), -det(v[0]-p, v[2]-p, v[3]-p), det(v[0]-p, v[1]-p, v[3]-p), -det(v[0]-p, v[1]-p, v[2]-p) };
  for (int i = 0; i < 4; ++i) if (s * w[i] < 0) return false; return true;
#else
  P3 n = cross(v[1]-v[0], v[2]-v[0]); // p lies in the plane
  for (int i = 0; i < 3; ++i) if (dot(n, cross(v[(i+1)%3]-v[i], p-v[i])) < 0) return false; return true;
#endif
}
static void incl(VP const & v, VP const & q, double sc, double off)
{
  if (!mc::begin_case()) return;
  mc::trace(show(v) + " scale " + mc::str(sc) + " shift " + mc::str(off));
  struct F { static P3 map(P3 p, double sc, double off) { P3 x = sc * p; for (int k = 0; k < GD; ++k) x.c[k] += off * (k + 1); return x; } };
  M m; std::vector<VH> h; for (size_t i = 0; i < v.size(); ++i) h.push_back(vg::make_vertex(m, mk(F::map(v[i], sc, off))));
  Cell const & c = vg::dereference_handle(m, vg::make_element<CT>(m, h.begin(), h.end()));
  P3 n = cross(v[1]-v[0], v[2]-v[0]); int in = 0; Doubled<M> far(m);
  for (size_t i = 0; i < q.size(); ++i)
  {
    if (KIND == 1 && dot(n, q[i] - v[0]) != 0) continue;
    mc::transition();
    bool w = inside(v, q[i]); in += w; Point x = mk(F::map(q[i], sc, off));
    bool a = vg::is_inside(c, x), b = vg::is_inside(c, x, 1e-8), d = vg::is_inside(vg::default_point_accessor(m), c, x, 1e-8);
    if (off == 0 || w == false) MCHECK(a == w, w ? "inside-missed" : "outside-accepted", show(q[i]));
    MCHECK(b == w && d == w, "tolerance-variant", show(q[i]) + " default " + mc::str(a) + " 1e-8 " + mc::str(b) + " accessor " + mc::str(d) + " want " + mc::str(w));
    if (off == 0) { Point y = x; y *= 2.0; MCHECK(vg::is_inside(far(), c, y, 1e-8) == w, "own-positions", show(q[i])); }
  }
  mc::outcome(mc::str(in));
}
#endif

typedef vg::result_of::segmentation<M>::type SEG;
typedef vg::result_of::segment_handle<SEG>::type SGH;
static bool is(std::pair<Point,Point> const & b, P3 lo, P3 hi) { return p3(b.first) == lo && p3(b.second) == hi; }
static void bbox_of(VP const & v, P3 & lo, P3 & hi) { lo = hi = v[0]; for (size_t i = 1; i < v.size(); ++i) for (int k = 0; k < 3; ++k) { lo.c[k] = std::min(lo.c[k], v[i].c[k]); hi.c[k] = std::max(hi.c[k], v[i].c[k]); } }
// vertices p; the cells of `cells` go to segments 0 / 1 / both / none
static void boxes(VP const & p, VVI const & cells, VI const & seg)
{
  if (!mc::begin_case()) return; mc::trace(show(p) + show(cells) + show(seg)); mc::transition();
  M m; SEG s(m); std::vector<VH> h; for (size_t i = 0; i < p.size(); ++i) h.push_back(vg::make_vertex(m, mk(p[i])));
  std::vector<SGH> sg; for (int i = 0; i < 2; ++i) sg.push_back(s.make_segment()); SI vs[2];
  for (size_t c = 0; c < cells.size(); ++c) { std::vector<VH> k; for (size_t i = 0; i < cells[c].size(); ++i) k.push_back(h[cells[c][i]]); CH ch = vg::make_cell(m, k.begin(), k.end());
    for (int g = 0; g < 2; ++g) if (seg[c] >> g & 1) { vg::add(sg[g], vg::dereference_handle(m, ch)); for (size_t i = 0; i < cells[c].size(); ++i) vs[g].insert(cells[c][i]); } }
  P3 lo, hi; bbox_of(p, lo, hi); mc::outcome(show(lo) + show(hi));
  MCHECK(is(vg::bounding_box(m), lo, hi), "bounding-box", show(p3(vg::bounding_box(m).first)) + show(p3(vg::bounding_box(m).second)));
  MCHECK(std::fabs(vg::mesh_size(m) - dist(lo, hi)) < 1e-12 * (1 + dist(lo, hi)), "mesh-size", mc::str(vg::mesh_size(m)));
  std::vector<Point> pp; for (size_t i = 0; i < p.size(); ++i) pp.push_back(mk(p[i]));
  MCHECK(is(vg::bounding_box(pp.begin(), pp.end()), lo, hi), "bounding-box-points", "");
  for (int g = 0; g < 2; ++g) if (!vs[g].empty())
  { VP q; for (SI::iterator i = vs[g].begin(); i != vs[g].end(); ++i) q.push_back(p[*i]); bbox_of(q, lo, hi); MCHECK(is(vg::bounding_box(sg[g]), lo, hi), "bounding-box-segment", mc::str(g)); MCHECK(std::fabs(vg::mesh_size(sg[g]) - dist(lo, hi)) < 1e-12 * (1 + dist(lo, hi)), "mesh-size-segment", ""); }
}

int main(int argc, char ** argv)
{
  mc::init(argc, argv); const bool T = mc::S().thorough;
#if KIND <= 2
  mc::begin_group("inclusion");
  { VP g = grid(KIND == 0 ? 4 : 3, GD), q; VVI a = arrangements((int)g.size(), KIND == 2 ? 4 : 3);
    for (int x = -2; x <= (KIND == 0 ? 8 : 6); ++x) for (int y = -2; y <= (KIND == 0 ? 8 : 6); ++y) for (int z = (GD == 3 ? -2 : 0); z <= (GD == 3 ? 6 : 0); ++z) { if (KIND == 2 && !T && (x + y + z) % 2) continue; q.push_back(P3(x / 2.0, y / 2.0, z / 2.0)); }
    for (size_t i = 0; i < a.size(); ++i)
    { VP v; for (size_t k = 0; k < a[i].size(); ++k) v.push_back(g[a[i][k]]);
      if (KIND == 2 ? tet_vol(v[0],v[1],v[2],v[3]) == 0 : tri_area(v[0],v[1],v[2]) == 0) continue;
      if (KIND == 2 && !T && i % 4) { VI o = sorted(a[i]); if (a[i] != o) continue; }
      incl(v, q, 1, KIND == 2 && !T ? (i % 3 == 0 ? 0 : i % 3 == 1 ? -1 : -8) : 0); if (KIND != 2 || T) { incl(v, q, 1, 16); incl(v, q, 1, -1); incl(v, q, 2, -16); incl(v, q, 0.015625, 0); incl(v, q, 512, 0); } } }
#endif
  mc::begin_group("boxes");
  { // every pair of corner values per axis, including all-negative and all-positive meshes
    double val[] = { -7, -2, 0, 3, 11 };
#if KIND == 3
    for (int a = 0; a < 5; ++a) for (int b = 0; b < 5; ++b) for (int c = 0; c < 5; ++c) if (a != b && b != c && c != a) { VP p; p.push_back(P3(val[a])); p.push_back(P3(val[b])); p.push_back(P3(val[c])); for (int s = 0; s < 16; ++s) boxes(p, tup("0,1;1,2"), tup(("" + mc::str(s % 4) + "," + mc::str(s / 4)).c_str())[0]); }
#else
    VP pts; for (int a = 0; a < 5; ++a) for (int b = 0; b < 5; ++b) for (int c = 0; c < (GD == 3 ? 5 : 1); ++c) pts.push_back(P3(val[a], val[b], GD == 3 ? val[(a + 2*b + 3*c) % 5] : 0));
    int n = (int)pts.size(), nv = Shape<CT>::nv, st = GD == 3 ? 3 : 1;
    for (int i = 0; i < n; i += st) for (int j = 0; j < n; j += 2*st) for (int k = 1; k < n; k += 5)
    { VP p; for (int l = 0; l < nv + 1; ++l) p.push_back(pts[(i + (l == 1 ? j : l == 2 ? k : l == 3 ? j + k : l == 4 ? 2*j + 3 : 0)) % n]);
      VI c0, c1; for (int l = 0; l < nv; ++l) { c0.push_back(l); c1.push_back(l + 1); } VVI cs; cs.push_back(c0); cs.push_back(c1);
      VI s(2); s[0] = (i + j) % 4; s[1] = (k + j / 2 + i) % 4; boxes(p, cs, s); if (T) for (int x = 0; x < 16; ++x) { s[0] = x % 4; s[1] = x / 4; boxes(p, cs, s); } }
#endif
  }
  mc::begin_group("vectors");
#if KIND == 0 || KIND == 1 || KIND == 4
  { VP g = grid(3, GD); VVI a = arrangements((int)g.size(), KIND == 0 ? 2 : 3);
    for (size_t i = 0; i < a.size(); ++i)
    {
      if (!mc::begin_case()) continue; mc::transition();
      VP v; for (size_t k = 0; k < a[i].size(); ++k) v.push_back(g[a[i][k]]); if (KIND == 4) v.push_back(v[1] + v[2] - v[0]); mc::trace(show(v));
      M m; std::vector<VH> h; for (size_t k = 0; k < v.size(); ++k) h.push_back(vg::make_vertex(m, mk(v[k])));
#if KIND == 0
      vg::result_of::line<M>::type const & el = vg::dereference_handle(m, vg::make_line(m, h[0], h[1])); Doubled<M> far(m);
      P3 n = p3(vg::normal_vector(el)), e = v[1] - v[0]; MCHECK(p3(vg::normal_vector(far(), el)) == 2.0 * n, "normal-vector-own-positions", show(v));
      MCHECK(n == P3(-e.c[1], e.c[0], 0), "normal-vector", show(n));
#else
      Cell const & el = vg::dereference_handle(m, vg::make_element<CT>(m, h.begin(), h.end())); Doubled<M> far(m);
      P3 n = p3(vg::normal_vector(el)); MCHECK(p3(vg::normal_vector(far(), el)) == 4.0 * n, "normal-vector-own-positions", show(v));
      MCHECK(n == cross(v[1]-v[0], v[2]-v[0]), "normal-vector", show(n));
#endif
    } }
#endif
#if KIND == 0 || KIND == 2
  { VP g; for (int x = -2; x <= 2; ++x) for (int y = -1; y <= 2; ++y) for (int z = (GD == 3 ? -1 : 0); z <= (GD == 3 ? 1 : 0); ++z) g.push_back(P3(x,y,z));
    int n = (int)g.size(), tot = 1; for (int k = 0; k < 3; ++k) tot *= n;
    for (int i = 0; i < tot; ++i)
    {
      if (!mc::begin_case()) continue; mc::transition();
      VP v; v.push_back(g[i % n]); v.push_back(g[i / n % n]); v.push_back(g[i / n / n]); mc::trace(show(v)); Point a = mk(v[0]), b = mk(v[1]), c = mk(v[2]);
#if KIND == 0
      MCHECK(vg::determinant(a, b) == v[0].c[0]*v[1].c[1] - v[0].c[1]*v[1].c[0], "determinant", "");
#else
      MCHECK(vg::determinant(a, b, c) == det(v[0], v[1], v[2]), "determinant", mc::str(vg::determinant(a,b,c)));
#endif
      // rank by exact arithmetic
      int rank; bool any = false, two = false; for (int k = 0; k < 3; ++k) { any |= len(v[k]) > 0; two |= len(cross(v[k], v[(k+1)%3])) > 0; } rank = det(v[0],v[1],v[2]) != 0 ? 3 : two ? 2 : any ? 1 : 0;
      std::vector<Point> w; w.push_back(a); w.push_back(b); w.push_back(c); std::size_t got = vg::orthogonalize(w.begin(), w.end(), 1e-8); mc::outcome(mc::str(rank));
      MCHECK((int)got == rank, "orthogonalize-rank", mc::str(got) + " want " + mc::str(rank));
      bool ok = true; for (size_t x = 0; x < got && x < 3; ++x) { ok &= len(p3(w[x])) > 1e-6; for (size_t y = 0; y < x; ++y) ok &= std::fabs(dot(p3(w[x]), p3(w[y]))) < 1e-9; }
      MCHECK(ok, "orthogonalize-orthogonal", show(p3(w[0])) + show(p3(w[1])) + show(p3(w[2])));
      // same span: every input is the sum of its projections
      ok = true; for (int k = 0; k < 3; ++k) { P3 r = v[k]; for (size_t x = 0; x < got && x < 3; ++x) { P3 e = p3(w[x]); r = r - (dot(v[k], e) / dot(e, e)) * e; } ok &= len(r) < 1e-9; }
      MCHECK(ok, "orthogonalize-span", "");
    } }
#endif
  return mc::finish();
}
