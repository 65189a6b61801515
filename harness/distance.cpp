// P16: distances and closest points are true minima, for every placement of
// the two arguments on small integer grids.
// Oracle: distance of two convex hulls = norm of the shortest vector of the
// hull of all vertex differences, found by enumerating all vertex subsets.
#ifndef KIND
#define KIND 0
#endif
#include "geo.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/algorithm/distance.hpp"
#include "viennagrid/algorithm/closest_points.hpp"
#if KIND==0
typedef vg::line_1d_mesh M;
#elif KIND==1
typedef vg::triangular_2d_mesh M;
#elif KIND==2
typedef vg::triangular_3d_mesh M;
#elif KIND==3
typedef vg::quadrilateral_2d_mesh M;
#elif KIND==4
typedef vg::quadrilateral_3d_mesh M;
#elif KIND==5
typedef vg::tetrahedral_3d_mesh M;
#elif KIND==6
typedef vg::hexahedral_3d_mesh M;
#endif
typedef vg::result_of::cell_tag<M>::type CT;
typedef vg::result_of::cell<M>::type Cell;
typedef vg::result_of::cell_handle<M>::type CH;
typedef vg::result_of::vertex_handle<M>::type VH;
typedef vg::result_of::vertex<M>::type Vertex;
typedef vg::result_of::line<M>::type Line;
typedef vg::result_of::point<M>::type Point;
typedef std::pair<Point,Point> PP;
static const int GD = vg::result_of::geometric_dimension<M>::value;
static Point mk(P3 p) { return mkpoint<M>(p.c[0], p.c[1], p.c[2]); }

// ---- oracle -----------------------------------------------------------------
// shortest vector of the hull of the points selected, or a negative number if
// the projection of the origin is not inside their hull
static double proj(P3 const * v, int n)
{
  if (n == 1) return len(v[0]);
  P3 e[3]; double A[3][4]; int k = n - 1;
  for (int i = 0; i < k; ++i) e[i] = v[i+1] - v[0];
  for (int i = 0; i < k; ++i) { for (int j = 0; j < k; ++j) A[i][j] = dot(e[i], e[j]); A[i][k] = -dot(e[i], v[0]); }
  double sc = 1e-300; for (int i = 0; i < k; ++i) sc = std::max(sc, A[i][i]);
  for (int i = 0; i < k; ++i)
  { int p = i; for (int j = i; j < k; ++j) if (std::fabs(A[j][i]) > std::fabs(A[p][i])) p = j; if (std::fabs(A[p][i]) < 1e-10 * sc) return -1;
    for (int j = 0; j <= k; ++j) std::swap(A[i][j], A[p][j]);
    for (int j = 0; j < k; ++j) if (j != i) { double f = A[j][i] / A[i][i]; for (int l = i; l <= k; ++l) A[j][l] -= f * A[i][l]; } }
  P3 x = v[0]; double s = 0; for (int i = 0; i < k; ++i) { double w = A[i][k] / A[i][i]; if (w < 0) return -1; s += w; x = x + w * e[i]; }
  return s > 1 + 1e-12 ? -1 : len(x);
}
static double hull_norm(VP const & d)
{
  double best = 1e300; int n = (int)d.size(); P3 v[4];
  for (int a = 0; a < n; ++a) { v[0] = d[a]; best = std::min(best, proj(v, 1));
    for (int b = a + 1; b < n; ++b) { v[1] = d[b]; double x = proj(v, 2); if (x >= 0) best = std::min(best, x);
      if (GD >= 2) for (int c = b + 1; c < n; ++c) { v[2] = d[c]; x = proj(v, 3); if (x >= 0) best = std::min(best, x);
        if (GD >= 3) for (int e = c + 1; e < n; ++e) { v[3] = d[e]; x = proj(v, 4); if (x >= 0) best = std::min(best, x); } } } }
  return best;
}
static double ref(VP const & a, VP const & b) { VP d; for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) d.push_back(a[i] - b[j]); return hull_norm(d); }
typedef std::vector<VP> VVP;   // union of convex pieces
static double ref(VVP const & a, VVP const & b) { double r = 1e300; for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) r = std::min(r, ref(a[i], b[j])); return r; }
static VVP one(VP const & a) { return VVP(1, a); }
static VVP one(P3 a) { return VVP(1, VP(1, a)); }
static double TOL = 1e-9;
static bool on(P3 p, VVP const & a) { return ref(one(p), a) <= TOL; }
static bool near(double a, double b) { return std::fabs(a - b) <= TOL; }
static void pair_ok(PP const & p, VVP const & a, VVP const & b, double w, const char * key)
{
  P3 x = p3(p.first), y = p3(p.second);
  MCHECK(near(dist(x, y), w), std::string(key) + "-pair-distance", show(x) + show(y) + " apart " + mc::str(dist(x,y)) + " want " + mc::str(w));
  MCHECK((on(x, a) && on(y, b)) || (on(y, a) && on(x, b)), std::string(key) + "-pair-location", show(x) + show(y));
}
static Point twice(Point p) { p *= 2.0; return p; }
static PP half(PP p) { p.first *= 0.5; p.second *= 0.5; return p; }
template<class E> E const & twice(E const & e) { return e; }
template<class X, class Y> void both(M const & m, Doubled<M>::type const & far, X const & x, Y const & y, VVP const & a, VVP const & b, const char * key)
{
  double w = ref(a, b); mc::outcome(std::string(key) + mc::str(w)); mc::transition();
  double g1 = vg::distance(x, y), g2 = vg::distance(y, x), g3 = vg::distance(vg::default_point_accessor(m), x, y);
  MCHECK(near(g1, w), key, "have " + mc::str(g1) + " want " + mc::str(w));
  MCHECK(near(g2, w), std::string(key) + "-swapped", "have " + mc::str(g2) + " want " + mc::str(w));
  MCHECK(near(g3, w), std::string(key) + "-accessor", "have " + mc::str(g3) + " want " + mc::str(w));
  pair_ok(vg::closest_points(vg::default_point_accessor(m), x, y), a, b, w, key);
  pair_ok(vg::closest_points(vg::default_point_accessor(m), y, x), a, b, w, key);
  std::string own = std::string(key) + "-own-positions"; double g4 = vg::distance(far, twice(x), twice(y)); MCHECK(near(g4 / 2, w), own, "have " + mc::str(g4) + " want " + mc::str(2 * w));
  pair_ok(half(vg::closest_points(far, twice(x), twice(y))), a, b, w, own.c_str()); pair_ok(half(vg::closest_points(far, twice(y), twice(x))), a, b, w, own.c_str());
}

// ---- element / point --------------------------------------------------------
static P3 mv(P3 p, double sc, double off) { P3 x = sc * p; for (int k = 0; k < GD; ++k) x.c[k] += off * (k + 1); return x; }
static void elem(VP const & v, VP const & q, double sc = 1, double off = 0)
{
  if (!mc::begin_case()) return; mc::trace(show(v) + " scale " + mc::str(sc) + " shift " + mc::str(off)); TOL = 1e-9 * (sc + std::fabs(off));
  M m; std::vector<VH> h; VP u; for (size_t i = 0; i < v.size(); ++i) { u.push_back(mv(v[i], sc, off)); h.push_back(vg::make_vertex(m, mk(u[i]))); }
  Cell const & c = vg::dereference_handle(m, vg::make_element<CT>(m, h.begin(), h.end()));
  Line const & l = *vg::lines(m).begin(); VP lp; { VI t = vids(l); lp.push_back(u[t[0]]); lp.push_back(u[t[1]]); }
  Doubled<M> far(m);
  for (size_t i = 0; i < q.size(); ++i)
  {
    P3 p = mv(q[i], sc, off); Point x = mk(p); mc::trace(show(v) + " scale " + mc::str(sc) + " shift " + mc::str(off) + " point " + show(q[i]));
    both(m, far(), x, c, one(p), one(u), "point-cell");
#if KIND != 0
    if (i % 3 == 0) both(m, far(), x, l, one(p), one(lp), "point-line");
#endif
#if KIND >= 5
    { typedef vg::result_of::facet<M>::type Facet; Facet const & f = vg::facets(m)[i % Shape<CT>::facets().size()]; VI t = vids(f); VP fp; for (size_t k = 0; k < t.size(); ++k) fp.push_back(u[t[k]]); both(m, far(), x, f, one(p), one(fp), "point-facet"); }
#endif
    if (i % 5 == 0)
    {
      Vertex const & w = vg::dereference_handle(m, h[0]); double d = dist(p, u[0]);
      MCHECK(near(vg::distance(x, w), d) && near(vg::distance(w, x), d) && near(vg::distance(vg::default_point_accessor(m), x, w), d), "point-vertex", "");
      MCHECK(near(vg::distance(x, mk(u[1])), dist(p, u[1])), "point-point", "");
      pair_ok(vg::closest_points(vg::default_point_accessor(m), x, w), one(p), one(u[0]), d, "point-vertex");
      MCHECK(near(vg::distance(far(), twice(x), w) / 2, d), "point-vertex-own-positions", ""); pair_ok(half(vg::closest_points(far(), twice(x), w)), one(p), one(u[0]), d, "point-vertex-own-positions");
    }
  }
  { // every vertex against the first line
    for (size_t i = 0; i < u.size(); ++i) { Vertex const & w = vg::dereference_handle(m, h[i]); double d = ref(one(u[i]), one(lp)); pair_ok(vg::closest_points(vg::default_point_accessor(m), w, l), one(u[i]), one(lp), d, "vertex-line"); pair_ok(vg::closest_points(vg::default_point_accessor(m), l, w), one(u[i]), one(lp), d, "vertex-line"); pair_ok(half(vg::closest_points(far(), w, l)), one(u[i]), one(lp), d, "vertex-line-own-positions"); pair_ok(half(vg::closest_points(far(), l, w)), one(u[i]), one(lp), d, "vertex-line-own-positions"); } }
}
static void line_line(VP const & a, VP const & b, double sc, double off)
{
  if (!mc::begin_case()) return; mc::trace(show(a) + " -- " + show(b) + " scale " + mc::str(sc)); TOL = 1e-9 * (sc + std::fabs(off));
  M m; VP u, w; for (int i = 0; i < 2; ++i) { u.push_back(mv(a[i], sc, off)); w.push_back(mv(b[i], sc, off)); }
  VH h0 = vg::make_vertex(m, mk(u[0])), h1 = vg::make_vertex(m, mk(u[1])), h2 = vg::make_vertex(m, mk(w[0])), h3 = vg::make_vertex(m, mk(w[1]));
  Line const & l0 = vg::dereference_handle(m, vg::make_line(m, h0, h1)), & l1 = vg::dereference_handle(m, vg::make_line(m, h2, h3));
  Doubled<M> far(m); both(m, far(), l0, l1, one(u), one(w), "line-line");
}

// ---- meshes and segments ----------------------------------------------------
typedef vg::result_of::segmentation<M>::type SEG;
typedef vg::result_of::segment_handle<SEG>::type SGH;
typedef Shape<CT> SH;
// cells of the mesh, the subset of cells in segment 0 and segment 1 as bit masks
static VVP pieces(VP const & p, VVI const & cells, int mask, bool edges)
{
  std::map<VI,std::pair<int,VI> > n; for (size_t c = 0; c < cells.size(); ++c) if (mask >> c & 1) { VVI f = edges ? SH::edges() : SH::facets(); for (size_t i = 0; i < f.size(); ++i) { VI t = pick(cells[c], f[i]); std::pair<int,VI> & x = n[sorted(t)]; x.first++; x.second = t; } }
  VVP r; for (std::map<VI,std::pair<int,VI> >::iterator i = n.begin(); i != n.end(); ++i) if (edges || i->second.first == 1) { VP q; for (size_t k = 0; k < i->second.second.size(); ++k) q.push_back(p[i->second.second[k]]); r.push_back(q); }
  return r;
}
static void mesh_case(VP const & p, VVI const & cells, int m0, int m1, VP const & q)
{
  if (!mc::begin_case()) return; TOL = 1e-9; std::string base = show(p) + show(cells) + " segments " + mc::str(m0) + "/" + mc::str(m1); mc::trace(base); mc::state(base);
  M m; SEG s(m); std::vector<VH> h; for (size_t i = 0; i < p.size(); ++i) h.push_back(vg::make_vertex(m, mk(p[i])));
  std::vector<SGH> sg; for (int i = 0; i < 2; ++i) sg.push_back(s.make_segment());
  for (size_t c = 0; c < cells.size(); ++c) { std::vector<VH> k; for (size_t i = 0; i < cells[c].size(); ++i) k.push_back(h[cells[c][i]]); CH ch = vg::make_cell(m, k.begin(), k.end()); if (m0 >> c & 1) vg::add(sg[0], vg::dereference_handle(m, ch)); if (m1 >> c & 1) vg::add(sg[1], vg::dereference_handle(m, ch)); }
  Doubled<M> far(m);
  VVP bm = pieces(p, cells, ~0, false), b0 = pieces(p, cells, m0, false), b1 = pieces(p, cells, m1, false);
  for (size_t i = 0; i < q.size(); ++i)
  {
    Point x = mk(q[i]); mc::trace(base + " point " + show(q[i])); mc::transition();
    for (int g = 0; g < 3; ++g)
    {
      VVP const & b = g == 2 ? bm : g == 0 ? b0 : b1; if (b.empty()) continue; double w = ref(one(q[i]), b);
#define BOTH(o) { double g1 = vg::boundary_distance(x, o), g2 = vg::boundary_distance(o, x), g3 = vg::boundary_distance(vg::default_point_accessor(m), x, o); MCHECK(near(g1, w) && near(g2, w) && near(g3, w), g == 2 ? "boundary-distance-mesh" : "boundary-distance-segment", "have " + mc::str(g1) + "," + mc::str(g2) + "," + mc::str(g3) + " want " + mc::str(w)); pair_ok(vg::closest_points_on_boundary(o, x), one(q[i]), b, w, "boundary"); pair_ok(vg::closest_points_on_boundary(vg::default_point_accessor(m), x, o), one(q[i]), b, w, "boundary"); double g4 = vg::boundary_distance(far(), twice(x), o); MCHECK(near(g4 / 2, w), "boundary-distance-own-positions", "have " + mc::str(g4) + " want " + mc::str(2 * w)); pair_ok(half(vg::closest_points_on_boundary(far(), twice(x), o)), one(q[i]), b, w, "boundary-own-positions"); }
      if (g == 2) BOTH(m) else BOTH(sg[g])
    }
  }
#if KIND >= 1
  { // line to segment: nearest edge of the segment
    mc::trace(base + " lines"); VVP e0 = pieces(p, cells, m0, true); typedef vg::result_of::line_range<M>::type LR; LR lr(m);
    for (vg::result_of::iterator<LR>::type i = lr.begin(); i != lr.end(); ++i) { VI t = vids(*i); VP l; l.push_back(p[t[0]]); l.push_back(p[t[1]]); double g = vg::distance(*i, sg[0]), g2 = vg::distance(sg[0], *i); if (e0.empty()) continue; double w = ref(one(l), e0); mc::transition(); MCHECK(near(g, w) && near(g2, w), "line-segment", show(t) + " have " + mc::str(g) + " want " + mc::str(w)); } }
#endif
#if KIND >= 1 && KIND <= 4
  if (!b0.empty() && !b1.empty()) { mc::trace(base + " segment-segment"); double w = ref(b0, b1), g1 = vg::boundary_distance(sg[0], sg[1]), g2 = vg::boundary_distance(sg[1], sg[0]); MCHECK(near(g1, w) && near(g2, w), "segment-segment", "have " + mc::str(g1) + "," + mc::str(g2) + " want " + mc::str(w)); pair_ok(vg::closest_points_on_boundary(sg[0], sg[1]), b0, b1, w, "segment-segment"); pair_ok(vg::closest_points_on_boundary(vg::default_point_accessor(m), sg[1], sg[0]), b0, b1, w, "segment-segment"); pair_ok(half(vg::closest_points_on_boundary(far(), sg[0], sg[1])), b0, b1, w, "segment-segment-own-positions"); MCHECK(near(vg::boundary_distance(far(), sg[0], sg[1]) / 2, w), "segment-segment-own-positions", ""); }
#endif
}
static VP grid2(int lo, int hi, double st, int d) { VP r; for (int x = lo; x <= hi; ++x) for (int y = (d > 1 ? lo : 0); y <= (d > 1 ? hi : 0); ++y) for (int z = (d > 2 ? lo : 0); z <= (d > 2 ? hi : 0); ++z) r.push_back(P3(x * st, y * st, z * st)); return r; }
static void mesh_cases(VP const & p0, VVI const & cells, VP const & q0)
{
  VP p = p0, q = q0; int n = 1 << cells.size();
  for (int sh = 0; sh < 2; ++sh) { if (sh) { for (size_t i = 0; i < p.size(); ++i) p[i] = mv(p[i], 1, -2); for (size_t i = 0; i < q.size(); ++i) q[i] = mv(q[i], 1, -2); VP h; for (size_t i = 0; i < q.size(); i += 3) h.push_back(q[i]); q = h; }
  for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) mesh_case(p, cells, a, b, a == b || (a | b) == n - 1 ? q : VP()); }
}

int main(int argc, char ** argv)
{
  mc::init(argc, argv); const bool T = mc::S().thorough;
  mc::begin_group("elements");
#if KIND == 0
  { VP q = grid2(-4, 16, 0.5, 1); for (int i = 0; i < 7; ++i) for (int j = 0; j < 7; ++j) if (i != j) { VP v; v.push_back(P3(i)); v.push_back(P3(j)); elem(v, q); elem(v, q, 0.0078125, 0); elem(v, q, 256, 7); elem(v, q, 1, -3); elem(v, q, 2, -20); } }
#elif KIND == 1 || KIND == 2
  { VP g = grid(KIND == 1 ? (T ? 4 : 3) : T ? 3 : 2, GD), q = KIND == 1 ? grid2(-2, T ? 8 : 6, 0.5, 2) : grid2(T ? -2 : -1, T ? 6 : 3, T ? 0.5 : 1, 3); if (KIND == 2 && !T) { g.push_back(P3(2,1,0)); g.push_back(P3(0,2,1)); g.push_back(P3(2,2,2)); }
    VVI a = arrangements((int)g.size(), 3); for (size_t i = 0; i < a.size(); ++i) { VP v; for (int k = 0; k < 3; ++k) v.push_back(g[a[i][k]]); if (tri_area(v[0],v[1],v[2]) == 0) continue; elem(v, q); if (i % 4 == 0) elem(v, q, 0.0078125, 0); if (i % 4 == 1) elem(v, q, 256, 7); if (i % 4 == 2) elem(v, q, 1, -1); if (i % 4 == 3) elem(v, q, 1, -20); } }
#elif KIND == 3 || KIND == 4
  { VP g = grid(T ? 4 : 3, 2), q = KIND == 3 ? grid2(-2, 6, 0.5, 2) : grid2(-1, 3, 1, 3); VVI a = arrangements((int)g.size(), 4);
    for (size_t i = 0; i < a.size(); ++i) { VP p; for (int k = 0; k < 4; ++k) p.push_back(g[a[i][k]]); bool cv = true; double s = 0; for (int k = 0; k < 4; ++k) { double n = cross(p[(k+1)%4]-p[k], p[(k+2)%4]-p[(k+1)%4]).c[2]; if (n == 0 || s * n < 0) cv = false; s = n; } if (!cv) continue; std::swap(p[2], p[3]);
      if (KIND == 3) { elem(p, q); if (i % 3 == 0) elem(p, q, 0.0078125, 0); if (i % 3 == 1) elem(p, q, 1, -1); if (i % 3 == 2) elem(p, q, 1, -9); }
      else for (int o = 0; o < 3; ++o) { if (!T && (int)(i % 3) != o) continue; VP w; for (int k = 0; k < 4; ++k) { double x = p[k].c[0], y = p[k].c[1]; w.push_back(o == 0 ? P3(x,y,1) : o == 1 ? P3(0,x,y) : P3(x,y,x+y)); } elem(w, q, 1, i % 2 ? 0 : -1); } } }
#elif KIND == 5
  { VP g = grid(2, 3), q = grid2(-2, 4, 0.5, 3); g.push_back(P3(2,0,1)); if (T) g.push_back(P3(1,2,0)); VP qs; for (size_t i = 0; i < q.size(); ++i) if (T || ((int)(2 * (q[i].c[0] + q[i].c[1] + q[i].c[2])) & 1) == 0) qs.push_back(q[i]);
    VVI a = arrangements((int)g.size(), 4); for (size_t i = 0; i < a.size(); ++i) { VP v; for (int k = 0; k < 4; ++k) v.push_back(g[a[i][k]]); if (tet_vol(v[0],v[1],v[2],v[3]) == 0) continue; if (!T && i % 7 && a[i] != sorted(a[i])) continue; elem(v, qs, 1, i % 2 ? 0 : -1); if (i % 5 == 0) elem(v, qs, 8, 3); if (i % 5 == 1) elem(v, qs, 1, -9); } }
#elif KIND == 6
  { VP q = grid2(-2, 6, 0.5, 3), qs; for (size_t i = 0; i < q.size(); ++i) if (T || i % 3 == 0) qs.push_back(q[i]);
    VVI sym; for (int px = 0; px < 3; ++px) for (int py = 0; py < 3; ++py) for (int pz = 0; pz < 3; ++pz) if (px != py && py != pz && px != pz) for (int f = 0; f < 8; ++f) { VI s; for (int i = 0; i < 8; ++i) { int b[3] = {i & 1, i >> 1 & 1, i >> 2 & 1}; s.push_back(((b[px] | b[py] << 1 | b[pz] << 2)) ^ f); } sym.push_back(s); }
    for (int sh = 0; sh < 4; ++sh) for (size_t s = 0; s < sym.size(); s += T ? 1 : 7) { VP v; for (int k = 0; k < 8; ++k) { int i = sym[s][k]; double x = i & 1, y = i >> 1 & 1, z = i >> 2 & 1; v.push_back(sh == 0 ? P3(2*x, 2*y, 2*z) : sh == 1 ? P3(x, 3*y, 2*z) : sh == 2 ? P3(2*x + z, 2*y, z) : P3(x*(1+z), y*(1+z), 2*z)); } elem(v, qs, 1, s % 2 ? 0 : -1); } }
#endif
#if KIND != 0
  mc::begin_group("line-line");
  { VP g = grid(GD == 2 ? (T ? 5 : 4) : 3, GD); VVI a = arrangements((int)g.size(), 2);
    for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a.size(); ++j)
    { if (!T && (i * 7 + j) % (GD == 2 ? 1 : 3)) continue; SI s; s.insert(a[i][0]); s.insert(a[i][1]); s.insert(a[j][0]); s.insert(a[j][1]);
      VP u, w; for (int k = 0; k < 2; ++k) { u.push_back(g[a[i][k]]); w.push_back(g[a[j][k]]); } line_line(u, w, 1, (i + j) % 2 ? 0 : -1); if ((i + j) % 3 == 0) line_line(u, w, 0.0078125, 0); } }
#endif
  mc::begin_group("meshes");
  VP q = GD == 1 ? grid2(-4, 40, 0.5, 1) : GD == 2 ? grid2(-2, 12, 0.5, 2) : grid2(-1, 5, 1, 3), p;
#if KIND == 0
  for (int i = 0; i < 5; ++i) p.push_back(P3(i * i)); mesh_cases(p, tup("0,1;2,1;2,3;3,4"), q);
#elif KIND == 1 || KIND == 2
  p.push_back(P3(2,2,KIND==2)); p.push_back(P3(0,0,0)); p.push_back(P3(4,0,0)); p.push_back(P3(5,4,KIND==2?3:0)); p.push_back(P3(0,3,0)); p.push_back(P3(5,7,KIND==2?3:0)); mesh_cases(p, tup("0,1,2;2,3,0;4,0,3;4,3,5"), q);
#elif KIND == 3 || KIND == 4
  for (int y = 0; y < 3; ++y) for (int x = 0; x < 3; ++x) p.push_back(P3(x * (x + 1), 3 * y, KIND == 4 ? x : 0)); mesh_cases(p, tup("0,1,3,4;2,1,5,4;3,6,4,7;8,7,5,4"), q);
#elif KIND == 5
  p.push_back(P3(0,0,0)); p.push_back(P3(4,0,0)); p.push_back(P3(0,4,0)); p.push_back(P3(0,0,4)); p.push_back(P3(2,2,-4)); p.push_back(P3(4,4,4)); mesh_cases(p, tup("0,1,2,3;4,2,1,0;5,1,3,2"), q);
#elif KIND == 6
  for (int z = 0; z < 3; ++z) for (int y = 0; y < 2; ++y) for (int x = 0; x < 2; ++x) p.push_back(P3(2*x, 3*y, z*z)); p.push_back(P3(5,0,0)); p.push_back(P3(5,3,0)); p.push_back(P3(5,0,1)); p.push_back(P3(5,3,1)); mesh_cases(p, tup("0,1,2,3,4,5,6,7;4,5,6,7,8,9,10,11;1,12,3,13,5,14,7,15"), q);
#endif
  mc::begin_group("blocks");
  { VVI sz = SH::dim == 1 ? tup("9,0,0;20,0,0") : SH::dim == 2 ? tup("3,2,0;3,3,0") : KIND == 5 ? tup("2,1,1;2,2,1") : tup("2,2,1;3,2,2");
    std::vector<Block> bl = blocks<CT>(sz, T ? 1 : 5);
    for (size_t b = 0; b < bl.size(); ++b) for (int sh = 0; sh < 2; ++sh)
    {
      VP u, qs; for (int i = 0; i < bl[b].nv; ++i) u.push_back(mv(P3(bl[b].pos[i][0], bl[b].pos[i][1], bl[b].pos[i][2]), 1, -2 * sh));
      VP g = grid2(-1, GD == 1 ? 24 : 4, 1, GD); for (size_t i = b % 4; i < g.size(); i += GD == 3 ? 11 : 4) qs.push_back(mv(P3(g[i].c[0] + 0.25, GD > 1 ? g[i].c[1] + 0.5 : 0, GD > 2 ? g[i].c[2] + 0.375 : 0), 1, -2 * sh));
      int full = (1 << bl[b].cells.size()) - 1, low = (1 << bl[b].cells.size() / 2) - 1, mid = (low >> 2) & 0x33333333;
      mesh_case(u, bl[b].cells, low, full & ~low, qs); mesh_case(u, bl[b].cells, full & 0x15555555, mid, qs); mesh_case(u, bl[b].cells, 1, full & ~(full >> 1), qs);
    } }
  return mc::finish();
}
