// P14: volume, surface, centroid, circumcenter, spanned volumes and angles for
// all placements on small grids (moved and scaled variants included) and for
// meshes and segments.
#ifndef KIND
#define KIND 0
#endif
#include "geo.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/algorithm/volume.hpp"
#include "viennagrid/algorithm/surface.hpp"
#include "viennagrid/algorithm/centroid.hpp"
#include "viennagrid/algorithm/circumcenter.hpp"
#include "viennagrid/algorithm/spanned_volume.hpp"
#include "viennagrid/algorithm/angle.hpp"
#if KIND==0
typedef vg::line_1d_mesh M;
#elif KIND==1
typedef vg::line_2d_mesh M;
#elif KIND==2
typedef vg::line_3d_mesh M;
#elif KIND==3
typedef vg::triangular_2d_mesh M;
#elif KIND==4
typedef vg::triangular_3d_mesh M;
#elif KIND==5
typedef vg::quadrilateral_2d_mesh M;
#elif KIND==6
typedef vg::quadrilateral_3d_mesh M;
#elif KIND==7
typedef vg::tetrahedral_3d_mesh M;
#elif KIND==8
typedef vg::hexahedral_3d_mesh M;
#elif KIND==9
typedef vg::polygonal_2d_mesh M;
#elif KIND==10
typedef vg::polygonal_3d_mesh M;
#endif
typedef vg::result_of::cell_tag<M>::type CT;
typedef vg::result_of::cell<M>::type Cell;
typedef vg::result_of::cell_handle<M>::type CH;
typedef vg::result_of::vertex_handle<M>::type VH;
typedef vg::result_of::point<M>::type Point;
static const int GD = vg::result_of::geometric_dimension<M>::value;
#define POLYGON (KIND >= 9)

// ---- reference values -------------------------------------------------------
static double ref_measure(vg::vertex_tag, VP const &) { return 1; }
static double ref_measure(vg::line_tag, VP const & p) { return dist(p[0], p[1]); }
static double ref_measure(vg::triangle_tag, VP const & p) { return tri_area(p[0], p[1], p[2]); }
static double poly_area(VP const & p) { P3 s; for (size_t i = 0; i < p.size(); ++i) s = s + cross(p[i] - p[0], p[(i+1) % p.size()] - p[0]); return len(s) / 2; }
static double ref_measure(vg::quadrilateral_tag, VP const & p) { VP q = p; std::swap(q[2], q[3]); return poly_area(q); }
static double ref_measure(vg::polygon_tag, VP const & p) { return poly_area(p); }
static double ref_measure(vg::tetrahedron_tag, VP const & p) { return tet_vol(p[0], p[1], p[2], p[3]); }
// convex hexahedron with planar faces: sum of pyramids over the faces from an inner point
static double ref_measure(vg::hexahedron_tag, VP const & p)
{
  P3 m; for (int i = 0; i < 8; ++i) m = m + 0.125 * p[i];
  VVI f = Shape<vg::hexahedron_tag>::facets(); double v = 0;
  for (size_t i = 0; i < f.size(); ++i) v += tet_vol(m, p[f[i][0]], p[f[i][1]], p[f[i][3]]) + tet_vol(m, p[f[i][0]], p[f[i][3]], p[f[i][2]]);
  return v;
}
template<class E> VP pts(M const & m, E const & e) { typedef typename vg::result_of::const_vertex_range<E>::type R; R r(e); VP p; for (typename vg::result_of::iterator<R>::type i = r.begin(); i != r.end(); ++i) p.push_back(p3(vg::point(m, *i))); return p; }
static Point mk(P3 p) { return mkpoint<M>(p.c[0], p.c[1], p.c[2]); }

#if !POLYGON
typedef Shape<CT> SH;
static double ref_surface(VP const & p)
{
  double s = 0; VVI f = SH::facets();
  for (size_t i = 0; i < f.size(); ++i) { VP q; for (size_t k = 0; k < f[i].size(); ++k) q.push_back(p[f[i][k]]); s += f[i].size() == 1 ? 1 : f[i].size() == 2 ? ref_measure(vg::line_tag(), q) : f[i].size() == 3 ? ref_measure(vg::triangle_tag(), q) : ref_measure(vg::quadrilateral_tag(), q); }
  return s;
}
// is the cell a parallelepiped (lines and simplices: always centred at the mean)?
static bool affine(VP const & p)
{
  if (CT::dim == 2 && p.size() == 4) return len(p[0] + p[3] - p[1] - p[2]) < 1e-9 * (1 + dist(p[0], p[3]));
  if (p.size() == 8) { double s = 1 + dist(p[0], p[7]); return len(p[0]+p[3]-p[1]-p[2]) < 1e-9*s && len(p[4]+p[7]-p[5]-p[6]) < 1e-9*s && len(p[0]+p[5]-p[1]-p[4]) < 1e-9*s && len(p[0]+p[6]-p[2]-p[4]) < 1e-9*s; }
  return true;
}
template<class R> static bool equidistant(P3 c, R const & p) { for (size_t i = 1; i < p.size(); ++i) if (!eq(dist(c, p[i]), dist(c, p[0]), 1 + dist(c, p[0]))) return false; return true; }
#if KIND >= 1 && KIND <= 8
template<class E> void circum(E const & e, VP const & p, double sc, Doubled<M>::type const & far)
{
  P3 c = p3(vg::circumcenter(e)), c2 = p3(vg::circumcenter(vg::default_point_accessor(e), e));
  double r = dist(c, p[0]); bool ok = true; for (size_t i = 1; i < p.size(); ++i) ok &= eq(dist(c, p[i]), r, r + sc);
  MCHECK(ok, "circumcenter-distance", show(p) + " -> " + show(c));
  if (p.size() >= 3) { P3 n = cross(p[1]-p[0], p[2]-p[0]); if (E::tag::dim == 2) MCHECK(std::fabs(dot(n, c - p[0])) <= 1e-9 * len(n) * (r + sc), "circumcenter-plane", show(p) + " -> " + show(c)); }
  else { P3 m = 0.5 * (p[0] + p[1]); MCHECK(eq(dist(c, m), 0, r + sc), "circumcenter-line", show(p)); }
  MCHECK(c == c2, "circumcenter-accessor", show(p));
  P3 c3 = p3(vg::circumcenter(far, e)); MCHECK(eq(dist(c3, 2.0 * c), 0, r + sc), "circumcenter-own-positions", show(p) + " -> " + show(c3));
}
#endif
template<class Tag> void sub_measures(M const & m, Cell const & c, double sc)
{
  typedef typename vg::result_of::const_element_range<Cell,Tag>::type R; R r(c);
  for (typename vg::result_of::iterator<R>::type i = r.begin(); i != r.end(); ++i)
  {
    VP q = pts(m, *i); double w = ref_measure(typename vg::result_of::element_tag<typename vg::result_of::element<M,Tag>::type>::type(), q);
    MCHECK(eq(vg::volume(*i), w, w + sc), "sub-element-volume", show(q));
  }
}
#endif

#if KIND >= 3 && !POLYGON
template<class Tag> void extremes(M & m, CH ch, double sd)
{
  Cell & c = vg::dereference_handle(m, ch); Cell const & cc = c; M const & cm = m;
  typedef typename vg::result_of::const_element_range<Cell,Tag>::type R; R r(cc);
  double lo = 0, hi = 0; std::set<const void *> own; bool first = true;
  for (typename vg::result_of::iterator<R>::type i = r.begin(); i != r.end(); ++i)
  { double v = ref_measure(Tag(), pts(m, *i)); lo = first ? v : std::min(lo, v); hi = first ? v : std::max(hi, v); first = false; own.insert(&*i); }
  typename vg::result_of::element<M,Tag>::type const
    & a = vg::dereference_handle(m, vg::smallest_boundary_volume<Tag>(m, c)), & b = vg::dereference_handle(cm, vg::smallest_boundary_volume<Tag>(cm, cc)),
    & d = vg::dereference_handle(m, vg::largest_boundary_volume<Tag>(m, c)), & e = vg::dereference_handle(cm, vg::largest_boundary_volume<Tag>(cm, cc));
  MCHECK(own.count(&a) && own.count(&b) && own.count(&d) && own.count(&e), "extreme-boundary-element-of-cell", "");
  MCHECK(eq(ref_measure(Tag(), pts(m, a)), lo, sd) && eq(ref_measure(Tag(), pts(m, b)), lo, sd), "smallest-boundary-volume", show(pts(m, cc)));
  MCHECK(eq(ref_measure(Tag(), pts(m, d)), hi, sd) && eq(ref_measure(Tag(), pts(m, e)), hi, sd), "largest-boundary-volume", show(pts(m, cc)));
}
#endif

// prepare once: only the coordinates vary
static void one(VP const & p, double sc, double off)
{
  if (!mc::begin_case()) return;
  mc::transition();
  mc::trace(show(p) + (sc != 1 || off != 0 ? " scale " + mc::str(sc) + " shift " + mc::str(off) : ""));
  VP q; for (size_t i = 0; i < p.size(); ++i) { P3 x = sc * p[i]; for (int k = 0; k < GD; ++k) x.c[k] += off * (k + 1); q.push_back(x); }
  double tol = sc + (off ? std::fabs(off) * 1e-2 : 0);
  M m; std::vector<VH> h; for (size_t i = 0; i < q.size(); ++i) h.push_back(vg::make_vertex(m, mk(q[i])));
  CH ch = vg::make_element<CT>(m, h.begin(), h.end()); Cell const & c = vg::dereference_handle(m, ch);
  double w = ref_measure(CT(), q), sd = std::pow(sc, (int)CT::dim), v = vg::volume(c);
  mc::outcome(mc::str(w / sd));
  MCHECK(eq(v, w, w + sd * tol / sc), "volume", show(q) + " have " + mc::str(v) + " want " + mc::str(w));
  MCHECK(vg::volume(vg::default_point_accessor(m), c) == v && vg::volume(m) == v, "volume-variants", show(q));
  MCHECK(vg::volume(*vg::vertices(m).begin()) == 1, "vertex-volume", "");
  Doubled<M> far(m); const double pw = std::pow(2.0, (int)CT::dim);
  MCHECK(eq(vg::volume(far(), c), pw * w, pw * (w + sd * tol / sc)), "volume-own-positions", show(q) + " have " + mc::str(vg::volume(far(), c)) + " want " + mc::str(pw * w));
#if !POLYGON
  double s = ref_surface(q), gs = vg::surface(c);
  MCHECK(eq(gs, s, s + sd / sc), "surface", show(q) + " have " + mc::str(gs) + " want " + mc::str(s));
  MCHECK(eq(vg::surface(m), s, s + sd / sc) && eq(vg::surface(vg::default_point_accessor(m), c), s, s + sd / sc), "surface-mesh", show(q));
  if (CT::dim > 1) MCHECK(eq(vg::surface(far(), c), pw / 2 * s, pw * (s + sd / sc)), "surface-own-positions", show(q)); else MCHECK(vg::surface(far(), c) == gs, "surface-own-positions", show(q));
  P3 mean; for (size_t i = 0; i < q.size(); ++i) mean = mean + (1.0 / q.size()) * q[i];
  if (affine(q))
  {
    double cs = sc + std::fabs(off);
    MCHECK(eq(dist(p3(vg::centroid(c)), mean), 0, cs), "centroid", show(q));
    MCHECK(vg::centroid(vg::default_point_accessor(m), c) == vg::centroid(c), "centroid-accessor", show(q));
    MCHECK(eq(dist(p3(vg::centroid(far(), c)), 2.0 * mean), 0, 2 * cs), "centroid-own-positions", show(q));
#if KIND != 0
    MCHECK(eq(dist(p3(vg::centroid(m, vg::default_point_accessor(m))), mean), 0, cs), "centroid-mesh", show(q));
#endif
  }
#if KIND >= 1
  bool rect = true; if (CT::dim >= 2 && (q.size() == 4 && CT::dim == 2 || q.size() == 8)) rect = affine(q) && std::fabs(dot(q[1]-q[0], q[2]-q[0])) < 1e-9*sc*sc && (q.size() == 4 || (std::fabs(dot(q[1]-q[0], q[4]-q[0])) < 1e-9*sc*sc && std::fabs(dot(q[2]-q[0], q[4]-q[0])) < 1e-9*sc*sc));
  if (rect && off <= 0) circum(c, q, sc, far());
#endif
#if KIND >= 3
  sub_measures<vg::line_tag>(m, c, sc); extremes<vg::line_tag>(m, ch, sc);
  typedef vg::result_of::const_line_range<Cell>::type LR; LR lr(c); if (off <= 0) for (vg::result_of::iterator<LR>::type i = lr.begin(); i != lr.end(); ++i) { VP e = pts(m, *i); circum(*i, e, sc, far()); MCHECK(eq(dist(p3(vg::centroid(*i)), 0.5 * (e[0] + e[1])), 0, sc), "edge-centroid", show(e)); }
#endif
#if KIND >= 7
  sub_measures<CT::facet_tag>(m, c, sc * sc); extremes<CT::facet_tag>(m, ch, sc * sc);
  typedef vg::result_of::const_element_range<Cell,CT::facet_tag>::type FR; FR fr(c);
  if (rect && off <= 0) for (vg::result_of::iterator<FR>::type i = fr.begin(); i != fr.end(); ++i) { VP e = pts(m, *i); circum(*i, e, sc, far()); P3 x; for (size_t k = 0; k < e.size(); ++k) x = x + (1.0 / e.size()) * e[k]; MCHECK(eq(dist(p3(vg::centroid(*i)), x), 0, sc), "facet-centroid", show(e)); }
#endif
#endif
}
static void variants(VP const & p) { one(p, 1, 0); one(p, 1, 8); one(p, 0.0078125, 0); one(p, 1024, 3); one(p, 1, -1); one(p, 2, -16); }

// ---- meshes and segments ----------------------------------------------------
#if !POLYGON
typedef vg::result_of::segmentation<M>::type SEG;
typedef vg::result_of::segment_handle<SEG>::type SGH;
static void mesh_case(VP const & p, VVI const & cells, VI const & seg)
{
  if (!mc::begin_case()) return;
  mc::trace(show(p) + show(cells) + " segments " + show(seg)); mc::state(show(cells) + show(seg));
  M m; SEG s(m); std::vector<VH> h; for (size_t i = 0; i < p.size(); ++i) h.push_back(vg::make_vertex(m, mk(p[i])));
  std::vector<SGH> sg; for (int i = 0; i < 2; ++i) sg.push_back(s.make_segment());
  double vol[3] = {0,0,0}; P3 cen[3]; std::map<VI,int> fc[3]; bool allaff = true;
  for (size_t c = 0; c < cells.size(); ++c)
  {
    std::vector<VH> k; VP q; for (size_t i = 0; i < cells[c].size(); ++i) { k.push_back(h[cells[c][i]]); q.push_back(p[cells[c][i]]); }
    CH ch = vg::make_cell(m, k.begin(), k.end());
    double v = ref_measure(CT(), q); P3 mean; for (size_t i = 0; i < q.size(); ++i) mean = mean + (1.0 / q.size()) * q[i]; allaff &= affine(q);
    for (int g = 0; g < 3; ++g) if (g == 2 || seg[c] >> g & 1)
    { vol[g] += v; cen[g] = cen[g] + v * mean; VVI f = SH::facets(); for (size_t i = 0; i < f.size(); ++i) ++fc[g][pick(cells[c], f[i])]; if (g < 2) vg::add(sg[g], vg::dereference_handle(m, ch)); }
  }
  for (int g = 0; g < 3; ++g)
  {
    // facets with one cell (vertex order normalised by sorting, order of coordinates kept from the cell)
    std::map<VI,std::pair<int,VI> > n; for (std::map<VI,int>::iterator i = fc[g].begin(); i != fc[g].end(); ++i) { std::pair<int,VI> & x = n[sorted(i->first)]; x.first += i->second; x.second = i->first; }
    double sf = 0; for (std::map<VI,std::pair<int,VI> >::iterator i = n.begin(); i != n.end(); ++i) if (i->second.first == 1) { VP q; for (size_t k = 0; k < i->second.second.size(); ++k) q.push_back(p[i->second.second[k]]); sf += q.size() == 1 ? 1 : q.size() == 2 ? ref_measure(vg::line_tag(), q) : q.size() == 3 ? ref_measure(vg::triangle_tag(), q) : ref_measure(vg::quadrilateral_tag(), q); }
    double gv = g == 2 ? vg::volume(m) : vg::volume(sg[g]), gs = g == 2 ? vg::surface(m) : vg::surface(sg[g]);
    MCHECK(eq(gv, vol[g], 1 + vol[g]), "mesh-volume", "part " + mc::str(g) + " have " + mc::str(gv) + " want " + mc::str(vol[g]));
    MCHECK(eq(gs, sf, 1 + sf), "mesh-surface", "part " + mc::str(g) + " have " + mc::str(gs) + " want " + mc::str(sf));
#if KIND != 0
    if (allaff && vol[g] > 0) { P3 w = (1 / vol[g]) * cen[g]; P3 x = g == 2 ? p3(vg::centroid(m, vg::default_point_accessor(m))) : p3(vg::centroid(sg[g], vg::default_point_accessor(m))); MCHECK(eq(dist(x, w), 0, 1 + len(w)), "mesh-centroid", "part " + mc::str(g) + " have " + show(x) + " want " + show(w)); Doubled<M> far(m); P3 y = g == 2 ? p3(vg::centroid(m, far())) : p3(vg::centroid(sg[g], far())); MCHECK(eq(dist(y, 2.0 * w), 0, 1 + len(w)), "mesh-centroid-own-positions", "part " + mc::str(g) + " have " + show(y) + " want " + show(2.0 * w)); }
#endif
  }
  mc::outcome(mc::str(vol[0]) + "," + mc::str(vol[1]));
}
static void mesh_cases(VP const & p, VVI const & cells)
{
  int tot = 1; for (size_t i = 0; i < cells.size(); ++i) tot *= 4;
  for (int a = 0; a < tot; ++a) { VI s; int x = a; for (size_t i = 0; i < cells.size(); ++i) { s.push_back(x & 3); x /= 4; } mesh_case(p, cells, s); }
}
#endif
// convex quadrilateral in cyclic order?
static bool convex2(VP const & c) { double s = 0; for (size_t i = 0; i < c.size(); ++i) { P3 n = cross(c[(i+1)%c.size()] - c[i], c[(i+2)%c.size()] - c[(i+1)%c.size()]); if (n.c[2] == 0) return false; if (s == 0) s = n.c[2]; if (s * n.c[2] < 0) return false; } 
  // simple: no two non-adjacent edges cross; for 4 same-sign turns suffices, for 5+ winding must be 1
  double ang = 0; for (size_t i = 0; i < c.size(); ++i) { P3 a = c[(i+1)%c.size()] - c[i], b = c[(i+2)%c.size()] - c[(i+1)%c.size()]; ang += std::fabs(std::atan2(cross(a,b).c[2], dot(a,b))); } return std::fabs(ang - 2*M_PI) < 1e-6; }
static VP quad_order(VP c) { std::swap(c[2], c[3]); return c; }
static bool cross_seg(P3 a, P3 b, P3 c, P3 d) { double x = cross(b-a, c-a).c[2], y = cross(b-a, d-a).c[2], z = cross(d-c, a-c).c[2], w = cross(d-c, b-c).c[2]; if (x*y < 0 && z*w < 0) return true;
  if (x == 0 && dot(c-a, c-b) <= 0) return true; if (y == 0 && dot(d-a, d-b) <= 0) return true; if (z == 0 && dot(a-c, a-d) <= 0) return true; if (w == 0 && dot(b-c, b-d) <= 0) return true; return false; }
static bool simple2(VP const & c) { int n = (int)c.size(); for (int i = 0; i < n; ++i) { if (cross(c[(i+1)%n]-c[i], c[(i+2)%n]-c[(i+1)%n]).c[2] == 0 && dot(c[(i+1)%n]-c[i], c[(i+2)%n]-c[(i+1)%n]) < 0) return false; for (int j = i+1; j < n; ++j) { if ((j+1)%n == i || (i+1)%n == j) continue; if (cross_seg(c[i], c[(i+1)%n], c[j], c[(j+1)%n])) return false; } } return true; }

int main(int argc, char ** argv)
{
  mc::init(argc, argv); const bool T = mc::S().thorough;
  mc::begin_group("elements");
#if KIND <= 2
  { VP g = grid(KIND == 2 ? (T ? 4 : 3) : T ? 8 : 5, GD); for (size_t i = 0; i < g.size(); ++i) for (size_t j = 0; j < g.size(); ++j) if (i != j) { VP p; p.push_back(g[i]); p.push_back(g[j]); variants(p); } }
#elif KIND == 3 || KIND == 4
  { VP g = grid(KIND == 4 ? 3 : T ? 8 : 6, GD); VVI a = arrangements((int)g.size(), 3); for (size_t i = 0; i < a.size(); ++i) { VP p; for (int k = 0; k < 3; ++k) p.push_back(g[a[i][k]]); if (tri_area(p[0],p[1],p[2]) > 0) variants(p); } }
#elif KIND == 7
  { VP g = grid(3, 3); VVI a = arrangements(27, 4); for (size_t i = 0; i < a.size(); ++i) { VP p; for (int k = 0; k < 4; ++k) p.push_back(g[a[i][k]]); if (tet_vol(p[0],p[1],p[2],p[3]) > 0) { if (T) variants(p); else { one(p, 1, i % 2 ? -1 : -6); one(p, 0.0078125, 2); } } } }
#elif KIND == 5 || KIND == 6
  { VP g = grid(T ? 5 : 4, 2); VVI a = arrangements((int)g.size(), 4);
    for (size_t i = 0; i < a.size(); ++i) { VP p; for (int k = 0; k < 4; ++k) p.push_back(g[a[i][k]]); if (!convex2(p)) continue;
      if (KIND == 5) variants(quad_order(p));
      else for (int o = 0; o < 5; ++o) { VP q; for (int k = 0; k < 4; ++k) { double x = p[k].c[0], y = p[k].c[1]; q.push_back(o == 0 ? P3(x,y,0) : o == 1 ? P3(0,x,y) : o == 2 ? P3(y,0,x) : o == 3 ? P3(x,y,x+2*y) : P3(x-y,x+y,3*x)); } variants(quad_order(q)); } } }
#elif KIND == 8
  { // prisms over every convex quadrilateral of the 3x3 grid along each axis, sheared, truncated pyramids, and all 48 numberings of each
    VVI sym; for (int px = 0; px < 3; ++px) for (int py = 0; py < 3; ++py) for (int pz = 0; pz < 3; ++pz) if (px != py && py != pz && px != pz) for (int f = 0; f < 8; ++f) { VI s; for (int i = 0; i < 8; ++i) { int b[3] = {i & 1, i >> 1 & 1, i >> 2 & 1}; s.push_back(((b[px] | b[py] << 1 | b[pz] << 2)) ^ f); } sym.push_back(s); }
    VP g = grid(3, 2); VVI a = arrangements(9, 4);
    for (size_t i = 0; i < a.size(); ++i) { VP p; for (int k = 0; k < 4; ++k) p.push_back(g[a[i][k]]); if (!convex2(p)) continue; p = quad_order(p);
      if (a[i][0] != *std::min_element(a[i].begin(), a[i].end())) continue;      // rotations are covered by the numberings
      for (int sh = 0; sh < 3; ++sh) { VP q; for (int k = 0; k < 8; ++k) { P3 b = p[k % 4]; q.push_back(k < 4 ? P3(b.c[0], b.c[1], 0) : sh == 0 ? P3(b.c[0], b.c[1], 2) : sh == 1 ? P3(b.c[0] + 1, b.c[1] - 2, 1) : P3(2*b.c[0], 2*b.c[1], 3)); }
        for (size_t s = 0; s < sym.size(); s += (T ? 1 : 5)) { VP r; for (int k = 0; k < 8; ++k) r.push_back(q[sym[s][k]]); one(r, 1, s % 2 ? 0 : -2); if (s % 3 == 0) one(r, 0.5, 4); } } }
    for (int x = 1; x <= 3; ++x) for (int y = 1; y <= 3; ++y) for (int z = 1; z <= 3; ++z) for (size_t s = 0; s < sym.size(); ++s) { VP r; for (int k = 0; k < 8; ++k) { int i = sym[s][k]; r.push_back(P3((i & 1) * x, (i >> 1 & 1) * y, (i >> 2 & 1) * z)); } one(r, 1, 0); one(r, 0.25, 5); } }
#else
  for (int n = 3; n <= (KIND == 9 ? 5 : 4) + T; ++n)
  { VP g = grid(3, 2); VVI a = arrangements(9, n); for (size_t i = 0; i < a.size(); ++i) { VP p; for (int k = 0; k < n; ++k) p.push_back(g[a[i][k]]); if (KIND == 9 ? !simple2(p) : !convex2(p)) continue; if (poly_area(p) == 0) continue;
      if (KIND == 9) { one(p, 1, 0); one(p, 0.5, 3); } else for (int o = 0; o < 3; ++o) { VP q; for (int k = 0; k < n; ++k) { double x = p[k].c[0], y = p[k].c[1]; q.push_back(o == 0 ? P3(x,y,1) : o == 1 ? P3(0,x,y) : P3(x,y,x+2*y)); } one(q, 1, 0); } } }
#endif
#if !POLYGON
  mc::begin_group("meshes");
#if KIND <= 2
  { VP p; for (int i = 0; i < 5; ++i) p.push_back(P3(i * i, KIND >= 1 ? i % 3 : 0, KIND == 2 ? i : 0)); mesh_cases(p, tup("0,1;2,1;2,3;3,4")); mesh_cases(p, tup("1,0;1,2;4,2")); }
#elif KIND == 3 || KIND == 4
  { VP p; p.push_back(P3(2,2,KIND==4)); p.push_back(P3(0,0,0)); p.push_back(P3(4,0,0)); p.push_back(P3(5,4,KIND==4?3:0)); p.push_back(P3(0,3,0)); mesh_cases(p, tup("0,1,2;2,3,0;4,0,3;1,0,4")); mesh_cases(p, tup("0,1,2;2,0,3")); }
#elif KIND == 5 || KIND == 6
  { VP p; for (int y = 0; y < 3; ++y) for (int x = 0; x < 3; ++x) p.push_back(P3(x * (x + 1), 3 * y, KIND == 6 ? x : 0)); mesh_cases(p, tup("0,1,3,4;2,1,5,4;3,6,4,7;8,7,5,4"));
    if (KIND == 6) for (size_t i = 0; i < p.size(); ++i) p[i].c[2] = p[i].c[0] / 2; p[4] = P3(3,4,KIND == 6 ? 1.5 : 0); mesh_cases(p, tup("0,1,3,4;2,1,5,4;3,6,4,7;8,7,5,4")); }
#elif KIND == 7
  { VP p; p.push_back(P3(0,0,0)); p.push_back(P3(4,0,0)); p.push_back(P3(0,4,0)); p.push_back(P3(0,0,4)); p.push_back(P3(2,2,-4)); p.push_back(P3(4,4,4)); mesh_cases(p, tup("0,1,2,3;4,2,1,0;5,1,3,2")); }
#elif KIND == 8
  { VP p; for (int z = 0; z < 3; ++z) for (int y = 0; y < 2; ++y) for (int x = 0; x < 2; ++x) p.push_back(P3(2*x, 3*y, z*z)); p.push_back(P3(5,0,0)); p.push_back(P3(5,3,0)); p.push_back(P3(5,0,1)); p.push_back(P3(5,3,1)); mesh_cases(p, tup("0,1,2,3,4,5,6,7;4,5,6,7,8,9,10,11;1,12,3,13,5,14,7,15")); }
#endif
#endif
#if !POLYGON
  // structured blocks in 27 numberings, the cells in 4 distributions over the segments
  mc::begin_group("blocks");
  {
    VVI sizes = SH::dim == 1 ? tup("9,0,0;40,0,0") : SH::dim == 2 ? tup("4,3,0;9,8,0") : SH::nv == 4 ? tup("2,2,2;4,3,2") : tup("3,2,2;4,4,4");
    for (size_t z = 0; z < sizes.size(); ++z) for (int k = 0; k < 27; ++k) for (int part = 0; part < 4; ++part)
    {
      Block b = block<CT>(sizes[z][0], sizes[z][1], sizes[z][2], k % 3, k / 3 % 3, k / 9); VP p; VI s;
      for (int i = 0; i < b.nv; ++i) { std::vector<double> & x = b.pos[i]; p.push_back(KIND == 1 ? P3(x[0], x[0] / 2) : KIND == 2 ? P3(x[0], -x[0], x[0] / 4) : KIND == 4 ? P3(x[0], x[1], x[0] * x[1] / 2) : KIND == 6 ? P3(x[0], x[1], x[0] + x[1] / 2) : P3(x[0], x[1], x[2])); }
      for (int i = 0; i < (int)b.cells.size(); ++i) s.push_back(part == 0 ? 0 : part == 1 ? 1 + i % 2 : part == 2 ? (i % 4 == 3 ? 3 : i % 3 == 0 ? 2 : 1) : i * 2 < (int)b.cells.size() ? 1 : 2);
      mesh_case(p, b.cells, s);
    }
  }
#endif
#if KIND == 3 || KIND == 4 || KIND == 7
  // spanned volumes and angles of points
  mc::begin_group("points");
  { VP g = grid(3, GD); VVI a = arrangements((int)g.size(), 3);
    for (size_t i = 0; i < a.size(); ++i)
    {
      if (!mc::begin_case()) continue;
      P3 x = g[a[i][0]], y = g[a[i][1]], z = g[a[i][2]]; mc::trace(show(x) + show(y) + show(z)); mc::transition(); Point px = mk(x), py = mk(y), pz = mk(z);
      double t = tri_area(x,y,z), l = dist(x,y);
      MCHECK(eq(vg::spanned_volume(px,py), l, 1) && eq(vg::spanned_volume(px,py,pz), t, 1), "spanned-volume", "");
      MCHECK(eq(std::fabs(vg::signed_spanned_volume(px,py,pz)), t, 1), "signed-spanned-volume", "");
      if (GD == 2) MCHECK(eq(vg::signed_spanned_volume(px,py,pz), cross(y-x,z-x).c[2] / 2, 1), "signed-spanned-volume", "");
      P3 u = x - z, v = y - z; double w = std::atan2(len(cross(u,v)), dot(u,v)); mc::outcome(mc::str(w));
      MCHECK(std::fabs(vg::angle(px, py, pz) - w) < 1e-7, "angle", mc::str(vg::angle(px,py,pz)) + " want " + mc::str(w));
      Point pu = px - pz, pv = py - pz; MCHECK(std::fabs(vg::angle(pu, pv) - w) < 1e-7, "angle-vectors", "");
#if KIND == 7
      for (int o = 0; o < 27; o += 2)
      {
        P3 q = g[o]; if (o == a[i][0] || o == a[i][1] || o == a[i][2]) continue; Point pq = mk(q);
        double d = det(x - q, y - q, z - q);
        MCHECK(eq(vg::spanned_volume(px,py,pz,pq), std::fabs(d) / 6, 1), "spanned-volume-4", show(q));
        MCHECK(eq(vg::signed_spanned_volume(pq,px,py,pz), d / 6, 1), "signed-spanned-volume-4", show(q));
        if (t > 0) { P3 nq = cross(y-q, z-q), np = cross(y-x, z-x); if (len(nq) > 0) { double da = std::atan2(len(cross(np,nq)), dot(np,nq)); MCHECK(std::fabs(vg::dihedral_angle(px,py,pz,pq,py,pz) - da) < 1e-7, "dihedral-angle", show(q)); } }
        if (std::fabs(d) > 0)
        { // spherical excess: sum of the dihedral angles along the three rays minus pi
          P3 e[3] = { x - q, y - q, z - q }; double sum = -M_PI; for (int k = 0; k < 3; ++k) { P3 A = cross(e[k], e[(k+1)%3]), B = cross(e[k], e[(k+2)%3]); sum += std::atan2(len(cross(A,B)), dot(A,B)); }
          MCHECK(std::fabs(vg::solid_angle(px,py,pz,pq) - sum) < 1e-7, "solid-angle", show(q) + mc::str(vg::solid_angle(px,py,pz,pq)) + " want " + mc::str(sum)); Point w0 = px - pq, w1 = py - pq, w2 = pz - pq; MCHECK(std::fabs(vg::solid_angle(w0,w1,w2) - sum) < 1e-7, "solid-angle-vectors", show(q)); }
      }
#endif
    } }
#endif
  return mc::finish();
}
