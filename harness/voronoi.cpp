// P17: Voronoi boxes of small Delaunay meshes: totals, per-vertex and per-edge
// values, per-cell contributions; every vertex order of the cells.
#ifndef KIND
#define KIND 0
#endif
#include "geo.hpp"
#include <deque>
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/accessor.hpp"
#include "viennagrid/algorithm/voronoi.hpp"
#include "viennagrid/algorithm/volume.hpp"
#if KIND==0
typedef vg::line_1d_mesh M;
#elif KIND==1
typedef vg::triangular_2d_mesh M;
#elif KIND==2
typedef vg::quadrilateral_2d_mesh M;
#elif KIND==3
typedef vg::tetrahedral_3d_mesh M;
#elif KIND==4
typedef vg::hexahedral_3d_mesh M;
#elif KIND==5
typedef vg::line_3d_mesh M;
#endif
typedef vg::result_of::cell_tag<M>::type CT;
typedef vg::result_of::cell<M>::type Cell;
typedef vg::result_of::cell_handle<M>::type CH;
typedef vg::result_of::const_cell_handle<M>::type CCH;
typedef vg::result_of::vertex_handle<M>::type VH;
typedef vg::result_of::vertex<M>::type Vertex;
typedef vg::result_of::line<M>::type Line;
typedef vg::result_of::point<M>::type Point;
typedef vg::result_of::segmentation<M>::type SEG;
typedef vg::result_of::segment_handle<SEG>::type SGH;
static const int DIM = CT::dim;
static Point mk(P3 p) { return mkpoint<M>(p.c[0], p.c[1], p.c[2]); }
typedef vg::result_of::voronoi_cell_contribution<CCH>::type CC;

// ---- reference --------------------------------------------------------------
struct Vor { std::map<int,double> vert; std::map<VI,double> edge, iface; std::map<std::pair<int,int>,double> cv; double vol; bool exact_cells; Vor() : vol(0), exact_cells(true) {} };
static P3 tri_cc(P3 a, P3 b, P3 c) { P3 u = b - a, v = c - a, n = cross(u, v); double d = 2 * dot(n, n); return a + (1 / d) * (dot(u,u) * cross(v, n) + dot(v,v) * cross(n, u)); }
static P3 tet_cc(P3 a, P3 b, P3 c, P3 d) { P3 u = b-a, v = c-a, w = d-a; double D = 2 * det(u,v,w); return a + (1 / D) * (dot(u,u) * cross(v,w) + dot(v,v) * cross(w,u) + dot(w,w) * cross(u,v)); }
static VI key(int a, int b) { VI k; k.push_back(std::min(a,b)); k.push_back(std::max(a,b)); return k; }
static double parea(VP const & p) { double s = 0; for (size_t i = 1; i + 1 < p.size(); ++i) s += cross(p[i]-p[0], p[i+1]-p[0]).c[2]; return std::fabs(s) / 2; }
// part of the polygon with dot(x - q, n) >= 0
static VP clip(VP const & p, P3 q, P3 n) { VP r; for (size_t i = 0; i < p.size(); ++i) { P3 a = p[i], b = p[(i+1) % p.size()]; double x = dot(a-q,n), y = dot(b-q,n); if (x >= 0) r.push_back(a); if ((x > 0 && y < 0) || (x < 0 && y > 0)) r.push_back(a + (x / (x - y)) * (b - a)); } return r; }
static Vor reference(VP const & p, VVI const & cells, VI const & use)
{
  Vor r; std::map<VI,int> fc;
  for (size_t u = 0; u < use.size(); ++u) { VI const & c = cells[use[u]]; VVI f = Shape<CT>::facets(); for (size_t i = 0; i < f.size(); ++i) fc[sorted(pick(c, f[i]))]++; }
  for (size_t u = 0; u < use.size(); ++u)
  {
    int ci = use[u]; VI const & c = cells[ci]; VP v; for (size_t i = 0; i < c.size(); ++i) v.push_back(p[c[i]]);
#define ADDV(k,x) { r.vert[c[k]] += x; r.cv[std::make_pair(c[k], ci)] += x; }
#if KIND == 0 || KIND == 5
    double l = dist(v[0], v[1]); r.vol += l; ADDV(0, l/2) ADDV(1, l/2) r.edge[key(c[0],c[1])] += l; r.iface[key(c[0],c[1])] = 1;
#elif KIND == 1
    double A = tri_area(v[0],v[1],v[2]); r.vol += A; P3 o = tri_cc(v[0],v[1],v[2]); int ob = -1;
    for (int k = 0; k < 3; ++k) if (dot(v[(k+1)%3]-v[k], v[(k+2)%3]-v[k]) < 0) ob = k;    // obtuse at k
    if (ob >= 0) r.exact_cells = false;
    bool clipped = ob >= 0 && fc[key(c[(ob+1)%3], c[(ob+2)%3])] == 1;
    for (int k = 0; k < 3; ++k)
    {
      int a = (k+1)%3, b = (k+2)%3; double l = dist(v[a], v[b]), cot = dot(v[a]-v[k], v[b]-v[k]) / len(cross(v[a]-v[k], v[b]-v[k])); VI e = key(c[a], c[b]);
      if (!clipped) { r.iface[e] += l * cot / 2; r.edge[e] += l * l * cot / 4; ADDV(a, l * l * cot / 8) ADDV(b, l * l * cot / 8) continue; }
      // clipped: regions of T nearest to a vertex, and spanned by the edge and the circumcenter
      VP T = v; VP N = clip(clip(T, 0.5*(v[k]+v[a]), v[k]-v[a]), 0.5*(v[k]+v[b]), v[k]-v[b]); ADDV(k, parea(N))
      if (k == ob) { r.iface[e] += 0; r.edge[e] += 0; continue; }
      VP E; E.push_back(v[a]); E.push_back(v[b]); E.push_back(o); int x = (ob+1)%3, y = (ob+2)%3; P3 d = v[y]-v[x], n = P3(-d.c[1], d.c[0]); if (dot(v[ob]-v[x], n) < 0) n = -1.0 * n;
      r.edge[e] += parea(clip(E, v[x], n)); 
      // bisector from the midpoint to the clipping edge
      P3 m = 0.5*(v[a]+v[b]); double da = dot(m - v[x], n), db = dot(o - v[x], n); r.iface[e] += dist(m, o) * da / (da - db);
    }
#elif KIND == 2
    double w = dist(v[0],v[1]), h = dist(v[0],v[2]); r.vol += w*h; for (int k = 0; k < 4; ++k) ADDV(k, w*h/4)
    r.iface[key(c[0],c[1])] += h/2; r.iface[key(c[2],c[3])] += h/2; r.iface[key(c[0],c[2])] += w/2; r.iface[key(c[1],c[3])] += w/2; VVI e = Shape<CT>::edges(); for (size_t k = 0; k < e.size(); ++k) r.edge[key(c[e[k][0]],c[e[k][1]])] += w*h/4;
#elif KIND == 3
    r.exact_cells = false; r.vol += tet_vol(v[0],v[1],v[2],v[3]); P3 o = tet_cc(v[0],v[1],v[2],v[3]);
    for (int a = 0; a < 4; ++a) for (int b = a + 1; b < 4; ++b)
    {
      double area = 0; P3 m = 0.5 * (v[a] + v[b]);
      for (int k = 0; k < 4; ++k) if (k != a && k != b)
      { int l = 6 - a - b - k; P3 f = tri_cc(v[a],v[b],v[k]), n = cross(v[b]-v[a], v[k]-v[a]); if (dot(n, v[l]-v[a]) < 0) n = -1.0 * n; double hT = dot(o - f, n) / len(n); P3 q = v[k] - m; q = q - (dot(q, v[b]-v[a]) / dot(v[b]-v[a], v[b]-v[a])) * (v[b]-v[a]); double hf = dot(f - m, q) / len(q); area += hT * hf / 2; }
      double l = dist(v[a], v[b]); VI e = key(c[a], c[b]); r.iface[e] += area; r.edge[e] += area * l / 3; r.vert[c[a]] += area * l / 6; r.vert[c[b]] += area * l / 6;
    }
#elif KIND == 4
    double w[3] = { dist(v[0],v[1]), dist(v[0],v[2]), dist(v[0],v[4]) }, V = w[0]*w[1]*w[2]; r.vol += V; for (int k = 0; k < 8; ++k) ADDV(k, V/8)
    VVI e = Shape<CT>::edges(); for (size_t k = 0; k < e.size(); ++k) { double l = dist(v[e[k][0]], v[e[k][1]]); int d = (e[k][1] - e[k][0]) >> 1; VI ky = key(c[e[k][0]], c[e[k][1]]); r.edge[ky] += V/12; r.iface[ky] += V / w[d == 2 ? 2 : d] / 4; (void)l; }
#endif
  }
  return r;
}

static double sum(CC const & c) { double s = 0; for (size_t i = 0; i < c.size(); ++i) s += c[i].second; return s; }
template<class O> void check(O const & obj, M const & m, VP const & p, VVI const & cells, VI const & use, std::map<VI,int> const & eid, std::vector<CH> const & ch, const char * what)
{
  std::deque<double> ia, vb, eb; std::deque<CC> ic, vc, ec;
  { int ne = (int)vg::lines(m).size(), nv = (int)p.size(); ia.resize(ne); eb.resize(ne); ic.resize(ne); ec.resize(ne); vb.resize(nv); vc.resize(nv); }
  vg::apply_voronoi<Cell>(obj, vg::make_field<Line>(ia), vg::make_field<Line>(ic), vg::make_field<Vertex>(vb), vg::make_field<Vertex>(vc), vg::make_field<Line>(eb), vg::make_field<Line>(ec));
  Vor r = reference(p, cells, use); mc::transition(); mc::outcome(mc::str(r.vol));
  double tv = 0, te = 0, tol = 1e-9 * (r.vol + 1); std::string W = what;
  for (int i = 0; i < (int)p.size(); ++i)
  {
    double w = r.vert.count(i) ? r.vert[i] : 0; tv += vb[i];
    MCHECK(std::fabs(vb[i] - w) <= tol, "vertex-box-volume" + W, "vertex " + mc::str(i) + " have " + mc::str(vb[i]) + " want " + mc::str(w));
    MCHECK(std::fabs(sum(vc[i]) - w) <= tol, "vertex-contributions" + W, "vertex " + mc::str(i) + " have " + mc::str(sum(vc[i])) + " want " + mc::str(w));
    if (r.exact_cells) for (size_t c = 0; c < ch.size(); ++c) { double s = 0; for (size_t k = 0; k < vc[i].size(); ++k) if (vc[i][k].first == CCH(ch[c])) s += vc[i][k].second; double x = r.cv.count(std::make_pair(i,(int)c)) ? r.cv[std::make_pair(i,(int)c)] : 0; MCHECK(std::fabs(s - x) <= tol, "vertex-cell-contribution" + W, "vertex " + mc::str(i) + " cell " + mc::str(c) + " have " + mc::str(s) + " want " + mc::str(x)); }
  }
  for (std::map<VI,int>::const_iterator i = eid.begin(); i != eid.end(); ++i)
  {
    int e = i->second; double we = r.edge.count(i->first) ? r.edge[i->first] : 0, wi = r.iface.count(i->first) ? r.iface[i->first] : 0; te += eb[e];
    MCHECK(std::fabs(eb[e] - we) <= tol, "edge-box-volume" + W, show(i->first) + " have " + mc::str(eb[e]) + " want " + mc::str(we));
    MCHECK(std::fabs(sum(ec[e]) - we) <= tol, "edge-contributions" + W, show(i->first) + " have " + mc::str(sum(ec[e])) + " want " + mc::str(we));
    MCHECK(std::fabs(ia[e] - wi) <= tol, "interface-area" + W, show(i->first) + " have " + mc::str(ia[e]) + " want " + mc::str(wi));
    MCHECK(std::fabs(sum(ic[e]) - wi) <= tol, "interface-contributions" + W, show(i->first) + " have " + mc::str(sum(ic[e])) + " want " + mc::str(wi));
  }
  MCHECK(std::fabs(tv - r.vol) <= tol * 4 && std::fabs(te - r.vol) <= tol * 4, "total" + W, "vertices " + mc::str(tv) + " edges " + mc::str(te) + " mesh " + mc::str(r.vol));
}
static void one1(VP const & p, VVI const & cells, bool segs)
{ mc::trace(show(p) + show(cells)); mc::state(show(cells));
  M m; std::vector<VH> h; for (size_t i = 0; i < p.size(); ++i) h.push_back(vg::make_vertex(m, mk(p[i])));
  std::vector<CH> ch; VI all;
  for (size_t c = 0; c < cells.size(); ++c) { std::vector<VH> k; for (size_t i = 0; i < cells[c].size(); ++i) k.push_back(h[cells[c][i]]); ch.push_back(vg::make_cell(m, k.begin(), k.end())); all.push_back((int)c); }
  std::map<VI,int> eid; { typedef vg::result_of::line_range<M>::type LR; LR lr(m); for (vg::result_of::iterator<LR>::type i = lr.begin(); i != lr.end(); ++i) eid[svids(*i)] = (int)(*i).id().get(); }
  check(m, m, p, cells, all, eid, ch, "");
#if KIND != 3
  if (cells.size() > 8)
  { SEG s(m); for (int n = 2; n <= 5; n += 3) for (int k = 0; k < n; ++k) { SGH g = s.make_segment(); VI use; for (int c = 0; c < (int)cells.size(); ++c) if (c % n == k || c * n / (int)cells.size() == k) { vg::add(g, vg::dereference_handle(m, ch[c])); use.push_back(c); } check(g, m, p, cells, use, eid, ch, "-segment"); } return; }
  if (!segs) return;
  SEG s(m); for (int mask = 1; mask < (1 << cells.size()); ++mask)
  { SGH g = s.make_segment(); VI use; for (size_t c = 0; c < cells.size(); ++c) if (mask >> c & 1) { vg::add(g, vg::dereference_handle(m, ch[c])); use.push_back((int)c); } check(g, m, p, cells, use, eid, ch, "-segment"); }
#endif
}
// as given, or moved across the origin (every other case)
static void one(VP const & p, VVI const & cells, bool segs)
{
  static long n = 0; ++n;
  if (!mc::begin_case()) return;
  if (n % 2) { one1(p, cells, segs); return; }
  VP q; for (size_t i = 0; i < p.size(); ++i) { P3 x = p[i]; x.c[0] -= n % 4 ? 1 : 40; if (DIM > 1) x.c[1] -= n % 4 ? 2 : 33; if (DIM > 2) x.c[2] -= n % 4 ? 1 : 50; q.push_back(x); }
  one1(q, cells, segs);
}
#if KIND == 1
static bool delaunay(P3 a, P3 b, P3 x, P3 y) { struct A { static double ang(P3 o, P3 u, P3 v) { return std::atan2(len(cross(u-o, v-o)), dot(u-o, v-o)); } }; return A::ang(x,a,b) + A::ang(y,a,b) <= M_PI + 1e-9; }
#endif
#if KIND == 3
static bool self_centred(VP const & v) { P3 o = tet_cc(v[0],v[1],v[2],v[3]); for (int k = 0; k < 4; ++k) { VI f; for (int i = 0; i < 4; ++i) if (i != k) f.push_back(i); P3 n = cross(v[f[1]]-v[f[0]], v[f[2]]-v[f[0]]); if (dot(n, v[k]-v[f[0]]) < 0) n = -1.0 * n; if (dot(o - v[f[0]], n) < -1e-9) return false; for (int i = 0; i < 3; ++i) if (dot(v[f[(i+1)%3]]-v[f[i]], v[f[(i+2)%3]]-v[f[i]]) < -1e-9) return false; } return true; }
#endif
static VVI order(VVI c, int which, int pi) { VVI a = arrangements((int)c[which].size(), (int)c[which].size()); c[which] = pick(c[which], a[pi]); return c; }

int main(int argc, char ** argv)
{
  mc::init(argc, argv); const bool T = mc::S().thorough; VP p;
#if KIND == 0 || KIND == 5
  mc::begin_group("lines");
  { VVI a = arrangements(6, 4); for (size_t i = 0; i < a.size(); ++i) { VP q; for (int k = 0; k < 4; ++k) q.push_back(KIND == 0 ? P3(a[i][k] * a[i][k]) : P3(a[i][k], k, a[i][k] % 2)); VI o; for (int k = 0; k < 4; ++k) o.push_back(k); if (KIND == 0) std::sort(o.begin(), o.end(), [&](int x, int y) { return a[i][x] < a[i][y]; });
      for (int f = 0; f < 8; ++f) { VVI c; for (int k = 0; k < 3; ++k) { VI e; e.push_back(o[k + (f >> k & 1)]); e.push_back(o[k + !(f >> k & 1)]); c.push_back(e); } one(q, c, i % 5 == 0); } } }
#elif KIND == 1
  mc::begin_group("single");
  { VP g = grid(T ? 6 : 5, 2); VVI a = arrangements((int)g.size(), 3); for (size_t i = 0; i < a.size(); ++i) { VP v; for (int k = 0; k < 3; ++k) v.push_back(g[a[i][k]]); if (tri_area(v[0],v[1],v[2]) == 0) continue; one(v, tup("0,1,2"), false); } }
  mc::begin_group("pairs");
  { VP g = grid(T ? 5 : 4, 2); VVI a = arrangements((int)g.size(), 4); for (size_t i = 0; i < a.size(); ++i) { if (a[i][0] > a[i][1] || a[i][2] > a[i][3]) continue; VP v; for (int k = 0; k < 4; ++k) v.push_back(g[a[i][k]]); double s = cross(v[1]-v[0], v[2]-v[0]).c[2], t = cross(v[1]-v[0], v[3]-v[0]).c[2]; if (s * t >= 0) continue; if (!delaunay(v[0],v[1],v[2],v[3])) continue;
      VVI c = tup("0,1,2;0,1,3"); int st = T ? 1 : 5; for (int x = (int)(i % st); x < 36; x += st) one(v, order(order(c, 0, x / 6), 1, x % 6), x % 7 == 0); } }
  mc::begin_group("fans");
  { // vertex 0 surrounded by 3, 4 or 5 others; position of the inner vertex varies; every order of the first cell
    const char * fans[] = { "0,1,2;0,2,3;0,3,1", "0,1,2;0,2,3;0,3,4;0,4,1", "0,1,2;0,2,3;0,3,4;0,4,5;0,5,1" }; double ring[3][10] = { {0,0, 8,0, 3,7}, {0,0, 7,1, 8,8, 1,7}, {0,2, 4,0, 8,2, 6,7, 2,7} };
    for (int f = 0; f < 3; ++f) for (int x = 1; x < 8; ++x) for (int y = 1; y < 8; ++y)
    { VP v; v.push_back(P3(x,y)); for (int k = 0; k < 3 + f; ++k) v.push_back(P3(ring[f][2*k], ring[f][2*k+1])); VVI c = tup(fans[f]); bool ok = true; int n = (int)c.size();
      for (int k = 0; k < n; ++k) { ok &= cross(v[c[k][1]]-v[0], v[c[k][2]]-v[0]).c[2] > 0; ok &= delaunay(v[0], v[c[k][1]], v[c[k][2]], v[c[(k+n-1)%n][1]]); } if (!ok) continue;
      for (int o = 0; o < 6; ++o) for (int w = 0; w < n; ++w) { VVI d = c; for (int k = 0; k <= w; ++k) d = order(d, k, (o + k) % 6); one(v, d, o == 0); } } }
#elif KIND == 2
  mc::begin_group("rectangles");
  for (int a = 1; a <= 3; ++a) for (int b = 1; b <= 3; ++b) for (int c = 1; c <= 3; ++c) for (int d = 1; d <= 3; ++d) for (int rot = 0; rot < 3; ++rot)
  { double xs[3] = {0.0,(double)a,(double)(a+b)}, ys[3] = {0.0,(double)c,(double)(c+d)}; VP v; for (int y = 0; y < 3; ++y) for (int x = 0; x < 3; ++x) { double X = xs[x], Y = ys[y]; v.push_back(rot == 0 ? P3(X,Y) : rot == 1 ? P3(X-Y, X+Y) : P3(3*X-4*Y+1, 4*X+3*Y)); }
    VVI cells = tup("0,1,3,4;1,2,4,5;3,4,6,7;4,5,7,8"), sym = tup("0,1,2,3;1,0,3,2;2,3,0,1;3,2,1,0;0,2,1,3;2,0,3,1;1,3,0,2;3,1,2,0"); for (size_t s = 0; s < 64; ++s) { VVI e = cells; e[0] = pick(cells[0], sym[s % 8]); e[1] = pick(cells[1], sym[s / 8]); e[2] = pick(cells[2], sym[(s + s / 8) % 8]); one(v, e, s % 9 == 0); } }
#elif KIND == 3
  mc::begin_group("single");
  { VP g = grid(3, 3); VVI a = arrangements(27, 4); for (size_t i = 0; i < a.size(); ++i) { VP v; for (int k = 0; k < 4; ++k) v.push_back(g[a[i][k]]); if (tet_vol(v[0],v[1],v[2],v[3]) == 0 || !self_centred(v)) continue; if (!T && i % 3) continue; one(v, tup("0,1,2,3"), false); } }
  mc::begin_group("bricks");
  { // Kuhn subdivision of one or two bricks a x b x c
    for (int a = 1; a <= 3; ++a) for (int b = 1; b <= 3; ++b) for (int c = 1; c <= 3; ++c) for (int two = 0; two < 2; ++two)
    { VP v; for (int i = 0; i < 8; ++i) v.push_back(P3((i & 1) * a, (i >> 1 & 1) * b, (i >> 2 & 1) * c)); VVI k = tup("0,1,3,7;0,1,5,7;0,2,3,7;0,2,6,7;0,4,5,7;0,4,6,7");
      if (two) { for (int i = 0; i < 4; ++i) v.push_back(P3(a * (2.0 + (b == 2)), (i & 1) * b, (i >> 1 & 1) * c)); int mp[8] = {1,8,3,9,5,10,7,11}; for (int i = 0; i < 6; ++i) { VI e; for (int j = 0; j < 4; ++j) e.push_back(mp[k[i][j]]); k.push_back(e); } }
      for (int o = 0; o < 24; o += T ? 1 : 3) { VVI d = k; for (size_t x = 0; x < k.size(); ++x) d = order(d, (int)x, (o + 5 * (int)x) % 24); one(v, d, false); }
      if (!two) for (int w = 0; w < 6; ++w) for (int o = 0; o < 24; ++o) one(v, order(k, w, o), o == 0 && w == 0 && a == 1); } }
  mc::begin_group("around-an-edge");
  { // n tetrahedra around the edge 0-1; ring points on a circle-like polygon
    double ring[3][12] = { {4,0, -2,3, -2,-3}, {3,0, 0,3, -3,0, 0,-3}, {4,0, 2,3, -2,3, -4,0, -2,-3, 2,-3} };
    for (int f = 0; f < 3; ++f) for (int hh = 1; hh <= 4; ++hh) { int n = f == 2 ? 6 : f + 3; VP v; v.push_back(P3(0,0,-hh)); v.push_back(P3(0,0,hh)); for (int k = 0; k < n; ++k) v.push_back(P3(ring[f][2*k], ring[f][2*k+1], 0)); VVI c; bool ok = true; for (int k = 0; k < n; ++k) { VI e; e.push_back(0); e.push_back(1); e.push_back(2+k); e.push_back(2+(k+1)%n); c.push_back(e); VP q; for (int j = 0; j < 4; ++j) q.push_back(v[e[j]]); ok &= self_centred(q); } if (!ok) continue; mc::outcome("edge"); for (int o = 0; o < 24; ++o) { VVI d = c; for (int k = 0; k < n; ++k) d = order(d, k, (o * (k + 1)) % 24); one(v, d, o == 0); } } }
#elif KIND == 4
  mc::begin_group("bricks");
  { VVI sym; for (int px = 0; px < 3; ++px) for (int py = 0; py < 3; ++py) for (int pz = 0; pz < 3; ++pz) if (px != py && py != pz && px != pz) for (int f = 0; f < 8; ++f) { VI s; for (int i = 0; i < 8; ++i) { int b[3] = {i & 1, i >> 1 & 1, i >> 2 & 1}; s.push_back(((b[px] | b[py] << 1 | b[pz] << 2)) ^ f); } sym.push_back(s); }
    for (int a = 1; a <= 3; ++a) for (int b = 1; b <= 3; ++b) for (int c = 1; c <= 3; ++c)
    { VP v; for (int z = 0; z < 2; ++z) for (int y = 0; y < 2; ++y) for (int x = 0; x < 3; ++x) v.push_back(P3(x == 2 ? a + 2 : x * a, y * b, z * c)); VVI e = tup("0,1,3,4,6,7,9,10;1,2,4,5,7,8,10,11"); for (int s = 0; s < 48; ++s) for (int t = (s % 5); t < 48; t += T ? 1 : 5) { VVI d = e; d[0] = pick(e[0], sym[s]); d[1] = pick(e[1], sym[t]); one(v, d, s == t); } } }
#endif
  // structured blocks in 27 numberings, also split into 2 and 5 overlapping segments
  mc::begin_group("blocks");
  {
    VVI sizes = DIM == 1 ? tup("9,0,0;40,0,0") : DIM == 2 ? tup("4,3,0;7,5,0") : KIND == 3 ? tup("2,2,1;3,2,2") : tup("3,2,2;3,4,2");
    for (size_t z = 0; z < sizes.size(); ++z) for (int k = 0; k < 27; ++k)
    { Block b = block<CT>(sizes[z][0], sizes[z][1], sizes[z][2], k % 3, k / 3 % 3, k / 9); VP v; for (int i = 0; i < b.nv; ++i) v.push_back(P3(b.pos[i][0], b.pos[i][1], b.pos[i][2])); one(v, b.cells, true); }
  }
  return mc::finish();
}
