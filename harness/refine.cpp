// P12/P13: refinement of triangle and tetrahedral meshes.  Every tag set, every
// vertex order, all placements on small integer grids (edge-length ties
// included).  All coordinates are even integers, so midpoints and determinants
// are exact in double precision and the geometric oracle is exact (PLANE: 1e-9).
#ifndef PROP
#define PROP 12
#endif
#ifndef KIND
#define KIND 2
#endif
#include "vg.hpp"
#include "viennagrid/mesh/segmentation.hpp"
#include "viennagrid/algorithm/volume.hpp"
#include "viennagrid/algorithm/refine.hpp"
#if KIND==0
typedef vg::triangular_2d_mesh M; static const int GD = 2;
#elif KIND==1
typedef vg::triangular_3d_mesh M; static const int GD = 3;
#elif KIND==2
typedef vg::tetrahedral_3d_mesh M; static const int GD = 3;
#elif KIND==3            // tetrahedra without stored facets: edges only
typedef vg::tetrahedral_3d_mesh M; static const int GD = 3;
#endif
typedef vg::result_of::cell_tag<M>::type CT;
typedef Shape<CT> SH;
static const int D = SH::dim, NV = D + 1;
typedef vg::result_of::segmentation<M>::type SEG;
typedef vg::result_of::segment_handle<SEG>::type SGH;
typedef SEG::segment_id_type ID;
typedef vg::result_of::vertex_handle<M>::type VH;
typedef vg::result_of::cell_handle<M>::type CH;
typedef vg::result_of::cell<M>::type Cell;
typedef vg::result_of::line<M>::type Edge;
typedef vg::result_of::point<M>::type Point;

struct P3 { double c[3]; P3() { c[0]=c[1]=c[2]=0; } P3(double x, double y, double z) { c[0]=x; c[1]=y; c[2]=z; }
  bool operator<(P3 const & o) const { for (int i = 0; i < 3; ++i) if (c[i] != o.c[i]) return c[i] < o.c[i]; return false; }
  bool operator==(P3 const & o) const { return c[0]==o.c[0] && c[1]==o.c[1] && c[2]==o.c[2]; } };
static P3 operator-(P3 a, P3 b) { return P3(a.c[0]-b.c[0], a.c[1]-b.c[1], a.c[2]-b.c[2]); }
static P3 operator+(P3 a, P3 b) { return P3(a.c[0]+b.c[0], a.c[1]+b.c[1], a.c[2]+b.c[2]); }
static P3 operator*(double s, P3 b) { return P3(s*b.c[0], s*b.c[1], s*b.c[2]); }
static double dot(P3 a, P3 b) { return a.c[0]*b.c[0]+a.c[1]*b.c[1]+a.c[2]*b.c[2]; }
static P3 cross(P3 a, P3 b) { return P3(a.c[1]*b.c[2]-a.c[2]*b.c[1], a.c[2]*b.c[0]-a.c[0]*b.c[2], a.c[0]*b.c[1]-a.c[1]*b.c[0]); }
typedef std::vector<P3> VP;
static std::string show(P3 p) { return "(" + mc::str(p.c[0]) + "," + mc::str(p.c[1]) + (GD == 3 ? "," + mc::str(p.c[2]) : "") + ")"; }
static std::string show(VP const & v) { std::string s; for (size_t i = 0; i < v.size(); ++i) s += show(v[i]); return s; }
static double EPS = 0;        // 0: exact
static bool zero(double x) { return std::fabs(x) <= EPS; }
// oriented measure: 2D signed (times 2), tets signed (times 6); surface triangles in 3D: projection on normal n
static P3 normal(VP const & t) { return cross(t[1]-t[0], t[2]-t[0]); }
static double meas(VP const & t, P3 n) { return D == 3 ? dot(cross(t[1]-t[0], t[2]-t[0]), t[3]-t[0]) : dot(cross(t[1]-t[0], t[2]-t[0]), n); }
// barycentric weights of x in t (times measure); false when x is not in its affine hull
static bool bary(VP const & t, P3 x, double * w)
{
  P3 n = D == 2 ? normal(t) : P3();
  double m = meas(t, n);
  if (D == 2 && !zero(dot(n, x - t[0]))) return false;
  for (int i = 0; i < NV; ++i) { VP s = t; s[i] = x; w[i] = meas(s, n) / m; }
  return true;
}
static bool inside(VP const & t, P3 x) { for (int d = 0; d < 3; ++d) { double lo = t[0].c[d], hi = lo; for (int i = 1; i < NV; ++i) { lo = std::min(lo, t[i].c[d]); hi = std::max(hi, t[i].c[d]); } if (x.c[d] < lo - EPS || x.c[d] > hi + EPS) return false; } double w[4]; if (!bary(t, x, w)) return false; for (int i = 0; i < NV; ++i) if (w[i] < -EPS) return false; return true; }
// indices of the vertices of t whose weight is non-zero for some point of s: the face of t spanned by s
static int carrier(VP const & t, VP const & s) { int m = 0; for (size_t j = 0; j < s.size(); ++j) { double w[4]; bary(t, s[j], w); for (int i = 0; i < NV; ++i) if (!zero(w[i])) m |= 1 << i; } return m; }

struct In { VP pts; VVI cells; VVI seg; };        // seg[c]: segment ids of cell c
static std::string show(In const & in) { std::string s = show(in.pts) + ":" + show(in.cells); for (size_t i = 0; i < in.seg.size(); ++i) s += "s" + show(in.seg[i]); return s; }
typedef std::pair<int,int> E2;
static E2 e2(int a, int b) { return a < b ? E2(a,b) : E2(b,a); }
static std::vector<E2> edges_of(In const & in) { std::vector<E2> r; for (size_t c = 0; c < in.cells.size(); ++c) for (int i = 0; i < NV; ++i) for (int j = i+1; j < NV; ++j) { E2 e = e2(in.cells[c][i], in.cells[c][j]); if (std::find(r.begin(), r.end(), e) == r.end()) r.push_back(e); } return r; }

static double FAR = 0;                            // offset of all positions (meshes far from the origin)
static Point mk(P3 p) { return mkpoint<M>(p.c[0] + FAR, p.c[1] - FAR, p.c[2] + FAR / 2); }
static Point mkv(P3 p) { return mkpoint<M>(p.c[0], p.c[1], p.c[2]); }
struct Built { M m; SEG s; std::vector<VH> v; std::vector<CH> c; Built() : s(m) {} };
static void build(Built & b, In const & in)
{
  for (size_t i = 0; i < in.pts.size(); ++i) b.v.push_back(vg::make_vertex(b.m, mk(in.pts[i])));
  for (size_t c = 0; c < in.cells.size(); ++c)
  { std::vector<VH> h; for (int i = 0; i < NV; ++i) h.push_back(b.v[in.cells[c][i]]); b.c.push_back(vg::make_cell(b.m, h.begin(), h.end())); }
  for (size_t c = 0; c < in.seg.size(); ++c) for (size_t k = 0; k < in.seg[c].size(); ++k) { SGH g = b.s.get_make_segment(ID(in.seg[c][k])); vg::add(g, vg::dereference_handle(b.m, b.c[c])); }
}
static E2 eid(M const & m, Edge const & e) { VI v = vids(e); return e2(v[0], v[1]); }
template<class A> void flag(M & m, std::set<E2> const & tags, A acc)
{ typedef vg::result_of::line_range<M>::type R; R r(m); for (R::iterator i = r.begin(); i != r.end(); ++i) if (tags.count(eid(m, *i))) acc(*i) = true; }
static P3 pos(M const & m, vg::result_of::vertex<M>::type const & v) { static const double S[3] = {1, -1, .5}; P3 p; for (int i = 0; i < GD; ++i) p.c[i] = vg::point(m, v)[i] - S[i] * FAR; return p; }
static VP pts(M const & m, Cell const & c)
{ typedef vg::result_of::const_vertex_range<Cell>::type R; R r(c); VP p; for (vg::result_of::iterator<R>::type i = r.begin(); i != r.end(); ++i) p.push_back(pos(m, *i)); return p; }

// ---- the oracle: out is the conforming refinement of in with split points at[e] ----
static bool same(P3 a, P3 b) { for (int i = 0; i < 3; ++i) if (std::fabs(a.c[i]-b.c[i]) > EPS) return false; return true; }
static void check_refinement(In const & in, std::map<E2,P3> const & at, M const & out, SEG const * so, M const & src)
{
  // 1. vertices: those of the input cells and one per split edge, each once
  VP want; std::set<int> used; for (size_t c = 0; c < in.cells.size(); ++c) used.insert(in.cells[c].begin(), in.cells[c].end());
  for (std::set<int>::iterator i = used.begin(); i != used.end(); ++i) want.push_back(in.pts[*i]);
  for (std::map<E2,P3>::const_iterator i = at.begin(); i != at.end(); ++i) want.push_back(i->second);
  typedef vg::result_of::const_vertex_range<M>::type VR; VR vr(out); VP got; std::vector<char> hit(want.size(), 0);
  bool okv = true; for (vg::result_of::iterator<VR>::type i = vr.begin(); i != vr.end(); ++i) { P3 p = pos(out, *i); got.push_back(p); size_t k = 0; while (k < want.size() && (hit[k] || !same(want[k], p))) ++k; if (k == want.size()) okv = false; else hit[k] = 1; }
  if (!MCHECK(okv && got.size() == want.size(), "vertices", "have " + show(got) + " want " + show(want))) return;
  // 2. children lie in one parent, fill it, keep its orientation
  typedef vg::result_of::const_cell_range<M>::type CR; CR cr(out);
  std::vector<VP> par; for (size_t c = 0; c < in.cells.size(); ++c) { VP t; for (int i = 0; i < NV; ++i) t.push_back(in.pts[in.cells[c][i]]); par.push_back(t); }
  std::vector<double> sum(par.size(), 0);
  typedef std::vector<int> K; struct F { int n; int parent[2]; double side[2]; VP p; F() : n(0) {} }; std::map<K,F> facets;
  std::vector<VP> kids; std::set<E2> outedges; std::vector<VI> kidv;
  for (vg::result_of::iterator<CR>::type i = cr.begin(); i != cr.end(); ++i)
  {
    VP t = pts(out, *i); VI v = vids(*i); int p = -1;
    for (size_t c = 0; c < par.size(); ++c) { bool in_ = true; for (int k = 0; k < NV && in_; ++k) in_ = inside(par[c], t[k]); if (in_ && carrier(par[c], t) == (1 << NV) - 1) { p = (int)c; break; } }
    if (!MCHECK(p >= 0, "child-outside", show(t))) return;
    P3 n = normal(par[p]); double m = meas(t, n);
    MCHECK(std::fabs(m) > EPS, "degenerate-child", show(t) + " in " + show(par[p]) + " measure " + mc::str(m));
    sum[p] += std::fabs(m);
    for (int k = 0; k < NV; ++k)
    {
      K key; VP fp; for (int j = 0; j < NV; ++j) if (j != k) { key.push_back(v[j]); fp.push_back(t[j]); }
      std::sort(key.begin(), key.end()); F & f = facets[key];
      if (!MCHECK(f.n < 2, "facet-in-three-cells", show(fp))) return;
      f.parent[f.n] = p; f.p = fp; ++f.n;
    }
    for (int a = 0; a < NV; ++a) for (int b = a+1; b < NV; ++b) outedges.insert(e2(v[a], v[b]));
    kids.push_back(t); kidv.push_back(v);
    if (so) { VI g; typedef vg::result_of::segment_id_range<SEG,Cell>::type SR; SR sr = vg::segment_ids(*so, *i); for (SR::iterator q = sr.begin(); q != sr.end(); ++q) g.push_back((int)*q);
      MCHECK(sorted(g) == sorted(in.seg[p]), "child-segments", show(t) + " have " + show(g) + " want " + show(in.seg[p])); }
  }
  for (size_t c = 0; c < par.size(); ++c) { double pm = std::fabs(meas(par[c], normal(par[c]))); MCHECK(std::fabs(sum[c] - pm) <= EPS * std::max(1.0, std::fabs(pm)), "measure", "parent " + mc::str(c) + " children " + mc::str(sum[c]) + " parent " + mc::str(pm)); }
  // 3. conforming: facets inside a parent or on a shared parent facet belong to two cells, outer ones to one
  for (std::map<K,F>::iterator f = facets.begin(); f != facets.end(); ++f)
  {
    F & q = f->second; int want = 0;
    for (size_t c = 0; c < par.size(); ++c)
    {
      bool in_ = true; for (size_t j = 0; j < q.p.size() && in_; ++j) in_ = inside(par[c], q.p[j]);
      if (in_) want += carrier(par[c], q.p) == (1 << NV) - 1 ? 2 : 1;
    }
    MCHECK(q.n == want, "not-conforming", "facet " + show(q.p) + " belongs to " + mc::str(q.n) + " cells, expected " + mc::str(want));
  }
  // 4. no vertex inside an edge; untagged edges survive, tagged ones become two
  if (got.size() <= 12) for (std::set<E2>::iterator e = outedges.begin(); e != outedges.end(); ++e)
  {
    P3 a = pos(out, *vg::find(out, vg::result_of::vertex<M>::type::id_type(e->first))), b = pos(out, *vg::find(out, vg::result_of::vertex<M>::type::id_type(e->second)));
    for (size_t k = 0; k < got.size(); ++k) { P3 x = got[k]; if (same(x, a) || same(x, b)) continue; P3 cr2 = cross(b - a, x - a); MCHECK(!(zero(cr2.c[0]) && zero(cr2.c[1]) && zero(cr2.c[2]) && dot(x - a, x - b) < 0), "hanging-vertex", show(x)); }
  }
  std::map<P3,int> idof; if (EPS == 0) { int k = 0; for (vg::result_of::iterator<VR>::type i = vr.begin(); i != vr.end(); ++i, ++k) idof[got[k]] = (int)(*i).id().get();
    std::vector<E2> ie = edges_of(in);
    for (size_t k = 0; k < ie.size(); ++k)
    {
      int a = idof[in.pts[ie[k].first]], b = idof[in.pts[ie[k].second]]; std::map<E2,P3>::const_iterator q = at.find(ie[k]);
      if (q == at.end()) MCHECK(outedges.count(e2(a,b)) == 1, "untagged-edge-lost", show(in.pts[ie[k].first]) + show(in.pts[ie[k].second]));
      else { int m = idof[q->second]; MCHECK(!outedges.count(e2(a,b)) && outedges.count(e2(a,m)) && outedges.count(e2(m,b)), "tagged-edge", show(in.pts[ie[k].first]) + show(in.pts[ie[k].second])); }
    } }
  // 5. the edges of the output mesh are exactly those of its cells
  MCHECK(vg::elements<vg::line_tag>(out).size() == outedges.size() && (int)vg::elements<CT::facet_tag>(out).size() == (int)facets.size(), "output-sub-elements", "");
  // 6. source untouched
  MCHECK(vg::cells(src).size() == in.cells.size() && vg::vertices(src).size() == in.pts.size(), "source-changed", "");
  if (so)
  {
    std::set<int> ids, wids; for (size_t c = 0; c < in.seg.size(); ++c) wids.insert(in.seg[c].begin(), in.seg[c].end());
    for (SEG::const_iterator s = so->begin(); s != so->end(); ++s) { ids.insert((int)s->id()); size_t n = 0; for (size_t c = 0; c < kids.size(); ++c) { for (size_t p = 0; p < par.size(); ++p) { bool in_ = true; for (int k = 0; k < NV; ++k) in_ &= inside(par[p], kids[c][k]); if (in_ && carrier(par[p], kids[c]) == (1 << NV) - 1) { n += std::count(in.seg[p].begin(), in.seg[p].end(), (int)s->id()); break; } } }
      MCHECK(vg::cells(*s).size() == n, "segment-size", "segment " + mc::str((int)s->id())); }
    MCHECK(ids == wids, "segment-ids", show(ids) + " want " + show(wids));
  }
  mc::transition((long)kids.size());
}
static std::map<E2,P3> midpoints(In const & in, std::set<E2> const & tags) { std::map<E2,P3> at; for (std::set<E2>::const_iterator i = tags.begin(); i != tags.end(); ++i) at[*i] = 0.5 * (in.pts[i->first] + in.pts[i->second]); return at; }
static std::string show(std::set<E2> const & t) { std::string s = "{"; for (std::set<E2>::const_iterator i = t.begin(); i != t.end(); ++i) s += mc::str(i->first) + "-" + mc::str(i->second) + " "; return s + "}"; }

// api: which of the public entry points is used
static void refine_case(In const & in, std::set<E2> const & tags, int api = 0)
{
  if (!mc::begin_case()) return;
  mc::trace(show(in) + " tags " + show(tags) + (api ? " api" + mc::str(api) : ""));
  mc::state(show(in)); mc::outcome(show(tags));
  Built b; build(b, in); M out; SEG so(out); std::deque<bool> fl;
  fl.resize(vg::id_upper_bound<Edge>(b.m).get(), false);
  flag(b.m, tags, vg::make_accessor<Edge>(fl));
  const bool segs = !in.seg.empty();
  switch (api)
  {
    case 0: if (segs) vg::refine<CT>(b.m, b.s, out, so, vg::make_accessor<Edge>(fl)); else vg::refine<CT>(b.m, out, vg::make_accessor<Edge>(fl)); break;
    case 2: if (segs) vg::refine<Cell>(b.m, b.s, out, so, vg::default_point_accessor(b.m), vg::make_accessor<Edge>(fl)); else vg::refine<Cell>(b.m, out, vg::default_point_accessor(b.m), vg::make_accessor<Edge>(fl)); break;
    case 3:
    {
      vg::vertex_copy_map<M,M> vm(out); std::map<Edge::id_type,VH> hm; typedef vg::result_of::accessor<std::map<Edge::id_type,VH>, Edge>::type HA; HA ha(hm);
      if (segs) vg::refine<CT>(b.m, b.s, out, so, vg::default_point_accessor(b.m), vm, vg::make_accessor<Edge>(fl), ha); else vg::refine<CT>(b.m, out, vg::default_point_accessor(b.m), vm, vg::make_accessor<Edge>(fl), ha);
    } break;
    case 1: // tags through a map-backed field
    {
      std::map<Edge::id_type,bool> mp; vg::result_of::field<std::map<Edge::id_type,bool>,Edge>::type f(mp);
      typedef vg::result_of::line_range<M>::type R; R r(b.m); for (R::iterator i = r.begin(); i != r.end(); ++i) f(*i) = tags.count(eid(b.m, *i)) > 0;
      if (segs) vg::refine<CT>(b.m, b.s, out, so, f); else vg::refine<CT>(b.m, out, f);
    } break;
  }
  check_refinement(in, midpoints(in, tags), out, segs ? &so : 0, b.m);
}
static void all_tags(In const & in, int api = 0)
{
  std::vector<E2> e = edges_of(in);
  for (int m = 0; m < (1 << e.size()); ++m) { std::set<E2> t; for (size_t i = 0; i < e.size(); ++i) if (m >> i & 1) t.insert(e[i]); refine_case(in, t, api); }
}

// ---- fixtures ---------------------------------------------------------------
static P3 lift(P3 p) { if (KIND == 1) p.c[2] = 2 * (((int)p.c[0] / 2 * 2 + (int)p.c[1] / 2 * 3) % 4); return p; }   // KIND 1: a folded surface
static VP grid(int n) { VP r; for (int x = 0; x < n; ++x) for (int y = 0; y < n; ++y) for (int z = 0; z < (D == 3 ? n : 1); ++z) r.push_back(P3(2*x, 2*y, 2*z)); return r; }
static bool nondeg(VP const & t) { if (D == 3) return meas(t, P3()) != 0; P3 n = normal(t); return dot(n, n) != 0; }
static In one(VP const & t) { In in; in.pts = t; for (size_t i = 0; i < t.size(); ++i) in.pts[i] = lift(t[i]); in.cells.push_back(VI()); for (int i = 0; i < NV; ++i) in.cells[0].push_back(i); return in; }
static bool okcell(VP const & t) { VP l = t; if (KIND == 1) for (size_t i = 0; i < l.size(); ++i) l[i] = lift(t[i]); return nondeg(t) && nondeg(l); }

// all (ordered) NV-tuples of grid points; limit: the first point runs over all points or is fixed at index 0
// one representative per outcome of all edge-length (and inner-diagonal) comparisons: everything the patterns may depend on
static std::string signature(VP const & t)
{
  std::vector<double> l; for (int i = 0; i < NV; ++i) for (int j = i+1; j < NV; ++j) l.push_back(dot(t[i]-t[j], t[i]-t[j]));
  std::string s; for (size_t i = 0; i < l.size(); ++i) for (size_t j = i+1; j < l.size(); ++j) s += l[i] < l[j] ? '<' : l[i] > l[j] ? '>' : '=';
  if (D == 3) { double d[3]; for (int k = 0; k < 3; ++k) { int o[2], n = 0; for (int j = 1; j < 4; ++j) if (j != k+1) o[n++] = j; P3 x = t[0]+t[k+1]-t[o[0]]-t[o[1]]; d[k] = dot(x,x); }
    for (int i = 0; i < 3; ++i) for (int j = i+1; j < 3; ++j) s += d[i] < d[j] ? '<' : d[i] > d[j] ? '>' : '='; }
  return s + (D == 3 && meas(t, P3()) < 0 ? "-" : "+");
}
static void single(VP const & g, bool first_fixed, VI const & apis, bool reduce = false)
{
  std::set<std::string> seen;
  VVI a = arrangements((int)g.size(), NV);
  for (size_t i = 0; i < a.size(); ++i)
  {
    if (first_fixed && a[i][0] != 0) continue;
    VP t; for (int k = 0; k < NV; ++k) t.push_back(g[a[i][k]]);
    if (!okcell(t)) continue;
    if (reduce && !seen.insert(signature(t)).second) continue;
    for (size_t q = 0; q < apis.size(); ++q) all_tags(one(t), apis[q]);
  }
}
// a fixed geometry with cells given; all vertex orders of cells c1, c2 (others fixed), all vertex numberings from nums
static void orders(VP const & p, VVI const & cells, VVI const & nums, VVI const & o1, VVI const & o2, int api = 0)
{
  for (size_t n = 0; n < nums.size(); ++n) for (size_t a = 0; a < o1.size(); ++a) for (size_t b = 0; b < (cells.size() > 1 ? o2.size() : 1); ++b)
  {
    In in; in.pts.resize(p.size()); for (size_t i = 0; i < p.size(); ++i) in.pts[nums[n][i]] = lift(p[i]);
    for (size_t c = 0; c < cells.size(); ++c) { VI x = c == 0 ? pick(cells[c], o1[a]) : c == 1 ? pick(cells[c], o2[b]) : cells[c], y; for (int k = 0; k < NV; ++k) y.push_back(nums[n][x[k]]); in.cells.push_back(y); }
    bool ok = true; for (size_t c = 0; c < in.cells.size(); ++c) { VP t; for (int k = 0; k < NV; ++k) t.push_back(in.pts[in.cells[c][k]]); ok &= nondeg(t); }
    if (ok) all_tags(in, api);
  }
}
static VVI first(VVI v, size_t n) { if (v.size() > n) v.resize(n); return v; }
static VVI every(VVI const & v, size_t n) { VVI r; for (size_t i = 0; i < v.size(); i += n) r.push_back(v[i]); return r; }

// larger meshes in every numbering; seg: split over two overlapping segments
static std::vector<In> block_meshes(bool T, bool seg)
{
  VVI sizes = D == 2 ? tup("2,2,0;4,3,0;7,6,0") : tup("1,1,1;2,1,1;2,2,2");
  if (T) sizes.push_back(D == 2 ? tup("12,12,0")[0] : tup("3,3,2")[0]);
  std::vector<In> r;
  for (size_t z = 0; z < sizes.size(); ++z) for (int k = 0; k < 27; ++k)
  {
    if (!T && z == 2 && k % 4) continue;
    Block b = block<CT>(sizes[z][0], sizes[z][1], sizes[z][2], k % 3, k / 3 % 3, k / 9); In in; in.cells = b.cells;
    for (int i = 0; i < b.nv; ++i) in.pts.push_back(lift(P3(16 * b.pos[i][0] - (k % 2 ? 0 : k % 4 ? 24 : 200), 16 * b.pos[i][1] - (k % 2 ? 0 : k % 4 ? 24 : 200), D == 3 ? 16 * b.pos[i][2] - (k % 2 ? 0 : k % 4 ? 24 : 200) : 0)));
    if (seg) for (size_t c = 0; c < in.cells.size(); ++c) { VI g; if (c % 2) g.push_back(3); if (c % 3 == 0 || c < in.cells.size() / 2) g.push_back(1); in.seg.push_back(g); }
    r.push_back(in);
  }
  return r;
}
static std::vector<std::set<E2> > tag_families(In const & in, int singles)
{
  std::vector<E2> e = edges_of(in); std::vector<std::set<E2> > r;
  for (int p = 1; p <= 6; ++p) for (int q = 0; q < p; ++q) { std::set<E2> t; for (size_t i = 0; i < e.size(); ++i) if ((int)i % p == q) t.insert(e[i]); r.push_back(t); }
  for (size_t i = 0; i < e.size(); i += singles) { std::set<E2> t; t.insert(e[i]); r.push_back(t); }
  return r;
}

#if PROP==12
int main(int argc, char ** argv)
{
  mc::init(argc, argv); const bool T = mc::S().thorough; VI apis(1, 0), all; for (int i = 0; i < 4; ++i) all.push_back(i);
  VVI perms = arrangements(NV, NV), np = arrangements(NV + 1, NV + 1);
  mc::begin_group("single-apis"); single(grid(2), true, all);
  mc::begin_group("single"); single(grid(D == 3 ? 3 : T ? 5 : 4), D == 3 && !T, apis, D == 3 && !T);
  mc::begin_group("pair");
#if KIND <= 1
  { VP g = grid(3); VVI a = arrangements(9, 4);
    for (size_t i = 0; i < a.size(); ++i)
    { if (!T && a[i][0] > a[i][1]) continue;
      VP p; for (int k = 0; k < 4; ++k) p.push_back(g[a[i][k]]);
      VP s, u; s.push_back(p[0]); s.push_back(p[1]); s.push_back(p[2]); u = s; u[2] = p[3];
      P3 z(0,0,1); if (!(meas(s, z) > 0 && meas(u, z) < 0)) continue;
      VVI id = first(arrangements(4,4), 1); orders(p, tup("0,1,2;0,1,3"), T ? every(arrangements(4,4), 3) : id, perms, perms); } }
  mc::begin_group("fan");
  { VP p; p.push_back(P3(2,2,0)); p.push_back(P3(0,0,0)); p.push_back(P3(4,0,0)); p.push_back(P3(6,4,0)); p.push_back(P3(0,4,0));
    orders(p, tup("0,1,2;0,2,3;0,3,4;0,4,1"), every(arrangements(5,5), T ? 1 : 7), first(perms, T ? 6 : 2), first(perms, 1)); }
#else
  { // two tetrahedra sharing a face: equal-sided faces (all ties), right-angled, and generic geometry
    VP g[4]; 
    g[0].push_back(P3(0,0,0)); g[0].push_back(P3(2,2,0)); g[0].push_back(P3(2,0,2)); g[0].push_back(P3(0,2,2)); g[0].push_back(P3(2,0,-2));
    g[1].push_back(P3(0,0,0)); g[1].push_back(P3(2,0,0)); g[1].push_back(P3(0,2,0)); g[1].push_back(P3(0,0,2)); g[1].push_back(P3(0,0,-2));
    g[2].push_back(P3(0,0,0)); g[2].push_back(P3(6,0,0)); g[2].push_back(P3(2,4,0)); g[2].push_back(P3(2,2,8)); g[2].push_back(P3(4,2,-6));
    g[3].push_back(P3(0,0,0)); g[3].push_back(P3(4,0,0)); g[3].push_back(P3(2,2,0)); g[3].push_back(P3(2,0,4)); g[3].push_back(P3(2,0,-2));
    for (int k = 0; k < 4; ++k) { mc::begin_group("pair-" + mc::str(k)); orders(g[k], tup("0,1,2,3;0,1,2,4"), every(np, T ? 2 : 29), T ? perms : every(perms, 5), T ? perms : every(perms, 7)); }
    for (int k = 0; k < 4; ++k) { mc::begin_group("pair-order-" + mc::str(k)); orders(g[k], tup("0,1,2,3;0,1,2,4"), first(np, 1), perms, T ? perms : every(perms, 4)); }
  }
  mc::begin_group("ring");
  { // three tetrahedra around an edge: 12 edges
    VP p; p.push_back(P3(0,0,0)); p.push_back(P3(0,0,4)); p.push_back(P3(4,0,2)); p.push_back(P3(-2,4,2)); p.push_back(P3(-2,-4,2));
    orders(p, tup("0,1,2,3;0,1,3,4;0,1,4,2"), every(np, T ? 5 : 61), first(perms, 1), first(perms, 1)); }
#endif
  mc::begin_group("blocks");
  { std::vector<In> b = block_meshes(T, false);
    for (size_t k = 0; k < b.size(); ++k) { std::vector<std::set<E2> > t = tag_families(b[k], T ? 1 : b[k].cells.size() < 30 ? 2 : 23); for (size_t i = 0; i < t.size(); ++i) refine_case(b[k], t[i], (int)(i + k) % 4); } }
  return mc::finish();
}
#else // PROP 13
template<class A> static std::set<E2> flagged(M & m, A acc) { std::set<E2> r; typedef vg::result_of::line_range<M>::type R; R q(m); for (R::iterator i = q.begin(); i != q.end(); ++i) if (acc(*i)) r.insert(eid(m, *i)); return r; }
static std::set<E2> cell_edges(In const & in, long long mask) { std::set<E2> t; for (size_t c = 0; c < in.cells.size(); ++c) if (mask == -1 || (c < 62 && (mask >> c & 1))) for (int i = 0; i < NV; ++i) for (int j = i+1; j < NV; ++j) t.insert(e2(in.cells[c][i], in.cells[c][j])); return t; }
static std::set<E2> edges_of_cell(In const & in, size_t c) { std::set<E2> t; for (int i = 0; i < NV; ++i) for (int j = i+1; j < NV; ++j) t.insert(e2(in.cells[c][i], in.cells[c][j])); return t; }
static void cell_case(In const & in, long long mask, int api)
{
  if (!mc::begin_case()) return;
  mc::trace(show(in) + " cells " + mc::str(mask) + " api" + mc::str(api));
  mc::state(show(in)); mc::outcome(mc::str(mask));
  Built b; build(b, in); M out; SEG so(out); std::deque<bool> fl(in.cells.size(), false); for (size_t c = 0; c < in.cells.size(); ++c) fl[c] = c < 62 && (mask >> c & 1);
  const bool segs = !in.seg.empty();
  switch (api)
  {
    case 0: if (segs) vg::cell_refine(b.m, b.s, out, so, vg::make_accessor<Cell>(fl)); else vg::cell_refine(b.m, out, vg::make_accessor<Cell>(fl)); break;
    case 1: if (segs) vg::element_refine<CT>(b.m, b.s, out, so, vg::make_accessor<Cell>(fl)); else vg::element_refine<CT>(b.m, out, vg::make_accessor<Cell>(fl)); break;
    case 2: if (segs) vg::cell_refine_uniformly(b.m, b.s, out, so); else vg::cell_refine_uniformly(b.m, out); mask = -1; break;
    case 3: if (segs) vg::refine_uniformly<CT>(b.m, b.s, out, so); else vg::refine_uniformly<CT>(b.m, out); mask = -1; break;
    case 4: { std::deque<bool> ef; if (segs) vg::refine_uniformly<CT>(b.m, b.s, out, so, vg::default_point_accessor(b.m), vg::make_accessor<Edge>(ef)); else vg::refine_uniformly<CT>(b.m, out, vg::default_point_accessor(b.m), vg::make_accessor<Edge>(ef)); mask = -1; } break;
  }
  check_refinement(in, midpoints(in, cell_edges(in, mask)), out, segs ? &so : 0, b.m);
}
// positions supplied by the caller: tagged edges are split at the middle of these
static void own_case(In const & in, long long mask, int api)
{
  if (!mc::begin_case()) return;
  mc::trace(show(in) + " cells " + mc::str(mask) + " own positions, api" + mc::str(api)); mc::state(show(in)); mc::outcome(mc::str(mask)); mc::transition();
  Built b; build(b, in); M out; SEG so(out); std::deque<bool> fl(in.cells.size(), false), ef; for (size_t c = 0; c < in.cells.size(); ++c) fl[c] = mask >> c & 1;
  const P3 off(10, 20, GD == 3 ? 30 : 0); std::vector<vg::result_of::point<M>::type> st; for (size_t i = 0; i < in.pts.size(); ++i) st.push_back(mk(in.pts[i] + off));
  vg::result_of::accessor<std::vector<vg::result_of::point<M>::type>, vg::result_of::vertex<M>::type>::type own(st);
  const bool segs = !in.seg.empty();
  if (api == 0) { ef.resize(vg::id_upper_bound<Edge>(b.m).get(), false); flag(b.m, cell_edges(in, mask), vg::make_accessor<Edge>(ef)); if (segs) vg::refine<CT>(b.m, b.s, out, so, own, vg::make_accessor<Edge>(ef)); else vg::refine<CT>(b.m, out, own, vg::make_accessor<Edge>(ef)); }
  else if (api == 1) { if (segs) vg::element_refine<CT>(b.m, b.s, out, so, own, vg::make_accessor<Cell>(fl)); else vg::element_refine<CT>(b.m, out, own, vg::make_accessor<Cell>(fl)); }
  else { mask = -1; if (segs) vg::refine_uniformly<CT>(b.m, b.s, out, so, own, vg::make_accessor<Edge>(ef)); else vg::refine_uniformly<CT>(b.m, out, own, vg::make_accessor<Edge>(ef)); }
  std::set<E2> t = cell_edges(in, mask); std::multiset<P3> want, got; for (size_t i = 0; i < in.pts.size(); ++i) want.insert(in.pts[i]);
  for (std::set<E2>::iterator i = t.begin(); i != t.end(); ++i) want.insert(0.5 * (in.pts[i->first] + in.pts[i->second]) + off);
  typedef vg::result_of::vertex_range<M>::type R; R r(out); for (R::iterator i = r.begin(); i != r.end(); ++i) got.insert(pos(out, *i));
  MCHECK(got == want, "own-positions", mc::str(got.size()) + " vertices, want " + mc::str(want.size()));
}
static void longest_case(In const & in, std::set<E2> const & tags)
{
  if (!mc::begin_case()) return;
  mc::trace(show(in) + " longest " + show(tags)); mc::state(show(in)); mc::outcome(show(tags));
  Built b; build(b, in); std::deque<bool> fl(vg::id_upper_bound<Edge>(b.m).get(), false); flag(b.m, tags, vg::make_accessor<Edge>(fl));
  vg::ensure_longest_edge_refinement<CT>(b.m, vg::make_accessor<Edge>(fl));
  std::set<E2> got = flagged(b.m, vg::make_accessor<Edge>(fl)), just = tags;
  for (size_t c = 0; c < in.cells.size(); ++c)
  {
    std::set<E2> mine = edges_of_cell(in, c); double best = 0; bool any = false, ok = false;
    for (std::set<E2>::iterator e = mine.begin(); e != mine.end(); ++e) { P3 d = in.pts[e->first] - in.pts[e->second]; best = std::max(best, dot(d,d)); any |= got.count(*e) > 0; }
    for (std::set<E2>::iterator e = mine.begin(); e != mine.end(); ++e) { P3 d = in.pts[e->first] - in.pts[e->second]; if (dot(d,d) == best) ok |= got.count(*e) > 0; }
    MCHECK(!any || ok, "longest-edge-not-tagged", "cell " + mc::str(c) + " tags " + show(got));
  }
  for (std::set<E2>::const_iterator e = tags.begin(); e != tags.end(); ++e) MCHECK(got.count(*e), "tag-lost", "");
  // minimal: every added tag is a longest edge of a cell with another justified tag
  for (bool again = true; again; ) { again = false; for (std::set<E2>::iterator e = got.begin(); e != got.end(); ++e) if (!just.count(*e)) for (size_t c = 0; c < in.cells.size(); ++c)
  {
    std::set<E2> mine = edges_of_cell(in, c); if (!mine.count(*e)) continue; double best = 0; bool other = false; P3 d0 = in.pts[e->first] - in.pts[e->second];
    for (std::set<E2>::iterator q = mine.begin(); q != mine.end(); ++q) { P3 d = in.pts[q->first] - in.pts[q->second]; best = std::max(best, dot(d,d)); other |= just.count(*q) > 0; }
    if (other && dot(d0,d0) == best) { just.insert(*e); again = true; break; }
  } }
  MCHECK(just == got, "unjustified-tag", show(got) + " justified " + show(just));
}
static void plane_case(In const & in, P3 q, P3 n)
{
  if (!mc::begin_case()) return;
  mc::trace(std::string(FAR ? "far " : "") + show(in) + " plane " + show(q) + show(n)); mc::state(show(in)); mc::outcome(show(q) + show(n));
  std::map<E2,P3> at; std::vector<E2> e = edges_of(in);
  for (size_t i = 0; i < e.size(); ++i) { P3 a = in.pts[e[i].first], b = in.pts[e[i].second]; double da = dot(n, a - q), db = dot(n, b - q); if ((da < -1e-6 && db > 1e-6) || (da > 1e-6 && db < -1e-6)) at[e[i]] = a + (da / (da - db)) * (b - a); }
  Built b; build(b, in); M out; SEG so(out); const bool segs = !in.seg.empty();
  if (segs) vg::hyperplane_refine(b.m, b.s, out, so, mk(q), mkv(n), 1e-6); else vg::hyperplane_refine(b.m, out, mk(q), mkv(n), 1e-6);
  EPS = FAR ? 1e-7 : 1e-9;
  check_refinement(in, at, out, segs ? &so : 0, b.m);
  typedef vg::result_of::const_cell_range<M>::type CR; CR cr(out);
  for (vg::result_of::iterator<CR>::type i = cr.begin(); i != cr.end(); ++i)
  { VP t = pts(out, *i); bool lo = false, hi = false; for (int k = 0; k < NV; ++k) { double d = dot(n, t[k] - q); lo |= d < -1e-6; hi |= d > 1e-6; } MCHECK(!(lo && hi), "cell-straddles-plane", show(t)); }
  EPS = 0;
}
static std::vector<In> fixtures(bool T)
{
  std::vector<In> r;
  In in;
#if KIND <= 1
  double c[5][2] = {{2,2},{0,0},{6,0},{6,6},{0,4}}; for (int i = 0; i < 5; ++i) in.pts.push_back(lift(P3(c[i][0], c[i][1], 0)));
  in.cells = tup("0,1,2;3,2,0;0,4,3"); r.push_back(in);
  In q; double d[4][2] = {{0,0},{2,0},{2,2},{0,2}}; for (int i = 0; i < 4; ++i) q.pts.push_back(lift(P3(d[i][0], d[i][1], 0))); q.cells = tup("0,1,2;3,2,0"); r.push_back(q);
#else
  double c[6][3] = {{0,0,0},{4,0,0},{0,4,0},{0,0,4},{2,2,-4},{4,4,4}}; for (int i = 0; i < 6; ++i) in.pts.push_back(P3(c[i][0], c[i][1], c[i][2]));
  in.cells = tup("0,1,2,3;4,2,1,0;5,1,3,2"); r.push_back(in);
  In q; double d[5][3] = {{0,0,0},{2,2,0},{2,0,2},{0,2,2},{2,0,-2}}; for (int i = 0; i < 5; ++i) q.pts.push_back(P3(d[i][0], d[i][1], d[i][2])); q.cells = tup("0,1,2,3;1,0,4,2"); r.push_back(q);
#endif
  return r;
}
static void assign_segments(std::vector<In> const & f, void (*go)(In const &))
{
  for (size_t k = 0; k < f.size(); ++k)
  {
    go(f[k]);
    int n = (int)f[k].cells.size(), tot = 1; for (int i = 0; i < n; ++i) tot *= 4;
    for (int a = 1; a < tot; ++a) { In in = f[k]; int x = a; for (int i = 0; i < n; ++i) { VI s; if (x & 1) s.push_back(0); if (x & 2) s.push_back(3); x /= 4; in.seg.push_back(s); } go(in); }
  }
}
static int STEP = 1;
static void go_edges(In const & in) { std::vector<E2> e = edges_of(in); for (int m = 0; m < (1 << e.size()); m += (in.seg.empty() ? 1 : STEP)) { std::set<E2> t; for (size_t i = 0; i < e.size(); ++i) if (m >> i & 1) t.insert(e[i]); refine_case(in, t, m % 4); } }
static void go_cells(In const & in) { for (int api = 0; api < 5; ++api) for (int m = 0; m < (1 << in.cells.size()); ++m) { if (api >= 2 && m) continue; cell_case(in, m, api); } }
static void go_own(In const & in) { for (int api = 0; api < 3; ++api) for (int m = 0; m < (1 << in.cells.size()); ++m) { if (api == 2 && m) continue; own_case(in, m, api); } }
static void go_planes(In const & in)
{
  VP ns; for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = (GD == 3 ? -1 : 0); z <= (GD == 3 ? 1 : 0); ++z) if (x || y || z) ns.push_back(P3(x,y,z));
  ns.push_back(P3(1,2,GD == 3 ? 3 : 0)); ns.push_back(P3(-3,1,0));
  for (size_t i = 0; i < ns.size(); ++i) for (int d = -6; d <= 12; ++d) { if (!in.seg.empty() && STEP > 1 && d % 3) continue; plane_case(in, (d / 2.0 / dot(ns[i], ns[i])) * ns[i], ns[i]); }
}
static void relabel_all(In const & f, int step, void (*go)(In const &)) // every numbering of the vertices (ties depend on it)
{ VVI np = arrangements((int)f.pts.size(), (int)f.pts.size()); for (size_t i = 0; i < np.size(); i += step) { In in = f; for (size_t k = 0; k < f.pts.size(); ++k) in.pts[np[i][k]] = f.pts[k]; for (size_t c = 0; c < f.cells.size(); ++c) for (int k = 0; k < NV; ++k) in.cells[c][k] = np[i][f.cells[c][k]]; go(in); } }
static void go_longest(In const & in) { std::vector<E2> e = edges_of(in); for (int m = 0; m < (1 << e.size()); ++m) { int bits = 0; for (size_t i = 0; i < e.size(); ++i) bits += m >> i & 1; if (bits > 3 && !mc::S().thorough) continue; std::set<E2> t; for (size_t i = 0; i < e.size(); ++i) if (m >> i & 1) t.insert(e[i]); longest_case(in, t); } }
int main(int argc, char ** argv)
{
  mc::init(argc, argv); const bool T = mc::S().thorough;
  std::vector<In> f = fixtures(T);
  STEP = T ? 1 : D == 3 ? 11 : 1;
  mc::begin_group("edge-tags-segments"); assign_segments(f, go_edges);
  mc::begin_group("cell-tags-segments"); assign_segments(f, go_cells);
  mc::begin_group("own-positions"); assign_segments(f, go_own);
  mc::begin_group("planes"); assign_segments(f, go_planes);
  mc::begin_group("planes-far"); FAR = 8388608; for (size_t k = 0; k < f.size(); ++k) go_planes(f[k]); FAR = 0;
  mc::begin_group("cell-tags-order"); relabel_all(f[1], 1, go_cells); relabel_all(f[0], D == 3 ? (T ? 1 : 7) : 1, go_cells);
  mc::begin_group("planes-order"); relabel_all(f[1], T ? 1 : 5, go_planes);
  mc::begin_group("longest"); relabel_all(f[1], 1, go_longest); relabel_all(f[0], D == 3 ? (T ? 3 : 31) : 1, go_longest);
  mc::begin_group("blocks");
  { std::vector<In> b = block_meshes(T, true);
    for (size_t k = 0; k < b.size(); ++k)
    {
      In const & in = b[k]; const bool small = in.cells.size() < 30; const int n = (int)in.cells.size();
      std::vector<std::set<E2> > t = tag_families(in, T ? 1 : small ? 5 : 47);
      for (size_t i = 0; i < t.size(); ++i) { if (i % 2 == k % 2) refine_case(in, t[i], (int)(i / 2) % 4); longest_case(in, t[i]); }
      for (int api = 0; api < 5; ++api) if (api < 2) for (int p = 2; p < 6; ++p) { long long m = 0; for (int c = 0; c < n && c < 62; ++c) if (c % p == 1) m |= 1LL << c; cell_case(in, m, api); } else cell_case(in, 0, api);
      for (int d = 0; d < 3; ++d) { plane_case(in, P3(5 + 9 * d, 3, 2), P3(1, 0, 0)); plane_case(in, P3(5, 3 + 8 * d, 2), P3(1, 2, GD == 3 ? -1 : 0)); }
    } }
  return mc::finish();
}
#endif
