// P23: boundary extraction, seed points and quantity transfer on every subset,
// creation order and segment assignment of small meshes.
#ifndef KIND
#define KIND 1
#endif
#include "vg.hpp"
#include "geo.hpp"
#include "viennagrid/algorithm/extract_boundary.hpp"
#include "viennagrid/algorithm/centroid.hpp"
#include "viennagrid/algorithm/extract_seed_points.hpp"
#include "viennagrid/algorithm/quantity_transfer.hpp"
#if KIND==0
typedef vg::line_2d_mesh M;
static const char * CELLS = "0,1;1,2;1,3;4,5";
static const double POS0[][3] = { {0,0,0}, {1,0,0}, {2,1,0}, {1,-1,0}, {5,5,0}, {6,6,0} };
#elif KIND==1
typedef vg::triangular_2d_mesh M; typedef vg::line_2d_mesh H;
static const char * CELLS = "0,1,3;1,4,3;1,2,4;4,5,8;7,4,3";
static const double POS0[][3] = { {0,0,0}, {1,0,0}, {2,0,0}, {0,1,0}, {1,1,0}, {2,1,0}, {0,2,0}, {1,2,0}, {2,2,0} };
#elif KIND==2
typedef vg::triangular_3d_mesh M; typedef vg::line_3d_mesh H;
static const char * CELLS = "0,1,2;0,2,3;0,3,1;1,2,3;3,4,5";
static const double POS0[][3] = { {0,0,0}, {1,0,0}, {0,1,0}, {0,0,1}, {1,2,3}, {3,2,1} };
#elif KIND==3
typedef vg::quadrilateral_2d_mesh M; typedef vg::line_2d_mesh H;
static const char * CELLS = "0,1,3,4;1,2,4,5;4,5,7,8;3,4,6,7";
static const double POS0[][3] = { {0,0,0}, {1,0,0}, {2,0,0}, {0,1,0}, {1,1,0}, {2,1,0}, {0,2,0}, {1,2,0}, {2,2,0} };
#elif KIND==4
typedef vg::tetrahedral_3d_mesh M; typedef vg::triangular_3d_mesh H;
static const char * CELLS = "0,1,2,3;1,2,3,4;2,3,4,5;0,1,6,7";
static const double POS0[][3] = { {0,0,0}, {1,0,0}, {0,1,0}, {0,0,1}, {1,1,1}, {0,2,2}, {0,-1,0}, {1,-1,-1} };
#elif KIND==5
typedef vg::hexahedral_3d_mesh M; typedef vg::quadrilateral_3d_mesh H;
static const char * CELLS = "0,1,3,4,9,10,12,13;1,2,4,5,10,11,13,14;4,5,7,8,13,14,16,17";
static const double POS0[][3] = { {0,0,0}, {1,0,0}, {2,0,0}, {0,1,0}, {1,1,0}, {2,1,0}, {0,2,0}, {1,2,0}, {2,2,0}, {0,0,1}, {1,0,1}, {2,0,1}, {0,1,1}, {1,1,1}, {2,1,1}, {0,2,1}, {1,2,1}, {2,2,1} };
#endif
static int NP = sizeof(POS0) / sizeof(POS0[0]);
static std::vector<std::vector<double> > POS;
static void usepool() { POS.clear(); NP = sizeof(POS0) / sizeof(POS0[0]); for (int i = 0; i < NP; ++i) POS.push_back(std::vector<double>(POS0[i], POS0[i] + 3)); }
typedef vg::result_of::cell_tag<M>::type CT; typedef Shape<CT> SH;
typedef vg::result_of::cell<M>::type Cell; typedef vg::result_of::cell_handle<M>::type CH;
typedef vg::result_of::vertex_handle<M>::type VH;
typedef vg::result_of::segmentation<M>::type SG; typedef vg::result_of::segment_handle<SG>::type SEG;

struct World
{
  M m; SG sg; std::vector<VH> v; VVI cells; VI mask; VI segids; std::vector<CH> ch; VI gi;   // gi: vertex id -> pool number
  World() : sg(m) {}
  // cells in creation order, mask: subset of segments per cell
  void build(VVI const & c, VI const & k, VI const & ids, bool revvert)
  {
    cells = c; mask = k; segids = ids; std::map<int,int> back;
    v.resize(NP);
    for (int i = 0; i < NP; ++i) { int j = revvert ? NP - 1 - i : i; v[j] = vg::make_vertex(m, mkpoint<M>(POS[j][0], POS[j][1], POS[j][2])); gi.push_back(j); }
    for (size_t s = 0; s < ids.size(); ++s) sg[ids[s]];
    for (size_t i = 0; i < c.size(); ++i)
    {
      std::vector<VH> h; for (size_t j = 0; j < c[i].size(); ++j) h.push_back(v[c[i][j]]);
      ch.push_back(vg::make_element<CT>(m, h.begin(), h.end()));
      for (size_t s = 0; s < ids.size(); ++s) if (mask[i] >> s & 1) vg::add(sg[ids[s]], vg::dereference_handle(m, ch.back()));
    }
  }
  VI of(int s) const { VI r; for (size_t i = 0; i < cells.size(); ++i) if (s < 0 || (mask[i] >> s & 1)) r.push_back((int)i); return r; }
};
static VI sub(VI const & c, VI const & i) { return sorted(pick(c, i)); }
static VVI subs(VI const & c, int dim)       // sub-elements of dimension dim as sorted pool tuples
{
  VVI idx;
  if (dim == SH::dim) { VI a; for (int i = 0; i < SH::nv; ++i) a.push_back(i); idx.push_back(a); }
  else if (dim == 0) for (int i = 0; i < SH::nv; ++i) idx.push_back(VI(1, i));
  else if (dim == 1) idx = SH::edges();
  else idx = SH::facets();
  VVI r; for (size_t i = 0; i < idx.size(); ++i) r.push_back(sub(c, idx[i])); return r;
}
static std::set<VI> boundary(World const & w, VI const & cs, int dim)
{
  std::map<VI,int> n; std::set<VI> r;
  for (size_t i = 0; i < cs.size(); ++i) { VVI f = subs(w.cells[cs[i]], SH::dim - 1); for (size_t j = 0; j < f.size(); ++j) ++n[f[j]]; }
  for (std::map<VI,int>::iterator f = n.begin(); f != n.end(); ++f) if (f->second == 1)
    for (size_t i = 0; i < cs.size(); ++i) { VVI e = subs(w.cells[cs[i]], dim); for (size_t j = 0; j < e.size(); ++j) if (std::includes(f->first.begin(), f->first.end(), e[j].begin(), e[j].end())) r.insert(e[j]); }
  return r;
}
static int poolindex(P3 p) { for (int i = 0; i < NP; ++i) { bool s = true; for (int k = 0; k < 3; ++k) s = s && p.c[k] == POS[i][k]; if (s) return i; } return -1; }
template<class E> VI poolids(E const & e)
{
  typedef typename vg::result_of::const_vertex_range<E>::type R; R r(e); VI o;
  for (typename vg::result_of::iterator<R>::type i = r.begin(); i != r.end(); ++i) o.push_back(poolindex(p3(vg::point(*i)))); return o;
}
template<class C> VI poolids(vg::element<vg::vertex_tag, C> const & e) { return VI(1, poolindex(p3(vg::point(e)))); }

#if KIND>0
template<int D, class X> VVI hullset(X const & x)
{
  typedef typename vg::result_of::const_element_range<X, typename vg::result_of::cell_tag<H>::type>::type R; R r(x); VVI o;
  for (typename vg::result_of::iterator<R>::type i = r.begin(); i != r.end(); ++i) o.push_back(poolids(*i)); return o;
}
// every stored facet of the source in the order it lists its vertices
static std::map<VI,VI> facetorder(World const & w)
{
  typedef vg::result_of::const_facet_range<M>::type R; R r(w.m); std::map<VI,VI> o;
  for (vg::result_of::iterator<R>::type i = r.begin(); i != r.end(); ++i) { VI t = poolids(*i); o[sorted(t)] = t; } return o;
}
static void sameset(VVI const & got, std::set<VI> const & want, std::map<VI,VI> const & order, const char * key)
{
  std::set<VI> s; bool ord = true;
  for (size_t i = 0; i < got.size(); ++i) { s.insert(sorted(got[i])); std::map<VI,VI>::const_iterator o = order.find(sorted(got[i])); ord = ord && (o == order.end() || o->second == got[i]); }
  MCHECK(s == want && got.size() == want.size(), key, "have " + show(got) + " want " + show(want));
  MCHECK(ord, "extract_order", show(got));
}
static void vertexcount(H & h, std::set<VI> const & want, const char * key)
{
  std::set<int> need, have; for (std::set<VI>::const_iterator i = want.begin(); i != want.end(); ++i) need.insert(i->begin(), i->end());
  typedef vg::result_of::const_vertex_range<H>::type R; R r(h);
  for (vg::result_of::iterator<R>::type i = r.begin(); i != r.end(); ++i) have.insert(poolindex(p3(vg::point(*i))));
  MCHECK(have == need && r.size() == need.size(), key, "have " + show(have) + " (" + mc::str(r.size()) + ") want " + show(need));
}
static void prefill(H & h)
{
  typedef vg::result_of::cell_tag<H>::type HT; std::vector<vg::result_of::vertex_handle<H>::type> v;
  for (int i = 0; i < Shape<HT>::nv; ++i) v.push_back(vg::make_vertex(h, mkpoint<H>(40 + i, i * i, i % 2)));
  vg::make_element<HT>(h, v.begin(), v.end());
}
static void extraction(World & w, bool stale)
{
  std::map<VI,VI> order = facetorder(w); VI all; for (size_t i = 0; i < w.cells.size(); ++i) all.push_back((int)i);
  {
    H h; if (stale) prefill(h);
    vg::extract_boundary(w.m, h); mc::transition();
    std::set<VI> want = boundary(w, w.of(-1), SH::dim - 1);
    sameset(hullset<0>(h), want, order, "extract_mesh"); vertexcount(h, want, "extract_vertices"); mc::outcome(show(want));
    vg::extract_boundary<vg::result_of::facet_tag<M>::type>(w.m, h); sameset(hullset<0>(h), want, order, "extract_again"); vertexcount(h, want, "extract_again_vertices");
#if KIND>=4
    vg::extract_boundary<vg::line_tag>(w.m, h);
    VVI l = all_tuples<vg::line_tag>(h); std::set<VI> wl = boundary(w, w.of(-1), 1), gl; 
    typedef vg::result_of::const_line_range<H>::type R; R r(h); for (vg::result_of::iterator<R>::type i = r.begin(); i != r.end(); ++i) gl.insert(sorted(poolids(*i)));
    MCHECK(gl == wl && r.size() == wl.size(), "extract_edges", "have " + show(gl) + " want " + show(wl));
#endif
  }
  {
    typedef vg::result_of::segmentation<H>::type HS; typedef vg::result_of::segment_handle<HS>::type HSeg;
    H h; HS hs(h); if (stale) { prefill(h); hs[9]; vg::add(hs[w.segids.empty() ? 9 : w.segids[0]], vg::cells(h)[0]); }
    vg::extract_boundary(w.m, w.sg, h, hs); mc::transition();
    std::set<VI> want;
    if (w.segids.empty()) want = boundary(w, w.of(-1), SH::dim - 1);
    for (size_t s = 0; s < w.segids.size(); ++s)
    {
      std::set<VI> ws = boundary(w, w.of((int)s), SH::dim - 1); want.insert(ws.begin(), ws.end());
      if (MCHECK(hs.segment_present(w.segids[s]), "extract_segment_missing", mc::str(w.segids[s]))) { HSeg const & x = hs(w.segids[s]); sameset(hullset<0>(x), ws, order, "extract_segment"); }
    }
    sameset(hullset<0>(h), want, order, "extract_segmented_mesh"); vertexcount(h, want, "extract_segmented_vertices");
    for (HS::iterator i = hs.begin(); i != hs.end(); ++i) if (std::find(w.segids.begin(), w.segids.end(), (int)i->id()) == w.segids.end()) MCHECK(vg::cells(*i).size() == 0, "extract_stale_segment", mc::str(i->id()));
  }
}
#else
static void extraction(World &, bool) {}
#endif

static bool inside(P3 p, VI const & c)
{
  std::vector<P3> q; for (size_t i = 0; i < c.size(); ++i) q.push_back(P3(POS[c[i]][0], POS[c[i]][1], POS[c[i]][2]));
#if KIND==3 || KIND==5
  for (int k = 0; k < SH::dim; ++k) { double lo = 1e9, hi = -1e9; for (size_t i = 0; i < q.size(); ++i) { lo = std::min(lo, q[i].c[k]); hi = std::max(hi, q[i].c[k]); } if (!(lo < p.c[k] && p.c[k] < hi)) return false; }
  return true;
#else
  double total = 0, sum = 0; bool pos = true;
  for (int k = -1; k < (int)q.size(); ++k)
  {
    std::vector<P3> r = q; if (k >= 0) r[k] = p;
    double x = r.size() == 2 ? dist(r[0], r[1]) : r.size() == 3 ? tri_area(r[0], r[1], r[2]) : std::fabs(tet_vol(r[0], r[1], r[2], r[3]));
    if (k < 0) total = x; else { sum += x; pos = pos && x > 1e-9; }
  }
  return pos && mc::close(sum, total);
#endif
}
static std::vector<VI> components(World const & w, VI const & cs)
{
  std::vector<VI> r; std::set<int> left(cs.begin(), cs.end());
  while (!left.empty())
  {
    VI c(1, *left.begin()); left.erase(left.begin());
    for (size_t k = 0; k < c.size(); ++k)
    {
      VVI f = subs(w.cells[c[k]], SH::dim - 1); std::set<VI> fs(f.begin(), f.end());
      for (std::set<int>::iterator i = left.begin(); i != left.end();)
      { VVI g = subs(w.cells[*i], SH::dim - 1); bool t = false; for (size_t j = 0; j < g.size(); ++j) t |= fs.count(g[j]) != 0; if (t) { c.push_back(*i); left.erase(i++); } else ++i; }
    }
    r.push_back(c);
  }
  return r;
}
template<class PT> void seedcheck(World const & w, VI const & cs, std::vector<PT> const & got, const char * key)
{
  std::vector<VI> comp = components(w, cs);
  MCHECK(got.size() == comp.size(), key, mc::str(got.size()) + " seed points for " + mc::str(comp.size()) + " connected parts");
  for (size_t i = 0; i < comp.size(); ++i)
  {
    int n = 0; for (size_t k = 0; k < got.size(); ++k) { bool in = false; for (size_t j = 0; j < comp[i].size(); ++j) in |= inside(p3(got[k]), w.cells[comp[i][j]]); n += in; }
    MCHECK(n == 1, key, "connected part " + mc::seq(comp[i]) + " contains " + mc::str(n) + " seed points");
  }
}
static void seeds(World & w)
{
  typedef vg::result_of::point<M>::type P;
  std::vector<P> s; vg::extract_seed_points(w.m, s); mc::transition(); seedcheck(w, w.of(-1), s, "seed_mesh");
  std::vector<std::pair<P,int> > t; vg::extract_seed_points(w.m, w.sg, t); mc::transition();
  size_t n = 0;
  for (size_t k = 0; k < w.segids.size(); ++k)
  {
    std::vector<P> u; for (size_t i = 0; i < t.size(); ++i) if (t[i].second == w.segids[k]) u.push_back(t[i].first);
    seedcheck(w, w.of((int)k), u, "seed_segment"); n += u.size();
    std::vector<P> x; vg::extract_seed_points(w.sg[w.segids[k]], x); seedcheck(w, w.of((int)k), x, "seed_segment_handle");
  }
  if (w.segids.empty()) { std::vector<P> u; for (size_t i = 0; i < t.size(); ++i) u.push_back(t[i].first); seedcheck(w, w.of(-1), u, "seed_no_segments"); }
  else MCHECK(n == t.size(), "seed_ids", mc::str(t.size() - n) + " seed points with unknown segment ids");
}

// quantity transfer: filters are sets of pool tuples
struct Filter { std::set<VI> const * yes; template<class E> bool operator()(E const & e) const { return yes->count(sorted(poolids(e))) != 0; } };
struct Averager { std::vector<int> operator()(std::vector<int> const & v) const { return sorted(v); } };
struct Setter { std::map<VI, VI> got; std::map<VI,int> times; template<class E> void operator()(E const & e, std::vector<int> const & v) { VI t = sorted(poolids(e)); got[t] = v; ++times[t]; } };
template<int d> struct DT { typedef typename std::conditional<d == SH::dim, CT, typename std::conditional<d == 0, vg::vertex_tag, typename std::conditional<d == 1, vg::line_tag, CT::facet_tag>::type>::type>::type type; };

static std::vector<std::set<VI> > filters(std::vector<VI> const & e)
{
  std::vector<std::set<VI> > r; std::set<VI> all(e.begin(), e.end());
  if (e.size() <= 4) { for (int m = 0; m < 1 << e.size(); ++m) { std::set<VI> s; for (size_t i = 0; i < e.size(); ++i) if (m >> i & 1) s.insert(e[i]); r.push_back(s); } return r; }
  r.push_back(all); r.push_back(std::set<VI>());
  for (size_t i = 0; i < e.size(); ++i) { std::set<VI> s = all; s.erase(e[i]); r.push_back(s); std::set<VI> t; t.insert(e[i]); r.push_back(t); }
  for (int p = 0; p < 2; ++p) { std::set<VI> s; for (size_t i = 0; i < e.size(); ++i) if ((int)(i % 2) == p) s.insert(e[i]); r.push_back(s); }
  return r;
}
template<int S, int D, class X> void transfer(World & w, X const & x, VI const & cs, bool full)
{
  typedef typename DT<S>::type ST; typedef typename DT<D>::type TT; typedef typename vg::result_of::element<M,ST>::type SE;
  std::set<VI> ss, ds; for (size_t i = 0; i < cs.size(); ++i) { VVI a = subs(w.cells[cs[i]], S), b = subs(w.cells[cs[i]], D); ss.insert(a.begin(), a.end()); ds.insert(b.begin(), b.end()); }
  std::vector<VI> sv(ss.begin(), ss.end()), dv(ds.begin(), ds.end());
  // values: running number by sorted tuple, stored through a field
  std::vector<int> store; typename vg::result_of::field<std::vector<int>, SE>::type f(store); std::map<VI,int> val;
  { typedef typename vg::result_of::const_element_range<M,ST>::type R; R r(w.m); int n = 100; for (typename vg::result_of::iterator<R>::type i = r.begin(); i != r.end(); ++i) { VI t = sorted(poolids(*i)); f(*i) = n; val[t] = n++; } }
  std::vector<std::set<VI> > fs = filters(sv), fd = filters(dv);
  for (size_t a = 0; a < fs.size(); ++a) for (size_t b = 0; b < fd.size(); ++b)
  {
    if (!full && a && b && a != 2 && b != 2) continue;
    Filter p, q; p.yes = &fs[a]; q.yes = &fd[b]; Setter set; Averager av;
    vg::quantity_transfer<ST,TT>(x, f, set, av, p, q); mc::transition();
    for (size_t i = 0; i < dv.size(); ++i)
    {
      VI want; for (size_t k = 0; k < sv.size(); ++k) { VI const & lo = S < D ? sv[k] : dv[i], & hi = S < D ? dv[i] : sv[k]; if (fs[a].count(sv[k]) && std::includes(hi.begin(), hi.end(), lo.begin(), lo.end())) want.push_back(val[sv[k]]); }
      want = sorted(want); bool has = set.got.count(dv[i]) != 0; std::string n = mc::str(S) + "->" + mc::str(D) + " " + show(dv[i]);
      if (!fd[b].count(dv[i])) { MCHECK(!has, "transfer_rejected", n); continue; }
      if (want.empty()) continue;
      if (MCHECK(has && set.times[dv[i]] == 1, "transfer_set_once", n)) MCHECK(set.got[dv[i]] == want, "transfer_values", n + " averaged " + show(set.got[dv[i]]) + " want " + show(want));
    }
    for (std::map<VI,VI>::iterator i = set.got.begin(); i != set.got.end(); ++i) MCHECK(ds.count(i->first), "transfer_foreign", show(i->first));
  }
}
template<int S, class X> void transfers_from(World & w, X const & x, VI const & cs, bool full)
{
  if (S != 0) transfer<S, S == 0 ? 1 : 0>(w, x, cs, full);
  if (S != SH::dim) transfer<S, S == SH::dim ? 0 : SH::dim>(w, x, cs, full);
  if (SH::dim > 1 && S != 1) transfer<S, S == 1 ? 0 : 1>(w, x, cs, full);
  if (SH::dim > 2 && S != 2) transfer<S, S == 2 ? 0 : (SH::dim > 2) ? 2 : S == 0 ? 1 : 0>(w, x, cs, full);
}
template<class X> void transfers(World & w, X const & x, VI const & cs, bool full)
{
  transfers_from<0>(w, x, cs, full); transfers_from<SH::dim>(w, x, cs, full);
  if (SH::dim > 1) transfers_from<(SH::dim > 1) ? 1 : 0>(w, x, cs, full);
  if (SH::dim > 2) transfers_from<(SH::dim > 2) ? 2 : 0>(w, x, cs, full);
}

int main(int argc, char ** argv)
{
  mc::init(argc, argv); usepool();
  VVI base = tup(CELLS); int n = (int)base.size(); bool th = mc::S().thorough;
  // every subset of cells in every creation order, no segments
  mc::begin_group("mesh");
  for (int k = 0; k <= n; ++k)
  {
    VVI arr = arrangements(n, k);
    for (size_t a = 0; a < arr.size(); ++a) for (int rev = 0; rev < 2; ++rev)
    {
      if (!mc::begin_case()) continue;
      mc::trace("cells " + show(arr[a]) + (rev ? " reversed vertices" : ""));
      World w; VVI c; for (int i = 0; i < k; ++i) c.push_back(base[arr[a][i]]);
      w.build(c, VI(k, 0), VI(), rev); mc::state(show(c));
      extraction(w, rev); seeds(w); if (a == 0 || th) transfers(w, (M const &)w.m, w.of(-1), k <= 3);
    }
  }
  // every assignment of all cells to subsets of two (three) segments
  static const int IDS[][3] = { {0,1,2}, {3,1,7} };
  for (int ns = 1; ns <= (th ? 3 : 2); ++ns)
  {
    mc::begin_group("segments" + mc::str(ns));
    long total = 1; for (int i = 0; i < n; ++i) total *= 1 << ns;
    for (long code = 0; code < total; ++code) for (int o = 0; o < 2; ++o) for (int q = 0; q < 2; ++q)
    {
      if (!mc::begin_case()) continue;
      VI mask; long c = code; for (int i = 0; i < n; ++i, c >>= ns) mask.push_back((int)(c & ((1 << ns) - 1)));
      VI ids(IDS[q], IDS[q] + ns); VVI cells = base; if (o) { std::reverse(cells.begin(), cells.end()); }
      mc::trace("masks " + show(mask) + " ids " + show(ids) + (o ? " reversed" : ""));
      World w; w.build(cells, mask, ids, q); mc::state(show(mask) + show(cells));
      extraction(w, q); seeds(w);
      if (o == q) for (int s = 0; s < ns; ++s) transfers(w, (SEG const &)w.sg[ids[s]], w.of(s), false);
    }
  }
  // structured blocks in several numberings: one part, alternating, slabs with gaps (many connected parts)
  mc::begin_group("blocks");
  {
    VVI sizes = SH::dim == 1 ? tup("9,0,0;24,0,0") : SH::dim == 2 ? tup("4,3,0;6,5,0") : SH::nv == 4 ? tup("2,1,1;2,2,2") : tup("2,2,2;4,3,2");
    std::vector<Block> bs = blocks<CT>(sizes, th ? 1 : 2);
    for (size_t b = 0; b < bs.size(); ++b) for (int part = 0; part < 4; ++part)
    {
      if (!mc::begin_case()) continue; mc::trace(bs[b].name + " part" + mc::str(part)); mc::state(bs[b].name + mc::str(part));
      POS = bs[b].pos; NP = bs[b].nv; VVI cells; VI mask, ids; int n = (int)bs[b].cells.size();
      for (int i = 0; i < n; ++i)
      {
        if (part == 3 && i % 4 == 1) continue;                         // holes
        cells.push_back(bs[b].cells[i]); mask.push_back(part == 0 ? 0 : part == 1 ? 1 << i % 3 : part == 2 ? (i * 3 / n == 0 ? 1 : i * 3 / n == 1 ? 6 : 4) : i % 5 ? 2 : 5);
      }
      if (part) ids = part == 2 ? tup("7,2,5")[0] : tup("0,1,2")[0];
      World w; w.build(cells, mask, ids, b % 2); extraction(w, part == 2); seeds(w);
      if (n <= 24 && part < 2 && b % 3 == 0) transfers(w, (M const &)w.m, w.of(-1), false);
    }
    usepool();
  }
  return mc::finish();
}
