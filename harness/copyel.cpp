// P25: copying elements between meshes.  Every history of copy steps up to a
// depth, every list of cells per step, all copying interfaces, checked against
// the relation a copy step has to satisfy (which vertices are reused, which are
// created, where, and in which order the copied element lists them).
#ifndef KIND
#define KIND 0
#endif
#include "vg.hpp"
#include "geo.hpp"
#include "obs.hpp"
#include "viennagrid/mesh/mesh_operations.hpp"
namespace cfg { struct it2d { typedef vg::config::result_of::full_mesh_config<vg::triangle_tag, vg::config::point_type_2d, vg::iterator_handle_tag>::type type; }; }
#if KIND==0 || KIND==7
typedef vg::triangular_2d_mesh SM; typedef vg::triangular_2d_mesh DM;
#elif KIND==1
typedef vg::triangular_2d_mesh SM; typedef vg::thin_triangular_2d_mesh DM;
#elif KIND==2
typedef vg::tetrahedral_3d_mesh SM; typedef vg::tetrahedral_3d_mesh DM;
#elif KIND==3
typedef vg::tetrahedral_3d_mesh SM; typedef vg::triangular_3d_mesh DM;      // facets are copied
#elif KIND==4
typedef vg::triangular_2d_mesh SM; typedef vg::mesh<cfg::it2d> DM;
#elif KIND==5
typedef vg::quadrilateral_2d_mesh SM; typedef vg::quadrilateral_2d_mesh DM;
#elif KIND==6
typedef vg::line_2d_mesh SM; typedef vg::line_2d_mesh DM;
#elif KIND==8
typedef vg::hexahedral_3d_mesh SM; typedef vg::hexahedral_3d_mesh DM;
#elif KIND==9
typedef vg::plc_3d_mesh SM; typedef vg::plc_3d_mesh DM;
#endif
typedef vg::result_of::segmentation<DM>::type DSG; typedef vg::result_of::segment_handle<DSG>::type DSEG;
#if KIND==7
typedef DSEG Target;                                                        // copied into segments
#else
typedef DM Target;
#endif
#if KIND==3
typedef vg::triangle_tag ET;
#else
typedef vg::result_of::cell_tag<SM>::type ET;
#endif
typedef vg::result_of::cell_tag<SM>::type SCT;
typedef vg::result_of::element<SM, ET>::type El; typedef vg::result_of::handle<SM, ET>::type EH;
typedef vg::result_of::vertex_handle<SM>::type SVH; typedef vg::result_of::vertex_handle<DM>::type DVH;
typedef vg::result_of::handle<DM, ET>::type DEH;
static const double TOL = 1e-3;

// the cells of the source mesh
static VVI cells()
{
#if KIND==6
  return tup("0,1;1,2;4,3");
#elif KIND==5
  return tup("0,1,2,3;1,4,3,5;9,8,7,6");
#elif KIND==2 || KIND==3
  return tup("0,1,2,3;3,2,1,4;8,5,7,6");
#elif KIND==8
  return tup("0,1,2,3,4,5,6,7;1,8,3,9,5,10,7,11;12,13,14,15,16,17,18,19");
#else
  return tup("0,1,2;3,2,1;6,5,4");
#endif
}
// {vertex, vertex it coincides with}: the first pair up to TOL/4, the second exactly (at the origin)
#if KIND==6
static const int NS = 5, TWIN[][2] = { {3,1}, {4,0} };
#elif KIND==5
static const int NS = 10, TWIN[][2] = { {8,4}, {9,0} };
#elif KIND==2 || KIND==3
static const int NS = 9, TWIN[][2] = { {5,0}, {7,3} };
#elif KIND==8
static const int NS = 20, TWIN[][2] = { {13,0}, {19,11} };
#elif KIND==9
static const int NS = 9, TWIN[][2] = { {8,1}, {7,2} };
#else
static const int NS = 7, TWIN[][2] = { {6,1}, {4,2} };
#endif
static const int GD = vg::result_of::geometric_dimension<SM>::value;
static P3 base(int k) { return P3(k % 3 + 0.1 * k, k / 3 % 3, GD == 3 ? (k / 2) % 3 + 0.3 * k : 0); }
static Block const * BLOCK = 0;                    // larger source mesh
static P3 loc(int k)
{
  if (BLOCK) return P3(BLOCK->pos[k][0], GD > 1 ? BLOCK->pos[k][1] : 0, GD > 2 ? BLOCK->pos[k][2] : 0);
  P3 off; for (int t = 0; t < 2; ++t) if (TWIN[t][0] == k) { k = TWIN[t][1]; if (t == 0) off = P3(TOL / 4, 0, 0); break; }
  return base(k) - base(TWIN[1][1]) + off;
}

// iterator over a list of elements given by pointers
struct ElIt { typedef El value_type; typedef El & reference; typedef El * pointer; typedef std::ptrdiff_t difference_type; typedef std::forward_iterator_tag iterator_category;
  El * const * p; ElIt(El * const * q) : p(q) {} El & operator*() const { return **p; } El * operator->() const { return *p; }
  ElIt & operator++() { ++p; return *this; } ElIt operator++(int) { ElIt r = *this; ++p; return r; } bool operator==(ElIt o) const { return p == o.p; } bool operator!=(ElIt o) const { return p != o.p; } };

struct Src { SM m; std::vector<SVH> v; std::vector<EH> h; std::vector<El*> e; };

struct Seen { std::map<int,P3> pos; std::vector<std::pair<int,VI> > el; VVI lines; VVI holes; };
static P3 at(DM & m, vg::result_of::vertex<DM>::type const & v) { return p3(vg::point(m, v)); }
template<class T> Seen look(DM & m, T & t)
{
  Seen s;
  { typedef typename vg::result_of::vertex_range<T>::type R; typedef typename vg::result_of::iterator<R>::type I; R r(t);
    for (I i = r.begin(); i != r.end(); ++i) s.pos[(int)(*i).id().get()] = at(m, *i); MCHECK(s.pos.size() == r.size(), "vertex-ids", ""); }
  { typedef typename vg::result_of::element_range<T,ET>::type R; typedef typename vg::result_of::iterator<R>::type I; R r(t);
    for (I i = r.begin(); i != r.end(); ++i) s.el.push_back(std::make_pair((int)(*i).id().get(), vids(*i))); }
  return s;
}

#if KIND!=9
static void build(Src & s)
{
  for (int k = 0; k < (BLOCK ? BLOCK->nv : NS); ++k) { P3 p = loc(k); s.v.push_back(vg::make_vertex(s.m, mkpoint<SM>(p[0], p[1], p[2]))); }
  VVI c = BLOCK ? BLOCK->cells : cells();
  for (size_t i = 0; i < c.size(); ++i)
  { std::vector<SVH> h; for (size_t k = 0; k < c[i].size(); ++k) h.push_back(s.v[c[i][k]]);
    vg::make_element<SCT>(s.m, h.begin(), h.end()); }
  typedef vg::result_of::element_range<SM,ET>::type R; typedef vg::result_of::iterator<R>::type I; R r(s.m); int n = 0;
  for (I i = r.begin(); i != r.end(); ++i, ++n)
  {
    if (KIND == 3 && !BLOCK && !(n == 0 || n == 3 || n == 4 || n == 7 || n == 9)) continue;       // 0 1 2 | 1 2 3 (shared) | second | third tetrahedron
    s.h.push_back(i.handle()); s.e.push_back(&*i);
  }
}
enum { VCM, VCM_TOL, VCM_KEEP, VCM_KEEP_TOL, ELEM, ELEM_TOL, LIST, LIST_TOL, HANDLE, HANDLE_TOL, NMETHOD, UNIQUE = NMETHOD, UNIQUE_TOL };
static const char * NAME[] = { "map", "map+tol", "samemap", "samemap+tol", "copy_element", "copy_element+tol", "copy_elements", "copy_elements+tol", "by_handle", "by_handle+tol", "unique", "unique+tol" };
static bool has_tol(int m) { return m < NMETHOD ? m & 1 : true; }
struct Step { int method; VI list; int seg; };
typedef vg::vertex_copy_map<SM, Target> VMap;

static bool near(P3 a, P3 b, double tol) { return dist(a, b) < tol; }

struct World
{
  Src & src; DM dm; DSG sg; std::vector<Target*> tg; std::vector<DSEG> segs; std::vector<VMap*> keep; std::vector<std::map<int,int> > keepmap;
  explicit World(Src & s) : src(s), sg(dm)
  {
#if KIND==7
    for (int i = 0; i < 2; ++i) segs.push_back(sg.make_segment());
    for (int i = 0; i < 2; ++i) tg.push_back(&segs[i]);
#else
    tg.push_back(&dm);
#endif
    for (size_t i = 0; i < tg.size(); ++i) keep.push_back(new VMap(*tg[i]));
    keepmap.resize(tg.size());
  }
  ~World() { for (size_t i = 0; i < keep.size(); ++i) delete keep[i]; }

  void run(Step const & st)
  {
    Target & t = *tg[st.seg];
    Seen all0 = look(dm, dm), t0 = look(dm, t);
    mc::transition();
    std::vector<int> ret;                                                     // ids of what the calls returned
    double tol = has_tol(st.method) ? TOL : 0;
    if (st.method >= NMETHOD)
    {
      P3 p = loc(st.list[0]); vg::result_of::point<SM>::type q = mkpoint<SM>(p[0], p[1], p[2]);
      if (st.method == UNIQUE) tol = std::max(len(p) / 1e6, 1e-300);
      DVH h = st.method == UNIQUE ? vg::make_unique_vertex(t, q) : vg::make_unique_vertex(t, q, TOL);
      int id = (int)vg::dereference_handle(dm, h).id().get();
      Seen all1 = look(dm, dm), t1 = look(dm, t);
      bool reuse = false, fresh = !all0.pos.count(id);
      for (std::map<int,P3>::iterator i = t0.pos.begin(); i != t0.pos.end(); ++i) reuse |= near(i->second, p, tol);
      MCHECK(t1.pos.count(id) && all1.pos.count(id), "unique-vertex-missing", mc::str(id));
      MCHECK(reuse == !fresh, reuse ? "unique-vertex-duplicated" : "unique-vertex-merged", show(p) + " returned id " + mc::str(id));
      MCHECK(reuse ? t0.pos.count(id) && near(t0.pos[id], p, tol) : all1.pos[id] == p, "unique-vertex-position", show(p) + " returned vertex at " + show(all1.pos[id]));
      std::map<int,P3> wa = all0.pos, wt = t0.pos; wa[id] = all1.pos[id]; wt[id] = all1.pos[id];
      MCHECK(all1.pos == wa && t1.pos == wt && all1.el == all0.el && t1.el == t0.el, "unique-vertex-side-effect", "");
      return;
    }
    std::vector<EH> hs; std::vector<El*> es; for (size_t i = 0; i < st.list.size(); ++i) { hs.push_back(src.h[st.list[i]]); es.push_back(src.e[st.list[i]]); }
    es.push_back(0); ElIt b(&es[0]), e(&es[0] + hs.size());
    std::map<int,int> fresh_map, * mp = &fresh_map;
    switch (st.method)
    {
      case VCM: case VCM_TOL: { VMap m(t); for (size_t i = 0; i < hs.size(); ++i) ret.push_back((int)vg::dereference_handle(dm, tol > 0 ? m.copy_element(*es[i], tol) : m.copy_element(*es[i])).id().get()); break; }
      case VCM_KEEP: case VCM_KEEP_TOL: { VMap & m = *keep[st.seg]; mp = &keepmap[st.seg]; for (size_t i = 0; i < hs.size(); ++i) ret.push_back((int)vg::dereference_handle(dm, tol > 0 ? m.copy_element(*es[i], tol) : m.copy_element(*es[i])).id().get()); break; }
      case ELEM: for (size_t i = 0; i < hs.size(); ++i) ret.push_back((int)vg::dereference_handle(dm, vg::copy_element(*es[i], t)).id().get()); break;
      case ELEM_TOL: for (size_t i = 0; i < hs.size(); ++i) ret.push_back((int)vg::dereference_handle(dm, vg::copy_element(*es[i], t, TOL)).id().get()); break;
      case LIST: vg::copy_elements(b, e, t); break;
      case LIST_TOL: vg::copy_elements(b, e, t, TOL); break;
      case HANDLE: vg::copy_elements_by_handle(src.m, hs.begin(), hs.end(), t); break;
      case HANDLE_TOL: vg::copy_elements_by_handle(src.m, hs.begin(), hs.end(), t, TOL); break;
    }
    Seen all1 = look(dm, dm), t1 = look(dm, t);
    // what was there is still there, unchanged
    std::map<int,P3> now = all0.pos, tnow = t0.pos;
    for (std::map<int,P3>::iterator i = all0.pos.begin(); i != all0.pos.end(); ++i) MCHECK(all1.pos.count(i->first) && all1.pos[i->first] == i->second, "old-vertex-changed", mc::str(i->first));
    size_t n0 = all0.el.size();
    if (!MCHECK(all1.el.size() == n0 + hs.size(), "copied-count", mc::str(all1.el.size()) + " elements, want " + mc::str(n0 + hs.size()))) return;
    for (size_t i = 0; i < n0; ++i) MCHECK(all1.el[i] == all0.el[i], "old-element-changed", mc::str(all0.el[i].first));
    std::vector<std::pair<int,VI> > wt = t0.el;
    for (size_t i = 0; i < hs.size(); ++i)
    {
      std::pair<int,VI> const & c = all1.el[n0 + i]; VI sv = vids(*es[i]); wt.push_back(c);
      for (size_t k = 0; k < n0 + i; ++k) MCHECK(all1.el[k].first != c.first, "copied-id-not-new", mc::str(c.first));
      if (i < ret.size()) MCHECK(ret[i] == c.first, "returned-handle", "returned " + mc::str(ret[i]) + " want " + mc::str(c.first));
      if (!MCHECK(sv.size() == c.second.size(), "copied-size", show(c.second))) continue;
      if (st.method == ELEM || st.method == ELEM_TOL) mp->clear();            // every call on its own
      for (size_t k = 0; k < sv.size(); ++k)
      {
        int s = sv[k], d = c.second[k]; P3 p = loc(s);
        if (mp->count(s)) { MCHECK((*mp)[s] == d, "vertex-copied-twice", "source vertex " + mc::str(s) + " -> " + mc::str(d) + " before " + mc::str((*mp)[s])); continue; }
        bool reuse = false; if (tol > 0) for (std::map<int,P3>::iterator q = tnow.begin(); q != tnow.end(); ++q) reuse |= near(q->second, p, tol);
        (*mp)[s] = d;
        if (reuse) MCHECK(tnow.count(d) && near(tnow[d], p, tol), "vertex-not-reused", "source vertex " + mc::str(s) + " -> " + mc::str(d) + " element " + show(c.second));
        else { MCHECK(!now.count(d), "vertex-wrongly-reused", "source vertex " + mc::str(s) + " -> " + mc::str(d) + " element " + show(c.second)); MCHECK(all1.pos.count(d) && all1.pos[d] == p, "vertex-position", "source vertex " + mc::str(s) + " -> " + mc::str(d)); now[d] = p; tnow[d] = p; }
      }
    }
    MCHECK(now == all1.pos, "vertices", "have " + mc::str(all1.pos.size()) + " want " + mc::str(now.size()));
    MCHECK(t1.pos == tnow && t1.el == wt, "target-content", "");
  }
};
template<class T> VVI boundary_tuples(T &, Bool<false>) { return VVI(); }
template<class T> VVI boundary_tuples(T & t, Bool<true>) { return all_tuples<ET::facet_tag>(t); }
static void facets_ok(DM & dm)
{
  if (KIND == 1 || KIND == 6) return;
  VVI f = boundary_tuples(dm, Bool<KIND != 1 && KIND != 6>()); std::sort(f.begin(), f.end());
  std::set<VI> want; Seen s = look(dm, dm); VVI idx = Shape<ET>::facets();
  for (size_t i = 0; i < s.el.size(); ++i) for (size_t k = 0; k < idx.size(); ++k) want.insert(sorted(pick(s.el[i].second, idx[k])));
  MCHECK(f == VVI(want.begin(), want.end()), "facets", show(f) + " want " + show(want));
}

static void lists(int n, int maxlen, VVI & out)
{ VVI cur(1); for (int l = 0; l < maxlen; ++l) { VVI nx; for (size_t i = 0; i < cur.size(); ++i) for (int k = 0; k < n; ++k) { VI v = cur[i]; v.push_back(k); nx.push_back(v); } out.insert(out.end(), nx.begin(), nx.end()); cur = nx; } }
static std::vector<Step> steps(Src & s, int maxlen)
{
  std::vector<Step> out; VVI l; lists((int)s.e.size(), maxlen, l);
  for (int g = 0; g < (KIND == 7 ? 2 : 1); ++g)
  {
    for (int m = 0; m < NMETHOD; ++m) for (size_t i = 0; i < l.size(); ++i) { Step st; st.method = m; st.list = l[i]; st.seg = g; out.push_back(st); }
    for (int m = UNIQUE; m <= UNIQUE_TOL; ++m) for (int k = 0; k < NS; ++k) { Step st; st.method = m; st.list = VI(1,k); st.seg = g; out.push_back(st); }
  }
  return out;
}
static void histories(Src & s, std::vector<Step> const & st, int depth, const char * name)
{
  mc::begin_group(name);
  std::string before = snap(s.m).text();
  std::vector<size_t> ix(depth, 0);
  for (;;)
  {
    if (mc::begin_case())
    {
      std::string id; for (int d = 0; d < depth; ++d) id += std::string(NAME[st[ix[d]].method]) + show(st[ix[d]].list) + (st[ix[d]].seg ? "@1 " : " "); mc::trace(id);
      World w(s); for (int d = 0; d < depth; ++d) w.run(st[ix[d]]);
      facets_ok(w.dm);
      MCHECK(snap(s.m).text() == before, "source-changed", "");
      Seen e = look(w.dm, w.dm); std::string o = mc::str(e.pos.size()); for (size_t i = 0; i < e.el.size(); ++i) o += show(e.el[i].second); mc::state(o); mc::outcome(o);
    }
    int d = depth - 1; while (d >= 0 && ++ix[d] == st.size()) ix[d--] = 0;
    if (d < 0) break;
  }
}

struct Sel { SI const * s; bool operator()(El const & e) const { return s->count((int)e.id().get()) != 0; } };
#if KIND!=3 && KIND!=7
typedef vg::result_of::segmentation<SM>::type SSG; typedef vg::result_of::segment_handle<SSG>::type SSEG;
static void check_filtered(Src & s, DM & dm, SI const & sel)
{
  Seen e = look(dm, dm); VI order(sel.begin(), sel.end()); std::map<int,int> mp; std::set<int> used;
  if (!MCHECK(e.el.size() == order.size(), "filtered-count", mc::str(e.el.size()))) return;
  for (size_t i = 0; i < order.size(); ++i)
  {
    VI sv = vids(*s.e[order[i]]), dv = e.el[i].second;
    for (size_t k = 0; k < sv.size(); ++k)
    {
      if (mp.count(sv[k])) { MCHECK(mp[sv[k]] == dv[k], "filtered-vertex-copied-twice", show(dv)); continue; }
      MCHECK(used.insert(dv[k]).second, "filtered-vertex-merged", show(dv)); mp[sv[k]] = dv[k];
      MCHECK(e.pos[dv[k]] == loc(sv[k]), "filtered-position", show(dv));
    }
  }
  MCHECK(used.size() == e.pos.size(), "filtered-extra-vertices", mc::str(e.pos.size()));
  facets_ok(dm);
}
static void filtered()
{
  mc::begin_group("filtered");
  for (int pre = 0; pre < 2; ++pre) for (int sub = 0; sub < 8; ++sub)
    if (mc::begin_case())
    {
      Src s; build(s); SI sel; for (int i = 0; i < 3; ++i) if (sub >> i & 1) sel.insert(i);
      mc::trace("copy" + show(sel) + (pre ? " into a used mesh" : "")); mc::transition();
      std::string before = snap(s.m).text(); DM dm; if (pre) vg::copy_element(*s.e[1], dm);
      Sel f; f.s = &sel; vg::copy((SM const &)s.m, dm, f);
      check_filtered(s, dm, sel); MCHECK(snap(s.m).text() == before, "source-changed", ""); mc::state(mc::str(sub)); mc::outcome("plain" + mc::str(sub));
    }
#if KIND!=4
  for (int pre = 0; pre < 2; ++pre) for (int as = 0; as < 64; ++as) for (int sub = 0; sub < 8; ++sub)
    if (mc::begin_case())
    {
      Src s; build(s); SI sel; for (int i = 0; i < 3; ++i) if (sub >> i & 1) sel.insert(i);
      SSG sg(s.m); SSEG s0 = sg.get_make_segment(3), s1 = sg.get_make_segment(5);
      for (int i = 0; i < 3; ++i) { if (as >> (2*i) & 1) vg::add(s0, *s.e[i]); if (as >> (2*i+1) & 1) vg::add(s1, *s.e[i]); }
      mc::trace("copy" + show(sel) + " assignment " + mc::str(as) + (pre ? " into a used mesh" : "")); mc::transition();
      std::string before = snap(s.m).text(); DM dm; DSG dg(dm);
      if (pre) { DSEG x = dg.get_make_segment(5), y = dg.get_make_segment(1); vg::copy_element(*s.e[1], x); vg::copy_element(*s.e[0], y); }
      Sel f; f.s = &sel; vg::copy((SM const &)s.m, (SSG const &)sg, dm, dg, f);
      check_filtered(s, dm, sel); MCHECK(snap(s.m).text() == before, "source-changed", "");
      VI order(sel.begin(), sel.end()); std::map<int,SI> want, have;
      for (size_t k = 0; k < order.size(); ++k) { if (as >> (2*order[k]) & 1) want[3].insert((int)k); if (as >> (2*order[k]+1) & 1) want[5].insert((int)k); }
      Seen e = look(dm, dm); std::map<int,int> pos; for (size_t k = 0; k < e.el.size(); ++k) pos[e.el[k].first] = (int)k;
      for (DSG::iterator i = dg.begin(); i != dg.end(); ++i)
      { VI ids = all_ids<ET>(*i); for (size_t k = 0; k < ids.size(); ++k) MCHECK(have[(int)i->id()].insert(pos[ids[k]]).second, "filtered-segment-twice", "");
        Seen es = look(dm, *i); SI vs; for (size_t k = 0; k < es.el.size(); ++k) vs.insert(es.el[k].second.begin(), es.el[k].second.end());
        SI hv; for (std::map<int,P3>::iterator k = es.pos.begin(); k != es.pos.end(); ++k) hv.insert(k->first); MCHECK(vs == hv, "filtered-segment-vertices", show(hv) + " want " + show(vs)); }
      MCHECK(have == want, "filtered-segments", "have " + mc::str(have.size()) + " want " + mc::str(want.size()));
      mc::outcome("seg" + mc::str(sub) + "/" + mc::str(as));
    }
#endif
}
#else
static void filtered() {}
#endif

// larger sources: a part of the elements by one interface, then all of them by another
static void block_copies()
{
  mc::begin_group("blocks");
  typedef Shape<SCT> SH; VVI sz = SH::dim == 1 ? tup("9,0,0;20,0,0") : SH::dim == 2 ? tup("3,2,0;4,4,0") : SH::nv == 4 ? tup("1,1,1;2,2,1") : tup("2,2,1;3,2,2");
  std::vector<Block> bl = blocks<SCT>(sz, mc::S().thorough ? 1 : 6);
  for (size_t b = 0; b < bl.size(); ++b) for (int m1 = 0; m1 <= UNIQUE_TOL; ++m1) for (int m2 = 0; m2 < NMETHOD; ++m2)
  {
    if (!mc::begin_case()) continue;
    BLOCK = &bl[b]; Src s; build(s); std::string before = snap(s.m).text(); mc::trace(bl[b].name + " " + NAME[m1] + " then " + NAME[m2]);
    { World w(s); Step st; int n = (int)s.e.size(); st.seg = 0; st.method = m1;
      if (m1 < NMETHOD) { for (int i = n % 3; i < n; i += 3) st.list.push_back(i); w.run(st); } else for (int i = b % 2; i < bl[b].nv; i += 2) { st.list.assign(1, i); w.run(st); }
      st.list.clear(); st.method = m2; st.seg = KIND == 7 && b % 2; for (int i = 0; i < n; ++i) st.list.push_back(b % 3 == 1 ? n - 1 - i : i); w.run(st);
      facets_ok(w.dm); MCHECK(snap(s.m).text() == before, "source-changed", "");
      Seen e = look(w.dm, w.dm); std::string o = mc::str(e.pos.size()); for (size_t i = 0; i < e.el.size(); ++i) o += show(e.el[i].second); mc::state(o); mc::outcome(o); }
    BLOCK = 0;
  }
}

int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  Src s; build(s);
  block_copies();
  histories(s, steps(s, mc::S().thorough ? 4 : 3), 1, "depth1");
  histories(s, steps(s, KIND == 3 ? 1 : 2), 2, "depth2");
  if (KIND != 8 && KIND != 7 && KIND != 3) histories(s, steps(s, 1), 3, "depth3");
  filtered();
  return mc::finish();
}

#else   // piecewise linear complexes -------------------------------------------------------
static const int LINES[][2] = { {0,1}, {1,2}, {2,0}, {2,3}, {3,4}, {8,7}, {7,5} };
struct PL { VI lines, loose; int holes; };
static std::vector<PL> plcs()
{
  std::vector<PL> r(4);
  r[0].lines = tup("0,1,2")[0]; r[0].loose = tup("6")[0]; r[0].holes = 1;
  r[1].lines = tup("2,3,4")[0]; r[1].holes = 2;
  r[2].lines = tup("6,5")[0];   r[2].loose = tup("3,6")[0]; r[2].holes = 0;
  r[3].lines = tup("1,0")[0];   r[3].loose = tup("5,1,4")[0]; r[3].holes = 0;
  return r;
}
static P3 hole(int plc, int k) { return P3(plc + 0.5, k, -1 - k); }
static void build(Src & s)
{
  std::vector<vg::result_of::line_handle<SM>::type> l;
  for (int k = 0; k < NS; ++k) { P3 p = loc(k); s.v.push_back(vg::make_vertex(s.m, mkpoint<SM>(p[0], p[1], p[2]))); }
  for (size_t i = 0; i < sizeof LINES / sizeof LINES[0]; ++i) l.push_back(vg::make_line(s.m, s.v[LINES[i][0]], s.v[LINES[i][1]]));
  std::vector<PL> ps = plcs();
  for (size_t i = 0; i < ps.size(); ++i)
  {
    std::vector<vg::result_of::line_handle<SM>::type> a; std::vector<SVH> b; std::vector<vg::result_of::point<SM>::type> c;
    for (size_t k = 0; k < ps[i].lines.size(); ++k) a.push_back(l[ps[i].lines[k]]);
    for (size_t k = 0; k < ps[i].loose.size(); ++k) b.push_back(s.v[ps[i].loose[k]]);
    for (int k = 0; k < ps[i].holes; ++k) { P3 h = hole((int)i, k); c.push_back(mkpoint<SM>(h[0], h[1], h[2])); }
    s.h.push_back(vg::make_plc(s.m, a.begin(), a.end(), b.begin(), b.end(), c.begin(), c.end()));
  }
  for (size_t i = 0; i < ps.size(); ++i) s.e.push_back(&vg::dereference_handle(s.m, s.h[i]));
}
// one PLC as seen: lines as ordered vertex pairs, all vertices, hole points
struct PSeen { int id; VVI lines; VI linesid, verts; VP holes; };
static std::vector<PSeen> plook(SM & m)
{
  std::vector<PSeen> out; typedef vg::result_of::element_range<SM,vg::plc_tag>::type R; typedef vg::result_of::iterator<R>::type I; R r(m);
  for (I i = r.begin(); i != r.end(); ++i)
  {
    PSeen p; p.id = (int)(*i).id().get(); p.verts = vids(*i);
    typedef vg::result_of::line_range<El>::type LR; typedef vg::result_of::iterator<LR>::type LI; LR lr(*i);
    for (LI k = lr.begin(); k != lr.end(); ++k) { p.lines.push_back(vids(*k)); p.linesid.push_back((int)(*k).id().get()); }
    for (size_t k = 0; k < vg::hole_points(*i).size(); ++k) p.holes.push_back(p3(vg::hole_points(*i)[k]));
    out.push_back(p);
  }
  return out;
}
static std::string ptext(SM & m)
{
  std::string s; std::vector<PSeen> p = plook(m); for (size_t i = 0; i < p.size(); ++i) s += mc::str(p[i].id) + show(p[i].lines) + show(p[i].linesid) + show(p[i].verts) + show(p[i].holes) + ";";
  Seen e = look(m, m); for (std::map<int,P3>::iterator i = e.pos.begin(); i != e.pos.end(); ++i) s += mc::str(i->first) + show(i->second);
  return s + show(all_tuples<vg::line_tag>(m));
}
static const char * NAME[] = { "copy_elements", "copy_elements+tol", "by_handle", "by_handle+tol" };
static void step(Src & src, DM & dm, int method, VI const & list)
{
  std::vector<PSeen> p0 = plook(dm), ps = plook(src.m); Seen v0 = look(dm, dm); VVI l0 = all_tuples<vg::line_tag>(dm);
  double tol = method & 1 ? TOL : 0; mc::transition();
  std::vector<EH> hs; std::vector<El*> es; for (size_t i = 0; i < list.size(); ++i) { hs.push_back(src.h[list[i]]); es.push_back(src.e[list[i]]); }
  es.push_back(0); ElIt b(&es[0]), e(&es[0] + hs.size());
  if (method == 0) vg::copy_elements(b, e, dm); else if (method == 1) vg::copy_elements(b, e, dm, TOL);
  else if (method == 2) vg::copy_elements_by_handle(src.m, hs.begin(), hs.end(), dm); else vg::copy_elements_by_handle(src.m, hs.begin(), hs.end(), dm, TOL);
  std::vector<PSeen> p1 = plook(dm); Seen v1 = look(dm, dm);
  if (!MCHECK(p1.size() == p0.size() + list.size(), "plc-count", mc::str(p1.size()))) return;
  for (size_t i = 0; i < p0.size(); ++i) MCHECK(p1[i].id == p0[i].id && p1[i].lines == p0[i].lines && p1[i].verts == p0[i].verts && p1[i].holes == p0[i].holes, "plc-old-changed", mc::str(i));
  std::map<int,P3> now = v0.pos; std::map<int,int> mp; std::set<VI> lines; for (size_t i = 0; i < l0.size(); ++i) lines.insert(l0[i]);
  for (size_t i = 0; i < list.size(); ++i)
  {
    PSeen const & s = ps[list[i]], & d = p1[p0.size() + i];
    MCHECK(d.holes == s.holes, "plc-holes", show(d.holes) + " want " + show(s.holes));
    if (!MCHECK(d.lines.size() == s.lines.size(), "plc-lines", show(d.lines) + " want the image of " + show(s.lines))) continue;
    // pair source with target vertices along lines, then loose ones by position in the list
    std::vector<std::pair<int,int> > pairs;
    for (size_t k = 0; k < s.lines.size(); ++k) for (int q = 0; q < 2; ++q) pairs.push_back(std::make_pair(s.lines[k][q], d.lines[k][q]));
    SI sl, dl; for (size_t k = 0; k < pairs.size(); ++k) { sl.insert(pairs[k].first); dl.insert(pairs[k].second); }
    SI sv(s.verts.begin(), s.verts.end()), dv(d.verts.begin(), d.verts.end());
    MCHECK(dv.size() == d.verts.size(), "plc-vertex-twice", show(d.verts));
    for (size_t k = 0; k < pairs.size(); ++k)
    {
      int a = pairs[k].first, t = pairs[k].second; P3 p = loc(a);
      if (mp.count(a)) { MCHECK(mp[a] == t, "plc-vertex-copied-twice", mc::str(a)); continue; }
      bool reuse = false; if (tol > 0) for (std::map<int,P3>::iterator q = now.begin(); q != now.end(); ++q) reuse |= dist(q->second, p) < tol;
      mp[a] = t;
      if (reuse) MCHECK(now.count(t) && dist(now[t], p) < tol, "plc-vertex-not-reused", mc::str(a));
      else { MCHECK(!now.count(t) && v1.pos.count(t) && v1.pos[t] == p, "plc-vertex-position", mc::str(a)); now[t] = p; }
    }
    for (size_t k = 0; k < d.lines.size(); ++k) lines.insert(sorted(d.lines[k]));
    // loose vertices of the source: images with the same position (up to the tolerance), known or new
    SI image = dl;
    for (size_t k = 0; k < s.verts.size(); ++k) if (!sl.count(s.verts[k]))
    {
      int a = s.verts[k], t = -1; P3 p = loc(a);
      if (mp.count(a)) { t = mp[a]; MCHECK(dv.count(t), "plc-loose-lost", mc::str(a)); }
      else
      {
        bool reuse = false; if (tol > 0) for (std::map<int,P3>::iterator q = now.begin(); q != now.end(); ++q) reuse |= dist(q->second, p) < tol;
        for (SI::iterator q = dv.begin(); q != dv.end(); ++q) if (reuse ? now.count(*q) && dist(now[*q], p) < tol : !now.count(*q) && v1.pos[*q] == p) { t = *q; break; }
        if (!MCHECK(t >= 0, "plc-loose-lost", mc::str(a))) continue;
        mp[a] = t; if (!reuse) now[t] = p;
      }
      image.insert(t);
    }
    MCHECK(dv == image, "plc-vertices", show(dv) + " want " + show(image));
  }
  MCHECK(now == v1.pos, "plc-mesh-vertices", "have " + mc::str(v1.pos.size()) + " want " + mc::str(now.size()));
  VVI l1 = all_tuples<vg::line_tag>(dm); std::sort(l1.begin(), l1.end());
  MCHECK(l1 == VVI(lines.begin(), lines.end()), "plc-mesh-lines", show(l1) + " want " + show(lines));
}
static void lists(int n, int maxlen, VVI & out)
{ VVI cur(1); for (int l = 0; l < maxlen; ++l) { VVI nx; for (size_t i = 0; i < cur.size(); ++i) for (int k = 0; k < n; ++k) { VI v = cur[i]; v.push_back(k); nx.push_back(v); } out.insert(out.end(), nx.begin(), nx.end()); cur = nx; } }
int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  Src s; build(s);
  std::string before = ptext(s.m);
  mc::begin_group("plc-source");
  for (int way = 0; way < 3; ++way) if (mc::begin_case())   // the PLCs which are copied are those described; way 1, 2: without holes, without loose vertices
  {
    mc::trace("way" + mc::str(way)); mc::transition();
    SM m; std::vector<SVH> v; std::vector<vg::result_of::line_handle<SM>::type> l;
    for (int k = 0; k < NS; ++k) { P3 p = loc(k); v.push_back(vg::make_vertex(m, mkpoint<SM>(p[0], p[1], p[2]))); }
    for (size_t i = 0; i < sizeof LINES / sizeof LINES[0]; ++i) l.push_back(vg::make_line(m, v[LINES[i][0]], v[LINES[i][1]]));
    std::vector<PL> want = plcs();
    if (way) for (size_t i = 0; i < want.size(); ++i)
    {
      std::vector<vg::result_of::line_handle<SM>::type> a; std::vector<SVH> b; want[i].holes = 0; if (way == 2) want[i].loose.clear();
      for (size_t k = 0; k < want[i].lines.size(); ++k) a.push_back(l[want[i].lines[k]]);
      for (size_t k = 0; k < want[i].loose.size(); ++k) b.push_back(v[want[i].loose[k]]);
      if (way == 1) vg::make_plc(m, a.begin(), a.end(), b.begin(), b.end()); else vg::make_plc(m, a.begin(), a.end());
    }
    std::vector<PSeen> p = plook(way ? m : s.m); SI ids;
    if (!MCHECK(p.size() == want.size(), "plc-created-count", mc::str(p.size()))) continue;
    for (size_t i = 0; i < p.size(); ++i)
    {
      std::set<VI> wl, hl(p[i].lines.begin(), p[i].lines.end()); SI wv(want[i].loose.begin(), want[i].loose.end()), hv(p[i].verts.begin(), p[i].verts.end());
      for (size_t k = 0; k < want[i].lines.size(); ++k) { int const * q = LINES[want[i].lines[k]]; wl.insert(VI(q, q + 2)); wv.insert(q, q + 2); }
      MCHECK(ids.insert(p[i].id).second, "plc-created-id", mc::str(p[i].id));
      MCHECK(hl == wl && p[i].lines.size() == wl.size(), "plc-created-lines", show(hl) + " want " + show(wl));
      MCHECK(hv == wv && p[i].verts.size() == wv.size(), "plc-created-vertices", show(hv) + " want " + show(wv));
      MCHECK((int)p[i].holes.size() == want[i].holes, "plc-created-holes", mc::str(p[i].holes.size()));
      for (int k = 0; k < want[i].holes && k < (int)p[i].holes.size(); ++k) MCHECK(p[i].holes[k] == hole((int)i, k), "plc-created-hole", show(p[i].holes));
    }
    mc::outcome(ptext(way ? m : s.m));
  }
  for (int depth = 1; depth <= (mc::S().thorough ? 3 : 2); ++depth)
  {
    mc::begin_group("plc-depth" + mc::str(depth));
    VVI l; lists(4, depth == 1 ? 4 : depth == 2 ? 2 : 1, l); size_t n = l.size() * 4; std::vector<size_t> ix(depth, 0);
    for (;;)
    {
      if (mc::begin_case())
      {
        std::string id; for (int d = 0; d < depth; ++d) id += std::string(NAME[ix[d] % 4]) + show(l[ix[d] / 4]) + " "; mc::trace(id);
        DM dm; for (int d = 0; d < depth; ++d) step(s, dm, (int)(ix[d] % 4), l[ix[d] / 4]);
        MCHECK(ptext(s.m) == before, "source-changed", ""); std::string o = ptext(dm); mc::state(o); mc::outcome(o);
      }
      int d = depth - 1; while (d >= 0 && ++ix[d] == n) ix[d--] = 0;
      if (d < 0) break;
    }
  }
  return mc::finish();
}
#endif
