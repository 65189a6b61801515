// P03: element ids are unique, requested ids are honoured, handles stay valid.
// Every history of automatic and explicit-id creations of vertices, cells and
// edges up to a depth, over a small id range and every handle kind.
#ifndef KIND
#define KIND 1
#endif
#include "vg.hpp"
namespace cfg { template<class Tag, class P, class H> struct wrap { typedef typename vg::config::result_of::full_mesh_config<Tag, P, H>::type type; }; }
using vg::config::point_type_2d; using vg::config::point_type_3d;
#if KIND==0
typedef vg::line_2d_mesh M;
#elif KIND==1
typedef vg::triangular_2d_mesh M;
#elif KIND==2
typedef vg::tetrahedral_3d_mesh M;
#elif KIND==3
typedef vg::mesh<cfg::wrap<vg::triangle_tag, point_type_2d, vg::id_handle_tag> > M;
#elif KIND==4
typedef vg::mesh<cfg::wrap<vg::triangle_tag, point_type_2d, vg::iterator_handle_tag> > M;
#elif KIND==5
typedef vg::thin_triangular_2d_mesh M;
#define THIN
#elif KIND==6
typedef vg::quadrilateral_2d_mesh M;
#endif
typedef vg::result_of::cell_tag<M>::type CT;
typedef Shape<CT> SH;
typedef vg::result_of::vertex_handle<M>::type VH;
typedef vg::result_of::const_handle<M, vg::vertex_tag>::type CVH;
typedef vg::result_of::cell_handle<M>::type CH;
typedef vg::result_of::cell<M>::type CellT;
typedef vg::result_of::vertex<M>::type VertexT;
#if KIND!=3   // segmentations do not support id handles
typedef vg::result_of::segmentation<M>::type SG;
typedef vg::result_of::segment_handle<SG>::type SEG;
#else
struct SG { M & m; SG(M & x) : m(x) {} M & make_segment() { return m; } };
typedef M SEG;
#endif
#if !defined(THIN) && KIND>0
#define LINES
typedef vg::result_of::handle<M, vg::line_tag>::type LH;
typedef vg::result_of::element<M, vg::line_tag>::type LineT;
#endif
static const int NV = SH::nv;

// 'v' automatic vertex, 'V' vertex with id, 'c'/'C' cell, 'e'/'E' edge; s: through a segment
struct Op { char k; int id; VI t; bool s; };
static std::string showop(Op const & o) { std::string r(1, o.k); if (o.id >= 0) r += mc::str(o.id); if (o.s) r += "s"; if (!o.t.empty()) r += mc::seq(o.t); return r; }

struct Rec { long want; double x; long seen; };   // want<0: automatic
static const int START = NV + 1;
static double X(int i) { return 1 + i; }
static double Y(int i) { return (i * i) % 7; }

struct World
{
  M mesh; SG sg; SEG & seg;
  std::vector<VH> vh; std::vector<CH> ch; std::vector<Rec> v, c;
  std::vector<VI> ct;                       // cells as indices into vh
#ifdef LINES
  std::vector<LH> lh; std::vector<Rec> l; std::vector<VI> lt; std::map<VI,int> lidx;
#endif
  World() : sg(mesh), seg(sg.make_segment()) {}
};

static void vertex(World & w, long id, bool s)
{
  int n = (int)w.vh.size(); vg::result_of::point<M>::type p = mkpoint<M>(X(n), Y(n), 0);
  VH h;
  if (id < 0) { if (s) h = vg::make_vertex(w.seg, p); else h = vg::make_vertex(w.mesh, p); }
  else { if (s) h = vg::make_vertex_with_id(w.seg, VertexT::id_type((int)id), p); else h = vg::make_vertex_with_id(w.mesh, VertexT::id_type((int)id), p); }
  w.vh.push_back(h); w.v.push_back(Rec{id, X(n), (long)vg::dereference_handle(w.mesh, h).id().get()});
}
static void apply(World & w, Op const & o)
{
  mc::transition();
  std::vector<VH> h; for (size_t i = 0; i < o.t.size(); ++i) h.push_back(w.vh[o.t[i]]);
  switch (o.k)
  {
    case 'v': vertex(w, -1, o.s); break;
    case 'V': vertex(w, o.id, o.s); break;
    case 'c': case 'C':
    {
      CH c;
      if (o.k == 'c') { if (o.s) c = vg::make_cell(w.seg, h.begin(), h.end()); else c = vg::make_cell(w.mesh, h.begin(), h.end()); }
      else { CellT::id_type id(o.id); if (o.s) c = vg::make_cell_with_id(w.seg, h.begin(), h.end(), id); else c = vg::make_cell_with_id(w.mesh, h.begin(), h.end(), id); }
      w.ch.push_back(c); w.ct.push_back(o.t); w.c.push_back(Rec{o.k == 'C' ? o.id : -1, 0, (long)vg::dereference_handle(w.mesh, c).id().get()});
      break;
    }
#ifdef LINES
    case 'e': case 'E':
    {
      LH l;
      if (o.k == 'e') { if (o.s) l = vg::make_element<vg::line_tag>(w.seg, h.begin(), h.end()); else l = vg::make_element<vg::line_tag>(w.mesh, h.begin(), h.end()); }
      else { LineT::id_type id(o.id); if (o.s) l = vg::make_element_with_id<vg::line_tag>(w.seg, h.begin(), h.end(), id); else l = vg::make_element_with_id<vg::line_tag>(w.mesh, h.begin(), h.end(), id); }
      w.lh.push_back(l); w.lt.push_back(o.t); w.l.push_back(Rec{o.k == 'E' ? o.id : -1, 0, (long)vg::dereference_handle(w.mesh, l).id().get()});
      break;
    }
#endif
  }
}
// dense: no id of this kind was requested, so the ids are 0,1,...,n-1
template<class E, class R> void ids_unique(M & m, R & r, const char * nm, size_t want, bool dense)
{
  typedef typename R::iterator I;
  std::set<long> ids; size_t n = 0; long ub = (long)vg::id_upper_bound<E>(m).get();
  for (I i = r.begin(); i != r.end(); ++i, ++n)
  {
    long id = (long)(*i).id().get();
    MCHECK(ids.insert(id).second, "duplicate-id", std::string(nm) + " id " + mc::str(id));
    MCHECK(id < ub, "id-upper-bound", std::string(nm) + " id " + mc::str(id) + " bound " + mc::str(ub));
    MCHECK(&*vg::find(m, (*i).id()) == &*i, "find-by-id", std::string(nm) + " id " + mc::str(id));
  }
  if (dense) MCHECK(n == 0 || (*ids.begin() == 0 && *ids.rbegin() == (long)n - 1), "automatic-ids-not-dense", std::string(nm) + " ids up to " + mc::str(*ids.rbegin()) + " for " + mc::str(n));
  if (want != (size_t)-1) MCHECK(n == want, "count", std::string(nm) + " " + mc::str(n));
}
static bool autom(std::vector<Rec> const & r) { for (size_t i = 0; i < r.size(); ++i) if (r[i].want >= 0) return false; return true; }
static std::string verify(World & w)
{
  std::ostringstream o;
  { vg::result_of::vertex_range<M>::type r(w.mesh); ids_unique<VertexT>(w.mesh, r, "vertex", w.vh.size(), autom(w.v)); }
  { vg::result_of::cell_range<M>::type r(w.mesh); ids_unique<CellT>(w.mesh, r, "cell", w.ch.size(), autom(w.c)); }
#ifdef LINES
  { vg::result_of::line_range<M>::type r(w.mesh); ids_unique<LineT>(w.mesh, r, "line", (size_t)-1, autom(w.l)); }
  for (size_t i = 0; i < w.lh.size(); ++i)
  {
    LineT & l = vg::dereference_handle(w.mesh, w.lh[i]);
    MCHECK((long)l.id().get() == w.l[i].seen, "handle-stable-line", mc::str(i));
    if (w.l[i].want >= 0) MCHECK((long)l.id().get() == w.l[i].want, "requested-id-line", mc::str(l.id().get()));
    VI want; for (size_t k = 0; k < 2; ++k) want.push_back((int)w.v[w.lt[i][k]].seen);
    MCHECK(svids(l) == sorted(want), "handle-line-vertices", show(vids(l)));
  }
#endif
  M const & cm = w.mesh;
  for (size_t i = 0; i < w.vh.size(); ++i)
  {
    VertexT & v = vg::dereference_handle(w.mesh, w.vh[i]);
    o << v.id().get() << ",";
    MCHECK((long)v.id().get() == w.v[i].seen, "handle-stable-vertex", mc::str(i));
    if (w.v[i].want >= 0) MCHECK((long)v.id().get() == w.v[i].want, "requested-id-vertex", mc::str(v.id().get()));
    MCHECK(vg::point(w.mesh, w.vh[i])[0] == w.v[i].x && vg::point(w.mesh, v)[1] == Y((int)i), "handle-coordinates", mc::str(i));
    MCHECK(&vg::dereference_handle(w.mesh, vg::handle(w.mesh, v)) == &v, "handle-of-element", mc::str(i));
    VertexT const & cv = v; CVH ch = vg::handle(cm, cv);
    MCHECK(&vg::dereference_handle(cm, ch) == &v, "const-handle-of-element", mc::str(i));
    MCHECK(&*vg::find(cm, v.id()) == &v, "find-by-id-const", mc::str(i));
    MCHECK(&*vg::find_by_handle(w.mesh, w.vh[i]) == &v, "find-by-handle", mc::str(i));
  }
  o << "|";
  for (size_t i = 0; i < w.ch.size(); ++i)
  {
    CellT & c = vg::dereference_handle(w.mesh, w.ch[i]);
    o << c.id().get() << ",";
    MCHECK((long)c.id().get() == w.c[i].seen, "handle-stable-cell", mc::str(i));
    if (w.c[i].want >= 0) MCHECK((long)c.id().get() == w.c[i].want, "requested-id-cell", mc::str(c.id().get()));
    VI want; for (int k = 0; k < NV; ++k) want.push_back((int)w.v[w.ct[i][k]].seen);
    MCHECK(vids(c) == want, "handle-cell-vertices", show(vids(c)) + " want " + show(want));
    MCHECK(&*vg::find_by_handle(w.mesh, w.ch[i]) == &c, "find-cell-by-handle", mc::str(i));
  }
  return o.str();
}

// ---- enumeration: ids requested must not be in use (explicitly or, for automatic ids, as observed)
static int DEPTH; static bool WITHSEG;
static const int IDS[] = {0, 1, 2, 4, 7};
struct Gen
{
  std::vector<Op> ops; int nv; std::vector<VI> cells, lines;
  Gen() : nv(0) {}
};
static VI celltuple(int nv, int which) { VI t; for (int i = 0; i < NV; ++i) t.push_back((which + i) % nv); return t; }
static void run(Gen const & g, unsigned mask)
{
  if (!mc::begin_case()) return;
  World w;
  for (size_t i = 0; i < g.ops.size(); ++i)
  {
    Op const & o = g.ops[i];
    // a requested id that an automatic id already took is outside the property
    bool skip = false;
    if (o.k == 'V') for (size_t j = 0; j < w.v.size(); ++j) skip |= w.v[j].seen == o.id;
    if (o.k == 'C') for (size_t j = 0; j < w.c.size(); ++j) skip |= w.c[j].seen == o.id;
#ifdef LINES
    if (o.k == 'E') { VI ids = all_ids<vg::line_tag>(w.mesh); for (size_t j = 0; j < ids.size(); ++j) skip |= ids[j] == o.id; }
#endif
    if (skip) { mc::outcome("id taken"); return; }
    mc::trace(showop(o));
    apply(w, o);
    if ((mask >> i) & 1) { std::string s = verify(w); mc::state(s); }
  }
  mc::outcome(verify(w));
}
static bool has(std::vector<VI> const & a, VI const & t) { for (size_t i = 0; i < a.size(); ++i) if (sorted(a[i]) == sorted(t)) return true; return false; }
static bool used(Gen const & g, char k, int id) { for (size_t i = 0; i < g.ops.size(); ++i) if (g.ops[i].k == k && g.ops[i].id == id) return true; return false; }
static void go(Gen & g, bool vonly, int minv)
{
  if ((int)g.ops.size() == DEPTH) { run(g, 0); run(g, ~0u); return; }
  for (int s = 0; s <= (WITHSEG && KIND != 3 ? 1 : 0); ++s)
  {
    g.ops.push_back(Op{'v',-1,VI(),s!=0}); ++g.nv; go(g, vonly, minv); --g.nv; g.ops.pop_back();
    for (int k = 0; k < 5; ++k) if (!used(g,'V',IDS[k])) { g.ops.push_back(Op{'V',IDS[k],VI(),s!=0}); ++g.nv; go(g, vonly, minv); --g.nv; g.ops.pop_back(); }
    if (vonly || g.nv < minv) continue;
    int tried = 0;
    for (int q = 0; q < g.nv && tried < 2; ++q)
    {
      VI t = celltuple(g.nv, q); if (g.nv < NV || has(g.cells, t)) continue; ++tried;
      g.cells.push_back(t);
      g.ops.push_back(Op{'c',-1,t,s!=0}); go(g, vonly, minv); g.ops.pop_back();
      for (int k = 0; k < 3; ++k) if (!used(g,'C',IDS[k])) { g.ops.push_back(Op{'C',IDS[k],t,s!=0}); go(g, vonly, minv); g.ops.pop_back(); }
      g.cells.pop_back();
    }
#ifdef LINES
    // edges that do not exist yet: from the newest vertex to vertices 0 and 1, before any cell uses them
    for (int q = 0; q < 2 && q < g.nv - 1; ++q)
    {
      VI t; t.push_back(g.nv - 1); t.push_back(q);
      bool there = has(g.lines, t);
      for (size_t i = 0; i < g.cells.size(); ++i) { VVI e = SH::edges(); for (size_t j = 0; j < e.size(); ++j) there |= sorted(pick(g.cells[i], e[j])) == sorted(t); }
      if (there) continue;
      g.lines.push_back(t);
      g.ops.push_back(Op{'e',-1,t,s!=0}); go(g, vonly, minv); g.ops.pop_back();
      for (int k = 0; k < 3; ++k) if (!used(g,'E',IDS[k])) { g.ops.push_back(Op{'E',IDS[k],t,s!=0}); go(g, vonly, minv); g.ops.pop_back(); }
      g.lines.pop_back();
    }
#endif
  }
}
int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  const bool T = mc::S().thorough;
  mc::begin_group("vertices"); WITHSEG = true; for (DEPTH = 1; DEPTH <= (T ? 6 : 5); ++DEPTH) { Gen g; go(g, true, 0); }
  // cells and edges: NV+1 vertices first (automatic, or with ids shifted by one), then every sequence
  for (int shift = 0; shift < 2; ++shift)
  {
    mc::begin_group(shift ? "cells-explicit-vertex-ids" : "cells"); WITHSEG = false;
    Gen g; for (int i = 0; i < NV + 1; ++i) { g.ops.push_back(shift ? Op{'V', 10 - i, VI(), false} : Op{'v',-1,VI(),false}); ++g.nv; }
    int base = NV + 1;
    for (DEPTH = base + 1; DEPTH <= base + (T ? 5 : 4); ++DEPTH) { WITHSEG = DEPTH <= base + 2; go(g, false, 0); }
  }
  // many elements: handles survive container growth
  mc::begin_group("growth");
  for (int n = 1; n <= (T ? 600 : 200); n += (n < 20 ? 1 : 37))
  {
    Gen g; for (int i = 0; i < NV; ++i) { g.ops.push_back(Op{'v',-1,VI(),false}); ++g.nv; }
    VI t; for (int i = 0; i < NV; ++i) t.push_back(i);
    g.ops.push_back(Op{'c',-1,t,false});
    for (int i = 0; i < n; ++i) { g.ops.push_back(Op{'v',-1,VI(),false}); VI q; for (int k = 0; k < NV; ++k) q.push_back(NV + i - k); if (q.back() >= 0) g.ops.push_back(Op{'c',-1,q,false}); }
    run(g, 0);
  }
  return mc::finish();
}
