// P09: copying, assigning, clearing meshes and segmented meshes.  Two objects
// A and B; every history of {add cell, copy-construct, assign, self-assign,
// clear, destroy, copy()} up to a depth, caches warmed before each step or not.
#ifndef KIND
#define KIND 1
#endif
#include "obs.hpp"
#include "viennagrid/mesh/segmented_mesh.hpp"
#include "viennagrid/mesh/mesh_operations.hpp"
namespace cfg { template<class Tag, class P, class H> struct wrap { typedef typename vg::config::result_of::full_mesh_config<Tag, P, H>::type type; }; }
#if KIND==0
typedef vg::line_2d_mesh M;
static VVI CELLS = tup("0,1;2,1;2,3");
#elif KIND==1
typedef vg::triangular_2d_mesh M;
static VVI CELLS = tup("0,1,2;3,2,1;0,2,4");
#elif KIND==2
typedef vg::tetrahedral_3d_mesh M;
static VVI CELLS = tup("0,1,2,3;4,3,2,1;5,0,2,1");
#elif KIND==3
typedef vg::quadrilateral_2d_mesh M;
static VVI CELLS = tup("0,1,3,4;1,2,4,5;4,3,7,6");
#elif KIND==4
typedef vg::hexahedral_3d_mesh M;
static VVI CELLS = tup("0,1,2,3,4,5,6,7;4,5,6,7,8,9,10,11");
#elif KIND==5
typedef vg::mesh<cfg::wrap<vg::triangle_tag, vg::config::point_type_2d, vg::iterator_handle_tag> > M;
static VVI CELLS = tup("0,1,2;3,2,1;0,2,4");
#elif KIND==6
typedef vg::mesh<cfg::wrap<vg::triangle_tag, vg::config::point_type_2d, vg::id_handle_tag> > M;
static VVI CELLS = tup("0,1,2;3,2,1;0,2,4");
#endif
typedef vg::result_of::cell_tag<M>::type CT;
typedef Shape<CT> SH;
static const int D = SH::dim;
typedef vg::result_of::vertex_handle<M>::type VH;
typedef vg::result_of::cell<M>::type Cell;
typedef vg::result_of::cell_handle<M>::type CH;

// vertex i sits at x = i+1 (not sorted by id: labels are coordinates)
static double coord(int i, int k) { return k == 0 ? 1 + i : k == 1 ? (i * i) % 7 : (3 * i) % 5; }
template<class MM> typename vg::result_of::vertex_handle<MM>::type vertex(MM & m, int i)
{
  typedef typename vg::result_of::vertex_range<MM>::type R; typedef typename vg::result_of::iterator<R>::type I;
  R r(m); for (I k = r.begin(); k != r.end(); ++k) if (vg::point(m, *k)[0] == coord(i,0)) return k.handle();
  return vg::make_vertex(m, mkpoint<MM>(coord(i,0), coord(i,1), coord(i,2)));
}
template<class MM> typename vg::result_of::cell_handle<MM>::type addcell(MM & m, VI const & c)
{ std::vector<typename vg::result_of::vertex_handle<MM>::type> h; for (size_t i = 0; i < c.size(); ++i) vertex(m, c[i]); for (size_t i = 0; i < c.size(); ++i) h.push_back(vertex(m, c[i])); return vg::make_cell(m, h.begin(), h.end()); }

struct Model { std::vector<VI> el[4]; VI verts; VVI cells; };   // in creation order
static void madd(Model & m, VI const & c) { for (size_t i = 0; i < c.size(); ++i) if (std::find(m.verts.begin(), m.verts.end(), c[i]) == m.verts.end()) m.verts.push_back(c[i]); m.cells.push_back(c); }
static std::string mtext(Model const & m) { return show(m.verts) + show(m.cells); }
static bool has(Model const & m, VI const & c) { return std::find(m.cells.begin(), m.cells.end(), c) != m.cells.end(); }

// structure and answers of one mesh against its model
static std::map<int,int> labels(Snap const & s)
{ std::map<int,int> l; for (std::map<int,std::vector<double> >::const_iterator i = s.pos.begin(); i != s.pos.end(); ++i) l[i->first] = (int)i->second[0] - 1; return l; }
static VI relabel(VI const & t, std::map<int,int> & l) { VI r; for (size_t i = 0; i < t.size(); ++i) r.push_back(l.count(t[i]) ? l[t[i]] : -1); return r; }
template<class MM> Snap check_mesh(MM & mesh, Model const & m, const char * who)
{
  Snap s = consistent(mesh);
  std::map<int,int> l = labels(s);
  for (std::map<int,std::vector<double> >::iterator i = s.pos.begin(); i != s.pos.end(); ++i) for (size_t k = 0; k < i->second.size(); ++k)
    MCHECK(i->second[k] == coord(l[i->first], (int)k), "coordinates", who);
  VI vs; for (std::map<int,int>::iterator i = l.begin(); i != l.end(); ++i) vs.push_back(i->second);
  MCHECK(sorted(vs) == sorted(m.verts), "vertices", std::string(who) + " have " + show(vs) + " want " + show(m.verts));
  for (int d = 1; d <= D; ++d)
  {
    std::set<VI> want, got;
    for (size_t c = 0; c < m.cells.size(); ++c) { VVI x; if (d == D) x.push_back(m.cells[c]); else x = shape_subs(d == D-1 ? SH::facets() : SH::edges(), m.cells[c]); for (size_t i = 0; i < x.size(); ++i) want.insert(sorted(x[i])); }
    for (std::map<VI,int>::iterator i = s.el[d].begin(); i != s.el[d].end(); ++i) got.insert(sorted(relabel(i->first, l)));
    MCHECK(got == want && got.size() == s.el[d].size(), "elements", std::string(who) + " dim " + mc::str(d) + " have " + show(got) + " want " + show(want));
  }
  std::set<VI> cw(m.cells.begin(), m.cells.end()), cg;
  for (std::map<int,VI>::iterator i = s.cells.begin(); i != s.cells.end(); ++i) cg.insert(relabel(i->second, l));
  MCHECK(cw == cg, "cell-vertex-order", std::string(who) + " have " + show(cg) + " want " + show(cw));
  return s;
}

#ifndef SEGMENTED
// ---- plain meshes -------------------------------------------------------
// a/b: add cell to A/B (arg), '<': A = B, '>': B = A, 'x': A = A, 'c'/'d': clear A/B, 'K': replace A by a copy-constructed B,
// 'y': B destroyed and re-created empty, 'f': copy(A, B), 't': exchange A and B through a temporary (two copies, two assignments)
struct Op { char k; int c; Op(char k_, int c_ = -1) : k(k_), c(c_) {} };
static std::string showop(Op const & o) { return std::string(1,o.k) + (o.c >= 0 ? mc::str(o.c) : ""); }
static void mstep(Model & A, Model & B, Op const & o)
{
  switch (o.k)
  {
    case 'a': madd(A, CELLS[o.c]); break; case 'b': madd(B, CELLS[o.c]); break;
    case '<': A = B; break; case '>': B = A; break; case 'x': break; case 'c': A = Model(); break; case 'd': B = Model(); break;
    case 'K': A = B; break; case 'y': B = Model(); break;
    case 'f': B = Model(); { std::set<int> used; Model t; for (size_t i = 0; i < A.cells.size(); ++i) madd(t, A.cells[i]); B = t; } break;
    case 't': std::swap(A, B); break;
  }
}
struct World { M * a, * b; World() : a(new M), b(new M) {} ~World() { delete a; delete b; } };
static void step(World & w, Op const & o, Model const & A, Model const & B)
{
  mc::transition();
  switch (o.k)
  {
    case 'a': addcell(*w.a, CELLS[o.c]); break;
    case 'b': addcell(*w.b, CELLS[o.c]); break;
    case '<': { *w.a = *w.b; Snap x = snap(*w.a), y = snap(*w.b); MCHECK(x == y, "assigned-differs", x.text() + " vs " + y.text()); } break;
    case '>': *w.b = *w.a; { Snap x = snap(*w.a), y = snap(*w.b); MCHECK(x == y, "assigned-differs", x.text() + " vs " + y.text()); } break;
    case 'x': { Snap x = snap(*w.a); M & r = *w.a; *w.a = r; Snap y = snap(*w.a); MCHECK(x == y, "self-assignment", x.text() + " vs " + y.text()); } break;
    case 'c': vg::clear(*w.a); break;
    case 'd': w.b->clear(); break;
    case 'K': { M * n = new M(*w.b); delete w.a; w.a = n; Snap x = snap(*w.a), y = snap(*w.b); MCHECK(x == y, "copy-differs", x.text() + " vs " + y.text()); } break;
    case 'y': delete w.b; w.b = new M; break;
    case 't': { M t(*w.a); *w.a = *w.b; *w.b = t; } break;
#if KIND != 5 && KIND != 6
    case 'f': vg::copy(*w.a, *w.b, vg::true_functor()); break;
#endif
  }
}
static void run(std::vector<Op> const & ops, bool every)
{
  if (!mc::begin_case()) return;
  for (size_t i = 0; i < ops.size(); ++i) mc::trace(showop(ops[i]));
  if (every) mc::trace("?");
  World w; Model A, B;
  for (size_t i = 0; i < ops.size(); ++i)
  {
    mstep(A, B, ops[i]);
    step(w, ops[i], A, B);
    mc::state(mtext(A) + "|" + mtext(B));
    if (every || i + 1 == ops.size()) { Snap a = check_mesh(*w.a, A, "A"); check_mesh(*w.b, B, "B"); Snap a2 = snap(*w.a); MCHECK(a == a2, "query-changed-mesh", ""); }
  }
  mc::outcome(mtext(A) + "|" + mtext(B));
}
static int DEPTH;
static void explore(std::vector<Op> & ops, Model const & A, Model const & B, int last)
{
  if ((int)ops.size() == DEPTH) { run(ops, true); if (DEPTH < 6) run(ops, false); return; }
  std::vector<Op> c;
  for (size_t i = 0; i < CELLS.size(); ++i) { if (!has(A, CELLS[i])) c.push_back(Op('a', (int)i)); if (!has(B, CELLS[i])) c.push_back(Op('b', (int)i)); }
  const char * k = "<>xcdKyt"; for (; *k; ++k) c.push_back(Op(*k));
  if (KIND != 5 && KIND != 6) c.push_back(Op('f'));
  for (size_t i = 0; i < c.size(); ++i)
  {
    if (c[i].k == 'b' && A.cells.empty() && B.cells.empty()) continue;   // symmetric start: A first
    Model a = A, b = B; mstep(a, b, c[i]);
    ops.push_back(c[i]); explore(ops, a, b, 0); ops.pop_back();
  }
}
#if KIND < 5
// ---- views: two views A, B of one mesh.  m/n: create cell c through A/B, +/*: add the existing cell c to A/B,
// '<' '>' 'x' assignments, 'K': A replaced by a copy of B, 'y': B replaced by a new view, 'q': a temporary copy of A is changed and dropped
typedef vg::result_of::mesh_view<M>::type VIEW;
struct VModel { Model m; std::set<VI> a, b; };
static bool vstep(VModel & x, Op const & o)
{
  switch (o.k)
  {
    case 'm': if (has(x.m, CELLS[o.c])) return false; madd(x.m, CELLS[o.c]); x.a.insert(CELLS[o.c]); break;
    case 'n': if (has(x.m, CELLS[o.c])) return false; madd(x.m, CELLS[o.c]); x.b.insert(CELLS[o.c]); break;
    case 'q': if (has(x.m, CELLS[o.c])) return false; madd(x.m, CELLS[o.c]); break;
    case '+': if (!has(x.m, CELLS[o.c]) || x.a.count(CELLS[o.c])) return false; x.a.insert(CELLS[o.c]); break;
    case '*': if (!has(x.m, CELLS[o.c]) || x.b.count(CELLS[o.c])) return false; x.b.insert(CELLS[o.c]); break;
    case '<': case 'K': x.a = x.b; break; case '>': x.b = x.a; break; case 'y': x.b.clear(); break;
  }
  return true;
}
static CH vcell(M & m, VI const & c)
{
  typedef vg::result_of::cell_range<M>::type R; R r(m); Snap sn = snap(m); std::map<int,int> l = labels(sn);
  for (R::iterator i = r.begin(); i != r.end(); ++i) if (relabel(vids(*i), l) == c) return i.handle();
  return CH();
}
static CH vmake(M & m, VIEW & v, VI const & c)
{ std::vector<VH> h; for (size_t i = 0; i < c.size(); ++i) vertex(m, c[i]); for (size_t i = 0; i < c.size(); ++i) h.push_back(vertex(m, c[i])); return vg::make_cell(v, h.begin(), h.end()); }
static void vcheck(M & m, VIEW & v, std::set<VI> const & want, const char * who)
{
  Snap sn = snap(m); std::map<int,int> l = labels(sn); std::set<VI> got; typedef vg::result_of::cell_range<VIEW>::type R; R r(v); 
  for (R::iterator i = r.begin(); i != r.end(); ++i)
  { got.insert(relabel(vids(*i), l)); bool own = false; typedef vg::result_of::cell_range<M>::type MR; MR mr(m); for (MR::iterator q = mr.begin(); q != mr.end(); ++q) own |= &*q == &*i; MCHECK(own, "view-foreign-cell", who); }
  MCHECK(got == want && r.size() == want.size(), "view-cells", std::string(who) + " have " + show(got) + " want " + show(want));
}
static void vrun(std::vector<Op> const & ops)
{
  if (!mc::begin_case()) return;
  for (size_t i = 0; i < ops.size(); ++i) mc::trace(showop(ops[i]));
  M mesh; VIEW * a = new VIEW(vg::make_view(mesh)), * b = new VIEW(vg::make_view(mesh)); VModel x;
  for (size_t i = 0; i < ops.size(); ++i)
  {
    Op const & o = ops[i]; vstep(x, o); mc::transition();
    switch (o.k)
    {
      case 'm': vmake(mesh, *a, CELLS[o.c]); break; case 'n': vmake(mesh, *b, CELLS[o.c]); break;
      case 'q': { VIEW t(*a); vmake(mesh, t, CELLS[o.c]); std::set<VI> w = x.a; w.insert(CELLS[o.c]); vcheck(mesh, t, w, "temporary"); } break;
      case '+': vg::add_single_handle(*a, vcell(mesh, CELLS[o.c])); break; case '*': vg::add_single_handle(*b, vcell(mesh, CELLS[o.c])); break;
      case '<': *a = *b; break; case '>': *b = *a; break; case 'x': { VIEW & r = *a; *a = r; } break;
      case 'K': { VIEW * n = new VIEW(*b); delete a; a = n; } break;
      case 'y': delete b; b = new VIEW(vg::make_view(mesh)); break;
    }
    vcheck(mesh, *a, x.a, "A"); vcheck(mesh, *b, x.b, "B"); mc::state(mtext(x.m) + show(x.a) + show(x.b));
  }
  check_mesh(mesh, x.m, "mesh"); delete a; delete b; mc::outcome(mtext(x.m) + show(x.a) + show(x.b));
}
static void vexplore(std::vector<Op> & ops, VModel const & x, int depth)
{
  if ((int)ops.size() == depth) { vrun(ops); return; }
  std::vector<Op> c; for (size_t i = 0; i < CELLS.size() && i < 3; ++i) for (const char * k = "mnq+*"; *k; ++k) c.push_back(Op(*k, (int)i));
  for (const char * k = "<>xKy"; *k; ++k) c.push_back(Op(*k));
  for (size_t i = 0; i < c.size(); ++i) { VModel y = x; if (!vstep(y, c[i])) continue; ops.push_back(c[i]); vexplore(ops, y, depth); ops.pop_back(); }
}
#endif
int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  const bool T = mc::S().thorough;
  std::vector<Op> o; int mx = D == 3 ? 3 : 4; if (KIND == 0) mx = 4; if (T) ++mx;
  for (DEPTH = 1; DEPTH <= mx; ++DEPTH) { mc::begin_group("plain-" + mc::str(DEPTH)); o.clear(); explore(o, Model(), Model(), 0); }
  // deeper: one mesh of two cells first
  for (DEPTH = mx + 1; DEPTH <= mx + 1; ++DEPTH)
  { o.clear(); Model a, b; for (int i = 0; i < 2; ++i) { o.push_back(Op('a', i)); mstep(a, b, o.back()); } mc::begin_group("two-" + mc::str(DEPTH)); explore(o, a, b, 0); }
#if KIND < 5
  for (int d = 1; d <= (D == 3 ? 3 : 4) + T; ++d) { mc::begin_group("views-" + mc::str(d)); o.clear(); vexplore(o, VModel(), d); }
#endif
  // structured blocks: all cells but two in A, then every history of two (three) steps
  mc::begin_group("blocks");
  {
    VVI sizes = D == 1 ? tup("20,0,0") : D == 2 ? tup("3,3,0;5,4,0") : SH::nv == 4 ? tup("2,1,1") : tup("3,2,1");
    std::vector<Block> bs = blocks<CT>(sizes, T ? 2 : 7);
    for (size_t b = 0; b < bs.size(); ++b)
    {
      CELLS = bs[b].cells; int n = (int)CELLS.size() - 2; o.clear(); for (int i = 0; i < n; ++i) o.push_back(Op('a', i));
      std::vector<Op> c; c.push_back(Op('a', n)); c.push_back(Op('b', n + 1)); for (const char * k = KIND != 5 && KIND != 6 ? "<>xcdKytf" : "<>xcdKyt"; *k; ++k) c.push_back(Op(*k));
      int len = T ? 3 : 2; long N = 1; for (int i = 0; i < len; ++i) N *= (long)c.size();
      for (long code = 0; code < N; ++code)
      {
        std::vector<Op> q = o; long x = code; bool ok = true; Model A, B; for (int i = 0; i < n; ++i) madd(A, CELLS[i]);
        for (int i = 0; i < len && ok; ++i, x /= (long)c.size()) { Op p = c[x % c.size()]; ok = !((p.k == 'a' && has(A, CELLS[p.c])) || (p.k == 'b' && has(B, CELLS[p.c]))); mstep(A, B, p); q.push_back(p); }
        if (ok) run(q, false);
      }
    }
  }
  return mc::finish();
}
#else
// ---- segmented meshes ----------------------------------------------------
typedef vg::result_of::segmentation<M>::type SEG;
typedef vg::segmented_mesh<M,SEG> SM;
typedef vg::result_of::segment_handle<SEG>::type SGH;
typedef SEG::segment_id_type ID;
struct SModel { Model m; std::map<int, std::set<VI> > seg; };
static std::string stext(SModel const & s) { std::string t = mtext(s.m); for (std::map<int,std::set<VI> >::const_iterator i = s.seg.begin(); i != s.seg.end(); ++i) t += "/" + mc::str(i->first) + show(i->second); return t; }
// a/b: create cell c in segment s of A/B; A: add existing cell c of A to segment s; then '<' '>' 'x' 'c' 'd' 'K' 'y'
struct Op { char k; int c, s; Op(char k_, int c_ = -1, int s_ = -1) : k(k_), c(c_), s(s_) {} };
static const int SID[2] = {0, 3};
static std::string showop(Op const & o) { return std::string(1,o.k) + (o.c >= 0 ? mc::str(o.c) + "s" + mc::str(o.s) : ""); }
static void only_used(SModel & s) { Model t; for (size_t i = 0; i < s.m.cells.size(); ++i) madd(t, s.m.cells[i]); s.m = t; std::map<int,std::set<VI> > q; for (std::map<int,std::set<VI> >::iterator i = s.seg.begin(); i != s.seg.end(); ++i) if (!i->second.empty()) q[i->first] = i->second; s.seg = q; }
static void mstep(SModel & A, SModel & B, Op const & o)
{
  switch (o.k)
  {
    case 'a': madd(A.m, CELLS[o.c]); A.seg[SID[o.s]].insert(CELLS[o.c]); break;
    case 'b': madd(B.m, CELLS[o.c]); B.seg[SID[o.s]].insert(CELLS[o.c]); break;
    case 'n': madd(A.m, CELLS[o.c]); break;
    case 'A': A.seg[SID[o.s]].insert(CELLS[o.c]); break;
    case '<': case 'K': A = B; only_used(A); break; case '>': B = A; only_used(B); break; case 'x': break;
    case 'c': A = SModel(); break; case 'd': case 'y': B = SModel(); break;
  }
}
struct World { SM * a, * b; World() : a(new SM), b(new SM) {} ~World() { delete a; delete b; } };
static CH cellof(SM & s, VI const & c)
{
  typedef vg::result_of::cell_range<M>::type R; R r(s.mesh); Snap sn = snap(s.mesh); std::map<int,int> l = labels(sn);
  for (R::iterator i = r.begin(); i != r.end(); ++i) if (relabel(vids(*i), l) == c) return i.handle();
  return CH();
}
static void step(World & w, Op const & o)
{
  mc::transition();
  switch (o.k)
  {
    case 'a': case 'b': { SM & s = o.k == 'a' ? *w.a : *w.b; CH h = addcell(s.mesh, CELLS[o.c]); vg::add(s.segmentation(ID(SID[o.s])), vg::dereference_handle(s.mesh, h)); } break;
    case 'n': addcell(w.a->mesh, CELLS[o.c]); break;
    case 'A': vg::add(w.a->segmentation(ID(SID[o.s])), vg::dereference_handle(w.a->mesh, cellof(*w.a, CELLS[o.c]))); break;
    case '<': *w.a = *w.b; break;
    case '>': *w.b = *w.a; break;
    case 'x': { SM & r = *w.a; *w.a = r; } break;
    case 'c': w.a->clear(); break;
    case 'd': w.b->clear(); break;
    case 'K': { SM * n = new SM(*w.b); delete w.a; w.a = n; } break;
    case 'y': delete w.b; w.b = new SM; break;
  }
}
static void check_sm(SM & s, SModel const & m, const char * who)
{
  Snap sn = check_mesh(s.mesh, m.m, who); std::map<int,int> l = labels(sn);
  MCHECK(&s.segmentation.mesh() == &s.mesh, "segmentation-mesh", who);
  std::map<int,std::set<VI> > got;
  for (SEG::iterator i = s.segmentation.begin(); i != s.segmentation.end(); ++i)
  {
    MCHECK(&i->parent() == &s.segmentation, "segment-parent", who);
    std::set<VI> & g = got[(int)i->id()]; std::set<VI> subs, subw;
    typedef vg::result_of::cell_range<SGH>::type R; R r(*i);
    for (R::iterator c = r.begin(); c != r.end(); ++c) { g.insert(relabel(vids(*c), l)); MCHECK(vg::is_in_segment(*i, *c), "is-in-segment", who);
      typedef vg::result_of::cell_range<M>::type MR; MR mr(s.mesh); bool own = false; for (MR::iterator q = mr.begin(); q != mr.end(); ++q) own |= &*q == &*c; MCHECK(own, "foreign-cell", who); }
    MCHECK(g.size() == r.size(), "segment-duplicates", who);
    VVI f = all_tuples<CT::facet_tag>(*i); for (size_t k = 0; k < f.size(); ++k) subs.insert(sorted(relabel(f[k], l)));
    for (std::set<VI>::iterator c = g.begin(); c != g.end(); ++c) { VVI x = shape_subs(SH::facets(), *c); for (size_t k = 0; k < x.size(); ++k) subw.insert(sorted(x[k])); }
    MCHECK(subs == subw && f.size() == subw.size(), "segment-facets", std::string(who) + " have " + show(subs) + " want " + show(subw));
    if (g.empty()) got.erase((int)i->id());
  }
  std::map<int,std::set<VI> > want; for (std::map<int,std::set<VI> >::const_iterator i = m.seg.begin(); i != m.seg.end(); ++i) if (!i->second.empty()) want[i->first] = i->second;
  if (got != want) { SModel g; g.seg = got; MCHECK(false, "segments", std::string(who) + " have " + stext(g) + " want " + stext(m)); } else MCHECK(true, "segments", "");
  std::set<VI> all; for (std::map<int,std::set<VI> >::iterator i = want.begin(); i != want.end(); ++i) all.insert(i->second.begin(), i->second.end());
  MCHECK(all_ids<CT>(s.segmentation).size() == all.size(), "segmentation-range", who);
}
static void run(std::vector<Op> const & ops, bool every)
{
  if (!mc::begin_case()) return;
  for (size_t i = 0; i < ops.size(); ++i) mc::trace(showop(ops[i]));
  if (every) mc::trace("?");
  World w; SModel A, B;
  for (size_t i = 0; i < ops.size(); ++i)
  {
    mstep(A, B, ops[i]); step(w, ops[i]);
    mc::state(stext(A) + "|" + stext(B));
    if (every || i + 1 == ops.size()) { check_sm(*w.a, A, "A"); check_sm(*w.b, B, "B"); }
  }
  mc::outcome(stext(A) + "|" + stext(B));
}
static int DEPTH;
static void explore(std::vector<Op> & ops, SModel const & A, SModel const & B)
{
  if ((int)ops.size() == DEPTH) { run(ops, true); run(ops, false); return; }
  std::vector<Op> c;
  for (size_t i = 0; i < CELLS.size() && i < 2; ++i) for (int s = 0; s < 2; ++s)
  {
    if (!has(A.m, CELLS[i])) c.push_back(Op('a', (int)i, s)); else { std::map<int,std::set<VI> >::const_iterator q = A.seg.find(SID[s]); if (q == A.seg.end() || !q->second.count(CELLS[i])) c.push_back(Op('A', (int)i, s)); }
    if (!has(B.m, CELLS[i])) c.push_back(Op('b', (int)i, s));
    if (!has(A.m, CELLS[i]) && !s) c.push_back(Op('n', (int)i, 0));
  }
  const char * k = "<>xcdKy"; for (; *k; ++k) c.push_back(Op(*k));
  for (size_t i = 0; i < c.size(); ++i)
  {
    if (c[i].k == 'b' && A.m.cells.empty() && B.m.cells.empty()) continue;
    SModel a = A, b = B; mstep(a, b, c[i]); ops.push_back(c[i]); explore(ops, a, b); ops.pop_back();
  }
}
int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  const bool T = mc::S().thorough;
  std::vector<Op> o; int mx = (D == 3 ? 3 : 4) + T;
  for (DEPTH = 1; DEPTH <= mx; ++DEPTH) { mc::begin_group("segmented-" + mc::str(DEPTH)); explore(o, SModel(), SModel()); }
  // structured blocks distributed over two segments, then every history of two (three) steps
  mc::begin_group("blocks");
  {
    VVI sizes = D == 1 ? tup("20,0,0") : D == 2 ? tup("3,3,0;5,4,0") : SH::nv == 4 ? tup("2,1,1") : tup("3,2,1");
    std::vector<Block> bs = blocks<CT>(sizes, T ? 2 : 7);
    for (size_t b = 0; b < bs.size(); ++b) for (int part = 0; part < 2; ++part)
    {
      CELLS = bs[b].cells; int n = (int)CELLS.size() - 2; o.clear();
      for (int i = 0; i < n; ++i) { if (i % 7 == 6) o.push_back(Op('n', i, 0)); else { o.push_back(Op('a', i, part ? i % 2 : i * 2 / n)); if (i % 5 == 3) o.push_back(Op('A', i, part ? 1 - i % 2 : 1 - i * 2 / n)); } }
      std::vector<Op> c; c.push_back(Op('a', n, 0)); c.push_back(Op('b', n + 1, 1)); for (const char * k = "<>xcdKy"; *k; ++k) c.push_back(Op(*k));
      int len = T ? 3 : 2; long N = 1; for (int i = 0; i < len; ++i) N *= (long)c.size();
      for (long code = 0; code < N; ++code)
      {
        std::vector<Op> q = o; long x = code; bool ok = true; SModel A, B; for (size_t i = 0; i < o.size(); ++i) mstep(A, B, o[i]);
        for (int i = 0; i < len && ok; ++i, x /= (long)c.size()) { Op p = c[x % c.size()]; ok = !((p.k == 'a' && has(A.m, CELLS[p.c])) || (p.k == 'b' && has(B.m, CELLS[p.c]))); mstep(A, B, p); q.push_back(p); }
        if (ok) run(q, false);
      }
    }
  }
  return mc::finish();
}
#endif
