// P22: ranges, iterators and views.  Part 1: every iterator walk up to a length
// over every kind of range.  Part 2: every history of view operations.
#ifndef KIND
#define KIND 0
#endif
#include "vg.hpp"
#include "obs.hpp"
namespace cfg { struct it2d { typedef vg::config::result_of::full_mesh_config<vg::triangle_tag, vg::config::point_type_2d, vg::iterator_handle_tag>::type type; };
                struct id2d { typedef vg::config::result_of::full_mesh_config<vg::triangle_tag, vg::config::point_type_2d, vg::id_handle_tag>::type type; }; }
#if KIND==0
typedef vg::triangular_2d_mesh M;
#elif KIND==1
typedef vg::mesh<cfg::it2d> M;
#elif KIND==2
typedef vg::mesh<cfg::id2d> M;
#elif KIND==3
typedef vg::tetrahedral_3d_mesh M;
#elif KIND==4
typedef vg::quadrilateral_3d_mesh M;
#elif KIND==5
typedef vg::line_1d_mesh M;
#endif
typedef vg::result_of::cell_tag<M>::type CT; typedef Shape<CT> SH;
typedef vg::result_of::vertex_handle<M>::type VH;
#if KIND==5
typedef vg::vertex_tag FT;
#else
typedef CT::facet_tag FT;
#endif

static VVI cells()
{
#if KIND==3
  return tup("0,1,2,3;1,2,3,4;5,3,2,4");
#elif KIND==4
  return tup("0,1,2,3;1,4,3,5;5,4,6,7");
#elif KIND==5
  return tup("0,1;1,2;3,1");
#else
  return tup("0,1,2;3,2,1;3,4,2");
#endif
}
static int nverts(VVI const & c) { int n = 1; for (size_t i = 0; i < c.size(); ++i) for (size_t k = 0; k < c[i].size(); ++k) n = std::max(n, c[i][k] + 1); return n; }
static void build(M & m, VVI const & c, int nv)
{
  std::vector<VH> v; for (int i = 0; i < nv; ++i) v.push_back(vg::make_vertex(m, mkpoint<M>(i * 1.25, i * i, i % 3)));
  for (size_t i = 0; i < c.size(); ++i) { std::vector<VH> h; for (size_t k = 0; k < c[i].size(); ++k) h.push_back(v[c[i][k]]); vg::make_element<CT>(m, h.begin(), h.end()); }
}

static int DEPTH;
typedef std::vector<const void*> Addr;
// all walks from position p
template<class It> void dfs(std::vector<It> const & at, Addr const & want, It it, int p, int depth, std::string const & path)
{
  int n = (int)want.size();
  MCHECK((it == at[n]) == (p == n) && (it != at[n]) == (p != n) && (it == at[p]), "walk-compare", path);
  if (p < n) { const It c(it); MCHECK((const void*)&*it == want[p] && (const void*)&*c == want[p], "walk-element", path); }
  if (!depth) return;
  for (int op = 0; op < 4; ++op)
  {
    int q = op < 2 ? p + 1 : p - 1; if (q < 0 || q > n) continue;
    static const char * NM[] = { "+", "p", "-", "m" }; std::string np = path + NM[op]; mc::transition();
    It x(it);
    int ret = op == 0 || op == 2 ? q : p;
    switch (op)
    {
      case 0: { It & r = ++x; MCHECK(&r == &x, "walk-preinc-reference", np); break; }
      case 1: { It r = x++; MCHECK(r == at[ret], "walk-postinc", np); if (ret < n) MCHECK((const void*)&*r == want[ret], "walk-postinc-element", np); break; }
      case 2: { It & r = --x; MCHECK(&r == &x, "walk-predec-reference", np); break; }
      case 3: { It r = x--; MCHECK(r == at[ret], "walk-postdec", np); if (ret < n) MCHECK((const void*)&*r == want[ret], "walk-postdec-element", np); break; }
    }
    It y(it); y = x; dfs(at, want, y, q, depth - 1, np);
  }
}
template<class R> struct Uses { typedef typename R::iterator It; };
// expected elements by id; order as the first forward pass finds it, which has to contain every expected id exactly once
template<class H, class R> void range(H & host, R & r, std::multiset<int> const & ids, std::map<int,const void*> const & stored, std::string const & what)
{
  typedef typename vg::result_of::iterator<R>::type It;
  std::string id = what; 
  std::vector<It> at; Addr want; std::multiset<int> have; VI order;
  for (It i = r.begin(); i != r.end(); ++i) { at.push_back(i); want.push_back(&*i); have.insert((int)(*i).id().get()); order.push_back((int)(*i).id().get()); if (at.size() > ids.size() + 5) break; }
  if (!MCHECK(have == ids, "range-elements", what + " have " + show(order) + " want " + mc::seq(ids))) return;
  at.push_back(r.end()); int n = (int)want.size();
  MCHECK((int)r.size() == n && r.empty() == (n == 0), "range-size", what);
  for (int i = 0; i < n; ++i)
  {
    MCHECK(stored.find(order[i])->second == want[i], "range-identity", what + " #" + mc::str(i));
    MCHECK((const void*)&r[i] == want[i], "range-index", what + " #" + mc::str(i));
    MCHECK((const void*)&vg::dereference_handle(host, at[i].handle()) == want[i], "range-handle", what + " #" + mc::str(i));
    MCHECK((const void*)&vg::dereference_handle(host, r.handle_at(i)) == want[i], "range-handle-at", what + " #" + mc::str(i));
    It a = r.begin(); std::advance(a, i); MCHECK(a == at[i], "range-advance", what);
    It b = r.end(); for (int k = n; k > i; --k) --b; MCHECK(b == at[i] && (const void*)&*b == want[i], "range-backwards", what);
  }
  for (int i = 0; i <= n; ++i) dfs(at, want, at[i], i, DEPTH, what + "@" + mc::str(i) + ":");
}
// first and last element; the reverse walk where the range has one
template<class R> void ends(R & r, std::string const & what)
{
  typedef typename vg::result_of::iterator<R>::type It; if (r.begin() == r.end()) return; const void * first = &*r.begin(), * last = 0; for (It i = r.begin(); i != r.end(); ++i) last = &*i;
  R const & c = r; MCHECK((const void*)&r.front() == first && (const void*)&c.front() == first, "range-front", what); MCHECK((const void*)&r.back() == last && (const void*)&c.back() == last, "range-back", what);
}
template<class Tag> void reversed(M & m, std::string const & what)
{
  typedef typename vg::result_of::element_range<M,Tag>::type R; typedef typename vg::result_of::const_element_range<M,Tag>::type CR; typedef typename vg::result_of::iterator<R>::type It; R r(m); M const & cm = m; CR cr(cm); ends(r, what); ends(cr, "const " + what);
  Addr f, b, d; for (It i = r.begin(); i != r.end(); ++i) f.push_back(&*i);
  for (typename R::reverse_iterator i = r.rbegin(); i != r.rend(); ++i) b.push_back(&*i); for (typename CR::const_reverse_iterator i = cr.rbegin(); i != cr.rend(); ++i) d.push_back(&*i);
  std::reverse(b.begin(), b.end()); std::reverse(d.begin(), d.end()); MCHECK(f == b && f == d, "range-reverse", what);
}
template<class R> void find_ids(R & r, std::multiset<int> const & ids, std::map<int,const void*> const & stored, std::string const & what)
{
  typedef typename R::value_type V; typedef typename vg::result_of::id<V>::type ID; typedef typename vg::result_of::iterator<R>::type It;
  for (std::map<int,const void*>::const_iterator i = stored.begin(); i != stored.end(); ++i)
  { It f = r.find(((V const *)i->second)->id()); MCHECK((f != r.end()) == (ids.count(i->first) > 0) && (!ids.count(i->first) || (const void*)&*f == i->second), "range-find-id", what + " id " + mc::str(i->first)); }
  ID none; none = typename vg::result_of::id<V>::type(1000); MCHECK(r.find(none) == r.end(), "range-find-missing", what);
}
template<class Tag> std::map<int,const void*> stored(M & m)
{ typedef typename vg::result_of::element_range<M,Tag>::type R; typedef typename vg::result_of::iterator<R>::type I; R r(m); std::map<int,const void*> o; for (I i = r.begin(); i != r.end(); ++i) o[(int)(*i).id().get()] = &*i; return o; }
template<class T> std::multiset<int> keys(std::map<int,T> const & m) { std::multiset<int> s; for (typename std::map<int,T>::const_iterator i = m.begin(); i != m.end(); ++i) s.insert(i->first); return s; }

template<class Tag, class H> void both(H & h, std::multiset<int> const & ids, std::map<int,const void*> const & st, std::string const & what, bool withfind)
{
  typedef typename vg::result_of::element_range<H,Tag>::type R; typedef typename vg::result_of::const_element_range<H,Tag>::type CR;
  R r(h); range(h, r, ids, st, what); H const & ch = h; CR cr(ch); range(ch, cr, ids, st, "const " + what);
  CR conv(h); range(ch, conv, ids, st, "const-from-nonconst " + what);
  if (withfind) { find_ids(r, ids, st, what); find_ids(cr, ids, st, "const " + what); }
}
// the boundary elements of an element, dereferenced in the mesh
template<class Tag, class E> void of_element(M & m, E & e, std::multiset<int> const & ids, std::map<int,const void*> const & st, std::string const & what)
{
  { typedef typename vg::result_of::element_range<E,Tag>::type R; R r(e); range(m, r, ids, st, what); ends(r, what); }
  { typedef typename vg::result_of::const_element_range<E,Tag>::type R; E const & c = e; R r(c); M const & cm = m; range(cm, r, ids, st, "const " + what); ends(r, "const " + what); }
}
template<class R> void plain_walk(R & r, std::multiset<int> const & ids, std::map<int,const void*> const & st, std::string const & what)
{
  typedef typename vg::result_of::iterator<R>::type It; std::vector<It> at; Addr want; std::multiset<int> have;
  for (It i = r.begin(); i != r.end(); ++i) { at.push_back(i); want.push_back(&*i); int id = (int)(*i).id().get(); have.insert(id); MCHECK(st.find(id)->second == want.back(), "range-identity", what); if (at.size() > ids.size() + 5) break; }
  if (!MCHECK(have == ids, "range-elements", what)) return;
  at.push_back(r.end()); MCHECK(r.size() == want.size() && r.empty() == want.empty(), "range-size", what);
  ends(r, what);
  for (size_t i = 0; i < want.size(); ++i) MCHECK((const void*)&r[i] == want[i], "range-index", what);
  for (size_t i = 0; i < at.size(); ++i) dfs(at, want, at[i], (int)i, DEPTH, what + "@" + mc::str(i) + ":");
}
static std::multiset<int> ms(VI const & v) { return std::multiset<int>(v.begin(), v.end()); }

// the ranges of one part of the interface; masks: contents of the segments
static void walk_part(M & m, VVI const & c, int part, VI const & masks)
{
    std::map<int,const void*> sv = stored<vg::vertex_tag>(m), sc = stored<CT>(m), sf = stored<FT>(m);
    if (part == 0 || part == 5) { both<vg::vertex_tag>(m, keys(sv), sv, "vertices(mesh)", true); both<CT>(m, keys(sc), sc, "cells(mesh)", true); reversed<vg::vertex_tag>(m, "vertices(mesh)"); reversed<CT>(m, "cells(mesh)"); }
    if (part == 1 || part == 5) both<FT>(m, keys(sf), sf, "facets(mesh)", true);
    if (part == 2)
    {
      typedef vg::result_of::cell_range<M>::type R; typedef vg::result_of::iterator<R>::type I; R r(m); int k = 0;
      for (I i = r.begin(); i != r.end(); ++i, ++k)
      {
        of_element<vg::vertex_tag>(m, *i, ms(c[k]), sv, "vertices(cell)");
#if KIND!=5
        std::multiset<int> f; VVI idx = SH::facets();
        for (std::map<int,const void*>::iterator s = sf.begin(); s != sf.end(); ++s) for (size_t q = 0; q < idx.size(); ++q) if (svids(*(vg::result_of::element<M,FT>::type const *)s->second) == sorted(pick(c[k], idx[q]))) f.insert(s->first);
        of_element<FT>(m, *i, f, sf, "facets(cell)");
#endif
      }
    }
#if KIND!=2
    if (part == 3)                                         // co-boundary and neighbour ranges
    {
      typedef vg::result_of::vertex_range<M>::type R; typedef vg::result_of::iterator<R>::type I; R r(m);
      for (I i = r.begin(); i != r.end(); ++i)
      {
        std::multiset<int> w; for (size_t k = 0; k < c.size(); ++k) if (std::count(c[k].begin(), c[k].end(), (int)(*i).id().get())) w.insert((int)k);
        typedef vg::result_of::coboundary_range<M,vg::vertex_tag,CT>::type CR; CR cr(m, i.handle()); plain_walk(cr, w, sc, "cells(vertex)");
        typedef vg::result_of::const_coboundary_range<M,vg::vertex_tag,CT>::type CCR; CCR ccr((M const &)m, i.handle()); plain_walk(ccr, w, sc, "const cells(vertex)");
      }
      typedef vg::result_of::cell_range<M>::type R2; typedef vg::result_of::iterator<R2>::type I2; R2 r2(m); int k = 0;
      for (I2 i = r2.begin(); i != r2.end(); ++i, ++k)
      {
        std::multiset<int> w; for (int q = 0; q < (int)c.size(); ++q) if (q != k) for (size_t z = 0; z < c[q].size(); ++z) if (std::count(c[k].begin(), c[k].end(), c[q][z])) { w.insert(q); break; }
        typedef vg::result_of::neighbor_range<M,CT,vg::vertex_tag>::type NR; NR nr(m, i.handle()); plain_walk(nr, w, sc, "neighbours(cell)");
      }
    }
    if (part == 4)                                         // segments
    {
      typedef vg::result_of::segmentation<M>::type SG; typedef vg::result_of::segment_handle<SG>::type SEG; SG sg(m);
      for (size_t am = 0; am < masks.size(); ++am)
      {
        int as = masks[am]; SEG s = sg.make_segment(); std::multiset<int> wc, wv; typedef vg::result_of::cell_range<M>::type R; R r(m);
        for (size_t k = 0; k < c.size(); ++k) if (as >> k & 1) { vg::add(s, r[k]); wc.insert((int)k); }
        SI vs; for (size_t k = 0; k < c.size(); ++k) if (as >> k & 1) vs.insert(c[k].begin(), c[k].end()); wv.insert(vs.begin(), vs.end());
        both<vg::vertex_tag>(s, wv, sv, "vertices(segment)", true); both<CT>(s, wc, sc, "cells(segment)", true);
        std::multiset<int> wf; VVI idx = SH::facets(); for (std::map<int,const void*>::iterator f = sf.begin(); f != sf.end(); ++f) { bool in = false; for (size_t k = 0; k < c.size(); ++k) if (as >> k & 1) for (size_t q = 0; q < idx.size(); ++q) in |= svids(*(vg::result_of::element<M,FT>::type const *)f->second) == sorted(pick(c[k], idx[q])); if (in) wf.insert(f->first); }
        both<FT>(s, wf, sf, "facets(segment)", false);
      }
    }
#endif
}
static void walks()
{
  DEPTH = mc::S().thorough ? 7 : 5;
  mc::begin_group("walks"); VVI all = cells();
  for (int sub = 0; sub < 8; ++sub) for (int part = 0; part < 6; ++part)
  {
    if (part == 5 && sub) continue;
    if (!mc::begin_case()) continue;
    VVI c; for (int i = 0; i < 3; ++i) if (sub >> i & 1) c.push_back(all[i]);
    mc::trace("cells " + show(c) + " part " + mc::str(part)); M m; build(m, c, part == 5 ? 0 : nverts(all));
    mc::state(show(c) + mc::str(part));
    VI masks; for (int as = 0; as < (1 << c.size()); ++as) masks.push_back(as);
    walk_part(m, c, part, masks);
    mc::outcome(mc::str(sub) + "/" + mc::str(part));
  }
}

// larger meshes in all numberings, shorter walks
static void block_walks()
{
  DEPTH = 1; mc::begin_group("blocks"); const bool T = mc::S().thorough;
  VVI sz = SH::dim == 1 ? tup("9,0,0;20,0,0") : SH::dim == 2 ? tup("2,2,0;3,3,0") : tup("2,1,1");
  std::vector<Block> bl = blocks<CT>(sz, T ? 1 : 5);
  for (size_t b = 0; b < bl.size(); ++b) for (int part = 0; part < 5; ++part)
  {
    if (!mc::begin_case()) continue;
    mc::trace(bl[b].name + " part " + mc::str(part)); mc::state(bl[b].name + mc::str(part)); M m; build(m, bl[b].cells, bl[b].nv);
    VI masks; masks.push_back(0x15555555); masks.push_back(0x0f0f0f0f); masks.push_back((1 << bl[b].cells.size()) - 1);
    walk_part(m, bl[b].cells, part, masks);
    mc::outcome(bl[b].name + mc::str(part));
  }
}

// ---- views of the elements of one kind, selected by a predicate ---------------------------
struct Chosen { SI const * s; template<class E> bool operator()(E const & e) const { return s->count((int)e.id().get()) != 0; } };
template<class Tag, class H> void element_views(M & m, H & h, VI const & have, std::map<int,const void*> const & st, std::string const & what)
{
  int n = std::min((int)have.size(), 6);
  for (int mask = 0; mask < (1 << n); ++mask)
  {
    SI sel; VI want; for (size_t i = 0; i < have.size(); ++i) if (mask >> (i % n) & 1) { sel.insert(have[i]); want.push_back(have[i]); }
    Chosen c; c.s = &sel; mc::transition(); std::multiset<int> w(want.begin(), want.end());
    { typedef typename vg::result_of::element_view<H,Tag>::type EV; EV v = vg::element_view<Tag>(h, c); range(h, v, w, st, "view of " + what); VI o; for (typename EV::iterator i = v.begin(); i != v.end(); ++i) o.push_back((int)(*i).id().get()); MCHECK(o == want, "element-view-order", what + show(o) + " want " + show(want));
      EV v2(v); EV v3 = vg::element_view<Tag>(h, c); v3 = v; if (!want.empty()) v.erase_handle(v.handle_at(0)); range(h, v2, w, st, "copied view of " + what); range(h, v3, w, st, "assigned view of " + what);
      if (!want.empty()) { std::multiset<int> w1(want.begin() + 1, want.end()); range(h, v, w1, st, "shortened view of " + what); } }
  }
}
static void element_view_cases()
{
  DEPTH = 1; mc::begin_group("element-views"); VVI all = cells();
  for (int sub = 0; sub < 8; ++sub) for (int part = 0; part < 2; ++part)
  {
    if (!mc::begin_case()) continue;
    VVI c; for (int i = 0; i < 3; ++i) if (sub >> i & 1) c.push_back(all[i]);
    mc::trace("cells " + show(c) + " part " + mc::str(part)); mc::state("ev" + show(c) + mc::str(part)); M m; build(m, c, nverts(all));
    std::map<int,const void*> sv = stored<vg::vertex_tag>(m), sc = stored<CT>(m), sf = stored<FT>(m);
    if (part == 0) { element_views<vg::vertex_tag>(m, m, all_ids<vg::vertex_tag>(m), sv, "vertices(mesh)"); element_views<CT>(m, m, all_ids<CT>(m), sc, "cells(mesh)"); element_views<FT>(m, m, all_ids<FT>(m), sf, "facets(mesh)"); }
#if KIND!=2
    else
    {
      typedef vg::result_of::segmentation<M>::type SG; typedef vg::result_of::segment_handle<SG>::type SEG; SG sg(m);
      for (int as = 0; as < (1 << c.size()); ++as)
      {
        SEG s = sg.make_segment(); typedef vg::result_of::cell_range<M>::type R; R r(m); for (size_t k = 0; k < c.size(); ++k) if (as >> k & 1) vg::add(s, r[k]);
        element_views<vg::vertex_tag>(m, s, all_ids<vg::vertex_tag>(s), sv, "vertices(segment)"); element_views<CT>(m, s, all_ids<CT>(s), sc, "cells(segment)"); element_views<FT>(m, s, all_ids<FT>(s), sf, "facets(segment)");
      }
    }
#endif
    mc::outcome("ev" + mc::str(sub) + "/" + mc::str(part));
  }
}

#if KIND!=2
// ---- views -----------------------------------------------------------------------------
#ifdef DEQUEVIEW
typedef vg::make_typemap<vg::default_tag, vg::std_deque_tag>::type VC;
typedef vg::result_of::mesh_view_from_typelist<M, vg::detail::result_of::key_typelist<vg::result_of::element_collection<M>::type::typemap>::type, VC>::type V;
#else
typedef vg::result_of::mesh_view<M>::type V;
#endif
template<class Tag> struct Model { VI ids; };
struct VM { VI d[3]; bool operator==(VM const & o) const { return d[0] == o.d[0] && d[1] == o.d[1] && d[2] == o.d[2]; } };
template<class Tag, class W> void add_to(M & m, W & v, int k) { typedef typename vg::result_of::element_range<W,Tag>::type R; typedef typename vg::result_of::element_range<M,Tag>::type MR; R r(v); MR mr(m); r.insert_unique_handle(mr.handle_at(k)); }
template<class Tag, class W> void del_from(M & m, W & v, int k) { typedef typename vg::result_of::element_range<W,Tag>::type R; typedef typename vg::result_of::element_range<M,Tag>::type MR; R r(v); MR mr(m); r.erase_handle(mr.handle_at(k)); }
static VI pool[3];                                   // positions (in the mesh) of the elements used, per dimension
template<class Tag> int id_at(M & m, int k) { typedef typename vg::result_of::element_range<M,Tag>::type MR; MR mr(m); return (int)mr[k].id().get(); }
static int id_of(M & m, int d, int k) { return d == 0 ? id_at<vg::vertex_tag>(m, k) : d == 1 ? id_at<FT>(m, k) : id_at<CT>(m, k); }
static void op_add(M & m, V & v, int d, int k) { if (d == 0) add_to<vg::vertex_tag>(m, v, k); else if (d == 1) add_to<FT>(m, v, k); else add_to<CT>(m, v, k); }
static void op_del(M & m, V & v, int d, int k) { if (d == 0) del_from<vg::vertex_tag>(m, v, k); else if (d == 1) del_from<FT>(m, v, k); else del_from<CT>(m, v, k); }
template<class Tag> void check_tag(V & v, VI const & want, std::map<int,const void*> const & st, const char * what)
{
  both<Tag>(v, ms(want), st, what, true);
#ifdef DEQUEVIEW
  VI have = all_ids<Tag>(v); MCHECK(have == want, "view-order", std::string(what) + show(have) + " want " + show(want));
#else
  VI have = all_ids<Tag>(v); MCHECK(have == sorted(want), "view-order", std::string(what) + show(have) + " want " + show(sorted(want)));
#endif
}
static void check_view(M & m, V & v, VM const & w, const char * what)
{
  std::map<int,const void*> sv = stored<vg::vertex_tag>(m), sc = stored<CT>(m), sf = stored<FT>(m);
  check_tag<vg::vertex_tag>(v, w.d[0], sv, what); check_tag<CT>(v, w.d[2], sc, what);
#if KIND!=5
  check_tag<FT>(v, w.d[1], sf, what);
#endif
}
static void views()
{
  DEPTH = 1; int L = mc::S().thorough ? 5 : 4;
  pool[0] = tup("0,3")[0]; pool[1] = tup("1,4")[0]; pool[2] = tup("1,0")[0];
  const int NK = 2;
  struct Op { int kind, d, k; }; std::vector<Op> ops;
  for (int d = 0; d < 3; ++d) if (KIND != 5 || d != 1) for (int kind = 0; kind < NK; ++kind) for (size_t i = 0; i < pool[d].size(); ++i) { Op o = { kind, d, pool[d][i] }; ops.push_back(o); }
  { Op o = { 2, 0, 0 }; ops.push_back(o); o.kind = 3; ops.push_back(o); o.kind = 4; ops.push_back(o); o.kind = 5; ops.push_back(o); }
  static const char * NM[] = { "insert", "erase", "copy-construct", "assign-to-used", "self-assign", "make-cell" };
  mc::begin_group("views"); VVI all = cells();
  for (int len = 0; len <= L; ++len)
  {
    std::vector<size_t> ix(len, 0);
    for (;;)
    {
      if (mc::begin_case())
      {
        M m; build(m, all, nverts(all)); std::string id; for (int i = 0; i < len; ++i) { id += std::string(NM[ops[ix[i]].kind]); if (ops[ix[i]].kind < 2) id += mc::str(ops[ix[i]].d) + "." + mc::str(ops[ix[i]].k); id += " "; } mc::trace(id);
        std::string before = snap(m).text(); int made = 0;
        V * v = new V(vg::make_view(m)); VM w; std::vector<std::pair<V*,VM> > old;
        for (int i = 0; i < len; ++i)
        {
          Op const & o = ops[ix[i]]; mc::transition();
          if (o.kind < 2)
          {
            int e = id_of(m, o.d, o.k); VI & s = w.d[o.d]; VI::iterator f = std::find(s.begin(), s.end(), e);
            if (o.kind == 0) { op_add(m, *v, o.d, o.k); if (f == s.end()) s.push_back(e); } else { op_del(m, *v, o.d, o.k); if (f != s.end()) s.erase(f); }
          }
          else if (o.kind == 2) { old.push_back(std::make_pair(v, w)); v = new V(*v); }
          else if (o.kind == 3) { V * n = new V(vg::make_view(m)); op_add(m, *n, 2, 2); op_add(m, *n, 0, 1); *n = *v; old.push_back(std::make_pair(v, w)); v = n; }
          else if (o.kind == 4) { V & a = *v; a = *v; }
          else
          {
            if (made) continue;                         // a cell created through the view exists in the mesh and in the view
#if KIND==3
            VI t = tup("0,1,2,5")[0];
#elif KIND==4
            VI t = tup("0,1,6,7")[0];
#elif KIND==5
            VI t = tup("2,3")[0];
#else
            VI t = tup("0,4,1")[0];
#endif
            std::vector<VH> h; typedef vg::result_of::vertex_range<M>::type R; R r(m); for (size_t k = 0; k < t.size(); ++k) h.push_back(r.handle_at(t[k]));
            vg::result_of::cell_handle<M>::type c = vg::make_element<CT>(*v, h.begin(), h.end()); ++made;
            MCHECK(vids(vg::dereference_handle(m, c)) == t, "view-made-cell", ""); w.d[2].push_back((int)vg::dereference_handle(m, c).id().get());
            // its facets enter the view, too
            Snap s = snap(m); 
#if KIND!=5
            VVI idx = SH::facets(); for (size_t q = 0; q < idx.size(); ++q) { int e = s.el[SH::dim - 1][sorted(pick(t, idx[q]))]; if (!std::count(w.d[1].begin(), w.d[1].end(), e)) w.d[1].push_back(e); }
#endif
          }
        }
        check_view(m, *v, w, "view ");
        for (size_t i = 0; i < old.size(); ++i) check_view(m, *old[i].first, old[i].second, "older view ");
        if (!made) MCHECK(snap(m).text() == before, "view-changed-mesh", "");
        consistent(m);
        std::string o = show(w.d[0]) + show(w.d[1]) + show(w.d[2]) + mc::str(old.size()) + mc::str(made); mc::state(o); mc::outcome(o);
        delete v; for (size_t i = 0; i < old.size(); ++i) delete old[i].first;
      }
      int d = len - 1; while (d >= 0 && ++ix[d] == ops.size()) ix[d--] = 0;
      if (d < 0) break;
    }
  }
}
#else
static void views() {}
#endif
int main(int argc, char ** argv) { mc::init(argc, argv); walks(); block_walks(); element_view_cases(); views(); return mc::finish(); }
