// Generic structural observation of a full mesh: everything that can be seen of
// it through the public interface, and its internal consistency.
#ifndef VERIF_OBS_HPP
#define VERIF_OBS_HPP
#include "vg.hpp"

template<bool b, class A, class B> struct If { typedef A type; };
template<class A, class B> struct If<false,A,B> { typedef B type; };
template<bool b> struct Bool {};

template<class M, int d> struct DimTag
{
  typedef typename vg::result_of::cell_tag<M>::type CT;
  static const int D = Shape<CT>::dim;
  typedef typename If<d == D, CT, typename If<d == 0, vg::vertex_tag, typename If<d == 1, vg::line_tag, typename CT::facet_tag>::type>::type>::type type;
};
inline bool is_subset(VI const & a, VI const & b) { return std::includes(b.begin(), b.end(), a.begin(), a.end()); }

struct Snap
{
  std::map<int, std::vector<double> > pos;       // vertex id -> coordinates
  std::map<VI,int> el[4];                        // sorted vertex-id tuple -> element id
  std::map<int,VI> cells;                        // cell id -> vertex ids in listed order
  bool operator==(Snap const & o) const { for (int i = 0; i < 4; ++i) if (el[i] != o.el[i]) return false; return pos == o.pos && cells == o.cells; }
  std::string text() const
  {
    std::ostringstream s;
    for (std::map<int,std::vector<double> >::const_iterator i = pos.begin(); i != pos.end(); ++i) s << i->first << mc::seq(i->second);
    for (int d = 1; d < 4; ++d) { s << "/"; for (std::map<VI,int>::const_iterator i = el[d].begin(); i != el[d].end(); ++i) s << i->second << mc::seq(i->first); }
    s << "/"; for (std::map<int,VI>::const_iterator i = cells.begin(); i != cells.end(); ++i) s << i->first << mc::seq(i->second);
    return s.str();
  }
  // shape without ids of sub-elements and cells
  std::string shape() const
  {
    std::ostringstream s;
    for (std::map<int,std::vector<double> >::const_iterator i = pos.begin(); i != pos.end(); ++i) s << i->first << mc::seq(i->second);
    for (int d = 1; d < 4; ++d) { s << "/"; for (std::map<VI,int>::const_iterator i = el[d].begin(); i != el[d].end(); ++i) s << mc::seq(i->first); }
    return s.str();
  }
};

inline VVI shape_subs(VVI const & idx, VI const & cell) { VVI r; for (size_t i = 0; i < idx.size(); ++i) r.push_back(pick(cell, idx[i])); return r; }

template<class M, int d> struct Observe
{
  static const int D = DimTag<M,d>::D;
  typedef typename DimTag<M,d>::type Tag;
  // boundary of elements of dimension D is the stored object, in reference numbering
  template<class Host> static void bnd(Host & h, VVI const & want, std::map<VI,const void*> * where, const char * what)
  {
    typedef typename vg::result_of::element_range<Host,Tag>::type R; typedef typename vg::result_of::iterator<R>::type I;
    R r(h); size_t k = 0;
    for (I i = r.begin(); i != r.end(); ++i, ++k)
    {
      VI t = svids(*i);
      if (!MCHECK(k < want.size() && t == sorted(want[k]), "obs-boundary-element", std::string(what) + " dim " + mc::str(d) + " #" + mc::str(k) + " have " + show(t))) continue;
      std::map<VI,const void*>::const_iterator w = where[d].find(t);
      MCHECK(w != where[d].end() && w->second == (const void*)&*i, "obs-not-stored-object", std::string(what) + " dim " + mc::str(d) + " " + show(t));
    }
    MCHECK(k == want.size(), "obs-boundary-count", std::string(what) + " dim " + mc::str(d));
  }
};

template<class M, int d, int D> struct Collect
{ static void go(M & m, Snap & s, std::map<VI,const void*> * where)
  {
    typedef typename DimTag<M,d>::type Tag;
    typedef typename vg::result_of::element_range<M,Tag>::type R; typedef typename vg::result_of::iterator<R>::type I;
    R r(m); size_t n = 0; std::set<int> ids;
    for (I i = r.begin(); i != r.end(); ++i, ++n)
    {
      VI t = svids(*i); int id = (int)(*i).id().get();
      MCHECK(s.el[d].insert(std::make_pair(t, id)).second, "obs-duplicate-element", "dim " + mc::str(d) + " " + show(t));
      MCHECK(ids.insert(id).second, "obs-duplicate-id", "dim " + mc::str(d) + " id " + mc::str(id));
      where[d][t] = &*i;
      if (d == D) s.cells[id] = vids(*i);
    }
    MCHECK(n == r.size(), "obs-range-size", mc::str(d));
    Collect<M,d+1,D>::go(m, s, where);
  } };
template<class M> struct Collect<M,2,1> { static void go(M &, Snap &, std::map<VI,const void*> *) {} };
template<class M> struct Collect<M,3,2> { static void go(M &, Snap &, std::map<VI,const void*> *) {} };
template<class M> struct Collect<M,4,3> { static void go(M &, Snap &, std::map<VI,const void*> *) {} };

template<class M> Snap snap(M & m, std::map<VI,const void*> * where)
{
  typedef typename DimTag<M,0>::CT CT; const int D = Shape<CT>::dim;
  Snap s;
  Collect<M,0,D>::go(m, s, where);
  typedef typename vg::result_of::vertex_range<M>::type R; typedef typename vg::result_of::iterator<R>::type I;
  R r(m);
  for (I i = r.begin(); i != r.end(); ++i)
  { std::vector<double> p; for (int k = 0; k < (int)vg::result_of::geometric_dimension<M>::value; ++k) p.push_back(vg::point(m, *i)[k]); s.pos[(int)(*i).id().get()] = p; }
  return s;
}
template<class M> Snap snap(M & m) { std::map<VI,const void*> w[4]; return snap(m, w); }

template<int D> struct CellBnd;
template<> struct CellBnd<1> { template<class M, class C> static void go(M &, C & c, VI const & v, std::map<VI,const void*> * w)
  { VVI s; for (size_t i = 0; i < v.size(); ++i) s.push_back(VI(1,v[i])); Observe<M,0>::bnd(c, s, w, "cell"); } };
template<> struct CellBnd<2> { template<class M, class C> static void go(M & m, C & c, VI const & v, std::map<VI,const void*> * w)
  { CellBnd<1>::go(m, c, v, w); Observe<M,1>::bnd(c, shape_subs(Shape<typename DimTag<M,0>::CT>::edges(), v), w, "cell"); } };
template<> struct CellBnd<3> { template<class M, class C> static void go(M & m, C & c, VI const & v, std::map<VI,const void*> * w)
  { CellBnd<2>::go(m, c, v, w); Observe<M,2>::bnd(c, shape_subs(Shape<typename DimTag<M,0>::CT>::facets(), v), w, "cell"); } };
template<int D> struct FacetBnd { template<class M> static void go(M & m, std::map<VI,const void*> * w)
  { typedef typename vg::result_of::facet_range<M>::type R; typedef typename vg::result_of::iterator<R>::type I; R r(m);
    for (I i = r.begin(); i != r.end(); ++i) CellBndLow<M>(*i, w); }
  template<class M, class F> static void CellBndLow(F & f, std::map<VI,const void*> * w)
  { VI v = vids(f); VVI s; for (size_t i = 0; i < v.size(); ++i) s.push_back(VI(1,v[i])); Observe<M,0>::bnd(f, s, w, "facet");
    if (D == 3) low<M>(f, v, w, Bool<D == 3>()); }
  template<class M, class F> static void low(F & f, VI const & v, std::map<VI,const void*> * w, Bool<true>)
  { Observe<M,1>::bnd(f, shape_subs(v.size() == 3 ? Shape<vg::triangle_tag>::edges() : Shape<vg::quadrilateral_tag>::edges(), v), w, "facet"); }
  template<class M, class F> static void low(F &, VI const &, std::map<VI,const void*> *, Bool<false>) {} };
template<> struct FacetBnd<1> { template<class M> static void go(M &, std::map<VI,const void*> *) {} };

// co-boundary for every pair of dimensions
template<class M, int i, int j, int D> struct CobAll
{ static void go(M & m, Snap const & s)
  {
    typedef typename DimTag<M,i>::type TL; typedef typename DimTag<M,j>::type TH;
    typedef typename vg::result_of::element_range<M,TL>::type R; typedef typename vg::result_of::iterator<R>::type I;
    R r(m);
    for (I it = r.begin(); it != r.end(); ++it)
    {
      VI a = svids(*it); VVI want, got;
      for (std::map<VI,int>::const_iterator b = s.el[j].begin(); b != s.el[j].end(); ++b) if (is_subset(a, b->first)) want.push_back(b->first);
      typedef typename vg::result_of::coboundary_range<M,TL,TH>::type CR; typedef typename vg::result_of::iterator<CR>::type CI;
      CR cr(m, it.handle());
      for (CI c = cr.begin(); c != cr.end(); ++c) got.push_back(svids(*c));
      std::sort(got.begin(), got.end());
      MCHECK(got == want, "obs-coboundary", mc::str(i) + "->" + mc::str(j) + " of " + show(a) + " have " + show(got) + " want " + show(want));
    }
    CobAll<M,i,j+1,D>::go(m, s);
  } };
template<class M, int i, int D> struct CobRow { static void go(M & m, Snap const & s) { CobAll<M,i,i+1,D>::go(m, s); } };
template<class M, int D> struct CobRow<M,D,D> { static void go(M &, Snap const &) {} };
template<class M, int i> struct CobAll<M,i,2,1> { static void go(M & m, Snap const & s) { CobRow<M,i+1,1>::go(m, s); } };
template<class M, int i> struct CobAll<M,i,3,2> { static void go(M & m, Snap const & s) { CobRow<M,i+1,2>::go(m, s); } };
template<class M, int i> struct CobAll<M,i,4,3> { static void go(M & m, Snap const & s) { CobRow<M,i+1,3>::go(m, s); } };

template<class M, int i, int D> struct BndAll
{ static void go(M & m, std::set<VI> const & bf)
  {
    typedef typename DimTag<M,i>::type T; typedef typename vg::result_of::element_range<M,T>::type R; typedef typename vg::result_of::iterator<R>::type I;
    R r(m);
    for (I it = r.begin(); it != r.end(); ++it)
    {
      VI a = svids(*it); bool want = false; for (std::set<VI>::const_iterator f = bf.begin(); f != bf.end(); ++f) want |= is_subset(a, *f);
      MCHECK(vg::is_boundary((M const &)m, *it) == want, "obs-is-boundary", show(a));
    }
    BndAll<M,i+1,D>::go(m, bf);
  } };
template<class M, int D> struct BndAll<M,D,D> { static void go(M &, std::set<VI> const &) {} };

// everything a mesh answers must be consistent with the cells and sub-elements it lists
template<class M> Snap consistent(M & m, bool cob = true, bool bnd = true)
{
  typedef typename DimTag<M,0>::CT CT; const int D = Shape<CT>::dim;
  std::map<VI,const void*> where[4];
  Snap s = snap(m, where);
  typedef typename vg::result_of::cell_range<M>::type R; typedef typename vg::result_of::iterator<R>::type I;
  R r(m); std::map<VI,int> cnt;
  for (I i = r.begin(); i != r.end(); ++i)
  {
    VI v = vids(*i);
    CellBnd<D>::go(m, *i, v, where);
    VVI f = shape_subs(Shape<CT>::facets(), v); for (size_t k = 0; k < f.size(); ++k) ++cnt[sorted(f[k])];
  }
  FacetBnd<D>::template go<M>(m, where);
  if (cob) CobRow<M,0,D>::go(m, s);
  if (bnd)
  {
    std::set<VI> bf; bool manifold = true;
    for (std::map<VI,int>::iterator i = cnt.begin(); i != cnt.end(); ++i) { if (i->second == 1) bf.insert(i->first); manifold &= i->second <= 2; }
    if (manifold) BndAll<M,0,D>::go(m, bf);
  }
  return s;
}
#endif
