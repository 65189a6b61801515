// Exhaustive exploration of modification/query histories of a mesh with a
// segmentation and a view.
//   PROP=4 co-boundary, 5 neighbours, 6 boundary, 7 interface, 10 membership
// The model keeps plain sets of vertex tuples per dimension for the mesh, each
// segment and the view.
#ifndef PROP
#define PROP 4
#endif
#ifndef KIND
#define KIND 1
#endif
#include "vg.hpp"
#include "viennagrid/algorithm/interface.hpp"
#include "viennagrid/mesh/element_deletion.hpp"

#if KIND==0
typedef vg::line_1d_mesh M;
static VVI CELLS{{0,1},{2,1},{2,3}};
#elif KIND==1
typedef vg::triangular_2d_mesh M;
static VVI CELLS{{0,1,2},{2,1,3},{0,2,4},{3,2,4}};
#elif KIND==2
typedef vg::triangular_3d_mesh M;
static VVI CELLS{{0,1,2},{3,2,1},{4,0,2},{4,3,2}};
#elif KIND==3
typedef vg::quadrilateral_2d_mesh M;
static VVI CELLS{{0,1,3,4},{1,2,4,5},{4,3,7,6}};
#elif KIND==4
typedef vg::tetrahedral_3d_mesh M;
static VVI CELLS{{0,1,2,3},{3,2,1,4},{5,0,2,1}};
#elif KIND==5
typedef vg::hexahedral_3d_mesh M;
static VVI CELLS{{0,1,2,3,4,5,6,7},{4,5,6,7,8,9,10,11},{1,12,3,13,5,14,7,15}};
#endif
#ifndef NSEG
#define NSEG 2
#endif
#ifdef CELLONLY
typedef vg::result_of::cell_only_segmentation<M>::type SG;
#else
typedef vg::result_of::segmentation<M>::type SG;
#endif
typedef vg::result_of::segment_handle<SG>::type SEG;
typedef vg::result_of::mesh_view<M>::type VIEW;
typedef vg::result_of::cell_tag<M>::type CT;
typedef Shape<CT> SH;
typedef vg::result_of::vertex_handle<M>::type VH;
typedef vg::result_of::cell_handle<M>::type CH;
static const int D = SH::dim;

template<int d> struct TagOf;
template<> struct TagOf<0> { typedef vg::vertex_tag type; };
template<> struct TagOf<1> { typedef vg::line_tag type; };
template<> struct TagOf<2> { typedef std::conditional<D==2, CT, CT::facet_tag>::type type; };
template<> struct TagOf<3> { typedef CT type; };

struct Part
{
  std::set<VI> el[4];
  bool operator==(Part const & o) const { for (int i = 0; i < 4; ++i) if (el[i] != o.el[i]) return false; return true; }
  std::string text() const { std::string s; for (int i = 1; i < 4; ++i) s += show(el[i]) + "/"; return s; }
};
static VVI subs(VI const & cell, int d)
{
  VVI r;
  if (d == D) r.push_back(sorted(cell));
  else if (d == 0) for (size_t i = 0; i < cell.size(); ++i) r.push_back(VI(1, cell[i]));
  else if (d == D-1) { VVI f = SH::facets(); for (size_t i = 0; i < f.size(); ++i) r.push_back(sorted(pick(cell, f[i]))); }
  else { VVI f = SH::edges(); for (size_t i = 0; i < f.size(); ++i) r.push_back(sorted(pick(cell, f[i]))); }
  return r;
}
static bool subset(VI const & a, VI const & b) { return std::includes(b.begin(), b.end(), a.begin(), a.end()); }

struct Model
{
  Part mesh, seg[NSEG], view;
  std::vector<int> have; // cells in the mesh
  Model() : have(CELLS.size(), 0) {}
  static void addto(Part & p, VI const & c, bool cellonly = false) { for (int d = cellonly ? D : 0; d <= D; ++d) { VVI s = subs(c, d); p.el[d].insert(s.begin(), s.end()); } }
  static void erasefrom(Part & p, VI const & t, int d)
  {
    for (int j = d; j <= D; ++j)
      for (std::set<VI>::iterator i = p.el[j].begin(); i != p.el[j].end();) { if (subset(t, *i)) p.el[j].erase(i++); else ++i; }
  }
  std::string text() const { std::string s = mesh.text() + "V" + view.text(); for (int i = 0; i < NSEG; ++i) s += "S" + seg[i].text(); return s; }
};
struct Op { char k; int s; int c; VI t; };
static std::string showop(Op const & o) { std::ostringstream x; x << o.k; if (o.s >= 0) x << o.s; if (o.c >= 0) x << "c" << o.c; if (!o.t.empty()) x << mc::seq(o.t); return x.str(); }
#ifdef CELLONLY
static const bool CO = true;
#else
static const bool CO = false;
#endif
static void apply_model(Model & m, Op const & o)
{
  switch (o.k)
  {
    case 'A': m.have[o.c] = 1; Model::addto(m.mesh, CELLS[o.c]); break;
    case 'S': m.have[o.c] = 1; Model::addto(m.mesh, CELLS[o.c]); Model::addto(m.seg[o.s], CELLS[o.c], CO); break;
    case '+': Model::addto(m.seg[o.s], CELLS[o.c], CO); break;
    case '-': Model::erasefrom(m.seg[o.s], sorted(CELLS[o.c]), D); break;
    case 'x': Model::erasefrom(m.seg[o.s], o.t, (int)o.c); break;
    case 'C': m.seg[o.s] = Part(); break;
    case 'v': Model::addto(m.view, CELLS[o.c]); break;
    case 'H': m.view = m.mesh; break;
  }
}
static std::vector<Op> enabled(Model const & m, int ncells, bool withx, bool withv)
{
  std::vector<Op> r;
  for (int c = 0; c < ncells; ++c)
  {
    if (!m.have[c]) { r.push_back(Op{'A',-1,c,VI()}); for (int s = 0; s < NSEG; ++s) r.push_back(Op{'S',s,c,VI()}); }
    else
    {
      VI t = sorted(CELLS[c]);
      for (int s = 0; s < NSEG; ++s)
      {
        r.push_back(Op{'+',s,c,VI()});
        if (!CO && m.seg[s].el[D].count(t)) r.push_back(Op{'-',s,c,VI()});
      }
      if (withv && !m.view.el[D].count(t)) r.push_back(Op{'v',-1,c,VI()});
    }
  }
  for (int s = 0; s < NSEG; ++s) if (!m.seg[s].el[D].empty()) r.push_back(Op{'C',s,-1,VI()});
  if (withv && !m.mesh.el[D].empty() && !(m.view == m.mesh)) r.push_back(Op{'H',-1,-1,VI()});
  if (withx && !CO)
    for (int s = 0; s < NSEG; ++s) for (int d = 0; d < D; ++d)
      for (std::set<VI>::const_iterator i = m.seg[s].el[d].begin(); i != m.seg[s].el[d].end(); ++i)
        r.push_back(Op{'x',s,d,*i});
  return r;
}

// ---- the implementation under exploration ---------------------------------
struct World
{
  M mesh; SG sg; VIEW view; std::vector<VH> v; std::vector<CH> ch; std::vector<SEG*> seg;
  World() : sg(mesh), ch(CELLS.size())
  {
    view = vg::make_view(mesh);
    int n = 0; for (size_t i = 0; i < CELLS.size(); ++i) for (size_t j = 0; j < CELLS[i].size(); ++j) n = std::max(n, CELLS[i][j] + 1);
    for (int i = 0; i < n; ++i) v.push_back(vg::make_vertex(mesh, mkpoint<M>(i, (i*i)%5, (i*3)%7)));
    for (int i = 0; i < NSEG; ++i) seg.push_back(&sg.make_segment());
  }
};
template<int d> struct FindTuple
{
  static void erase(World & w, int dim, int s, VI const & t)
  {
    if (dim != d) { FindTuple<d+1>::erase(w, dim, s, t); return; }
    typedef typename TagOf<d>::type Tag; typedef typename vg::result_of::element_range<M,Tag>::type R; typedef typename vg::result_of::iterator<R>::type I;
    R r(w.mesh); for (I i = r.begin(); i != r.end(); ++i) if (svids(*i) == t) { vg::erase(*w.seg[s], *i); return; }
  }
};
template<> struct FindTuple<D+1> { static void erase(World &, int, int, VI const &) {} };

template<int d, class Host> struct AddSubs { static void go(VIEW & v, Host & c)
  { typedef typename TagOf<d>::type Tag; typedef typename vg::result_of::element_range<Host,Tag>::type R; typedef typename vg::result_of::iterator<R>::type I;
    R r(c); for (I i = r.begin(); i != r.end(); ++i) vg::add_single_handle(v, i.handle()); AddSubs<d+1,Host>::go(v,c); } };
template<class Host> struct AddSubs<D,Host> { static void go(VIEW &, Host &) {} };

static void apply(World & w, Op const & o)
{
  mc::transition();
  std::vector<VH> h; if (o.k != 'x' && o.c >= 0) for (size_t i = 0; i < CELLS[o.c].size(); ++i) h.push_back(w.v[CELLS[o.c][i]]);
  switch (o.k)
  {
    case 'A': w.ch[o.c] = vg::make_cell(w.mesh, h.begin(), h.end()); break;
    case 'S': w.ch[o.c] = vg::make_cell(*w.seg[o.s], h.begin(), h.end()); break;
    case '+': if (o.c % 2) vg::add(*w.seg[o.s], w.ch[o.c]); else vg::add(*w.seg[o.s], vg::dereference_handle(w.mesh, w.ch[o.c])); break;
    case 'C': vg::clear(*w.seg[o.s]); break;
#ifndef CELLONLY
    case '-': vg::erase(*w.seg[o.s], vg::dereference_handle(w.mesh, w.ch[o.c])); break;
#endif
    case 'v': { vg::result_of::cell<M>::type & c = vg::dereference_handle(w.mesh, w.ch[o.c]); AddSubs<0, vg::result_of::cell<M>::type>::go(w.view, c); vg::add_single_handle(w.view, w.ch[o.c]); break; }
    case 'H': vg::handle_mesh(w.mesh, w.view); break;
#ifndef CELLONLY
    case 'x': FindTuple<0>::erase(w, o.c, o.s, o.t); break;
#endif
  }
}

// how the answers are asked for: 0 everything in ascending dimension, 1 descending,
// 2 only dimension 0, 3 only facets; for interfaces also restricts the argument order;
// for co-boundaries and neighbours: which of the four ways of asking comes first
static int MODE = 0;
static bool asks(int d) { return MODE == 2 ? d == 0 : MODE == 3 ? d == D-1 : true; }
static std::string brief(VVI v) { std::sort(v.begin(), v.end()); return show(v); }
template<class R> VVI tuples(R const & r)
{ VVI o; typedef typename R::const_iterator I; for (I i = r.begin(); i != r.end(); ++i) o.push_back(svids(*i)); return o; }
template<class R> VVI mtuples(R & r)
{ VVI o; typedef typename R::iterator I; for (I i = r.begin(); i != r.end(); ++i) o.push_back(svids(*i)); return o; }
static bool same(VVI got, VVI want) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); return got == want; }

// ---- P04 / P05 -------------------------------------------------------------
template<class P, int i, int j> struct Pairs
{
  static void go(World & w, P & p, Part const & m, const char * nm)
  {
    typedef typename TagOf<i>::type TL; typedef typename TagOf<j>::type TH;
    typedef typename vg::result_of::element_range<P,TL>::type R; typedef typename vg::result_of::iterator<R>::type I;
    P const & cp = p;
    if (PROP == 4)
    {
      R r(p);
      for (I it = r.begin(); it != r.end(); ++it)
      {
        VI a = svids(*it); VVI want;
        for (std::set<VI>::const_iterator b = m.el[j].begin(); b != m.el[j].end(); ++b) if (subset(a, *b)) want.push_back(*b);
        typedef typename vg::result_of::coboundary_range<P,TL,TH>::type CR;
        typedef typename vg::result_of::const_coboundary_range<P,TL,TH>::type CCR;
        typename vg::result_of::element<M,TL>::type const & ce = *it; typename vg::result_of::const_handle<M,TL>::type chnd = vg::handle((M const &)w.mesh, ce);
        for (int q = 0; q < 4; ++q) { VVI g; size_t n = 0; const int way = (q + MODE) % 4;
          if (way == 0) { CR c(p, it.handle()); g = mtuples(c); n = c.size(); }
          else if (way == 1) { CR c = vg::coboundary_elements<TL,TH>(p, it.handle()); g = mtuples(c); n = c.size(); }
          else if (way == 2) { CCR c(cp, chnd); g = tuples(c); n = c.size(); }
          else { CCR c = vg::coboundary_elements<TL,TH>(cp, chnd); g = tuples(c); n = c.size(); }
          MCHECK(same(g, want), way < 2 ? "coboundary" : "coboundary-const", std::string(nm) + " " + mc::str(i) + "->" + mc::str(j) + " of " + show(a) + " have " + brief(g) + " want " + brief(want));
          MCHECK(n == want.size(), "coboundary-size", nm); }
      }
    }
    else if (PROP == 5)
    {
      typedef typename vg::result_of::element_range<P,TH>::type R2; typedef typename vg::result_of::iterator<R2>::type I2;
      R2 r(p);
      for (I2 it = r.begin(); it != r.end(); ++it)
      {
        VI b = svids(*it); std::set<VI> want;
        for (std::set<VI>::const_iterator a = m.el[i].begin(); a != m.el[i].end(); ++a) if (subset(*a, b))
          for (std::set<VI>::const_iterator c = m.el[j].begin(); c != m.el[j].end(); ++c) if (*c != b && subset(*a, *c)) want.insert(*c);
        VVI w2(want.begin(), want.end());
        typedef typename vg::result_of::neighbor_range<P,TH,TL>::type NR;
        typedef typename vg::result_of::const_neighbor_range<P,TH,TL>::type CNR;
        typename vg::result_of::element<M,TH>::type const & ce = *it; typename vg::result_of::const_handle<M,TH>::type chnd = vg::handle((M const &)w.mesh, ce);
        for (int q = 0; q < 4; ++q) { VVI g; size_t n = 0; const int way = (q + MODE) % 4;
          if (way == 0) { NR c(p, it.handle()); g = mtuples(c); n = c.size(); }
          else if (way == 1) { NR c = vg::neighbor_elements<TH,TL>(p, it.handle()); g = mtuples(c); n = c.size(); }
          else if (way == 2) { CNR c(cp, chnd); g = tuples(c); n = c.size(); }
          else { CNR c = vg::neighbor_elements<TH,TL>(cp, chnd); g = tuples(c); n = c.size(); }
          MCHECK(same(g, w2), way < 2 ? "neighbor" : "neighbor-const", std::string(nm) + " " + mc::str(j) + " via " + mc::str(i) + " of " + show(b) + " have " + brief(g) + " want " + brief(w2));
          MCHECK(n == w2.size(), "neighbor-size", nm); }
      }
    }
    Pairs<P,i,j+1>::go(w, p, m, nm);
  }
};
template<class P, int i> struct Pairs<P,i,D+1> { static void go(World & w, P & p, Part const & m, const char * nm) { Pairs<P,i+1,i+2>::go(w, p, m, nm); } };
template<class P> struct Pairs<P,D,D+1> { static void go(World &, P &, Part const &, const char *) {} };

// ---- P06 / P07 -------------------------------------------------------------
static std::set<VI> model_boundary_facets(Part const & p)
{
  std::set<VI> r; std::map<VI,int> cnt;
  for (size_t c = 0; c < CELLS.size(); ++c) if (p.el[D].count(sorted(CELLS[c]))) { VVI f = subs(CELLS[c], D-1); for (size_t i = 0; i < f.size(); ++i) ++cnt[f[i]]; }
  for (std::map<VI,int>::iterator i = cnt.begin(); i != cnt.end(); ++i) if (i->second == 1) r.insert(i->first);
  return r;
}
static bool on(VI const & a, std::set<VI> const & fs) { for (std::set<VI>::const_iterator i = fs.begin(); i != fs.end(); ++i) if (subset(a, *i)) return true; return false; }

template<class P, int i> struct Bnd
{
  static void go(World & w, P & p, std::set<VI> const & bf, const char * nm)
  {
    typedef typename TagOf<i>::type T; typedef typename vg::result_of::const_element_range<M,T>::type R; typedef typename vg::result_of::iterator<R>::type I;
    R r((M const &)w.mesh);
    if (MODE == 1) Bnd<P,i+1>::go(w, p, bf, nm);
    if (asks(i)) for (I it = r.begin(); it != r.end(); ++it)
    {
      VI a = svids(*it); bool want = on(a, bf), got = vg::is_boundary((P const &)p, *it);
      MCHECK(got == want, "is-boundary", std::string(nm) + " " + show(a) + (want ? " want boundary" : " want interior"));
    }
    if (MODE != 1) Bnd<P,i+1>::go(w, p, bf, nm);
  }
};
// boundary of a single element: exactly its own sub-elements
template<int i> struct OwnBnd
{
  static void go(World & w)
  {
    typedef typename TagOf<i>::type T; typedef typename vg::result_of::const_element_range<M,T>::type R; typedef typename vg::result_of::iterator<R>::type I;
    typedef typename vg::result_of::const_element_range<M,typename TagOf<D>::type>::type CR; typedef typename vg::result_of::iterator<CR>::type CI;
    R r((M const &)w.mesh); CR cr((M const &)w.mesh);
    for (CI c = cr.begin(); c != cr.end(); ++c) { VI cv = vids(*c); VVI f = subs(cv, i); for (I it = r.begin(); it != r.end(); ++it)
    { VI a = svids(*it); bool want = std::find(f.begin(), f.end(), a) != f.end(); MCHECK(vg::is_boundary(*c, *it) == want, "is-boundary-of-element", show(a) + " of " + show(cv)); } }
    OwnBnd<i+1>::go(w);
  }
};
template<> struct OwnBnd<D> { static void go(World &) {} };
template<class P> struct Bnd<P,D> { static void go(World &, P &, std::set<VI> const &, const char *) {} };

template<int i> struct Ifc
{
  static void go(World & w, int s, int t, std::set<VI> const & f)
  {
    typedef typename TagOf<i>::type T; typedef typename vg::result_of::const_element_range<M,T>::type R; typedef typename vg::result_of::iterator<R>::type I;
    R r((M const &)w.mesh);
    if (MODE == 1) Ifc<i+1>::go(w, s, t, f);
    if (asks(i)) for (I it = r.begin(); it != r.end(); ++it)
    {
      VI a = svids(*it); bool want = on(a, f), got = vg::is_interface((SEG const &)*w.seg[s], (SEG const &)*w.seg[t], *it);
      MCHECK(got == want, "is-interface", "segments " + mc::str(s) + "," + mc::str(t) + " " + show(a) + (want ? " want interface" : " want none"));
    }
    if (MODE != 1) Ifc<i+1>::go(w, s, t, f);
  }
};
template<> struct Ifc<D> { static void go(World &, int, int, std::set<VI> const &) {} };

// ---- P10 --------------------------------------------------------------------
template<int d> struct Mem
{
  static void go(World & w, Model const & m)
  {
    typedef typename TagOf<d>::type T;
    typedef typename vg::result_of::element_range<M,T>::type MR; typedef typename vg::result_of::iterator<MR>::type MI;
    for (int s = 0; s < NSEG; ++s) ranges(w, m, s);
    MR r(w.mesh);
    VVI mt;
    for (MI it = r.begin(); it != r.end(); ++it)
    {
      VI a = svids(*it); mt.push_back(a); SI want, got; size_t n = 0;
      for (int s = 0; s < NSEG; ++s)
      {
        bool in = m.seg[s].el[d].count(a) != 0;
        if (in) want.insert(w.seg[s]->id());
        MCHECK(vg::is_in_segment(*w.seg[s], *it) == in, "is-in-segment", show(a) + " segment " + mc::str(s));
        MCHECK(vg::is_in_segment((SEG const &)*w.seg[s], *it) == in, "is-in-segment-const", show(a) + " segment " + mc::str(s));
      }
      typedef typename vg::result_of::element<M,T>::type E;
      typedef typename vg::result_of::segment_id_range<SG,E>::type SR; typedef typename vg::result_of::iterator<SR>::type SIt;
      SR sr = vg::segment_ids(w.sg, *it);
      for (SIt si = sr.begin(); si != sr.end(); ++si, ++n) got.insert(*si);
      MCHECK(got == want && n == want.size() && sr.size() == want.size() && sr.empty() == want.empty(), "segment-ids", show(a) + " have " + show(got) + " want " + show(want));
      for (MI jt = r.begin(); jt != r.end(); ++jt)
      {
        VI b = svids(*jt); SI other; for (int s = 0; s < NSEG; ++s) if (m.seg[s].el[d].count(b)) other.insert(w.seg[s]->id());
        MCHECK((sr.is_equal(vg::segment_ids(w.sg, *jt)) != 0) == (want == other), "segment-ids-equal", show(a) + " " + show(b));
      }
    }
    MCHECK(mt.size() == m.mesh.el[d].size() || d == 0, "mesh-range", mc::str(d));
    Mem<d+1>::go(w, m);
  }
  static void ranges(World & w, Model const & m, int s)
  {
    typedef typename TagOf<d>::type T;
    VVI got = all_tuples<T>((SEG const &)*w.seg[s]);
    VVI want(m.seg[s].el[d].begin(), m.seg[s].el[d].end());
    MCHECK(same(got, want), "segment-range", "segment " + mc::str(s) + " dim " + mc::str(d) + " have " + brief(got) + " want " + brief(want));
    MCHECK(vg::elements<T>(*w.seg[s]).size() == want.size(), "segment-range-size", mc::str(d));
    if (s == 0)
    {
      std::set<VI> all; for (int t = 0; t < NSEG; ++t) all.insert(m.seg[t].el[d].begin(), m.seg[t].el[d].end());
      VVI g2 = all_tuples<T>((SG const &)w.sg), w2(all.begin(), all.end());
      MCHECK(same(g2, w2), "segmentation-range", "dim " + mc::str(d) + " have " + brief(g2) + " want " + brief(w2));
    }
  }
};
template<> struct Mem<D+1> { static void go(World &, Model const &) {} };

static int DEPTH;
static void verify(World & w, Model const & m)
{
#if PROP==4 || PROP==5
  Pairs<M,0,1>::go(w, w.mesh, m.mesh, "mesh");
#ifndef CELLONLY
  for (int s = 0; s < NSEG; ++s) Pairs<SEG,0,1>::go(w, *w.seg[s], m.seg[s], s ? "segment1" : "segment0");
#endif
  Pairs<VIEW,0,1>::go(w, w.view, m.view, "view");
#elif PROP==6
  Bnd<M,0>::go(w, w.mesh, model_boundary_facets(m.mesh), "mesh");
  for (int s = 0; s < NSEG; ++s) Bnd<SEG,0>::go(w, *w.seg[s], model_boundary_facets(m.seg[s]), s ? "segment1" : "segment0");
  Bnd<VIEW,0>::go(w, w.view, model_boundary_facets(m.view), "view");
  if (DEPTH <= 2) OwnBnd<0>::go(w);
#elif PROP==7
  for (int s = 0; s < NSEG; ++s) for (int t = 0; t < NSEG; ++t) if (s != t && !(MODE == 2 && s > t) && !(MODE == 3 && s < t))
  {
    std::set<VI> a = model_boundary_facets(m.seg[s]), b = model_boundary_facets(m.seg[t]), f;
    std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::inserter(f, f.begin()));
    Ifc<0>::go(w, s, t, f);
  }
#elif PROP==10
#ifdef CELLONLY
  Mem<D>::go(w, m);
#else
  Mem<0>::go(w, m);
#endif
#endif
}

static bool ALLMODES = false;
static void run1(std::vector<Op> const & ops, unsigned mask);
static void run(std::vector<Op> const & ops, unsigned mask)
{
  const int modes = PROP == 6 || PROP == 7 ? 4 : ALLMODES ? 4 : 1;
  for (int k = 0; k < modes; ++k) { MODE = k; run1(ops, mask); }
}
static void run1(std::vector<Op> const & ops, unsigned mask)
{
  if (!mc::begin_case()) return;
  if (MODE) mc::trace("mode" + mc::str(MODE));
  for (size_t i = 0; i < ops.size(); ++i) mc::trace(showop(ops[i]) + ((mask >> i) & 1 ? "?" : ""));
  World w; Model m;
  for (size_t i = 0; i < w.v.size(); ++i) m.mesh.el[0].insert(VI(1,(int)i));
  for (size_t i = 0; i < ops.size(); ++i)
  {
    apply(w, ops[i]); apply_model(m, ops[i]);
    mc::state(m.text());
    if ((PROP == 4 || PROP == 5) && !ALLMODES) MODE = 2 * (int)(i % 2);
    if ((mask >> i) & 1) verify(w, m);
  }
  mc::outcome(m.text());
}

// all histories of exactly DEPTH operations; masks: 0 = query after every
// operation and only at the end; 1 = every subset of query points
static void explore(std::vector<Op> & ops, Model const & m, int ncells, bool withx, bool withv, int masks)
{
  if ((int)ops.size() == DEPTH)
  {
    unsigned full = (1u << DEPTH) - 1;
    if (masks == 0) { run(ops, full); run(ops, 1u << (DEPTH-1)); }
    else for (unsigned k = 0; k < (1u << (DEPTH-1)); ++k) run(ops, k | (1u << (DEPTH-1)));
    return;
  }
  std::vector<Op> e = enabled(m, ncells, withx, withv);
  for (size_t i = 0; i < e.size(); ++i)
  {
    Model n = m; apply_model(n, e[i]); ops.push_back(e[i]);
    explore(ops, n, ncells, withx, withv, masks);
    ops.pop_back();
  }
}
static void group(const char * nm, int depth, int ncells, bool withx, bool withv, int masks)
{
  mc::begin_group(nm); DEPTH = depth; ALLMODES = (PROP == 4 || PROP == 5) && depth <= 2;
  std::vector<Op> ops; Model m; 
  explore(ops, m, ncells, withx, withv, masks);
}

// longer histories on larger meshes: every numbering of a block, every rule of assignment to the segments
static void block_histories(bool T, bool withx, bool withv)
{
  VVI keep = CELLS;
  VVI sizes = D == 1 ? tup("5,0,0;18,0,0") : D == 2 ? tup("2,2,0;4,3,0") : SH::nv == 4 ? tup("1,1,1;2,1,2") : tup("2,2,1;3,2,2");
  if (T) sizes.push_back(D == 1 ? tup("90,0,0")[0] : D == 2 ? tup("9,7,0")[0] : SH::nv == 4 ? tup("2,3,2")[0] : tup("4,3,3")[0]);
  mc::begin_group("blocks");
  for (size_t z = 0; z < sizes.size(); ++z) for (int num = 0; num < 27; ++num) for (int rule = 0; rule < 4; ++rule)
  {
    if (!T && num % 2) continue;
    if (!mc::begin_case()) continue;
    Block b = block<CT>(sizes[z][0], sizes[z][1], sizes[z][2], num % 3, num / 3 % 3, num / 9);
    CELLS = b.cells; const int n = (int)b.cells.size();
    std::vector<Op> ops; std::vector<bool> q;
    #define OP(...) (ops.push_back(Op{__VA_ARGS__}), q.push_back(false))
    #define ASK() (q.back() = true)
    for (int c = 0; c < n; ++c)
    {
      if (rule == 0) OP('S', c < n / 2 ? 0 : 1, c, VI());
      else if (rule == 1) { OP('A', -1, c, VI()); if (c % 3) OP('+', c % 2, c, VI()); }
      else if (rule == 2) { OP('S', 0, c, VI()); if (c % 2) OP('+', 1, c, VI()); }
      else { OP('A', -1, c, VI()); if (c >= n / 2) { OP('+', 0, c - n / 2, VI()); OP('+', 1, c, VI()); } }
      if (withv && c % 3 != 1) OP('v', -1, c, VI());
      if (c == n / 3) ASK();
    }
    ASK();
    OP('+', 1, 0, VI()); OP('+', 0, n - 1, VI()); ASK();
    if (!CO)
    {
      Model m; for (size_t i = 0; i < ops.size(); ++i) apply_model(m, ops[i]);
      for (int s = 0; s < 2; ++s)
      {
        for (int c = 0, left = 2; c < n && left; c += 1 + n / 7) if (m.seg[s].el[D].count(sorted(CELLS[c]))) { OP('-', s, c, VI()); apply_model(m, ops.back()); --left; }
        ASK();
        if (withx) for (int d = 0; d < D; ++d) if (!m.seg[s].el[d].empty()) { std::set<VI>::const_iterator i = m.seg[s].el[d].begin(); std::advance(i, m.seg[s].el[d].size() / 2); OP('x', s, d, *i); apply_model(m, ops.back()); ASK(); }
      }
    }
    if (withv) { OP('H', -1, -1, VI()); ASK(); }
    OP('C', 1, -1, VI()); OP('+', 1, n / 2, VI()); ASK();
    OP('+', 0, n / 2, VI()); ASK();
    #undef OP
    #undef ASK
    MODE = PROP == 6 || PROP == 7 ? rule : 2 * (rule % 2); mc::trace(b.name + " rule" + mc::str(rule));
    World w; Model m; for (size_t i = 0; i < w.v.size(); ++i) m.mesh.el[0].insert(VI(1,(int)i));
    for (size_t i = 0; i < ops.size(); ++i) { apply(w, ops[i]); apply_model(m, ops[i]); if (q[i]) { mc::state(m.text()); verify(w, m); } }
    mc::outcome(m.text());
  }
  CELLS = keep;
}

int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  const bool T = mc::S().thorough;
  const int K = (int)CELLS.size();
  const bool V = PROP == 4 || PROP == 5 || PROP == 6;
  const bool X = PROP == 6 || PROP == 7 || PROP == 10 || PROP == 4 || PROP == 5;
  int base = (NSEG == 2 ? 4 : 3) + (T ? 1 : 0);
  if (V && KIND >= 4) base = T ? 5 : 3;
  group("short", 2, K, X, V, 1);
  group("masks", T ? 4 : 3, 2, false, V, 1);
  group("deep", base, std::min(K, 3), false, V, 0);
  if (X) group("erase", T ? 4 : 3, 2, true, false, 0);
  if (K > 3) group("wide", T ? 4 : 3, K, false, V, 0);
  block_histories(T, X, V);
  return mc::finish();
}
