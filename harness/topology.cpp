// P01 (PROP=1): cells, facets and edges of a mesh form exactly the complex the
//               inserted cells describe, each sub-element stored once and shared.
// P02 (PROP=2): local orientation of shared sub-elements.
#ifndef PROP
#define PROP 1
#endif
#ifndef KIND
#define KIND 1
#endif
#include "vg.hpp"

namespace cfg {
  template<class Tag, class P, class H> struct wrap { typedef typename vg::config::result_of::full_mesh_config<Tag, P, H>::type type; };
}
using vg::config::point_type_1d; using vg::config::point_type_2d; using vg::config::point_type_3d;
#if KIND==0
typedef vg::line_1d_mesh M;
#elif KIND==1
typedef vg::triangular_2d_mesh M;
#elif KIND==2
typedef vg::triangular_3d_mesh M;
#elif KIND==3
typedef vg::quadrilateral_2d_mesh M;
#elif KIND==4
typedef vg::tetrahedral_3d_mesh M;
#elif KIND==5
typedef vg::hexahedral_3d_mesh M;
#elif KIND==6
typedef vg::mesh<cfg::wrap<vg::triangle_tag, point_type_2d, vg::id_handle_tag> > M;
#elif KIND==7
typedef vg::mesh<cfg::wrap<vg::tetrahedron_tag, point_type_3d, vg::id_handle_tag> > M;
#elif KIND==8
typedef vg::mesh<cfg::wrap<vg::triangle_tag, point_type_2d, vg::iterator_handle_tag> > M;
#elif KIND==9
typedef vg::mesh<cfg::wrap<vg::tetrahedron_tag, point_type_3d, vg::iterator_handle_tag> > M;
#elif KIND==10
typedef vg::thin_triangular_2d_mesh M;
#define THIN
#elif KIND==11
typedef vg::thin_tetrahedral_3d_mesh M;
#define THIN
#elif KIND==12
typedef vg::mesh<vg::config::thin_hexahedral_3d> M;
#define THIN
#elif KIND==13
typedef vg::quadrilateral_3d_mesh M;
#elif KIND==14
typedef vg::mesh<cfg::wrap<vg::hexahedron_tag, point_type_3d, vg::id_handle_tag> > M;
#elif KIND==15
typedef vg::line_3d_mesh M;
#elif KIND==16
typedef vg::mesh<vg::config::thin_quadrilateral_2d> M;
#define THIN
#endif

typedef vg::result_of::cell_tag<M>::type CT;
typedef CT::facet_tag FT;
typedef Shape<CT> SH;
typedef vg::result_of::vertex_handle<M>::type VH;
typedef vg::result_of::cell_handle<M>::type CH;
typedef vg::result_of::cell<M>::type CellT;
typedef vg::result_of::vertex<M>::type VertexT;

struct Op { int kind; VI v; };   // 0: cell, 1: facet, 2: edge
static std::string showop(Op const & o) { return std::string(o.kind == 0 ? "cell" : o.kind == 1 ? "facet" : "edge") + mc::seq(o.v); }

static VVI facet_edges(VI const & f)       // reference edges of a facet, given its vertex order
{
  if (SH::dim < 3) return VVI();
  VVI r; VVI e = f.size() == 3 ? Shape<vg::triangle_tag>::edges() : Shape<vg::quadrilateral_tag>::edges();
  for (size_t i = 0; i < e.size(); ++i) r.push_back(pick(f, e[i]));
  return r;
}

struct Model
{
  VVI cells;                 // vertex tuples, creation order
  std::set<VI> facets, edges;  // sorted tuples
  void facet(VI const & f) { facets.insert(sorted(f)); if (SH::dim == 3) { VVI e = facet_edges(f); for (size_t i = 0; i < e.size(); ++i) edges.insert(sorted(e[i])); } }
  void apply(Op const & o)
  {
    if (o.kind == 0)
    {
      cells.push_back(o.v);
      VVI f = SH::facets(); for (size_t i = 0; i < f.size(); ++i) facet(pick(o.v, f[i]));
      VVI e = SH::edges(); for (size_t i = 0; i < e.size(); ++i) edges.insert(sorted(pick(o.v, e[i])));
    }
    else if (o.kind == 1) facet(o.v);
    else if (SH::dim == 2) facets.insert(sorted(o.v));
    else edges.insert(sorted(o.v));
  }
  std::string text() const { return show(cells) + "|" + show(facets) + "|" + show(edges); }
};

template<class Tag, class H> const void * addr(M & m, H const & h) { return &vg::dereference_handle(m, h); }

// ---- P01 observers --------------------------------------------------------
template<class Tag> bool uniq(M & m, std::set<VI> const & want, const char * what, std::map<VI,const void*> & where)
{
  typedef typename vg::result_of::element_range<M, Tag>::type R;
  typedef typename vg::result_of::iterator<R>::type I;
  R r(m); size_t n = 0; bool ok = true;
  std::set<long> ids;
  for (I i = r.begin(); i != r.end(); ++i, ++n)
  {
    VI t = svids(*i);
    ok &= MCHECK(want.count(t) == 1, "spurious-subelement", std::string(what) + show(t));
    ok &= MCHECK(where.insert(std::make_pair(t, (const void*)&*i)).second, "duplicate-subelement", std::string(what) + show(t));
    ok &= MCHECK(ids.insert((long)(*i).id().get()).second, "duplicate-id", what);
  }
  ok &= MCHECK(n == want.size(), "subelement-count", std::string(what) + " have " + mc::str(n) + " want " + mc::str(want.size()));
  ok &= MCHECK(r.size() == n && vg::elements<Tag>(m).size() == n, "range-size", what);
  return ok;
}

template<class Tag, class Host> void order(M & m, Host & host, VVI const & want, std::map<VI,const void*> & where, const char * what)
{
  typedef typename vg::result_of::element_range<Host, Tag>::type R;
  typedef typename vg::result_of::iterator<R>::type I;
  R r(host); size_t k = 0;
  MCHECK(r.size() == want.size(), "boundary-count", what);
  for (I i = r.begin(); i != r.end(); ++i, ++k)
  {
    if (k >= want.size()) break;
    VI t = svids(*i);
    if (!MCHECK(t == sorted(want[k]), "boundary-order", std::string(what) + " #" + mc::str(k) + " have " + show(t) + " want " + show(sorted(want[k])))) continue;
    MCHECK(where[t] == (const void*)&*i, "not-shared", std::string(what) + show(t));
    MCHECK((const void*)&vg::dereference_handle(m, i.handle()) == (const void*)&*i, "handle-identity", what);
    MCHECK((const void*)&r[k] == (const void*)&*i, "index-access", what);
  }
  MCHECK(k == want.size(), "boundary-iteration-count", what);
}

template<class Tag, class Host> void orient(M & m, Host & host, VVI const & want, const char * what)
{
  typedef typename vg::result_of::element_range<Host, Tag>::type R;
  typedef typename vg::result_of::iterator<R>::type I;
  R r(host); size_t k = 0;
  for (I i = r.begin(); i != r.end() && k < want.size(); ++i, ++k)
  {
    VI got, gotc; Host const & chost = host;
    for (size_t j = 0; j < want[k].size(); ++j)
    {
      got.push_back((int)vg::dereference_handle(host, vg::local_vertex(host, i.handle(), j)).id().get());
      gotc.push_back((int)vg::dereference_handle((M const &)m, vg::local_vertex(chost, i.handle(), j)).id().get());
    }
    MCHECK(got == want[k], "local-orientation", std::string(what) + " #" + mc::str(k) + " have " + show(got) + " want " + show(want[k]) + " stored " + show(vids(*i)));
    MCHECK(gotc == want[k], "local-orientation-const", std::string(what));
  }
}

// creation by the function named after the shape
template<class Tag, class X = M> struct Named;
#define NAMED(T, CALL) template<class X> struct Named<vg::T, X> { static typename vg::result_of::handle<X,vg::T>::type make(X & m, std::vector<VH> const & h) { return CALL; } };
NAMED(line_tag, vg::make_line(m, h[0], h[1]))
NAMED(triangle_tag, vg::make_triangle(m, h[0], h[1], h[2]))
NAMED(quadrilateral_tag, vg::make_quadrilateral(m, h[0], h[1], h[2], h[3]))
NAMED(tetrahedron_tag, vg::make_tetrahedron(m, h[0], h[1], h[2], h[3]))
NAMED(hexahedron_tag, vg::make_hexahedron(m, h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7]))

static void apply(M & m, std::vector<VH> const & v, Op const & o, Model & mod)
{
  int way = 0; for (size_t i = 0; i < o.v.size(); ++i) way += (int)(i + 1) * o.v[i];   // spreads the ways of creation over all orders

  std::vector<VH> h; for (size_t i = 0; i < o.v.size(); ++i) h.push_back(v[o.v[i]]);
  mc::transition();
  if (o.kind == 0)
  {
    CH c = way % 3 == 0 ? vg::make_cell(m, h.begin(), h.end()) : way % 3 == 1 ? vg::make_element<CT>(m, h.begin(), h.end()) : Named<CT>::make(m, h);
    MCHECK(vids(vg::dereference_handle(m, c)) == o.v, "cell-vertex-order", show(vids(vg::dereference_handle(m, c))));
  }
#ifndef THIN
  else if (o.kind == 1)
  {
#if KIND!=0 && KIND!=15
    VI got = svids(vg::dereference_handle(m, way % 2 ? vg::make_element<FT>(m, h.begin(), h.end()) : Named<FT>::make(m, h)));
    MCHECK(got == sorted(o.v), "explicit-facet", show(got));
#endif
  }
  else
  {
#if KIND!=0 && KIND!=15
    VI got = svids(vg::dereference_handle(m, way % 2 ? vg::make_edge(m, h[0], h[1]) : vg::make_line(m, h[0], h[1])));
    MCHECK(got == sorted(o.v), "explicit-edge", show(got));
#endif
  }
#endif
  mod.apply(o);
}

static void verify(M & m, Model const & mod, int nvert)
{
  // cells
  typedef vg::result_of::cell_range<M>::type CR; typedef vg::result_of::iterator<CR>::type CI;
  CR cr(m);
  MCHECK(cr.size() == mod.cells.size(), "cell-count", mc::str(cr.size()));
  MCHECK((int)vg::vertices(m).size() == nvert, "vertex-count", mc::str(vg::vertices(m).size()));
  std::map<VI,const void*> fw, ew, vw;
  { typedef vg::result_of::vertex_range<M>::type R; typedef vg::result_of::iterator<R>::type I; R r(m); for (I i = r.begin(); i != r.end(); ++i) vw[VI(1,(int)(*i).id().get())] = &*i; }
#if KIND==0 || KIND==15
  fw = vw;
#elif !defined(THIN)
  if (PROP == 1) { uniq<FT>(m, mod.facets, "facet", fw);
#if KIND==4 || KIND==5 || KIND==7 || KIND==9 || KIND==14
    uniq<vg::line_tag>(m, mod.edges, "edge", ew);
#endif
  }
#endif
  size_t k = 0;
  for (CI c = cr.begin(); c != cr.end(); ++c, ++k)
  {
    if (k >= mod.cells.size()) break;
    VI const & cv = mod.cells[k];
    CellT & cell = *c;
    if (PROP == 1)
    {
      if (!MCHECK(vids(cell) == cv, "cell-vertices", show(vids(cell)))) continue;
      VVI self; for (size_t i = 0; i < cv.size(); ++i) self.push_back(VI(1,cv[i]));
      order<vg::vertex_tag>(m, cell, self, vw, "cell.vertex");
    }
#ifndef THIN
    VVI f = SH::facets(); for (size_t i = 0; i < f.size(); ++i) f[i] = pick(cv, f[i]);
    if (PROP == 1) order<FT>(m, cell, f, fw, "cell.facet");
#if KIND!=0 && KIND!=15
    else orient<FT>(m, cell, f, "cell.facet");
#endif
#if KIND==4 || KIND==5 || KIND==7 || KIND==9 || KIND==14
    VVI e = SH::edges(); for (size_t i = 0; i < e.size(); ++i) e[i] = pick(cv, e[i]);
    if (PROP == 1) order<vg::line_tag>(m, cell, e, ew, "cell.edge");
    else orient<vg::line_tag>(m, cell, e, "cell.edge");
#endif
#endif
  }
#if KIND==4 || KIND==5 || KIND==7 || KIND==9 || KIND==14
  typedef vg::result_of::facet_range<M>::type FR; typedef vg::result_of::iterator<FR>::type FI;
  FR fr(m);
  for (FI i = fr.begin(); i != fr.end(); ++i)
  {
    VI fv = vids(*i);
    VVI fe = facet_edges(fv);
    if (PROP == 1) order<vg::line_tag>(m, *i, fe, ew, "facet.edge");
    else orient<vg::line_tag>(m, *i, fe, "facet.edge");
  }
#endif
}

static int NV;
static VI VORDER;   // creation order: position -> label is identity; ids follow creation
static void run(std::vector<Op> const & ops)
{
  if (!mc::begin_case()) return;
  for (size_t i = 0; i < ops.size(); ++i) mc::trace(showop(ops[i]));
  M m; std::vector<VH> v; Model mod;
  for (int i = 0; i < NV; ++i) v.push_back(vg::make_vertex(m, mkpoint<M>(i*1.25, (i*i)%7, (i*5)%11)));
  for (size_t i = 0; i < ops.size(); ++i) { apply(m, v, ops[i], mod); mc::state(mod.text()); }
  verify(m, mod, NV);
  mc::outcome(mod.text());
}

static Op op(int k, VI const & v) { Op o; o.kind = k; o.v = v; return o; }

// every pair/triple of ordered cells over NV vertices
static void gen_generic()
{
  const bool T = mc::S().thorough;
  const int nv = SH::nv;
  NV = nv == 2 ? 4 : nv == 3 ? (T ? 6 : 5) : 6;
  VVI all = arrangements(NV, nv);
  VI first; for (int i = 0; i < nv; ++i) first.push_back(i);
  mc::begin_group("pairs");          // both cells arbitrary
  for (size_t a = 0; a < all.size(); ++a)
    for (size_t b = 0; b < all.size(); ++b)
    {
      std::vector<Op> o; o.push_back(op(0, all[a])); o.push_back(op(0, all[b])); run(o);
    }
  mc::begin_group("triples");        // first fixed by symmetry
  for (size_t a = 0; a < all.size(); ++a)
    for (size_t b = 0; b < all.size(); ++b)
    {
      if (nv == 4 && !T && all[b][0] > 1) continue;       // quick bound: third cell starts at vertex 0 or 1
      std::vector<Op> o; o.push_back(op(0, first)); o.push_back(op(0, all[a])); o.push_back(op(0, all[b])); run(o);
    }
#if !defined(THIN) && KIND!=0 && KIND!=15
  // explicitly created facets/edges, in every vertex order, at every position
  VVI fa = SH::dim == 3 ? arrangements(NV, 3) : VVI(), ea = arrangements(NV, 2);
  std::vector<Op> ex;
  for (size_t i = 0; i < fa.size(); ++i) ex.push_back(op(1, fa[i]));
  for (size_t i = 0; i < ea.size(); ++i) ex.push_back(op(2, ea[i]));
  mc::begin_group("explicit");
  for (size_t x = 0; x < ex.size(); ++x)
    for (int pos = 0; pos < 3; ++pos)
      for (size_t a = 0; a < all.size(); ++a)
      {
        if (nv == 4 && !T && pos == 1 && all[a][0] > 1) continue;
        std::vector<Op> o; o.push_back(op(0, first)); o.push_back(op(0, all[a]));
        o.insert(o.begin() + pos, ex[x]);
        run(o);
      }
  mc::begin_group("explicit2");
  for (size_t x = 0; x < ex.size(); ++x)
    for (size_t y = 0; y < ex.size(); ++y)
    { std::vector<Op> o; o.push_back(ex[x]); o.push_back(ex[y]); o.push_back(op(0, first)); run(o); }
#endif
}

// the 48 symmetries of the cube acting on local vertex numbers (bit i = axis i)
static VVI cube_symmetries()
{
  VVI out; VVI ax = arrangements(3,3);
  for (size_t a = 0; a < ax.size(); ++a) for (int f = 0; f < 8; ++f)
  {
    VI p(8);
    for (int v = 0; v < 8; ++v) { int w = 0; for (int i = 0; i < 3; ++i) if (((v >> i) & 1) ^ ((f >> i) & 1)) w |= 1 << ax[a][i]; p[v] = w; }
    out.push_back(p);
  }
  return out;
}

static void gen_hex()
{
  const bool T = mc::S().thorough;
  VVI sym = cube_symmetries();
  VVI fac = Shape<vg::hexahedron_tag>::facets(), edg = Shape<vg::hexahedron_tag>::edges();
  NV = 16;
  VI ident; for (int i = 0; i < 8; ++i) ident.push_back(i);
  mc::begin_group("single");
  for (size_t s = 0; s < sym.size(); ++s) { std::vector<Op> o; o.push_back(op(0, sym[s])); run(o); }
  // pairs sharing a facet / an edge / a vertex, in every relative placement
  VVI quad_sym; { VVI p = arrangements(4,4); VVI qe = Shape<vg::quadrilateral_tag>::edges(); std::set<VI> es; for (size_t i = 0; i < qe.size(); ++i) es.insert(qe[i]);
    for (size_t i = 0; i < p.size(); ++i) { bool ok = true; for (size_t j = 0; j < qe.size(); ++j) ok &= es.count(sorted(pick(p[i], qe[j]))) == 1; if (ok) quad_sym.push_back(p[i]); } }
  mc::begin_group("facet-pairs");
  for (size_t s = 0; s < sym.size(); ++s)
    for (size_t f = 0; f < 6; ++f) for (size_t g = 0; g < 6; ++g) for (size_t q = 0; q < quad_sym.size(); ++q)
    {
      if (!T && s % 7 && s > 7) continue;
      VI c2(8,-1); for (int i = 0; i < 4; ++i) c2[fac[g][quad_sym[q][i]]] = sym[s][fac[f][i]];
      int n = 8; for (int i = 0; i < 8; ++i) if (c2[i] < 0) c2[i] = n++;
      std::vector<Op> o; o.push_back(op(0, sym[s])); o.push_back(op(0, c2)); run(o);
      std::swap(o[0], o[1]); run(o);
    }
  mc::begin_group("edge-pairs");
  for (size_t e = 0; e < 12; ++e) for (size_t g = 0; g < 12; ++g) for (int d = 0; d < 2; ++d)
    {
      VI c2(8,-1); c2[edg[g][d]] = edg[e][0]; c2[edg[g][1-d]] = edg[e][1];
      int n = 8; for (int i = 0; i < 8; ++i) if (c2[i] < 0) c2[i] = n++;
      std::vector<Op> o; o.push_back(op(0, ident)); o.push_back(op(0, c2)); run(o);
    }
  mc::begin_group("vertex-pairs");
  for (int a = 0; a < 8; ++a) for (int b = 0; b < 8; ++b)
    {
      VI c2(8,-1); c2[b] = a; int n = 8; for (int i = 0; i < 8; ++i) if (c2[i] < 0) c2[i] = n++;
      std::vector<Op> o; o.push_back(op(0, ident)); o.push_back(op(0, c2)); run(o);
    }
#if !defined(THIN)
  mc::begin_group("explicit");
  for (size_t s = 0; s < sym.size(); ++s)
  {
    if (!T && s % 5) continue;
    for (size_t f = 0; f < 6; ++f) for (size_t q = 0; q < quad_sym.size(); ++q) for (int pos = 0; pos < 2; ++pos)
    { std::vector<Op> o; o.push_back(op(0, sym[s])); o.insert(o.begin()+pos, op(1, pick(fac[f], quad_sym[q]))); run(o); }
    VVI ea = arrangements(8,2);
    for (size_t e = 0; e < ea.size(); ++e) for (int pos = 0; pos < 2; ++pos)
    { std::vector<Op> o; o.push_back(op(0, sym[s])); o.insert(o.begin()+pos, op(2, ea[e])); run(o); }
  }
#endif
}

static void gen_blocks()
{
  const bool T = mc::S().thorough;
  mc::begin_group("blocks");
  VVI sizes = SH::dim == 1 ? tup("7,0,0;40,0,0;300,0,0") : SH::dim == 2 ? tup("2,2,0;3,4,0;9,8,0;17,16,0") : SH::nv == 4 ? tup("1,1,1;2,1,2;3,3,2;4,5,4") : tup("2,2,2;3,3,3;5,4,4;7,6,7");
  if (T) sizes.push_back(SH::dim == 1 ? tup("3000,0,0")[0] : SH::dim == 2 ? tup("40,50,0")[0] : tup("9,9,9")[0]);
  for (size_t i = 0; i < sizes.size(); ++i) for (int k = 0; k < 27; ++k)
  {
    if (!mc::begin_case()) continue;
    Block b = block<CT>(sizes[i][0], sizes[i][1], sizes[i][2], k % 3, k / 3 % 3, k / 9);
    mc::trace(b.name);
    M m; std::vector<VH> v; Model mod;
    for (int j = 0; j < b.nv; ++j) v.push_back(vg::make_vertex(m, mkpoint<M>(b.pos[j][0], b.pos[j][1], b.pos[j][2])));
    for (size_t j = 0; j < b.cells.size(); ++j) apply(m, v, op(0, b.cells[j]), mod);
    mc::state(b.name); verify(m, mod, b.nv); mc::outcome(b.name);
  }
}

int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  if (SH::nv == 8) gen_hex(); else gen_generic();
  gen_blocks();
  return mc::finish();
}
