// P08: erasing elements from a mesh.  Every history of erasures (any element of
// any dimension) and re-insertions up to a depth, from every sub-collection of
// the fixture cells.
#ifndef KIND
#define KIND 1
#endif
#include "obs.hpp"
#include "viennagrid/mesh/element_deletion.hpp"
namespace cfg { template<class Tag, class P, class H> struct wrap { typedef typename vg::config::result_of::full_mesh_config<Tag, P, H>::type type; }; }
#if KIND==0
typedef vg::line_2d_mesh M;
static VVI CELLS = tup("0,1;2,1;2,3");
#elif KIND==1
typedef vg::triangular_2d_mesh M;
static VVI CELLS = tup("0,1,2;2,1,3;0,2,4;3,4,2");
#elif KIND==2
typedef vg::tetrahedral_3d_mesh M;
static VVI CELLS = tup("0,1,2,3;3,2,1,4;5,0,2,1");
#elif KIND==3
typedef vg::quadrilateral_2d_mesh M;
static VVI CELLS = tup("0,1,3,4;1,2,4,5;4,3,7,6");
#elif KIND==4
typedef vg::hexahedral_3d_mesh M;
static VVI CELLS = tup("0,1,2,3,4,5,6,7;4,5,6,7,8,9,10,11");
#elif KIND==5
typedef vg::mesh<cfg::wrap<vg::triangle_tag, vg::config::point_type_2d, vg::iterator_handle_tag> > M;
static VVI CELLS = tup("0,1,2;2,1,3;0,2,4");
#endif
typedef vg::result_of::cell_tag<M>::type CT;
typedef Shape<CT> SH;
static const int D = SH::dim;
typedef vg::result_of::vertex_handle<M>::type VH;
typedef vg::result_of::vertex<M>::type VertexT;
typedef vg::result_of::mesh_view<M>::type VIEW;

static VVI cellsubs(VI const & c, int d)
{
  VVI r;
  if (d == D) r.push_back(c); else if (d == 0) for (size_t i = 0; i < c.size(); ++i) r.push_back(VI(1,c[i]));
  else r = shape_subs(d == D-1 ? SH::facets() : SH::edges(), c);
  for (size_t i = 0; i < r.size(); ++i) r[i] = sorted(r[i]);
  return r;
}
struct Model
{
  std::set<VI> el[4]; std::set<VI> cells;
  void add(VI const & c) { for (int d = 0; d <= D; ++d) { VVI s = cellsubs(c, d); el[d].insert(s.begin(), s.end()); } cells.insert(c); }
  void erase(VI const & t, int d)
  {
    for (int j = d; j <= D; ++j) for (std::set<VI>::iterator i = el[j].begin(); i != el[j].end();) { if (is_subset(t, *i)) el[j].erase(i++); else ++i; }
    for (std::set<VI>::iterator i = cells.begin(); i != cells.end();) { if (!el[D].count(sorted(*i))) cells.erase(i++); else ++i; }
  }
  std::string text() const { std::string s; for (int d = 0; d <= D; ++d) s += show(el[d]) + "/"; return s; }
};
// '+' add cell c; '-' erase element t of dimension d; '2' erase t and u (dimension d2) in one go
struct Op { char k; int c; int d; VI t; int d2; VI u; Op(char k_, int c_, int d_, VI t_, int e_, VI u_) : k(k_), c(c_), d(d_), t(t_), d2(e_), u(u_) {} };
static std::string showop(Op const & o) { std::string s(1,o.k); if (o.k == '+') s += mc::str(o.c); else { s += mc::seq(o.t); if (o.k == '2') s += mc::seq(o.u); } return s; }

struct World { M mesh; std::map<VI,int> ids[4]; };   // last seen ids
template<int d> struct Er
{
  static bool one(World & w, VI const & t, int dim, VIEW * view)
  {
    if (dim != d) return Er<d+1>::one(w, t, dim, view);
    typedef typename DimTag<M,d>::type Tag; typedef typename vg::result_of::element_range<M,Tag>::type R; typedef typename vg::result_of::iterator<R>::type I;
    R r(w.mesh);
    for (I i = r.begin(); i != r.end(); ++i) if (svids(*i) == t)
    {
      typename vg::result_of::handle<M,Tag>::type h = i.handle();
      if (view) vg::mark_erase_elements(w.mesh, *view, h); else vg::erase_element(w.mesh, h);
      return true;
    }
    return false;
  }
};
template<> struct Er<D+1> { static bool one(World &, VI const &, int, VIEW *) { return false; } };

static double coord(int i, int k) { return k == 0 ? 1 + i : k == 1 ? (i * i) % 7 : (3 * i) % 5; }
static VH vertex(World & w, int i)
{
  vg::result_of::vertex_range<M>::type r(w.mesh); typedef vg::result_of::vertex_range<M>::type::iterator I;
  for (I k = r.begin(); k != r.end(); ++k) if ((int)(*k).id().get() == i) return k.handle();
  return vg::make_vertex_with_id(w.mesh, VertexT::id_type(i), mkpoint<M>(coord(i,0), coord(i,1), coord(i,2)));
}
static void apply(World & w, Op const & o)
{
  mc::transition();
  if (o.k == '+')
  {
    VI const & c = CELLS[o.c]; 
    for (size_t i = 0; i < c.size(); ++i) vertex(w, c[i]);
    std::vector<VH> h; for (size_t i = 0; i < c.size(); ++i) h.push_back(vertex(w, c[i]));
    vg::make_cell(w.mesh, h.begin(), h.end());
  }
  else if (o.k == '-') MCHECK((Er<0>::one(w, o.t, o.d, 0)), "victim-missing", show(o.t));
  else
  {
    VIEW v = vg::make_view(w.mesh);
    Er<0>::one(w, o.t, o.d, &v); Er<0>::one(w, o.u, o.d2, &v);
    vg::erase_elements(w.mesh, v);
  }
}
static void verify(World & w, Model const & m)
{
  Snap s = consistent(w.mesh);
  for (int d = 0; d <= D; ++d)
  {
    std::set<VI> got; for (std::map<VI,int>::iterator i = s.el[d].begin(); i != s.el[d].end(); ++i) got.insert(i->first);
    MCHECK(got == m.el[d], "elements", "dim " + mc::str(d) + " have " + show(got) + " want " + show(m.el[d]));
    for (std::map<VI,int>::iterator i = w.ids[d].begin(); i != w.ids[d].end(); ++i)
    { std::map<VI,int>::iterator j = s.el[d].find(i->first); if (j != s.el[d].end()) MCHECK(j->second == i->second, "id-changed", "dim " + mc::str(d) + show(i->first)); }
  }
  std::set<VI> got; for (std::map<int,VI>::iterator i = s.cells.begin(); i != s.cells.end(); ++i) got.insert(i->second);
  MCHECK(got == m.cells, "cell-vertex-order", "have " + show(got) + " want " + show(m.cells));
  for (std::map<int,std::vector<double> >::iterator i = s.pos.begin(); i != s.pos.end(); ++i)
    for (size_t k = 0; k < i->second.size(); ++k) MCHECK(i->second[k] == coord(i->first,(int)k), "coordinates", mc::str(i->first));
}
static void remember(World & w, Model const & m)
{
  // ids of elements that exist now; those of erased elements are forgotten
  Snap s = snap(w.mesh);
  for (int d = 0; d <= D; ++d) w.ids[d] = s.el[d];
}
static void run(std::vector<Op> const & ops, unsigned mask)
{
  if (!mc::begin_case()) return;
  for (size_t i = 0; i < ops.size(); ++i) mc::trace(showop(ops[i]) + ((mask >> i) & 1 ? "?" : ""));
  World w; Model m;
  for (size_t i = 0; i < ops.size(); ++i)
  {
    apply(w, ops[i]);
    if (ops[i].k == '+') m.add(CELLS[ops[i].c]); else { m.erase(ops[i].t, ops[i].d); if (ops[i].k == '2') m.erase(ops[i].u, ops[i].d2); }
    mc::state(m.text());
    if (((mask >> i) & 1) || i + 1 == ops.size()) verify(w, m);
    remember(w, m);
  }
  mc::outcome(m.text());
}
static int DEPTH, NEW;
static void explore(std::vector<Op> & ops, Model const & m, int depth, bool two)
{
  if (depth == DEPTH) { run(ops, 0); run(ops, ~0u); return; }
  for (size_t c = 0; c < CELLS.size(); ++c) if (!m.el[D].count(sorted(CELLS[c])))
  { Model n = m; n.add(CELLS[c]); ops.push_back(Op('+',(int)c,0,VI(),0,VI())); explore(ops, n, depth+1, two); ops.pop_back(); }
  for (int d = 0; d <= D; ++d) for (std::set<VI>::const_iterator i = m.el[d].begin(); i != m.el[d].end(); ++i)
  {
    Model n = m; n.erase(*i, d); ops.push_back(Op('-',-1,d,*i,0,VI())); explore(ops, n, depth+1, two); ops.pop_back();
    if (two) for (int e = d; e <= D; ++e) for (std::set<VI>::const_iterator j = m.el[e].begin(); j != m.el[e].end(); ++j) if (e > d || *i < *j)
    { Model q = n; q.erase(*j, e); ops.push_back(Op('2',-1,d,*i,e,*j)); explore(ops, q, depth+1, false); ops.pop_back(); }
  }
}
int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  const bool T = mc::S().thorough;
  const int K = (int)CELLS.size();
  for (unsigned sub = 1; sub < (1u << K); ++sub) for (int rev = 0; rev < 2; ++rev)
  {
    std::vector<Op> base; Model m;
    for (int i = 0; i < K; ++i) { int c = rev ? K-1-i : i; if ((sub >> c) & 1) { base.push_back(Op('+',c,0,VI(),0,VI())); m.add(CELLS[c]); } }
    if (rev && base.size() < 2) continue;
    bool full = sub == (1u << K) - 1;
    std::string nm = "from" + mc::str(sub) + (rev ? "r" : "");
    mc::begin_group(nm + "-1"); DEPTH = 1; { std::vector<Op> o = base; explore(o, m, 0, true); }
    mc::begin_group(nm + "-2"); DEPTH = 2; { std::vector<Op> o = base; explore(o, m, 0, T && D < 3); }
    int extra = KIND <= 1 || KIND == 5 ? (full && !T && KIND == 1 ? 0 : 3) : (T && KIND != 4 ? 3 : 0);
    if (T && KIND == 0) extra = 4;
    if (extra && (T || !rev)) { mc::begin_group(nm + "-" + mc::str(extra)); DEPTH = extra; std::vector<Op> o = base; explore(o, m, 0, false); }
  }
  // structured blocks in several numberings: every erasure of one element, and (smaller ones) of two
  mc::begin_group("blocks");
  {
    VVI sizes;
    if (D == 1) sizes = tup("6,0,0;11,0,0"); else if (D == 2) sizes = tup(KIND == 5 ? "3,2,0" : "3,2,0;3,3,0"); else sizes = tup(SH::nv == 8 ? "2,2,1" : "1,1,1;2,1,1");
    std::vector<Block> bs = blocks<CT>(sizes, T ? 1 : D == 3 ? 6 : 2);
    for (size_t b = 0; b < bs.size(); ++b)
    {
      CELLS = bs[b].cells; std::vector<Op> base; Model m;
      for (size_t i = 0; i < CELLS.size(); ++i) { base.push_back(Op('+',(int)i,0,VI(),0,VI())); m.add(CELLS[i]); }
      DEPTH = 1; explore(base, m, 0, b % 9 == 0 && CELLS.size() < 20);
    }
  }
  return mc::finish();
}
