// Shared vocabulary: reference element shapes and small observers over the
// public ViennaGrid API.  Nothing in here looks at how the library stores things.
#ifndef VERIF_VG_HPP
#define VERIF_VG_HPP
#include "mc.hpp"
#include "viennagrid/forwards.hpp"
#include "viennagrid/config/default_configs.hpp"
#include "viennagrid/mesh/element_creation.hpp"
#include "viennagrid/mesh/coboundary_iteration.hpp"
#include "viennagrid/mesh/neighbor_iteration.hpp"
#include "viennagrid/algorithm/boundary.hpp"

namespace vg = viennagrid;
typedef std::vector<int> VI;
typedef std::vector<VI> VVI;
typedef std::set<int> SI;

// "0,1;2,3" -> {{0,1},{2,3}}
inline VVI tup(const char * s)
{
  VVI r; VI c; int n = -1;
  for (;; ++s)
  {
    if (*s >= '0' && *s <= '9') n = (n < 0 ? 0 : n * 10) + (*s - '0');
    else { if (n >= 0) c.push_back(n); n = -1; if (*s == ';' || !*s) { if (!c.empty()) r.push_back(c); c.clear(); } }
    if (!*s) return r;
  }
}

// reference shapes (documented numbering)
template<class Tag> struct Shape;
template<> struct Shape<vg::line_tag> { static const int nv = 2, dim = 1; static const char * name() { return "line"; }
  static VVI edges() { return VVI(); } static VVI facets() { return tup("0;1"); } };
template<> struct Shape<vg::triangle_tag> { static const int nv = 3, dim = 2; static const char * name() { return "tri"; }
  static VVI edges() { return tup("0,1;0,2;1,2"); } static VVI facets() { return edges(); } };
template<> struct Shape<vg::quadrilateral_tag> { static const int nv = 4, dim = 2; static const char * name() { return "quad"; }
  static VVI edges() { return tup("0,1;0,2;1,3;2,3"); } static VVI facets() { return edges(); } };
template<> struct Shape<vg::tetrahedron_tag> { static const int nv = 4, dim = 3; static const char * name() { return "tet"; }
  static VVI edges() { return tup("0,1;0,2;0,3;1,2;1,3;2,3"); } static VVI facets() { return tup("0,1,2;0,1,3;0,2,3;1,2,3"); } };
template<> struct Shape<vg::hexahedron_tag> { static const int nv = 8, dim = 3; static const char * name() { return "hex"; }
  static VVI edges() { return tup("0,1;0,2;0,4;1,3;1,5;2,3;2,6;3,7;4,5;4,6;5,7;6,7"); }
  static VVI facets() { return tup("0,1,2,3;0,1,4,5;0,2,4,6;1,3,5,7;2,3,6,7;4,5,6,7"); } };

template<class T> struct Ref
{
  typedef typename vg::result_of::cell_tag<T>::type cell_tag;
  typedef Shape<cell_tag> shape;
};

inline VI pick(VI const & v, VI const & idx) { VI r; for (size_t i = 0; i < idx.size(); ++i) r.push_back(v[idx[i]]); return r; }
inline VI sorted(VI v) { std::sort(v.begin(), v.end()); return v; }

// ids of the vertices of an element, in the order the element lists them
template<class E> VI vids(E const & e)
{
  typedef typename vg::result_of::const_vertex_range<E>::type R;
  typedef typename vg::result_of::iterator<R>::type I;
  R r(e); VI out;
  for (I i = r.begin(); i != r.end(); ++i) out.push_back((int)(*i).id().get());
  return out;
}
template<class C> VI vids(vg::element<vg::vertex_tag, C> const & e) { return VI(1, (int)e.id().get()); }
template<class E> VI svids(E const & e) { return sorted(vids(e)); }

// all elements of a tag in a mesh/segment/view as sorted vertex-id tuples
template<class Tag, class M> VVI all_tuples(M const & m)
{
  typedef typename vg::result_of::const_element_range<M, Tag>::type R;
  typedef typename vg::result_of::iterator<R>::type I;
  R r(m); VVI out;
  for (I i = r.begin(); i != r.end(); ++i) out.push_back(svids(*i));
  return out;
}
template<class Tag, class M> VI all_ids(M const & m)
{
  typedef typename vg::result_of::const_element_range<M, Tag>::type R;
  typedef typename vg::result_of::iterator<R>::type I;
  R r(m); VI out;
  for (I i = r.begin(); i != r.end(); ++i) out.push_back((int)(*i).id().get());
  return out;
}
inline std::string show(VI const & v) { return mc::seq(v); }
inline std::string show(VVI const & v) { std::string s; for (size_t i = 0; i < v.size(); ++i) s += mc::seq(v[i]); return s; }
inline std::string show(std::set<VI> const & v) { std::string s; for (std::set<VI>::const_iterator i = v.begin(); i != v.end(); ++i) s += mc::seq(*i); return s; }
inline std::string show(SI const & v) { return mc::seq(v); }

template<int D> struct Pt;
template<> struct Pt<1> { typedef vg::config::point_type_1d type; static type make(double x, double, double) { return type(x); } };
template<> struct Pt<2> { typedef vg::config::point_type_2d type; static type make(double x, double y, double) { return type(x,y); } };
template<> struct Pt<3> { typedef vg::config::point_type_3d type; static type make(double x, double y, double z) { return type(x,y,z); } };
template<class M> typename vg::result_of::point<M>::type mkpoint(double x, double y = 0, double z = 0)
{ return Pt<vg::result_of::geometric_dimension<M>::value>::make(x,y,z); }

// all ordered k-tuples of distinct values out of 0..n-1
inline VVI arrangements(int n, int k)
{
  VVI out; VI cur; std::vector<bool> used(n,false);
  struct R { static void go(int n, int k, VI & cur, std::vector<bool> & used, VVI & out)
    { if ((int)cur.size() == k) { out.push_back(cur); return; }
      for (int i = 0; i < n; ++i) if (!used[i]) { used[i] = true; cur.push_back(i); go(n,k,cur,used,out); cur.pop_back(); used[i] = false; } } };
  R::go(n,k,cur,used,out); return out;
}

// ---- larger meshes: a block of nx*ny*nz boxes, cut into cells of the shape ----
struct Block { int nv; std::vector<std::vector<double> > pos; VVI cells; std::string name; };
// relabel: 0 identity, 1 reverse, 2 stride; corder: creation order of the cells likewise;
// local: how the vertices of each cell are rotated (keeps the shape)
inline VI spread(int n, int how)
{
  VI p; for (int i = 0; i < n; ++i) p.push_back(i);
  if (how == 1) std::reverse(p.begin(), p.end());
  if (how == 2) { int s = n / 2 + 1; for (;; ++s) { int a = s, b = n; while (b) { int t = a % b; a = b; b = t; } if (a == 1) break; } for (int i = 0; i < n; ++i) p[i] = (int)((long)i * s % n); }
  return p;
}
template<class Tag> Block block(int nx, int ny, int nz, int relabel, int corder, int local)
{
  typedef Shape<Tag> SH;
  if (SH::dim < 2) ny = 0; if (SH::dim < 3) nz = 0;
  Block b; b.nv = (nx + 1) * (ny + 1) * (nz + 1); b.pos.resize(b.nv, std::vector<double>(3, 0.0));
  VI lab = spread(b.nv, relabel); VVI raw;
  #define VX(x,y,z) lab[((z) * (ny + 1) + (y)) * (nx + 1) + (x)]
  for (int z = 0; z <= nz; ++z) for (int y = 0; y <= ny; ++y) for (int x = 0; x <= nx; ++x)
  { std::vector<double> & p = b.pos[VX(x,y,z)]; p[0] = x + 0.125 * (x % 3); p[1] = y + 0.25 * (y % 2); p[2] = z + 0.125 * (z % 2); }
  static const int kuhn[6][4] = {{0,1,3,7},{0,1,5,7},{0,2,3,7},{0,2,6,7},{0,4,5,7},{0,4,6,7}};
  for (int z = 0; z < std::max(nz, 1); ++z) for (int y = 0; y < std::max(ny, 1); ++y) for (int x = 0; x < nx; ++x)
  {
    VI c; for (int k = 0; k < (1 << SH::dim); ++k) c.push_back(VX(x + (k & 1), y + ((k >> 1) & 1), z + ((k >> 2) & 1)));
    if (SH::nv == (1 << SH::dim)) raw.push_back(c);
    else if (SH::dim == 2)
    {
      bool d = (x + y) % 2; static const int t[4][3] = {{0,1,3},{0,2,3},{0,1,2},{1,2,3}};
      for (int k = 0; k < 2; ++k) { VI q; for (int i = 0; i < 3; ++i) q.push_back(c[t[2 * d + k][i]]); raw.push_back(q); }
    }
    else for (int k = 0; k < 6; ++k) { VI q; for (int i = 0; i < 4; ++i) q.push_back(c[kuhn[k][i]]); raw.push_back(q); }
  }
  #undef VX
  VI co = spread((int)raw.size(), corder);
  for (size_t i = 0; i < raw.size(); ++i)
  {
    VI c = raw[co[i]]; int r = local * (int)i;
    if (SH::nv != (1 << SH::dim)) { std::rotate(c.begin(), c.begin() + r % SH::nv, c.end()); if (r % 5 == 3) std::swap(c[0], c[1]); }
    else { VI q(c); int m = r % SH::nv; for (int k = 0; k < SH::nv; ++k) q[k] = c[k ^ m]; c = q; }   // mirrored along some axes
    b.cells.push_back(c);
  }
  b.name = "block" + mc::str(nx) + "x" + mc::str(ny) + "x" + mc::str(nz) + "/" + mc::str(relabel) + mc::str(corder) + mc::str(local);
  return b;
}
// all blocks of a list of sizes in all 27 numberings (every step-th)
template<class Tag> std::vector<Block> blocks(VVI const & sizes, int step = 1)
{
  std::vector<Block> r; int n = 0;
  for (size_t i = 0; i < sizes.size(); ++i) for (int k = 0; k < 27; ++k, ++n) if (n % step == 0) r.push_back(block<Tag>(sizes[i][0], sizes[i][1], sizes[i][2], k % 3, k / 3 % 3, k / 9));
  return r;
}
#endif
