// P24: points, coordinate systems and transforms, on all grid points / pairs / triples.
#ifndef KIND
#define KIND 0     // 0 algebra, 1 coordinate systems 2d, 2 coordinate systems 3d, 3.. transforms of meshes
#endif
#include "vg.hpp"
#include "geo.hpp"
#include "obs.hpp"
#include "viennagrid/point.hpp"
#include "viennagrid/algorithm/norm.hpp"
#include "viennagrid/algorithm/inner_prod.hpp"
#include "viennagrid/algorithm/cross_prod.hpp"
#include "viennagrid/algorithm/geometric_transform.hpp"

static VP lattice(int r, int d, double unit) { VP o; int n = 2 * r + 1; for (int x = 0; x < n; ++x) for (int y = 0; y < (d > 1 ? n : 1); ++y) for (int z = 0; z < (d > 2 ? n : 1); ++z) o.push_back(P3((x - r) * unit, d > 1 ? (y - r) * unit : 0, d > 2 ? (z - r) * unit : 0)); return o; }
static bool near(P3 a, P3 b, double s = 1) { for (int i = 0; i < 3; ++i) if (!(std::fabs(a.c[i] - b.c[i]) <= 1e-9 * std::max(1.0, s))) return false; return true; }
static double n1(P3 p) { return std::fabs(p.c[0]) + std::fabs(p.c[1]) + std::fabs(p.c[2]); }
static double ninf(P3 p) { return std::max(std::fabs(p.c[0]), std::max(std::fabs(p.c[1]), std::fabs(p.c[2]))); }

#if KIND==0
template<class PT> PT mk(P3 p) { PT r; for (int i = 0; i < (int)r.size(); ++i) r[i] = p.c[i]; return r; }
static bool closef(double a, double b, float) { return mc::close(a, b, 1e-6); }
static bool closef(double a, double b, double) { return mc::close(a, b); }
template<class PT> void algebra(const char * name, int D, VP const & g, VP const & g3)
{
  mc::begin_group(name);
  static const double F[] = { 0, 1, -1, 2, 0.5, -0.25, 8 };
  std::vector<PT> pt; for (size_t i = 0; i < g.size(); ++i) pt.push_back(mk<PT>(g[i]));
  for (size_t i = 0; i < g.size(); ++i)
  {
    if (!mc::begin_case()) continue;
    P3 p = g[i]; PT const a = pt[i]; mc::trace(show(p)); mc::state(show(p)); std::string n = show(p);
    PT def; MCHECK(p3(def) == P3(), "default_point", ""); PT ctor(p.c[0], p.c[1], p.c[2]); P3 low = p; MCHECK(p3(ctor) == low, "constructor", n);
    PT cp(a), as; as = a; MCHECK(p3(cp) == p && p3(as) == p, "copy", n); MCHECK(cp == a && !(cp != a), "equal", n);
    MCHECK((int)a.size() == D, "size", "");
    MCHECK(p3(-a) == P3() - p, "negate", n);
    MCHECK(mc::close(vg::norm_1(a), n1(p)) && mc::close(vg::norm(a, vg::one_norm_tag()), n1(p)), "norm_1", n);
    MCHECK(closef(vg::norm_2(a), len(p), a[0]) && closef(vg::norm(a), len(p), a[0]) && closef(vg::norm(a, vg::two_norm_tag()), len(p), a[0]), "norm_2", n);
    MCHECK(mc::close(vg::norm_inf(a), ninf(p)) && mc::close(vg::norm(a, vg::inf_norm_tag()), ninf(p)), "norm_inf", n);
    for (int k = 0; k < 7; ++k)
    {
      double f = F[k]; PT x = a; x *= f; MCHECK(near(p3(x), f * p) && near(p3(a * f), f * p) && near(p3(f * a), f * p), "scale", n + " * " + mc::str(f));
      if (f != 0) { PT y = a; y /= f; MCHECK(near(p3(y), (1/f) * p, 100) && near(p3(a / f), (1/f) * p, 100), "divide", n + " / " + mc::str(f)); }
    }
    { std::ostringstream o; o << a; std::ostringstream e; e << "("; for (int k = 0; k < D; ++k) e << p.c[k] << (k + 1 < D ? " " : ""); e << ")"; MCHECK(o.str() == e.str(), "print", o.str()); }
    for (size_t j = 0; j < g.size(); ++j)
    {
      P3 q = g[j]; PT const b = pt[j]; std::string m = n + show(q); mc::transition();
      PT x = a; x += b; PT y = a; y -= b;
      MCHECK(p3(x) == p + q && p3(a + b) == p + q, "add", m); MCHECK(p3(y) == p - q && p3(a - b) == p - q, "subtract", m);
      MCHECK(mc::close(vg::inner_prod(a, b), dot(p, q)), "inner_prod", m);
      MCHECK(near(p3(vg::cross_prod(a, b)), D == 3 ? cross(p, q) : P3()), "cross_prod", m);
      bool less = p < q; MCHECK(vg::point_less()(a, b) == less, "point_less", m);
      MCHECK((a == b) == (p == q) && (a != b) == !(p == q), "compare", m);
      P3 mn, mx; for (int k = 0; k < 3; ++k) { mn.c[k] = std::min(p.c[k], q.c[k]); mx.c[k] = std::max(p.c[k], q.c[k]); }
      MCHECK(p3(vg::min(a, b)) == mn && p3(vg::max(a, b)) == mx, "minmax", m);
      MCHECK(p3(a) == p && p3(b) == q, "operand_changed", m);
      PT z = a; z += z; MCHECK(p3(z) == p + p, "self_add", m); z = a; z -= z; MCHECK(p3(z) == P3(), "self_subtract", m);
    }
    mc::outcome(n);
  }
  mc::begin_group(std::string(name) + "_triples");
  for (size_t i = 0; i < g3.size(); ++i) for (size_t j = 0; j < g3.size(); ++j)
  {
    if (!mc::begin_case()) continue;
    mc::trace(show(g3[i]) + show(g3[j])); PT a = mk<PT>(g3[i]), b = mk<PT>(g3[j]);
    for (size_t k = 0; k < g3.size(); ++k)
    {
      PT c = mk<PT>(g3[k]); mc::transition();
      MCHECK(p3((a + b) + c) == p3(a + (b + c)) && p3(a - b - c) == p3(a - (b + c)), "associative", show(g3[k]));
      MCHECK(mc::close(vg::inner_prod(a + b, c), vg::inner_prod(a, c) + vg::inner_prod(b, c)), "bilinear", show(g3[k]));
      if (D == 3) MCHECK(mc::close(vg::inner_prod(vg::cross_prod(a, b), c), vg::inner_prod(a, vg::cross_prod(b, c))), "triple_product", show(g3[k]));
    }
  }
}
int main(int argc, char ** argv)
{
  mc::init(argc, argv); bool th = mc::S().thorough;
  algebra<vg::spatial_point<double, vg::cartesian_cs<1> > >("points1d", 1, lattice(20, 1, 0.5), lattice(10, 1, 1));
  algebra<vg::spatial_point<double, vg::cartesian_cs<2> > >("points2d", 2, lattice(th ? 12 : 6, 2, 0.5), lattice(th ? 3 : 2, 2, 1));
  algebra<vg::spatial_point<double, vg::cartesian_cs<3> > >("points3d", 3, lattice(th ? 5 : 3, 3, 0.5), lattice(th ? 2 : 1, 3, 1));
  algebra<vg::spatial_point<float, vg::cartesian_cs<3> > >("points3d_float", 3, lattice(2, 3, 0.5), lattice(1, 3, 1));
  return mc::finish();
}
#elif KIND==1 || KIND==2
#if KIND==1
static const int D = 2; static const char * NAMES[] = { "cartesian", "polar" };
#else
static const int D = 3; static const char * NAMES[] = { "cartesian", "cylindrical", "spherical" };
#endif
typedef vg::spatial_point<double, vg::cartesian_cs<D> > CP;
// independent conversion
template<class CS> struct Ref2;
template<int d> struct Ref2<vg::cartesian_cs<d> > { static P3 cart(P3 p) { return p; } static const int no = 0; static bool normal(P3) { return true; } };
template<> struct Ref2<vg::polar_cs> { static P3 cart(P3 p) { return P3(p.c[0] * std::cos(p.c[1]), p.c[0] * std::sin(p.c[1])); } static const int no = 1; static bool normal(P3 p) { return p.c[0] >= 0 && std::fabs(p.c[1]) <= 3.1415926536; } };
template<> struct Ref2<vg::cylindrical_cs> { static P3 cart(P3 p) { return P3(p.c[0] * std::cos(p.c[1]), p.c[0] * std::sin(p.c[1]), p.c[2]); } static const int no = 1; static bool normal(P3 p) { return p.c[0] >= 0 && std::fabs(p.c[1]) <= 3.1415926536; } };
template<> struct Ref2<vg::spherical_cs> { static P3 cart(P3 p) { return P3(p.c[0] * std::sin(p.c[1]) * std::cos(p.c[2]), p.c[0] * std::sin(p.c[1]) * std::sin(p.c[2]), p.c[0] * std::cos(p.c[1])); } static const int no = 2; static bool normal(P3 p) { return p.c[0] >= 0 && p.c[1] >= 0 && p.c[1] <= 3.1415926536 && std::fabs(p.c[2]) <= 3.1415926536; } };
template<class CS> struct PTy { typedef vg::spatial_point<double, CS> type; };
template<class CS> typename PTy<CS>::type from(P3 c) { CP p; for (int i = 0; i < D; ++i) p[i] = c.c[i]; typename PTy<CS>::type r(p); return r; }
template<> CP from<vg::cartesian_cs<D> >(P3 c) { CP p; for (int i = 0; i < D; ++i) p[i] = c.c[i]; return p; }

template<class A> void single(P3 p)
{
  typedef typename PTy<A>::type PA; PA a = from<A>(p); std::string n = std::string(NAMES[Ref2<A>::no]) + show(p);
  MCHECK(near(Ref2<A>::cart(p3(a)), p), "convert", n + " gives " + show(p3(a))); MCHECK(Ref2<A>::normal(p3(a)), "normal_form", n + " gives " + show(p3(a)));
  CP back = vg::to_cartesian(a); MCHECK(near(p3(back), p), "round_trip", n + " back " + show(p3(back)));
  CP as; as = a; MCHECK(near(p3(as), p), "assign", n);
  MCHECK(mc::close(vg::norm_1(a), n1(p)) && mc::close(vg::norm_2(a), len(p)) && mc::close(vg::norm_inf(a), ninf(p)) && mc::close(vg::norm(a), len(p)), "norm", n);
  MCHECK(near(Ref2<A>::cart(p3(-a)), P3() - p), "negate", n);
  static const double F[] = { 0, 1, -1, 2, 0.5, -3 };
  for (int k = 0; k < 6; ++k)
  {
    double f = F[k]; PA x = a; x *= f; MCHECK(near(Ref2<A>::cart(p3(x)), f * p, 10) && near(Ref2<A>::cart(p3(a * f)), f * p, 10) && near(Ref2<A>::cart(p3(f * a)), f * p, 10), "stretch", n + " * " + mc::str(f));
    if (f != 0) { PA y = a; y /= f; MCHECK(near(Ref2<A>::cart(p3(y)), (1/f) * p, 10) && near(Ref2<A>::cart(p3(a / f)), (1/f) * p, 10), "shrink", n + " / " + mc::str(f)); }
  }
}
template<class A, class B> void convert(P3 p)        // direct conversion between two systems
{
  typename PTy<A>::type a = from<A>(p); typename PTy<B>::type b(a), c; c = a; MCHECK(near(Ref2<B>::cart(p3(b)), p) && near(Ref2<B>::cart(p3(c)), p), "convert_pair", std::string(NAMES[Ref2<A>::no]) + "->" + NAMES[Ref2<B>::no] + show(p) + " gives " + show(p3(b)));
}
template<class A> void same(P3 p, P3 q)
{
  typedef typename PTy<A>::type PA; PA a = from<A>(p), b = from<A>(q); std::string n = std::string(NAMES[Ref2<A>::no]) + show(p) + show(q);
  PA x = a; x += b; PA y = a; y -= b;
  MCHECK(near(Ref2<A>::cart(p3(a + b)), p + q) && near(Ref2<A>::cart(p3(x)), p + q), "add", n); MCHECK(near(Ref2<A>::cart(p3(a - b)), p - q) && near(Ref2<A>::cart(p3(y)), p - q), "subtract", n);
}
template<class A, class B> void mixed(P3 p, P3 q)
{
  typename PTy<A>::type a = from<A>(p); typename PTy<B>::type b = from<B>(q); std::string n = std::string(NAMES[Ref2<A>::no]) + show(p) + NAMES[Ref2<B>::no] + show(q);
  MCHECK(mc::close(vg::inner_prod(a, b), dot(p, q)), "inner_prod", n + " gives " + mc::str(vg::inner_prod(a, b)));
  MCHECK(near(Ref2<A>::cart(p3(vg::cross_prod(a, b))), D == 3 ? cross(p, q) : P3(), 10), "cross_prod", n + " gives " + show(p3(vg::cross_prod(a, b))));
  typename PTy<A>::type x = a; x += b; MCHECK(near(Ref2<A>::cart(p3(x)), p + q), "mixed_add", n); MCHECK(near(Ref2<A>::cart(p3(a - b)), p - q), "mixed_subtract", n);
}
int main(int argc, char ** argv)
{
  mc::init(argc, argv); bool th = mc::S().thorough;
  typedef vg::cartesian_cs<D> C;
  VP g = lattice(D == 2 ? (th ? 12 : 7) : (th ? 4 : 3), D, 0.5);
  mc::begin_group("systems");
  for (size_t i = 0; i < g.size(); ++i)
  {
    if (!mc::begin_case()) continue;
    P3 p = g[i]; mc::trace(show(p)); mc::state(show(p)); mc::outcome(show(p)); mc::transition(g.size());
#if KIND==1
    single<vg::polar_cs>(p);
    for (size_t j = 0; j < g.size(); ++j) { P3 q = g[j]; same<vg::polar_cs>(p, q); mixed<C, vg::polar_cs>(p, q); mixed<vg::polar_cs, C>(p, q); mixed<vg::polar_cs, vg::polar_cs>(p, q); }
#else
    single<vg::cylindrical_cs>(p); single<vg::spherical_cs>(p); convert<vg::cylindrical_cs, vg::spherical_cs>(p); convert<vg::spherical_cs, vg::cylindrical_cs>(p);
    for (size_t j = 0; j < g.size(); ++j)
    {
      P3 q = g[j]; same<vg::cylindrical_cs>(p, q); same<vg::spherical_cs>(p, q);
      mixed<C, vg::cylindrical_cs>(p, q); mixed<C, vg::spherical_cs>(p, q); mixed<vg::cylindrical_cs, C>(p, q); mixed<vg::spherical_cs, C>(p, q);
      mixed<vg::cylindrical_cs, vg::spherical_cs>(p, q); mixed<vg::spherical_cs, vg::cylindrical_cs>(p, q); mixed<vg::cylindrical_cs, vg::cylindrical_cs>(p, q); mixed<vg::spherical_cs, vg::spherical_cs>(p, q);
    }
#endif
  }
  // every representation, also non-normal ones (negative radius, angles outside the principal range)
  mc::begin_group("representations");
  static const double PI = 3.14159265358979323846;
  for (int r = -3; r <= 3; ++r) for (int a = -12; a <= 12; ++a) for (int b = (D == 3 ? -12 : 0); b <= (D == 3 ? 12 : 0); ++b)
  {
    if (!mc::begin_case()) continue;
    mc::trace(mc::str(r) + "," + mc::str(a) + "," + mc::str(b)); mc::transition();
#if KIND==1
    vg::spatial_point<double, vg::polar_cs> p(r * 0.5, a * PI / 4); CP c(p); MCHECK(near(p3(c), Ref2<vg::polar_cs>::cart(p3(p))), "representation", show(p3(p)));
    MCHECK(mc::close(vg::norm_2(p), std::fabs(r * 0.5)), "representation_norm", show(p3(p)));
#else
    vg::spatial_point<double, vg::spherical_cs> p(r * 0.5, a * PI / 4, b * PI / 4); CP c(p); P3 w = Ref2<vg::spherical_cs>::cart(p3(p)); MCHECK(near(p3(c), w), "representation", show(p3(p)));
    vg::spatial_point<double, vg::cylindrical_cs> y(p); MCHECK(near(Ref2<vg::cylindrical_cs>::cart(p3(y)), w), "representation_cylindrical", show(p3(p)));
    vg::spatial_point<double, vg::cylindrical_cs> z(r * 0.5, a * PI / 4, b * 0.5); P3 v = Ref2<vg::cylindrical_cs>::cart(p3(z)); CP d(z); MCHECK(near(p3(d), v), "representation", show(p3(z)));
    if (r >= 0) { vg::spatial_point<double, vg::spherical_cs> s(z); MCHECK(near(Ref2<vg::spherical_cs>::cart(p3(s)), v), "representation_spherical", show(p3(z))); }
    MCHECK(mc::close(vg::norm_2(p), std::fabs(r * 0.5)), "representation_norm", show(p3(p)));
#endif
  }
  return mc::finish();
}
#else
#if KIND==3
typedef vg::line_1d_mesh M; static const char * CELLS = "0,1;1,2;3,2"; static const int NP = 5;
#elif KIND==4
typedef vg::triangular_2d_mesh M; static const char * CELLS = "0,1,2;1,2,3;3,4,2"; static const int NP = 6;
#elif KIND==5
typedef vg::tetrahedral_3d_mesh M; static const char * CELLS = "0,1,2,3;1,2,3,4;2,3,4,5"; static const int NP = 7;
#elif KIND==6
typedef vg::triangular_3d_mesh M; static const char * CELLS = "0,1,2;1,2,3;3,4,2"; static const int NP = 6;
#endif
static const int D = vg::result_of::geometric_dimension<M>::value;
typedef vg::result_of::point<M>::type PT; typedef vg::result_of::cell_tag<M>::type CT; typedef vg::result_of::vertex_handle<M>::type VH;
typedef vg::result_of::segmentation<M>::type SG; typedef vg::result_of::segment_handle<SG>::type SEG;
static P3 where(int i) { return P3(i * 0.5 - 1, D > 1 ? (i * i % 5) : 0, D > 2 ? (i * i * i % 7) : 0); }
struct Twist { double k; PT operator()(PT p) const { PT r = p; for (int i = 0; i < D; ++i) r[i] = p[i] * p[i] + k * p[(i + 1) % D] + i; return r; } };
static P3 twist(P3 p, double k) { P3 r; for (int i = 0; i < D; ++i) r.c[i] = p.c[i] * p.c[i] + k * p.c[(i + 1) % D] + i; return r; }
static PT pt(P3 p) { PT r; for (int i = 0; i < D; ++i) r[i] = p.c[i]; return r; }

struct World
{
  M m; SG sg; std::vector<VH> v; std::vector<P3> ref; std::set<int> inseg;
  World(int n, bool rev, int mask) : sg(m)
  {
    v.resize(NP); ref.resize(NP); VVI c = tup(CELLS);
    for (int i = 0; i < NP; ++i) { int j = rev ? NP - 1 - i : i; v[j] = vg::make_vertex(m, mkpoint<M>(where(j).c[0], where(j).c[1], where(j).c[2])); ref[j] = where(j); }
    SEG s = sg.make_segment();
    for (int i = 0; i < n; ++i) { std::vector<VH> h; for (size_t k = 0; k < c[i].size(); ++k) h.push_back(v[c[i][k]]); vg::result_of::cell_handle<M>::type x = vg::make_element<CT>(m, h.begin(), h.end()); if (mask >> i & 1) { vg::add(s, vg::dereference_handle(m, x)); for (size_t k = 0; k < c[i].size(); ++k) inseg.insert(c[i][k]); } }
  }
};
// operations: index -> affine map (or the twist)
struct Op { std::string name; int k; double f; P3 c; double A[9]; P3 t; };
static std::vector<Op> ops()
{
  std::vector<Op> r; Op o; memset(o.A, 0, sizeof o.A); static const double F[] = { 0, 1, -1, 2, 0.5 };
  VP centers = lattice(1, D, 1);
  for (int k = 0; k < 5; ++k) { o.k = 0; o.f = F[k]; o.name = "scale " + mc::str(o.f); r.push_back(o); for (size_t i = 0; i < centers.size(); i += D == 3 ? 5 : 1) { o.k = 1; o.c = centers[i]; o.name = "scale " + mc::str(o.f) + " about " + show(o.c); r.push_back(o); } }
  // matrices with entries in {-1,0,2}: all for 1d and 2d, all with at most four non-zero entries out of a cyclic family in 3d
  int nm = D == 1 ? 3 : D == 2 ? 81 : 120;
  for (int q = 0; q < nm; ++q) { o.k = 2; int z = D == 3 ? q * 164 + 7 : q; for (int i = 0; i < D * D; ++i, z /= 3) o.A[i] = z % 3 == 0 ? 0 : z % 3 == 1 ? -1 : 2; o.t = centers[q % centers.size()]; o.name = "affine #" + mc::str(q); r.push_back(o); }
  for (int k = -1; k < 2; ++k) { o.k = 3; o.f = k; o.name = "functor " + mc::str(k); r.push_back(o); o.k = 4; o.name = "functor+accessor " + mc::str(k); r.push_back(o); o.k = 5; o.name = "functor on segment " + mc::str(k); r.push_back(o); o.k = 6; o.name = "functor into other storage " + mc::str(k); r.push_back(o); }
  return r;
}
static void apply(World & w, Op const & o)
{
  mc::transition(); typedef vg::result_of::default_point_accessor<M>::type Acc; Twist tw; tw.k = o.f;
  switch (o.k)
  {
    case 0: vg::scale(w.m, o.f); for (int i = 0; i < NP; ++i) w.ref[i] = o.f * w.ref[i]; break;
    case 1: vg::scale(w.m, o.f, pt(o.c)); for (int i = 0; i < NP; ++i) w.ref[i] = o.f * (w.ref[i] - o.c) + o.c; break;
    case 2: vg::affine_transform(w.m, o.A, pt(o.t)); for (int i = 0; i < NP; ++i) { P3 n = o.t; for (int a = 0; a < D; ++a) for (int b = 0; b < D; ++b) n.c[a] += o.A[a * D + b] * w.ref[i].c[b]; w.ref[i] = n; } break;
    case 3: vg::geometric_transform(w.m, tw); for (int i = 0; i < NP; ++i) w.ref[i] = twist(w.ref[i], o.f); break;
    case 4: { Acc acc; vg::geometric_transform(w.m, tw, acc); for (int i = 0; i < NP; ++i) w.ref[i] = twist(w.ref[i], o.f); break; }
    case 5: { Acc acc; vg::geometric_transform(*w.sg.begin(), tw, acc); for (int i = 0; i < NP; ++i) if (w.inseg.count(i)) w.ref[i] = twist(w.ref[i], o.f); break; }
    case 6: { std::vector<PT> store; vg::result_of::accessor<std::vector<PT>, vg::result_of::vertex<M>::type>::type acc(store);
              for (int i = 0; i < NP; ++i) acc(vg::dereference_handle(w.m, w.v[i])) = pt(w.ref[i]);
              vg::geometric_transform(w.m, tw, acc); for (int i = 0; i < NP; ++i) { P3 g = p3(acc(vg::dereference_handle(w.m, w.v[i]))); MCHECK(near(g, twist(w.ref[i], o.f), ninf(g)), "other_storage", mc::str(i)); } break; }
  }
}
static std::string topo(Snap const & s) { Snap t = s; for (std::map<int,std::vector<double> >::iterator i = t.pos.begin(); i != t.pos.end(); ++i) i->second.clear(); return t.text(); }
int main(int argc, char ** argv)
{
  mc::init(argc, argv); bool th = mc::S().thorough; std::vector<Op> o = ops(); size_t small = 0;
  mc::begin_group("transforms");
  VVI cells = tup(CELLS);
  for (int n = 0; n <= (int)cells.size(); ++n) for (int mask = 0; mask < 1 << n; ++mask) for (int rev = 0; rev < 2; ++rev) for (size_t a = 0; a < o.size(); ++a) for (int b = -1; b < (int)o.size(); b += 1)
  {
    bool pair = b >= 0; if (pair && !th && (n != (int)cells.size() || mask != 5 || rev || (D == 3 && (a * 7 + b) % 11))) continue;
    if (pair && th && (n != (int)cells.size() || mask != 5)) continue;
    if (!mc::begin_case()) continue;
    mc::trace(mc::str(n) + " cells mask " + mc::str(mask) + (rev ? " reversed: " : ": ") + o[a].name + (pair ? ", " + o[b].name : ""));
    World w(n, rev, mask); std::string before = topo(snap(w.m)); apply(w, o[a]); if (pair) apply(w, o[b]);
    std::string st;
    for (int i = 0; i < NP; ++i) { P3 g = p3(vg::point(w.m, w.v[i])); MCHECK(near(g, w.ref[i], ninf(w.ref[i])), "moved", "vertex " + mc::str(i) + " at " + show(g) + " expected " + show(w.ref[i])); st += show(w.ref[i]); }
    MCHECK(topo(snap(w.m)) == before, "topology", ""); mc::state(st); mc::outcome(st); ++small;
  }
  return mc::finish();
}
#endif
