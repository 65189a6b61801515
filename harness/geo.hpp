// Exact-ish reference geometry on plain triples (independent of the library).
#ifndef VERIF_GEO_HPP
#define VERIF_GEO_HPP
#include "vg.hpp"
struct P3 { double c[3]; P3() { c[0]=c[1]=c[2]=0; } P3(double x, double y = 0, double z = 0) { c[0]=x; c[1]=y; c[2]=z; }
  double operator[](int i) const { return c[i]; } double & operator[](int i) { return c[i]; }
  bool operator<(P3 const & o) const { for (int i = 0; i < 3; ++i) if (c[i] != o.c[i]) return c[i] < o.c[i]; return false; }
  bool operator==(P3 const & o) const { return c[0]==o.c[0] && c[1]==o.c[1] && c[2]==o.c[2]; } };
inline P3 operator-(P3 a, P3 b) { return P3(a.c[0]-b.c[0], a.c[1]-b.c[1], a.c[2]-b.c[2]); }
inline P3 operator+(P3 a, P3 b) { return P3(a.c[0]+b.c[0], a.c[1]+b.c[1], a.c[2]+b.c[2]); }
inline P3 operator*(double s, P3 b) { return P3(s*b.c[0], s*b.c[1], s*b.c[2]); }
inline double dot(P3 a, P3 b) { return a.c[0]*b.c[0]+a.c[1]*b.c[1]+a.c[2]*b.c[2]; }
inline double len(P3 a) { return std::sqrt(dot(a,a)); }
inline double dist(P3 a, P3 b) { return len(a-b); }
inline P3 cross(P3 a, P3 b) { return P3(a.c[1]*b.c[2]-a.c[2]*b.c[1], a.c[2]*b.c[0]-a.c[0]*b.c[2], a.c[0]*b.c[1]-a.c[1]*b.c[0]); }
inline double det(P3 a, P3 b, P3 c) { return dot(a, cross(b,c)); }
typedef std::vector<P3> VP;
inline std::string show(P3 p) { return "(" + mc::str(p.c[0]) + "," + mc::str(p.c[1]) + "," + mc::str(p.c[2]) + ")"; }
inline std::string show(VP const & v) { std::string s; for (size_t i = 0; i < v.size(); ++i) s += show(v[i]); return s; }
// regular grid with n points per axis in d dimensions
inline VP grid(int n, int d) { VP r; for (int x = 0; x < n; ++x) for (int y = 0; y < (d > 1 ? n : 1); ++y) for (int z = 0; z < (d > 2 ? n : 1); ++z) r.push_back(P3(x,y,z)); return r; }
// library point -> P3
template<class PT> P3 p3(PT const & p) { P3 r; for (int i = 0; i < (int)p.size(); ++i) r.c[i] = p[i]; return r; }
// area of the triangle, Gram determinant
inline double tri_area(P3 a, P3 b, P3 c) { P3 u = b-a, v = c-a; return 0.5 * std::sqrt(std::max(0.0, dot(u,u)*dot(v,v) - dot(u,v)*dot(u,v))); }
inline double tet_vol(P3 a, P3 b, P3 c, P3 d) { return std::fabs(det(b-a, c-a, d-a)) / 6; }
// positions kept outside the mesh: twice the position of every vertex
template<class M> struct Doubled
{
  typedef typename vg::result_of::point<M>::type PT; typedef typename vg::result_of::vertex<M>::type V; typedef typename vg::result_of::accessor<std::vector<PT>,V>::type type;
  std::vector<PT> store; Doubled(M & m) { typedef typename vg::result_of::vertex_range<M>::type R; R r(m); for (typename vg::result_of::iterator<R>::type i = r.begin(); i != r.end(); ++i) { size_t k = i->id().get(); if (store.size() <= k) store.resize(k + 1); store[k] = vg::point(m, *i); store[k] *= 2.0; } }
  type operator()() { return type(store); }
};
inline bool eq(double a, double b, double scale) { return std::fabs(a - b) <= 1e-9 * scale; }
#endif
