// P21: accessors and fields are exact per-element storage.
// Every history of writes (through an accessor, a copy of it, dynamic wrappers,
// fields, at()), touches and mesh growth up to a depth; after every operation
// all reading paths must agree with a map from element to last written value.
#ifndef ELEM
#define ELEM 0        // 0 vertices, 1 lines, 2 cells
#endif
#ifndef KIND
#define KIND 1
#endif
#include "vg.hpp"
#include "viennagrid/accessor.hpp"
#if KIND==1
typedef vg::triangular_2d_mesh M;
#elif KIND==4
typedef vg::tetrahedral_3d_mesh M;
#elif KIND==0
typedef vg::line_2d_mesh M;
#endif
typedef vg::result_of::cell_tag<M>::type CT;
#if ELEM==0
typedef vg::vertex_tag ET;
#elif ELEM==1
typedef vg::line_tag ET;
#else
typedef CT ET;
#endif
typedef vg::result_of::element<M, ET>::type El;
typedef vg::result_of::handle<M, ET>::type EH;
typedef vg::result_of::vertex_handle<M>::type VH;
static const int NV = Shape<CT>::nv;

struct Grid                       // elements with ids 0,2,5 and later 7 and an automatic one
{
  M m; std::vector<EH> e; std::vector<VH> v; VI id;
  void vertex(int i, bool with_id)
  {
    vg::result_of::point<M>::type p = mkpoint<M>(i, i*i % 5, i*i*i % 7);
    VH h = with_id ? vg::make_vertex_with_id(m, vg::result_of::vertex<M>::type::id_type(i), p) : vg::make_vertex(m, p);
    v.push_back(h);
  }
  void add(int i)
  {
#if ELEM==0
    vertex(i >= 0 ? i : 60 + (int)v.size(), i >= 0); EH h = v.back();
#else
    std::vector<VH> t; int n = ELEM==1 ? 2 : NV; size_t b = v.size();
    for (int k = 0; k < n; ++k) vertex((int)(b + k), false);
    for (int k = 0; k < n; ++k) t.push_back(v[b + k]);
    EH h = i >= 0 ? vg::make_element_with_id<El>(m, t.begin(), t.end(), El::id_type(i)) : vg::make_element<El>(m, t.begin(), t.end());
#endif
    e.push_back(h); id.push_back((int)vg::dereference_handle(m, h).id().get());
  }
  El & operator[](int i) { return vg::dereference_handle(m, e[i]); }
};
static const int GROW[] = { 7, -1 };

template<class V> struct Val;
template<> struct Val<double> { static double mk(int i) { return i + 0.25; } };
template<> struct Val<std::string> { static std::string mk(int i) { return "v" + mc::str(i); } };

template<class C> struct Dense { enum { value = 1 }; };
template<class K, class V, class P, class A> struct Dense< std::map<K,V,P,A> > { enum { value = 0 }; };

template<class V, class C> struct World
{
  typedef typename vg::result_of::accessor<C, El>::type Acc;
  typedef typename vg::result_of::field<C, El>::type Fld;
  typedef typename vg::result_of::accessor<const C, El>::type CAcc;
  typedef typename vg::result_of::field<const C, El>::type CFld;
  Grid g; C c; Acc a, b; Fld f, f2;
  vg::base_dynamic_accessor<V, El> * da; vg::base_dynamic_field<V, El> * df;
  vg::base_dynamic_accessor<const V, El> * cda; vg::base_dynamic_field<const V, El> * cdf;
  // model
  std::map<int, V> val; int size; int stamp; V dflt;
  World() : a(c), b(a), f(c, Val<V>::mk(-77)), f2(vg::make_field<El>(c)), size(0), stamp(0), dflt(Val<V>::mk(-77))
  {
    da = new vg::dynamic_accessor_wrapper<Acc>(a); df = new vg::dynamic_field_wrapper<Fld>(f);
    C const & cc = c;
    cda = new vg::dynamic_accessor_wrapper<const CAcc>(vg::make_accessor<El>(cc)); cdf = new vg::dynamic_field_wrapper<const CFld>(CFld(cc, dflt));
    g.add(0); g.add(2); g.add(5);
  }
  ~World() { delete da; delete df; delete cda; delete cdf; }
  bool has(int id) const { return val.count(id) != 0; }
  // model of creating data for id; gaps of dense containers get 'fill'
  void touch(int id, V const & fill) { if (has(id)) return; if (Dense<C>::value) for (; size <= id; ++size) val[size] = fill; else val[id] = fill; }

  void apply(int op, int i)
  {
    mc::transition(); ++stamp; V x = Val<V>::mk(stamp); int id = g.id[i]; El & e = g[i]; bool had = has(id);
    switch (op)
    {
      case 0: a(e) = x; touch(id, V()); val[id] = x; break;
      case 1: b(e) = x; touch(id, V()); val[id] = x; break;
      case 2: (*da)(e) = x; touch(id, V()); val[id] = x; break;
      case 3: f(e) = x; touch(id, dflt); val[id] = x; break;
      case 4: f2(e) = x; touch(id, V()); val[id] = x; break;
      case 5: (*df)(e) = x; touch(id, dflt); val[id] = x; break;
      case 6: { V r = a(e); if (had) { MCHECK(r == val[id], "touch_value", mc::str(r)); } else { touch(id, V()); MCHECK(r == V(), "touch_value", mc::str(r)); } break; }
      case 7: { V r = f(e); if (had) { MCHECK(r == val[id], "touch_value", mc::str(r)); } else { touch(id, dflt); MCHECK(r == V() || r == dflt, "touch_value", mc::str(r)); val[id] = r; } break; }
      case 8: at(a, e, id, x); break;
      case 9: at(f, e, id, x); break;
      case 10: at(*da, e, id, x); break;
      case 11: at(*df, e, id, x); break;
    }
  }
  template<class A> void at(A & acc, El & e, int id, V const & x)
  {
    bool threw = false;
    try { acc.at(e) = x; } catch (std::out_of_range const &) { threw = true; }
    MCHECK(threw == !has(id), "at_write", "id " + mc::str(id) + (threw ? " threw" : " did not throw"));
    if (!threw) val[id] = x;
  }
  // const and non-const reading paths which never create data
  template<class A> void read(A & acc, const char * n, bool field, V const & d)
  {
    A const & ca = acc;
    for (size_t i = 0; i < g.e.size(); ++i)
    {
      El & e = g[i]; El const & ce = e; int id = g.id[i]; bool h = has(id);
      const V * p = acc.find(ce), * q = ca.find(ce);
      if (h) { MCHECK(p && *p == val[id] && q && *q == val[id] && p == q, "find", n + std::string(" id ") + mc::str(id)); MCHECK(ca(ce) == val[id], "read", n + std::string(" id ") + mc::str(id) + " reads " + mc::str(ca(ce)) + " instead of " + mc::str(val[id])); }
      else { MCHECK(!p && !q, "find_missing", n + std::string(" id ") + mc::str(id)); if (field) MCHECK(ca(ce) == d, "default", n + std::string(" id ") + mc::str(id) + " reads " + mc::str(ca(ce))); }
      bool t1 = false, t2 = false; V r1 = V(), r2 = V();
      try { r1 = acc.at(ce); } catch (std::out_of_range const &) { t1 = true; }
      try { r2 = ca.at(ce); } catch (std::out_of_range const &) { t2 = true; }
      MCHECK(t1 == !h && t2 == !h, "at_missing", n + std::string(" id ") + mc::str(id));
      if (h) MCHECK(r1 == val[id] && r2 == val[id], "at_value", n + std::string(" id ") + mc::str(id));
    }
  }
  void check()
  {
    C const & cc = c; std::string st;
    CAcc ca = vg::make_accessor<El>(cc); CFld cf = vg::make_field<El>(cc), cf2(cc, dflt); Acc a2 = vg::make_accessor<El>(c);
    read(a, "accessor", false, V()); read(b, "copy", false, V()); read(a2, "make_accessor", false, V()); read(ca, "const accessor", false, V()); read(*da, "dynamic accessor", false, V()); read(*cda, "const dynamic accessor", false, V());
    read(f, "field", true, dflt); read(f2, "make_field", true, V()); read(cf, "const field", true, V()); read(cf2, "const field with default", true, dflt); read(*df, "dynamic field", true, dflt); read(*cdf, "const dynamic field", true, dflt);
    MCHECK(a.is_valid() && b.is_valid() && f.is_valid() && ca.is_valid() && cf.is_valid(), "is_valid", "");
    MCHECK(c.size() == val.size(), "size", mc::str(c.size()));
    for (typename std::map<int,V>::iterator i = val.begin(); i != val.end(); ++i) st += mc::str(i->first) + "=" + mc::str(i->second) + ";";
    mc::state(st + mc::str(g.e.size())); mc::outcome(st);
  }
};

template<class V, class C> void histories(const char * name, int depth)
{
  for (int len = 1; len <= depth; ++len)
  {
  mc::begin_group(name + mc::str(len));
  mc::Chooser ch;
  do
  {
    ch.rewind();
    bool run = mc::begin_case();
    World<V,C> * w = run ? new World<V,C> : 0; size_t n = 3; int grown = 0;
    for (int d = 0; d < len; ++d)
    {
      int total = 12 * (int)n + (grown < 2 ? 1 : 0), k = ch(total);
      if (k == 12 * (int)n) { if (run) { mc::trace("grow"); w->g.add(GROW[grown]); } ++grown; ++n; }
      else if (run) { mc::trace(mc::str(k % 12) + "@" + mc::str(k / 12)); w->apply(k % 12, k / 12); }
    }
    if (run) w->check();      // prefixes are histories of their own
    delete w;
  } while (ch.next());
  }
}

// many elements with gaps between their ids, written by one path in one order and then overwritten by another
template<class V, class C> void many(const char * name)
{
  mc::begin_group(name + std::string("many"));
  static const int COUNT[] = { 20, 70, 150 }, GAP[] = { 1, 3, 17 };
  for (int n = 0; n < (mc::S().thorough ? 3 : 2); ++n) for (int gap = 0; gap < 3; ++gap) for (int order = 0; order < 3; ++order) for (int op = 0; op < 6; ++op)
  {
    if (!mc::begin_case()) continue;
    mc::trace(mc::str(COUNT[n]) + " elements, gap " + mc::str(GAP[gap]) + ", order " + mc::str(order) + ", path " + mc::str(op));
    World<V,C> w; for (int i = 0; i < COUNT[n]; ++i) w.g.add(9 + i * GAP[gap]);
    int N = (int)w.g.e.size();
    for (int round = 0; round < 2; ++round)
    {
      for (int k = 0; k < N; ++k)
      {
        int i = order == 0 ? k : order == 1 ? N - 1 - k : (k * 7 + 3) % N;
        if (round == 0 && k % 5 == 4) continue;
        w.apply(round == 0 ? op : (op + 1 + k) % 6, i);
      }
      w.check();
    }
  }
}

// accessors kept in a collection, and the points of the vertices
static void collections()
{
  typedef vg::result_of::vertex<M>::type V; typedef vg::result_of::cell<M>::type Cl;
  typedef std::map<Cl::id_type, int> CM;
  typedef vg::collection< vg::make_typemap<V, std::vector<int>, Cl, CM >::type > Coll;
  mc::begin_group("collection");
  mc::Chooser ch;
  do
  {
    ch.rewind(); bool run = mc::begin_case();
    Coll * c = run ? new Coll : 0; M * m = run ? new M : 0; std::vector<VH> v; std::map<int,int> mv, mc_; int cells = 1;
    std::vector<vg::result_of::cell_handle<M>::type> cl;
    if (run) for (int i = 0; i < 2*NV; ++i) v.push_back(vg::make_vertex(*m, mkpoint<M>(i, i*i%5, i*i*i%7)));
    if (run) for (int i = 0; i < 2; ++i) { std::vector<VH> t(v.begin()+i*NV, v.begin()+(i+1)*NV); cl.push_back(vg::make_element<Cl>(*m, t.begin(), t.end())); }
    for (int d = 0; d < 5; ++d)
    {
      int k = ch(2 + NV); if (!run) continue;
      mc::transition(); mc::trace(mc::str(k));
      if (k < 2) { Cl & x = vg::dereference_handle(*m, cl[k]); (d % 2 ? vg::make_accessor<Cl>(*c)(x) : vg::make_field<Cl>(*c)(x)) = d + 10; mc_[k] = d + 10; }
      else { V & x = vg::dereference_handle(*m, v[k]); (d % 2 ? vg::make_accessor<V>(*c)(x) : vg::make_field<V>(*c)(x)) = d + 20; mv[k] = d + 20; }
      Coll const & cc = *c;
      for (int i = 0; i < 2; ++i) { Cl const & x = vg::dereference_handle(*m, cl[i]); MCHECK(vg::make_field<Cl>(cc)(x) == (mc_.count(i) ? mc_[i] : 0), "collection_cell", mc::str(i)); const int * p = vg::make_accessor<Cl>(cc).find(x); MCHECK(!p == !mc_.count(i) && (!p || *p == mc_[i]), "collection_find", mc::str(i)); }
      for (int i = 0; i < 2*NV; ++i) { V const & x = vg::dereference_handle(*m, v[i]); MCHECK(vg::make_field<V>(cc)(x) == (mv.count(i) ? mv[i] : 0), "collection_vertex", mc::str(i)); }
    }
    delete c; delete m;
  } while (ch.next());
}

static void points()
{
  typedef vg::result_of::vertex<M>::type V; typedef vg::result_of::point<M>::type P;
  mc::begin_group("points");
  mc::Chooser ch;
  do
  {
    ch.rewind(); bool run = mc::begin_case(); const int N = 3;
    M * m = run ? new M : 0; std::vector<VH> v; std::vector<P> ref;
    if (run) for (int i = 0; i < N; ++i) { ref.push_back(mkpoint<M>(i, 2*i, 3*i)); v.push_back(vg::make_vertex(*m, ref[i])); }
    for (int d = 0; d < 4; ++d)
    {
      int k = ch(5 * N); if (!run) continue;
      mc::transition(); mc::trace(mc::str(k));
      int i = k % N; P p = mkpoint<M>(10 + d, -d, d * 0.5); V & x = vg::dereference_handle(*m, v[i]);
      vg::result_of::default_point_accessor<M>::type acc = vg::default_point_accessor(*m);
      switch (k / N) { case 0: acc(x) = p; break; case 1: acc.at(x) = p; break; case 2: vg::point(*m, x) = p; break; case 3: vg::point(*m, v[i]) = p; break; case 4: *acc.find(x) = p; break; }
      ref[i] = p;
      for (int j = 0; j < N; ++j)
      {
        V const & y = vg::dereference_handle(*m, v[j]); vg::result_of::default_point_accessor<M>::type const cacc = acc; M const & cm = *m;
        bool ok = true;
        for (size_t t = 0; t < ref[j].size(); ++t) ok = ok && cacc(y)[t] == ref[j][t] && cacc.at(y)[t] == ref[j][t] && (*cacc.find(y))[t] == ref[j][t] && vg::point(cm, y)[t] == ref[j][t] && vg::point(y)[t] == ref[j][t];
        MCHECK(ok, "point", "vertex " + mc::str(j));
      }
    }
    delete m;
  } while (ch.next());
}

// a default constructed accessor or field is not valid, over memory of any content
template<class A> void invalid(const char * n)
{
  if (!mc::begin_case()) return;
  mc::trace(n);
  for (int b = 0; b < 256; ++b)
  {
    union { char raw[sizeof(A)]; long long al; double al2; } u; memset(u.raw, b, sizeof(A));
    A * a = new (u.raw) A; MCHECK(!a->is_valid(), "default_valid", n); a->~A();
  }
}

int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  int d = mc::S().thorough ? 4 : 3;
  histories<double, std::vector<double> >("vector", d);
  histories<double, std::deque<double> >("deque", d);
  histories<double, std::map<El::id_type, double> >("map", d);
  histories<std::string, std::vector<std::string> >("vector_string", d - 1);
  histories<std::string, std::map<El::id_type, std::string> >("map_string", d - 1);
  histories<double, vg::result_of::accessor_container<El, double>::type>("default_container", d - 1);
  histories<double, vg::result_of::accessor_container<El, double, vg::std_deque_tag>::type>("deque_container", d - 1);
  histories<double, vg::result_of::accessor_container<El, double, vg::std_map_tag>::type>("map_container", d - 1);
  many<double, std::vector<double> >("vector"); many<double, std::deque<double> >("deque"); many<double, std::map<El::id_type, double> >("map");
  many<std::string, std::vector<std::string> >("vector_string");
  many<double, vg::result_of::accessor_container<El, double>::type>("default_container");
  mc::begin_group("default_constructed");
  typedef std::vector<double> VD; typedef std::deque<double> DD; typedef std::map<El::id_type,double> MD;
  invalid<vg::result_of::accessor<VD, El>::type>("accessor vector"); invalid<vg::result_of::accessor<const VD, El>::type>("accessor const vector");
  invalid<vg::result_of::accessor<DD, El>::type>("accessor deque"); invalid<vg::result_of::accessor<MD, El>::type>("accessor map"); invalid<vg::result_of::accessor<const MD, El>::type>("accessor const map");
  invalid<vg::result_of::field<VD, El>::type>("field vector"); invalid<vg::result_of::field<const VD, El>::type>("field const vector");
  invalid<vg::result_of::field<DD, El>::type>("field deque"); invalid<vg::result_of::field<MD, El>::type>("field map"); invalid<vg::result_of::field<const MD, El>::type>("field const map");
#if ELEM==0
  collections();
  points();
#endif
  return mc::finish();
}
