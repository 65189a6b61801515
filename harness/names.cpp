// P11: segment ids and names.  Every history of creation by automatic id, by
// chosen id, by name, renaming and clearing, up to a depth; full observation
// through every look-up path at the end of each history.
#include "vg.hpp"
typedef vg::triangular_2d_mesh M;
typedef vg::result_of::segmentation<M>::type SEG;
typedef vg::result_of::segment_handle<SEG>::type SH;
typedef vg::result_of::vertex_handle<M>::type VH;
typedef vg::result_of::cell<M>::type Cell;
typedef vg::result_of::vertex<M>::type Vertex;
typedef SEG::segment_id_type ID;

static const char * NAMES[140] = {"a", "1", "2", "b"};
static int IDS[200] = {0, 1, 3, 4};
static int ALL_NAMES = 4;                          // names looked up
static int NN = 3, NI = 3;
struct Model
{
  std::map<int,std::string> name; int high; std::map<int, SI> cells;
  Model() : high(-1) {}
  int find(std::string const & n) const { for (std::map<int,std::string>::const_iterator i = name.begin(); i != name.end(); ++i) if (i->second == n) return i->first; return -1; }
  bool make(int id) { if (name.count(id)) return true; if (find(mc::str(id)) >= 0) return false; name[id] = mc::str(id); high = std::max(high, id); return true; }
  std::string text() const { std::string s; for (std::map<int,std::string>::const_iterator i = name.begin(); i != name.end(); ++i) { s += mc::str(i->first) + "=" + i->second; std::map<int,SI>::const_iterator c = cells.find(i->first); if (c != cells.end()) s += show(c->second); s += ";"; } return s + mc::str(high); }
};
// M; I id; N name; R segment name (segment = position in id order); C; X re-init for the other mesh; A segment cell
struct Op { char k; int a, b; Op(char k_, int a_ = 0, int b_ = 0) : k(k_), a(a_), b(b_) {} };
static std::string showop(Op const & o) { return std::string(1, o.k) + (o.k == 'M' || o.k == 'C' || o.k == 'X' ? "" : o.k == 'N' ? std::string(NAMES[o.a]) : mc::str(o.a)) + (o.k == 'R' ? std::string("=") + NAMES[o.b] : o.k == 'A' ? "c" + mc::str(o.b) : ""); }
static int nth(Model const & m, int i) { std::map<int,std::string>::const_iterator it = m.name.begin(); std::advance(it, i); return it->first; }

struct World { M mesh1, mesh2; M * mp; SEG seg; typedef std::vector<vg::result_of::cell_handle<M>::type> CV; CV c1, c2; std::map<int,const void*> view;
  static void fill(M & mesh, CV & c) { VH v[4]; for (int i = 0; i < 4; ++i) v[i] = vg::make_vertex(mesh, mkpoint<M>(i, i*i)); c.push_back(vg::make_triangle(mesh, v[0],v[1],v[2])); c.push_back(vg::make_triangle(mesh, v[1],v[2],v[3])); }
  World() : mp(&mesh1), seg(mesh1) { fill(mesh1, c1); fill(mesh2, c2); }
  void other() { mp = mp == &mesh1 ? &mesh2 : &mesh1; seg.init(*mp); view.clear(); }        // re-initialised for another mesh
  M & mesh() { return *mp; } CV & c() { return mp == &mesh1 ? c1 : c2; } };

static void verify(World & w, Model const & m)
{
  SEG & s = w.seg; SEG const & cs = s;
  MCHECK(s.size() == m.name.size() && cs.empty() == m.name.empty(), "size", mc::str(s.size()));
  MCHECK(&s.mesh() == w.mp && &cs.mesh() == w.mp, "mesh", "");
  // documented: the highest segment id
  if (!m.name.empty()) MCHECK((int)cs.id_upper_bound() >= m.name.rbegin()->first, "id-upper-bound", mc::str(cs.id_upper_bound()));
  { std::map<int,std::string>::const_iterator e = m.name.begin();
    for (SEG::iterator i = s.begin(); i != s.end(); ++i, ++e)
    { if (!MCHECK(e != m.name.end(), "iterate", "too many")) break;
      MCHECK((int)i->id() == e->first && (*i).name() == e->second && &i->parent() == &s, "iterate", mc::str(i->id()) + " " + i->name() + " want " + mc::str(e->first) + " " + e->second); }
    MCHECK(e == m.name.end(), "iterate", "too few"); }
  { std::map<int,std::string>::const_iterator e = m.name.begin();
    for (SEG::const_iterator i = cs.begin(); i != cs.end() && e != m.name.end(); ++i, ++e) MCHECK((int)i->id() == e->first && (*i).name() == e->second, "const-iterate", mc::str(i->id())); }
  const int LIMIT = std::max(7, m.high + 3);
  for (int id = 0; id < LIMIT; ++id)
  {
    std::map<int,std::string>::const_iterator e = m.name.find(id);
    MCHECK(cs.segment_present(id) == (e != m.name.end()), "segment-present", mc::str(id));
    MCHECK((s.find(id) == s.end()) == (e == m.name.end()) && (cs.find(id) == cs.end()) == (e == m.name.end()), "find", mc::str(id));
    bool threw = false; std::string what;
    try { SH const & h = cs.at(ID(id)); MCHECK((int)h.id() == id && (e == m.name.end() || h.name() == e->second), "at-id", mc::str(id)); }
    catch (vg::segment_id_not_found_exception const & x) { threw = true; what = x.what(); }
    MCHECK(threw == (e == m.name.end()), "at-id-throws", mc::str(id));
    if (threw) MCHECK(what.find("ID " + mc::str(id) + "!") != std::string::npos, "at-id-what", what);
    if (e == m.name.end()) continue;
    MCHECK((int)s.get_segment(ID(id)).id() == id && (int)cs.get_segment(ID(id)).id() == id, "get-by-id", mc::str(id));
    MCHECK((int)s(ID(id)).id() == id && (int)s[ID(id)].id() == id && (int)cs(ID(id)).id() == id && (int)cs[ID(id)].id() == id, "call-by-id", mc::str(id));
    MCHECK(s(ID(id)).name() == e->second, "name-of-id", mc::str(id));
    std::map<int,const void*>::iterator k = w.view.find(id);
    if (k == w.view.end()) w.view[id] = &s(ID(id)).view(); else MCHECK(k->second == &s(ID(id)).view(), "segment-identity", mc::str(id));
    SI want; std::map<int,SI>::const_iterator cc = m.cells.find(id); if (cc != m.cells.end()) want = cc->second;
    VI got = all_ids<vg::triangle_tag>(cs(ID(id))); MCHECK(SI(got.begin(), got.end()) == want, "segment-content", mc::str(id) + " " + show(got));
    for (int c = 0; c < 2; ++c) MCHECK(vg::is_in_segment(s(ID(id)), vg::dereference_handle(w.mesh(), w.c()[c])) == (want.count(c) > 0), "is-in-segment", mc::str(id));
  }
  for (int k = 0; k < ALL_NAMES + LIMIT; ++k)
  {
    std::string n = k < ALL_NAMES ? NAMES[k] : mc::str(k - ALL_NAMES); int e = m.find(n);
    bool threw = false; std::string what;
    try { SH const & h = cs.at(n); MCHECK((int)h.id() == e && h.name() == n, "at-name", n); }
    catch (vg::segment_name_not_found_exception const & x) { threw = true; what = x.what(); }
    MCHECK(threw == (e < 0), "at-name-throws", n);
    if (threw) MCHECK(what.find(n) != std::string::npos, "at-name-what", what);
    if (e < 0) continue;
    MCHECK((int)s.get_segment(n).id() == e && (int)cs.get_segment(n).id() == e && (int)s(n).id() == e && (int)cs[n].id() == e, "by-name", n);
    MCHECK(&s(n).view() == &s(ID(e)).view(), "by-name-identity", n);
  }
  SI all; for (std::map<int,SI>::const_iterator i = m.cells.begin(); i != m.cells.end(); ++i) all.insert(i->second.begin(), i->second.end());
  VI got = all_ids<vg::triangle_tag>(cs); MCHECK(SI(got.begin(), got.end()) == all && got.size() == all.size(), "segmentation-range", show(got) + " want " + show(all));
  for (int c = 0; c < 2; ++c)
  { std::vector<int> in; for (std::map<int,SI>::const_iterator i = m.cells.begin(); i != m.cells.end(); ++i) if (i->second.count(c)) in.push_back(i->first);
    Cell const & cell = vg::dereference_handle(w.mesh(), w.c()[c]);
    typedef vg::result_of::segment_id_range<SEG,Cell>::type R; R r = vg::segment_ids(cs, cell); VI g; for (R::const_iterator i = r.begin(); i != r.end(); ++i) g.push_back((int)*i); std::sort(g.begin(), g.end());
    MCHECK(g == in, "segment-ids", show(g) + " want " + show(in)); }
}
// returns false when the operation has to be rejected; model unchanged then
static void step(World & w, Model & m, Op const & o)
{
  mc::transition();
  bool threw = false, reject = false, may = false; int got = -2, want = -2; std::string what, col;
  Model n = m;
  int target = (o.k == 'R' || o.k == 'A') ? nth(m, o.a) : -1;
  switch (o.k)
  {
    case 'M': want = m.high + 1; reject = !n.make(want); col = mc::str(want); break;
    case 'I': want = IDS[o.a]; reject = !n.make(want); col = mc::str(want); break;
    case 'N': want = m.find(NAMES[o.a]); if (want < 0) { want = m.high + 1; reject = !n.make(want); col = mc::str(want); if (!reject) n.name[want] = NAMES[o.a]; } break;
    case 'R': { want = target; int h = m.find(NAMES[o.b]); col = NAMES[o.b]; if (h == target) may = true; else if (h >= 0) reject = true; else n.name[target] = NAMES[o.b]; } break;
    case 'C': case 'X': n = Model(); break;
    case 'A': n.cells[target].insert(o.b); break;
  }
  try
  {
    switch (o.k)
    {
      case 'M': got = (int)w.seg.make_segment().id(); break;
      case 'I': got = (int)w.seg(ID(IDS[o.a])).id(); break;
      case 'N': got = (int)w.seg(std::string(NAMES[o.a])).id(); break;
      case 'R': w.seg.get_segment(ID(target)).set_name(NAMES[o.b]); got = target; break;
      case 'C': w.seg.clear(); w.view.clear(); break;
      case 'X': w.other(); break;
      case 'A': vg::add(w.seg.get_segment(ID(target)), vg::dereference_handle(w.mesh(), w.c()[o.b])); break;
    }
  }
  catch (vg::segment_name_collision_exception const & x) { threw = true; what = x.what(); }
  if (may) return;       // renaming to the current name: accepted or refused, nothing changes
  MCHECK(threw == reject, "rejection", showop(o) + (threw ? " refused" : " accepted"));
  if (threw && reject) MCHECK(what.find(": " + col + "!") != std::string::npos, "collision-what", what);
  if (!reject) { if (want != -2) MCHECK(got == want, "result-id", mc::str(got) + " want " + mc::str(want)); m = n; }
}
static void run(std::vector<Op> const & ops, bool every)
{
  if (!mc::begin_case()) return;
  for (size_t i = 0; i < ops.size(); ++i) mc::trace(showop(ops[i]));
  if (every) mc::trace("?");
  World w; Model m;
  for (size_t i = 0; i < ops.size(); ++i) { step(w, m, ops[i]); mc::state(m.text()); if (every) verify(w, m); }
  if (!every) verify(w, m);
  mc::outcome(m.text());
}
static int DEPTH; static bool CELLS;
static void explore(std::vector<Op> & ops, Model const & m)
{
  if ((int)ops.size() == DEPTH) { run(ops, false); if (DEPTH < 5) run(ops, true); return; }
  std::vector<Op> c; c.push_back(Op('M')); c.push_back(Op('C')); c.push_back(Op('X'));
  for (int i = 0; i < NI; ++i) c.push_back(Op('I', i));
  for (int i = 0; i < NN; ++i) c.push_back(Op('N', i));
  for (int s = 0; s < (int)m.name.size() && s < 3; ++s) { for (int i = 0; i < NN; ++i) c.push_back(Op('R', s, i)); if (CELLS) for (int i = 0; i < 2; ++i) c.push_back(Op('A', s, i)); }
  for (size_t i = 0; i < c.size(); ++i)
  {
    Model n = m; Op const & o = c[i];
    if (o.k == 'M') n.make(m.high + 1); else if (o.k == 'C' || o.k == 'X') n = Model(); else if (o.k == 'I') n.make(IDS[o.a]);
    else if (o.k == 'N') { if (m.find(NAMES[o.a]) < 0 && n.make(m.high + 1)) n.name[m.high + 1] = NAMES[o.a]; }
    else if (o.k == 'R') { if (m.find(NAMES[o.b]) < 0) n.name[nth(m, o.a)] = NAMES[o.b]; }
    ops.push_back(o); explore(ops, n); ops.pop_back();
  }
}
// long histories: every cyclic word of operations, repeated until there are many segments
static void growth()
{
  static std::vector<std::string> keep; for (int i = 4; i < 140; ++i) keep.push_back(i % 5 == 4 ? mc::str(i / 2) : "n" + mc::str(i));
  for (int i = 4; i < 140; ++i) NAMES[i] = keep[i - 4].c_str();
  for (int i = 0; i < 200; ++i) IDS[i] = i;
  const int NOPS = 8, LEN = mc::S().thorough ? 60 : 36;
  mc::begin_group("growth"); ALL_NAMES = 50;
  for (int wl = 1; wl <= 3; ++wl) { int total = 1; for (int k = 0; k < wl; ++k) total *= NOPS;
    for (int word = 0; word < total; ++word)
    {
      if (!mc::begin_case()) continue;
      World w; Model m; int fresh = 4, w0 = word, letter[3]; for (int k = 0; k < wl; ++k) { letter[k] = w0 % NOPS; w0 /= NOPS; }
      for (int i = 0; i < LEN; ++i)
      {
        int n = (int)m.name.size(); Op o('M');
        switch (letter[i % wl])
        {
          case 0: break;
          case 1: o = Op('I', m.high + 2); break;
          case 2: o = Op('I', n ? nth(m, (i * 5) % n) : 0); break;
          case 3: o = Op('N', fresh++); break;
          case 4: o = Op('N', 4 + (i * 7) % (fresh - 3)); break;
          case 5: if (n) o = Op('R', (i * 3) % n, fresh++); break;
          case 6: if (n) o = Op('R', n - 1, 4 + (i * 5) % (fresh - 3)); break;
          case 7: if (n) o = Op('A', (i * 3) % n, i & 1); break;
        }
        mc::trace(showop(o)); step(w, m, o); mc::state(m.text());
        if (i % 12 == 11) verify(w, m);
      }
      verify(w, m); mc::outcome(m.text());
    } }
}
int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  const bool T = mc::S().thorough;
  std::vector<Op> o;
  CELLS = true; for (DEPTH = 1; DEPTH <= 3 + T; ++DEPTH) { mc::begin_group("cells-" + mc::str(DEPTH)); explore(o, Model()); }
  CELLS = false; if (T) { NN = 4; NI = 4; }
  for (DEPTH = 4; DEPTH <= 5; ++DEPTH) { mc::begin_group("names-" + mc::str(DEPTH)); explore(o, Model()); }
  growth();
  return mc::finish();
}
