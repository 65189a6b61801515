// P26: serialising a mesh and reading the archive back is the identity on
// vertices (positions, order) and cells (corner order); an archive can hold
// several meshes; damaged archives are reported.
#include "vtk.hpp"
#include "viennagrid/io/serialization.hpp"
typedef vg::io::mesh_serializer<Mesh> Ser;
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>

static void check(Mesh const & n, std::vector<Model> const & ms)      // n holds the meshes one after the other
{
  size_t nv = 0, nc = 0; for (size_t i = 0; i < ms.size(); ++i) { nv += ms[i].pos.size(); nc += ms[i].cells.size(); }
  typedef vg::result_of::const_vertex_range<Mesh>::type VR; VR vr(n); typedef vg::result_of::const_cell_range<Mesh>::type CR; CR cr(n);
  if (!MCHECK(vr.size() == nv && cr.size() == nc, "serial-sizes", mc::str(vr.size()) + "/" + mc::str(cr.size()))) return;
  vg::result_of::iterator<VR>::type v = vr.begin(); vg::result_of::iterator<CR>::type c = cr.begin(); std::map<int,int> at; int off = 0;
  for (size_t i = 0; i < ms.size(); ++i)
  {
    for (size_t k = 0; k < ms[i].pos.size(); ++k, ++v) { at[(int)v->id().get()] = off + (int)k; bool ok = true; for (int d = 0; d < DIM; ++d) ok &= vg::point(n, *v)[d] == ms[i].pos[k][d]; MCHECK(ok, "serial-vertex", "vertex " + mc::str(k)); }
    for (size_t k = 0; k < ms[i].cells.size(); ++k, ++c) { VI g = vids(*c); for (size_t q = 0; q < g.size(); ++q) g[q] = at.count(g[q]) ? at[g[q]] - off : -1; MCHECK(g == ms[i].cells[k], "serial-cell", show(g) + " instead of " + show(ms[i].cells[k])); }
    off += (int)ms[i].pos.size();
  }
}
// the vertices of a mesh are visited in creation order, so a model with ids in any order describes the same sequence
template<class O, class I> void trip(Model const & a, Model const & b, int how)
{
  std::stringstream ss; Built x(a), y(b);
  { O oa(ss); Ser s(x.mesh), t; t.load(y.mesh); oa << (Ser const &)s; oa << (Ser const &)t; mc::transition(); mc::transition(); }
  MCHECK(vg::cells(x.mesh).size() == a.cells.size() && vg::vertices(x.mesh).size() == a.pos.size(), "serial-source", "");
  std::vector<Model> A(1, a), B(1, b), AB(1, a); AB.push_back(b);
  I ia(ss);
  if (how == 0) { Mesh n, m; Ser s(n), t(m); ia >> s; ia >> t; MCHECK(&s() == &n && &t.get() == &m, "serial-mesh", ""); check(n, A); check(m, B); }
  else if (how == 1) { Mesh n; Ser s; s.load(n); ia >> s; ia >> s; check(n, AB); }                       // into a mesh with content
  else { Mesh n, m; Ser s(n); ia >> s; s.load(m); ia >> s; check(n, A); check(m, B); }
}
static VVI orders()
{
  VVI r; VI o; for (int i = 0; i < SH::nv; ++i) o.push_back(i);
  if (SH::nv <= 4) do r.push_back(o); while (std::next_permutation(o.begin(), o.end()));
  else for (int k = 0; k < 8; ++k) { VI q(o); std::rotate(q.begin(), q.begin() + k, q.end()); r.push_back(q); std::reverse(q.begin(), q.end()); r.push_back(q); }
  return r;
}
int main(int argc, char ** argv)
{
  mc::init(argc, argv); mkscratch(); const bool T = mc::S().thorough; std::cout.rdbuf(0); std::cerr.rdbuf(0);
  VVI base = basecells(), ord = orders();
  mc::begin_group("pairs");
  for (size_t a = 0; a < ord.size(); ++a) for (size_t b = 0; b < ord.size(); ++b) for (int ids = 0; ids < 4; ++ids) for (int how = 0; how < 3; ++how)
  {
    if (!mc::begin_case()) continue;
    Model m, n; m.pos = pool(NP); m.cells.push_back(pick(base[0], ord[a])); m.cells.push_back(pick(base[1], ord[b]));
    for (int i = 0; i < NP && ids; ++i) m.vid.push_back(ids == 1 ? NP - 1 - i : ids == 2 ? 2 * i + 1 : (i * 7 + 3) % 13 + 20 * (i % 2));
    n.pos = pool(SH::nv); n.cells.push_back(pick(VI(base[0]), ord[b])); bool ok = true; for (size_t k = 0; k < n.cells[0].size(); ++k) ok &= n.cells[0][k] < SH::nv; if (!ok) n.cells.clear();
    std::string id = "cells" + show(m.cells) + " ids" + mc::str(ids) + " how" + mc::str(how); mc::trace(id); mc::state(id);
    trip<boost::archive::text_oarchive, boost::archive::text_iarchive>(m, n, how); trip<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(n, m, how);
    mc::outcome(id);
  }
  mc::begin_group("subsets");
  for (int s = 0; s < (1 << base.size()); ++s) for (int nv = 0; nv < 3; ++nv) for (int ids = 0; ids < 4; ++ids)
  {
    Model m; for (size_t c = 0; c < base.size(); ++c) if (s >> c & 1) m.cells.push_back(base[c]);
    m.pos = pool(std::min(NP + nv, 12)); if (m.cells.empty()) m.pos = pool(nv); for (size_t i = 0; i < m.pos.size() && ids; ++i) m.vid.push_back(ids == 1 ? 30 - (int)i : ids == 2 ? 2 * i + 1 : (i * 7 + 3) % 13 + 20 * (i % 2));
    for (int how = 0; how < 3; ++how)
    { if (!mc::begin_case()) continue; mc::trace("cells" + show(m.cells) + " vertices" + mc::str(m.pos.size()) + " ids" + mc::str(ids) + " how" + mc::str(how)); mc::state(mc::str(s) + "/" + mc::str(nv) + "/" + mc::str(ids)); trip<boost::archive::text_oarchive, boost::archive::text_iarchive>(m, m, how); mc::outcome(mc::str(s)); }
  }
  mc::begin_group("blocks");
  {
    VVI sizes = SH::dim == 1 ? tup("20,0,0;300,0,0") : SH::dim == 2 ? tup("4,3,0;12,11,0") : tup("2,2,2;4,4,3");
    for (size_t z = 0; z < sizes.size(); ++z) for (int k = 0; k < 27; ++k) for (int how = 0; how < 3; ++how)
    {
      if (!mc::begin_case()) continue; Block b = block<CT>(sizes[z][0], sizes[z][1], sizes[z][2], k % 3, k / 3 % 3, k / 9), c = block<CT>(2, 2, 1, (k + 1) % 3, k / 9, k % 2);
      Model m, n; m.pos = b.pos; m.cells = b.cells; n.pos = c.pos; n.cells = c.cells; mc::trace(b.name + " how" + mc::str(how)); mc::state(b.name);
      if (k % 2) for (size_t i = 0; i < m.pos.size(); ++i) m.vid.push_back(2 * (int)(m.pos.size() - i));
      trip<boost::archive::text_oarchive, boost::archive::text_iarchive>(m, n, how); trip<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(n, m, how); mc::outcome(b.name);
    }
  }
  mc::begin_group("unset");
  if (mc::begin_case())
  { mc::trace("no mesh"); std::stringstream ss; boost::archive::text_oarchive oa(ss); Ser s; bool t = false; try { oa << (Ser const &)s; } catch (vg::io::bad_serialization_state_exception const & e) { t = std::string(e.what()).find("Bad serialization") != std::string::npos; } MCHECK(t, "serial-unset", ""); }
  // cut archives: reported or complete
  mc::begin_group("cut");
  {
    Model m; m.pos = pool(NP); m.cells = base; Built x(m); std::stringstream ss; { boost::archive::text_oarchive oa(ss); Ser s(x.mesh); oa << (Ser const &)s; }
    std::string text = ss.str(), trimmed = text.substr(0, text.find_last_not_of(" \n") + 1); size_t lastnum = trimmed.find_last_of(' ') + 1;
    for (size_t i = 0; i <= text.size(); i += 1)
    {
      if (!mc::begin_case()) continue; mc::trace("cut at " + mc::str(i)); mc::state("cut" + mc::str(i)); mc::transition();
      std::stringstream in(text.substr(0, i)); Mesh n; Ser s(n); bool failed = false; try { boost::archive::text_iarchive ia(in); ia >> s; } catch (std::exception const &) { failed = true; }
      if (i <= lastnum) MCHECK(failed, "serial-cut-accepted", ""); if (i > trimmed.size()) { MCHECK(!failed, "serial-rejected", ""); check(n, std::vector<Model>(1, m)); }
      mc::outcome(failed ? "failed" : "read");
    }
    // every number replaced by a large one
    mc::begin_group("garble");
    for (size_t p = 22; p < trimmed.size(); )
    {
      size_t e = trimmed.find(' ', p); if (e == std::string::npos) e = trimmed.size();
      if (mc::begin_case())
      { mc::trace("garble at " + mc::str(p)); mc::state("garble" + mc::str(p)); mc::transition(); std::stringstream in(trimmed.substr(0, p) + "x" + trimmed.substr(e)); Mesh n; Ser s(n); bool failed = false; try { boost::archive::text_iarchive ia(in); ia >> s; } catch (std::exception const &) { failed = true; } MCHECK(failed || p < 40, "serial-garbled-accepted", ""); mc::outcome(failed ? "failed" : "read"); }
      if (mc::begin_case() && e - p <= 2)
      { mc::trace("enlarge at " + mc::str(p)); mc::state("enlarge" + mc::str(p)); mc::transition(); std::stringstream in(trimmed.substr(0, p) + "9" + trimmed.substr(p)); Mesh n; Ser s(n); try { boost::archive::text_iarchive ia(in); ia >> s; } catch (std::exception const &) {} mc::outcome("any"); }
      p = e + 1;
    }
  }
  (void)T;
  return mc::finish();
}
