// P19: a damaged VTK file is reported, or (when nothing that matters was lost)
// delivers the complete mesh; never a hang, a crash or a different mesh.
#include "vtk.hpp"

static void put(std::string const & f, std::string const & t) { std::ofstream o(f.c_str(), std::ios::binary); o << t; }

// reads the (damaged) file; then, with the same reader, the intact one
static void attempt(Model const & m, std::string const & damaged, std::string const & good, bool expect_error)
{
  Reader r; bool failed = false; std::string what;
  {
    Mesh mesh; Segm seg(mesh);
    try { r(mesh, seg, damaged); }
    catch (std::exception const & e) { failed = true; what = e.what(); }
    mc::transition();
    if (failed)
      MCHECK(vg::vertices(mesh).size() == 0 && vg::cells(mesh).size() == 0 && seg.size() == 0, "vtk-bad-partial", "the mesh was changed although an error was reported");
  }
  if (failed) { MCHECK(!what.empty(), "vtk-bad-message", "error without description"); mc::outcome(what.substr(0, 60)); }
  else { MCHECK(!expect_error, "vtk-bad-accepted", "damage not reported"); Reader q; read(q, m, damaged, 0); }
  read(r, m, good, 0);
}

int main(int argc, char ** argv)
{
  mc::init(argc, argv); mkscratch(); std::cerr.rdbuf(0);
  mc::S().case_timeout = 20;
  bool th = mc::S().thorough;
  VVI base = basecells();
  std::vector<Model> ms;
  { Model m; m.pos = pool(NP); m.cells = base; m.cells.resize(2); m.data = 15; ms.push_back(m); }
  { Model m; m.pos = pool(NP); m.cells = base; m.data = 0; ms.push_back(m); }
  { Model m; m.pos = pool(NP); m.cells = base; m.data = 9; ms.push_back(m); }
  { Model m; m.pos = pool(NP); m.cells = base; m.segids = tup("0,2")[0]; m.member = tup("0,1;1,2"); m.data = 0x93; ms.push_back(m); }
  for (size_t k = 0; k < ms.size(); ++k)
  {
    Model const & m = ms[k]; bool multi = m.segids.size() > 1;
    Writer w; std::string good = write(w, m, "good", multi); Writer w2; std::string bad = write(w2, m, "bad", multi);
    std::vector<std::string> files;
    if (multi) { files.push_back(path("bad_main.pvd")); for (size_t s = 0; s < m.segids.size(); ++s) files.push_back(path("bad_" + mc::str(m.segids[s]) + ".vtu")); }
    else files.push_back(bad);
    for (size_t f = 0; f < files.size(); ++f)
    {
      bool vtu = files[f].substr(files[f].size() - 3) == "vtu";
      std::string const text = slurp(files[f]);
      std::string const g = "model" + mc::str(k) + "-file" + mc::str(f);
      size_t content = text.rfind("</VTKFile");        // everything up to here is indispensable
      mc::begin_group("cut-" + g);
      for (size_t n = 0; n <= text.size(); ++n)
      {
        if (!mc::begin_case()) continue;
        mc::trace("cut at byte " + mc::str(n)); mc::state(g + mc::str(n));
        put(files[f], text.substr(0, n));
        attempt(m, bad, good, n <= content);
      }
      mc::begin_group("missing-" + g);
      if (mc::begin_case()) { unlink(files[f].c_str()); attempt(m, bad, good, true); }
      if (vtu)
      {
        // tokens and lines
        for (int lines = 0; lines < 2; ++lines)
        {
          std::vector<std::pair<size_t,size_t> > tok;
          for (size_t p = 0; p < text.size(); )
          {
            size_t e = p;
            if (lines) { e = text.find('\n', p); e = e == std::string::npos ? text.size() : e + 1; }
            else { if (isspace(text[p])) { ++p; continue; } while (e < text.size() && !isspace(text[e])) ++e; }
            tok.push_back(std::make_pair(p, e)); p = e;
          }
          mc::begin_group((lines ? "line-" : "token-") + g);
          for (size_t i = 0; i < tok.size(); ++i) for (int op = 0; op < 4; ++op)
          {
            std::string t = text.substr(tok[i].first, tok[i].second - tok[i].first), u;
            char * end; strtod(t.c_str(), &end); bool number = !lines && *end == 0;
            if (op == 0) u = ""; else if (op == 1) u = t + (lines ? "" : " ") + t; else if (!number) continue; else u = op == 2 ? "x" : "</DataArray>";
            if (op == 3 && !th && i % 3) continue;
            if (!mc::begin_case()) continue;
            static const char * on[] = { "remove ", "repeat ", "garble ", "close at " };
            mc::trace(on[op] + t);
            put(files[f], text.substr(0, tok[i].first) + u + text.substr(tok[i].second));
            attempt(m, bad, good, false);
          }
        }
      }
      put(files[f], text);
    }
  }
  return mc::finish();
}
