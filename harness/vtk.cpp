// P18: writing and reading VTK files are inverse; the files say what VTK means.
#include "vtk.hpp"

static void roundtrip(Model const & m, bool with_seg, int mode)
{
  mc::trace(describe(m)); mc::trace(with_seg ? "seg" : "mesh"); mc::trace("mode" + mc::str(mode)); mc::state(describe(m));
  Writer w; Reader r;
  std::string f = write(w, m, "f", with_seg);
  read(r, m, f, mode);
}

int main(int argc, char ** argv)
{
  mc::init(argc, argv); mkscratch();
  bool th = mc::S().thorough;
  VVI base = basecells();

  // all vertex orders of one and two cells, ids in several orders, isolated vertices
  mc::begin_group("cells");
  {
    VVI ids; VI up; for (int i = 0; i < NP; ++i) up.push_back(i);
    ids.push_back(VI());
    { VI a(up); std::reverse(a.begin(), a.end()); ids.push_back(a); }
    { VI a; for (int i = 0; i < NP; ++i) a.push_back((i * 7 + 3) % 13 + 20 * (i % 2)); ids.push_back(a); }
    { VI a; for (int i = 0; i < NP; ++i) a.push_back((i * 5 + 1) % 11 == 0 ? 40 : (i * 3) % 37 + i / 13); ids.push_back(a); }
    if (NP <= 5) { VI a(up); do ids.push_back(a); while (std::next_permutation(a.begin(), a.end())); }
    VVI orders; VI o; for (int i = 0; i < SH::nv; ++i) o.push_back(i);
    if (SH::nv <= 4) do orders.push_back(o); while (std::next_permutation(o.begin(), o.end()));
    else { for (int r = 0; r < 8; ++r) { VI q(o); std::rotate(q.begin(), q.begin() + r, q.end()); orders.push_back(q); std::reverse(q.begin(), q.end()); orders.push_back(q); }
           for (int i = 0; i < 8; ++i) for (int j = i + 1; j < 8; ++j) { VI q(o); std::swap(q[i], q[j]); orders.push_back(q); } }
    for (size_t i = 0; i < ids.size(); ++i) for (size_t a = 0; a < orders.size(); ++a) for (size_t b = 0; b <= orders.size(); ++b)
    {
      if (!th && i >= 4 && b > 1 && b % 3 != i % 3) continue;
      if (!th && orders.size() > 12 && b > 0 && (a + b + i) % 4) continue;
      Model m; m.pos = pool(NP); m.vid = ids[i]; m.data = 15;
      m.cells.push_back(pick(base[0], orders[a])); if (b) m.cells.push_back(pick(base[1], orders[b-1]));
      if (!mc::begin_case()) continue;
      roundtrip(m, false, (int)((a + b) % 2 ? 1 : (i % 2 ? 0 : 3)));
    }
  }
  mc::begin_group("no-cells");
  for (int k = 0; k <= NP; ++k) for (int d = 0; d < 16; ++d) for (int ns = 0; ns < 3; ++ns) for (int mode = 0; mode < 4; ++mode)
  {
    Model m; m.pos = pool(k); m.data = d; for (int s = 0; s < ns; ++s) { m.segids.push_back(3 * s + 1); m.member.push_back(VI()); }
    if (!mc::begin_case()) continue;
    roundtrip(m, ns > 0, mode);
  }
  // all memberships of the cells in 0..3 segments
  mc::begin_group("segments");
  {
    int nc = (int)base.size();
    VVI idsets = tup("0,1;1,0;2,5;7,3;0,1,2;4,1,9"); idsets.push_back(VI(1, 0)); idsets.push_back(VI(1, 3)); idsets.push_back(VI());
    for (size_t q = 0; q < idsets.size(); ++q)
    {
      int ns = (int)idsets[q].size(), bits = ns * nc;
      if (!th && bits > 8 && (KIND == 2 || KIND >= 6)) continue;
      for (long mask = 0; mask < (1L << bits); ++mask) for (int rev = 0; rev < 2; ++rev) for (int mode = 0; mode < 4; ++mode)
      {
        if (!th && bits > 8 && mode != (int)((mask ^ (mask >> 4) ^ (mask >> 8)) & 3)) continue;
        if (!th && rev && mode % 2) continue;
        Model m; m.pos = pool(NP); if (rev) for (int i = 0; i < NP; ++i) m.vid.push_back(30 - 2 * i); m.cells = base; m.segids = idsets[q];
        for (int s = 0; s < ns; ++s)
        { VI mem; for (int c = 0; c < nc; ++c) if ((mask >> (s * nc + c)) & 1) mem.push_back(c); if (rev) std::reverse(mem.begin(), mem.end()); m.member.push_back(mem); }
        if (!mc::begin_case()) continue;
        roundtrip(m, true, mode);
      }
    }
  }
  // every combination of attached data
  mc::begin_group("data");
  for (int d = 0; d < 256; ++d) for (int cfg = 0; cfg < 3; ++cfg) for (int mode = 0; mode < 4; ++mode)
  {
    Model m; m.pos = pool(NP); m.cells = base; m.data = d;
    if (cfg) { m.segids = tup("2,5")[0]; m.member = cfg == 1 ? tup("0,1;1,2") : tup("2;0,1,2"); }
    if (!mc::begin_case()) continue;
    roundtrip(m, cfg != 0, mode);
  }
  // several arrays of each kind, names of different styles
  mc::begin_group("names");
  for (int style = 0; style < 3; ++style) for (int d = 0; d < 64; ++d) for (int cfg = 0; cfg < 3; ++cfg) for (int mode = 0; mode < 4; ++mode)
  {
    static const int PAT[] = { 0x0f0f, 0x0f0f0f, 0xffff, 0xffffff, 0x050a05, 0x0a050a, 0xa5f0a5, 0x5a0f5a };
    Model m; m.pos = pool(NP); m.cells = base; m.style = style; m.data = PAT[d % 8] & ~(d / 8 == 0 ? 0 : d / 8 == 7 ? 0xff : 0x111111 << (d / 8 - 1) % 4 << (d / 8 > 4 ? 8 : 0));
    if (cfg) { m.segids = tup("2,5")[0]; m.member = cfg == 1 ? tup("0,1;1,2") : tup("2;0,1,2"); }
    if (!mc::begin_case()) continue;
    roundtrip(m, cfg != 0, mode);
  }
  // the same content as other programs may write it: data arrays in any order, default number of components omitted
  mc::begin_group("foreign");
  {
    Model m; m.pos = pool(NP); m.cells = base; m.data = 15;
    Writer w; std::string f = write(w, m, "f", false), text = slurp(f);
    // blocks of <DataArray ...>...</DataArray> per section
    static const char * sec[] = { "PointData", "Cells", "CellData" };
    for (int perm = 0; perm < 24; ++perm) for (int omit = 0; omit < 2; ++omit) for (int mode = 0; mode < 4; ++mode)
    {
      if (!mc::begin_case()) continue;
      mc::trace("arrangement " + mc::str(perm) + " omit " + mc::str(omit)); mc::state("foreign" + mc::str(perm) + mc::str(omit));
      std::string t = text;
      for (int k = 0; k < 3; ++k)
      {
        size_t a = t.find("<" + std::string(sec[k])), e = t.find("</" + std::string(sec[k]) + ">"); a = t.find('>', a) + 1;
        std::string in = t.substr(a, e - a); std::vector<std::string> blocks; size_t p = 0;
        while ((p = in.find("<DataArray", p)) != std::string::npos) { size_t q = in.find("</DataArray>", p) + 12; blocks.push_back(in.substr(p, q - p)); p = q; }
        VI o; for (size_t i = 0; i < blocks.size(); ++i) o.push_back((int)i);
        int turns = k == 0 ? perm % 2 : k == 1 ? (perm / 2) % 6 : perm / 12;
        for (int i = 0; i < turns; ++i) std::next_permutation(o.begin(), o.end());
        std::string out = "\n"; for (size_t i = 0; i < o.size(); ++i) out += blocks[o[i]] + "\n";
        t = t.substr(0, a) + out + t.substr(e);
      }
      if (omit) for (size_t p; (p = t.find(" NumberOfComponents=\"1\"")) != std::string::npos; ) t.erase(p, 23);
      { std::ofstream o(path("h.vtu").c_str()); o << t; }
      Reader r; read(r, m, path("h.vtu"), mode);
    }
  }
  // one writer and one reader used for a sequence of files
  mc::begin_group("reuse");
  {
    std::vector<Model> ms;
    for (int k = 0; k < 5; ++k)
    {
      Model m; m.pos = pool(NP); m.base = k; m.cells = base;
      if (k == 1) { m.cells.resize(1); m.data = 5; }
      if (k == 2) { m.segids = tup("0,1")[0]; m.member = tup("0,1;1,2"); m.data = 0xf0; }
      if (k == 3) { m.segids = tup("1,4")[0]; m.member = tup("2,1;0"); m.data = 0x0a; for (int i = 0; i < NP; ++i) m.vid.push_back(20 - i); }
      if (k == 4) { m.cells.clear(); m.cells.push_back(base[1]); m.data = 0; }
      ms.push_back(m);
    }
    int len = th ? 4 : 3; long n = 1; for (int i = 0; i < len; ++i) n *= 5;
    for (long code = 0; code < n; ++code) for (int mode = 0; mode < 3; ++mode)
    {
      if (!mc::begin_case()) continue;
      Writer w; Reader r; long c = code;
      for (int i = 0; i < len; ++i, c /= 5)
      {
        Model const & m = ms[c % 5]; mc::trace(describe(m)); mc::state("reuse" + mc::str(code) + "/" + mc::str(i));
        std::string f = write(w, m, i % 2 ? "g" : "f", m.segids.size() > 0);
        read(r, m, f, (mode + i) % 3);
      }
    }
  }
  // larger meshes in every numbering, without and with 2 or 12 segments
  mc::begin_group("blocks");
  {
    VVI sizes = SH::dim == 1 ? tup("9,0,0;33,0,0;130,0,0") : SH::dim == 2 ? tup("2,3,0;5,4,0;11,9,0") : SH::nv == 4 ? tup("1,1,1;2,2,1;3,3,2") : tup("2,2,2;4,3,2;5,5,5");
    if (th) sizes.push_back(SH::dim == 1 ? tup("1200,0,0")[0] : SH::dim == 2 ? tup("30,20,0")[0] : tup("5,6,5")[0]);
    for (size_t z = 0; z < sizes.size(); ++z) for (int k = 0; k < 27; ++k) for (int part = 0; part < 3; ++part)
    {
      if (!mc::begin_case()) continue;
      Block b = block<CT>(sizes[z][0], sizes[z][1], sizes[z][2], k % 3, k / 3 % 3, k / 9);
      Model m; m.pos = b.pos; m.cells = b.cells; m.data = part == 1 ? 255 : part == 2 ? 0xf5 : 15; int ns = part == 0 ? 0 : part == 1 ? 2 : 12;
      for (int s = 0; s < ns; ++s) { m.segids.push_back(part == 1 ? 3 * (2 - s) : (s * 5 + 3) % 12); m.member.push_back(VI()); }
      for (int c = 0; c < (int)m.cells.size() && ns; ++c) { m.member[c % ns].push_back(c); if (c % 5 == 2) m.member[(c + 1) % ns].push_back(c); }
      mc::trace(b.name);
      roundtrip(m, ns > 0, k % 4);
    }
  }
  return mc::finish();
}
