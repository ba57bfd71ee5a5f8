#include "common.h"
#include "libspu/core/cexpr.h"
using namespace vn;
using namespace spu::ce;
struct Node { int op; uint64_t c; std::string v; int a = -1, b = -1; };
struct Tree { std::vector<Node> n; };
static uint64_t clog2(uint64_t x) { int r = 0; while (((unsigned __int128)1 << r) < x) r++; return r; }
static bool g_ok;
static uint64_t ref(const Tree& t, int i, const Params& p) {
  auto& n = t.n[i];
  switch (n.op) {
    case 0: return n.c;
    case 1: return p.at(n.v);
    case 2: return ref(t, n.a, p) + ref(t, n.b, p);
    case 3: return ref(t, n.a, p) - ref(t, n.b, p);
    case 4: return ref(t, n.a, p) * ref(t, n.b, p);
    default: { auto x = ref(t, n.a, p); if (x < 1 || x > (1ull << 40)) g_ok = false; return clog2(x ? x : 1); }
  }
}
static CExpr mk(const Tree& t, int i) {
  auto& n = t.n[i];
  auto isc = [&](int j) { return t.n[j].op == 0 && (t.n[j].c & 1); };
  switch (n.op) {
    case 0: return Const(n.c);
    case 1: if (n.v == "K") return K(); if (n.v == "N") return N(); return Variable(n.v, "d");
    case 2: if (isc(n.a)) return t.n[n.a].c + mk(t, n.b); if (isc(n.b)) return mk(t, n.a) + t.n[n.b].c; return mk(t, n.a) + mk(t, n.b);
    case 3: if (isc(n.a)) return t.n[n.a].c - mk(t, n.b); if (isc(n.b)) return mk(t, n.a) - t.n[n.b].c; return mk(t, n.a) - mk(t, n.b);
    case 4: if (isc(n.a)) return t.n[n.a].c * mk(t, n.b); if (isc(n.b)) return mk(t, n.a) * t.n[n.b].c; return mk(t, n.a) * mk(t, n.b);
    default: if (isc(n.a)) return Log(t.n[n.a].c); return Log(mk(t, n.a));
  }
}
static int gen(Tree& t, int depth) {
  Node n;
  n.op = depth <= 0 ? below(2) : (int)below(6);
  if (n.op == 0) n.c = below(3) == 0 ? (uint64_t)edgy() : below(3) == 0 ? (1ull << below(41)) + below(3) - 1 : below(200);
  if (n.op == 1) { const char* vs[] = {"K", "N", "x", "len"}; n.v = vs[below(4)]; }
  if (n.op >= 2) n.a = gen(t, depth - 1);
  if (n.op >= 2 && n.op <= 4) n.b = gen(t, depth - 1);
  t.n.push_back(n);
  return (int)t.n.size() - 1;
}
// usual precedence and left association
struct Parser {
  const std::string& s; const Params& p; size_t i = 0; bool bad = false;
  uint64_t atom() {
    if (i >= s.size()) { bad = true; return 0; }
    if (s[i] == '(') { i++; auto v = expr(); if (i >= s.size() || s[i] != ')') bad = true; i++; return v; }
    if (isdigit(s[i])) { uint64_t v = 0; while (i < s.size() && isdigit(s[i])) v = v * 10 + (s[i++] - '0'); return v; }
    std::string id;
    while (i < s.size() && isalnum(s[i])) id += s[i++];
    if (id == "log") { if (i >= s.size() || s[i] != '(') { bad = true; return 0; } i++; auto v = expr(); if (i >= s.size() || s[i] != ')') bad = true; i++; if (v < 1 || v > (1ull << 40)) { g_ok = false; v = 1; } return clog2(v); }
    auto it = p.find(id);
    if (it == p.end()) { bad = true; return 0; }
    return it->second;
  }
  uint64_t prod() { auto v = atom(); while (!bad && i < s.size() && s[i] == '*') { i++; v *= atom(); } return v; }
  uint64_t expr() { auto v = prod(); while (!bad && i < s.size() && (s[i] == '+' || s[i] == '-')) { char c = s[i++]; auto r = prod(); v = c == '+' ? v + r : v - r; } return v; }
};
int main(int argc, char** argv) {
  init(argc, argv);
  for (uint64_t k = 0; k <= 40; k++)
    for (int d = -2; d <= 2; d++) {
      uint64_t v = (1ull << k) + d;
      if (v < 1 || v > (1ull << 40)) continue;
      auto r = Log(v)->eval({});
      if (r != clog2(v)) fail("log", "Log(" + std::to_string(v) + ") evaluated to " + std::to_string(r) + " expected " + std::to_string(clog2(v)));
    }
  while (time_left()) {
    Tree t;
    int root = gen(t, (int)below(6));
    Params p{{"K", below(2) ? 32u << below(3) : (uint64_t)edgy()}, {"N", 2 + below(5)}, {"x", (uint64_t)edgy()}, {"len", below(100)}, {"zz", 7}};
    g_ok = true;
    auto want = ref(t, root, p);
    auto e = mk(t, root);
    setcase("cexpr expression");
    std::string txt;
    if (!nothrow("expr", "printing", [&] { txt = e->expr(); })) continue;
    if (!g_ok) continue;
    uint64_t got = 0;
    if (!nothrow("eval", txt, [&] { got = e->eval(p); })) continue;
    std::string desc = txt + " with K=" + std::to_string(p["K"]) + " N=" + std::to_string(p["N"]) + " x=" + std::to_string(p["x"]) + " len=" + std::to_string(p["len"]);
    if (got != want) fail("eval", desc + ": evaluated to " + std::to_string(got) + " expected " + std::to_string(want));
    Parser ps{txt, p};
    auto pv = ps.expr();
    if (ps.bad || ps.i != txt.size()) fail("print", "printed form does not parse: " + txt);
    else if (g_ok && pv != want) fail("print", "printed form " + desc + " denotes " + std::to_string(pv) + " but the expression is " + std::to_string(want));
    // a missing binding is an error
    for (auto& n : t.n)
      if (n.op == 1) {
        Params q = p;
        q.erase(n.v);
        if (!throws([&] { e->eval(q); })) fail("unbound", txt + " evaluated although " + n.v + " is not bound");
        break;
      }
    count(desc);
  }
  return finish();
}
