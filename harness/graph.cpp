// C11: the graph of a voltage level.
#include "common.hpp"
#include <algorithm>
#include <powsybl/math/GraphUtil.hpp>
#include <powsybl/math/UndirectedGraph.hpp>
using powsybl::math::TraverseResult;
typedef math::UndirectedGraph<int, int> G;
static int OBJ[64];
struct Ed { unsigned long a, b; const int* o; };
struct Model { std::map<unsigned long, const int*> v; std::map<unsigned long, Ed> e; unsigned long cap = 0; };
static bool ok(const std::function<void()>& f) { try { f(); return true; } catch (const PowsyblException&) { return false; } }
static const int* ptr(const stdcxx::Reference<int>& r) { return r ? &r.get() : nullptr; }
static void check(G& g, const Model& m) {
  const G& c = g; sx_assert_msg(c.getVertexCount() == m.v.size() && c.getEdgeCount() == m.e.size(), "the numbers of vertices and edges");
  std::vector<unsigned long> vs, es, wv, we; for (auto v : c.getVertices()) vs.push_back(v); for (auto e : c.getEdges()) es.push_back(e); for (auto& x : m.v) wv.push_back(x.first); for (auto& x : m.e) we.push_back(x.first); sx_assert_msg(vs == wv && es == we, "the vertices and the edges");
  std::vector<const int*> vo, eo, vo2, eo2, wvo, weo; for (auto& r : c.getVertexObjects()) vo.push_back(ptr(r)); for (auto& r : c.getEdgeObjects()) eo.push_back(ptr(r)); for (auto& r : g.getVertexObjects()) vo2.push_back(ptr(r)); for (auto& r : g.getEdgeObjects()) eo2.push_back(ptr(r)); for (auto& x : m.v) wvo.push_back(x.second); for (auto& x : m.e) weo.push_back(x.second.o);
  sx_assert_msg(vo == wvo && vo2 == wvo && eo == weo && eo2 == weo, "the objects of the vertices and the edges"); sx_assert_msg(wv.empty() ? c.getVertexCapacity() == c.getMaxVertex() : c.getVertexCapacity() == c.getMaxVertex() && c.getVertexCapacity() > wv.back(), "the capacity is above the vertices");
  for (unsigned long i = 0; i < 7; ++i) {
    bool hv = m.v.count(i) > 0, he = m.e.count(i) > 0; const int* o = nullptr; sx_assert_msg(c.vertexExists(i) == hv, "a vertex exists"); sx_assert(ok([&]() { o = ptr(c.getVertexObject(i)); }) == hv); if (hv) sx_assert(o == m.v.at(i));
    unsigned long a = 0, b = 0; sx_assert_msg(ok([&]() { a = c.getVertex1(i); }) == he && ok([&]() { b = c.getVertex2(i); }) == he && ok([&]() { o = ptr(c.getEdgeObject(i)); }) == he, "an edge exists"); if (he) sx_assert(a == m.e.at(i).a && b == m.e.at(i).b && o == m.e.at(i).o);
  }
  // reading through the adjacency: what a traversal from a vertex reaches
  for (auto s : wv) {
    std::set<unsigned long> want{s}, got{s}; for (bool more = true; more;) { more = false; for (auto& e : m.e) for (int d = 0; d < 2; ++d) if (want.count(d ? e.second.b : e.second.a) && want.insert(d ? e.second.a : e.second.b).second) more = true; }
    c.traverse(s, [&](unsigned long x, unsigned long e, unsigned long y) { sx_assert_msg(m.e.count(e) && ((m.e.at(e).a == x && m.e.at(e).b == y) || (m.e.at(e).a == y && m.e.at(e).b == x)), "a traversal goes along edges"); sx_assert_msg(got.count(x) && got.insert(y).second, "a traversal enters each vertex once, from one it reached"); return TraverseResult::CONTINUE; });
    sx_assert_msg(got == want, "a traversal reaches exactly the linked vertices");
  }
  sx_assert(!ok([&]() { c.traverse(9, [](unsigned long, unsigned long, unsigned long) { return TraverseResult::CONTINUE; }); }));
}
// histories of creations and removals: refused iff impossible, the rest unchanged
SX_HARNESS(history) {
  G g; Model m; static const char* const INIT[] = {"", "....0112", "....00010123", "...011220"}; const char* init = INIT[sx_choose("start", sx_bound(3, 4))]; int made = 0;
  for (; *init == '.'; ++init) { unsigned long v = g.addVertex(); m.v[v] = nullptr; } for (; *init; init += 2) { unsigned long a = static_cast<unsigned long>(init[0] - '0'), b = static_cast<unsigned long>(init[1] - '0'), e = g.addEdge(a, b, ref(OBJ[made])); m.e[e] = Ed{a, b, &OBJ[made]}; ++made; }
  check(g, m);
  for (int i = 0, k = sx_bound(2, 3); i < k; ++i) {
    unsigned long what = sx_choose("op", 9); bool done = true;
    auto used = [&](unsigned long v) { for (auto& e : m.e) if (e.second.a == v || e.second.b == v) return true; return false; };
    if (what == 0) { unsigned long v = g.addVertex(); sx_assert_msg(!m.v.count(v), "a new vertex is new"); m.v[v] = nullptr; }
    else if (what == 1) { unsigned long v = sx_choose("vertex", 7); g.addVertexIfNotPresent(v); if (!m.v.count(v)) m.v[v] = nullptr; }
    else if (what == 2) { unsigned long a = sx_choose("vertex 1", 6), b = sx_choose("vertex 2", 6), e = 0; done = ok([&]() { e = g.addEdge(a, b, ref(OBJ[10 + i])); }); sx_assert_msg(done == (m.v.count(a) && m.v.count(b)), "an edge links existing vertices"); if (done) { sx_assert_msg(!m.e.count(e), "a new edge is new"); m.e[e] = Ed{a, b, &OBJ[10 + i]}; } }
    else if (what == 3) { unsigned long e = sx_choose("edge", 6); stdcxx::Reference<int> r; done = ok([&]() { r = g.removeEdge(e); }); sx_assert_msg(done == (m.e.count(e) > 0), "an existing edge is removed"); if (done) { sx_assert(ptr(r) == m.e[e].o); m.e.erase(e); } }
    else if (what == 4) { unsigned long v = sx_choose("vertex", 7); stdcxx::Reference<int> r; done = ok([&]() { r = g.removeVertex(v); }); sx_assert_msg(done == (m.v.count(v) && !used(v)), "a vertex without edges is removed"); if (done) { sx_assert(ptr(r) == m.v[v]); m.v.erase(v); } }
    else if (what == 5) { unsigned long v = sx_choose("vertex", 7); bool none = sx_bool("no object"); done = ok([&]() { g.setVertexObject(v, none ? stdcxx::Reference<int>() : ref(OBJ[20 + i])); }); sx_assert(done == (m.v.count(v) > 0)); if (done) m.v[v] = none ? nullptr : &OBJ[20 + i]; }
    else if (what == 6) { g.removeAllEdges(); m.e.clear(); }
    else if (what == 7) { done = ok([&]() { g.removeAllVertices(); }); sx_assert_msg(done == m.e.empty(), "all the vertices are removed iff there is no edge"); if (done) m.v.clear(); }
    else { g.removeIsolatedVertices(); for (auto it = m.v.begin(); it != m.v.end();) if (!it->second && !used(it->first)) it = m.v.erase(it); else ++it; }
    check(g, m); sx_reach(done ? "done" : "refused");
  }
}
// longer histories of edges, with or without a reading in between
SX_HARNESS(edges) {
  G g; Model m; for (unsigned long v = 0; v < 3; ++v) { g.addVertex(); m.v[v] = nullptr; } int made = 0; auto add = [&](unsigned long a, unsigned long b) { unsigned long e = g.addEdge(a, b, ref(OBJ[made])); sx_assert_msg(!m.e.count(e), "a new edge is new"); m.e[e] = Ed{a, b, &OBJ[made]}; ++made; };
  add(0, 1); add(1, 2); check(g, m);
  for (int i = 0, k = sx_bound(5, 6); i < k; ++i) { unsigned long what = sx_choose("op", 6); if (what == 0) add(0, 1); else if (what == 1) add(2, 1); else if (what == 5) { check(g, m); sx_reach("read"); } else { unsigned long e = what - 2; bool done = ok([&]() { g.removeEdge(e); }); sx_assert_msg(done == (m.e.count(e) > 0), "an existing edge is removed"); m.e.erase(e); } }
  check(g, m);
}
static const unsigned long ENDS[][2] = {{0, 1}, {1, 2}, {2, 3}, {0, 2}, {1, 3}, {3, 0}, {1, 0}, {2, 2}};
// any graph, any edges and vertices where the visit stops
static void build(G& g, Model& m, int edges) { for (int i = 0; i < 4; ++i) { g.addVertex(); g.setVertexObject(static_cast<unsigned long>(i), ref(OBJ[i])); m.v[static_cast<unsigned long>(i)] = &OBJ[i]; } for (int i = 0; i < edges; ++i) if (sx_bool("edge")) { unsigned long e = g.addEdge(ENDS[i][0], ENDS[i][1], ref(OBJ[10 + i])); m.e[e] = Ed{ENDS[i][0], ENDS[i][1], &OBJ[10 + i]}; } }
SX_HARNESS(stops) {
  G g; Model m; build(g, m, sx_bound(7, 8)); unsigned long start = sx_choose("start", 4); std::set<unsigned long> stop, seen{start}, want{start}, last; for (auto& e : m.e) if (sx_bool("stop")) stop.insert(e.first);
  for (bool more = true; more;) { more = false; for (auto& e : m.e) if (!stop.count(e.first)) for (int d = 0; d < 2; ++d) if (want.count(d ? e.second.b : e.second.a) && want.insert(d ? e.second.a : e.second.b).second) more = true; }
  std::vector<bool> enc; g.traverse(start, [&](unsigned long x, unsigned long e, unsigned long y) { sx_assert_msg((m.e.at(e).a == x && m.e.at(e).b == y) || (m.e.at(e).a == y && m.e.at(e).b == x), "a traversal goes along edges"); sx_assert(seen.count(x) && !seen.count(y)); last.insert(e); if (stop.count(e)) return TraverseResult::TERMINATE; seen.insert(y); return TraverseResult::CONTINUE; }, enc);
  sx_assert_msg(seen == want, "a traversal reaches exactly what is linked without a stop"); for (unsigned long v = 0; v < 4; ++v) sx_assert_msg(enc[v] == (want.count(v) > 0), "the vertices marked are those reached");
  for (auto& e : m.e) if (stop.count(e.first) && (want.count(e.second.a) > 0) != (want.count(e.second.b) > 0)) sx_assert_msg(last.count(e.first), "every edge that leaves what is reached is asked"); sx_reach(stop.empty() ? "free" : "stopped");
}
typedef std::vector<unsigned long> Path;
static void walk(const Model& m, unsigned long v, std::set<unsigned long> seen, const Path& p, const std::set<unsigned long>& full, const std::set<unsigned long>& cancel, std::vector<Path>& out) {
  seen.insert(v); for (auto& e : m.e) for (int d = 0; d < 2; ++d) if ((d ? e.second.b : e.second.a) == v && (d == 0 || e.second.a != e.second.b)) { unsigned long w = d ? e.second.a : e.second.b; if (cancel.count(e.first) || seen.count(w)) continue; Path q = p; q.push_back(e.first); if (full.count(w)) out.push_back(q); else walk(m, w, seen, q, full, cancel, out); }
}
SX_HARNESS(paths) {
  G g; Model m; build(g, m, sx_bound(7, 8)); std::set<unsigned long> full, cancel; int f = static_cast<int>(sx_choose("complete", 16)); for (unsigned long v = 0; v < 4; ++v) if (f >> v & 1) full.insert(v); long c = sx_thorough() ? -2 : static_cast<long>(sx_choose("cancelled", m.e.size() + 1)) - 1; { long i = 0; for (auto& e : m.e) if (c == -2 ? sx_bool("cancelled") : i++ == c) cancel.insert(e.first); }
  unsigned long start = sx_thorough() ? sx_choose("start", 4) : 0; std::vector<Path> want, got = g.findAllPaths(start, [&](const stdcxx::Reference<int>& o) { return full.count(static_cast<unsigned long>(&o.get() - OBJ)) > 0; }, [&](const stdcxx::Reference<int>& o) { for (auto& e : m.e) if (e.second.o == &o.get()) return cancel.count(e.first) > 0; sx_fail("an unknown edge"); return true; });
  walk(m, start, {}, {}, full, cancel, want); for (size_t i = 1; i < got.size(); ++i) sx_assert_msg(got[i - 1].size() <= got[i].size(), "the shortest paths first"); std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); sx_assert_msg(want == got, "the paths are exactly those to the first complete vertex without a cancelled edge"); sx_reach(want.empty() ? "none" : want.size() > 1 ? "several" : "one");
}
SX_HARNESS(between) {
  G g; Model m; build(g, m, 8); for (unsigned long a = 0; a < 5; ++a) for (unsigned long b = 0; b < 5; ++b) { std::set<const int*> want, got; for (auto& e : m.e) if ((e.second.a == a && e.second.b == b) || (e.second.a == b && e.second.b == a)) want.insert(e.second.o); bool done = ok([&]() { for (auto& r : static_cast<const G&>(g).getEdgeObjects(a, b)) got.insert(ptr(r)); }); sx_assert(done == (a < 4 && b < 4)); if (done) sx_assert_msg(want == got, "the objects between two vertices"); } sx_reach("end");
}
// connected components of any graph: same number iff linked, the largest first
SX_HARNESS(components) {
  const int N = sx_bound(5, 6); std::vector<std::vector<unsigned long>> adj(static_cast<size_t>(N)); UF u(N);
  for (int i = 0; i < N; ++i) for (int j = i + 1; j < N; ++j) if (sx_bool("edge")) { adj[static_cast<size_t>(i)].push_back(static_cast<unsigned long>(j)); adj[static_cast<size_t>(j)].push_back(static_cast<unsigned long>(i)); u.uni(i, j); }
  auto r = math::GraphUtil::computeConnectedComponents(adj); const auto& num = r.getComponentNumber(); const auto& size = r.getComponentSize(); std::set<int> roots; for (int i = 0; i < N; ++i) roots.insert(u.find(i)); sx_assert_msg(num.size() == static_cast<size_t>(N) && size.size() == roots.size(), "the number of components");
  std::vector<unsigned long> cnt(size.size()); for (int i = 0; i < N; ++i) { sx_assert(num[static_cast<size_t>(i)] && *num[static_cast<size_t>(i)] < size.size()); ++cnt[*num[static_cast<size_t>(i)]]; for (int j = 0; j < N; ++j) sx_assert_msg((u.find(i) == u.find(j)) == (*num[static_cast<size_t>(i)] == *num[static_cast<size_t>(j)]), "the same component iff linked"); }
  sx_assert_msg(cnt == size, "the sizes"); for (size_t i = 1; i < size.size(); ++i) sx_assert_msg(size[i - 1] >= size[i], "the largest first"); sx_reach("end");
}
