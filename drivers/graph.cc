// P25: graphs, chordal completion and elimination orderings against brute-force definitions.
#include "vh.hh"
#include "gen.hh"
#include "conv.hh"
#include <clpoly/associatedgraph.hh>
#include <set>
namespace vh { uint64_t case_index(); }
using vh::Rng; using clpoly::graph; using clpoly::variable; using clpoly::ZZ;
typedef std::vector<std::vector<char>> Adj;
static std::string show(const Adj& a) { std::string s = std::to_string(a.size()) + ":"; for (size_t i = 0; i < a.size(); ++i) for (size_t j = i + 1; j < a.size(); ++j) if (a[i][j]) s += " " + std::to_string(i) + "-" + std::to_string(j); return s; }
static Adj mk(size_t n) { return Adj(n, std::vector<char>(n, 0)); }
static void put(Adj& a, size_t i, size_t j) { if (i != j) a[i][j] = a[j][i] = 1; }
static Adj fill(Adj a, const std::vector<size_t>& o) { std::vector<char> gone(a.size(), 0); for (size_t v : o) { gone[v] = 1; for (size_t i = 0; i < a.size(); ++i) if (!gone[i] && a[v][i]) for (size_t j = i + 1; j < a.size(); ++j) if (!gone[j] && a[v][j]) put(a, i, j); } return a; }
static bool chordal(const Adj& a) { size_t n = a.size(); std::vector<char> gone(n, 0); for (size_t k = 0; k < n; ++k) { bool found = false; for (size_t v = 0; v < n && !found; ++v) { if (gone[v]) continue; bool simp = true; for (size_t i = 0; i < n && simp; ++i) if (!gone[i] && a[v][i]) for (size_t j = i + 1; j < n && simp; ++j) if (!gone[j] && a[v][j] && !a[i][j]) simp = false; if (simp) { gone[v] = 1; found = true; } } if (!found) return false; } return true; }
static size_t edges(const Adj& a) { size_t m = 0; for (size_t i = 0; i < a.size(); ++i) for (size_t j = i + 1; j < a.size(); ++j) m += a[i][j]; return m; }
static std::vector<size_t> comps(const Adj& a) { std::vector<size_t> c(a.size(), (size_t)-1); size_t k = 0; for (size_t s = 0; s < a.size(); ++s) { if (c[s] != (size_t)-1) continue; std::vector<size_t> st{s}; c[s] = k; while (!st.empty()) { size_t v = st.back(); st.pop_back(); for (size_t j = 0; j < a.size(); ++j) if (a[v][j] && c[j] == (size_t)-1) { c[j] = k; st.push_back(j); } } ++k; } return c; }
// minimal triangulation: chordal, contains a, and no single fill edge can be dropped (Rose, Tarjan, Lueker)
static void minimal(const Adj& a, Adj f, const char* w) { VREQ(f.size() == a.size(), "vertices", w << ": number of vertices changed"); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a.size(); ++j) { VREQ(f[i][j] == f[j][i] && !f[i][i], "asymmetric", w << ": adjacency is not symmetric"); VREQ(!a[i][j] || f[i][j], "edge-lost", w << ": edge " << i << "-" << j << " disappeared"); } VREQ(chordal(f), "not-chordal", w << ": result " << show(f) << " of " << show(a) << " is not chordal"); size_t extra = 0; for (size_t i = 0; i < a.size(); ++i) for (size_t j = i + 1; j < a.size(); ++j) if (f[i][j] && !a[i][j]) { ++extra; f[i][j] = f[j][i] = 0; bool c = chordal(f); put(f, i, j); VREQ(!c, "not-minimal", w << ": fill edge " << i << "-" << j << " of " << show(f) << " can be dropped; input " << show(a)); } if (extra) vh::event("fill edges", extra); }
template <class N> struct G { graph<N> g; std::vector<N> label; }; // model vertex i has label[i]
template <class N> static Adj adj(const graph<N>& g, const std::vector<N>& label) { VREQ(g.size() == label.size() && g.nodes().size() == label.size() && g.mnode().size() == label.size() && g.adjacency_list().size() == label.size(), "shape", "graph has " << g.size() << " vertices, not " << label.size()); Adj a = mk(label.size()); for (size_t i = 0; i < label.size(); ++i) { uint64_t k = g.index(label[i]); VREQ(k < g.size() && g.node(k) == label[i] && g.mnode().at(label[i]) == k, "index", "index and node disagree"); VREQ(&g.neighborhood_index(label[i]) == &g.adjacency_list()[k], "neighborhood", "neighborhood of the wrong vertex"); for (auto j : g.adjacency_list()[k]) { VREQ(j < g.size(), "range", "neighbour index out of range"); size_t t = 0; while (t < label.size() && !(label[t] == g.node(j))) ++t; VREQ(t < label.size(), "foreign", "unknown vertex"); a[i][t] = 1; } } for (size_t i = 0; i < label.size(); ++i) for (size_t j = 0; j < label.size(); ++j) VREQ(g.is_edge(label[i], label[j]) == (bool)a[i][j] && g.is_edge(g.index(label[i]), g.index(label[j])) == (bool)a[i][j], "is-edge", "is_edge disagrees with the adjacency list"); return a; }
static Adj shape(Rng& R, size_t n) { Adj a = mk(n); switch (R.below(9)) { case 0: break; case 1: for (size_t i = 1; i < n; ++i) put(a, i, R.below(i)); break; case 2: for (size_t i = 0; i < n; ++i) put(a, i, (i + 1) % n); if (R.chance(1, 2) && n) put(a, R.below(n), R.below(n)); break; case 3: { size_t w = 1 + R.below(3); for (size_t i = 0; i < n; ++i) { if ((i + 1) % (w + 1)) if (i + 1 < n) put(a, i, i + 1); if (i + w + 1 < n) put(a, i, i + w + 1); } break; } case 4: { size_t k = 1 + R.below(3); for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) if (i % (k + 1) != j % (k + 1)) put(a, i, j); break; } case 5: { unsigned e = n ? R.below(n + 1) : 0; for (unsigned i = 0; i < e; ++i) put(a, R.below(n), R.below(n)); break; } case 6: { for (unsigned q = 0; q < 1 + R.below(4) && n; ++q) { std::vector<size_t> v; for (size_t i = 0; i < 2 + R.below(4); ++i) v.push_back(R.below(n)); for (size_t i : v) for (size_t j : v) put(a, i, j); } break; } default: { unsigned d = 1 + R.below(9); for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) if (R.below(10) < d) put(a, i, j); } } return a; }
static std::vector<size_t> perm(Rng& R, size_t n) { std::vector<size_t> p; for (size_t i = 0; i < n; ++i) p.push_back(i); R.shuffle(p); return p; }
template <class N, class L> static std::vector<size_t> order(const std::vector<N>& o, const L& label, const char* w) { VREQ(o.size() == label.size(), "not-a-permutation", w << " has " << o.size() << " entries for " << label.size() << " vertices"); std::vector<size_t> r; std::set<size_t> seen; for (auto& x : o) { size_t t = 0; while (t < label.size() && !(label[t] == x)) ++t; VREQ(t < label.size() && seen.insert(t).second, "not-a-permutation", w << " is not a permutation of the vertices"); r.push_back(t); } return r; }
template <class N> static graph<N> build(Rng& R, const Adj& a, const std::vector<N>& label) { graph<N> g; auto p = perm(R, a.size()); for (size_t i : p) if (R.chance(2, 3)) g.add_node(label[i]); std::vector<std::pair<size_t, size_t>> e; for (size_t i = 0; i < a.size(); ++i) for (size_t j = i + 1; j < a.size(); ++j) if (a[i][j]) e.push_back(R.chance(1, 2) ? std::make_pair(i, j) : std::make_pair(j, i)); R.shuffle(e); for (auto& x : e) { if (R.chance(1, 3)) { g.add_node(label[x.first]); g.add_node(label[x.second]); uint64_t i = g.index(label[x.first]), j = g.index(label[x.second]); if (R.chance(1, 2)) g.add_edge(i, j); else { g.add_edge_index(i, j, true); g.add_edge(j, i, true); } } else g.add_edge(label[x.first], label[x.second]); if (R.chance(1, 8)) g.add_edge(label[x.first], label[x.second]); } for (size_t i : p) g.add_node(label[i]); return g; }
static size_t height(const Adj& filled, const std::vector<size_t>& o) { size_t n = o.size(), best = 0; std::vector<size_t> pos(n), h(n, 0); for (size_t i = 0; i < n; ++i) pos[o[i]] = i; for (size_t i = 0; i < n; ++i) { size_t v = o[i], par = n; for (size_t j = 0; j < n; ++j) if (filled[v][j] && pos[j] > i && (par == n || pos[j] < pos[par])) par = j; best = std::max(best, h[v]); if (par != n) h[par] = std::max(h[par], h[v] + 1); } return best; }
template <class N> static void check(Rng& R, const Adj& a, const std::vector<N>& label) {
    auto g = build(R, a, label); VREQ(adj(g, label) == a, "construction", "graph differs from the edges put in"); const auto g0 = g; auto same = [&](const char* w) { VREQ(adj(g, label) == a && g.nodes() == g0.nodes(), "operand-changed", w << " changed its argument"); };
    auto F = clpoly::chordal_completion(g); same("chordal_completion"); VREQ(F.nodes() == g.nodes(), "vertices", "vertices reordered"); minimal(a, adj(F, label), "chordal_completion");
    { graph<N> out; if (R.chance(1, 2)) out.add_node(label.empty() ? N() : label[0]); auto o = order(clpoly::chordal_completion(out, g), label, "completion ordering"); same("chordal_completion"); Adj f = adj(out, label); minimal(a, f, "chordal_completion"); VREQ(fill(a, o) == f, "ordering-mismatch", "eliminating in the returned order fills to " << show(fill(a, o)) << ", completion is " << show(f)); }
    { graph<N> out = g; std::vector<uint64_t> l{7, 7}; clpoly::chordal_completion(out, R.chance(1, 3) ? out : g, l); minimal(a, adj(out, label), "chordal_completion"); std::vector<N> ln; for (auto i : l) { VREQ(i < g.size(), "range", "ordering index out of range"); ln.push_back(g.node(i)); } VREQ(fill(a, order(ln, label, "completion ordering")) == adj(out, label), "ordering-mismatch", "eliminating in the returned order does not give the completion"); }
    { auto o = order(clpoly::perfect_elimination_ordering(F), label, "perfect elimination ordering"); Adj f = adj(F, label); VREQ(fill(f, o) == f, "not-perfect", "ordering of a chordal graph " << show(f) << " creates fill"); auto p = order(clpoly::perfect_elimination_ordering(g), label, "perfect elimination ordering"); same("perfect_elimination_ordering"); if (chordal(a)) { VREQ(fill(a, p) == a, "not-perfect", "ordering of a chordal graph " << show(a) << " creates fill"); vh::event("chordal inputs"); } }
    { auto p = perm(R, a.size()); std::vector<N> l; for (size_t i : p) l.push_back(label[i]); Adj f = fill(a, p); auto E = clpoly::elimination_game(g, l); same("elimination_game"); VREQ(adj(E, label) == f, "elimination", "elimination game gives " << show(adj(E, label)) << ", not " << show(f)); auto h = clpoly::elimination_height(g, l); VREQ(h == height(f, p), "height", "elimination tree height " << h << ", not " << height(f, p)); same("elimination_height"); if (p.size() > 1 && R.chance(1, 3)) { std::vector<size_t> q(p.begin(), p.begin() + (long)(p.size() / 2)); std::vector<N> lq(l.begin(), l.begin() + (long)(p.size() / 2)); VREQ(adj(clpoly::elimination_game(g, lq), label) == fill(a, q), "elimination", "partial elimination differs"); } }
    { auto c = comps(a); auto B = clpoly::connected_branch(g); same("connected_branch"); std::set<size_t> seen; for (auto& b : B) { VREQ(!b.empty(), "component-empty", "a component is empty; graph " << show(a)); std::set<size_t> cs; for (auto& x : b) { size_t t = 0; while (t < label.size() && !(label[t] == x)) ++t; VREQ(t < label.size() && seen.insert(t).second, "component-overlap", "a vertex is in two components"); cs.insert(c[t]); } VREQ(cs.size() == 1, "component-mixed", "a component mixes unconnected vertices"); } VREQ(seen.size() == a.size(), "component-lost", "components cover " << seen.size() << " of " << a.size() << " vertices; graph " << show(a)); size_t k = 0; for (size_t x : c) k = std::max(k, x + 1); VREQ(B.size() == k, "component-count", B.size() << " components, not " << k); Adj q = mk(a.size()); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < i; ++j) if (c[i] == c[j]) put(q, i, j); VREQ(adj(clpoly::connected_branch_graph(g), label) == q, "closure", "transitive closure differs"); if (k > 1) vh::event("disconnected graphs"); }
    { Adj b = R.chance(1, 4) ? a : shape(R, a.size()); std::vector<N> lb = label; std::vector<size_t> keep; size_t drop = R.chance(1, 2) && a.size() ? R.below(a.size()) : 0; if (b.size()) for (size_t i = 0; i < drop; ++i) for (size_t j = 0; j < b.size(); ++j) b[i][j] = b[j][i] = 0; graph<N> h; for (size_t i = drop; i < a.size(); ++i) h.add_node(label[i]); for (size_t i = 0; i < a.size(); ++i) for (size_t j = i + 1; j < a.size(); ++j) if (b[i][j]) h.add_edge(label[i], label[j]); size_t cross = 0, uni = 0; for (size_t i = 0; i < a.size(); ++i) for (size_t j = i + 1; j < a.size(); ++j) { cross += a[i][j] && b[i][j]; uni += a[i][j] || b[i][j]; } auto score = [&](const graph<N>& x, const graph<N>& y) { double s = clpoly::graph_diff_score(x, y), w = uni ? 1 - (double)cross / (double)uni : 0.0; VREQ(s > w - 1e-12 && s < w + 1e-12, "score", "difference score " << s << ", not " << w << " (" << show(a) << " versus " << show(b) << ")"); }; score(g, h); score(h, g); vh::event("scores compared"); }
    for (size_t i = 0; i < a.size() && i < 4; ++i) { size_t v = R.below(a.size()); std::vector<size_t> d(a.size(), (size_t)-1), q{v}; d[v] = 0; size_t far = 0; for (size_t k = 0; k < q.size(); ++k) for (size_t j = 0; j < a.size(); ++j) if (a[q[k]][j] && d[j] == (size_t)-1) { d[j] = d[q[k]] + 1; far = std::max(far, d[j]); q.push_back(j); } VREQ(clpoly::DFV(g, label[v]) == far, "eccentricity", "DFV gives " << clpoly::DFV(g, label[v]) << ", not " << far); }
    vh::event_max("vertices", a.size()); vh::event_max("edges", edges(a)); if (edges(a)) vh::nontrivial(vh::hash_str(show(a)));
}
static std::vector<variable> vlabels(Rng& R, size_t n) { cv::vars(60); auto p = perm(R, 60); std::vector<variable> l; for (size_t i = 0; i < n; ++i) l.push_back(cv::V()[p[i]]); return l; }
SCENARIO(random_graph, 1500, 60000) { Adj a = shape(R, R.below(13)); vh::desc("graph " + show(a)); if (R.chance(1, 2)) check<variable>(R, a, vlabels(R, a.size())); else { std::vector<std::string> l; for (size_t i : perm(R, a.size())) l.push_back("n" + std::to_string(i)); check<std::string>(R, a, l); } }
SCENARIO(larger_graph, 40, 3000) { Adj a = shape(R, 20 + R.below(35)); vh::desc("graph " + show(a)); check<variable>(R, a, vlabels(R, a.size())); }
SCENARIO(small_exhaustive, 1024 + 64 + 8 + 2 + 2, 33868) { size_t k = (size_t)R.next(); (void)k; uint64_t i = vh::case_index(); size_t n = 0; for (n = 0;; ++n) { uint64_t c = 1ull << (n * (n ? n - 1 : 0) / 2); if (i < c) break; i -= c; } Adj a = mk(n); size_t b = 0; for (size_t x = 0; x < n; ++x) for (size_t y = x + 1; y < n; ++y, ++b) if (i >> b & 1) put(a, x, y); vh::desc("graph " + show(a)); check<variable>(R, a, vlabels(R, n)); }
SCENARIO(from_polynomials, 600, 30000) {
    size_t nv = 1 + R.below(9); cv::vars(60); std::vector<mdl::Z> fs; unsigned m = R.below(7); for (unsigned i = 0; i < m; ++i) { unsigned w = 1 + R.below(4); mdl::Z f; for (unsigned t = 0; t < 1 + R.below(4); ++t) { mdl::Exp e(nv, 0); for (unsigned j = 0; j < w; ++j) e[R.below(nv)] = (uint32_t)R.below(4); f.add_term(e, gen::coef(R, 0)); } if (R.chance(1, 15)) f = mdl::Z(gen::coef(R, 0)); if (R.chance(1, 20)) f = mdl::Z(); fs.push_back(f); }
    std::string d = "associated graph"; for (auto& f : fs) d += " ; " + f.str(); vh::desc(d); std::vector<clpoly::polynomial_ZZ> L; for (auto& f : fs) L.push_back(cv::to<ZZ, clpoly::grlex>(f)); const auto L0 = L; auto g = clpoly::associatedgraph(L); std::vector<variable> label; std::vector<int> ix; for (size_t i = 0; i < nv; ++i) { bool used = false; for (auto& f : fs) if (f.has(i)) used = true; if (used) { label.push_back(cv::V()[i]); ix.push_back((int)i); } } Adj a = mk(label.size()); for (auto& f : fs) for (size_t i = 0; i < ix.size(); ++i) for (size_t j = 0; j < i; ++j) if (f.has(ix[i]) && f.has(ix[j])) put(a, i, j); VREQ(adj(g, label) == a, "associated", "graph is " << show(adj(g, label)) << ", not " << show(a));
    auto o = order(clpoly::peo(L), label, "peo"); VREQ(L == L0, "operand-changed", "polynomials changed"); minimal(a, fill(a, o), "elimination in the order of peo");
    { std::vector<variable> l; for (size_t i : perm(R, label.size())) l.push_back(label[i]); std::vector<size_t> cnt(l.size() + 1, 0); size_t deg = 0, best = 0; for (auto& f : fs) { size_t first = l.size(); for (size_t i = 0; i < l.size(); ++i) { size_t v = (size_t)cv::vindex(l[i]); if (f.has(v)) { first = std::min(first, i); deg = std::max(deg, (size_t)f.deg(v)); } } if (first < l.size()) best = std::max(best, ++cnt[first]); } auto md = clpoly::__polynomial_m_d(L, l); VREQ(md.second == deg, "m-d", "maximal degree " << md.second << ", not " << deg); VREQ(md.first == best, "m-d", "largest class " << md.first << ", not " << best); }
    if (edges(a)) vh::nontrivial(vh::hash_str(d)); vh::sample(vh::clip(d, 200)); }
