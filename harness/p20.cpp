// P20: the interval tree against an ordered map, and the height of its nodes by the depth a search needs.
#include "common.hpp"
#include <algorithm>
#include <cmath>
#include <log_surgeon/finite_automata/UnicodeIntervalTree.hpp>
using namespace log_surgeon::finite_automata;
using V = std::vector<std::pair<Interval, int>>;
template <class D> static V items(D const& d) { V r; for (auto const& x : d) r.push_back({x.m_interval, x.m_value}); return r; }
static std::string show(V const& v) { std::string s; for (auto const& [i, x] : v) s += "[" + std::to_string(i.first) + "," + std::to_string(i.second) + "]=" + std::to_string(x) + " "; return s; }
static void eq(V const& got, V const& want, std::string const& what) { if (got != want) H::fail(what + ": got " + show(got) + "\nexpected " + show(want)); }
// depth of the tree; the members are private (the file is built with -fno-access-control where they have these names)
template <class N> static int depth(N const& n) {
    if (!n) return 0;
    if constexpr (requires { n->m_left; n->m_right; }) return 1 + std::max(depth(n->m_left), depth(n->m_right));
    else return 0;
}
template <class T> static void balanced(T const& t, size_t n) {
    if constexpr (requires { t.m_root; }) {
        int d = depth(t.m_root), max = 1;
        while (1.45 * std::log2(static_cast<double>(n) + 2) > max) max++;
        H::check(d <= max, "the tree of " + std::to_string(n) + " intervals is " + std::to_string(d) + " deep");
    }
}
static void seq(H::Rng& rng, size_t n, uint32_t hi, uint32_t len, unsigned order) {
    UnicodeIntervalTree<int> t;
    std::map<Interval, int> m;
    std::string log;
    for (size_t i = 0; i < n; i++) {
        uint32_t a = static_cast<uint32_t>(rng(hi)), b = a + static_cast<uint32_t>(rng(len));
        if (order == 1) { a = static_cast<uint32_t>(3 * i); b = a + 1; }
        if (order == 2) { a = static_cast<uint32_t>(3 * (n - i)); b = a + 1; }
        if (rng.chance(1, 40)) b = 0x10ffff;
        if (rng.chance(1, 60)) { a = 0; b = UINT32_MAX; }
        auto ov = [&](Interval x) { return x.first <= b && a <= x.second; };
        unsigned op = order ? (rng.chance(9, 10) ? 0 : 5) : static_cast<unsigned>(rng(8));
        auto name = "(" + std::to_string(a) + "," + std::to_string(b) + ")";
        V want;
        if (op < 4) { log += "insert" + name + " "; H::begin(log); t.insert({a, b}, static_cast<int>(i)); m[{a, b}] = static_cast<int>(i); }
        else if (op < 6) { log += "find" + name + " "; H::begin(log); for (auto const& k : m) if (ov(k.first)) want.push_back(k); auto r = t.find({a, b}); H::check(r != nullptr, "find gives nothing"); auto g = items(*r); std::sort(g.begin(), g.end()); eq(g, want, "find"); }
        else if (op == 6) { log += "pop" + name + " "; H::begin(log); for (auto const& k : m) if (ov(k.first)) want.push_back(k); auto r = t.pop({a, b}); H::check(r != nullptr, "pop gives nothing"); auto g = items(*r); std::sort(g.begin(), g.end()); eq(g, want, "pop"); std::erase_if(m, [&](auto& k) { return ov(k.first); }); }
        else if (rng.chance(1, 30)) { log += "reset "; H::begin(log); t.reset(); m.clear(); }
        eq(items(t.all()), V(m.begin(), m.end()), "all");
        balanced(t, m.size());
    }
}
void run(H::Rng& rng) {
    // deep recursions of a tree that is a list would not end in time or overflow the stack
    for (unsigned order : {1u, 2u}) {
        UnicodeIntervalTree<int> t;
        H::begin(std::string("100000 insertions in ") + (order == 1 ? "ascending" : "descending") + " order, 1000 pops", 20);
        for (uint32_t i = 0; i < 100000; i++) { uint32_t a = order == 1 ? 2 * i : 2 * (100000 - i); t.insert({a, a}, 1); }
        for (uint32_t i = 0; i < 1000; i++) H::check_eq(t.pop({order == 1 ? 198 * i : 198 * i + 2, order == 1 ? 198 * i : 198 * i + 2})->size(), size_t(1), "popped");
        H::check_eq(t.all().size(), size_t(99000), "number of intervals");
    }
    for (uint64_t it = 0; H::time_left(); it++) seq(rng, it % 50 == 3 ? 400 : 60, 3 + static_cast<uint32_t>(rng(rng.chance(1, 4) ? 3000 : 40)), 1 + static_cast<uint32_t>(rng(6)), it % 10 < 8 ? 0 : static_cast<unsigned>(1 + it % 2));
}
