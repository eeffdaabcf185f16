// P03: character sets against plain membership.
#include "ref.hpp"
using namespace R;
using G = fa::RegexASTGroup<NS>;
using Ranges = std::vector<std::pair<uint32_t, uint32_t>>;
static uint32_t const MAX = log_surgeon::cUnicodeMax;
static bool in(Ranges const& r, uint32_t c) { for (auto [a, b] : r) if (a <= c && c <= b) return true; return false; }
static std::string s(Ranges const& r) { std::string o; for (auto [a, b] : r) o += "[" + std::to_string(a) + "," + std::to_string(b) + "] "; return o; }
static std::vector<uint32_t> probes(Ranges const& r) {
    std::set<uint32_t> p{0, 1, 127, 128, 255, 256, 257, 0xffff, MAX - 1, MAX};
    for (auto [a, b] : r) for (uint32_t x : {a, b}) for (int d = -2; d <= 2; d++) { int64_t y = static_cast<int64_t>(x) + d; if (y >= 0 && y <= MAX) p.insert(static_cast<uint32_t>(y)); }
    for (uint32_t i = 0; i < 256; i++) p.insert(i);
    return {p.begin(), p.end()};
}
static std::unique_ptr<std::array<bool, log_surgeon::cSizeOfUnicode>> inputs(Ast const& a) {
    auto r = std::make_unique<std::array<bool, log_surgeon::cSizeOfUnicode>>();
    r->fill(false);
    a.set_possible_inputs_to_true(*r);
    return r;
}
// The transitions from the root of the automaton of one rule, which is a set
static void check_nfa(Ast const& a, Ranges const& r, bool neg) {
    std::vector<log_surgeon::LexicalRule<NS>> rules;
    rules.emplace_back(5, AstP(a.clone()));
    fa::RegexNFA<NS> nfa(std::move(rules));
    auto st = nclosure({nfa.get_root()});
    H::check(nids(st).empty(), "a set does not match the empty string");
    for (unsigned c = 0; c < 256; c++) {
        auto n = nstep(st, c);
        H::check(!nids(n).empty() == (in(r, c) != neg), "match of character " + std::to_string(c));
        for (unsigned c2 : {0u, 97u, 255u}) H::check(nids(nstep(n, c2)).empty(), "a set matches one character only");
    }
}
template <class T> static void check_private(Ranges const& r, Ranges const& sorted) {
    Ranges merged = sorted;
    if constexpr (requires { T::merge(sorted); }) {
        merged = T::merge(sorted);
        for (auto c : probes(sorted)) H::check(in(merged, c) == in(sorted, c), "merge " + s(sorted) + "-> " + s(merged) + " at " + std::to_string(c));
        for (size_t i = 1; i < merged.size(); i++) H::check(merged[i - 1].second < merged[i].first, "merge " + s(sorted) + "-> " + s(merged) + " overlaps or is not sorted");
        if constexpr (requires { T::complement(merged); }) {
            auto comp = T::complement(merged);
            for (auto [a, b] : comp) H::check(a <= b && b <= MAX, "complement " + s(merged) + "-> " + s(comp) + " has an invalid range");
            for (auto c : probes(sorted)) H::check(in(comp, c) != in(sorted, c), "complement " + s(merged) + "-> " + s(comp) + " at " + std::to_string(c));
        }
    }
}
void run(H::Rng& rng) {
    static uint32_t const edge[] = {0, 1, 2, 96, 97, 98, 254, 255, 256, 257, 1000, 0xfffe, 0x10000, 0x10fffe, 0x10ffff};
    auto pt = [&](unsigned mode) -> uint32_t { return mode == 0 ? static_cast<uint32_t>(rng(12)) : mode == 1 ? static_cast<uint32_t>(rng(256)) : mode == 2 ? edge[rng(15)] : static_cast<uint32_t>(rng(MAX + 1)); };
    for (uint64_t it = 0; H::time_left(); it++) {
        unsigned mode = static_cast<unsigned>(rng(4));
        Ranges r; bool neg = rng.chance(1, 2);
        size_t n = rng(6) + (neg ? 0 : 1);
        std::string how;
        std::unique_ptr<G> g;
        if (neg) { g = std::make_unique<G>(); how = "G()"; }
        // the constructors used by the schema parser, or the functions for adding
        unsigned style = static_cast<unsigned>(rng(3));
        for (size_t i = 0; i < n; i++) {
            uint32_t a = pt(mode), b = rng.chance(1, 3) ? a : rng.chance(1, 2) ? std::min(MAX, a + static_cast<uint32_t>(rng(3))) : pt(mode);
            if (!r.empty() && rng.chance(1, 4)) { a = r.back().second + 1; if (a > MAX) a = MAX; b = std::min(MAX, a + static_cast<uint32_t>(rng(4))); }
            if (a > b) std::swap(a, b);
            r.push_back({a, b});
            how += " +[" + std::to_string(a) + "," + std::to_string(b) + "]";
            fa::RegexASTLiteral<NS> la(a), lb(b);
            if (!g) {
                how = "style " + std::to_string(style) + ":" + how;
                if (a == b && style == 0) g = std::make_unique<G>(&la);
                else if (a == b && style == 1) g = std::make_unique<G>(std::vector<uint32_t>{a});
                else if (style == 0 && b > a) { G x(&la, &lb); g = std::make_unique<G>(&x); }
                else g = std::make_unique<G>(a, b);
            } else if (style == 2) {
                if (a == b) g->add_literal(a); else g->add_range(a, b);
            } else if (a == b) g = std::make_unique<G>(g.get(), &la);
            else { G x(a, b); g = std::make_unique<G>(g.get(), &x); }
        }
        H::begin((neg ? "negated set " : "set ") + how);
        H::check(g->is_negated() == neg, "is_negated");
        H::check(s(g->get_ranges()) == s(r), "ranges of the set: " + s(g->get_ranges()));
        check_nfa(*g, r, neg);
        auto sorted = r; std::sort(sorted.begin(), sorted.end());
        check_private<G>(r, sorted);
        H::check(s(g->get_ranges()) == s(r), "ranges of the set after building the automaton: " + s(g->get_ranges()));
        if (it % 40 == 0) {
            auto in1 = inputs(*g);
            for (uint32_t c = 0; c <= MAX; c++) if ((*in1)[c] != (in(r, c) != neg)) H::fail("possible input " + std::to_string(c));
        }
        // a set is not a wildcard
        std::vector<uint32_t> dl{'a', ' '};
        g->remove_delimiters_from_wildcard(dl);
        H::check(s(g->get_ranges()) == s(r), "ranges of a set that is not a wildcard after removing delimiters: " + s(g->get_ranges()));
        if (it % 10 == 0) {
            G w(0, MAX); w.set_is_wildcard_true();
            std::set<uint32_t> ds;
            size_t k = rng(8);
            for (size_t i = 0; i < k; i++) { uint32_t x = pt(static_cast<unsigned>(rng(3))); ds.insert(x); if (rng.chance(1, 2) && x < MAX) ds.insert(x + 1); }
            std::vector<uint32_t> dv(ds.begin(), ds.end());
            for (size_t i = dv.size(); i > 1; i--) std::swap(dv[i - 1], dv[rng(i)]);
            std::string desc = "wildcard without";
            for (auto x : dv) desc += " " + std::to_string(x);
            H::begin(desc);
            w.remove_delimiters_from_wildcard(dv);
            Ranges dr; for (auto x : ds) dr.push_back({x, x});
            auto ranges = w.get_ranges();
            for (auto c : probes(dr)) H::check(in(ranges, c) == !ds.count(c), "wildcard ranges " + s(ranges) + "at " + std::to_string(c));
            for (auto [a, b] : ranges) H::check(a <= b && b <= MAX, "wildcard ranges " + s(ranges));
            check_nfa(w, dr, true);
        }
        if (it % 40 == 1) {  // inputs of a whole pattern
            Gen gg{rng}; gg.wide = true; gg.captures = true; gg.caps_in_reps = true; gg.hi = 0x110000;
            auto p = gg.gen(3);
            H::begin("pattern " + text(*p));
            auto in1 = inputs(*to_ast(*p));
            CS all; all.set();
            auto o = occurring(*p, all);
            for (unsigned c = 0; c < 256; c++) if (o[c]) H::check((*in1)[c], "possible input " + std::to_string(c) + " is not reported");
            std::function<void(Pat const&)> lits = [&](Pat const& q) {
                if (q.l) lits(*q.l);
                if (q.r) lits(*q.r);
                if (q.k == Lit) H::check((*in1)[q.c], "possible input " + std::to_string(q.c) + " is not reported");
                if (q.k == Set && !q.neg) for (auto [a, b] : q.items) for (auto x : {a, b}) H::check((*in1)[x], "possible input " + std::to_string(x) + " is not reported");
            };
            lits(*p);
            // removing delimiters reaches every wildcard of the pattern
            auto a2 = to_ast(*p);
            std::vector<uint32_t> dl2{'b', '1', ' ', 'z'};
            a2->remove_delimiters_from_wildcard(dl2);
            CS any = all; for (auto x : {'b', '1', ' ', 'z'}) any.reset(static_cast<size_t>(x));
            auto o2 = occurring(*p, any);
            auto in2 = inputs(*a2);
            for (unsigned c = 0; c < 256; c++) H::check((*in2)[c] == o2[c], "possible input " + std::to_string(c) + " after removing b, 1, space and z from the wildcards");
        }
    }
}
