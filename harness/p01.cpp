// P01: the automaton of a list of rules against the reference matcher, for all strings (product of the two automata).
#include "ref.hpp"
using namespace R;
static void one(std::vector<P> const& ps, std::vector<uint32_t> const& ids, std::vector<uint32_t> const& bytes) {
    std::vector<log_surgeon::LexicalRule<NS>> rules;
    for (size_t i = 0; i < ps.size(); i++) {
        auto a = to_ast(*ps[i]);
        if (i % 2 == 1) a = AstP(a->clone());
        rules.emplace_back(ids[i], std::move(a));
    }
    fa::RegexNFA<NS> nfa(std::move(rules));
    CS all; all.set();
    Ref ref(ps, all);
    compare_nfa(nfa, ref, ids, bytes);
}
static std::string d(std::vector<P> const& ps, std::vector<uint32_t> const& ids) {
    std::string s;
    for (size_t i = 0; i < ps.size(); i++) s += "rule id " + std::to_string(ids[i]) + ": " + text(*ps[i]) + "\n";
    return s;
}
void run(H::Rng& rng) {
    std::vector<uint32_t> small{'a', 'b', '1', 'z', 200}, all;
    for (uint32_t i = 0; i < 256; i++) all.push_back(i);
    // every combination of two operators over small operands first
    std::vector<P> leaves{lit('a'), mk(Empty), bin(Cat, lit('a'), lit('b')), bin(Or, lit('a'), lit('b'))};
    auto ops = [](P x, P y) {
        std::vector<P> r{bin(Cat, x, y), bin(Or, x, y), cap(x, "t")};
        for (auto [a, b] : std::vector<std::pair<int, int>>{{0, 0}, {1, 0}, {2, 0}, {3, 0}, {0, 1}, {0, 2}, {0, 4}, {1, 1}, {1, 2}, {1, 4}, {2, 2}, {2, 3}, {3, 5}}) r.push_back(rep(x, a, b));
        return r;
    };
    std::vector<P> lvl;
    for (auto const& x : leaves) for (auto const& y : leaves) for (auto const& p : ops(x, y)) lvl.push_back(p);
    for (auto const& p : lvl) { H::begin(d({p}, {7})); one({p}, {7}, small); }
    for (uint64_t it = 0; H::time_left(); it++) {
        std::vector<P> ps; std::vector<uint32_t> ids;
        if (it % 2 == 0) {
            for (auto const& p : ops(rng.pick(lvl), rng.pick(lvl))) if (rng.chance(1, 4) && weight(*p) < 80) { ps.push_back(p); }
            if (ps.empty()) continue;
            ps.resize(1);
        } else {
            Gen g{rng}; g.captures = true; g.caps_in_reps = true; g.wide = rng.chance(1, 3); g.hi = rng.chance(1, 2) ? 256 : 0x110000;
            size_t n = 1 + rng(3);
            for (size_t i = 0; i < n; i++) { auto p = g.gen(1 + static_cast<int>(rng(4))); if (weight(*p) < 60) ps.push_back(p); }
            if (ps.empty()) continue;
        }
        for (size_t i = 0; i < ps.size(); i++) ids.push_back(static_cast<uint32_t>(rng.chance(1, 3) ? rng(3) : 10 + i));
        H::begin(d(ps, ids));
        one(ps, ids, it % 16 == 1 ? all : small);
    }
}
