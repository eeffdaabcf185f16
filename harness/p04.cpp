// P04: intersection of automata against the reference matchers, for all strings.
#include "ref.hpp"
using namespace R;
struct A {
    std::vector<P> ps; std::vector<uint32_t> ids; std::unique_ptr<fa::RegexDFA<DS>> dfa; std::string desc;
    A(H::Rng& rng, size_t max_rules) {
        Gen g{rng}; g.captures = rng.chance(1, 4); g.wide = rng.chance(1, 4);
        size_t n = 1 + rng(max_rules);
        for (size_t i = 0; i < n; i++) { auto p = g.gen(1 + static_cast<int>(rng(4))); if (weight(*p) < 40) { ps.push_back(p); ids.push_back(static_cast<uint32_t>(rng.chance(1, 4) ? rng(3) : 50 - i)); } }
        if (ps.empty()) { ps.push_back(lit('a')); ids.push_back(4); }
        std::vector<log_surgeon::LexicalRule<NS>> rules;
        for (size_t i = 0; i < ps.size(); i++) { rules.emplace_back(ids[i], to_ast(*ps[i])); desc += "  rule id " + std::to_string(ids[i]) + ": " + text(*ps[i]) + "\n"; }
        fa::RegexNFA<NS> nfa(std::move(rules));
        dfa = LexT::nfa_to_dfa(nfa);
    }
};
static std::string dump(fa::RegexDFA<DS> const& d) {
    std::map<DS const*, int> ids; std::vector<DS const*> o{d.get_root()}; ids[o[0]] = 0; std::string s;
    for (size_t i = 0; i < o.size() && i < 500; i++) {
        for (unsigned c = 0; c < 256; c++) if (auto* t = o[i]->next(c)) { if (ids.emplace(t, ids.size()).second) o.push_back(t); s += std::to_string(c) + ">" + std::to_string(ids[t]) + " "; }
        s += ids_str(o[i]->get_matching_variable_ids()) + ";";
    }
    return s;
}
void run(H::Rng& rng) {
    CS all; all.set();
    for (uint64_t it = 0; H::time_left(); it++) {
        A x(rng, 4), y(rng, 2);
        H::begin("first automaton:\n" + x.desc + "second automaton:\n" + y.desc);
        auto d1 = dump(*x.dfa), d2 = dump(*y.dfa);
        auto got = x.dfa->get_intersect(y.dfa);
        H::check(dump(*x.dfa) == d1 && dump(*y.dfa) == d2, "an automaton was changed");
        RefDfa rx(x.ps, all), ry(y.ps, all);
        std::set<std::pair<int, int>> seen{{0, 0}};
        std::vector<std::pair<int, int>> todo{{0, 0}};
        std::set<uint32_t> want;
        while (!todo.empty()) {
            auto [a, b] = todo.back(); todo.pop_back();
            if (!ry.accs[b].empty()) for (int i : rx.accs[a]) want.insert(x.ids[i]);
            for (unsigned c = 0; c < 256; c++) {
                int a2 = rx.step(a, c), b2 = ry.step(b, c);
                if (a2 >= 0 && b2 >= 0 && seen.insert({a2, b2}).second) todo.push_back({a2, b2});
            }
        }
        H::check_eq(ids_str({got.begin(), got.end()}), ids_str({want.begin(), want.end()}), "types shared by the automata");
    }
}
