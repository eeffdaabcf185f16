// P02: the deterministic automaton against the nondeterministic one it was built from, for all strings.
#include "ref.hpp"
using namespace R;
void run(H::Rng& rng) {
    for (uint64_t it = 0; H::time_left(); it++) {
        Gen g{rng}; g.captures = rng.chance(1, 2); g.caps_in_reps = true; g.wide = rng.chance(1, 3);
        std::vector<P> ps; std::vector<uint32_t> ids;
        size_t n = 1 + rng(it % 11 == 0 ? 12 : 4);
        for (size_t i = 0; i < n; i++) {
            auto p = !ps.empty() && rng.chance(1, 4) ? ps[rng(ps.size())] : g.gen(1 + static_cast<int>(rng(3)));
            if (weight(*p) < 40) ps.push_back(p);
        }
        if (ps.empty()) continue;
        // ids of the rules neither ascending nor unique
        for (size_t i = 0; i < ps.size(); i++) ids.push_back(static_cast<uint32_t>(rng.chance(1, 2) ? 100 - i : rng(200)));
        std::string desc;
        for (size_t i = 0; i < ps.size(); i++) desc += "rule id " + std::to_string(ids[i]) + ": " + text(*ps[i]) + "\n";
        H::begin(desc);
        // fragments the heap, so that the order of addresses is not the order of construction
        std::vector<std::unique_ptr<NS>> junk;
        for (int i = 0; i < 40; i++) junk.push_back(std::make_unique<NS>());
        for (int i = 0; i < 40; i++) if (rng.chance(1, 2)) junk[rng(40)].reset();
        std::vector<log_surgeon::LexicalRule<NS>> rules;
        for (size_t i = 0; i < ps.size(); i++) rules.emplace_back(ids[i], to_ast(*ps[i]));
        fa::RegexNFA<NS> nfa(std::move(rules));
        auto dfa = LexT::nfa_to_dfa(nfa);
        // position of each accepting state in the order of the rules: found by walking each rule alone
        CS all; all.set();
        Ref ref(ps, all);
        std::map<std::tuple<NSet, DS const*, Ref::S>, std::string> seen;
        std::vector<std::tuple<NSet, DS const*, Ref::S>> todo;
        auto push = [&](NSet a, DS const* b, Ref::S r, std::string w) {
            if (!seen.emplace(std::make_tuple(a, b, r), w).second) return;
            std::vector<uint32_t> got = b ? b->get_matching_variable_ids() : std::vector<uint32_t>{};
            H::check(b == nullptr || b->is_accepting() == !got.empty(), "is_accepting of \"" + H::esc(w) + "\"");
            auto want = nids(a);
            std::set<uint32_t> gs(got.begin(), got.end());
            H::check_eq(ids_str({gs.begin(), gs.end()}), ids_str(want), "ids reported for \"" + H::esc(w) + "\"");
            std::vector<uint32_t> ord;
            for (int i : ref.acc(r)) ord.push_back(ids[i]);
            H::check_eq(ids_str(got), ids_str(ord), "order of the ids reported for \"" + H::esc(w) + "\"");
            todo.push_back({a, b, r});
        };
        push(nclosure({nfa.get_root()}), dfa->get_root(), ref.first(), "");
        while (!todo.empty() && seen.size() < 2000) {
            auto [a, b, r] = todo.back(); todo.pop_back();
            std::string w = seen[{a, b, r}];
            for (unsigned c = 0; c < 256; c++) {
                auto a2 = nstep(a, c);
                DS const* b2 = b ? b->next(c) : nullptr;
                if (a2.empty()) { H::check(b2 == nullptr, "a transition that the nondeterministic automaton does not have, after \"" + H::esc(w) + "\""); continue; }
                H::check(b2 != nullptr, "the transition for byte " + std::to_string(c) + " after \"" + H::esc(w) + "\" is missing");
                push(a2, b2, ref.step(r, c), w + static_cast<char>(c));
            }
        }
    }
}
