// P21: printed automaton against an independent breadth-first walk over the states.
#include "ref.hpp"
using namespace R;
using log_surgeon::finite_automata::Tag;
static std::string join(std::vector<std::string> const& v) { std::string o; for (size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + v[i]; return o; }
struct Node { NS const* s; };
static std::string expected(fa::RegexNFA<NS>& nfa) {
    std::vector<NS const*> order{nfa.get_root()};
    std::map<NS const*, uint32_t> id{{nfa.get_root(), 0}};
    auto reach = [&](NS const* d) { if (id.emplace(d, static_cast<uint32_t>(order.size())).second) order.push_back(d); };
    for (size_t i = 0; i < order.size(); i++) {
        NS const* s = order[i];
        for (unsigned b = 0; b < 256; b++) for (auto* d : s->get_byte_transitions(static_cast<uint8_t>(b))) reach(d);
        for (auto* d : s->get_epsilon_transitions()) reach(d);
        for (auto const& t : s->get_positive_tagged_start_transitions()) reach(t.get_dest_state());
        if (s->get_positive_tagged_end_transition()) reach(s->get_positive_tagged_end_transition()->get_dest_state());
        if (s->get_negative_tagged_transition()) reach(s->get_negative_tagged_transition()->get_dest_state());
    }
    std::string out;
    auto names = [](auto const& t) {
        std::string o;
        auto const& m = t.m_tags;
        for (size_t i = 0; i < m.size(); i++) { if (i) o += ","; o += m[i]->get_name(); }
        return o;
    };
    for (size_t i = 0; i < order.size(); i++) {
        NS const* s = order[i];
        std::vector<std::string> by, ep, ps; std::string pe, ng;
        for (unsigned b = 0; b < 256; b++) for (auto* d : s->m_bytes_transitions[b]) by.push_back(std::string(1, static_cast<char>(b)) + "-->" + std::to_string(id.at(d)));
        for (auto* d : s->m_epsilon_transitions) ep.push_back(std::to_string(id.at(d)));
        for (auto const& t : s->m_positive_tagged_start_transitions) ps.push_back(std::to_string(id.at(t.m_dest_state)) + "[" + std::string(t.m_tag->get_name()) + "]");
        if (auto const& t = s->m_positive_tagged_end_transition) pe = std::to_string(id.at(t->m_dest_state)) + "[" + std::string(t->m_tag->get_name()) + "]";
        if (auto const& t = s->m_negative_tagged_transition) ng = std::to_string(id.at(t->m_dest_state)) + "[" + names(*t) + "]";
        if (i) out += "\n";
        out += std::to_string(i) + ":" + (s->m_accepting ? "accepting_tag=" + std::to_string(s->m_matching_variable_id) + "," : "") + "byte_transitions={" + join(by)
            + "},epsilon_transitions={" + join(ep) + "},positive_tagged_start_transitions={" + join(ps) + "},positive_tagged_end_transitions={" + pe
            + "},negative_tagged_transition={" + ng + "}";
    }
    return out + "\n";
}
void run(H::Rng& rng) {
    for (uint64_t it = 0; H::time_left(); it++) {
        std::string desc;
        auto go = [&](fa::RegexNFA<NS>& nfa) {
            auto e = expected(nfa);
            auto n = nfa.get_num_states();
            auto got = nfa.serialize();
            if (got != e) {
                size_t i = 0; while (i < got.size() && i < e.size() && got[i] == e[i]) i++;
                H::fail("printed automaton differs at byte " + std::to_string(i) + ": got ..." + H::esc(got.substr(i > 30 ? i - 30 : 0, 100)) + ", expected ..." + H::esc(e.substr(i > 30 ? i - 30 : 0, 100)));
            }
            auto o = nfa.get_bfs_traversal_order();
            std::set<NS const*> u(o.begin(), o.end());
            H::check_eq<size_t>(u.size(), o.size(), "states listed more than once");
            H::check(!o.empty() && o[0] == nfa.get_root(), "the root is listed first");
            H::check_eq<size_t>(nfa.get_num_states(), n, "number of states after printing");
            H::check(nfa.serialize() == e, "printing a second time");
        };
        if (it % 2 == 0) {  // automaton of patterns
            Gen g{rng}; g.captures = true; g.caps_in_reps = true; g.wide = rng.chance(1, 4);
            std::vector<log_surgeon::LexicalRule<NS>> rules;
            size_t n = 1 + rng(4);
            for (size_t i = 0; i < n; i++) {
                auto p = g.gen(1 + static_cast<int>(rng(4)));
                if (weight(*p) > 300) continue;
                uint32_t id = static_cast<uint32_t>(rng(50));
                desc += std::to_string(id) + ": " + text(*p) + "\n";
                rules.emplace_back(id, to_ast(*p));
            }
            H::begin(desc);
            fa::RegexNFA<NS> nfa(std::move(rules));
            go(nfa);
        } else {  // any graph, with cycles, loops, unreachable states and accepting states anywhere
            fa::RegexNFA<NS> nfa(std::vector<log_surgeon::LexicalRule<NS>>{});
            std::vector<std::unique_ptr<Tag>> tags;
            for (char const* s : {"a", "bb", "c_3", ""}) tags.push_back(std::make_unique<Tag>(s));
            std::vector<NS*> st{nfa.get_root()};
            size_t n = 1 + rng(it % 13 == 1 ? 120 : 9);
            desc = "graph: ";
            for (size_t i = 0; i < n; i++) {
                unsigned k = static_cast<unsigned>(rng(5));
                NS* d = st[rng(st.size())];
                std::vector<Tag const*> ts; for (size_t q = rng(4); q > 0; q--) ts.push_back(tags[rng(4)].get());
                if (k == 0) { st.push_back(nfa.new_state_with_positive_tagged_end_transition(tags[rng(4)].get(), d)); desc += "E"; }
                else if (k == 1) { st.push_back(nfa.new_state_with_negative_tagged_transition(ts, d)); desc += "N" + std::to_string(ts.size()); }
                else if (k == 2) { auto p = nfa.new_start_and_end_states_with_positive_tagged_transitions(tags[rng(4)].get(), d); st.push_back(p.first); st.push_back(p.second); desc += "P"; }
                else { st.push_back(nfa.new_state()); desc += "S"; }
            }
            size_t m = rng(st.size() * 4 + 1);
            for (size_t i = 0; i < m; i++) {
                size_t ai = rng(st.size()), bi = rng(st.size());
                NS* a = st[ai]; NS* b = st[bi];
                unsigned k = static_cast<unsigned>(rng(5));
                desc += " " + std::to_string(ai) + "-" + std::to_string(k) + ">" + std::to_string(bi);
                if (k == 0) a->add_epsilon_transition(b);
                else if (k == 1) a->add_byte_transition(static_cast<uint8_t>(rng.chance(1, 3) ? (rng.chance(1, 2) ? 255 : 0) : rng(256)), b);
                else if (k == 2) { uint32_t lo = static_cast<uint32_t>(rng(256)); a->add_interval({lo, lo + static_cast<uint32_t>(rng(20))}, b); }
                else if (k == 3) a->add_positive_tagged_start_transition(tags[rng(4)].get(), b);
                else { a->set_accepting(rng.chance(4, 5)); a->set_matching_variable_id(static_cast<uint32_t>(rng.chance(1, 4) ? UINT32_MAX : rng(30))); }
            }
            if (rng.chance(1, 3)) nfa.set_root(st[rng(st.size())]);
            H::begin(desc);
            go(nfa);
        }
    }
}
