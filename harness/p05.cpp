// P05: capture groups marked along the accepting paths, against the groups that the match went through.
#include "ref.hpp"
using namespace R;
// status of every tag on a path: 0 not seen, 1 started, 2 captured, 3 unmatched
using St = std::string;
static std::vector<std::string> split_names(std::string const& s) {  // "0[a,b]" -> a b
    std::vector<std::string> r; auto i = s.find('['), j = s.rfind(']');
    std::string cur;
    for (size_t k = i + 1; k < j; k++) { if (s[k] == ',') { r.push_back(cur); cur.clear(); } else cur += s[k]; }
    if (j > i + 1) r.push_back(cur);
    return r;
}
static void one(P const& p, int ncap) {
    auto ast = to_ast(*p);
    std::vector<std::string> names;
    std::function<void(Pat const&)> nm = [&](Pat const& q) { if (q.l) nm(*q.l); if (q.r) nm(*q.r); if (q.k == Cap) names.push_back(q.name); };
    nm(*p);
    std::map<std::string, int> idx;
    for (size_t i = 0; i < names.size(); i++) idx[names[i]] = static_cast<int>(i);
    {
        std::vector<std::string> got; for (auto const* t : ast->get_subtree_positive_tags()) got.emplace_back(t->get_name());
        std::sort(got.begin(), got.end()); auto want = names; std::sort(want.begin(), want.end());
        H::check(got == want, "groups recorded for the pattern");
    }
    std::vector<log_surgeon::LexicalRule<NS>> rules;
    rules.emplace_back(9, std::move(ast));
    fa::RegexNFA<NS> nfa(std::move(rules));
    Ref ref({p}, [] { CS a; a.set(); return a; }());
    std::vector<int> cmap; for (auto const& n : ref.n.caps) cmap.push_back(idx.at(n));
    // sets of (state, status) on both sides, for the same string
    using LS = std::set<std::pair<NS const*, St>>; using RS = std::set<std::pair<int, St>>;
    auto lclose = [&](LS s) {
        std::vector<std::pair<NS const*, St>> todo(s.begin(), s.end());
        auto add = [&](NS const* d, St st) { if (s.emplace(d, st).second) todo.push_back({d, st}); };
        while (!todo.empty()) {
            auto [q, st] = todo.back(); todo.pop_back();
            for (auto const* e : q->get_epsilon_transitions()) add(e, st);
            auto names_of = [&](auto const& tr) { std::unordered_map<NS const*, uint32_t> m{{tr.get_dest_state(), 0}}; auto x = tr.serialize(m); H::check(x.has_value(), "a transition is printed"); return split_names(x.value()); };
            for (auto const& t : q->get_positive_tagged_start_transitions()) for (auto const& n : names_of(t)) {
                H::check(st[idx.at(n)] == '0', "group " + n + " is started twice or after it was marked on a path"); St s2 = st; s2[idx.at(n)] = '1'; add(t.get_dest_state(), s2); }
            if (q->get_positive_tagged_end_transition().has_value()) { auto const& t = q->get_positive_tagged_end_transition().value(); for (auto const& n : names_of(t)) {
                H::check(st[idx.at(n)] == '1', "group " + n + " ends without having started on a path"); St s2 = st; s2[idx.at(n)] = '2'; add(t.get_dest_state(), s2); } }
            if (q->get_negative_tagged_transition().has_value()) { auto const& t = q->get_negative_tagged_transition().value(); St s2 = st; for (auto const& n : names_of(t)) {
                H::check(s2[idx.at(n)] == '0', "group " + n + " is marked unmatched after it was marked on a path"); s2[idx.at(n)] = '3'; } add(t.get_dest_state(), s2); }
        }
        return s;
    };
    auto rclose = [&](RS s) {
        std::vector<std::pair<int, St>> todo(s.begin(), s.end());
        while (!todo.empty()) {
            auto [q, st] = todo.back(); todo.pop_back();
            for (auto const& e : ref.n.st[q]) if (e.mark != -1) { St s2 = st; if (e.mark >= 0) s2[cmap[e.mark]] = '2'; if (s.emplace(e.to, s2).second) todo.push_back({e.to, s2}); }
        }
        return s;
    };
    St zero(names.size(), '0');
    std::map<std::pair<LS, RS>, std::string> seen; std::vector<std::pair<LS, RS>> todo;
    auto push = [&](LS l, RS r, std::string w) {
        if (!seen.emplace(std::make_pair(l, r), w).second) return;
        std::set<St> got, want;
        for (auto const& [q, st] : l) if (q->is_accepting()) {
            St s2 = st;
            for (auto& c : s2) { H::check(c == '2' || c == '3', "a path that accepts \"" + H::esc(w) + "\" does not mark a group as captured or unmatched"); if (c == '3') c = '0'; }
            got.insert(s2);
        }
        for (auto const& [q, st] : r) if (q == ref.ends[0]) want.insert(st);
        H::check(got == want, "the groups captured when matching \"" + H::esc(w) + "\"");
        todo.push_back({l, r});
    };
    push(lclose({{nfa.get_root(), zero}}), rclose({{ref.start, zero}}), "");
    std::vector<unsigned> bytes{'a', 'b', '1', 'z', ' '};
    while (!todo.empty() && seen.size() < 400) {
        auto [l, r] = todo.back(); todo.pop_back();
        std::string w = seen[{l, r}];
        for (unsigned c : bytes) {
            LS l2; RS r2;
            for (auto const& [q, st] : l) for (auto const* d : q->get_byte_transitions(static_cast<uint8_t>(c))) l2.insert({d, st});
            for (auto const& [q, st] : r) for (auto const& e : ref.n.st[q]) if (e.mark == -1 && e.cs[c]) r2.insert({e.to, st});
            if (l2.empty() && r2.empty()) continue;
            push(lclose(l2), rclose(r2), w + static_cast<char>(c));
        }
    }
    (void)ncap;
}
// what the schema parser builds: a repetition that may match zero times is an alternative to the empty pattern
static P norm(P const& p) {
    auto q = std::make_shared<Pat>(*p);
    if (q->l) q->l = norm(q->l);
    if (q->r) q->r = norm(q->r);
    if (q->k == Rep && q->min == 0) { auto e = std::make_shared<Pat>(*q); e->min = 1; return bin(Or, mk(Empty), e); }
    return q;
}
void run(H::Rng& rng) {
    for (uint64_t it = 0; H::time_left(); it++) {
        Gen g{rng}; g.captures = true; g.caps_in_reps = false;
        auto p = norm(g.gen(2 + static_cast<int>(rng(4))));
        // an optional group: {0,1} is a choice, not a repetition
        if (rng.chance(1, 3)) p = bin(Cat, p, bin(Or, mk(Empty), rep(cap(g.leaf(), "opt"), 1, 1)));
        if (g.ncap > 5 || weight(*p) > 40) continue;
        H::begin("pattern " + text(*p));
        one(p, g.ncap);
    }
}
