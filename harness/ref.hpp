// Reference semantics: patterns with their own matcher, written without using the library's automata.
#pragma once
#include "common.hpp"
#include <bitset>
#include <algorithm>
#include <memory>
#include <log_surgeon/Constants.hpp>
#include <log_surgeon/Lexer.hpp>
#include <log_surgeon/finite_automata/RegexAST.hpp>
#include <log_surgeon/finite_automata/RegexDFA.hpp>
#include <log_surgeon/finite_automata/RegexNFA.hpp>
#include <log_surgeon/finite_automata/Tag.hpp>

namespace R {
namespace fa = log_surgeon::finite_automata;
using NS = fa::RegexNFAByteState;
using DS = fa::RegexDFAByteState;
using Ast = fa::RegexAST<NS>;
using AstP = std::unique_ptr<Ast>;
using CS = std::bitset<256>;
using LexT = log_surgeon::Lexer<NS, DS>;

enum Kind { Lit, Set, Digit, Space, Any, Cat, Or, Rep, Cap, Empty };
struct Pat;
using P = std::shared_ptr<Pat>;
struct Pat {
    Kind k;
    uint32_t c{0};
    bool neg{false};
    std::vector<std::pair<uint32_t, uint32_t>> items;
    P l, r;
    uint32_t min{0}, max{0};  // max 0: unbounded
    std::string name;
};
inline P mk(Kind k) { auto p = std::make_shared<Pat>(); p->k = k; return p; }
inline P lit(uint32_t c) { auto p = mk(Lit); p->c = c; return p; }
inline P bin(Kind k, P l, P r) { auto p = mk(k); p->l = l; p->r = r; return p; }
inline P rep(P l, uint32_t mn, uint32_t mx) { auto p = mk(Rep); p->l = l; p->min = mn; p->max = mx; return p; }
inline P cap(P l, std::string n) { auto p = mk(Cap); p->l = l; p->name = n; return p; }

inline CS chars(Pat const& p, CS const& any) {
    CS s;
    switch (p.k) {
        case Lit: if (p.c < 256) s.set(p.c); break;
        case Set:
            for (auto [a, b] : p.items) for (uint32_t i = a; i <= b && i < 256; i++) s.set(i);
            if (p.neg) s.flip();
            break;
        case Digit: for (int i = '0'; i <= '9'; i++) s.set(i); break;
        case Space: for (char c : {' ', '\t', '\r', '\n', '\v', '\f'}) s.set(static_cast<unsigned char>(c)); break;
        case Any: s = any; break;
        default: break;
    }
    return s;
}
// every character that can occur in a match
inline CS occurring(Pat const& p, CS const& any) {
    if (p.k == Empty) return {};
    if (p.k == Cat || p.k == Or) return occurring(*p.l, any) | occurring(*p.r, any);
    if (p.k == Rep || p.k == Cap) return occurring(*p.l, any);
    return chars(p, any);
}
inline bool nullable(Pat const& p) {
    switch (p.k) {
        case Empty: return true;
        case Cat: return nullable(*p.l) && nullable(*p.r);
        case Or: return nullable(*p.l) || nullable(*p.r);
        case Rep: return p.min == 0 || nullable(*p.l);
        case Cap: return nullable(*p.l);
        default: return false;
    }
}
// ------------------------------------------------------------------ reference automaton (all states fresh)
struct RNfa {
    struct E { int to; CS cs; int mark; };  // mark: -1 character edge, -2 empty edge, otherwise the index of a captured group
    std::vector<std::vector<E>> st;
    std::vector<std::string> caps;
    CS any;
    int add() { st.emplace_back(); return static_cast<int>(st.size()) - 1; }
    void eps(int a, int b) { st[a].push_back({b, {}, -2}); }
    // returns the last state of a match that starts in a
    int build(Pat const& p, int a) {
        switch (p.k) {
            case Empty: { int b = add(); eps(a, b); return b; }
            case Cat: { int m = build(*p.l, a); return build(*p.r, m); }
            case Or: {
                int s1 = add(), s2 = add(), b = add();
                eps(a, s1); eps(a, s2);
                eps(build(*p.l, s1), b); eps(build(*p.r, s2), b);
                return b;
            }
            case Rep: {
                int cur = a;
                for (uint32_t i = 0; i < p.min; i++) { int n = add(); eps(cur, n); cur = build(*p.l, n); }
                int b = add();
                eps(cur, b);
                if (p.max == 0) {
                    int s = add(); eps(b, s); eps(build(*p.l, s), b);
                } else {
                    for (uint32_t i = p.min; i < p.max; i++) { int n = add(); eps(cur, n); cur = build(*p.l, n); eps(cur, b); }
                }
                return b;
            }
            case Cap: {
                int s = add(); eps(a, s);
                int e = build(*p.l, s), b = add();
                caps.push_back(p.name);
                st[e].push_back({b, {}, static_cast<int>(caps.size()) - 1});
                return b;
            }
            default: { int b = add(); st[a].push_back({b, chars(p, any), -1}); return b; }
        }
    }
};
struct Ref {
    RNfa n;
    int start;
    std::vector<int> ends;
    // the matcher of several patterns at once; any: the characters the wildcard stands for
    Ref(std::vector<P> const& ps, CS const& any) {
        n.any = any;
        start = n.add();
        for (auto const& p : ps) { int s = n.add(); n.eps(start, s); ends.push_back(n.build(*p, s)); }
    }
    using S = std::vector<int>;
    S closure(S const& x) const {
        std::vector<char> seen(n.st.size(), 0);
        S todo = x, res;
        for (int i : x) seen[i] = 1;
        while (!todo.empty()) {
            int i = todo.back(); todo.pop_back(); res.push_back(i);
            for (auto const& e : n.st[i]) if (e.mark != -1 && !seen[e.to]) { seen[e.to] = 1; todo.push_back(e.to); }
        }
        std::sort(res.begin(), res.end());
        return res;
    }
    S first() const { return closure({start}); }
    S step(S const& s, unsigned c) const {
        S t;
        for (int i : s) for (auto const& e : n.st[i]) if (e.mark == -1 && e.cs[c]) t.push_back(e.to);
        std::sort(t.begin(), t.end());
        t.erase(std::unique(t.begin(), t.end()), t.end());
        return closure(t);
    }
    // the indices of the patterns that match
    std::vector<int> acc(S const& s) const {
        std::vector<int> r;
        for (size_t i = 0; i < ends.size(); i++) if (std::binary_search(s.begin(), s.end(), ends[i])) r.push_back(static_cast<int>(i));
        return r;
    }
};
// the same, as a table that is filled on demand (for long inputs)
struct RefDfa {
    Ref r;
    std::map<Ref::S, int> ids;
    std::vector<Ref::S> sets;
    std::vector<std::array<int, 256>> next;
    std::vector<std::vector<int>> accs;
    RefDfa(std::vector<P> const& ps, CS const& any) : r(ps, any) { id(r.first()); }
    int id(Ref::S const& s) {
        if (s.empty()) return -1;
        auto [it, isnew] = ids.emplace(s, static_cast<int>(sets.size()));
        if (isnew) { sets.push_back(s); next.emplace_back(); next.back().fill(-2); accs.push_back(r.acc(s)); }
        return it->second;
    }
    int step(int s, unsigned c) {
        if (s < 0) return -1;
        if (next[s][c] == -2) { int t = id(r.step(sets[s], c)); next[s][c] = t; }
        return next[s][c];
    }
};
// ------------------------------------------------------------------ building the library's pattern trees
inline AstP to_ast(Pat const& p) {
    using G = fa::RegexASTGroup<NS>;
    switch (p.k) {
        case Lit: return std::make_unique<fa::RegexASTLiteral<NS>>(p.c);
        case Set: {
            std::unique_ptr<G> g;
            if (p.neg) g = std::make_unique<G>(); else g = std::make_unique<G>(std::vector<uint32_t>{});
            for (auto [a, b] : p.items) { if (a == b) g->add_literal(a); else g->add_range(a, b); }
            return g;
        }
        case Digit: return std::make_unique<G>('0', '9');
        case Space: return std::make_unique<G>(std::vector<uint32_t>{' ', '\t', '\r', '\n', '\v', '\f'});
        case Any: { auto g = std::make_unique<G>(0, log_surgeon::cUnicodeMax); g->set_is_wildcard_true(); return g; }
        case Cat: return std::make_unique<fa::RegexASTCat<NS>>(to_ast(*p.l), to_ast(*p.r));
        case Or: return std::make_unique<fa::RegexASTOr<NS>>(to_ast(*p.l), to_ast(*p.r));
        case Rep: return std::make_unique<fa::RegexASTMultiplication<NS>>(to_ast(*p.l), p.min, p.max);
        case Cap: return std::make_unique<fa::RegexASTCapture<NS>>(to_ast(*p.l), std::make_unique<fa::Tag>(p.name));
        case Empty: return std::make_unique<fa::RegexASTEmpty<NS>>();
    }
    return nullptr;
}
// ------------------------------------------------------------------ schema text
inline std::string chr(uint32_t c) {
    static std::string const special = "()*+-.[]\\^{}|<>?";
    if (c == '\t') return "\\t"; if (c == '\n') return "\\n"; if (c == '\r') return "\\r"; if (c == '\v') return "\\v"; if (c == '\f') return "\\f";
    if (special.find(static_cast<char>(c)) != std::string::npos) return std::string("\\") + static_cast<char>(c);
    return std::string(1, static_cast<char>(c));
}
// levels: 0 Regex, 1 Or, 2 CompleteGroup, 3 Literal
inline std::string text(Pat const& p, int level = 0) {
    auto par = [&](int mine, std::string s) { return mine >= level ? s : "(" + s + ")"; };
    switch (p.k) {
        case Lit: return chr(p.c);
        case Set: {
            std::string s = p.neg ? "[^" : "[";
            for (auto [a, b] : p.items) s += a == b ? chr(a) : chr(a) + "-" + chr(b);
            return par(2, s + "]");
        }
        case Digit: return par(2, "\\d");
        case Space: return par(2, "\\s");
        case Any: return par(2, ".");
        case Cat: {  // Concat: Concat Or, so the right side needs parentheses if it is a concatenation
            return par(0, text(*p.l, 0) + text(*p.r, 1));
        }
        case Or: return par(1, text(*p.l, 1) + "|" + text(*p.r, 3));
        case Rep: {
            std::string o = text(*p.l, 2), q;
            if (p.min == 0 && p.max == 0) q = "*";
            else if (p.min == 1 && p.max == 0) q = "+";
            else if (p.min == p.max) q = "{" + std::to_string(p.min) + "}";
            else q = "{" + std::to_string(p.min) + "," + std::to_string(p.max) + "}";
            return par(1, o + q);
        }
        case Cap: return "(?<" + p.name + ">" + text(*p.l, 0) + ")";
        case Empty: return par(1, "(a){0}");
    }
    return "";
}
// ------------------------------------------------------------------ random patterns
struct Gen {
    H::Rng& rng;
    std::vector<uint32_t> alpha{'a', 'b', '1'};
    bool any = true, captures = false, empty = true, wide = false, caps_in_reps = false, unbounded_min = true, space = true, digit = true, bigrep = true;
    uint32_t hi = 256;
    int ncap = 0;
    uint32_t ch() { return wide && rng.chance(1, 4) ? static_cast<uint32_t>(rng(hi)) : rng.pick(alpha); }
    P leaf() {
        unsigned k = rng(10);
        if (k < 5) return lit(ch());
        if (k == 5 && digit) return mk(Digit);
        if (k == 6 && any) return mk(Any);
        if (k == 7 && empty) return mk(Empty);
        if (k == 8 && space && rng.chance(1, 3)) return mk(Space);
        auto p = mk(Set);
        p->neg = any && rng.chance(1, 4);
        size_t n = 1 + rng(3);
        for (size_t i = 0; i < n; i++) {
            uint32_t a = ch(), b = ch();
            if (rng.chance(1, 2)) b = a;
            if (a > b) std::swap(a, b);
            p->items.push_back({a, b});
        }
        return p;
    }
    P gen(int d, bool in_rep = false) {
        if (d <= 0 || rng.chance(1, 6)) return leaf();
        unsigned k = rng(captures && (!in_rep || caps_in_reps) ? 12 : 9);
        if (k < 4) { auto l = gen(d - 1, in_rep); return bin(Cat, l, gen(d - 1, in_rep)); }
        if (k < 6) { auto l = gen(d - 1, in_rep); return bin(Or, l, gen(d - 1, in_rep)); }
        if (k < 9) {
            static std::pair<uint32_t, uint32_t> const reps[] = {{0, 0}, {1, 0}, {2, 0}, {0, 1}, {0, 2}, {0, 3}, {1, 1}, {1, 2}, {1, 3}, {2, 2}, {2, 3}, {2, 4}, {3, 3}, {1, 4}, {3, 5}};
            auto [a, b] = rng.pick(std::vector<std::pair<uint32_t, uint32_t>>(std::begin(reps), std::end(reps)));
            if (!unbounded_min && b == 0 && a > 1) a = 1;
            return rep(gen(d - 1, true), a, b);
        }
        std::string n = "c" + std::to_string(ncap++);
        return cap(gen(d - 1, in_rep), n);
    }
};
inline size_t weight(Pat const& p) {  // size of the automaton, roughly
    if (p.k == Cat || p.k == Or) return 1 + weight(*p.l) + weight(*p.r);
    if (p.k == Rep) return 1 + weight(*p.l) * std::max<uint32_t>(1, std::max(p.min, p.max));
    if (p.k == Cap) return 2 + weight(*p.l);
    return 1;
}
// ------------------------------------------------------------------ walking the library's nondeterministic automaton
using NSet = std::vector<NS const*>;
inline std::vector<NS const*> silent(NS const* s) {
    std::vector<NS const*> r;
    for (auto const* e : s->get_epsilon_transitions()) r.push_back(e);
    for (auto const& e : s->get_positive_tagged_start_transitions()) r.push_back(e.get_dest_state());
    if (s->get_positive_tagged_end_transition().has_value()) r.push_back(s->get_positive_tagged_end_transition().value().get_dest_state());
    if (s->get_negative_tagged_transition().has_value()) r.push_back(s->get_negative_tagged_transition().value().get_dest_state());
    return r;
}
inline NSet nclosure(NSet const& x) {
    std::set<NS const*> seen(x.begin(), x.end());
    NSet todo = x;
    while (!todo.empty()) {
        auto const* s = todo.back(); todo.pop_back();
        for (auto const* t : silent(s)) if (seen.insert(t).second) todo.push_back(t);
    }
    return NSet(seen.begin(), seen.end());
}
inline NSet nstep(NSet const& x, unsigned c) {
    NSet t;
    for (auto const* s : x) for (auto const* d : s->get_byte_transitions(static_cast<uint8_t>(c))) t.push_back(d);
    return nclosure(t);
}
inline std::vector<uint32_t> nids(NSet const& x) {
    std::set<uint32_t> r;
    for (auto const* s : x) if (s->is_accepting()) r.insert(s->get_matching_variable_id());
    return std::vector<uint32_t>(r.begin(), r.end());
}
inline std::string ids_str(std::vector<uint32_t> const& v) { std::string o; for (auto x : v) o += std::to_string(x) + " "; return o; }
// for every string: the ids of the rules accepting it in the library's automaton and in the reference
inline void compare_nfa(fa::RegexNFA<NS>& nfa, Ref const& ref, std::vector<uint32_t> const& ids, std::vector<uint32_t> const& bytes, size_t limit = 3000) {
    std::map<std::pair<NSet, Ref::S>, std::string> seen;
    std::vector<std::pair<NSet, Ref::S>> todo;
    auto push = [&](NSet n, Ref::S r, std::string w) {
        std::set<uint32_t> want;
        for (int i : ref.acc(r)) want.insert(ids[i]);
        if (seen.emplace(std::make_pair(n, r), w).second) {
            auto got = nids(n);
            H::check_eq(ids_str(got), ids_str({want.begin(), want.end()}), "rules accepting \"" + H::esc(w) + "\"");
            todo.push_back({n, r});
        }
    };
    push(nclosure({nfa.get_root()}), ref.first(), "");
    while (!todo.empty() && seen.size() < limit) {
        auto [n, r] = todo.back(); todo.pop_back();
        std::string w = seen[{n, r}];
        for (uint32_t c : bytes) {
            auto n2 = nstep(n, c); auto r2 = ref.step(r, c);
            if (n2.empty() && r2.empty()) continue;
            push(n2, r2, w + static_cast<char>(c));
        }
    }
}
}  // namespace R
