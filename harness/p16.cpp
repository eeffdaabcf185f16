// P16: the growing buffer and the buffer of tokens against a plain vector.
#include "common.hpp"
#include <log_surgeon/Buffer.hpp>
#include <log_surgeon/LogParserOutputBuffer.hpp>
#include <log_surgeon/ParserInputBuffer.hpp>
using namespace log_surgeon;
template <class T> T val(uint64_t x);
template <> char val<char>(uint64_t x) { return static_cast<char>(x); }
template <> uint64_t val<uint64_t>(uint64_t x) { return x; }
template <class T> static void plain(H::Rng& rng) {
    auto b = std::make_unique<Buffer<T>>();
    std::string log;
    uint32_t size = cStaticByteBuffSize, pos = 0;
    std::map<uint32_t, T> m;
    bool ext = false;
    std::vector<T> own(2000);
    struct Old { T const* p; std::map<uint32_t, T> m; };
    std::vector<Old> olds;
    size_t n = 10 + rng(60);
    for (size_t i = 0; i < n; i++) {
        unsigned op = static_cast<unsigned>(rng(12));
        auto idx = [&] { return static_cast<uint32_t>(rng.chance(1, 4) ? size - 1 : rng(size)); };
        T v = val<T>(rng.next());
        if (op < 3) { auto k = idx(); log += "set_value(" + std::to_string(k) + "); "; H::begin(log); b->set_value(k, v); m[k] = v; }
        else if (op == 3 && pos < size) { log += "set_curr_value; "; H::begin(log); b->set_curr_value(v); m[pos] = v; }
        else if (op == 4) { auto k = idx(); log += "get_mutable_value(" + std::to_string(k) + "); "; H::begin(log); b->get_mutable_value(k) = v; m[k] = v; }
        else if (op == 5 && pos < size) { log += "increment_pos; "; H::begin(log); b->increment_pos(); pos++; }
        else if (op == 6) { pos = idx(); log += "set_pos(" + std::to_string(pos) + "); "; H::begin(log); b->set_pos(pos); }
        else if (op == 7 && size < 2000000 && !ext) {
            log += "double and copy; "; H::begin(log);
            T const* old = b->get_active_buffer();
            b->double_size();
            b->copy(old, old + size, 0);
            olds.push_back({old, m});
            size *= 2;
        } else if (op == 8 && rng.chance(1, 3)) { log += "reset; "; H::begin(log); b->reset(); size = cStaticByteBuffSize; pos = 0; m.clear(); olds.clear(); ext = false; }
        else if (op == 9 && rng.chance(1, 4)) { size = 1 + static_cast<uint32_t>(rng(2000)); pos = idx(); log += "set_active_buffer(" + std::to_string(size) + "); "; H::begin(log); b->set_active_buffer(own.data(), size, pos); m.clear(); olds.clear(); ext = true; }
        else if (op == 10) {
            auto at = idx(); auto k = static_cast<uint32_t>(rng(std::min<uint32_t>(size - at, 50) + 1));
            if constexpr (std::is_same_v<T, char>) {
                log += "read " + std::to_string(k) + " at " + std::to_string(at) + "; "; H::begin(log);
                std::string src; for (uint32_t q = 0; q < k; q++) src += static_cast<char>(rng(256));
                Reader rd{[&](char* d, size_t c, size_t& got) -> ErrorCode { H::check_eq(c, size_t(k), "number of bytes asked for"); memcpy(d, src.data(), k); got = k; return ErrorCode::Success; }};
                size_t got = 7;
                H::check(b->read(rd, at, k, got) == ErrorCode::Success && got == k, "read");
                for (uint32_t q = 0; q < k; q++) m[at + q] = src[q];
            }
        }
        H::check_eq(b->size(), size, "size"); H::check_eq(b->pos(), pos, "pos");
        H::check_eq(b->static_size(), cStaticByteBuffSize, "static_size");
        for (auto const& [k, x] : m) { H::check(b->get_value(k) == x, "value at " + std::to_string(k)); H::check(b->get_active_buffer()[k] == x, "active buffer at " + std::to_string(k)); }
        if (m.count(pos)) H::check(b->get_curr_value() == m[pos], "current value");
        for (auto const& o : olds) for (auto const& [k, x] : o.m) H::check(o.p[k] == x, "a value behind an old pointer changed (index " + std::to_string(k) + ")");
    }
}
static void tokens(H::Rng& rng) {
    LogParserOutputBuffer* raw = new LogParserOutputBuffer;
    std::unique_ptr<LogParserOutputBuffer> b(raw);
    uint32_t pos = 0, size = cStaticByteBuffSize;
    std::map<uint32_t, uint32_t> m;
    std::vector<std::pair<Token*, uint32_t>> olds;
    bool ts = false, dl = false;
    std::string log;
    auto tok = [&](uint32_t v) { Token t; t.m_start_pos = v; t.m_end_pos = v + 1; t.m_line = 3; t.m_wrap_around_string = std::to_string(v); return t; };
    size_t n = 3 + rng(10);
    for (size_t i = 0; i < n; i++) {
        unsigned op = static_cast<unsigned>(rng(8));
        if (op < 3) {
            size_t k = rng.chance(1, 2) ? rng(50) : rng(70000);
            log += "append " + std::to_string(k) + " tokens; "; H::begin(log);
            for (size_t q = 0; q < k; q++) {
                auto v = static_cast<uint32_t>(rng(1000000)); auto t = tok(v); b->set_curr_token(t); m[pos] = v;
                if (q % 5000 == 0) olds.push_back({&b->get_mutable_token(pos), v});
                b->advance_to_next_token(); pos++; if (pos == size) size *= 2;
                if (b->pos() != pos || b->size() != size) H::fail("position " + std::to_string(b->pos()) + " of " + std::to_string(b->size()) + " instead of " + std::to_string(pos) + " of " + std::to_string(size));
            }
        } else if (op == 3) { uint32_t k = static_cast<uint32_t>(rng(size)); log += "set_token(" + std::to_string(k) + "); "; H::begin(log); auto t = tok(5); b->set_token(k, t); m[k] = 5; olds.clear(); }
        else if (op == 4 && pos < size) { pos = static_cast<uint32_t>(rng(size)); log += "set_pos(" + std::to_string(pos) + "); "; H::begin(log); b->set_pos(pos); olds.clear(); }
        else if (op == 5) { ts = rng.chance(1, 2); dl = rng.chance(1, 2); log += "flags; "; b->set_has_timestamp(ts); b->set_has_delimiters(dl); }
        else if (op == 6 && rng.chance(1, 3)) { log += "reset; "; H::begin(log); b->reset(); pos = 0; size = cStaticByteBuffSize; m.clear(); olds.clear(); ts = dl = false; }
        H::check_eq(b->pos(), pos, "pos"); H::check_eq(b->size(), size, "size");
        H::check_eq(b->has_timestamp(), ts, "has_timestamp"); H::check_eq(b->has_delimiters(), dl, "has_delimiters");
        for (auto const& [k, v] : m) { auto const& t = b->get_token(k); if (t.m_start_pos != v || t.m_end_pos != v + 1 || t.m_line != 3 || t.m_wrap_around_string != std::to_string(v)) H::fail("token " + std::to_string(k) + " is lost"); }
        for (auto const& [p, v] : olds) H::check(p->m_start_pos == v, "a token behind an old pointer changed");
    }
}
void run(H::Rng& rng) {
    for (uint64_t it = 0; H::time_left(); it++) {
        switch (it % 3) { case 0: plain<char>(rng); break; case 1: plain<uint64_t>(rng); break; default: tokens(rng); }
    }
}
