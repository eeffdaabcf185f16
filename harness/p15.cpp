// P15: tokens over a buffer of exactly the given size (watched by the address sanitizer).
#include "common.hpp"
#include <log_surgeon/Token.hpp>
using log_surgeon::Token;
static void one(std::string const& buf, uint32_t s, uint32_t e, H::Rng& rng) {
    std::unique_ptr<char[]> b(new char[buf.size()]);
    memcpy(b.get(), buf.data(), buf.size());
    std::string want;
    if (s <= e) want = buf.substr(s, e - s); else want = buf.substr(s) + buf.substr(0, e);
    H::begin("buffer of " + std::to_string(buf.size()) + " characters \"" + H::esc(buf.substr(0, 60)) + "\", token from " + std::to_string(s) + " to " + std::to_string(e));
    Token t;
    t.m_start_pos = s; t.m_end_pos = e; t.m_buffer = b.get(); t.m_buffer_size = static_cast<uint32_t>(buf.size());
    for (int k = 0; k < 6; k++) {
        switch (k < 2 ? k : rng(6)) {
            case 0: H::check_eq(t.to_string(), want, "to_string"); break;
            case 1: H::check_eq(std::string(t.to_string_view()), want, "to_string_view"); break;
            case 2: H::check_eq(t.get_length(), static_cast<uint32_t>(want.size()), "get_length"); break;
            case 3: { Token c = t; H::check_eq(std::string(c.to_string_view()), want, "to_string_view of a copy"); H::check_eq(c.to_string(), want, "to_string of a copy"); break; }
            case 4: for (size_t i = 0; i < want.size() && i < 256; i++) H::check_eq(t.get_char(static_cast<uint8_t>(i)), want[i], "get_char(" + std::to_string(i) + ")"); break;
            case 5: if (!want.empty()) H::check_eq(t.get_delimiter(), want.substr(0, 1), "get_delimiter"); break;
        }
    }
    H::check_eq(t.get_length(), static_cast<uint32_t>(want.size()), "get_length");
    for (size_t i = 0; i < want.size() && i < 256; i++) H::check_eq(t.get_char(static_cast<uint8_t>(i)), want[i], "get_char(" + std::to_string(i) + ")");
    if (!want.empty()) H::check_eq(t.get_delimiter(), want.substr(0, 1), "get_delimiter");
    H::check(std::equal(buf.begin(), buf.end(), b.get()), "the buffer is changed");
}
void run(H::Rng& rng) {
    for (uint32_t n = 1; n <= 9; n++) {
        std::string b; for (uint32_t i = 0; i < n; i++) b += static_cast<char>(i == 3 ? 200 : 'a' + i);
        for (uint32_t s = 0; s <= n; s++) for (uint32_t e = 0; e <= n; e++) if (s < n || e == n) one(b, s, e, rng);
    }
    while (H::time_left()) {
        uint32_t n = 1 + static_cast<uint32_t>(rng(rng.chance(1, 2) ? 600 : 30));
        std::string b; for (uint32_t i = 0; i < n; i++) b += static_cast<char>(rng(256));
        one(b, static_cast<uint32_t>(rng(n)), static_cast<uint32_t>(rng(n + 1)), rng);
    }
}
