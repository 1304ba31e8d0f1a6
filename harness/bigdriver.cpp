// Conformance driver for the internal big integer: executes register operations and logs, after each,
// the register it changed (all words) and what the call returned. It judges nothing: spec/BigTrace.tla does.
#include <lexi/detail/bigint.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <stdexcept>
#include <string>

using lexi::detail::BigInteger;
static FILE *out;
static std::unique_ptr<BigInteger> reg[8];

static std::string words(uint64_t v, int n)
{
    std::string b = "[";
    for (int i = 0; i < n; i++) { if (i) b += ','; b += std::to_string((unsigned)((v >> (16 * i)) & 0xffff)); }
    return b + "]";
}

static std::string dump(const BigInteger &x)
{
    std::string b = "[";
    size_t n = x.count();
    for (size_t i = 0; i < n; i++) {
        uint64_t v = x.digit(i);
        for (int k = 0; k < 4; k++) { if (i || k) b += ','; b += std::to_string((unsigned)((v >> (16 * k)) & 0xffff)); }
    }
    return b + "]";
}

int main(int argc, char **argv)
{
    FILE *in = fopen(argv[1], "r");
    out = fopen(argv[2], "w");
    if (argc < 3 || !in || !out) return 3;
    char *line = nullptr; size_t cap = 0;
    while (getline(&line, &cap, in) > 0) {
        char *save, *op = strtok_r(line, " \n", &save);
        if (!op) continue;
        if (!strcmp(op, "S")) { for (auto &r: reg) r.reset(new BigInteger(uint64_t(0))); fputs("S\n", out); continue; }
        char *a = strtok_r(nullptr, " \n", &save), *b = strtok_r(nullptr, " \n", &save), *c = strtok_r(nullptr, " \n", &save);
        int d = atoi(a);
        std::string ev = std::string("{\"o\":\"") + op + "\",\"d\":" + a;
        std::string res = "0", kind = "ret";
        uint64_t w = b ? strtoull(b, nullptr, 16) : 0;
        unsigned long n = b ? strtoul(b, nullptr, 10) : 0;
        int s = b ? atoi(b) & 7 : 0, r = c ? atoi(c) & 7 : 0;
        try {
            if (!strcmp(op, "dec")) {
                std::string t;
                if (b[0] != '-') for (const char *p = b; p[0] && p[1]; p += 2) { char h[3] = {p[0], p[1], 0}; t.push_back((char)strtol(h, nullptr, 16)); }
                ev += ",\"s\":[";
                for (size_t i = 0; i < t.size(); i++) { if (i) ev += ','; ev += std::to_string((int)(unsigned char)t[i]); }
                ev += "]";
                std::unique_ptr<char[]> exact(new char[t.size()]);          // no terminator: reading past the end shows
                memcpy(exact.get(), t.data(), t.size());
                reg[d].reset(new BigInteger(exact.get(), t.size()));
            }
            else if (!strcmp(op, "word")) { ev += ",\"k\":" + words(w, 4); reg[d].reset(new BigInteger(w)); }
            else if (!strcmp(op, "setw")) { ev += ",\"k\":" + words(w, 4); *reg[d] = w; }
            else if (!strcmp(op, "copy")) { ev += ",\"s\":" + std::to_string(s); reg[d].reset(new BigInteger(*reg[s])); }
            else if (!strcmp(op, "assign")) { ev += ",\"s\":" + std::to_string(s); *reg[d] = *reg[s]; }
            else if (!strcmp(op, "self")) { BigInteger &x = *reg[d]; *reg[d] = x; }
            else if (!strcmp(op, "add")) { ev += ",\"k\":" + words(w, 4); *reg[d] += w; }
            else if (!strcmp(op, "mul")) { ev += ",\"k\":" + words(w, 4); *reg[d] *= w; }
            else if (!strcmp(op, "mul32")) { ev += ",\"k\":" + words(w & 0xffffffff, 4); *reg[d] *= (uint32_t)w; }
            else if (!strcmp(op, "pow5")) { ev += ",\"k\":" + std::to_string(n); reg[d]->mulPow5((unsigned)n); }
            else if (!strcmp(op, "shl")) { ev += ",\"k\":" + std::to_string(n); *reg[d] <<= n; }
            else if (!strcmp(op, "diff")) { ev += ",\"s\":" + std::to_string(s) + ",\"r\":" + std::to_string(r); res = std::to_string((int)reg[s]->difference(*reg[r], reg[d].get())); }
            else if (!strcmp(op, "cmp")) { ev += ",\"s\":" + std::to_string(s); int x = reg[d]->compare(*reg[s]); res = std::to_string(x < 0 ? -1 : x > 0); }
            else if (!strcmp(op, "eq")) { ev += ",\"s\":" + std::to_string(s); res = std::to_string((int)(*reg[d] == *reg[s])); }
            else if (!strcmp(op, "eqw")) { ev += ",\"k\":" + words(w, 4); res = std::to_string((int)(*reg[d] == w)); }
            else if (!strcmp(op, "digit")) { ev += ",\"k\":" + std::to_string(n); res = words(reg[d]->digit(n), 4); }
            else if (!strcmp(op, "show")) {}
            else return 3;
        } catch (const std::runtime_error &) { kind = "throw"; }
        catch (...) { kind = "other"; }
        bool changes = strcmp(op, "cmp") && strcmp(op, "eq") && strcmp(op, "eqw") && strcmp(op, "digit") && strcmp(op, "show");
        if (kind == "throw" && changes) reg[d].reset(new BigInteger(uint64_t(0)));    // contents are unspecified after an error
        ev += ",\"kind\":\"" + kind + "\",\"res\":" + res + ",\"z\":" + std::to_string((int)reg[d]->isZero()) + ",\"after\":" + dump(*reg[d]) + "}";
        fputs(ev.c_str(), out); fputc('\n', out); fflush(out);
    }
    fclose(out);
    return 0;
}
