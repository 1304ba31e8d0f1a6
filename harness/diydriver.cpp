// Conformance driver for the extended-precision arithmetic of the double formatter (judged by spec/DiyTrace.tla).
#include <lexi/detail/diyfp.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>

namespace lexi { namespace detail {
DiyFp getCachedPower(int e, int *k) __attribute__((weak));       // internal: judged where it exists under this name
} }

using lexi::detail::DiyFp;

static std::string words(uint64_t v)
{
    std::string b = "[";
    for (int i = 0; i < 4; i++) { if (i) b += ','; b += std::to_string((unsigned)((v >> (16 * i)) & 0xffff)); }
    return b + "]";
}
static std::string fp(const DiyFp &x) { return "{\"f\":" + words(x.f) + ",\"e\":" + std::to_string(x.e) + "}"; }

int main(int argc, char **argv)
{
    FILE *in = fopen(argv[1], "r"), *out = fopen(argv[2], "w");
    if (argc < 3 || !in || !out) return 3;
    char *line = nullptr; size_t cap = 0;
    while (getline(&line, &cap, in) > 0) {
        char *save, *op = strtok_r(line, " \n", &save);
        if (!op) continue;
        if (!strcmp(op, "S")) { fputs("S\n", out); continue; }
        char *q[4] = {nullptr, nullptr, nullptr, nullptr};
        for (auto &p: q) p = strtok_r(nullptr, " \n", &save);
        uint64_t u = q[0] ? strtoull(q[0], nullptr, 16) : 0, w = q[2] ? strtoull(q[2], nullptr, 16) : 0;
        int e = q[1] ? atoi(q[1]) : 0, g = q[3] ? atoi(q[3]) : 0;
        std::string r;
        if (!strcmp(op, "split") || !strcmp(op, "bounds")) {
            double d; memcpy(&d, &u, 8);
            const DiyFp x(d);
            if (!strcmp(op, "split")) r = "\"v\":" + words(u) + ",\"r\":" + fp(x);
            else {
                DiyFp m, p;
                x.normalizedBoundaries(&m, &p);
                r = "\"a\":" + fp(x) + ",\"m\":" + fp(m) + ",\"p\":" + fp(p);
            }
        } else if (!strcmp(op, "norm") || !strcmp(op, "normb")) {
            const DiyFp x(u, e);
            r = "\"a\":" + fp(x) + ",\"r\":" + fp(!strcmp(op, "norm") ? x.normalize() : x.normalizeBoundary());
        } else if (!strcmp(op, "mul") || !strcmp(op, "sub")) {
            const DiyFp x(u, e), y(w, g);
            r = "\"a\":" + fp(x) + ",\"b\":" + fp(y) + ",\"r\":" + fp(!strcmp(op, "mul") ? x * y : x - y);
        } else if (!strcmp(op, "power")) {
            int k = 0, x = atoi(q[0]);
            if (!lexi::detail::getCachedPower) { fprintf(out, "{\"o\":\"none\"}\n"); continue; }
            DiyFp c = lexi::detail::getCachedPower(x, &k);
            r = "\"x\":" + std::to_string(x) + ",\"k\":" + std::to_string(k) + ",\"r\":" + fp(c);
        } else return 3;
        fprintf(out, "{\"o\":\"%s\",%s}\n", op, r.c_str());
        fflush(out);
    }
    fclose(out);
    return 0;
}
