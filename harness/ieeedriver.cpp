// Conformance driver for the internal float predicates and the power-of-ten lookup (judged by spec/IeeeTrace.tla).
#include <lexi/detail/ieee754.hpp>
#include <lexi/detail/pow.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>

static std::string words(double d)
{
    uint64_t v; memcpy(&v, &d, 8);
    std::string b = "[";
    for (int i = 0; i < 4; i++) { if (i) b += ','; b += std::to_string((unsigned)((v >> (16 * i)) & 0xffff)); }
    return b + "]";
}

int main(int argc, char **argv)
{
    FILE *in = fopen(argv[1], "r"), *out = fopen(argv[2], "w");
    if (argc < 3 || !in || !out) return 3;
    char *line = nullptr; size_t cap = 0;
    while (getline(&line, &cap, in) > 0) {
        char *save, *op = strtok_r(line, " \n", &save);
        if (!op) continue;
        if (!strcmp(op, "S")) { fputs("S\n", out); continue; }
        char *a = strtok_r(nullptr, " \n", &save);
        using namespace lexi::detail;
        if (!strcmp(op, "cls")) {
            uint64_t u = strtoull(a, nullptr, 16); double d; memcpy(&d, &u, 8);
            fprintf(out, "{\"o\":\"cls\",\"v\":%s,\"nan\":%d,\"inf\":%d,\"pinf\":%d,\"ninf\":%d,\"fin\":%d,\"zero\":%d,\"pos\":%d}\n", words(d).c_str(),
                (int)isNan(d), (int)isInf(d), (int)isInfinity(d), (int)isNegativeInfinity(d), (int)isFinite(d), (int)isZero(d), (int)isPositive(d));
        } else if (!strcmp(op, "pow10")) {
            int n = atoi(a);
            fprintf(out, "{\"o\":\"pow10\",\"n\":%d,\"x\":%s}\n", n, words(pow10(n)).c_str());
        } else return 3;
        fflush(out);
    }
    fclose(out);
    return 0;
}
