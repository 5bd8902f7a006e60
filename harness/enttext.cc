// Tokenises texts, parses and writes entity lists, and applies operations to a dictionary, as told on standard input.
#include <common/entdata.h>
#include <common/log.hh>
#include <common/parser.hh>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>

static std::string unhex(const std::string &s)
{
    std::string r;
    if (s != "-")
        for (size_t i = 0; i + 1 < s.size(); i += 2)
            r.push_back((char)std::stoi(s.substr(i, 2), nullptr, 16));
    return r;
}
static std::string hex(const std::string &s)
{
    static const char *d = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s) {
        r += d[c >> 4];
        r += d[c & 15];
    }
    return r.empty() ? "-" : r;
}
// a block of exactly this size, so that a sanitizer sees any look beyond it
struct exact
{
    std::unique_ptr<char[]> p;
    size_t n;
    exact(const std::string &s) : p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), n); }
};
static void dump(const std::vector<entdict_t> &ents)
{
    printf("%d", (int)ents.size());
    for (auto &e : ents) {
        printf(" (");
        for (auto &kv : e)
            printf(" %s %s", hex(kv.first).c_str(), hex(kv.second).c_str());
        printf(" )");
    }
}

int main()
{
    logging::mask = {};
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string what, a, b;
        in >> what;
        if (what == "t") {
            std::string text, op;
            in >> text;
            exact x(unhex(text));
            parser_t p(x.p.get(), x.n, {});
            try {
                while (in >> op) {
                    if (op == "u")
                        p.push_state(), printf("u ");
                    else if (op == "o")
                        p.pop_state(), printf("o ");
                    else if (op == "e")
                        printf("e%d ", p.at_end() ? 1 : 0);
                    else {
                        bool r = p.parse_token(std::stoi(op));
                        printf("%d:%s:%d:%d ", r ? 1 : 0, hex(p.token).c_str(), p.was_quoted ? 1 : 0, (int)p.location.line_number.value_or(0));
                    }
                }
            } catch (const std::exception &) {
                printf("x");
            }
            printf("\n");
        } else if (what == "e") {
            in >> a;
            exact x(unhex(a));
            try {
                parser_t p(x.p.get(), x.n, {});
                auto ents = EntData_Parse(p);
                std::string w = EntData_Write(ents);
                dump(ents);
                printf(" | %s | ", hex(w).c_str());
                try {
                    exact y(w);
                    parser_t q(y.p.get(), y.n, {});
                    dump(EntData_Parse(q));
                } catch (const std::exception &) {
                    printf("x");
                }
                printf("\n");
            } catch (const std::exception &) {
                printf("x\n");
            }
        } else if (what == "d") {
            entdict_t d;
            std::string op;
            while (in >> op) {
                if (op == "s") {
                    in >> a >> b;
                    d.set(unhex(a), unhex(b));
                } else if (op == "n") {
                    in >> a >> b;
                    d.rename(unhex(a), unhex(b));
                } else {
                    in >> a;
                    std::string k = unhex(a);
                    if (op == "r")
                        d.remove(k);
                    else if (op == "g")
                        printf("%s ", hex(d.get(k)).c_str());
                    else if (op == "h")
                        printf("%d ", d.has(k) ? 1 : 0);
                    else if (op == "i")
                        printf("%d ", d.get_int(k));
                    else if (op == "f")
                        printf("%lld ", (long long)std::llround(d.get_float(k) * 8));
                    else if (op == "v") {
                        qvec3f v;
                        int n = d.get_vector(k, v);
                        printf("%d,%lld,%lld,%lld ", n < 0 ? 0 : n, (long long)std::llround(v[0] * 8), (long long)std::llround(v[1] * 8), (long long)std::llround(v[2] * 8));
                    }
                }
            }
            printf("| ");
            dump({d});
            printf("\n");
        }
        fflush(stdout);
    }
}
