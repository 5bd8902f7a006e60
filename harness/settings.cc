// Applies histories of operations to two containers of settings, as told on standard input.
#include <common/settings.hh>
#include <common/log.hh>
#include <cmath>
#include <cstdio>
#include <iostream>
#include <memory>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
using namespace settings;

static std::string unhex(const std::string &s)
{
    std::string r;
    if (s != "-")
        for (size_t i = 0; i + 1 < s.size(); i += 2)
            r.push_back((char)std::stoi(s.substr(i, 2), nullptr, 16));
    return r;
}
static std::string hex(const std::string &s)
{
    static const char *d = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s) {
        r += d[c >> 4];
        r += d[c & 15];
    }
    return r.empty() ? "-" : r;
}
enum class kind_t : int { };
struct item
{
    std::string k;
    std::unique_ptr<setting_base, void (*)(setting_base *)> p{nullptr, nullptr};
    int calls = 0, last = 0;
};
struct box
{
    setting_container c;
    std::vector<std::unique_ptr<item>> items;
    setting_group g1{"One", 1, expected_source::commandline}, g2{"Two", 2, expected_source::worldspawn};
};
template<typename T, typename... A>
static void own(item &it, A &&...a)
{
    it.p = {new T(std::forward<A>(a)...), [](setting_base *b) { delete static_cast<T *>(b); }};
}
using vint = setting_validator<setting_int32>;

static void make(box &b, std::istream &in)
{
    auto it = std::make_unique<item>();
    std::string names, n;
    int group;
    in >> it->k >> names >> group;
    std::vector<std::string> ns;
    for (std::istringstream s(names); std::getline(s, n, ',');)
        ns.push_back(unhex(n));
    nameset nm(ns[0]);
    for (size_t i = 1; i < ns.size(); i++)
        nm.push_back(ns[i]);
    auto *g = group == 0 ? nullptr : group == 1 ? &b.g1 : &b.g2;
    auto *c = &b.c;
    auto &k = it->k;
    auto f = [&] { double d; in >> d; return (float)(d / 8); };
    auto num = [&] { long long d; in >> d; return (int32_t)d; };
    if (k == "bool")
        own<setting_bool>(*it, c, nm, num() != 0, g, "d");
    else if (k == "ibool")
        own<setting_invertible_bool>(*it, c, nm, num() != 0, g, "d");
    else if (k == "int" || k == "float" || k == "vint") {
        int om;
        in >> om;
        if (k == "float") {
            float v = f(), a = f(), z = f(), o = f();
            if (om)
                own<setting_scalar>(*it, c, nm, v, a, z, can_omit_argument_tag(), o, g, "d");
            else
                own<setting_scalar>(*it, c, nm, v, a, z, g, "d");
        } else {
            int v = num(), a = num(), z = num(), o = num();
            if (k == "vint")
                own<vint>(*it, std::function<bool(setting_int32 &)>([](setting_int32 &s) { return s.value() == 0 || s.value() >= 3; }), c, nm, v, a, z, g, "d");
            else if (om)
                own<setting_int32>(*it, c, nm, v, a, z, can_omit_argument_tag(), o, g, "d");
            else if (a == INT32_MIN && z == INT32_MAX)
                own<setting_int32>(*it, c, nm, v, g, "d");
            else
                own<setting_int32>(*it, c, nm, v, a, z, g, "d");
        }
    } else if (k == "enum") {
        int v = num();
        own<setting_enum<kind_t>>(*it, c, nm, (kind_t)v, std::initializer_list<std::pair<const char *, kind_t>>{{"loose", (kind_t)0}, {"Archive", (kind_t)1}, {"inverse2", (kind_t)5}, {"none", (kind_t)-1}}, g, "d");
    } else if (k == "string") {
        std::string s;
        in >> s;
        own<setting_string>(*it, c, nm, unhex(s), "\"str\"", g, "d");
    } else if (k == "path") {
        std::string s;
        in >> s;
        own<setting_path>(*it, c, nm, fs::path(unhex(s)), g, "d");
    } else if (k == "set")
        own<setting_set>(*it, c, nm, "\"str\"", g, "d");
    else if (k == "vec3" || k == "mangle" || k == "color") {
        float x = f(), y = f(), z = f();
        if (k == "vec3")
            own<setting_vec3>(*it, c, nm, x, y, z, g, "d");
        else if (k == "mangle")
            own<setting_mangle>(*it, c, nm, x, y, z, g, "d");
        else
            own<setting_color>(*it, c, nm, x, y, z, g, "d");
    } else if (k == "func") {
        auto *raw = it.get();
        own<setting_func>(*it, c, nm, [raw](source s) { raw->calls++; raw->last = (int)s; }, g, "d");
    } else if (k == "redirect") {
        int a, z;
        in >> a >> z;
        if (z)
            own<setting_redirect>(*it, c, nm, std::initializer_list<setting_base *>{b.items[a - 1]->p.get(), b.items[z - 1]->p.get()}, g, "d");
        else
            own<setting_redirect>(*it, c, nm, std::initializer_list<setting_base *>{b.items[a - 1]->p.get()}, g, "d");
    }
    b.items.push_back(std::move(it));
}
static long long e8(float v)
{
    return std::isinf(v) ? (v > 0 ? 1000000000 : -1000000000) : std::llround((double)v * 8);
}
static void dump(box &b)
{
    for (auto &it : b.items) {
        auto *p = it->p.get();
        auto &k = it->k;
        std::string w = "-";
        printf(" %d:%d:", (int)p->get_source(), p->is_changed() ? 1 : 0);
        if (k == "bool" || k == "ibool")
            printf("%d", static_cast<setting_bool *>(p)->value() ? 1 : 0), w = p->string_value();
        else if (k == "int")
            printf("%d", static_cast<setting_int32 *>(p)->value()), w = p->string_value();
        else if (k == "vint")
            printf("%d", static_cast<vint *>(p)->value()), w = p->string_value();
        else if (k == "float")
            printf("%lld", e8(static_cast<setting_scalar *>(p)->value()));
        else if (k == "enum") {
            int v = (int)static_cast<setting_enum<kind_t> *>(p)->value();
            printf("%d", v);
            if (v == 0 || v == 1 || v == 5 || v == -1)
                w = p->string_value();
        } else if (k == "string")
            printf("%s", hex(static_cast<setting_string *>(p)->value()).c_str()), w = p->string_value();
        else if (k == "path")
            printf("%s", hex(static_cast<setting_path *>(p)->value().string()).c_str()), w = p->string_value();
        else if (k == "set") {
            printf("=");
            for (auto &s : static_cast<setting_set *>(p)->values())
                printf("%s,", hex(s).c_str());
        } else if (k == "vec3" || k == "mangle" || k == "color") {
            auto &v = static_cast<setting_vec3 *>(p)->value();
            printf("%lld,%lld,%lld", e8(v[0]), e8(v[1]), e8(v[2]));
        } else if (k == "func")
            printf("%d,%d", it->calls, it->last);
        else
            printf("x");
        printf(":%s", hex(w).c_str());
    }
}
static void direct(item &it, std::istream &in, source src)
{
    auto *p = it.p.get();
    auto &k = it.k;
    auto f = [&] { double d; in >> d; return (float)(d / 8); };
    auto num = [&] { long long d; in >> d; return (int32_t)d; };
    std::string s;
    if (k == "bool" || k == "ibool")
        static_cast<setting_bool *>(p)->set_value(num() != 0, src);
    else if (k == "int")
        static_cast<setting_int32 *>(p)->set_value(num(), src);
    else if (k == "vint")
        static_cast<vint *>(p)->set_value(num(), src);
    else if (k == "float")
        static_cast<setting_scalar *>(p)->set_value(f(), src);
    else if (k == "enum")
        static_cast<setting_enum<kind_t> *>(p)->set_value((kind_t)num(), src);
    else if (k == "string")
        in >> s, static_cast<setting_string *>(p)->set_value(unhex(s), src);
    else if (k == "path")
        in >> s, static_cast<setting_path *>(p)->set_value(fs::path(unhex(s)), src);
    else if (k == "set")
        in >> s, static_cast<setting_set *>(p)->add_value(unhex(s), src);
    else {
        float x = f(), y = f(), z = f();
        qvec3f v{x, y, z};
        if (k == "mangle")
            static_cast<setting_mangle *>(p)->set_value(v, src);
        else if (k == "color")
            static_cast<setting_color *>(p)->set_value(v, src);
        else
            static_cast<setting_vec3 *>(p)->set_value(v, src);
    }
}
// what is printed while fn runs
template<typename F>
static std::string captured(F fn)
{
    fflush(stdout);
    char name[] = "/tmp/settingsXXXXXX";
    int fd = mkstemp(name), old = dup(1);
    unlink(name);
    dup2(fd, 1);
    fn();
    fflush(stdout);
    dup2(old, 1);
    close(old);
    std::string r;
    lseek(fd, 0, SEEK_SET);
    char buf[4096];
    for (ssize_t n; (n = read(fd, buf, sizeof buf)) > 0;)
        r.append(buf, n);
    close(fd);
    return r;
}

int main()
{
    logging::mask = {};
    std::unique_ptr<box> b[2];
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string what, s;
        int which;
        in >> what;
        if (what == "new") {
            b[1].reset();
            b[0].reset();
            b[0] = std::make_unique<box>();
            b[1] = std::make_unique<box>();
            continue;
        }
        in >> which;
        box &x = *b[which];
        if (what == "def") {
            make(x, in);
            continue;
        }
        int n, src;
        printf("%s", what.c_str());
        if (what == "set") {
            in >> n >> src;
            direct(*x.items[n - 1], in, (source)src);
        } else if (what == "name") {
            std::string name, text;
            in >> name >> text >> src;
            int r;
            try {
                r = (int)x.c.set_setting(unhex(name), unhex(text), (source)src);
            } catch (const parse_exception &) {
                r = 3;
            }
            printf(" %d", r);
        } else if (what == "dict") {
            entdict_t d;
            std::string k, v;
            in >> src;
            while (in >> k >> v)
                d.set(unhex(k), unhex(v));
            x.c.set_settings(d, (source)src);
        } else if (what == "cmd") {
            std::vector<std::string> args;
            while (in >> s)
                args.push_back(unhex(s));
            std::vector<const char *> av;
            for (auto &a : args)
                av.push_back(a.c_str());
            std::string res;
            captured([&] {
                token_parser_t p((int)av.size(), av.data(), {"command line"});
                try {
                    for (auto &r : x.c.parse(p))
                        res += (res.empty() ? "" : ",") + hex(r);
                    res = "=" + res;
                } catch (const parse_exception &) {
                    res = "refused";
                } catch (const quit_after_help_exception &) {
                    res = "help";
                }
            });
            printf(" %s", res.c_str());
        } else if (what == "reset") {
            in >> n;
            x.items[n - 1]->p->reset();
        } else if (what == "resetall")
            x.c.reset();
        else if (what == "copy")
            x.c.copy_from(b[1 - which]->c);
        else if (what == "help")
            printf(" %s", hex(captured([&] {
                try {
                    x.c.print_help();
                } catch (const quit_after_help_exception &) {
                }
            })).c_str());
        dump(x);
        printf("\n");
        fflush(stdout);
    }
    b[1].reset();
    b[0].reset();
}
