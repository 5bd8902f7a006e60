// Adds places to the search path and looks names up, as told on standard input.
#include <common/fs.hh>
#include <common/log.hh>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <unistd.h>

static std::string unhex(const std::string &s)
{
    std::string r;
    if (s != "-")
        for (size_t i = 0; i + 1 < s.size(); i += 2)
            r.push_back((char)std::stoi(s.substr(i, 2), nullptr, 16));
    return r;
}
template<typename T>
static std::string hex(const T &s)
{
    static const char *d = "0123456789abcdef";
    std::string r;
    for (auto ch : s) {
        unsigned char c = ch;
        r += d[c >> 4];
        r += d[c & 15];
    }
    return r.empty() ? "-" : r;
}
int main()
{
    logging::mask = {};
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string what, p;
        int flag;
        in >> what >> flag >> p;
        p = unhex(p);
        try {
            if (what == "cd") {
                fs::clear();
                if (chdir(p.c_str()))
                    return 3;
                printf("cd");
            } else if (what == "clear") {
                fs::clear();
                printf("cleared");
            } else if (what == "a") {
                auto a = fs::addArchive(p, flag);
                if (a)
                    printf("%s %d", hex(a->pathname.string()).c_str(), a->external ? 1 : 0);
                else
                    printf("none");
            } else if (what == "w") {
                auto r = fs::where(p, flag);
                if (r)
                    printf("%s %s", hex(r.archive->pathname.string()).c_str(), hex(r.filename.generic_string()).c_str());
                else
                    printf("none");
            } else if (what == "l") {
                auto d = fs::load(fs::path(p), flag != 0);
                printf("%s", d ? ("=" + hex(*d)).c_str() : "none");
            } else if (what == "s") {
                auto r = fs::splitArchivePath(p);
                if (r)
                    printf("%s %s", hex(r.archive.string()).c_str(), hex(r.filename.generic_string()).c_str());
                else
                    printf("none");
            } else if (what == "r")
                printf("%s", hex(fs::resolveArchivePath(p).string()).c_str());
        } catch (const std::exception &e) {
            printf("x %s", e.what());
        }
        printf("\n");
        fflush(stdout);
    }
}
