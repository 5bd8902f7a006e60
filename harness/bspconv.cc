// Loads BSP files, converts and writes them, as told on standard input:
//   load PATH          conv FORMAT PATH (convert, then write to PATH)         write PATH (write as loaded)
#include <common/bspfile.hh>
#include <common/fs.hh>
#include <common/log.hh>
#include <cstdio>
#include <iostream>
#include <sstream>

static const bspversion_t *named(const std::string &n)
{
    for (auto *v : bspversions)
        if (n == v->short_name)
            return v;
    return nullptr;
}
int main()
{
    logging::mask = {};
    std::string line;
    bspdata_t data{};
    bool generic = false;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string what, a, b;
        in >> what >> a >> b;
        try {
            if (what == "load") {
                data = bspdata_t{};
                generic = false;
                fs::path p = a;
                LoadBSPFile(p, &data);
                printf("loaded %s\n", data.version->short_name);
            } else if (what == "write") {
                WriteBSPFile(a, &data);
                printf("ok\n");
            } else {
                if (!generic && !ConvertBSPFormat(&data, &bspver_generic))
                    throw std::runtime_error("to generic");
                generic = true;
                bool held = ConvertBSPFormat(&data, named(a));
                // as the tools do it: what could not be converted is still handed to the writer
                try {
                    WriteBSPFile(b, &data);
                    printf(held ? "ok\n" : "written\n");
                } catch (const std::exception &) {
                    printf(held ? "unwritten\n" : "refused\n");
                }
                if (held)
                    generic = false;
            }
        } catch (const std::exception &e) {
            std::string m = e.what();
            for (char &ch : m)
                if (ch == '\n')
                    ch = ' ';
            printf("threw %s\n", m.c_str());
        }
        fflush(stdout);
    }
    return 0;
}
