// Compresses and decompresses rows, and decompresses whole BSPs, with the repository's routines.
#include <common/bsputils.hh>
#include <common/bspfile.hh>
#include <common/log.hh>
#include <common/decompile.hh>
#include <cstdio>
#include <iostream>
#include <string>

static std::vector<uint8_t> unhex(const std::string &s)
{
    std::vector<uint8_t> r;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        r.push_back(std::stoi(s.substr(i, 2), nullptr, 16));
    return r;
}
static void hex(const uint8_t *p, size_t n)
{
    if (!n)
        printf("-");
    for (size_t i = 0; i < n; i++)
        printf("%02x", p[i]);
}

int main(int argc, char **argv)
{
    logging::mask = {};
    if (argc > 1) {
        bspdata_t data;
        fs::path p(argv[1]);
        LoadBSPFile(p, &data);
        ConvertBSPFormat(&data, &bspver_generic);
        const mbsp_t &bsp = std::get<mbsp_t>(data.bsp);
        auto all = DecompressAllVis(&bsp);
        for (auto &[key, row] : all) {
            printf("row %d ", key);
            hex(row.data(), row.size());
            printf("\n");
        }
        const bool q2 = bsp.loadversion->game->id == GAME_QUAKE_II;
        for (size_t i = 1; i < bsp.dleafs.size(); i++) {
            auto &l = bsp.dleafs[i];
            auto it = all.find(q2 ? l.cluster : l.visofs);
            printf("sees %d", (int)i);
            if (it != all.end())
                for (size_t j = 1; j < bsp.dleafs.size(); j++)
                    if (Pvs_LeafVisible(&bsp, it->second, &bsp.dleafs[j]))
                        printf(" %d", (int)j);
            printf("\n");
        }
        return 0;
    }
    // "c <row>" compress and decompress again; "d <length> <coded row>" decompress
    std::string cmd, a;
    while (std::cin >> cmd) {
        if (cmd == "c") {
            std::cin >> a;
            auto row = unhex(a);
            std::vector<uint8_t> out;
            CompressRow(row.data(), row.size(), std::back_inserter(out));
            std::vector<uint8_t> back(row.size() + 16, 0xa5);
            DecompressVis(out.data(), out.data() + out.size(), back.data(), back.data() + row.size());
            hex(out.data(), out.size());
            printf(" ");
            hex(back.data(), back.size());
            printf("\n");
        } else {
            size_t n;
            std::cin >> n >> a;
            auto in = unhex(a);
            std::vector<uint8_t> back(n + 16, 0xa5);
            DecompressVis(in.data(), in.data() + in.size(), back.data(), back.data() + n);
            hex(back.data(), back.size());
            printf("\n");
        }
    }
    return 0;
}
