// Loads portal files with the repository's reader and prints what it understood.
#include <common/prtfile.hh>
#include <common/bspfile.hh>
#include <common/log.hh>
#include <cstdio>
#include <iostream>
#include <string>
#include <unistd.h>
#include <sys/wait.h>

int main(int argc, char **argv)
{
    // lines: <q1|q2> <file>; every file in its own process, so that one that goes wrong is told apart
    std::string game, name;
    while (std::cin >> game >> name) {
        fflush(stdout);
        pid_t pid = fork();
        if (!pid) {
            alarm(20);
            logging::mask = {};
            if (!freopen("/dev/null", "w", stderr))
                _exit(9);
            const bspversion_t *v = game == "q2" ? static_cast<const bspversion_t *>(&bspver_q2) : &bspver_q1;
            std::string out;
            try {
                prtfile_t p = LoadPrtFile(name, v);
                out = fmt::format("ok {} {} {}", p.portalleafs, p.portalleafs_real, p.portals.size());
                for (auto &q : p.portals) {
                    out += fmt::format(" P {} {} {}", q.winding.size(), q.leafnums[0], q.leafnums[1]);
                    for (auto &x : q.winding)
                        out += fmt::format(" {} {} {}", x[0], x[1], x[2]);
                }
                out += " M";
                for (size_t i = 1; i < p.dleafinfos.size(); i++)
                    out += fmt::format(" {}", p.dleafinfos[i].cluster);
            } catch (std::exception &e) {
                out = std::string("refused ") + e.what();
            }
            for (char &c : out)
                if (c == '\n')
                    c = ' ';
            printf("@%s\n", out.c_str());
            fflush(stdout);
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (!WIFEXITED(st))
            printf("@crashed %d\n", WTERMSIG(st));
        else if (WEXITSTATUS(st))
            printf("@exit %d\n", WEXITSTATUS(st));
    }
    return 0;
}
