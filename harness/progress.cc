// Drives the real progress, logging and parallel-loop code. One command per line on stdin, one JSON answer per
// line in the file argv[1]; stdout belongs to the code under test.
#include <common/log.hh>
#include <common/parallel.hh>
#include <common/settings.hh>
#include <common/threads.hh>
#include <tbb/task_arena.h>
#include <tbb/global_control.h>
#include <chrono>
#include <condition_variable>
#include <fstream>
#include <iostream>
#include <list>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <thread>
#include <unistd.h>

static std::mutex m;
static std::condition_variable cv;
static std::vector<std::string> events;
static thread_local int me = -1;
static thread_local bool hold = false;
static std::map<int, int> state; // worker: 0 idle, 1 running, 2 held
static std::map<int, bool> releaseflag;
static int seq = 0;
static bool plainrecord = false;

static void on_percent(std::optional<uint32_t> pct, std::optional<duration> elapsed)
{
    std::unique_lock l(m);
    std::string kind = elapsed ? "done" : pct ? "pct" : "spin";
    events.push_back("[\"" + kind + "\"," + (pct ? std::to_string(*pct) : "-1") + "," + std::to_string(plainrecord ? seq++ : me) + "]");
    if (!plainrecord && hold) {
        state[me] = 2;
        cv.notify_all();
        cv.wait(l, [] { return releaseflag[me]; });
        releaseflag[me] = false;
        state[me] = 1;
        events.push_back("[\"out\",-1," + std::to_string(me) + "]");
    }
}
static std::string take_events()
{
    std::string o = "[";
    for (auto &e : events)
        o += (o.size() > 1 ? "," : "") + e;
    events.clear();
    return o + "]";
}

struct worker
{
    std::thread th;
    std::function<void()> job;
    bool quit = false;
};
static std::map<int, worker> workers;

static void run_on(int t, std::function<void()> f)
{
    auto &w = workers[t];
    std::unique_lock l(m);
    if (!w.th.joinable()) {
        w.th = std::thread([t, &w] {
            me = t;
            std::unique_lock l(m);
            while (true) {
                cv.wait(l, [&] { return w.job || w.quit; });
                if (w.quit)
                    return;
                auto j = std::move(w.job);
                w.job = nullptr;
                l.unlock();
                j();
                l.lock();
                state[t] = 0;
                cv.notify_all();
            }
        });
    }
    state[t] = 1;
    w.job = f;
    cv.notify_all();
}

static void history(std::istringstream &in, std::ostream &out)
{
    using namespace std::chrono_literals;
    logging::set_percent_callback(on_percent);
    plainrecord = false;
    logging::mask = bitflags<logging::flag>(logging::flag::ALL);
    logging::percent(1, 1, false); // ends whatever timer is running
    std::string op, o = "[";
    while (in >> op) {
        std::string res;
        if (op == "call") {
            int t, h, el;
            long long c, mx;
            bool wait;
            in >> t >> c >> mx >> el >> h >> wait;
            uint64_t uc = c < 0 ? logging::indeterminate : c, um = mx < 0 ? logging::indeterminate : mx;
            run_on(t, [=] {
                hold = h;
                logging::percent(uc, um, el);
                hold = false;
            });
            std::unique_lock l(m);
            bool ok = cv.wait_for(l, wait ? 12ms : 4000ms, [&] { return state[t] != 1; });
            res = !ok ? (wait ? "waiting" : "stuck") : state[t] == 2 ? "held" : "returned";
        } else if (op == "release") {
            int t, u;
            in >> t >> u; // u: the caller that has been waiting for this, or -1
            std::unique_lock l(m);
            releaseflag[t] = true;
            cv.notify_all();
            bool ok = cv.wait_for(l, 4000ms, [&] { return state[t] == 0 && (u < 0 || state[u] != 1); });
            res = !ok ? "stuck" : u >= 0 && state[u] == 2 ? "held" : "returned";
        } else if (op == "mask") {
            int el;
            in >> el;
            logging::mask = bitflags<logging::flag>(logging::flag::ALL);
            if (!el)
                logging::mask = logging::mask & ~bitflags<logging::flag>(logging::flag::CLOCK_ELAPSED);
            res = "returned";
        }
        std::unique_lock l(m);
        o += (o.size() > 1 ? "," : "") + std::string("{\"res\":\"") + res + "\",\"events\":" + take_events() + "}";
        if (res == "stuck") {
            out.flush();
            _exit(3);
        }
    }
    out << o << "]" << std::endl;
    logging::set_percent_callback(nullptr);
}

struct thrown
{
    int index;
};

static void loops(std::istringstream &in, std::ostream &out)
{
    std::string kind;
    int threads, start, n, nthrow, delay;
    logging::set_percent_callback(on_percent);
    plainrecord = true;
    std::string o = "[";
    while (in >> kind >> threads >> start >> n >> delay >> nthrow) {
        std::set<int> throwers;
        for (int i = 0; i < nthrow; i++) {
            int x;
            in >> x;
            throwers.insert(x);
        }
        seq = 0;
        std::vector<std::pair<int, int>> visits; // index, seq at the end of the body
        auto body = [&](int i) {
            unsigned h = (i * 2654435761u) >> 16;
            if (delay && h % delay == 0)
                std::this_thread::sleep_for(std::chrono::microseconds(h % 700));
            if (throwers.count(i)) {
                std::unique_lock l(m);
                visits.emplace_back(i, seq++);
                throw thrown{i};
            }
            std::unique_lock l(m);
            visits.emplace_back(i, seq++);
        };
        int caught = -1000000, others = 0;
        tbb::task_arena arena(threads);
        arena.execute([&] {
            try {
                if (kind == "for")
                    logging::parallel_for(start, start + n, [&](const auto &i) { body(i); });
                else if (kind == "sizet")
                    logging::parallel_for(static_cast<size_t>(start), static_cast<size_t>(start + n), [&](const size_t &i) { body(static_cast<int>(i)); });
                else if (kind == "each") {
                    std::vector<int> v;
                    for (int i = 0; i < n; i++)
                        v.push_back(start + i);
                    logging::parallel_for_each(v, [&](int &i) {
                        body(i);
                        i = -999999;
                    });
                    for (int i : v)
                        others += i != -999999;
                } else if (kind == "list") {
                    std::list<int> v;
                    for (int i = 0; i < n; i++)
                        v.push_back(start + i);
                    logging::parallel_for_each(v, [&](int &i) { body(i); });
                } else {
                    std::vector<int> v;
                    for (int i = 0; i < n; i++)
                        v.push_back(start + i);
                    const auto &cv = v;
                    logging::parallel_for_each(cv, [&](const int &i) { body(i); });
                }
            } catch (const thrown &t) {
                caught = t.index;
            }
        });
        std::unique_lock l(m);
        o += (o.size() > 1 ? "," : "") + std::string("{\"caught\":") + std::to_string(caught) + ",\"others\":" + std::to_string(others) + ",\"events\":" + take_events() + ",\"visits\":[";
        bool first = true;
        for (auto &[i, s] : visits) {
            o += (first ? "[" : ",[") + std::to_string(i) + "," + std::to_string(s) + "]";
            first = false;
        }
        o += "]}";
    }
    out << o << "]" << std::endl;
    logging::set_percent_callback(nullptr);
    plainrecord = false;
}

// prints from many threads at once; the caller reads stdout and the log file
static void prints(std::istringstream &in, std::ostream &out)
{
    int threads, lines, color, maskbits, useclock;
    in >> threads >> lines >> color >> maskbits >> useclock;
    logging::enable_color_codes = color;
    logging::mask = bitflags<logging::flag>(static_cast<logging::flag>(maskbits));
    static const logging::flag flags[] = {logging::flag::DEFAULT, logging::flag::VERBOSE, logging::flag::PROGRESS, logging::flag::PERCENT, logging::flag::STAT};
    std::vector<std::thread> ts;
    std::atomic<int> go = 0;
    logging::percent_clock *clock = useclock ? new logging::percent_clock(static_cast<uint64_t>(threads) * lines) : nullptr;
    for (int t = 0; t < threads; t++)
        ts.emplace_back([&, t] {
            go++;
            while (go < threads)
                ;
            for (int i = 0; i < lines; i++) {
                unsigned h = (t * 7919u + i * 104729u) >> 3;
                auto f = flags[h % 5];
                std::string pad(h % 90, static_cast<char>('a' + t % 26));
                switch (h % 3) {
                    case 0: logging::print(f, "<{} {} {} {}>\n", t, i, h % 5, pad); break;
                    case 1: logging::print(f, ("<" + std::to_string(t) + " " + std::to_string(i) + " " + std::to_string(h % 5) + " " + pad + ">\n").c_str()); break;
                    default:
                        if (h % 5 == 0)
                            logging::print("<{} {} {} {}>\n", t, i, h % 5, pad);
                        else
                            logging::print(f, "<{} {} {} {}>\n", t, i, h % 5, pad);
                }
                if (clock)
                    (*clock)++;
            }
        });
    for (auto &t : ts)
        t.join();
    if (useclock == 2)
        clock->print();
    delete clock;
    std::cout.flush();
    fflush(stdout);
    out << "[]" << std::endl;
    logging::mask = bitflags<logging::flag>(logging::flag::ALL);
}

static void stats(std::istringstream &in, std::ostream &out)
{
    std::string o;
    int n, twice;
    in >> n >> twice;
    std::vector<std::string> got;
    logging::set_print_callback([&](logging::flag f, const char *s) { got.push_back(std::to_string(static_cast<int>(f)) + "|" + s); });
    {
        struct mystats : logging::stat_tracker_t
        {
        } st;
        for (int i = 0; i < n; i++) {
            std::string name;
            long long c;
            int z, w;
            in >> name >> c >> z >> w;
            auto &s = st.register_stat(name, z, w);
            long long part = c / 3;
            std::thread a([&] {
                for (long long k = 0; k < std::min(part, 50ll); k++)
                    s++;
                s += part - std::min(part, 50ll);
            });
            s += c - part;
            a.join();
        }
        if (twice)
            st.print_stats();
    }
    logging::set_print_callback(nullptr);
    o = "[";
    for (auto &g : got) {
        o += (o.size() > 1 ? ",[" : "[");
        for (size_t i = 0; i < g.size(); i++)
            o += (i ? "," : "") + std::to_string(static_cast<int>(static_cast<unsigned char>(g[i])));
        o += "]";
    }
    out << o << "]" << std::endl;
}

int main(int argc, char **argv)
{
    std::ofstream out(argv[1]);
    if (argc > 2) {
        settings::common_settings s;
        s.log.set_value(true, settings::source::COMMANDLINE);
        s.program_name = "progress";
        logging::init(argv[2], s);
    }
    tbb::global_control more(tbb::global_control::max_allowed_parallelism, 16);
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string what;
        in >> what;
        if (what == "history")
            history(in, out);
        else if (what == "loops")
            loops(in, out);
        else if (what == "prints")
            prints(in, out);
        else if (what == "stats")
            stats(in, out);
    }
    for (auto &[t, w] : workers) {
        {
            std::unique_lock l(m);
            w.quit = true;
            cv.notify_all();
        }
        w.th.join();
    }
    logging::close();
    return 0;
}
