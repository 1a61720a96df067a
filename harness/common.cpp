#include "common.h"
#include <atomic>
#include <fstream>
#include <iostream>
#include <thread>

namespace h {

FILE* out = nullptr;
thread_local std::string* sink = nullptr;
std::atomic<long> live_blocks(0); // allocated and not given back

// Sections "thread" of a group run at the same time, each with its own
// interpreter. Their events follow each other in the trace: what one section
// does must not depend on the others.
static void
run_threads(const std::vector<std::vector<std::string>>& secs, const Factory& f)
{
    const size_t n = secs.size();
    std::vector<std::string> sinks(n);
    std::atomic<size_t> ready(0);
    std::vector<std::thread> ts;
    for (size_t t = 0; t < n; t++)
        ts.emplace_back([&, t] {
            sink = &sinks[t];
            ready++;
            while (ready < n)
                std::this_thread::yield();
            std::unique_ptr<Interp> it = f();
            for (auto const& l : secs[t]) {
                Args a = split(l);
                try {
                    it->run(a);
                } catch (std::exception const& e) {
                    emit(J("exception").str("what", e.what()).str(
                        "cmd", a[0]));
                    break;
                }
            }
        });
    for (auto& t : ts)
        t.join();
    for (size_t t = 0; t < n; t++) {
        if (t)
            emit(J("same").str("v", "thread"));
        fwrite(sinks[t].data(), 1, sinks[t].size(), out);
    }
}

// Memory: "mem R" before a group runs it R times in a row, each time with a
// new interpreter, and tells how many blocks are allocated after each of
// them. A line "again ..." is run three times in its place, the blocks being
// counted after each. What the library says meanwhile is not recorded.
struct Counts {
    std::string tag;
    std::vector<long> n;
};
static void run_memory(const std::vector<std::string>& lines, const Factory& f)
{
    const int runs = I(split(lines[0]).at(1));
    std::vector<Counts> again;
    std::vector<long> at;
    at.reserve(runs);
    std::string said;
    for (auto const& l : lines)
        if (l.compare(0, 6, "again ") == 0) {
            again.emplace_back();
            for (char x : l.substr(6, 60))
                again.back().tag += isalnum(x) ? x : ' ';
            again.back().n.reserve(3 * runs);
        }
    {
        std::string s(1 << 22, ' '); // room, once and for all
        said.swap(s);
    }
    for (int i = 0; i < runs; i++) {
        size_t k = 0;
        std::unique_ptr<Interp> it = f();
        for (size_t j = 1; j < lines.size(); j++) {
            const bool rep = lines[j].compare(0, 6, "again ") == 0;
            Args a = split(rep ? lines[j].substr(6) : lines[j]);
            if (a.empty() || a[0][0] == '#')
                continue;
            for (int t = 0; t < (rep ? 3 : 1); t++) {
                said.clear();
                sink = &said;
                try {
                    it->run(a);
                } catch (std::exception const& e) {
                    sink = nullptr;
                    emit(J("exception").str("what", e.what()).str(
                        "cmd", a[0]));
                    fflush(out);
                    _exit(0);
                }
                sink = nullptr;
                if (rep)
                    again[k].n.push_back(live_blocks);
            }
            k += rep;
        }
        it.reset();
        at.push_back(live_blocks);
    }
    auto text = [](const std::vector<long>& v, size_t from, size_t to) {
        std::string s = "[";
        for (size_t i = from; i < to; i++)
            s += (i > from ? "," : "") + std::to_string(v[i]);
        return s + "]";
    };
    for (int i = 0; i < runs; i++) {
        emit(J("run"));
        for (auto const& x : again)
            emit(J("op").str("op", x.tag).raw("held", text(x.n, 3 * i, 3 * i + 3)));
        emit(J("quiet").num("held", at[i]));
    }
}

static void run_group(const std::vector<std::string>& lines, const Factory& f)
{
    if (!lines.empty() && lines[0] == "thread") {
        std::vector<std::vector<std::string>> secs;
        for (auto const& l : lines)
            if (l == "thread")
                secs.emplace_back();
            else
                secs.back().push_back(l);
        run_threads(secs, f);
        return;
    }
    if (!lines.empty() && lines[0].compare(0, 4, "mem ") == 0) {
        run_memory(lines, f);
        return;
    }
    std::unique_ptr<Interp> it = f();
    for (auto const& l : lines) {
        Args a = split(l);
        if (a.empty() || a[0][0] == '#')
            continue;
        try {
            it->run(a);
        } catch (std::exception const& e) {
            emit(J("exception").str("what", e.what()).str("cmd", a[0]));
            fflush(out);
            _exit(0);
        }
        fflush(out);
    }
    it.reset();
}

int main_loop(int argc, char** argv, const Factory& f)
{
    if (argc < 3) {
        std::cerr << "usage: " << argv[0] << " script out [timeout_s]\n";
        return 2;
    }
    int timeout = argc > 3 ? atoi(argv[3]) : 240;
    std::ifstream is(argv[1]);
    if (!is) {
        std::cerr << "no script\n";
        return 2;
    }
    out = fopen(argv[2], "w");
    if (!out)
        return 2;
    setvbuf(out, nullptr, _IOFBF, 1 << 20);
    std::string line, name;
    std::vector<std::string> lines;
    bool have = false;
    auto flush_group = [&]() {
        if (!have)
            return;
        emit(J("group").str("name", name));
        fflush(out);
        pid_t pid = fork();
        if (pid < 0) {
            perror("fork");
            exit(2);
        }
        if (pid == 0) {
            alarm(timeout);
            struct rlimit rl = {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
            struct rlimit as = {3UL << 30, 3UL << 30};
            setrlimit(RLIMIT_AS, &as);
#endif
            std::cout.setstate(std::ios::failbit); // the library may print
            run_group(lines, f);
            fflush(out);
            _exit(0);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0)
            ;
        fseek(out, 0, SEEK_END);
        if (WIFSIGNALED(st))
            emit(J("crash").num("sig", WTERMSIG(st)));
        else if (WEXITSTATUS(st) != 0)
            emit(J("crash").num("sig", 1000 + WEXITSTATUS(st)));
    };
    while (std::getline(is, line)) {
        if (line.compare(0, 6, "group ") == 0) {
            flush_group();
            name = line.substr(6);
            lines.clear();
            have = true;
        } else
            lines.push_back(line);
    }
    flush_group();
    emit(J("end"));
    fclose(out);
    return 0;
}

} // namespace h

// every allocation is counted
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);

static void* taken(void* p)
{
    if (p)
        h::live_blocks.fetch_add(1, std::memory_order_relaxed);
    return p;
}
void* malloc(size_t n)
{
    return taken(__libc_malloc(n));
}
void* calloc(size_t a, size_t b)
{
    return taken(__libc_calloc(a, b));
}
void* realloc(void* p, size_t n)
{
    void* q = __libc_realloc(p, n);
    if (!p && q)
        h::live_blocks.fetch_add(1, std::memory_order_relaxed);
    else if (p && !q && !n)
        h::live_blocks.fetch_sub(1, std::memory_order_relaxed);
    return q;
}
void* memalign(size_t a, size_t n)
{
    return taken(__libc_memalign(a, n));
}
void* aligned_alloc(size_t a, size_t n)
{
    return taken(__libc_memalign(a, n));
}
int posix_memalign(void** p, size_t a, size_t n)
{
    *p = taken(__libc_memalign(a, n));
    return *p ? 0 : 12;
}
void free(void* p)
{
    if (p)
        h::live_blocks.fetch_sub(1, std::memory_order_relaxed);
    __libc_free(p);
}
}
#endif
