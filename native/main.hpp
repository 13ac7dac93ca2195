#pragma once
#include "nat.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#include <signal.h>
#include <sys/wait.h>
#include <time.h>
nat::options nat::opt;
static double nat_now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
extern nat::u32 nat_mask_for(const std::string& prop);
// prints "RESULT cases=<n> failed=<case or -1>"; a failing case is reproduced with --case N --trace
int main(int argc, char** argv)
{
    using namespace nat;
    long one = -1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val      = [&] { return std::string(argv[++i]); };
        if (a == "--prop") opt.prop = val();
        else if (a == "--seed") opt.seed = std::stoull(val());
        else if (a == "--first") opt.first = std::stoull(val());
        else if (a == "--stride") opt.stride = std::stoull(val());
        else if (a == "--count") opt.count = std::stoull(val());
        else if (a == "--ops") opt.ops = (u32) std::stoul(val());
        else if (a == "--secs") opt.secs = std::stod(val());
        else if (a == "--case") one = std::stol(val());
        else if (a == "--trace") tracing = true;
    }
    scope_mask = nat_mask_for(opt.prop);
    if (one >= 0) {
        run_case(opt.seed, one, opt.ops);
        printf("PASS\n");
        return 0;
    }
    // a child runs cases one after another; if it dies the case it was at is the failing one
    auto shared = (volatile u64*) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    constexpr u64 HN = 1 << 20;
    auto hashes = (u64*) mmap(nullptr, HN * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    auto distinct = [&](u64 upto) {
        std::set<u64> s;
        for (u64 i = 0; i < std::min(upto, HN); ++i)
            if (hashes[i])
                s.insert(hashes[i]);
        return (unsigned long long) s.size();
    };
    u64 done = 0, abandoned = 0;
    double end = opt.secs > 0 ? nat_now() + opt.secs : 0;
    u64 next = 0;
    while (next < opt.count && (!end || nat_now() < end)) {
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            int nul = open("/dev/null", O_WRONLY);
            dup2(nul, 1);
            dup2(nul, 2);
            u64 upto = std::min(opt.count, next + 400);
            for (u64 i = next; i < upto; ++i) {
                shared[0] = i;
                shared[1] = 0;
                hist_hash = hist_steps = 0;
                run_case(opt.seed, opt.first + i * opt.stride, opt.ops);
                shared[1] = 1;
                if (i < HN && hist_steps >= 20)
                    hashes[i] = hist_hash;
                if (end && nat_now() > end)
                    break;
            }
            _exit(0);
        }
        int st = 0;
        // a case that does not end is a failing case
        double t0 = nat_now();
        u64 at    = shared[0];
        for (;;) {
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid)
                break;
            if (shared[0] != at) {
                at = shared[0];
                t0 = nat_now();
            }
            if (nat_now() - t0 > 60) {
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                break;
            }
            usleep(2000);
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 42) {
            ++abandoned;
            done += shared[0] - next + 1;
            next = shared[0] + 1;
        } else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
            done += shared[0] - next + 1;
            next = shared[0] + 1;
        } else {
            printf("RESULT cases=%llu distinct=%llu abandoned=%llu failed=%llu\n", (unsigned long long) done,
                   distinct(shared[0]), (unsigned long long) abandoned, (unsigned long long) (opt.first + shared[0] * opt.stride));
            return 1;
        }
    }
    printf("RESULT cases=%llu distinct=%llu abandoned=%llu failed=-1\n", (unsigned long long) done, distinct(next),
           (unsigned long long) abandoned);
    return 0;
}
