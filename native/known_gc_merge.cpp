// Probe of a known finding: under a garbage-collected policy, a transient append or prepend whose rebalancing
// throws ends the program (concat_merger_mut::abort calls std::terminate).  Exits 1 while it does.
#define NAT_POL 2
#include "nat.hpp"
#include "policies.hpp"
#include <immer/flex_vector.hpp>
#include <immer/flex_vector_transient.hpp>
#include <sys/wait.h>
nat::options nat::opt;
using namespace nat;
using V = immer::flex_vector<El, MP, 2, 1>;
int main()
{
    for (u32 seed = 0; seed < 40; ++seed)
        for (int at = 0; at < 40; at += 3) {
            fflush(stdout);
            pid_t p = fork();
            if (!p) {
                freopen("/dev/null", "w", stderr);
                rng r{seed};
                V v[2];
                for (auto& x : v)
                    for (int i = 0; i < 12; ++i) {
                        V y;
                        for (u32 k = 0, n = 1 + r.below(9); k < n; ++k) y = y.push_back(El{k});
                        x = x + y;
                    }
                auto a = v[0].transient(), b = v[1].transient();
                a.update(a.size() / 2, [](El e) { return e; });
                b.update(b.size() / 2, [](El e) { return e; });
                fault_at = at, fault_seen = 0, faults_on = true;
                try {
                    a.append(std::move(b));
                } catch (...) {
                }
                _exit(0);
            }
            int st = 0;
            waitpid(p, &st, 0);
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) {
                printf("seed %u fault %d: terminate\n", seed, at);
                return 1;
            }
        }
    printf("no termination\n");
    return 0;
}
