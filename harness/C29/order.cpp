// Due order: tasks added before the first of them is due run in the order of their time points.
//VP name=o2 tier=both flags="-DVN=2" desc="two tasks, any two time points out of two, every schedule and expiry"
//VP name=o3 tier=thorough flags="-DVN=3" opts="--preempt 2" desc="three tasks, any time points out of three, up to two preemptions, every expiry"
//VP name=cmp tier=both flags="-DVN=3 -DVCMP" desc="three tasks with arbitrary time points at least an hour ahead, destroyed before they are due: their comparison operators"
#include <vp.h>
#include <chrono>
#include <memory>
#include <thread>
#include <utility>
#include <sharemind/TimeoutsThread.h>
#include <sharemind/SimpleWait.h>
using TT = sharemind::TimeoutsThread; using C = TT::Clock; using TP = C::time_point;
static TP tp[VN]; static int seen = 0, at[VN]; static sharemind::SimpleWait done;
#ifdef VCMP
int main() {
    vp_leak_mark();
    {
        vp_horizon(3599000000000); TT t; TT::Task * p[VN];
        for (int i = 0; i < VN; ++i) {
            auto const d = vp_range<long long>("time", 3600000000000, 0x7000000000000000); tp[i] = TP(C::duration(d));
            auto x = TT::createOneShotTask([]() noexcept { vp_fail("run before its time"); }); p[i] = x.get(); t.addTask(tp[i], std::move(x));
        }
        for (int i = 0; i < VN; ++i) for (int j = 0; j < VN; ++j) {
            TT::Task const & a = *p[i]; TT::Task const & b = *p[j];
            vp_check((a == b) == (tp[i] == tp[j]) && (a != b) == (tp[i] != tp[j]) && (a < b) == (tp[i] < tp[j]) && (a <= b) == (tp[i] <= tp[j]) && (a > b) == (tp[i] > tp[j]) && (a >= b) == (tp[i] >= tp[j]), "tasks compare as their time points");
        }
    }
    vp_leak_check();
}
#else
int main() {
    vp_leak_mark();
    {
        TT t; TP const zero(C::now()); bool known[VN][VN] = {};
        for (int i = 0; i < VN; ++i) tp[i] = zero + std::chrono::milliseconds(1 + vp_choose(VN, "time"));
        for (int i = 0; i < VN; ++i) {
            t.addTask(tp[i], TT::createOneShotTask([i]() noexcept { vp_check(C::now() >= tp[i], "not before its time"); at[i] = ++seen; if (seen == VN) done.notifyReady(); }));
            TP const now(C::now()); // later tasks that were not due yet must come after this one
            for (int j = 0; j < i; ++j) known[i][j] = known[j][i] = (now < tp[j]) & (now < tp[i]);
        }
        done.wait();
        for (int i = 0; i < VN; ++i) for (int j = 0; j < VN; ++j) vp_check(!(known[i][j] & (tp[i] < tp[j])) | (at[i] < at[j]), "the earlier time point first");
    }
    vp_leak_check();
}
#endif
