// Threads creating and destroying children of one parent.
//VP name=two tier=both flags="-DVN=2" desc="two threads, each creating two children and destroying one, every schedule"
//VP name=three tier=thorough flags="-DVN=3" desc="three threads, every schedule"
#include <vp.h>
#include <functional>
#include <memory>
#include <mutex>
#include <set>
#include <thread>
#include <utility>
#include <vector>
#include <sharemind/ObjectTree.h>
using namespace sharemind;
struct Child; static int handed = 0;
struct Parent { Parent(); using N = ObjectTree::ParentNode<Parent, Child, std::mutex>; N node; };
struct Child { ObjectTree::ChildNode<Parent::N, &Parent::node> node; explicit Child(Parent * p) : node(p, this) {} };
static void drop(Child * c) { ++handed; delete c; }
Parent::Parent() : node(&drop) {}
int main() {
    vp_leak_mark();
    {
        std::unique_ptr<Parent> p(new Parent); std::vector<std::thread> t; Child * kept[VN];
        for (int i = 0; i < VN; ++i) t.emplace_back([&, i] {
            Child * const c = new Child(p.get()); kept[i] = new Child(p.get()); vp_check(p->node.children().count(c) == 1 && p->node.numChildren() >= 2, "listed once constructed");
            delete c; vp_check(p->node.children().count(kept[i]) == 1, "a live child stays listed"); });
        for (auto & x : t) x.join();
        std::set<Child *> want(kept, kept + VN); vp_check(p->node.children() == want, "exactly the remaining children are listed");
        p.reset(); vp_check(handed == VN, "every remaining child is handed over");
    }
    vp_leak_check();
}
