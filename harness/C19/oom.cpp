// A child whose construction runs out of memory was never registered; a listing which does changes nothing.
//VP name=oom tier=both desc="a parent with 0 to 3 children; the construction of another child, or a listing, with any one of its allocations failing; then used on and destroyed in either order"
#include <vp.h>
#include <functional>
#include <memory>
#include <mutex>
#include <new>
#include <set>
#include <utility>
#include <sharemind/ObjectTree.h>
using namespace sharemind;
struct Child; struct Parent; static void drop(Child * c);
struct Parent { Parent() : node(&drop) {} using N = ObjectTree::ParentNode<Parent, Child, std::mutex>; N node; };
struct Child { int i; ObjectTree::ChildNode<Parent::N, &Parent::node> node; Child(Parent * p, int i_) : i(i_), node(p, this) {} };
static std::set<int> live, handed;
static void drop(Child * c) { vp_check(live.count(c->i) && handed.insert(c->i).second, "a remaining child, once"); vp_check(!c->node.parent(), "detached"); live.erase(c->i); delete c; }
static void same(Parent & p) { std::set<int> s; for (Child * c : p.node.children()) s.insert(c->i); vp_check(s == live && p.node.numChildren() == live.size(), "a parent lists exactly its live children"); }
int main() {
    vp_leak_mark();
    {
        std::unique_ptr<Parent> p(new Parent); Child * c[6] = {}; int const n = int(vp_choose(4, "children"));
        for (int i = 0; i < n; ++i) { c[i] = new Child(p.get(), i); live.insert(i); }
        int const at = n; bool const list = vp_choose(2, "listing"); bool ok = false;
        vp_alloc_may_fail(1);
        try { if (list) { std::set<Child *> const s(p->node.children()); vp_alloc_may_fail(0); vp_check(s.size() == live.size(), "the listing"); } else { c[at] = new Child(p.get(), at); ok = true; } } catch (std::bad_alloc const &) { vp_witness("out of memory"); }
        vp_alloc_may_fail(0);
        if (ok) live.insert(at);
        same(*p); c[4] = new Child(p.get(), 4); live.insert(4); same(*p);
        if (!ok) { c[at] = new Child(p.get(), at); live.insert(at); same(*p); }
        if (vp_choose(2, "a child first")) { delete c[at]; live.erase(at); same(*p); }
        p.reset(); vp_check(live.empty() && handed.count(4), "every remaining child is handed over"); live.clear(); handed.clear();
    }
    vp_leak_check();
}
