// Object trees: every order of creating and destroying parents and children.
//VP name=del tier=both flags="-DVK=5" desc="two parents, three children, five operations, the child destructor deletes"
//VP name=keep tier=both flags="-DVK=5 -DVKEEP" desc="two parents, three children, five operations, the child destructor only records"
//VP name=deep tier=thorough flags="-DVK=7" desc="two parents, three children, seven operations, the child destructor deletes"
//VP name=deepk tier=thorough flags="-DVK=7 -DVKEEP" desc="two parents, three children, seven operations, the child destructor only records"
#include <vp.h>
#include <functional>
#include <memory>
#include <mutex>
#include <set>
#include <type_traits>
#include <utility>
#include <sharemind/ObjectTree.h>
using namespace sharemind;
struct Child; struct Parent;
static int handed[3], dead[3]; static Child * slot[3]; static int owner[3] = { -1, -1, -1 };
struct Parent { Parent(); ~Parent(); using N = ObjectTree::ParentNode<Parent, Child, std::mutex>; N node; int tag = 0x9a; };
struct Child {
    int i; ObjectTree::ChildNode<Parent::N, &Parent::node> node;
    Child(Parent * p, int i_) : i(i_), node(p, this) {}
    ~Child() { ++dead[i]; slot[i] = nullptr; }
};
static void drop(Child * c) {
    vp_check(c && slot[c->i] == c && owner[c->i] >= 0, "the child handed over is a remaining child"); ++handed[c->i]; vp_check(handed[c->i] == 1, "handed over once");
    vp_check(c->node.parent() == nullptr, "a child handed over is detached"); owner[c->i] = -1;
#ifndef VKEEP
    delete c;
#endif
}
Parent::Parent() : node(&drop) {}
Parent::~Parent() { tag = 0; }
template <class T, typename std::enable_if<std::is_copy_constructible<T>::value, int>::type = 0>
static void copied(T & c, std::unique_ptr<Parent> & p) { T d(c); p.reset(); vp_check(d.parent() == nullptr, "a copied node does not refer to a destroyed parent"); }
template <class T, typename std::enable_if<!std::is_copy_constructible<T>::value, int>::type = 0>
static void copied(T &, std::unique_ptr<Parent> &) {}
int main() {
    vp_leak_mark();
    {
        std::unique_ptr<Parent> p[2]; p[0].reset(new Parent); p[1].reset(new Parent); Parent * raw[2] = { p[0].get(), p[1].get() };
        auto const same = [&] {
            for (int j = 0; j < 2; ++j) if (p[j]) {
                std::set<Child *> want; for (int i = 0; i < 3; ++i) if (slot[i] && owner[i] == j) want.insert(slot[i]);
                vp_check(p[j]->node.children() == want, "a parent lists exactly its live children"); vp_check(p[j]->node.numChildren() == want.size(), "number of children");
            }
            for (int i = 0; i < 3; ++i) if (slot[i]) vp_check(slot[i]->node.parent() == (owner[i] < 0 ? nullptr : raw[owner[i]]), "parent of a child");
        };
        same();
        for (int o = 0; o < VK; ++o) {
            switch (vp_choose(4, "operation")) {
            case 0: { int const i = vp_choose(3, "child"), j = int(vp_choose(3, "parent")) - 1; vp_assume(!slot[i] && (j < 0 || p[j])); handed[i] = 0; dead[i] = 0; slot[i] = new Child(j < 0 ? nullptr : p[j].get(), i); owner[i] = j; break; }
            case 1: { int const i = vp_choose(3, "child"); vp_assume(slot[i]); Child * const c = slot[i]; delete c; vp_check(dead[i] == 1, "destroyed"); owner[i] = -1; break; }
            case 2: {
                int const j = vp_choose(2, "parent"); vp_assume(bool(p[j])); bool had[3]; for (int i = 0; i < 3; ++i) had[i] = slot[i] && owner[i] == j;
                p[j].reset(); for (int i = 0; i < 3; ++i) if (had[i]) vp_check(handed[i] == 1, "destroying a parent hands over every remaining child"); break;
            }
            default: { int const i = vp_choose(3, "child"); vp_assume(slot[i] && owner[i] >= 0); int const j = owner[i]; copied(slot[i]->node, p[j]); }
            }
            same();
        }
        for (int i = 0; i < 3; ++i) if (slot[i]) { delete slot[i]; owner[i] = -1; same(); }
    }
    vp_leak_check();
}
