prop="C12"
needs="a node that already belongs to one tree, with daughters, added to another one"
breaks="a node added as a root keeps the daughter links of the tree it came from"
edits=[("projects/dataclasses/private/InteractionTree.cxx",
"    datum->daughter_indices.clear();\n    if (parent) {\n        datum->parent_index = parent->node_id;",
"    if (parent) {\n        datum->daughter_indices.clear();\n        datum->parent_index = parent->node_id;")]
demo=r'''
#include <cstdio>
#include <memory>
#include "SIREN/dataclasses/InteractionTree.h"
using namespace siren::dataclasses;
int main() {
    InteractionTree t, u;
    InteractionRecord r;
    auto a = t.add_entry(r); t.add_entry(r, a); t.add_entry(r, a);
    InteractionTreeDatum copy = *a;
    auto b = u.add_entry(copy);
    std::printf("%zu\n", b->daughter_indices.size());

    return b->daughter_indices.empty() ? 0 : 1;
}
'''
