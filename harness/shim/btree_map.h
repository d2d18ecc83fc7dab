// Stand-in for cpp-btree's btree_map.h (not available offline): the subset of
// btree::btree_multimap that db/mem_store.hpp uses, on top of std::multimap.
#ifndef VERIF_SHIM_BTREE_MAP_H
#define VERIF_SHIM_BTREE_MAP_H
#include <map>
namespace btree {
template <class K, class V>
using btree_multimap = std::multimap<K, V>;
template <class K, class V>
using btree_map = std::map<K, V>;
}
#endif
