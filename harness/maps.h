// The map under test: -DFAM=1..5 (g15 g16 robin robin16 flat16)
#pragma once
#include "prelude.h"
#include "jstd/basic/stddef.h"
#include "jstd/basic/stdint.h"
#include "jstd/basic/inttypes.h"
#if FAM == 1
#include "jstd/hashmap/group15_flat_map.hpp"
#define MAPT jstd::group15_flat_map
#define FNAME "group15"
#elif FAM == 2
#include "jstd/hashmap/group16_flat_map.hpp"
#define MAPT jstd::group16_flat_map
#define FNAME "group16"
#elif FAM == 3
#include "jstd/hashmap/robin_hash_map.h"
#define MAPT jstd::robin_hash_map
#define FNAME "robin"
#elif FAM == 4
#include "jstd/hashmap/robin16_hash_map.h"
#define MAPT jstd::robin16_hash_map
#define FNAME "robin16"
#elif FAM == 5
#include "jstd/hashmap/flat16_hash_map.h"
#define MAPT jstd::flat16_hash_map
#define FNAME "flat16"
#endif
// The layout policy of robin_hash_map: -DLAY=0..3
#ifndef LAY
#define LAY 0
#endif
#if FAM == 3
#if LAY == 0
#define LAYSTR ""
#define LAYOUT(K, V) jstd::default_layout_policy<K, V>
#else
#if LAY == 1
#define LAYSTR " direct"
#elif LAY == 2
#define LAYSTR " direct, stored hash"
#else
#define LAYSTR " indirect"
#endif
template <class K, class V>
struct VfLayout : jstd::default_layout_policy<K, V> {
    static constexpr bool autoDetectIsIndirectKey = false, isIndirectKey = LAY == 3;
    static constexpr bool autoDetectIsIndirectValue = false, isIndirectValue = false;
    static constexpr bool autoDetectStoreHash = false, needStoreHash = LAY == 2;
};
#define LAYOUT(K, V) VfLayout<K, V>
#endif
#else
#define LAYSTR ""
#endif
