// Everything /repo's headers need to be included in any order, by gcc and clang.
#pragma once
#include <cstddef>
using std::nullptr_t;
#include <cstdint>
#include <cstring>
#include <cassert>
#include <cstdlib>
#include <cstdio>
#include <cstdarg>
#include <cmath>
#include <filesystem>
#include <stdexcept>
#include <iostream>
#include <string>
#include <memory>
#include <vector>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <tuple>
#include <algorithm>
#include <functional>
#include <type_traits>
#include <utility>
