#pragma once
#include <Eigen/Core>
#include <Eigen/Dense>
#include <memory>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <functional>
#include <algorithm>
#include <sstream>
#include <iostream>
#include <fstream>
#include <string>
#include <optional>
#include <deque>
#include <tuple>
#include <typeindex>
#include <numeric>
#include <array>
#include <cassert>
#include <cmath>
#include <initializer_list>
#include <list>
#include <stack>
#include <stdexcept>
#include <string_view>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <variant>
