#pragma once
#include "pybind11.h"
namespace pybind11 {
template <class V, class... X> class_<V> bind_vector(module_&, const std::string&, const X&...);
template <class V, class... X> class_<V> bind_map(module_&, const std::string&, const X&...);
}
