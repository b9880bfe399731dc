#include <T43.stl.pybind11_include_stl.hpp>
