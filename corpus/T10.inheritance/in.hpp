#include <T10.inheritance.hpp>
