#include <T12.insertion_operator.hpp>
