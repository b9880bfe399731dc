#include <T01.enum.hpp>
