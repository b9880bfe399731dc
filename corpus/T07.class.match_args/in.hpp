#include <T07.class.match_args.hpp>
