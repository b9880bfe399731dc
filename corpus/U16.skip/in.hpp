#pragma once
#include <a.hpp>
#include <b.hpp>
