#pragma once
#include <t.hpp>
#include <user.hpp>
#include <io.hpp>
