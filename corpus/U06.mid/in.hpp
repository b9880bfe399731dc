#pragma once
#include <a.hpp>
#include <a_1.hpp>
#include <d/e.hpp>
#include <d_e.hpp>
#include <M.hpp>
#include <x.y.h>
#include <we-ird+name.hh>
namespace last { struct L { int l; }; }
