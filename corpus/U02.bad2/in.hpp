#pragma once
namespace a { struct A { int x; }; }
