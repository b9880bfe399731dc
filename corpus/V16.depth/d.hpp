#pragma once
namespace root { struct D { int v; void dd(D *); }; }
