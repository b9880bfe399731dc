#pragma once
namespace a { struct A {}; }
