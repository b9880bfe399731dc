#pragma once
int root_fn();
namespace a { struct A {}; void fa(); enum class EA { x };
 namespace b { struct B {}; void fb(); namespace c { struct C {}; void fc(); namespace d { struct D {}; void fd(); } } }
 namespace bc { struct BC {}; void fbc(); }
 inline namespace v1 { struct V {}; void fv(); }
 namespace detail { struct Det {}; void fdet(); } }
namespace aa { struct AA {}; void faa(); }
namespace ab { struct AB {}; namespace b { struct ABB {}; void fabb(); } }
