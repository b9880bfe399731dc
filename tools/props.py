"""The property table: properties.jsonl and MANIFEST.json are generated from it (tools/manifest.py)."""
I, P, C, H = 'inputs', 'programs', 'configurations', 'histories'
# id, title, statement, over, text, why, files, mechanism[(name, where)], observe
PROPS = [
 ('C01', 'Namespace directives select whole namespaces, longest match wins',
  'A namespace is selected for binding (or skipping) exactly when it, or a namespace enclosing it, was named by a +namespace / --bind (or -namespace / --skip) directive; of two matching directives the one naming the innermost namespace decides. A directive for a::b never affects a namespace such as a::bc that merely shares its spelling as a prefix, and the directive for the empty name covers everything.',
  [I, C], 'every namespace name and every list of namespaces to bind and to skip', 'each test uses one or two namespaces and one list; the rule is over all names and all lists, including prefixes of one another',
  ['source/config.cpp', 'source/type.cpp', 'source/util.cpp'], [('is_namespace_binding_requested / is_namespace_skipping_requested', 'source/config.cpp'), ('namespace of a declaration', 'source/type.cpp')], ['generated sources, .modules file']),
 ('C02', 'Every line of a config file takes effect as documented, or is rejected',
  'After reading a config file, the settings are exactly those of the lines in order: empty lines and lines starting with # are ignored, +X/-X directives append their (trimmed) argument to the list, map or value that the directive names, and every other directive, sign or malformed line stops the run with an error. No line affects any other setting.',
  [I, C], 'every config file, any number of lines in any order', 'tests exercise each directive at most once, in fixed order; the guarantee is about every file',
  ['source/config.cpp'], [('Config::read', 'source/config.cpp')], ['exit status, generated sources']),
 ('C03', 'Explicit bind/skip directives decide for classes, functions, enums and fields',
  'A class, function, enum or data member named by a skip directive is not bound and one named by a bind directive is, whatever the directive says about its namespace; directives match the full name regardless of spaces, a directive naming one specialisation or overload takes precedence over one naming all of them, and skip precedes bind at the same precision. A name no directive mentions follows its namespace, and declarations that use a skipped type are skipped.',
  [I, C, P], 'every declaration and every set of directives', 'tests use a handful of directives, each on one declaration',
  ['source/config.cpp', 'source/function.cpp', 'source/class.cpp', 'source/enum.cpp', 'source/type.cpp'], [('is_*_requested', 'source/config.cpp'), ('is_binding_requested / is_skipping_requested', 'source/{function,class,enum,type}.cpp')], ['generated sources']),
 ('C04', 'The bound set: requested plus needed, never skipped, closed under use',
  'Code is generated for every declaration that is bindable, requested and not skipped, and for every class those need (types of bound signatures and public bases); nothing is generated for a skipped, banned or unbindable declaration, and declarations from system headers are bound only when needed. Generation stops only when no requested declaration is left unbound.',
  [P, C, H], 'every program, configuration and order of declarations', 'a test sees one program; closure and exclusion are about every dependency graph',
  ['source/context.cpp', 'source/binder.cpp', 'source/type.cpp', 'source/function.cpp', 'source/class.cpp', 'source/enum.cpp'], [('Context::bind, Context::request_bindings, Context::add', 'source/context.cpp'), ('request_bindings(QualType)', 'source/type.cpp'), ('*Binder::request_bindings_and_skipping', 'source/{class,function,enum}.cpp')], ['generated sources']),
 ('C05', 'Base classes and enclosing namespaces are registered first',
  'In the generated module every class is registered after the base classes it lists, and every namespace module is created after the module of its enclosing namespace, so that importing the module never meets an unknown base or parent.',
  [P], 'every inheritance graph and declaration order', 'tests cover a few short hierarchies',
  ['source/context.cpp', 'source/util.cpp', 'source/class.cpp'], [('Context::sort_binders', 'source/context.cpp'), ('Context::create_all_nested_namespaces', 'source/context.cpp'), ('ClassBinder::maybe_base_classes', 'source/class.cpp')], ['generated sources']),
 ('C06', 'Everything bound is emitted once, and every emitted function is called once',
  'The code of every bound declaration appears exactly once in the generated files, in a binding function that the root module declares and calls exactly once and whose file is listed in the .sources file; the .modules file and the sub-module table name every namespace that has bindings and all its parents. Splitting over files by size, --flat or --single-file changes only the grouping.',
  [P, C], 'every set of bound declarations and every output option', 'tests check that one small module imports',
  ['source/context.cpp', 'source/util.cpp'], [('Context::generate', 'source/context.cpp'), ('indent', 'source/util.cpp')], ['generated sources, .sources, .modules']),
 ('C07', 'Output files are created where asked and left untouched when unchanged',
  'Writing a generated file leaves exactly the generated text in prefix/name, creating missing directories below the prefix; when the file already has that text it is not rewritten, so its modification time is kept, and no other file is touched.',
  [I, H], 'every prefix, file name, text and previous content of the output directory', 'tests always start from an empty output directory',
  ['source/util.cpp'], [('update_source_file', 'source/util.cpp')], ['output directory']),
 ('C08', 'Each callable is bound with its exact signature, once per default-argument arity',
  'A bound function or constructor is emitted once for every arity from the first defaulted parameter up to all parameters (a function taking function-typed parameters only with all of them), each time with the exact qualified name, parameter types and order, argument names (except the shortened constructors of a class with a trampoline, which are lambdas without argument names) and forwarding of every argument. No arity is lost, duplicated or bound to another overload.',
  [P], 'every function signature', 'tests sample a few arities and types',
  ['source/function.cpp', 'source/class.cpp', 'source/type.cpp'], [('bind_function, function_arguments*, function_pointer_type', 'source/function.cpp'), ('bind_constructor', 'source/class.cpp')], ['generated sources']),
 ('C09', 'Only public, bindable members are bound',
  'A class binding contains exactly the public, non-skipped members that can be bound: no private or protected, deleted, template-pattern, conversion or anonymous member, and no function or field whose type cannot cross into Python; a public using-declaration brings in the members it names, and members of public bases of a template are included. When a const and a non-const overload exist only the non-const one is bound.',
  [P], 'every class declaration', 'tests cover a few access and type combinations',
  ['source/class.cpp', 'source/function.cpp', 'source/type.cpp'], [('binding_public_member_functions, binding_public_data_members, binding_template_bases', 'source/class.cpp'), ('is_bindable', 'source/{type,function,class}.cpp')], ['generated sources']),
 ('C10', 'Return-value policies, call guard and static-ness follow the configuration',
  'Every bound function returning a pointer, lvalue reference or rvalue reference carries the configured policy for that kind of return and for member versus static or free functions, others carry none; the configured call guard is on every bound function; static members are defined as static, and an overloaded set of static and non-static members is kept apart by name.',
  [P, C], 'every function and policy setting', 'tests run with the default policies',
  ['source/function.cpp', 'source/config.cpp'], [('bind_function', 'source/function.cpp')], ['generated sources']),
 ('C11', 'Documentation text is embedded losslessly in valid string literals',
  'The documentation comment of every bound declaration is embedded as one valid C++ string literal that denotes the comment text as clang parses it, whatever characters it has: backslashes, quotes and line breaks are escaped.',
  [I], 'every comment text', 'tests have a few plain comments',
  ['source/util.cpp', 'source/type.cpp', 'source/function.cpp'], [('generate_documentation_string_for_declaration', 'source/type.cpp'), ('replace', 'source/util.cpp')], ['generated sources']),
 ('C12', 'C++ operators map to the right Python special methods',
  'Every overloadable member operator that is bound gets its Python special-method name, telling unary from binary and prefix from postfix forms by the number of parameters; operators without a Python counterpart are not bound.',
  [P], 'every operator and arity', 'tests bind a few operators and golden comparison is not stable',
  ['source/function.cpp'], [('cpp_python_operator, python_function_name', 'source/function.cpp')], ['generated sources']),
 ('C13', 'Trampolines cover exactly the overridable virtual functions',
  'A class gets a trampoline exactly when it is not final and has an overridable virtual function (its own or of a non-private base) and the trampoline can implement every pure virtual one; the trampoline overrides each accessible, bindable, non-skipped virtual function once, with its signature, constness and return type, forwards the call to Python if overridden and otherwise to the C++ implementation (or reports a pure virtual call). Functions given a custom trampoline call that instead.',
  [P, C], 'every class hierarchy', 'tests cover a few hierarchies',
  ['source/class.cpp', 'source/function.cpp', 'source/config.cpp'], [('bind_member_functions_for_call_back, is_callback_structure_needed, is_callback_structure_constructible', 'source/class.cpp')], ['generated sources']),
 ('C14', 'Data members: read-write exactly when assignable',
  'A bound data member is read-only exactly when it is const or its class type cannot be copy-assigned publicly, and read-write otherwise; pointer, reference, array, bit-field and anonymous members, and members of a type that cannot be bound, are left out.',
  [P], 'every field type', 'tests cover a few field types',
  ['source/class.cpp'], [('bind_data_member, is_bindable(FieldDecl), is_field_assignable', 'source/class.cpp')], ['generated sources']),
 ('C15', 'Caches are invisible',
  'Name normalisation, bindability and include collection give for every declaration the answer they would give if nothing had been asked before: earlier queries, their number and order never change a later answer.',
  [H], 'every sequence of queries', 'tests see one order of queries',
  ['source/type.cpp', 'source/function.cpp', 'source/class.cpp', 'source/util.cpp'], [('memo tables', 'source/{type,function,class}.cpp')], ['generated sources']),
 ('C16', 'Generated files include what they use and nothing skipped',
  'Each generated file starts with one #include line for each distinct header its bindings need or the configuration asks for, in sorted order, and never a header the user skipped; a declaration is visited again only at a shallower depth, so that no dependency within the depth limit is dropped.',
  [P, C], 'every declaration graph and include directive', 'tests compile a few modules',
  ['source/context.cpp', 'source/binder.cpp', 'source/config.cpp', 'source/type.cpp', 'source/class.cpp', 'source/function.cpp', 'source/enum.cpp'], [('generate_include_directives', 'source/context.cpp'), ('IncludeSet::add_decl', 'source/binder.cpp'), ('add_relevant_includes', 'source/{type,class,function,enum}.cpp')], ['generated sources']),
 ('C17', 'Names in generated code denote the C++ entity and valid Python identifiers',
  'Type names are normalised to one spelling: library-internal namespaces and expanded typedefs become their public names, defaulted template arguments are dropped, and _Bool becomes bool only as a whole word; the Python name of a class consists of identifier characters only, is derived from its full template name, and the parent and last component of a namespace split it at its last top-level ::.',
  [I], 'every type and namespace name', 'tests sample a few names',
  ['source/type.cpp', 'source/util.cpp', 'source/class.cpp', 'source/config.cpp'], [('standard_name, simplify_std_class_name', 'source/type.cpp'), ('mangle_type_name, fix_boolean_types, base_namespace, last_namespace', 'source/util.cpp'), ('class_name, class_qualified_name', 'source/class.cpp')], ['generated sources']),
 ('C18', 'Class registration: holder, module-local, buffer and constructors',
  'Every bound class is registered once with its qualified name, its Python name, the configured holder (a raw pointer when its destructor is not public and it does not share ownership of itself), its trampoline if any and its bound public bases; module-local, buffer-protocol and smart-holder annotations appear exactly when requested for it. Its constructors are bound when they are public and usable, plus a default constructor when the class has a usable one that is not declared.',
  [P, C], 'every class and annotation directive', 'tests cover a few combinations',
  ['source/class.cpp', 'source/config.cpp'], [('ClassBinder::bind', 'source/class.cpp'), ('is_module_local_requested, is_buffer_protocol_requested, is_smart_holder_requested', 'source/config.cpp')], ['generated sources']),
 ('C19', 'Enums are bound completely',
  'Every bound enum lists each of its enumerators once, in order, under its own name and value, is arithmetic exactly when it is unscoped, and exports its values into the enclosing scope unless it is declared with `enum class`; anonymous enums are not bound.',
  [P], 'every enum declaration', 'tests have a few enums',
  ['source/enum.cpp'], [('bind_enum, is_bindable(EnumDecl)', 'source/enum.cpp')], ['generated sources']),
]
CLAIMED = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19']
NA = {}
