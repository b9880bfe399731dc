SEEDS = {}
C = 'source/config.cpp'; U = 'source/util.cpp'; F = 'source/function.cpp'; T = 'source/type.cpp'; K = 'source/class.cpp'; X = 'source/context.cpp'; N = 'source/enum.cpp'
B = 'source/binder.cpp'


SEEDS['c01-shallow-bind'] = dict(property='C01',
    edits=[(C, '''	if( to_bind.size() > to_skip.size() ) return true;
	if( to_bind.size() < to_skip.size() ) return false;
''', '''	if( to_bind.size() < to_skip.size() ) return false;
	if( to_bind.size() > to_skip.size() + 3 or not to_skip_flag ) return to_bind_flag;
''')],
    needs='a namespace with a one-letter name, bound explicitly inside a namespace that is skipped explicitly',
    breaks='binding of the inner namespace stops with a conflict error instead of being decided by the innermost directive',
    input='namespace root { void f(int); namespace a { void g(int); } namespace abc { void h(int); } }\n',
    config='-namespace root\n+namespace root::a\n+namespace root::abc\n', args='',
    check='''
need('root::a::g' in cpp, 'root::a is bound explicitly')
need('root::abc::h' in cpp, 'root::abc is bound explicitly')
need('root::f' not in cpp, 'root itself is skipped')
''')

SEEDS['c02-skip-spaces'] = dict(property='C02',
    edits=[(C, "else functions_to_skip.push_back(name_without_spaces);", "else functions_to_skip.push_back(trim(name));")],
    needs='a skip directive for a function whose argument has a space inside',
    breaks='the skip directive keeps its spaces and so never matches a function',
    input='''
namespace root {
void keep(int, int);
void drop(unsigned int, int);
void drop(int);
}
''',
    config='+namespace root\n-function root::drop(unsigned int, int)\n', args='',
    check='''
need('root::keep' in cpp, 'keep is bound')
need('(void (*)(int)) &root::drop' in cpp, 'the other overload is bound')
need('(unsigned int, int)' not in cpp, 'the skipped overload is not bound')
''')

SEEDS['c03-overload-precision'] = dict(property='C03',
    edits=[(F, '''	if( config.is_function_skipping_requested(qualified_name) ) return true; // qualified function name was requested for skipping
	if( config.is_function_binding_requested(qualified_name) ) return false; // qualified function name was requested for binding
''', '''	if( config.is_function_binding_requested(qualified_name) ) return false; // qualified function name was requested for binding
	if( config.is_function_skipping_requested(qualified_name) ) return true; // qualified function name was requested for skipping
''')],
    needs='the same function named by a bind and by a skip directive',
    breaks='skip no longer precedes bind at the same precision',
    input='namespace root { void f(int); void g(int); }\n',
    config='+namespace root\n+function root::f\n-function root::f\n', args='',
    check='''
need('root::g' in cpp, 'g is bound')
need('root::f' not in cpp, 'f is skipped: skip precedes bind')
''')

SEEDS['c07-stale-tail'] = dict(property='C07',
    edits=[(U, '''	if( old_code != code ) {''', '''	if( old_code.compare(0, code.size(), code) ) {''')],
    needs='an existing output file that starts with the new text and has more text after it (for instance declarations removed from the end of a header)',
    breaks='the stale file is left as it is',
    input='namespace root { void f(int); }\n',
    run='''run --bind root || exit 2
cp -r "$W/out" "$W/first"
for f in "$W"/out/*; do echo '// stale' >> "$f"; done
run --bind root || exit 2
diff -r "$W/first" "$W/out" || { echo "FAILED: stale text left behind"; exit 1; }''',
    check='''
need('root::f' in cpp, 'f is bound')
''')

SEEDS['c08-const-by-value'] = dict(property='C08',
    edits=[(F, '''		a += "a" + std::to_string(i);
		if( i + 1 != record->getNumParams() and i + 1 != n ) {''', '''		a += "a" + std::to_string(i < 10 ? i : i % 10);
		if( i + 1 != record->getNumParams() and i + 1 != n ) {''')],
    needs='a function with a defaulted parameter after more than ten parameters',
    breaks='the shorter arities forward the wrong arguments',
    input='namespace root { int f(int, int, int, int, int, int, int, int, int, int, int, int, int x = 1); }\n',
    args='--bind root',
    check='''
m = re.search(r'return root::f\\(([^)]*)\\)', cpp)
need(m, 'the arity without the default is bound')
need(m.group(1) == ', '.join('a%d' % i for i in range(12)), 'every argument is forwarded: ' + m.group(1))
''')

SEEDS['c12-postfix'] = dict(property='C12',
    edits=[(F, '''		return n < vec.size() ? vec[n] : vec.back();''', '''		return vec.size() > 1 and F.param_size() == 0 and F.getNameAsString().back() != '-' ? vec.front() : vec.back();''')],
    needs='a class with a prefix decrement or unary minus operator',
    breaks='unary minus is bound as __sub__ and prefix decrement as post_decrement',
    input='namespace root { struct A { A operator-(); A operator-(A const &); A &operator++(); A operator++(int); A &operator--(); A operator--(int); A operator+(); }; }\n',
    args='--bind root',
    check='''
for n in ('__neg__', '__sub__', 'pre_increment', 'post_increment', 'pre_decrement', 'post_decrement', '__pos__'):
    need(len(re.findall('"%s"' % n, cpp)) == 1, n + ' is bound once')
''')

SEEDS['c17-mangle'] = dict(property='C17',
    edits=[(U, '''		replace(r, "*", "_star_");
		replace(r, "&", "_ref_");''', '''		size_t p = r.find('*');
		if( p != string::npos ) r.replace(p, 1, "_star_");
		p = r.find('&');
		if( p != string::npos ) r.replace(p, 1, "_ref_");''')],
    needs='a class template with two pointer (or two reference) arguments',
    breaks='the Python name of the class still has a * in it, which is no identifier',
    input='''
namespace root {
template <class A, class B> struct P { int x; };
struct U { int y; };
struct H { P<U *, int *> p; };
}
''',
    args='--bind root',
    check='''
names = re.findall(r'pybind11::class_<[^;]*?> \\w+\\(M\\("[^"]*"\\), "([^"]*)"', cpp)
need(len(names) >= 2, 'classes are bound: %s' % names)
for n in names: need(re.fullmatch(r'[A-Za-z_]\\w*', n), 'identifier: ' + n)
''')

SEEDS['c04-three-passes'] = dict(property='C04',
    edits=[(X, '''	while( flag ) {
		flag = false;
''', '''	while( flag and pass <= 3 ) {
		flag = false;
''')],
    needs='a chain of needed classes, each declared after the class that needs it is reached in reverse order, longer than three passes',
    breaks='generation stops while requested declarations are still unbound',
    input='''
namespace dep {
struct A4 { int v; };
struct A3 { A4 next(); };
struct A2 { A3 next(); };
struct A1 { A2 next(); };
struct A0 { A1 next(); };
}
namespace root { void f(dep::A0 &); }
''', args='--bind root', check='''
for i in range(5): need('pybind11::class_<dep::A%d' % i in cpp, 'dep::A%d is needed and has to be bound' % i)
''')

SEEDS['c05-template-name'] = dict(property='C05',
    edits=[(X, 'return !binded.count(class_qualified_name(C)) and !is_python_builtin(C);', 'return !binded.count(standard_name(C->getQualifiedNameAsString())) and !is_python_builtin(C);'),
           (X, 'binded.insert(class_qualified_name(C));', 'binded.insert(standard_name(C->getQualifiedNameAsString()));')],
    needs='a class whose base is a specialisation of a template that is declared later, when another specialisation of the same template is registered already',
    breaks='the class is registered before its base class',
    input='''
namespace root {
template <typename T> struct Base { T v; void set(T const &); };
template <typename T> struct Wrap : public T { int extra; };
template <> struct Base<double> { double v; };
inline void use() { Base<int> b; (void)b; Wrap< Base<double> > w; (void)w; }
}
''', check='''
i, j = cpp.find('pybind11::class_<root::Wrap<root::Base<double>>,'), cpp.find('pybind11::class_<root::Base<double>,')
need(i >= 0 and j >= 0 and 'pybind11::class_<root::Base<int>,' in cpp, 'bound')
need(j < i, 'Wrap is registered before its base')
''')

SEEDS['c06-lost-at-split'] = dict(property='C06',
    edits=[(X, '		if( i < binders.size() ) --i;\n', '		if( i < binders.size() and namespace_ != namespace_from_named_decl(binders[i]->named_decl()) ) --i; // start of next namespace was not processed yet\n')],
    needs='more bindings in one namespace than fit in one output file',
    breaks='the first binding after each split is dropped',
    input='namespace root { void f1(int); void f2(int); void f3(int); void f4(int); void f5(int); void f6(int); }\n',
    args="--bind root --max-file-size 400", check='''
for i in range(1, 7): need(cpp.count('&root::f%d,' % i) == 1, 'root::f%d is bound once' % i)
''')

SEEDS['c09-protected-using'] = dict(property='C09',
    edits=[(K, '''			if( u->getAccess() == AS_public ) {
				for( auto s = u->shadow_begin(); s != u->shadow_end(); ++s ) {
					if( UsingShadowDecl *us = dyn_cast<UsingShadowDecl>(*s) ) {
						if( CXXMethodDecl *m''', '''			if( u->getAccess() != AS_private ) {
				for( auto s = u->shadow_begin(); s != u->shadow_end(); ++s ) {
					if( UsingShadowDecl *us = dyn_cast<UsingShadowDecl>(*s) ) {
						if( CXXMethodDecl *m''')],
    needs='a using-declaration for member functions in the protected section of a class',
    breaks='protected members are bound',
    input='''
namespace root {
struct Base { void open(int); protected: void hidden(int); };
struct Derived : public Base { void other(); protected: using Base::hidden; };
struct Shown : public Base { using Base::hidden; };
}
''', check='''
need('root::Shown &o, int const & a0' in cpp, 'a public using-declaration brings the member in')
need('root::Derived &o, int const & a0' not in cpp, 'a protected using-declaration does not')
''')

SEEDS['c09-const-overload'] = dict(property='C09',
    edits=[(K, '''				if( m->getAccess() == mc->getAccess() and !m->isConst() and function_qualified_name(*m, true) == name ) return true;
''', '''				if( m->getAccess() <= mc->getAccess() and !m->isConst() and m->getNameAsString() == mc->getNameAsString() and m->getNumParams() == mc->getNumParams() ) return true;
''')],
    needs='a const and a non-const function of one name and number of parameters but different parameter types',
    breaks='the const function is taken for a const overload and not bound',
    input='namespace root { struct A { void set(int); void set(char) const; void get(int); void get(int) const; }; }\n',
    check='''
need('(void (root::A::*)(char) const) &root::A::set' in cpp, 'set(char) const is bound')
need('(void (root::A::*)(int)) &root::A::get' in cpp, 'the non-const overload is bound')
need('(void (root::A::*)(int) const)' not in cpp, 'the const overload is not')
''')

SEEDS['c10-static-policy'] = dict(property='C10',
    edits=[(F, '''	string maybe_return_policy = "";
	if( m and !m->isStatic() ) {
''', '''	string maybe_return_policy = "";
	if( F->isCXXClassMember() ) {
''')],
    needs='a static member function returning a pointer or reference, and different policies configured for static and member functions',
    breaks='static member functions get the policy of member functions',
    input='namespace root { struct A { static A *make(); A *self(); }; A *global(); }\n',
    config='+namespace root\n+default_static_pointer_return_value_policy pybind11::return_value_policy::take_ownership\n+default_member_pointer_return_value_policy pybind11::return_value_policy::reference_internal\n', args='',
    check='''
l = [x for x in cpp.split('\\n') if '&root::' in x]
need(any('A::make' in x and 'take_ownership' in x for x in l), 'static member: static policy')
need(any('A::self' in x and 'reference_internal' in x for x in l), 'member: member policy')
need(any('root::global' in x and 'take_ownership' in x for x in l), 'free function: static policy')
''')

SEEDS['c10-guard'] = dict(property='C10',
    edits=[(F, 'if( !Config::get().default_call_guard().empty() ) r +=', 'if( !Config::get().default_call_guard().empty() and function[0] != \'[\' ) r +=')],
    needs='a configured call guard and a function with default arguments',
    breaks='the call guard is missing on the arities bound through a lambda',
    input='namespace root { void f(int a, int b = 1); }\n',
    config='+namespace root\n+default_call_guard pybind11::gil_scoped_release\n', args='',
    check='''
l = [x for x in cpp.split('\\n') if '.def("f"' in x]
need(len(l) == 2, 'two arities')
need(all('pybind11::call_guard<pybind11::gil_scoped_release>()' in x for x in l), 'guard on each')
''')

SEEDS['c11-leading'] = dict(property='C11',
    edits=[(U, '''		replace(text, "\\\\", "\\\\\\\\");
		replace(text, "\\"", "\\\\\\"");
''', '''		replace(text, "\\"", "\\\\\\"");
		replace(text, "\\\\", "\\\\\\\\");
''')],
    needs='a documentation comment with a double quote',
    breaks='the quote ends the string literal',
    input='namespace root {\n/// say "hello"\nvoid f(int);\n}\n',
    check='''
need('say \\\\"hello\\\\"' in cpp and 'say \\\\\\\\"hello' not in cpp, 'quotes are escaped once')
''')

SEEDS['c13-protected-base'] = dict(property='C13',
    edits=[(K, '''		if( b->getAccessSpecifier() != AS_private ) {
			if( auto rt = dyn_cast<RecordType>(b->getType().getCanonicalType().getTypePtr()) ) {
				if( CXXRecordDecl *R = cast<CXXRecordDecl>(rt->getDecl()) ) {
					// add_relevant_includes(R, prefix_includes, prefix_includes_stack, 0);
''', '''		if( b->getAccessSpecifier() == AS_public ) {
			if( auto rt = dyn_cast<RecordType>(b->getType().getCanonicalType().getTypePtr()) ) {
				if( CXXRecordDecl *R = cast<CXXRecordDecl>(rt->getDecl()) ) {
					// add_relevant_includes(R, prefix_includes, prefix_includes_stack, 0);
''')],
    needs='a class that inherits a virtual function through a protected base',
    breaks='the trampoline does not override the inherited virtual function',
    input='''
namespace root {
struct Base { virtual ~Base(); virtual void hook(int); };
struct Derived : protected Base { virtual void own(); };
}
''', check='''
i = cpp.index('struct PyCallBack_root_Derived'); t = cpp[i:cpp.index('};\\n\\n', i)]
need('void own()' in t and 'void hook(int a0)' in t, 'both virtual functions are overridden')
''')

SEEDS['c13-key'] = dict(property='C13',
    edits=[(K, '''std::get<0>(args) + (m->isConst() ? ") const" : ")");''', '''std::get<1>(args) + (m->isConst() ? ") const" : ")");''')],
    needs='two overloaded virtual functions with the same number of parameters',
    breaks='only the first of the overloads is overridden in the trampoline',
    input='namespace root { struct A { virtual ~A(); virtual void f(int); virtual void f(double); virtual void f(int, int); }; }\n',
    check='''
i = cpp.index('struct PyCallBack_root_A'); t = cpp[i:cpp.index('};\\n\\n', i)]
for a in ('int a0', 'double a0', 'int a0, int a1'): need('void f(%s) override' % a in t, 'f(%s) is overridden' % a)
''')

SEEDS['c14-private-assign'] = dict(property='C14',
    edits=[(K, 'if( m->isCopyAssignmentOperator() and (m->getAccess() != AS_public or m->isDeleted()) ) return false;', 'if( m->isCopyAssignmentOperator() and (m->getAccess() == AS_private or m->isDeleted()) ) return false;')],
    needs='a data member of a class whose copy assignment is protected',
    breaks='the member is bound read-write although it can not be assigned',
    input='''
namespace root {
struct P { protected: P &operator=(P const &); };
struct Q { int v; };
struct A { P p; Q q; const int c = 1; };
}
''', check='''
need('.def_readonly("p"' in cpp, 'p is read-only')
need('.def_readwrite("q"' in cpp, 'q is read-write')
need('.def_readonly("c"' in cpp, 'c is read-only')
''')

SEEDS['c15-class-key'] = dict(property='C15',
    edits=[(T, '''	static llvm::StringMap<string> cache;
	auto it = cache.find(type);
	if( it != cache.end() ) return it->second;
	else {
		string r = standard_name_raw(type);
		cache.try_emplace(type, r);
		return r;
	}

	// static std::unordered_map<string, string> cache;
	// auto it = cache.find(type);
	// if( it != cache.end() ) return it->second;
	// else {
	// 	string r = standard_name_raw(type);
	// 	cache.emplace(type, r);
''', '''	static llvm::StringMap<string> cache;
	llvm::StringRef key(type);
	key.consume_front("class ");
	auto it = cache.find(key);
	if( it != cache.end() ) return it->second;
	else {
		string r = standard_name_raw(type);
		cache.try_emplace(key, r);
		return r;
	}

	// static std::unordered_map<string, string> cache;
	// auto it = cache.find(type);
	// if( it != cache.end() ) return it->second;
	// else {
	// 	string r = standard_name_raw(type);
	// 	cache.emplace(type, r);
''')],
    needs='a class passed by value by one function, whose name was normalised before',
    breaks='the spelling of a type in a signature depends on which names were normalised earlier',
    input='namespace root { class A { public: int v; }; void f(A); void g(A &); }\n',
    check='''
need('(void (*)(class root::A)) &root::f' in cpp, 'f has its type spelled as by clang')
need('(void (*)(class root::A &)) &root::g' in cpp, 'g has its type spelled as by clang')
''')

SEEDS['c16-shallower'] = dict(property='C16',
    edits=[(B, '''	else {
		if( it->second <= level ) return false;
		else {
			it->second = level;
			//it.value() = level;
''', '''	else {
		if( it->second <= level + 1 ) return false;
		else {
			it->second = level;
			//it.value() = level;
''')],
    needs='a class first met at the depth limit and then again at a smaller depth',
    breaks='the headers of the types its member functions use are not included',
    input='''
#include <a.hpp>
namespace root { struct A { void first(B &); void second(C &); }; }
''',
    files={'a.hpp': '#include <c.hpp>\nnamespace root { struct B { void m(C &); }; }\n', 'c.hpp': '#include <d.hpp>\nnamespace root { struct C { void n(D &); }; }\n', 'd.hpp': 'namespace root { struct D { int v; }; }\n'},
    args="--bind root --max-file-size 1", check='''
t = [text[f] for f in text if 'pybind11::class_<root::A,' in text[f]]
need(len(t) == 1 and '#include <d.hpp>' in t[0], 'the header of D is included for the bindings of A')
''')

SEEDS['c18-holder'] = dict(property='C18',
    edits=[(K, '''		if( d->getAccess() != AS_public ) maybe_holder_type = ", " + qualified_name + '*';
	}
	string maybe_trampoline''', '''		if( d->getAccess() == AS_private ) maybe_holder_type = ", " + qualified_name + '*';
	}
	string maybe_trampoline''')],
    needs='a class with a protected destructor',
    breaks='the class is registered with a holder that deletes it',
    input='namespace root { class A { public: void f(); protected: ~A(); }; class B { public: void f(); }; }\n',
    check='''
need('pybind11::class_<root::A, root::A*' in cpp, 'A has no public destructor: raw pointer')
need('pybind11::class_<root::B, std::shared_ptr<root::B>' in cpp, 'B has the default holder')
''')

SEEDS['c18-module-local'] = dict(property='C18',
    edits=[(K, 'if (Config::get().is_module_local_requested(namespace_from_named_decl(C)))\n		module_local_annotation', 'if (not C->isCXXClassMember() and Config::get().is_module_local_requested(namespace_from_named_decl(C)))\n		module_local_annotation')],
    needs='a nested class in a namespace for which module_local was requested',
    breaks='nested classes are registered globally',
    input='namespace root { struct A { int v; struct Inner { int w; }; }; }\n',
    config='+namespace root\n+module_local_namespace @all_namespaces\n', args='',
    check='''
l = [x for x in cpp.split('\\n') if 'pybind11::class_<root' in x]
need(len(l) == 2 and all('pybind11::module_local()' in x for x in l), 'both classes are module-local')
''')

SEEDS['c19-alias'] = dict(property='C19',
    edits=[(N, '''	for( auto e = E->enumerator_begin(); e != E->enumerator_end(); ++e ) {
''', '''	std::set<int64_t> values;
	for( auto e = E->enumerator_begin(); e != E->enumerator_end(); ++e ) {
		if( E->isScoped() and not values.insert(e->getInitVal().getExtValue()).second ) continue; // Python enum does not allow two names for the same value
'''), (N, '#include <clang/AST/ASTContext.h>\n', '#include <clang/AST/ASTContext.h>\n\n#include <set>\n')],
    needs='a scoped enum with two enumerators of the same value',
    breaks='the second enumerator is not bound',
    input='namespace root { enum class E { a = 1, b = 2, first = 1 }; enum F { x, y = 0 }; }\n',
    check='''
for n in ('E::a', 'E::b', 'E::first', 'x', 'y'): need('root::%s)' % n in cpp, n + ' is bound')
''')

