From 0d0e7c910dd84a2d0cef4e2a98308747a441a860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:13 +0000
Subject: [PATCH 01/16] fix: namespace directives select whole namespaces, not
 names that merely share a prefix

---
 source/config.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/config.cpp b/source/config.cpp
index 4c70aa9..e8c3228 100644
--- a/source/config.cpp
+++ b/source/config.cpp
@@ -256,6 +256,13 @@ void Config::read(string const &file_name)
 }
 
 
+/// check if namespace `name` is ether namespace `ns` itself or one of its descendants (empty `ns` denote root namespace)
+static bool is_namespace_or_descendant(string const &name, string const &ns)
+{
+	return ns.empty() or name == ns or begins_with(name, ns + "::");
+}
+
+
 bool Config::is_namespace_binding_requested(string const &namespace_) const
 {
 	bool to_bind_flag = false, to_skip_flag = false;
@@ -263,7 +270,7 @@ bool Config::is_namespace_binding_requested(string const &namespace_) const
 
 	for( auto &n : namespaces_to_bind ) {
 		if( n.size() == 0 ) to_bind_flag = true;
-		if( begins_with(namespace_, n) ) {
+		if( is_namespace_or_descendant(namespace_, n) ) {
 			if( n.size() > to_bind.size() ) {
 				to_bind = n;
 				to_bind_flag = true;
@@ -272,7 +279,7 @@ bool Config::is_namespace_binding_requested(string const &namespace_) const
 	}
 
 	for( auto &s : namespaces_to_skip ) {
-		if( begins_with(namespace_, s) ) {
+		if( is_namespace_or_descendant(namespace_, s) ) {
 			if( s.size() > to_skip.size() ) {
 				to_skip = s;
 				to_skip_flag = true;
@@ -297,7 +304,7 @@ bool Config::is_namespace_skipping_requested(string const &namespace_) const
 	string to_bind, to_skip;
 
 	for( auto &n : namespaces_to_bind ) {
-		if( begins_with(namespace_, n) ) {
+		if( is_namespace_or_descendant(namespace_, n) ) {
 			if( n.size() > to_bind.size() ) {
 				to_bind = n;
 				to_bind_flag = true;
@@ -306,7 +313,7 @@ bool Config::is_namespace_skipping_requested(string const &namespace_) const
 	}
 
 	for( auto &s : namespaces_to_skip ) {
-		if( begins_with(namespace_, s) ) {
+		if( is_namespace_or_descendant(namespace_, s) ) {
 			if( s.size() > to_skip.size() ) {
 				to_skip = s;
 				to_skip_flag = true;
-- 
2.43.0


From 300f24b1e660d19f30554a8fd9bae7b1b5b8dff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:13 +0000
Subject: [PATCH 02/16] fix: ignore spaces when matching names against enum and
 field directives

---
 source/config.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/source/config.cpp b/source/config.cpp
index e8c3228..0ec754f 100644
--- a/source/config.cpp
+++ b/source/config.cpp
@@ -393,12 +393,18 @@ bool Config::is_class_skipping_requested(string const &class__) const
 
 bool Config::is_field_skipping_requested(string const &field_) const
 {
-	return std::find(fields_to_skip.begin(), fields_to_skip.end(), field_) != fields_to_skip.end();
+	string field{field_};
+	field.erase(std::remove(field.begin(), field.end(), ' '), field.end());
+
+	return std::find(fields_to_skip.begin(), fields_to_skip.end(), field) != fields_to_skip.end();
 }
 
 
-bool Config::is_enum_binding_requested(string const &enum_) const
+bool Config::is_enum_binding_requested(string const &enum__) const
 {
+	string enum_{enum__};
+	enum_.erase(std::remove(enum_.begin(), enum_.end(), ' '), enum_.end());
+
 	auto bind = std::find(enums_to_bind.begin(), enums_to_bind.end(), enum_);
 
 	if( bind != enums_to_bind.end() ) return true;
@@ -407,8 +413,11 @@ bool Config::is_enum_binding_requested(string const &enum_) const
 }
 
 
-bool Config::is_enum_skipping_requested(string const &enum_) const
+bool Config::is_enum_skipping_requested(string const &enum__) const
 {
+	string enum_{enum__};
+	enum_.erase(std::remove(enum_.begin(), enum_.end(), ' '), enum_.end());
+
 	auto bind = std::find(enums_to_skip.begin(), enums_to_skip.end(), enum_);
 
 	if( bind != enums_to_skip.end() ) return true;
-- 
2.43.0


From ec646085ff9f8c2b9601709d5f0eaffdb3f49195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:34 +0000
Subject: [PATCH 03/16] fix: only replace the whole word _Bool when normalising
 boolean type names

---
 source/util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/util.cpp b/source/util.cpp
index 2b425a5..64ca5fb 100644
--- a/source/util.cpp
+++ b/source/util.cpp
@@ -198,9 +198,10 @@ string last_namespace(string const &ns)
 void fix_boolean_types(string &type)
 {
 	static string const B("_Bool");
+	auto is_identifier_char = [](char c) { return std::isalpha(c) or std::isdigit(c) or c == '_'; };
 	size_t i = 0;
 	while( (i = type.find(B, i)) != string::npos ) {
-		if( (i == 0 or (!std::isalpha(type[i - 1]) and !std::isdigit(type[i - 1]))) and (i + B.size() == type.size() or (!std::isalpha(type[i + B.size()]) and !std::isdigit(type[i + B.size()]))) )
+		if( (i == 0 or !is_identifier_char(type[i - 1])) and (i + B.size() == type.size() or !is_identifier_char(type[i + B.size()])) )
 			type.replace(i, B.size(), "bool");
 		++i;
 	}
-- 
2.43.0


From ae91e3a6c7d5fc372e8d1ce0737b24d9adc8eb32 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:22:55 +0000
Subject: [PATCH 04/16] fix: close the template argument list of a class
 specialised with an empty pack

---
 source/class.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index 2963d6d..3a95aeb 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -59,7 +59,8 @@ string template_specialization(clang::CXXRecordDecl const *C)
 			// if( t->getTemplateArgs()[i].ArgKind() == TemplateArgument::ArgKind::Integral ) outs() << " template arg:" << t->getTemplateArgs()[i].<< "\n";
 			// outs() << expresion_to_string( t->getTemplateArgs()[i].getAsExpr() ) << "\n";
 		}
-		templ.back() = '>';
+		if( templ.size() > 1 ) templ.back() = '>'; // replacing trailing comma
+		else templ += '>';						   // no arguments at all, for example an empty parameter pack
 	}
 
 	fix_boolean_types(templ);
-- 
2.43.0


From 6c9dedc70d4b86bbcbf251120e233ef7b55568f2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:22:55 +0000
Subject: [PATCH 05/16] fix: look through typedefs and other sugar when
 deciding whether a data member is assignable

---
 source/class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index 3a95aeb..40d1b69 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -125,7 +125,7 @@ bool is_inherited_from_enable_shared_from_this(CXXRecordDecl const *C)
 
 bool is_field_assignable(FieldDecl const *f)
 {
-	if( RecordType const *r = dyn_cast<RecordType>(f->getType()) ) {
+	if( RecordType const *r = dyn_cast<RecordType>(f->getType().getCanonicalType()) ) {
 		if( CXXRecordDecl *C = cast<CXXRecordDecl>(r->getDecl()) ) { // checking if this type has deleted operator=
 			for( auto m = C->method_begin(); m != C->method_end(); ++m ) {
 				// if( m->getAccess() == AS_public  and  m->isCopyAssignmentOperator()  /*and  !m->doesThisDeclarationHaveABody()*/ and  m->isDeleted() ) return false;
-- 
2.43.0


From f14534051393b4a4fe517ac2fdd144ea8360658e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:22:55 +0000
Subject: [PATCH 06/16] fix: trampolines keep the exception specification of
 the function they override

---
 source/class.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 40d1b69..a58a997 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -762,10 +762,9 @@ string bind_member_functions_for_call_back(CXXRecordDecl const *C, string const
 
 				string exception_specification;
 				if( FunctionProtoType const *fpt = dyn_cast<FunctionProtoType>(m->getType().getTypePtr()) ) {
-					if( fpt->getExceptionSpecType() & clang::ExceptionSpecificationType::EST_BasicNoexcept ) exception_specification = "noexcept ";
-					if( fpt->getExceptionSpecType() &
-						(clang::ExceptionSpecificationType::EST_DynamicNone | clang::ExceptionSpecificationType::EST_Dynamic | clang::ExceptionSpecificationType::EST_MSAny) )
-						exception_specification = "throw() ";
+					auto const est = fpt->getExceptionSpecType(); // note: enumerators are not bit-flags
+					if( est == EST_BasicNoexcept or est == EST_NoexceptTrue ) exception_specification = "noexcept ";
+					else if( est != EST_None and est != EST_NoexceptFalse ) exception_specification = "throw() ";
 				}
 
 				c += "\t{} {}({}){} {}override {{"_format(return_type, m->getNameAsString(), std::get<0>(args), m->isConst() ? " const" : "", exception_specification);
-- 
2.43.0


From 5ed34f01326d2777b8ed8b7790d0929c0ed8f786 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:22:55 +0000
Subject: [PATCH 07/16] fix: honour -class directives that name a nested class

---
 source/class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index a58a997..8917fba 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1220,7 +1220,7 @@ string ClassBinder::bind_nested_classes(Context &context)
 			// innerC seems to be a forward declaration
 			innerC = innerC->getDefinition();
 		}
-		if( is_bindable(innerC) ) {
+		if( is_bindable(innerC) and !Config::get().is_class_skipping_requested(class_qualified_name(innerC)) ) {
 			// c += "\t// Binding " + C->getNameAsString() + ";\n";
 			ClassBinder b(innerC);
 			b.bind(context);
-- 
2.43.0


From 2c7ee6897df9a8a6a5c370d77a466dc0fc99754a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:33:50 +0000
Subject: [PATCH 08/16] fix: request bindings for the parameter types of
 variadic constructors

---
 source/class.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index 8917fba..deb50ae 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1057,7 +1057,11 @@ string bind_constructor(ConstructorBindingInfo const &CBI, uint args_to_bind, bo
 
 		string args_helper;
 
-		for( uint i = 0; i < CBI.T->getNumParams() and i < args_to_bind; ++i ) { args_helper += ", pybind11::arg(\"{}\")"_format(string(CBI.T->getParamDecl(i)->getName())); }
+		for( uint i = 0; i < CBI.T->getNumParams() and i < args_to_bind; ++i ) {
+			args_helper += ", pybind11::arg(\"{}\")"_format(string(CBI.T->getParamDecl(i)->getName()));
+
+			if( request_bindings_f ) request_bindings(CBI.T->getParamDecl(i)->getOriginalType(), CBI.context);
+		}
 
 		// if( CBI.T->isVariadic() ) c += fmt::format(constructor_lambda_template, params, args.second, constructor_types.first, constructor_types.second);
 		// else if( constructor_types.first.size()  and  constructor_types.second.size() ) c += fmt::format(constructor_lambda_template, params, args.second, constructor_types.first,
-- 
2.43.0


From 6dd5e30cb633c898e836caf34e7f9aec7572fb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:56 +0000
Subject: [PATCH 09/16] fix: include the headers that the bindings of nested
 classes need

---
 source/class.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/class.cpp b/source/class.cpp
index deb50ae..5e8cadc 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1231,6 +1231,7 @@ string ClassBinder::bind_nested_classes(Context &context)
 			c += b.code();
 			c += '\n';
 			prefix_code_ += b.prefix_code();
+			prefix_includes_.insert(prefix_includes_.end(), b.prefix_includes_.begin(), b.prefix_includes_.end());
 		}
 	});
 
-- 
2.43.0


From 41f91a79a50419d55047608f1bdc4202d2ace8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:42 +0000
Subject: [PATCH 10/16] fix: register the bases of nested classes, and nested
 classes that are bases, before the classes that need them

---
 source/class.cpp   |  1 +
 source/context.cpp | 22 +++++++++++++++++++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index 5e8cadc..efded9c 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -1232,6 +1232,7 @@ string ClassBinder::bind_nested_classes(Context &context)
 			c += '\n';
 			prefix_code_ += b.prefix_code();
 			prefix_includes_.insert(prefix_includes_.end(), b.prefix_includes_.begin(), b.prefix_includes_.end());
+			dependencies_.insert(dependencies_.end(), b.dependencies_.begin(), b.dependencies_.end());
 		}
 	});
 
diff --git a/source/context.cpp b/source/context.cpp
index 901750a..4107654 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -69,6 +69,13 @@ string file_name_prefix_for_binder(BinderOP &b)
 	return include;
 }
 
+/// return the outermost class that contains given class, or class itself if it is not nested
+CXXRecordDecl const *outermost_class(CXXRecordDecl const *C)
+{
+	while( CXXRecordDecl const *outer = dyn_cast<CXXRecordDecl>(C->getDeclContext()) ) C = outer;
+	return C;
+}
+
 // generate code for include directives and cleanup the includes vector
 string generate_include_directives(IncludeSet const &include_set)
 {
@@ -284,6 +291,7 @@ void Context::sort_binders()
 
 	bool repeat = true;
 	std::set<string> forward;
+	std::ptrdiff_t sorted = 0, moved = 0; // number of binders known to be in place, and number of times the one right after them was replaced
 
 	while( repeat ) {
 		repeat = false;
@@ -291,8 +299,9 @@ void Context::sort_binders()
 		for( auto b = binders.begin(); b != binders.end(); ++b ) {
 			if( CXXRecordDecl const *C = dyn_cast<CXXRecordDecl const >((*b)->named_decl()) ) { // right not only query dependency if we dealing with class
 				std::vector<CXXRecordDecl const *> const dependencies = (*b)->dependencies();
-				for( auto &c : dependencies ) {
-					if( !is_forward_needed(c) ) continue;
+				for( auto &d : dependencies ) {
+					CXXRecordDecl const *c = outermost_class(d); // nested classes are registered together with the class that contains them
+					if( c == C or !is_forward_needed(c) ) continue;
 					// outs() << "Pushing forward binding for " << class_qualified_name(c) << "...\n";
 					auto e = find_if(b, binders.end(), [&c](BinderOP const &p) -> bool { return dyn_cast<CXXRecordDecl const >(p->named_decl()) == c; });
 					if( e == binders.end() ) {
@@ -313,7 +322,14 @@ void Context::sort_binders()
 						repeat = true;
 					}
 				}
-				if( repeat ) break;
+				if( repeat ) {
+					if( b - binders.begin() > sorted ) sorted = b - binders.begin(), moved = 0;
+					if( ++moved > binders.end() - b ) { // every binder was tried in this place: only possible if classes nested in each other's scope are bases of one another
+						errs() << "ERROR: Could not find an order of registration for class " + class_qualified_name(C) + " and the base classes of classes nested in it!\n";
+						std::exit(1);
+					}
+					break;
+				}
 				add_to_binded(C);
 			}
 		}
-- 
2.43.0


From dbab66d50e305ac9baecdac3629b0e88f02c5b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:24 +0000
Subject: [PATCH 11/16] fix: never give two groups of bindings, or bindings and
 the root module, the same name

---
 source/context.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/context.cpp b/source/context.cpp
index 4107654..20a0b5f 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -21,6 +21,7 @@
 
 #include <clang/AST/ASTContext.h>
 
+#include <algorithm>
 #include <cstdlib>
 #include <fstream>
 #include <set>
@@ -374,6 +375,10 @@ void Context::generate(Config const &config)
 		++file_names[np];
 
 		string function_name = "bind_" + replace_(file_name, "/", "_");
+		while( file_name == config.root_module or std::find(binding_function_names.begin(), binding_function_names.end(), function_name) != binding_function_names.end() ) {
+			file_name = np + (O_flat ? "" : "_") + std::to_string(file_names[np]++); // name is taken by the root module or by bindings for a different header
+			function_name = "bind_" + replace_(file_name, "/", "_");
+		}
 		file_name += ".cpp";
 
 		sources.push_back(file_name);
-- 
2.43.0


From f9f2870a47ba49397589f6c7d8e7fb5506b978be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:32 +0000
Subject: [PATCH 12/16] fix: --max-file-size 0 puts at least one binding in
 each file instead of never making progress

---
 source/context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/context.cpp b/source/context.cpp
index 20a0b5f..2e49b86 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -413,7 +413,7 @@ void Context::generate(Config const &config)
 			if( namespace_entrance[namespace_] == 0 ) code += "\n\t{}(M(\"{}\"));\n"_format(add_on_binder_for_namespaces.at(namespace_), namespace_);
 		}
 
-		for( ; code.size() < config.maximum_file_length and i < binders.size() and namespace_ == namespace_from_named_decl(binders[i]->named_decl()); ++i ) {
+		for( ; ( code.empty() or code.size() < config.maximum_file_length ) and i < binders.size() and namespace_ == namespace_from_named_decl(binders[i]->named_decl()); ++i ) {
 			// outs() << "Binding: " << string(*binders[i]) << "\n";
 			//  if( ClassBinder * CB = dynamic_cast<ClassBinder*>( binders[i].get() ) ) {
 			//  	std::vector<clang::CXXRecordDecl const *> const dependencies = CB->dependencies();
-- 
2.43.0


From 47a40065cee942d612cb6c22faf22869f074226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:45 +0000
Subject: [PATCH 13/16] fix: do not bind bit-fields, generated code can not
 take their address

---
 source/class.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/class.cpp b/source/class.cpp
index efded9c..bef0b26 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -146,6 +146,8 @@ bool is_bindable(FieldDecl *f)
 
 	if( f->isAnonymousStructOrUnion() ) return false;
 
+	if( f->isBitField() ) return false; // there is no pointer-to-member for a bit-field
+
 	if( !is_bindable(f->getType()) ) return false;
 
 	return true;
-- 
2.43.0


From 5047741961b4e817f759c1e6a4899235b124e93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:39 +0000
Subject: [PATCH 14/16] fix: data members of classes whose implicit copy
 assignment is deleted are read-only

---
 source/class.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/source/class.cpp b/source/class.cpp
index bef0b26..b24e9d3 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -19,6 +19,7 @@
 
 #include <fmt/format.h>
 
+#include <clang/AST/ASTContext.h>
 #include <clang/AST/DeclTemplate.h>
 //#include <clang/AST/TemplateBase.h>
 
@@ -123,20 +124,34 @@ bool is_inherited_from_enable_shared_from_this(CXXRecordDecl const *C)
 }
 
 
-bool is_field_assignable(FieldDecl const *f)
+bool is_assignable(QualType const &qt)
 {
-	if( RecordType const *r = dyn_cast<RecordType>(f->getType().getCanonicalType()) ) {
+	if( RecordType const *r = dyn_cast<RecordType>(qt.getCanonicalType()) ) {
 		if( CXXRecordDecl *C = cast<CXXRecordDecl>(r->getDecl()) ) { // checking if this type has deleted operator=
 			for( auto m = C->method_begin(); m != C->method_end(); ++m ) {
 				// if( m->getAccess() == AS_public  and  m->isCopyAssignmentOperator()  /*and  !m->doesThisDeclarationHaveABody()*/ and  m->isDeleted() ) return false;
 				if( m->isCopyAssignmentOperator() and (m->getAccess() != AS_public or m->isDeleted()) ) return false;
 			}
+			if( C->needsImplicitCopyAssignment() ) { // operator= that is not declared yet will be deleted if some of bases or data members are not assignable
+				for( auto b = C->bases_begin(); b != C->bases_end(); ++b ) {
+					if( !is_assignable(b->getType()) ) return false;
+				}
+				for( auto m = C->field_begin(); m != C->field_end(); ++m ) {
+					QualType t = C->getASTContext().getBaseElementType(m->getType());
+					if( t->isReferenceType() or t.isConstQualified() or !is_assignable(t) ) return false;
+				}
+			}
 		}
 	}
 
 	return true;
 }
 
+bool is_field_assignable(FieldDecl const *f)
+{
+	return is_assignable(f->getType());
+}
+
 /// check if generator can create binding
 bool is_bindable(FieldDecl *f)
 {
-- 
2.43.0


From fe0eeac3da30a31b3080e010f84e3d438ae3dba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:18 +0000
Subject: [PATCH 15/16] fix: bind the implicit default constructor when a base
 class has a default constructor of its own

---
 source/class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/class.cpp b/source/class.cpp
index b24e9d3..387d72f 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -516,7 +516,7 @@ bool base_default_default_constructor_available(CXXRecordDecl const *C)
 					}
 				}
 
-				if( !base_default_default_constructor_available(R) ) return false;
+				if( R->needsImplicitDefaultConstructor() and !base_default_default_constructor_available(R) ) return false;
 			}
 		}
 	}
-- 
2.43.0


From 5473933de9b39d61ab6deca684b0c9a3bd65aa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:20 +0000
Subject: [PATCH 16/16] fix: do not bind an implicit default constructor that
 data members delete

---
 source/class.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/source/class.cpp b/source/class.cpp
index 387d72f..c597a28 100644
--- a/source/class.cpp
+++ b/source/class.cpp
@@ -521,6 +521,22 @@ bool base_default_default_constructor_available(CXXRecordDecl const *C)
 		}
 	}
 
+	for( auto f = C->field_begin(); f != C->field_end() and !C->isUnion(); ++f ) { // data members that can not be default initialized delete implicit default constructor as well
+		if( f->hasInClassInitializer() ) continue;
+
+		QualType t = C->getASTContext().getBaseElementType(f->getType());
+		if( t->isReferenceType() ) return false;
+
+		if( CXXRecordDecl *R = t->getAsCXXRecordDecl() ) {
+			if( !R->hasDefaultConstructor() ) return false;
+			for( auto c = R->ctor_begin(); c != R->ctor_end(); ++c ) {
+				if( c->isDefaultConstructor() and c->isDeleted() ) return false;
+			}
+			if( R->needsImplicitDefaultConstructor() and !base_default_default_constructor_available(R) ) return false;
+		}
+		else if( t.isConstQualified() ) return false;
+	}
+
 	return true;
 }
 
-- 
2.43.0

