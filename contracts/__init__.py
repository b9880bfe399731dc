import importlib, os

MODULES = ['config', 'util', 'ast', 'typ', 'fun', 'world', 'enm', 'cls', 'fun2', 'cls2', 'cls3', 'cls4', 'ctx', 'inc', 'gen']
BOUNDED = {'C04': ['ClassVisitor::* and process_options in main.cpp'], 'C16': ['add_relevant_include_for_decl', 'relevant_include'],
           'C17': ['simplify_std_class_name_raw']}       # property -> functions it depends on that only have the bounded stand-in


# functions a property also depends on, beside those its contracts name: re-proved by that property's check too
ALSO = {
    'C01': 'Config::read is_binding_requested is_skipping_requested standard_name standard_name_raw',
    'C03': 'Config::read Config::is_namespace_binding_requested Config::is_namespace_skipping_requested Context::request_bindings Context::bind Binder::is_binded standard_name standard_name_raw FunctionBinder::bind EnumBinder::bind ClassBinder::bind template_specialization is_binding_requested is_skipping_requested simplify_std_class_name',
    'C04': 'Config::is_namespace_binding_requested Config::is_namespace_skipping_requested Config::is_class_skipping_requested Config::is_function_skipping_requested Config::is_enum_skipping_requested Config::is_class_binding_requested Config::is_function_binding_requested Config::is_enum_binding_requested binding_public_data_members is_bindable is_bindable_raw is_banned_symbol is_skipping_requested is_binding_requested',
    'C05': 'namespace_from_named_decl class_qualified_name is_python_builtin Context::request_bindings',
    'C06': 'base_namespace last_namespace namespace_from_named_decl replace replace_ update_source_file ClassBinder::generate_prefix_code Context::bind FunctionBinder::named_decl EnumBinder::id ClassBinder::id function_qualified_name class_qualified_name trim bind_function split',
    'C08': 'bind_default_constructor bind_copy_constructor class_qualified_name standard_name standard_name_raw fix_boolean_types python_function_name',
    'C09': 'Config::is_field_skipping_requested ClassBinder::bind_nested_classes is_skipping_requested bind_data_member is_const_overload is_python_builtin is_banned_symbol python_function_name',
    'C10': 'Config::read FunctionBinder::bind bind_constructor ClassBinder::bind python_function_name',
    'C11': 'ClassBinder::bind_with ClassBinder::bind EnumBinder::bind FunctionBinder::bind',
    'C12': 'bind_function binding_public_member_functions is_bindable is_bindable_raw',
    'C13': 'ClassBinder::bind_with bind_constructor is_skipping_requested is_bindable is_bindable_raw python_function_name standard_name function_qualified_name is_const_overload',
    'C14': 'Config::is_field_skipping_requested is_bindable is_bindable_raw ClassBinder::bind',
    'C15': 'IncludeSet::add_decl IncludeSet::clear add_relevant_includes standard_name_raw is_bindable_raw function_qualified_name class_qualified_name ClassBinder::add_relevant_includes',
    'C16': 'Config::read Context::global_insertion_operator',
    'C18': 'Config::read is_callback_structure_needed is_callback_structure_constructible callback_structure_name ClassBinder::bindable is_bindable is_bindable_raw class_qualified_name python_class_name standard_name class_name mangle_type_name base_default_default_constructor_available',
    'C19': 'class_qualified_name standard_name standard_name_raw is_binding_requested is_skipping_requested EnumBinder::id',
}


def load():
    for m in MODULES: importlib.import_module('contracts.' + m)
    from cxxv.spec import REG
    for p, fs in ALSO.items():
        for f in fs.split():
            cs = [c for c in REG.contracts if c.qname == 'binder::' + f]
            assert cs, f
            for c in cs:
                if p not in c.props: c.props = list(c.props) + [p]
