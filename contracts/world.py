"""State shared by the binders: which binders exist for which type names, what has been requested, skipped, generated."""
from .ast import *
from .fun import named_in, ns_bind, ns_skip
from . import typ

HBs = z3.ArraySort(Ref, BOOL)
HSs = z3.ArraySort(Ref, STR)
TYM = ('map', TSTR, TREF)
TYs = pair_sort_map(TSTR, TREF)
NAMED = acc('named_decl', Ref)                 # the declaration a binder was made for
ID = acc('binder_id', STR)
BIND_B = acc('binder_bindable', BOOL)          # of the binder and its own skipping flag

BUILTINS = """std::basic_string std::initializer_list std::__1::basic_string std::allocator std::__allocator_destructor std::shared_ptr std::enable_shared_from_this
std::__shared_ptr std::unique_ptr std::pair std::tuple std::_Rb_tree_iterator std::_Rb_tree_const_iterator __gnu_cxx::__normal_iterator
std::_List_iterator std::_List_const_iterator std::__list_node std::__wrap_iter std::less std::__value_type std::__detail::_Hash_node_base
std::__detail::_Hash_node std::__detail::_Node_iterator std::__detail::_Node_iterator_base std::__detail::_Node_const_iterator std::__hash_value_type
std::function std::complex pybind11::handle pybind11::object pybind11::module_ pybind11::iterator pybind11::type pybind11::iterable pybind11::str
pybind11::bytes pybind11::bytesarray pybind11::none pybind11::ellipsis pybind11::bool_ pybind11::int_ pybind11::float_ pybind11::weakref
pybind11::slice pybind11::capsule pybind11::tuple pybind11::args pybind11::dict pybind11::kwargs pybind11::sequence pybind11::list pybind11::anyset
pybind11::frozenset pybind11::set pybind11::function pybind11::cpp_function pybind11::staticmethod pybind11::buffer pybind11::memoryview
pybind11::array pybind11::array_t""".split()
STL_BUILTINS = """std::vector std::deque std::list std::array std::valarray std::set std::unordered_set std::map std::unordered_map std::experimental::optional
std::optional std::variant""".split()
SETS = ('set', TSTR)


def builtin(d):
    q = STD(qname(d))
    yes = z3.Or([q == S(b) for b in BUILTINS] + [q == CFG('holder_type_', TSTR), z3.Select(CFG('python_builtins', SETS), q)])
    stl = z3.And(pack(named(TBOOL, 'O_include_pybind11_stl')), z3.Or([q == S(b) for b in STL_BUILTINS]))
    return z3.And(z3.Not(z3.Select(CFG('not_python_builtins', SETS), q)), z3.Or(yes, stl))


BUILTIN = SpecFun('python_builtin', [Ref], BOOL, builtin)


class World:
    def __init__(self, k):
        self.HB, self.HC, self.HS, self.TY = k.heap('binding_requested_', TBOOL), k.heap('code_', TSTR), k.heap('skipping_requested_', TBOOL), k.ctx('types')

    def rest(self): return self.HC, self.HS, self.TY
    def req(self, f, *a): return f(self.HB, *self.rest(), *a)


WS = [HBs, HSs, HBs, TYs[0]]


def is_binded(HC, b): return z3.Or(z3.Length(z3.Select(HC, b)) != 0, BUILTIN(NAMED(b)))


def wanted(HC, HS, b): return z3.And(z3.Not(is_binded(HC, b)), BIND_B(b, z3.Select(HS, b)), z3.Not(z3.Select(HS, b)))


def req_n(HB, HC, HS, TY, s):
    b = z3.Select(TYs[3](TY), s)
    return z3.If(z3.And(z3.Select(TYs[2](TY), s), wanted(HC, HS, b)), z3.Store(HB, b, True), HB)


REQ_N = SpecFun('requested_by_name', WS + [STR], HBs, req_n)


def req_t(HB, HC, HS, TY, q):
    t = tagdecl(q)
    h1 = z3.If(z3.And(nn(t), z3.Or(B('isCompleteDefinition')(t), isa('ClassTemplateSpecializationDecl', t))), REQ_N(HB, HC, HS, TY, TYPENAME(t)), HB)
    h2 = z3.If(isa('PointerType', q), REQ_T(h1, HC, HS, TY, pointee(q)), h1)
    h3 = z3.If(isa('ReferenceType', q), REQ_T(h2, HC, HS, TY, pointee(q)), h2)
    return z3.If(SREQ_T(q), HB, h3)


REQ_T = SpecFun('requested_by_type', WS + [Ref], HBs, req_t)


@contract('is_python_builtin', props=['C04'])
def _(k):
    k.result(BUILTIN(k[0])); k.reveal(BUILTIN)


@contract('Binder::named_decl', ret=TREF, trusted='accessor of the binder subclasses: the declaration it was constructed with (proved for each subclass in its own terms)')
def _(k): k.result(NAMED(k.this))


@contract('Binder::id', ret=TSTR, trusted='virtual; the overrides are under contract')
def _(k): k.result(ID(k.this))


@contract('Binder::bindable', ret=TBOOL, trusted='virtual; the overrides are proved to be functions of the declaration and of the skipping flag')
def _(k): k.result(BIND_B(k.this, z3.Select(k.heap('skipping_requested_', TBOOL), k.this)))


@contract('Binder::is_binded', props=['C04'])
def _(k): k.result(is_binded(k.heap('code_', TSTR), k.this))


@contract('Context::request_bindings', props=['C04'])
def _(k):
    w = World(k)
    k.set_heap('binding_requested_', TBOOL, w.req(REQ_N, k[0])); k.reveal(REQ_N)


@contract('request_bindings', sig='QualType', props=['C04'], raises_unspecified=True)
def _(k):
    w = World(k)
    k.set_heap('binding_requested_', TBOOL, w.req(REQ_T, k[0])); k.reveal(REQ_T)
