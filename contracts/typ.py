"""Contracts of source/type.cpp."""
from .ast import *
from .config import listed
from . import util


@contract('is_binding_requested', sig='QualType', props=['C04'], raises_unspecified=True)
def _(k):
    k.result(BREQ_T(k[0])); k.reveal(BREQ_T)


@contract('is_skipping_requested', sig='QualType', props=['C04'], raises_unspecified=True)
def _(k):
    k.result(SREQ_T(k[0])); k.reveal(SREQ_T)


@contract('is_function_type', props=['C08'])
def _(k):
    k.result(ISFUN(k[0])); k.reveal(ISFUN)


@contract('standard_name', sig='QualType', name='standard_name(QualType)', props=['C17'])
def _(k):
    k.result(STDQ(k[0])); k.reveal(STDQ)


@contract('standard_name_raw', props=['C17'])
def _(k):
    k.result(STD_RAW(k[0])); k.reveal(STD_RAW)


@contract('standard_name', sig='!QualType', name='standard_name(string)', props=['C17', 'C15'], memo=lambda k, key: STD_RAW(key))
def _(k):
    k.result(STD(k[0])); k.reveal(STD)


@contract('simplify_std_class_name', props=['C15', 'C17'], memo=lambda k, key: SIMPLIFY(key))
def _(k): k.result(SIMPLIFY(k[0]))


@contract('simplify_std_class_name_raw', props=['C17'], trusted='a fixed table and llvm::Regex substitutions; deterministic')
def _(k): k.result(SIMPLIFY(k[0]))


@contract('is_banned_symbol', props=['C04'])
def _(k):
    k.result(BANNED(k[0])); k.reveal(BANNED)


@contract('is_bindable', sig='QualType', props=['C09'])
def _(k):
    k.result(BINDABLE_T(k[0])); k.reveal(BINDABLE_T)


@contract('namespace_from_named_decl', props=['C17', 'C01'])
def _(k):
    k.assume(z3.And(z3.Length(uname(k[0])) <= z3.Length(STD(qname(k[0]))), z3.Length(STD(qname(k[0]))) < 2 ** 31), 'the qualified name of a declaration is at least as long as its own name and shorter than 2^31')
    k.result(NSOF(k[0])); k.reveal(NSOF)


@contract('typename_from_type_decl', props=['C17', 'C04'])
def _(k):
    k.result(TYPENAME(k[0])); k.reveal(TYPENAME)


@contract('line_number', props=['C11'])
def _(k):
    k.result(LINE(k[0])); k.reveal(LINE)


@contract('relevant_include', props=['C16'], trusted='reads the characters of the #include directive through a raw pointer')
def _(k): k.result(INCLUDE_OF(k[0]))


@contract('generate_comment_for_declaration', props=['C11'])
def _(k):
    k.result(COMMENT(k[0])); k.reveal(COMMENT)


# ------------------------------------------------------------------ documentation strings
def line_at(sm, loc): return A('getSpellingLineNumber', INT, sm, loc)
def n_child(c): return A('len_children', INT, c)
def child(c, i): return A('at_children', Ref, c, i)
def begin_loc(c): return A('getBeginLoc', Ref, c)


T3 = [Ref, Ref, Ref]
PREV = Fold('comment_position', T3, Ref, lambda c, sm, p: p, lambda c, sm, p, i, a: z3.If(line_at(sm, a) != line_at(sm, begin_loc(child(c, i))), begin_loc(child(c, i)), a))
TXT = Fold('comment_children', T3, STR, lambda c, sm, p: z3.If(isa('ParagraphComment', c), S('\n'), S('')),
           lambda c, sm, p, i, a: cat(a, z3.If(line_at(sm, PREV(c, sm, p, i)) != line_at(sm, begin_loc(child(c, i))), S('\n'), S('')), TEXT(child(c, i), sm, PREV(c, sm, p, i + 1))))
TEXT = SpecFun('comment_text', T3, STR, lambda c, sm, p: z3.If(isa('TextComment', c), A('getText', STR, c), TXT(c, sm, p, n_child(c))))


@contract('get_text', props=['C11'])
def _(k):
    k.result(TEXT(k[0], k[1], k[2])); k.reveal(TEXT)
    k.hint(PREV(k[0], k[1], k[2], n_child(k[0])), TXT(k[0], k[1], k[2], n_child(k[0])))


def blank(s, i): return z3.Or(charat(s, i) == S(' '), charat(s, i) == S('\n'))


INK = Exists('some_visible_character', [STR], lambda s, i: z3.Not(blank(s, i)))
LEAD = Least('leading_blanks', [STR], INK, z3.Length, lambda s, i: z3.Not(blank(s, i)))


def escaped(s):
    s = z3.SubString(s, LEAD(s), z3.Length(s) - LEAD(s))
    return REPL(REPL(REPL(s, S('\\'), S('\\\\')), S('"'), S('\\"')), S('\n'), S('\\n'))


def doc(d):
    c = A('getLocalCommentForDeclUncached', Ref, astctx(d), d)
    return z3.If(nn(c), escaped(TEXT(c, srcman(astctx(d)), z3.Const('default_SourceLocation', Ref))), S(''))


DOC.define = doc


@contract('generate_documentation_string_for_declaration', props=['C11'])
def _(k):
    k.result(DOC(k[0])); k.reveal(DOC)
    t = TEXT(A('getLocalCommentForDeclUncached', Ref, astctx(k[0]), k[0]), srcman(astctx(k[0])), z3.Const('default_SourceLocation', Ref))
    k.hint(INK(t, z3.Length(t)), LEAD(t))
