"""What every kind of syntax node owns and refers to.

Per kind a list of cases; a case is (assumptions, fields).  A field is
"path:class" with class
  E e E*   expression / by id / list        A a A*  statement / by id / list
  D d D*   declaration / by id / list       T t T*  type / by id / list
  I        constant initializer             P       designator path
  G*       attribute list                   X*      inline assembly operands
  rD rd ra reference to a declaration/statement that may be inside the copied code
  -        known, neither owned nor a reference to code
Assumptions are "path=value" (an enumerator or a number).
Written from the node definitions and the parser, independently of the code
that walks the nodes."""

INNER = [("", "inner_expr:E")]
RANGE_DYN = "{0}.range_type=RANGE_DYNAMIC"


def rng(p, pre):
    return [("%s.range_type=RANGE_DYNAMIC" % p, pre + " %s.start:e %s.end:e" % (p, p)),
            ("%s.range_type=RANGE_DYNAMIC %s.end=0" % (p, p), pre + " %s.start:e" % p),
            ("%s.range_type=RANGE_CONST_END" % p, pre + " %s.start:e" % p),
            ("%s.range_type=RANGE_CONST_LEN" % p, pre + " %s.start:e" % p),
            ("%s.range_type=RANGE_CONST_RANGE" % p, pre)]


EXPR = {
    "EXPR_ACCESS_RESOLVED": [("", "access_resolved_expr.parent:E access_resolved_expr.ref:rD")],
    "EXPR_BITACCESS": [("", "access_resolved_expr.parent:E access_resolved_expr.ref:rD")],
    "EXPR_ACCESS_UNRESOLVED": [("", "access_unresolved_expr.parent:E access_unresolved_expr.child:E")],
    "EXPR_ASM": [("expr_asm_arg.kind=ASM_ARG_VALUE", "expr_asm_arg.expr_id:e"),
                 ("expr_asm_arg.kind=ASM_ARG_ADDR", "expr_asm_arg.base:e expr_asm_arg.idx:e"),
                 ("expr_asm_arg.kind=ASM_ARG_ADDR expr_asm_arg.idx=0", "expr_asm_arg.base:e"),
                 ("expr_asm_arg.kind=ASM_ARG_REGVAR resolve_status=RESOLVE_DONE", "expr_asm_arg.ident.ident_decl:rD"),
                 ("expr_asm_arg.kind=ASM_ARG_MEMVAR resolve_status=RESOLVE_DONE", "expr_asm_arg.ident.ident_decl:rD"),
                 ("expr_asm_arg.kind=ASM_ARG_INT", "")],
    "EXPR_BINARY": [("", "binary_expr.left:e binary_expr.right:e")],
    "EXPR_BITASSIGN": [("", "binary_expr.left:e binary_expr.right:e")],
    "EXPR_BUILTIN_ACCESS": [("", "builtin_access_expr.inner:e")],
    "EXPR_CALL": [("resolve_status=RESOLVE_DONE call_expr.is_func_ref=1 call_expr.va_is_splat=0", "call_expr.func_ref:rd call_expr.function_contracts:a call_expr.arguments:E* call_expr.varargs:E*"),
                  ("resolve_status=RESOLVE_DONE call_expr.is_func_ref=1 call_expr.va_is_splat=1", "call_expr.func_ref:rd call_expr.function_contracts:a call_expr.arguments:E* call_expr.vasplat:E"),
                  ("resolve_status=RESOLVE_DONE call_expr.is_func_ref=0 call_expr.va_is_splat=0 call_expr.function_contracts=0", "call_expr.function:e call_expr.arguments:E* call_expr.varargs:E*"),
                  ("resolve_status=RESOLVE_NOT_DONE call_expr.is_func_ref=0 call_expr.va_is_splat=0 call_expr.varargs=0", "call_expr.function:e call_expr.macro_body:e call_expr.arguments:E*")],
    "EXPR_CAST": [("", "cast_expr.expr:e cast_expr.type_info:t")],
    "EXPR_CATCH_UNRESOLVED": [("", "unresolved_catch_expr.type:T unresolved_catch_expr.variable:E unresolved_catch_expr.exprs:E*")],
    "EXPR_CATCH": [("", "catch_expr.decl:D catch_expr.exprs:E*")],
    "EXPR_COMPOUND_LITERAL": [("", "expr_compound_literal.initializer:E expr_compound_literal.type_info:T")],
    "EXPR_COND": [("", "cond_expr:E*")],
    "EXPR_CONST": [("const_expr.const_kind=CONST_REF", "const_expr.global_ref:rD"),
                   ("const_expr.const_kind=CONST_FAULT", "const_expr.fault:rD"),
                   ("const_expr.const_kind=CONST_ENUM", "const_expr.enum_val:rD"),
                   ("const_expr.const_kind=CONST_MEMBER", "const_expr.member.decl:rD"),
                   ("const_expr.const_kind=CONST_SLICE", "const_expr.slice_init:I"),
                   ("const_expr.const_kind=CONST_INITIALIZER", "const_expr.initializer:I"),
                   ("const_expr.const_kind=CONST_UNTYPED_LIST", "const_expr.untyped_list:E*"),
                   ("const_expr.const_kind=CONST_INTEGER", ""), ("const_expr.const_kind=CONST_FLOAT", ""), ("const_expr.const_kind=CONST_BOOL", ""),
                   ("const_expr.const_kind=CONST_STRING", ""), ("const_expr.const_kind=CONST_BYTES", ""), ("const_expr.const_kind=CONST_POINTER", ""),
                   ("const_expr.const_kind=CONST_TYPEID", "")],
    "EXPR_CT_ARG": [("", "ct_arg_expr.arg:e")],
    "EXPR_CT_CALL": [("", "ct_call_expr.main_var:E ct_call_expr.flat_path:P")],
    "EXPR_CT_CASTABLE": [("", "castable_expr.expr:e castable_expr.type:t")],
    "EXPR_CT_DEFINED": [("", "expression_list:E*")],
    "EXPR_CT_EVAL": INNER, "EXPR_CT_IS_CONST": INNER, "EXPR_STRINGIFY": INNER, "EXPR_SPLAT": INNER,
    "EXPR_DECL": [("", "decl_expr:D")],
    "EXPR_DEFAULT_ARG": [("", "default_arg_expr.inner:E")],
    "EXPR_DESIGNATED_INITIALIZER_LIST": [("", "designated_init_list:E*")],
    "EXPR_INITIALIZER_LIST": [("", "initializer_list:E*")],
    "EXPR_EXPRESSION_LIST": [("", "expression_list:E*")],
    "EXPR_DESIGNATOR": [("", "designator_expr.path:P designator_expr.value:E")],
    "EXPR_EMBED": [("", "embed_expr.filename:E embed_expr.len:E")],
    "EXPR_GENERIC_IDENT": [("", "generic_ident_expr.parent:e generic_ident_expr.parmeters:E*")],
    "EXPR_IDENTIFIER": [("", "ident_expr:rD")],
    "EXPR_LAMBDA": [("", "lambda_expr:L")],
    "EXPR_MACRO_BLOCK": [("", "macro_block.params:D* macro_block.first_stmt:a macro_block.macro:rD")],
    "EXPR_MACRO_BODY": [("", "macro_body_expr.body:A macro_body_expr.body_arguments:D*")],
    "EXPR_MACRO_BODY_EXPANSION": [("", "body_expansion_expr.values:E* body_expansion_expr.declarations:D* body_expansion_expr.first_stmt:a")],
    "EXPR_MAKE_ANY": [("", "make_any_expr.inner:E make_any_expr.typeid:E")],
    "EXPR_MAKE_SLICE": [("", "make_slice_expr.ptr:E")],
    "EXPR_MEMBER_GET": [("", "member_get_expr:rD")],
    "EXPR_NAMED_ARGUMENT": [("", "named_argument_expr.value:E")],
    "EXPR_OTHER_CONTEXT": [("", "expr_other_context.inner:E")],
    "EXPR_POINTER_OFFSET": [("", "pointer_offset_expr.ptr:e pointer_offset_expr.offset:e")],
    "EXPR_UNARY": [("", "unary_expr.expr:E")], "EXPR_POST_UNARY": [("", "unary_expr.expr:E")],
    "EXPR_RETHROW": [("", "rethrow_expr.inner:E rethrow_expr.cleanup:a")],
    "EXPR_SLICE": rng("slice_expr.range", "slice_expr.expr:e"),
    "EXPR_VASPLAT": rng("vasplat_expr", "")[:2],
    "EXPR_SLICE_ASSIGN": [("", "slice_assign_expr.left:e slice_assign_expr.right:e")],
    "EXPR_SLICE_COPY": [("", "slice_assign_expr.left:e slice_assign_expr.right:e")],
    "EXPR_SUBSCRIPT": [("", "subscript_expr.expr:e subscript_expr.index.expr:e")],
    "EXPR_SUBSCRIPT_ADDR": [("", "subscript_expr.expr:e subscript_expr.index.expr:e")],
    "EXPR_SWIZZLE": [("", "swizzle_expr.parent:e")],
    "EXPR_TERNARY": [("", "ternary_expr.cond:e ternary_expr.then_expr:e ternary_expr.else_expr:e"),
                     ("ternary_expr.then_expr=0", "ternary_expr.cond:e ternary_expr.else_expr:e")],
    "EXPR_TWO": [("", "two_expr.first:E two_expr.last:E")],
    "EXPR_TRY": [("try_expr.assign_existing=1", "try_expr.optional:E try_expr.lhs:E"),
                 ("try_expr.assign_existing=0", "try_expr.optional:E try_expr.decl:D"),
                 ("try_expr.assign_existing=0 try_expr.optional=0", "try_expr.decl:rD")],
    "EXPR_TRY_UNRESOLVED": [("", "unresolved_try_expr.variable:E unresolved_try_expr.init:E unresolved_try_expr.type:T")],
    "EXPR_TRY_UNWRAP_CHAIN": [("", "try_unwrap_chain_expr:E*")],
    "EXPR_TYPEID": [("", "typeid_expr:T")],
    "EXPR_TYPEINFO": [("", "type_expr:T")],
    "EXPR_TYPEID_INFO": [("", "typeid_info_expr.parent:e")],
    "EXPR_EXT_TRUNC": [("", "ext_trunc_expr.inner:E")],
    "EXPR_INT_TO_BOOL": [("", "int_to_bool_expr.inner:E")],
}
for _k in ("VECTOR_TO_ARRAY SLICE_TO_VEC_ARRAY SCALAR_TO_VECTOR FORCE_UNWRAP FLOAT_TO_INT INT_TO_FLOAT INT_TO_PTR PTR_TO_INT OPTIONAL "
           "ENUM_FROM_ORD ADDR_CONVERSION PTR_ACCESS RVALUE RECAST SLICE_LEN VECTOR_FROM_ARRAY DISCARD").split():
    EXPR["EXPR_" + _k] = INNER
# kinds without children
for _k in "NOP BUILTIN RETVAL OPERATOR_CHARS BENCHMARK_HOOK TEST_HOOK COMPILER_CONST LAST_FAULT UNRESOLVED_IDENTIFIER CT_IDENT HASH_IDENT".split():
    EXPR["EXPR_" + _k] = [("", "")]

AST = {
    "AST_ASM_BLOCK_STMT": [("asm_block_stmt.is_string=1", "asm_block_stmt.asm_string:e"),
                           ("asm_block_stmt.is_string=0", "asm_block_stmt.block:B")],
    "AST_ASM_LABEL": [("", "")],
    "AST_ASM_STMT": [("", "asm_stmt.args:E*")],
    "AST_ASSERT_STMT": [("", "assert_stmt.expr:e assert_stmt.message:e assert_stmt.args:E*")],
    "AST_CT_ASSERT": [("", "assert_stmt.expr:e assert_stmt.message:e assert_stmt.args:E*")],
    "AST_BLOCK_EXIT_STMT": [("", "return_stmt.expr:E return_stmt.cleanup:a return_stmt.cleanup_fail:a")],
    "AST_RETURN_STMT": [("", "return_stmt.expr:E return_stmt.cleanup:a return_stmt.cleanup_fail:a")],
    "AST_BREAK_STMT": [("contbreak_stmt.is_resolved=1", "contbreak_stmt.ast:ra contbreak_stmt.defers:a")],
    "AST_CONTINUE_STMT": [("contbreak_stmt.is_resolved=1", "contbreak_stmt.ast:ra contbreak_stmt.defers:a")],
    "AST_CASE_STMT": [("", "case_stmt.expr:e case_stmt.to_expr:e case_stmt.body:A")],
    "AST_DEFAULT_STMT": [("", "case_stmt.body:A")],
    "AST_COMPOUND_STMT": [("", "compound_stmt.first_stmt:a")],
    "AST_CT_COMPOUND_STMT": [("", "ct_compound_stmt:a")],
    "AST_CT_ECHO_STMT": [("", "expr_stmt:E")],
    "AST_EXPR_STMT": [("", "expr_stmt:E")],
    "AST_CT_ELSE_STMT": [("", "ct_else_stmt:a")],
    "AST_CT_FOREACH_STMT": [("", "ct_foreach_stmt.index:d ct_foreach_stmt.value:d ct_foreach_stmt.body:a ct_foreach_stmt.expr:e")],
    "AST_CT_FOR_STMT": [("", "for_stmt.cond:e for_stmt.incr:e for_stmt.init:e for_stmt.body:a")],
    "AST_FOR_STMT": [("", "for_stmt.cond:e for_stmt.incr:e for_stmt.init:e for_stmt.body:a")],
    "AST_CT_IF_STMT": [("", "ct_if_stmt.expr:E ct_if_stmt.elif:a ct_if_stmt.then:a")],
    "AST_CT_SWITCH_STMT": [("", "ct_switch_stmt.cond:e ct_switch_stmt.body:A*")],
    "AST_DECLARE_STMT": [("", "declare_stmt:D")],
    "AST_DECLS_STMT": [("", "decls_stmt:D*")],
    "AST_DEFER_STMT": [("", "defer_stmt.body:a")],
    "AST_FOREACH_STMT": [("", "foreach_stmt.enumeration:e foreach_stmt.index:d foreach_stmt.variable:d foreach_stmt.body:a")],
    "AST_IF_STMT": [("", "if_stmt.cond:e if_stmt.then_body:a if_stmt.else_body:a")],
    "AST_NEXTCASE_STMT": [("$unresolved", "nextcase_stmt.expr:e"), ("$resolved", "nextcase_stmt.case_switch_stmt:ra nextcase_stmt.switch_expr:E nextcase_stmt.defer_id:a")],
    "AST_NOP_STMT": [("", "")],
    "AST_SWITCH_STMT": [("", "switch_stmt.cond:e switch_stmt.cases:C*")],
    "AST_CONTRACT": [("contract_stmt.kind=CONTRACT_REQUIRE", "contract_stmt.contract.decl_exprs:E"),
                     ("contract_stmt.kind=CONTRACT_ENSURE", "contract_stmt.contract.decl_exprs:E"),
                     ("contract_stmt.kind=CONTRACT_OPTIONALS", "contract_stmt.faults:A*"),
                     ("contract_stmt.kind=CONTRACT_PARAM", ""), ("contract_stmt.kind=CONTRACT_PURE", "")],
    "AST_CONTRACT_FAULT": [("contract_fault.resolved=0", "contract_fault.expr:E")],
}
# statements other code refers to (targets of break/continue/nextcase): a copy must be registered before its parts are copied
TARGETS = {"AST_FOR_STMT", "AST_IF_STMT", "AST_SWITCH_STMT", "AST_FOREACH_STMT", "AST_DEFER_STMT"}
# statements that may carry a label
LABELLED = {"AST_FOR_STMT", "AST_IF_STMT", "AST_SWITCH_STMT", "AST_FOREACH_STMT"}

AGG = " methods:D* interfaces:T* strukt.members:D*"
SIG = "{0}.params:D* {0}.rtype:t"
DECL = {
    "DECL_STRUCT": [("", AGG + " strukt.padded_decl_id:d")],
    "DECL_UNION": [("", AGG)],
    "DECL_BITSTRUCT": [("", AGG + " strukt.container_type:T")],
    "DECL_INTERFACE": [("", "methods:D* interfaces:T* interface_methods:D*")],
    "DECL_ENUM": [("", "methods:D* interfaces:T* enums.parameters:D* enums.values:D* enums.type_info:T")],
    "DECL_DISTINCT": [("", "methods:D* interfaces:T* distinct:T")],
    "DECL_ENUM_CONSTANT": [("", "enum_constant.args:E* enum_constant.parent:rd")],
    "DECL_FNTYPE": [("", SIG.format("fntype_decl"))],
    "DECL_FUNC": [("", SIG.format("func_decl.signature") + " func_decl.type_parent:t func_decl.docs:a func_decl.body:a")],
    "DECL_MACRO": [("", SIG.format("func_decl.signature") + " func_decl.type_parent:t func_decl.docs:a func_decl.body:a func_decl.body_param:d")],
    "DECL_ATTRIBUTE": [("", "attr_decl.params:D* attr_decl.attrs:G*")],
    "DECL_BODYPARAM": [("", "body_params:D*")],
    "DECL_CT_ASSERT": [("", "ct_assert_decl:A")],
    "DECL_CT_ECHO": [("", "ct_echo_decl:A")],
    "DECL_CT_EXEC": [("", "exec_decl.filename:E exec_decl.args:E* exec_decl.stdin_string:E")],
    "DECL_CT_INCLUDE": [("", "include.filename:E")],
    "DECL_DEFINE": [("resolve_status=RESOLVE_NOT_DONE", "define_decl.alias_expr:E"), ("resolve_status=RESOLVE_DONE", "define_decl.alias:rD")],
    "DECL_TYPEDEF": [("typedef_decl.is_func=1", "typedef_decl.decl:D"), ("typedef_decl.is_func=0", "typedef_decl.type_info:T")],
    "DECL_VAR": [("var.kind=VARDECL_BITMEMBER var.bit_is_expr=1", "var.type_info:t var.start:E var.end:E"),
                 ("var.kind=VARDECL_UNWRAPPED", "var.alias:rD"), ("var.kind=VARDECL_REWRAPPED", "var.alias:rD")]
    + [("var.kind=VARDECL_" + k, "var.type_info:t var.init_expr:E") for k in ("CONST", "GLOBAL", "LOCAL", "PARAM", "MEMBER", "PARAM_EXPR", "PARAM_CT", "PARAM_CT_TYPE", "LOCAL_CT", "LOCAL_CT_TYPE")],
    "DECL_FAULT": [("", "")],
    "DECL_IMPORT": [("", "")],
}

TYPEINFO = {
    "TYPE_INFO_IDENTIFIER": [("", "")], "TYPE_INFO_CT_IDENTIFIER": [("", "")],
    "TYPE_INFO_TYPEOF": [("", "unresolved_type_expr:E")], "TYPE_INFO_VATYPE": [("", "unresolved_type_expr:E")],
    "TYPE_INFO_EVALTYPE": [("", "unresolved_type_expr:E")], "TYPE_INFO_TYPEFROM": [("", "unresolved_type_expr:E")],
    "TYPE_INFO_ARRAY": [("", "array.base:T array.len:E")], "TYPE_INFO_VECTOR": [("", "array.base:T array.len:E")],
    "TYPE_INFO_INFERRED_ARRAY": [("", "array.base:T")], "TYPE_INFO_INFERRED_VECTOR": [("", "array.base:T")],
    "TYPE_INFO_SLICE": [("", "array.base:T")], "TYPE_INFO_POINTER": [("", "pointer:T")],
    "TYPE_INFO_GENERIC": [("", "generic.base:T generic.params:E*")],
}

CONSTINIT = {
    "CONST_INIT_ZERO": [("", "")],
    "CONST_INIT_STRUCT": [("", "init_struct:I*")],
    "CONST_INIT_UNION": [("", "init_union.element:I")],
    "CONST_INIT_VALUE": [("", "init_value:E")],
    "CONST_INIT_ARRAY": [("", "init_array.elements:I*")],
    "CONST_INIT_ARRAY_FULL": [("", "init_array_full:I*")],
    "CONST_INIT_ARRAY_VALUE": [("", "init_array_value.element:I")],
}
