from . import ast, build, decl, diag, direct, lex, literal, llvmir, llvmarr, macro, macros, parse, progress, reading, status, stmt, vm, vmout, scope, types

REGISTRY = {
    'F01': lex.check_punct,
    'F02': lex.check_keywords,
    'F03': literal.check_literals,
    'F04': parse.check_expr,
    'F05': build.check_types,
    'F06': build.check_fold,
    'F12': build.check_typing,
    'F10': lex.check_builtins,
    'F07': stmt.check_stmt,
    'F08': scope.check_scope,
    'F09': ast.check_ast,
    'F11': types.check_types,
    'F14': decl.check_decl,
    'F13': progress.check_progress,
    'P01': macro.check_if,
    'P02': direct.check_directives,
    'P03': reading.check_reading,
    'P04': macros.check_macros,
    'D01': status.check_status,
    'D02': diag.check_diag,
    'L01': llvmir.check_expr,
    'L02': llvmir.check_stmt,
    'L03': llvmarr.check_arrays,
    'V01': vm.check_expr,
    'V02': vm.check_stmt,
    'V04': vm.check_calls,
    'V05': vmout.check,
}
