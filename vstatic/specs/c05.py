from typing import Any, Set
from antlr4 import CommonTokenStream, InputStream
from antlr4.error.ErrorStrategy import BailErrorStrategy
from andromede.expression.equality import expressions_equal
from andromede.expression.expression import *
from andromede.expression.parsing.antlr.ExprLexer import ExprLexer
from andromede.expression.parsing.antlr.ExprParser import ExprParser
from andromede.expression.parsing.parse_expression import (AntaresParseException, ExpressionNodeBuilderVisitor, ModelIdentifiers, parse_expression,
    _RaisingErrorListener)

OPTIONS = {"*": {"algebra": False, "cut": ["andromede.expression.equality.expressions_equal"], "ignore_effects": True,
                 "xtypes": {"accept": "andromede.expression.expression.ExpressionNode", "getText": "str"}},
           "parse": {"ignore_effects": False}, "addsub": {"algebra": True}, "shift_addsub": {"algebra": True}}


def build(c: Any, v: ExpressionNodeBuilderVisitor) -> ExpressionNode:
    return c.accept(v)


def identifier(i: ModelIdentifiers, n: str) -> ExpressionNode:
    if n in i.variables:
        return VariableNode(n)
    if n in i.parameters:
        return ParameterNode(n)
    raise ValueError("")


def impl_port_field_expr(i: ModelIdentifiers, c: Any):
    return ExpressionNodeBuilderVisitor(i).visitPortFieldExpr(c)


def ref_port_field_expr(i: ModelIdentifiers, c: Any):
    v = ExpressionNodeBuilderVisitor(i)
    return PortFieldNode(c.IDENTIFIER(0).getText(), c.IDENTIFIER(1).getText())


def impl_fullexpr(i: ModelIdentifiers, c: Any):
    return ExpressionNodeBuilderVisitor(i).visitFullexpr(c)


def ref_fullexpr(i: ModelIdentifiers, c: Any):
    v = ExpressionNodeBuilderVisitor(i)
    return build(c.expr(), v)


def impl_number(i: ModelIdentifiers, c: Any):
    return ExpressionNodeBuilderVisitor(i).visitNumber(c)


def ref_number(i: ModelIdentifiers, c: Any):
    v = ExpressionNodeBuilderVisitor(i)
    return LiteralNode(float(c.NUMBER().getText()))


def impl_identifier(i: ModelIdentifiers, c: Any):
    return ExpressionNodeBuilderVisitor(i).visitIdentifier(c)


def ref_identifier(i: ModelIdentifiers, c: Any):
    v = ExpressionNodeBuilderVisitor(i)
    return identifier(i, c.IDENTIFIER().getText())


def impl_muldiv(i: ModelIdentifiers, c: Any):
    if c.op.text not in ("*", "/"):
        return None  # the grammar admits no other operator here
    return ExpressionNodeBuilderVisitor(i).visitMuldiv(c)


def ref_muldiv(i: ModelIdentifiers, c: Any):
    v = ExpressionNodeBuilderVisitor(i)
    a = build(c.expr(0), v)
    b = build(c.expr(1), v)
    if c.op.text == "*":
        return MultiplicationNode(a, b)
    if c.op.text == "/":
        return DivisionNode(a, b)
    return None


def impl_addsub(i: ModelIdentifiers, c: Any):
    if c.op.text not in ("+", "-"):
        return None  # the grammar admits no other operator here
    return ExpressionNodeBuilderVisitor(i).visitAddsub(c)


def ref_addsub(i: ModelIdentifiers, c: Any):
    v = ExpressionNodeBuilderVisitor(i)
    a = build(c.expr(0), v)
    b = build(c.expr(1), v)
    if c.op.text == "+":
        return AdditionNode([a, b])
    if c.op.text == "-":
        return AdditionNode([a, NegationNode(b)])
    return None


def impl_shift_addsub(i: ModelIdentifiers, c: Any):
    if c.op.text not in ("+", "-"):
        return None  # the grammar admits no other operator here
    return ExpressionNodeBuilderVisitor(i).visitShiftAddsub(c)


def ref_shift_addsub(i: ModelIdentifiers, c: Any):
    v = ExpressionNodeBuilderVisitor(i)
    a = build(c.shift_expr(), v)
    b = build(c.right_expr(), v)
    if c.op.text == "+":
        return AdditionNode([a, b])
    if c.op.text == "-":
        return AdditionNode([a, NegationNode(b)])
    return None


def impl_shift_muldiv(i: ModelIdentifiers, c: Any):
    if c.op.text not in ("*", "/"):
        return None  # the grammar admits no other operator here
    return ExpressionNodeBuilderVisitor(i).visitShiftMuldiv(c)


def ref_shift_muldiv(i: ModelIdentifiers, c: Any):
    v = ExpressionNodeBuilderVisitor(i)
    a = build(c.shift_expr(), v)
    b = build(c.right_expr(), v)
    if c.op.text == "*":
        return MultiplicationNode(a, b)
    if c.op.text == "/":
        return DivisionNode(a, b)
    return None


def impl_right_muldiv(i: ModelIdentifiers, c: Any):
    if c.op.text not in ("*", "/"):
        return None  # the grammar admits no other operator here
    return ExpressionNodeBuilderVisitor(i).visitRightMuldiv(c)


def ref_right_muldiv(i: ModelIdentifiers, c: Any):
    v = ExpressionNodeBuilderVisitor(i)
    a = build(c.right_expr(0), v)
    b = build(c.right_expr(1), v)
    if c.op.text == "*":
        return MultiplicationNode(a, b)
    if c.op.text == "/":
        return DivisionNode(a, b)
    return None


def impl_negation(i: ModelIdentifiers, c: Any):
    return ExpressionNodeBuilderVisitor(i).visitNegation(c)


def ref_negation(i: ModelIdentifiers, c: Any):
    v = ExpressionNodeBuilderVisitor(i)
    return NegationNode(build(c.expr(), v))


def impl_expression(i: ModelIdentifiers, c: Any):
    return ExpressionNodeBuilderVisitor(i).visitExpression(c)


def ref_expression(i: ModelIdentifiers, c: Any):
    v = ExpressionNodeBuilderVisitor(i)
    return build(c.expr(), v)


def impl_unsigned_atom(i: ModelIdentifiers, c: Any):
    return ExpressionNodeBuilderVisitor(i).visitUnsignedAtom(c)


def ref_unsigned_atom(i: ModelIdentifiers, c: Any):
    v = ExpressionNodeBuilderVisitor(i)
    return build(c.atom(), v)


def impl_port_field(i: ModelIdentifiers, c: Any):
    return ExpressionNodeBuilderVisitor(i).visitPortField(c)


def ref_port_field(i: ModelIdentifiers, c: Any):
    v = ExpressionNodeBuilderVisitor(i)
    return build(c.portFieldExpr(), v)


def impl_port_field_sum(i: ModelIdentifiers, c: Any):
    return ExpressionNodeBuilderVisitor(i).visitPortFieldSum(c)


def ref_port_field_sum(i: ModelIdentifiers, c: Any):
    v = ExpressionNodeBuilderVisitor(i)
    return PortFieldAggregatorNode(build(c.portFieldExpr(), v), "PortSum")


def impl_comparison(i: ModelIdentifiers, c: Any):
    return ExpressionNodeBuilderVisitor(i).visitComparison(c)


def ref_comparison(i: ModelIdentifiers, c: Any):
    v = ExpressionNodeBuilderVisitor(i)
    op = c.COMPARISON().getText()
    a = build(c.expr(0), v)
    b = build(c.expr(1), v)
    if op == "=":
        return ComparisonNode(a, b, Comparator.EQUAL)
    if op == "<=":
        return ComparisonNode(a, b, Comparator.LESS_THAN)
    if op == ">=":
        return ComparisonNode(a, b, Comparator.GREATER_THAN)
    raise KeyError("")


def impl_time_index(i: ModelIdentifiers, c: Any):
    return ExpressionNodeBuilderVisitor(i).visitTimeIndex(c)


def ref_time_index(i: ModelIdentifiers, c: Any):
    v = ExpressionNodeBuilderVisitor(i)
    return TimeEvalNode(identifier(i, c.IDENTIFIER().getText()), build(c.expr(), v))


def impl_time_index_expr(i: ModelIdentifiers, c: Any):
    return ExpressionNodeBuilderVisitor(i).visitTimeIndexExpr(c)


def ref_time_index_expr(i: ModelIdentifiers, c: Any):
    v = ExpressionNodeBuilderVisitor(i)
    return TimeEvalNode(build(c.expr(0), v), build(c.expr(1), v))


def impl_time_shift(i: ModelIdentifiers, c: Any):
    return ExpressionNodeBuilderVisitor(i).visitTimeShift(c)


def ref_time_shift(i: ModelIdentifiers, c: Any):
    v = ExpressionNodeBuilderVisitor(i)
    e = identifier(i, c.IDENTIFIER().getText())
    s = build(c.shift(), v)
    if expressions_equal(s, LiteralNode(0)):
        return e
    return TimeShiftNode(e, s)


def impl_time_shift_expr(i: ModelIdentifiers, c: Any):
    return ExpressionNodeBuilderVisitor(i).visitTimeShiftExpr(c)


def ref_time_shift_expr(i: ModelIdentifiers, c: Any):
    v = ExpressionNodeBuilderVisitor(i)
    e = build(c.expr(), v)
    s = build(c.shift(), v)
    if expressions_equal(s, LiteralNode(0)):
        return e
    return TimeShiftNode(e, s)


def impl_time_sum(i: ModelIdentifiers, c: Any):
    return ExpressionNodeBuilderVisitor(i).visitTimeSum(c)


def ref_time_sum(i: ModelIdentifiers, c: Any):
    v = ExpressionNodeBuilderVisitor(i)
    return TimeSumNode(build(c.expr(), v), build(c.from_, v), build(c.to, v))


def impl_all_time_sum(i: ModelIdentifiers, c: Any):
    return ExpressionNodeBuilderVisitor(i).visitAllTimeSum(c)


def ref_all_time_sum(i: ModelIdentifiers, c: Any):
    v = ExpressionNodeBuilderVisitor(i)
    return AllTimeSumNode(build(c.expr(), v))


def impl_function(i: ModelIdentifiers, c: Any):
    return ExpressionNodeBuilderVisitor(i).visitFunction(c)


def ref_function(i: ModelIdentifiers, c: Any):
    v = ExpressionNodeBuilderVisitor(i)
    if c.IDENTIFIER().getText() != "expec":
        raise ValueError("")
    return ScenarioOperatorNode(build(c.expr(), v), "Expectation")


def impl_shift(i: ModelIdentifiers, c: Any):
    return ExpressionNodeBuilderVisitor(i).visitShift(c)


def ref_shift(i: ModelIdentifiers, c: Any):
    v = ExpressionNodeBuilderVisitor(i)
    return LiteralNode(0) if c.shift_expr() is None else build(c.shift_expr(), v)


def impl_signed_expression(i: ModelIdentifiers, c: Any):
    return ExpressionNodeBuilderVisitor(i).visitSignedExpression(c)


def ref_signed_expression(i: ModelIdentifiers, c: Any):
    v = ExpressionNodeBuilderVisitor(i)
    return NegationNode(build(c.expr(), v)) if c.op.text == "-" else build(c.expr(), v)


def impl_signed_atom(i: ModelIdentifiers, c: Any):
    return ExpressionNodeBuilderVisitor(i).visitSignedAtom(c)


def ref_signed_atom(i: ModelIdentifiers, c: Any):
    v = ExpressionNodeBuilderVisitor(i)
    return NegationNode(build(c.atom(), v)) if c.op.text == "-" else build(c.atom(), v)


def impl_right_expression(i: ModelIdentifiers, c: Any):
    return ExpressionNodeBuilderVisitor(i).visitRightExpression(c)


def ref_right_expression(i: ModelIdentifiers, c: Any):
    v = ExpressionNodeBuilderVisitor(i)
    return build(c.expr(), v)


def impl_right_atom(i: ModelIdentifiers, c: Any):
    return ExpressionNodeBuilderVisitor(i).visitRightAtom(c)


def ref_right_atom(i: ModelIdentifiers, c: Any):
    v = ExpressionNodeBuilderVisitor(i)
    return build(c.atom(), v)


def impl_is_variable(i: ModelIdentifiers, n: str):
    return (i.is_variable(n), i.is_parameter(n))


def ref_is_variable(i: ModelIdentifiers, n: str):
    return (n in i.variables, n in i.parameters)


def impl_parse(e: str, i: ModelIdentifiers):
    return parse_expression(e, i)


def ref_parse(e: str, i: ModelIdentifiers):
    try:
        lexer = ExprLexer(InputStream(e))
        lexer.removeErrorListeners()
        lexer.addErrorListener(_RaisingErrorListener())
        parser = ExprParser(CommonTokenStream(lexer))
        parser._errHandler = BailErrorStrategy()
        return ExpressionNodeBuilderVisitor(i).visit(parser.fullexpr())
    except Exception as x:
        raise AntaresParseException("")


def impl_listener(l: int, c: int, m: str, s: Any):
    return _RaisingErrorListener().syntaxError(s, s, l, c, m, s)


def ref_listener(l: int, c: int, m: str, s: Any):
    raise ValueError("")
