"""CEL expressions of every syntactic shape (values do not matter here)."""

RECEIVERS = (
    "a", "inputs", "inputs.x", "steps.one", "locals.x", "parent.x", "resource.metadata.name",
    ".a", ".a.b", "f()", "f(1)", ".f()", ".f(1)", "a.m()", "a.m(1, b)", "(a)", "((a))",
    "(a.b)", "(a + b)", "(a ? b : c)", "(!a)", "(-a)", "[]", "[1]", "[a, b.c]", "{}",
    "{'k': 1}", "{'k': a.b, 'l': [1]}", "{1: 2}", "{true: 1}", "{a: b}", "'s'", '"s"', "''",
    "r's'", "'''m'''", '"""m"""', "b'b'", "1", "1u", "-1", "0x1f", "1.5", "1e3", ".5", "true",
    "false", "null", "a[0]", "a['k']", "a[b]", "a[0][1]", "a['k']['l'].m", "a{}", "a{f: 1}",
    "a.b{f: 1, g: 'x'}", "[1].map(x, x)", "inputs.x.filter(y, y > 1)", "has(a.b)", "size(a)",
    "type(a)", "dyn(a)", "inputs", "to_ref({'kind': 'k'})", "self_ref({'apiVersion': 'v'})",
    "'a,b'.split(',')", "[[1]].flatten()", "{'a': 1}.overlay({'b': 2})",
    "to_json({'a': 1})", "from_json('{}')", "b64encode('a')", "group_ref({})",
    "inputs['é']", "inputs.x['a.b/c']", "a[\"k\"]", "a[r'k']", "a['''k''']",
)
OPERATIONS = (
    "", ".x", ".x.y", "[0]", "[-1]", "['k']", "[\"k\"]", "[1u]", "[1.5]", "[true]", "[null]",
    "[b'k']", "[c]", "[c.d]", "[c[0]]", "[(0)]", "[0 + 1]", "['k' + 'l']", "[c ? 0 : 1]", "[!c]",
    "[f(c)]", "[[0]]", "[{}]", "[{'k': 1}.k]", ".m()", ".m(1)", ".m(c.d)", ".m().x", ".m(1)[0]",
    "[0].x", "[0][1]", "['k'].x['l']", ".x[0]", "{}", "{f: 1}", "{f: c.d}.x", ".map(v, v)",
    ".map(v, v.x)", ".filter(v, v.x > 1)", ".all(v, v)", ".exists(v, v)", ".exists_one(v, v)",
    ".reduce(acc, v, 0, acc + v)", ".min()", ".map(v, w, v)", ".map()", ".map(v)", ".map(1, 2)",
    ".startsWith('a')", ".matches('[')", ".size()", ".lower()", ".overlay({'a': 1})", ".in",
    ".if", " .x", "\n.x", ". x", "\t[ 0 ]", " // comment\n.x",
)
CONTEXTS = (
    "{}", "({})", "!{}", "-{}", "!!{}", "--{}", "{} + 1", "1 - {}", "{} * {}", "a / {}", "{} % 2",
    "{} == {}", "{} != null", "{} < 1", "{} >= a.b", "{} in a", "a in {}", "{} && {}", "a || {}",
    "{} ? 1 : 2", "a ? {} : b", "a ? b : {}", "[{}]", "[{}, {}]", "{{'k': {}}}", "{{{}: 1}}",
    "f({})", "f(1, {})", "a.m({})", "a[{}]", "a{{f: {}}}", "has({})", "[1].map(v, {})",
    "[1].filter(v, {})", "size({})", "string({})", "{} // trailing", "\n{}\n", "  {}",
)

ODD = (
    "", " ", "\n", "=", "= 1", "1 2", "a b", "(", ")", "[", "]", "{", "}", "a.", ".a.", "a..b",
    "a.true", "a true", "true a", "a.null", "null null", "1.2.3", "a[", "a]", "a[]", "f(", "f(,)",
    "{'a'}", "{'a': }", "{: 1}", "a ? b", "a ? : c", "&&", "a &&", "|| a", "a & b", "a | b", "a = b",
    "a === b", "!", "-", "!-", "a!", "'", '"', "'a", '"a', "'''a", "'a\nb'", "\\", "a\\b", "$a",
    "@", "#", "`a`", "~a", "a;b", "a,b", "é", "a.é", "日本", "\u200b", "\ufeffa", "\x00", "a\x00b",
    "'\x00'", "'\\", "'\\x'", "'\\xz1'", "'\\u12'", "'\\ud800'", "'\\U00110000'", "'\\777'", "b'\\777'",
    "b'é'", "b'\\u00e9'", "0x", "0xg", "1u1", "1uu", "99999999999999999999", "-9223372036854775809",
    "9223372036854775808", "18446744073709551616u", "-1u", "1e999", "1e-999", ".", "..", "1.", "1.e5",
    "if", "as", "for", "in", "var", "import", "package", "while", "return", "const", "as.b", "a.in",
    "if(a)", "for(x)", "in in in", "true.x", "type", "int", "dyn()", "has()", "has(a)", "has(a[0])",
    "has(1)", "has('a'.b)", "map(a, b)", "[].map(x.y, x)", "[].map('x', x)", "[].map(x, y, z, w)",
    "[].reduce(a)", "[].reduce(a, b, c, d, e)", "// only a comment", "a // c", "/* c */ a",
    "a\r\n.b", "a\f.b", "a\v.b", "inputs.", "inputs[", "inputs.x.", "steps", "steps.", "steps.x.",
    "steps[0]", "steps['one']", "steps[\"one\"]['x']", "steps[a]", "steps.one[0].x", "parent",
    "inputs", "inputs['x']", "inputs[0]", "inputs['x.y']", "inputs['[0]']", "inputs.x[0]",
    "locals", "resource", "template", "%", "%s", "{0}", "{}", "{a}", "%(a)s", "f'{a}'",
)  # fmt: skip


def shape(receiver, operation, context):
    return context.replace("{{", "\0").replace("}}", "\1").replace("{}", receiver + operation).replace(
        "\0", "{"
    ).replace("\1", "}")


def expression(rng, depth):
    """A random derivation of the CEL grammar."""
    roll = rng.random()
    if depth <= 0 or roll < 0.15:
        return rng.choice(RECEIVERS)
    if roll < 0.5:
        text = expression(rng, depth - 1) if rng.random() < 0.6 else rng.choice(RECEIVERS)
        for _ in range(rng.choice((1, 1, 1, 2, 3))):
            text += rng.choice(OPERATIONS)
        return text
    if roll < 0.75:
        context = rng.choice(CONTEXTS)
        parts = context.replace("{{", "\0").replace("}}", "\1").split("{}")
        text = parts[0]
        for part in parts[1:]:
            text += expression(rng, depth - 1) + part
        return text.replace("\0", "{").replace("\1", "}")
    if roll < 0.85:
        return f"{expression(rng, depth - 1)}[{expression(rng, depth - 1)}]"
    if roll < 0.93:
        return f"({expression(rng, depth - 1)} {rng.choice(('+', '==', '&&', 'in', '/'))} {expression(rng, depth - 1)})"
    return f"{expression(rng, depth - 1)}.{rng.choice('xyz')}({expression(rng, depth - 1)})"
