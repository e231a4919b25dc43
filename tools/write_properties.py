"""Writes properties.jsonl (kept as code so the statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
U="pyudunits2/_unit.py"; S="pyudunits2/_unit_system.py"; R="pyudunits2/_unit_reference.py"
G="pyudunits2/_grammar/__init__.py"; E="pyudunits2/_expr/"
p("C01","Dimensionality is a homomorphism from unit expressions",
  "The dimensionality of a unit is the exact integer sum of its factors' dimensionalities: products add, quotients subtract, integer powers (of any sign or size, including 0) multiply, and prefixes, numeric factors, offsets, logarithms and dimensionless basis units contribute nothing. Orders that cancel to zero are absent, so a unit is dimensionless exactly when everything cancels; a basis unit and an inverted dimensionality obey the same rules, and a dimensionality's keys, values, items, length and equality all tell the same orders. A unit is a time unit exactly when its dimensionality is the time basis to the power one.",
  ["inputs"],"every unit expression within the operand bound, every integer exponent, every definition chain of the unit system",
  "Tests pin a dozen expressions with small exponents; the rule must hold for every expression shape and every integer, including cancellations that only happen for particular exponents.",
  [U,E+"dimensionality.py",E+"split.py"],[("Unit.dimensionality",U),("DimensionalityCounter",E+"dimensionality.py")],["Unit.dimensionality()","Unit.is_dimensionless()","Unit.is_time_unit()"])
p("C02","Linear conversions multiply by the exact ratio of scales",
  "Converting a value between two units built from products, quotients, integer powers, numeric factors, prefixes and named definitions multiplies it by the exact ratio of the two units' scales when the dimensionalities agree, and gives the scaled reciprocal when they are each other's inverse. Dimensionless basis units such as radian count as 1, and so does an empty text. The resulting conversion expression has the input value as its only free variable.",
  ["inputs"],"every value, every non-zero coefficient, every expression shape within the bound",
  "Tests convert the number 10 between some thirty pairs; an arithmetic slip that cancels for those coefficients or shapes survives.",
  [U,E+"split.py",E+"sympy.py",E+"substitute.py"],[("Converter",U),("ToSympy",E+"sympy.py"),("Substitute",E+"substitute.py")],["Converter.expression","Converter.convert"])
p("C03","Offset units convert affinely, and offsets vanish inside products",
  "A unit defined or written as another unit shifted by c reads zero at c of that unit, so converting it to any compatible unit is affine with exactly that origin, and successive shifts (directly or through named definitions) accumulate in their own scales. An offset that is inside a product, quotient or power has no effect on the conversion, and neither the offset nor dropping it changes which factors the unit has. Converting in the other direction applies the exact inverse.",
  ["inputs"],"every value, offset (of either sign) and coefficient, every nesting within the bound",
  "Only Celsius, Fahrenheit and one shifted year are converted by tests; nesting, scaling and products of shifted units are sampled at single points.",
  [U,E+"split.py"],[("SplitExpr.visit_Shift",E+"split.py"),("Converter",U)],["Converter.expression"])
p("C04","Logarithmic units convert through the power of their base",
  "A value v in lg(re R) (also spelled log), ln(re R) or lb(re R) stands for 10**v, e**v or 2**v of the reference level R (including R's own scale, and recursively if R is logarithmic), and converting a linear unit to a logarithmic one takes the logarithm of the ratio to R. A multiple k of a logarithmic unit counts in steps of k of it (v times k lg(re R) is k*v in lg(re R)). Converting between two logarithmic units, or to a unit of inverse dimensionality, is the composition of these.",
  ["inputs"],"every value, every positive reference scale, the three bases, nesting depth within the bound",
  "Tests evaluate single points (value 10) for a handful of log units.",
  [U,E+"split.py",E+"sympy.py"],[("Converter",U),("ToSympy.visit_Logarithm",E+"sympy.py")],["Converter.expression"])
p("C05","Conversions round-trip, compose and fix identical units",
  "Converting a value from one unit to another and back gives the value again; converting through any intermediate compatible unit gives the same result as converting directly; converting a unit to itself changes nothing. This holds for linear, offset and logarithmic units alike.",
  ["inputs"],"every value for which the conversions are defined, every coefficient, every pair and triple of units within the bound",
  "No test composes or inverts two conversions; point tests of one direction cannot establish an identity over all values.",
  [U,E+"split.py"],[("Converter",U)],["Converter.convert","Converter.expression"])
p("C06","Convertibility verdicts are symmetric and match the converter",
  "Two units are convertible exactly when their dimensionalities are equal or each other's inverse; the verdict is reflexive and symmetric. A converter can be constructed exactly for the pairs reported convertible and otherwise raises IncompatibleUnitsError; reference-date units are convertible with nothing and never accepted by a converter.",
  ["inputs"],"every pair of units with any integer orders over the basis, including basis units, named units, offset, logarithmic and date units",
  "Tests check a few convertible and a few inconvertible pairs; symmetry and agreement of two separate code paths are relations over all pairs.",
  [U],[("Unit.is_convertible_to",U),("Converter.__init__",U),("DateUnit.is_convertible_to",U)],["Unit.is_convertible_to","Converter"])
p("C07","Unit equality means identical meaning",
  "Two units of one system compare equal exactly when they have the same scale, the same basis factors and the same offset or logarithmic transformation, however they are spelled (factor order, brackets, aliases, named or expanded definitions). Units that compare equal convert into each other unchanged; equality is reflexive and symmetric and never holds between a unit and something that is not one.",
  ["inputs"],"every pair of units within the expression bound, every coefficient",
  "Tests compare a few spellings; soundness (no two different units equal) quantifies over all pairs.",
  [U,E+"graph.py"],[("Unit.__eq__",U)],["Unit.__eq__"])
p("C08","Name lookup is unambiguous: exact names, then prefixes",
  "Looking up an identifier returns the unit registered under exactly that text if there is one (a name or name alias before a symbol or symbol alias), even if it could also be read as prefix plus unit. Otherwise it is read as one registered prefix followed by exactly one registered name or symbol (prefix names before prefix symbols, in registration order) and means the prefix's value times that unit, including when prefix and unit are spelled alike; anything else raises UnresolvableUnitException. Lookup is case sensitive and never matches part of a name.",
  ["inputs"],"every query text and every registry content within the length and size bounds",
  "Tests look up a few fixed identifiers in one registry; collisions between names, symbols, aliases and prefixes depend on all of their spellings together.",
  [S,R],[("UnitSystem.unit_by_name_or_symbol",S),("Prefix._expanded_expr",R)],["UnitSystem.unit_by_name_or_symbol","UnitSystem.unit"])
p("C09","Registration is all-or-nothing and makes every name reachable",
  "Registering a unit makes it reachable under its singular, its plural, each symbol and every alias (singular, plural and symbol); no other text changes meaning. Registering a unit whose name or symbol is already taken raises ValueError and leaves the system exactly as it was, unless replacement is requested, in which case exactly the new unit's own texts are redirected to it.",
  ["histories","inputs"],"every sequence of registrations within the bound, every spelling of names, plurals, symbols and aliases, every coincidence between them",
  "One test registers one duplicate; atomicity and reachability quantify over all coincidences of spellings in a history.",
  [S],[("UnitSystem.add_unit",S)],["UnitSystem.add_unit","UnitSystem.unit_by_name_or_symbol"])
p("C10","Lookups do not depend on earlier lookups",
  "What an identifier or expression means depends only on the registrations made so far, not on which lookups happened in between: definitions may be registered in any order, resolving one unit never redirects another unit's name, alias or symbol, and repeating a lookup gives the same unit (a definition is resolved once, so this supposes that the texts it relies on keep their meaning). A lookup that fails leaves the system as it was.",
  ["histories"],"every interleaving of registrations (with and without replacement) and lookups within the bound",
  "Tests use freshly built systems and one lookup each; lazily resolved definitions re-enter the registry, so the order of operations matters.",
  [S],[("LazilyDefinedUnit.resolve",S),("UnitSystem._unit_by_name",S),("UnitSystem._unit_by_symbol",S)],["UnitSystem.unit_by_name_or_symbol"])
p("C11","Expansion reaches the basis and keeps the meaning",
  "The expanded form of a unit mentions only basis units and numbers, for any depth of definitions and prefixes. Parsing the expanded text again gives a unit with the same dimensionality, scale and transformation as the original.",
  ["inputs"],"every unit expression and definition chain within the bound, every coefficient",
  "Tests compare the expanded text of a few units with a literal string, so they pin a rendering, not its meaning.",
  [U,E+"substitute.py",E+"graph.py"],[("Unit.expanded",U),("Substitute",E+"substitute.py")],["Unit.expanded()"])
p("C12","Only a shifted time unit is a date, and dates never nest",
  "An expression becomes a reference-date unit exactly when its outermost operation shifts a unit of dimension time^1; its unit part and reference text are preserved, it is never convertible, and its dimensionality is that of the unit. A date inside a larger expression, a logarithm or another shift is refused with ValueError, and a shift of any other unit by something that is not a number is refused too; all other shifts stay ordinary offset units.",
  ["inputs"],"every integer order of the time basis in the shifted expression, every nesting position within the bound, every operator spelling",
  "Tests try a few spellings; whether the shifted expression is time^1 depends on arbitrary cancellations in it.",
  [U,E+"normaliser.py"],[("_unit_from_expression_and_identifiers",U),("NormalisedExpressionGraph.visit_Shift",E+"normaliser.py")],["UnitSystem.unit","DateUnit"])
p("C13","Parsing yields the structure the UDUNITS-2 grammar prescribes",
  "A unit string parses to the expression tree the grammar defines: powers (^, **, juxtaposed or superscript digits, with sign) bind tighter than products, products and quotients associate to the left with every spelling of the operators, a shift applies to the whole product, brackets override, and log(re ...) wraps its argument. Numbers keep their exact value and sign, identifiers their exact text, and surrounding blanks do not matter.",
  ["inputs"],"every string of the grammar up to the operand bound, every digit, identifier character and exponent",
  "The parse tests are a table of literal strings; precedence and token boundaries depend on neighbouring characters in combination.",
  [G,"pyudunits2/_grammar/parser/"],[("UnitParseVisitor",G),("udunits2Lexer/udunits2Parser","pyudunits2/_grammar/parser/")],["pyudunits2._grammar.parse"])
p("C14","Text of a parsed unit parses back to the same meaning",
  "The text form of any parsed unit expression is itself accepted by the parser and denotes the same unit: same factors, same powers, same numbers, same shifts and logarithms. Rendering the re-parsed expression gives the same text again. (A zero may lose its sign.)",
  ["inputs"],"every expression tree within the bound, every integer exponent and coefficient",
  "Tests compare renderings with literals; whether brackets are needed depends on every parent/child operator pair and operand position.",
  [E+"graph.py",G],[("Node.__str__",E+"graph.py"),("normalize",G)],["str(unit)","pyudunits2._grammar.normalize"])
p("C15","Expression expansion preserves the product it rewrites",
  "Expanding and combining the factors of an expression (the simplifier behind canonical forms) yields an expression with the same value: the same total power of every identifier and the same numeric factor. Each identifier occurs at most once in the result, never with power zero, and which identifiers and powers result does not depend on the order of the factors.",
  ["inputs"],"every product/quotient/power tree within the bound, every integer power and coefficient",
  "Tests compare a handful of rendered expansions; combination rules trigger on particular exponent coincidences.",
  [E+"expander.py"],[("Expander",E+"expander.py"),("ChainedExpr.terms",E+"expander.py")],["Expander().visit"])
p("C16","The shipped unit database means what UDUNITS-2 means",
  "Every unit and prefix of the shipped database has the dimensionality, scale, offset and logarithmic reference that UDUNITS-2 gives it, so converting any value from it to its basis agrees with UDUNITS-2 to within floating-point rounding. Every UDUNITS-2 definition that the unit grammar can express is present.",
  ["configurations","inputs"],"every definition of the shipped XML database, every value",
  "The tests load the database and look at a few entries; a wrong digit or reference in any other definition, or in the code that composes them, goes unnoticed.",
  ["pyudunits2/udunits2_combined.xml","pyudunits2/_udunits2_xml_parser.py",U],[("read_all","pyudunits2/_udunits2_xml_parser.py")],["UnitSystem.from_udunits2_xml"])
p("C17","XML definitions become exactly the declared names and plurals",
  "Reading a unit database, in whatever encoding it declares, gives every unit exactly its declared singular, symbols and aliases, plus plurals: the declared plural if present, none if marked noplural, otherwise the UDUNITS-2 regular plural (y after a consonant becomes ies; s, x, z, ch, sh take es; everything else s). Prefixes keep their exact decimal value and every symbol, and declared dimensionless units are dimensionless.",
  ["inputs","configurations"],"every spelling of a name within the length bound, every combination of optional tags",
  "Tests cover a few literal names; the plural rule depends on the last letters of any name.",
  ["pyudunits2/_udunits2_xml_parser.py"],[("handle_name_tag","pyudunits2/_udunits2_xml_parser.py"),("handle_prefix","pyudunits2/_udunits2_xml_parser.py")],["UDUNITS2XMLParser.parse_file","UnitSystem.from_udunits2_xml"])
p("C18","Converting an array converts each element",
  "Converting an array gives an array of the same shape whose every element is what converting that element alone gives, which is also what the published conversion expression evaluates to; fixed-size integers are converted without wrapping around or losing the fraction. The input is not modified, and using a converter repeatedly or for other values does not change its results.",
  ["inputs","histories"],"every element value, every array length and shape within the bound, every kind of unit pair",
  "Three array tests with arange inputs check particular numbers, not independence between elements or calls.",
  [U],[("Converter.convert",U)],["Converter.convert"])
p("C19","Dates, times, names and prefixes are values: equality, hash and text agree",
  "Two times or date-times are equal exactly when their fields agree (a date-time's recorded source text does not count), equal ones have equal hashes, and different ones are not equal; the names, prefixes and unit references of a system are values in the same way, and no field of any of them can be changed. The text of a time shows every non-zero field at its proper decimal place, so that different times never print alike and reading the printed fields gives the time back.",
  ["inputs"],"every integer value of every field within calendar range, every pair of values",
  "Tests print and compare a few literals; hash/equality consistency and injectivity of the rendering are relations over all pairs.",
  ["pyudunits2/_datetime.py"],[("Time.__str__","pyudunits2/_datetime.py"),("DateTime.__eq__","pyudunits2/_datetime.py")],["Time","DateTime"])
p("C20","Unit operations have no side effects and systems are independent",
  "Inspecting, printing, comparing, expanding or converting units changes none of them: every operation gives the same answer no matter which operations came before, in which order or how often. Units of two separately built systems do not influence each other, even where both use the same names for different definitions.",
  ["histories"],"every sequence of observing operations within the bound, on units of one or two systems with arbitrary definitions",
  "Every test performs one operation on fresh objects; cached symbolic forms and shared expression nodes only matter across operations.",
  [U,S,E+"graph.py"],[("cached symbolic definition",U),("Substitute",E+"substitute.py")],["Unit","Converter"])
p("C21","Parsing any text gives an expression or a SyntaxError",
  "For every string whatsoever, parsing terminates and either returns an expression or raises SyntaxError; no other exception escapes and no part of the input is ignored, so text after a complete unit is an error. Every accepted expression can be printed.",
  ["inputs"],"every string over all of Unicode up to the length bound, and every single-character edit of the template strings",
  "Tests try about thirty invalid strings; the claim is about all strings.",
  [G,"pyudunits2/_grammar/parser/"],[("parse",G),("SyntaxErrorRaiser",G)],["pyudunits2._grammar.parse","UnitSystem.unit"])
p("C22","Sympy translation of an expression is faithful",
  "Translating any unit expression into its symbolic-algebra form keeps its meaning: the value obtained by substituting numbers for identifiers equals the value of the expression evaluated directly, for products, quotients, powers, shifts and logarithms of every base. Substituting identifiers in an expression is the same as substituting in its value, and two expression objects compare equal exactly when their values agree.",
  ["inputs"],"every expression tree within the bound, every positive assignment to identifiers and coefficients",
  "Tests compare rendered symbolic forms of a few expressions.",
  [E+"sympy.py",E+"substitute.py",U],[("ToSympy",E+"sympy.py"),("Substitute",E+"substitute.py"),("Expression",U)],["ToSympy().visit","Substitute(...).visit","Expression.__eq__"])
p("C23","The command line reports exactly what the library computes",
  "For any two units the conversion-expr command prints the library's conversion expression and succeeds exactly when the units are convertible, and otherwise says so and exits with status 1; explain-unit prints the unit's text, expanded form and dimensionality. Invalid or unknown units are reported as errors, never as a result, and an incomplete command line by the usage and a failure status.",
  ["inputs"],"every pair of units within the bound",
  "The CLI tests run three literal commands.",
  ["pyudunits2/__main__.py"],[("conv_expr_handler","pyudunits2/__main__.py"),("explain_handler","pyudunits2/__main__.py")],["pyudunits2.__main__"])
p("C24","The strict database reader refuses exactly what the other one ignores",
  "The reader of unit databases ignores every tag it has no meaning for, wherever it stands and whatever it is called or contains, and a second tag where one is meant: names, symbols, aliases, prefixes and definitions read are those of the same file without it. The strict reader refuses exactly the files which have such content, with ValueError. A file without any means the same to both, and the shipped database is one.",
  ["inputs"],"every tag name within the bound, at every place of a database, alone or with another",
  "No test reads a database with unknown content, strictly or not.",
  ["pyudunits2/_udunits2_xml_parser.py"],[("UDUNITS2XMLParser","pyudunits2/_udunits2_xml_parser.py"),("UnhandledContentDisallowed","pyudunits2/_udunits2_xml_parser.py")],
  ["UDUNITS2XMLParser.parse_file","UnhandledContentDisallowed.parse_file"])
p("C25","debug-parser shows every token of a text once, under a rule it matches",
  "For every text the debug-parser command succeeds and prints its tokens in the order of the text, each once, with the text it stands for and the name of a token rule of the unit grammar which that text matches. For a text the grammar accepts they make up the whole text without the blanks around it, none of them an error character, and nothing is complained about; a text the grammar refuses is complained about.",
  ["inputs"],"every text within the bound over all of Unicode, every digit of dates and clocks",
  "No test runs the command.",
  [G,"pyudunits2/__main__.py"],[("_debug_tokens",G),("debug_parsing_handler","pyudunits2/__main__.py")],["pyudunits2.__main__"])
p("C26","Expression trees are values, and traversals see every node once",
  "Two expression trees are equal exactly when they have the same operators in the same places over the same names and numbers, and equal ones have equal hashes; parsing a text twice, or spelling an operator in another way, gives an equal tree, and nothing about a tree can be changed. A node's children are exactly its operands in order. A visitor gets each node by the method for its class or else by the generic one, which goes on to every child once, and the identifiers found in a tree are exactly those in it.",
  ["inputs"],"every pair of trees within the bound, every name and number",
  "Tests compare parsed trees with a few literal ones; inequality, hashing and traversal are not tested.",
  [E+"graph.py",E+"atoms.py"],[("Node",E+"graph.py"),("Visitor",E+"graph.py"),("ExtractIdentifiers",E+"atoms.py")],["Node.__eq__","Node.__hash__","Node.children","Visitor.visit"])
p("C27","The parser accepts exactly the grammar's sentences and reads them its way",
  "For every sequence of tokens, parsing succeeds if and only if the sequence is a sentence of the token grammar in udunits2Parser.g4, and raises SyntaxError otherwise. The expression returned is the grammar's own reading of it: products and quotients group from the left, a power or a shift takes what the rules give it, and where a sequence can be read in two ways the alternative listed first is taken.",
  ["inputs"],"every sequence of tokens of any kind up to the length bound, and inside longer frames",
  "The parser is a generated table; tests reach a few dozen of its paths, and a wrong entry shows only for some combination of tokens.",
  [G,"pyudunits2/_grammar/parser/udunits2Parser.py","pyudunits2/_grammar/_antlr4_runtime/"],[("udunits2Parser","pyudunits2/_grammar/parser/udunits2Parser.py"),("UnitParseVisitor",G),("ParserATNSimulator","pyudunits2/_grammar/_antlr4_runtime/atn/ParserATNSimulator.py")],["pyudunits2._grammar.parse"])
p("C28","The lexer takes the longest token, the first of equals, in the grammar's mode",
  "Every text is cut into tokens as udunits2Lexer.g4 prescribes: from left to right, each token is the longest that any rule of the current mode matches, of the first such rule; a name switches to the mode in which a point or a hyphen multiplies, any token switches back, and a shift operator switches to the mode of dates and clocks. Characters no rule matches become error tokens; no character is dropped or read twice.",
  ["inputs"],"every text of the stated lengths over all of Unicode, and longer ones over the alphabets of numbers, dates, operators and words",
  "The lexer is a generated table of a thousand entries; tests reach few of them, and a wrong entry shows only for some characters at some places.",
  ["pyudunits2/_grammar/parser/udunits2Lexer.py","pyudunits2/_grammar/_antlr4_runtime/"],[("udunits2Lexer","pyudunits2/_grammar/parser/udunits2Lexer.py"),("LexerATNSimulator","pyudunits2/_grammar/_antlr4_runtime/atn/LexerATNSimulator.py"),("InputStream","pyudunits2/_grammar/_antlr4_runtime/InputStream.py")],["udunits2Lexer","pyudunits2._grammar.parse"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
